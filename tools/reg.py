import re,glob,os
d='/verif/checks/src/'
ms=sorted(os.path.basename(f)[:-3] for f in glob.glob(d+'*.rs')); ms.remove('main')
cs=[m for m in ms if re.fullmatch(r'c\d\d',m)]
# These need features the other build of C36 is without.
full={'c37','edges','c06','c07','c15','c16','c30','c35','c38'}
g=lambda m: '#[cfg(feature = "full")]\n' if m in full else ''
s="#![allow(dead_code, unused_imports, clippy::all)]\n"+''.join(f"{g(m)}mod {m};\n" for m in ms)
s+="""#[cfg(feature = "full")]
#[global_allocator]
static ALLOC: c37::Counter = c37::Counter;
fn main() {
    if std::env::args().nth(1).as_deref() == Some("twin") {
        return c36::twin();
    }
    run();
}
#[cfg(not(feature = "full"))]
fn run() {}
#[cfg(feature = "full")]
fn run() {
    if std::env::args().nth(1).as_deref() == Some("mem") {
        return c37::mem();
    }
    // Used by setup.sh: compiles what the programs of C16 depend on.
    if std::env::args().nth(1).as_deref() == Some("prepare") {
        std::process::exit(i32::from(!c16::prepare()));
    }
    std::process::exit(kit::runner::main_with(vec![
"""+''.join(f"        {m}::prop(),\n" for m in cs)+"    ]));\n}\n"
open(d+'main.rs','w').write(s)
