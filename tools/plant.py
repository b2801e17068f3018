#!/usr/bin/env python3
"""Creates and confirms a planted bug.

usage: plant.py SPEC.py     SPEC defines: id, prop, needs, breaks, edits
[(file, old, new)], rust (program that writes *.xlsx into its first argument
directory, or asserts itself), py (assertions over the files, may be empty;
helpers below are available).

Works in a scratch copy of /repo; keeps /verif/seeded/<id>/ only if the patch
compiles, passes the stable tests, and the demo fails with it and passes
without.
"""
import sys, os, json, subprocess, shutil, re
spec = {}
exec(open(sys.argv[1]).read(), spec)
W = '/tmp/plantrepo'
def sh(c, **k): return subprocess.run(c, shell=True, **k)
if not os.path.isdir(W): sh(f'cp -a /repo {W}')
sh(f'git -C {W} checkout -q -- . ; git -C {W} fetch -q /repo HEAD && git -C {W} checkout -q --detach FETCH_HEAD')
for f, old, new in spec['edits']:
    p = f'{W}/{f}'; t = open(p).read()
    if t.count(old) != 1: sys.exit(f'{f}: {t.count(old)} matches of {old!r}')
    open(p, 'w').write(t.replace(old, new))
out = f"/tmp/plant/{spec['id']}"; shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
open(out + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', W, 'diff'], text=True))
ORIG = '8b31036'
cur = None
for l in open(out + '/patch.diff'):
    if l.startswith('--- a/'): cur = subprocess.run(['git', '-C', '/repo', 'show', f'{ORIG}:{l[6:].strip()}'], capture_output=True, text=True).stdout.splitlines()
    elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:].rstrip('\n') not in cur: print('NOT ORIGINAL LINE', l.rstrip())
json.dump({"property": spec['prop'], "needs": spec['needs'], "what_it_breaks": spec['breaks']}, open(out + '/meta.json', 'w'), indent=1)
open(out + '/main.rs', 'w').write('#![allow(unused)]\nuse rust_xlsxwriter::*;\n' + spec['rust'])
HELP = '''import sys, os, zipfile, re
D = sys.argv[1]
def part(book, name):
    with zipfile.ZipFile(os.path.join(D, book)) as z:
        return z.read(name)
def text(book, name):
    return part(book, name).decode()
def names(book):
    with zipfile.ZipFile(os.path.join(D, book)) as z:
        return z.namelist()
'''
open(out + '/check.py', 'w').write(HELP + spec.get('py', ''))
feat = spec.get('features', 'chrono,serde')
extra = spec.get('deps', '')
open(out + '/demo.sh', 'w').write(f'''#!/bin/bash
# Run with cwd /repo. Exit 0: behaves as documented.
H=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/p/src" "$T/out"
cp "$H/main.rs" "$T/p/src/main.rs"
cat > "$T/p/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rust_xlsxwriter = {{ path = "$R", features = [{', '.join('"%s"' % f for f in feat.split(','))}] }}
{extra}
[workspace]
X
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/p/Cargo.lock"
cd "$T/p" || exit 3
export CARGO_TARGET_DIR="$T/target"
cargo build --offline -q 2>"$T/build.log" || {{ cat "$T/build.log"; exit 3; }}
timeout 120 "$T/target/debug/demo" "$T/out" || exit 1
python3 "$H/check.py" "$T/out" || exit 1
exit 0
''')
os.chmod(out + '/demo.sh', 0o755)
def demo(d):
    r = sh(f'bash {out}/demo.sh', cwd=d, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-1500:]
a = demo('/repo'); b = demo(W)
print('demo clean', a); print('demo bug', b)
if a[0] != 0 or b[0] != 1: sys.exit('demo does not discriminate')
if '--notest' in sys.argv: sys.exit()
E = 'export CARGO_TARGET_DIR=%s/target; ' % W
# the test scripts name /repo: run them over the scratch copy by substitution
sh(f"mkdir -p /tmp/vpc && for f in /opt/vp/*; do [ -f $f ] && sed 's|/repo|{W}|g; s|/opt/vp/|/tmp/vpc/|g' $f > /tmp/vpc/$(basename $f); done; chmod +x /tmp/vpc/*.sh; cp /opt/vp/BASELINE.json /tmp/vpc/")
r = sh('bash /tmp/vpc/test.sh /tmp/vpc/out.json', capture_output=True, text=True)
def ids(x):
    for k in ('passed', 'pass', 'stable', 'tests'):
        if isinstance(x, dict) and k in x: return set(x[k])
    return set(x)
bp = ids(json.load(open('/opt/vp/BASELINE.json'))); tp = ids(json.load(open('/tmp/vpc/out.json')))
print('baseline', len(bp), 'missing', len(bp - tp), sorted(bp - tp)[:5])
if bp - tp: sys.exit('tests notice it')
dst = f"/verif/seeded/{spec['id']}"; shutil.rmtree(dst, ignore_errors=True); shutil.copytree(out, dst)
print('KEPT', dst)
