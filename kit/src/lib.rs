//! Property-based testing kit: choice-sequence generator with shrinking, a
//! strict ZIP reader, a strict XML parser and an XLSX reader. None of this
//! shares code with the crate under test.
pub mod runner;
pub mod src;
pub mod xl;
pub mod xml;
pub mod zipr;
pub mod gen;
pub mod opc;
pub mod grammar;

pub use runner::{Ctx, Fail, Family, Prop};
pub use src::Src;

pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($a:tt)*) => {
        return Err($crate::Fail { sig: ($sig).to_string(), msg: format!($($a)*) })
    };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !($c) { $crate::fail!($sig, $($a)*) }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            $crate::fail!($sig, "{}: got {:?}, expected {:?}", format!($($m)*), a, b)
        }
    }};
}
