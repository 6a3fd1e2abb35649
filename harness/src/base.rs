#[macro_use]
mod mac {
    macro_rules! harness {
        ($n:ident, |$a:ident, $b:ident, $c:ident, $d:ident| $body:block) => {
            pub mod $n {
                #[allow(unused_imports)]
                use super::*;
                #[allow(unused_variables)]
                pub fn run($a: u64, $b: u64, $c: u64, $d: u64) $body
                #[no_mangle]
                pub extern "C" fn $n(a: u64, b: u64, c: u64, d: u64) {
                    run(a, b, c, d)
                }
            }
        };
    }
}
pub mod sym;
pub mod refm;
pub mod cmp;
pub mod doc;
pub mod tab;
pub mod gen;
pub mod set;
pub mod ctor;
pub mod lay;
pub mod eq;
pub mod big;
pub mod near;

macro_rules! table {
    ($($m:ident :: $n:ident),* $(,)?) => {
        #[allow(dead_code)]
        pub fn dispatch(name: &str, a: [u64; 4]) -> bool {
            $( if name == stringify!($n) { $m::$n::run(a[0], a[1], a[2], a[3]); return true; } )*
            false
        }
    };
}
