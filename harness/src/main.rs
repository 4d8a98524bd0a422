//! Harness: one entry per check. The engine executes the entries
//! symbolically; natively `main` runs the entry named on the command line on
//! the values of SX_IN.
#![allow(non_snake_case, clippy::all)]
mod sx;

/// entry points visible to the engine and to `main`
macro_rules! entries {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C" fn $name() $body )*
        pub const ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name as extern "C" fn())),*];
    };
}
pub(crate) use entries;

mod cp;
mod cxx;
mod func;
mod ops;
mod par;
mod pl;
mod prog;
mod rec;
mod sweep;
mod thr;
mod val;

fn main() {
    let want = std::env::args().nth(1).expect("entry name");
    for t in [ops::ENTRIES, sweep::ENTRIES, rec::ENTRIES, val::ENTRIES, pl::ENTRIES, cp::ENTRIES, func::ENTRIES, thr::ENTRIES, cxx::ENTRIES, par::ENTRIES] {
        for (n, f) in t {
            if *n == want {
                f();
                sx::finish();
                return;
            }
        }
    }
    eprintln!("no entry {}", want);
    std::process::exit(78);
}
