//! Checks of the runtime-support routines, over tables of function pointers so that the same
//! checks serve several builds of the library.
#![feature(f16, f128)]
pub mod bits;
pub mod floats;
pub mod ints;
pub mod libmfns;
pub mod mem;

/// Compare, and describe when asked to.
#[macro_export]
macro_rules! expect {
    ($log:expr, $bad:expr, $cond:expr, $($fmt:tt)*) => {
        if !$cond {
            $bad = true;
            if let Some(l) = $log.as_deref_mut() {
                if !l.is_empty() { l.push_str("; "); }
                l.push_str(&format!($($fmt)*));
            }
        }
    };
}
