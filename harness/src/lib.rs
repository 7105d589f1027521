//! Harnesses: bounded programs over the real crate whose inputs are symbolic.
//! Every `h_*` function is an entry point of the symbolic executor and, with
//! concrete inputs, of the native replayer.
#![allow(clippy::all)]
pub mod aux;
pub mod find;
pub mod model;
pub mod seq;
pub mod sx;
pub mod walk;

macro_rules! entries {
    ($($name:ident => $body:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $body })*
        pub fn entry(n: &str) -> Option<extern "C" fn()> {
            match n {
                $(stringify!($name) => Some($name),)*
                _ => None,
            }
        }
    };
}

entries! {
    h_seq => seq::h_seq();
    h_iter_range => aux::h_iter_range();
    h_shift => aux::h_shift();
    h_prefer => aux::h_prefer();
    h_order => aux::h_order();
    h_spot => aux::h_spot();
    h_filter => aux::h_filter();
    h_clone => aux::h_clone();
    h_slices => aux::h_slices();
    h_depth => aux::h_depth();
    h_ord => aux::h_ord();
    h_ordset => aux::h_ordset();
    h_rope => aux::h_rope();
    h_degenerate => aux::h_degenerate();
    h_inplace => aux::h_inplace();
    h_find => find::h_find();
    h_work => aux::h_work();
    h_ordwork => aux::h_ordwork();
}
