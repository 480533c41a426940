//! Compiles exactly when a trace of nothing does.
#[macro_use]
extern crate rust_cp;
fn main() {
    de!();
}
