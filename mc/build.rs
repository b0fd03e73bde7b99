//! The C library behind `special_fun` keeps the sign of Γ in a global variable, so two threads
//! evaluating Γ at once disturb each other. The harness explores on several threads: serialise
//! those calls (see core/src/serial.rs) so that what it judges is aegir and not that library.
fn main() {
    for f in ["gamma", "lgam", "gammaf", "lgamf"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--wrap={f}");
    }
    println!("cargo:rerun-if-changed=build.rs");
}
