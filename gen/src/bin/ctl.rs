//! Builds whenever the library itself does: tells a generated program that the macros broke from
//! a tree that does not build at all.
fn main() {
    let check = mc_core::engine::Check::new("C00");
    let _ = check.thorough();
    let _ = std::any::type_name::<aegir::meta::Variable<aegir::ids::X>>();
}
