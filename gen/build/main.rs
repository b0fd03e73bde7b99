//! Writes the generated programs: every layout / formula / declaration within the bounds, in a
//! fixed order, next to what it must be equivalent to.
mod c13;
mod c19;
mod c20;
use std::{env, fs, path::Path};
fn main() {
    println!("cargo:rerun-if-changed=build");
    let out = env::var("OUT_DIR").unwrap();
    let put = |n: &str, s: String| fs::write(Path::new(&out).join(n), s).unwrap();
    let (quick, deep) = c19::text();
    put("c19.rs", quick);
    put("c19t.rs", deep);
    put("c13.rs", c13::text(false));
    put("c13t.rs", c13::text(true));
    put("c20.rs", c20::text());
}
