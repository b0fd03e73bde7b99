//! `gamma` and friends of the C library, one at a time (linked in by `--wrap`, see mc/build.rs).
use std::sync::atomic::{AtomicBool, Ordering::*};

static BUSY: AtomicBool = AtomicBool::new(false);

extern "C" {
    fn __real_gamma(x: f64) -> f64;
    fn __real_lgam(x: f64) -> f64;
    fn __real_gammaf(x: f32) -> f32;
    fn __real_lgamf(x: f32) -> f32;
}
fn alone<R>(f: impl FnOnce() -> R) -> R {
    while BUSY.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
    let r = f();
    BUSY.store(false, Release);
    r
}
#[no_mangle]
pub extern "C" fn __wrap_gamma(x: f64) -> f64 { alone(|| unsafe { __real_gamma(x) }) }
#[no_mangle]
pub extern "C" fn __wrap_lgam(x: f64) -> f64 { alone(|| unsafe { __real_lgam(x) }) }
#[no_mangle]
pub extern "C" fn __wrap_gammaf(x: f32) -> f32 { alone(|| unsafe { __real_gammaf(x) }) }
#[no_mangle]
pub extern "C" fn __wrap_lgamf(x: f32) -> f32 { alone(|| unsafe { __real_lgamf(x) }) }
