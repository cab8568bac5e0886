//! The functions of the crate behind one C entry point; compiled with memory-access callbacks.
use std::panic::{catch_unwind, AssertUnwindSafe};
const NOREG: i32 = i32::MIN + 7;
/// returns 0 and writes the value, or 1 when the call panicked
#[no_mangle]
pub extern "C" fn vf_call(f: i32, a: f64, b: f64, o: i32, reg: i32, out: *mut f64) -> i32 {
    use seuif97::*;
    let r = catch_unwind(AssertUnwindSafe(|| {
        if reg == NOREG {
            match f {
                0 => pt(a, b, o),
                1 => ph(a, b, o),
                2 => ps(a, b, o),
                3 => hs(a, b, o),
                4 => pv(a, b, o),
                5 => tv(a, b, o),
                6 => th(a, b, o),
                7 => ts(a, b, o),
                8 => px(a, b, o),
                9 => tx(a, b, o),
                10 => hx(a, b, o),
                _ => sx(a, b, o),
            }
        } else {
            match f {
                0 => pt(a, b, (o, reg)),
                1 => ph(a, b, (o, reg)),
                2 => ps(a, b, (o, reg)),
                3 => hs(a, b, (o, reg)),
                4 => pv(a, b, (o, reg)),
                5 => tv(a, b, (o, reg)),
                6 => th(a, b, (o, reg)),
                _ => ts(a, b, (o, reg)),
            }
        }
    }));
    match r {
        Ok(v) => {
            unsafe { out.write_volatile(v) };
            0
        }
        Err(_) => 1,
    }
}
#[no_mangle]
pub extern "C" fn vf_quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}
