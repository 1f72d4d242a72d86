//! Harness runtime.  The symbolic engine replaces the `vp_*` functions; natively they replay a recorded input.
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

static INPUT: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static POS: AtomicUsize = AtomicUsize::new(0);
static EXPECT: AtomicBool = AtomicBool::new(false);
static SHOW: AtomicBool = AtomicBool::new(false);

#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_any(p: *mut u8, n: usize) {
    let inp = INPUT.lock().unwrap();
    for i in 0..n {
        let at = POS.fetch_add(1, SeqCst);
        unsafe { *p.add(i) = inp.get(at).copied().unwrap_or(0) };
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_assume(c: bool) {
    if !c {
        println!("ASSUME-FALSE");
        std::process::exit(3);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_assert(c: bool, p: *const u8, n: usize) {
    if !c {
        let m = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
        println!("ASSERT-FAILED {}", m);
        std::process::exit(1);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_cover(p: *const u8, n: usize) {
    if SHOW.load(SeqCst) {
        println!("COVER {}", unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) });
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_observe(v: u64) {
    println!("OBS {}", v);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_expect_panic(on: bool) {
    EXPECT.store(on, SeqCst);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_concretize(v: u64) -> u64 {
    v
}

/// Entry used natively: `vharness NAME HEXINPUT`.
pub fn native(table: &[(&str, extern "C" fn())]) {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        for t in table {
            println!("{}", t.0);
        }
        return;
    }
    let bytes: Vec<u8> = (0..a[2].len() / 2).map(|i| u8::from_str_radix(&a[2][2 * i..2 * i + 2], 16).unwrap()).collect();
    *INPUT.lock().unwrap() = bytes;
    SHOW.store(std::env::var_os("VP_SHOW").is_some(), SeqCst);
    std::panic::set_hook(Box::new(|i| {
        if EXPECT.load(SeqCst) {
            println!("EXPECTED-PANIC");
            println!("END");
            std::process::exit(0);
        }
        println!("PANIC {}", i);
        std::process::exit(101);
    }));
    for t in table {
        if t.0 == a[1] {
            t.1();
            println!("END");
            return;
        }
    }
    println!("NO-SUCH-HARNESS");
    std::process::exit(4);
}

// ---- helpers used by the harnesses (executed symbolically like everything else)
pub fn any_u8() -> u8 {
    let mut b = 0u8;
    vp_any(&mut b, 1);
    b
}
/// A symbolic choice below n.
pub fn choose(n: u8) -> u8 {
    let b = any_u8();
    vp_assume(b < n);
    b
}
/// A concrete (path-split) choice below n.
pub fn pick(n: u8) -> usize {
    let b = choose(n);
    vp_concretize(b as u64) as usize
}
pub fn any_bool() -> bool {
    let b = any_u8();
    vp_assume(b < 2);
    b == 1
}
/// A symbolic size below 2^56 (so that sums of some hundred of them do not overflow).
pub fn any_size() -> usize {
    let mut b = [0u8; 8];
    vp_any(b.as_mut_ptr(), 7);
    u64::from_le_bytes(b) as usize
}
/// A symbolic Unicode scalar value.
pub fn any_char() -> char {
    let mut b = [0u8; 3];
    vp_any(b.as_mut_ptr(), 3);
    let c = b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16;
    vp_assume(c < 0x11_0000);
    vp_assume(!(c >= 0xD800 && c < 0xE000));
    unsafe { char::from_u32_unchecked(c) }
}
#[inline(never)]
pub fn check(c: bool, msg: &'static str) {
    vp_assert(c, msg.as_ptr(), msg.len());
}
#[inline(never)]
pub fn cover(msg: &'static str) {
    vp_cover(msg.as_ptr(), msg.len());
}
