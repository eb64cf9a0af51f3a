//! Intrinsics of the symbolic executor, with the native meaning used when a path is replayed.
//!
//! Under `symx` these calls are intercepted. In the native binary they take the values of a
//! recorded path, in call order, from the replay file.

pub mod docsem;
pub mod gen;
pub mod holes;
pub mod refsem;
pub mod tl;

use std::sync::Mutex;

struct Replay {
    vals: Vec<u128>,
    pos: usize,
    reach: Vec<u32>,
}
static REPLAY: Mutex<Replay> = Mutex::new(Replay { vals: Vec::new(), pos: 0, reach: Vec::new() });

fn next() -> u128 {
    let mut r = REPLAY.lock().unwrap();
    let i = r.pos;
    r.pos += 1;
    r.vals.get(i).copied().unwrap_or(0)
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn v_u8() -> u8 {
    next() as u8
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn v_u16() -> u16 {
    next() as u16
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn v_u32() -> u32 {
    next() as u32
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn v_u64() -> u64 {
    next() as u64
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn v_choose(n: u32) -> u32 {
    if n == 0 {
        std::process::exit(77);
    }
    (next() as u32) % n
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn v_assume(c: bool) {
    if !c {
        println!("ASSUME-FALSE");
        std::process::exit(77);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn v_assert(c: bool, id: u32) {
    if !c {
        println!("ASSERT-FAILED {id}");
        finish();
        std::process::exit(66);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn v_reach(id: u32) {
    REPLAY.lock().unwrap().reach.push(id);
}
/// # Safety
/// `p` must be valid for `n` bytes.
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn v_bytes(p: *mut u8, n: usize) {
    for i in 0..n {
        unsafe { *p.add(i) = next() as u8 }
    }
}
/// # Safety
/// `p` must be valid for `n` bytes.
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn v_note(p: *const u8, n: usize) {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    println!("NOTE {}", String::from_utf8_lossy(s));
}

fn finish() {
    let r = REPLAY.lock().unwrap();
    println!("REACH {:?}", r.reach);
    println!("CONSUMED {} of {}", r.pos, r.vals.len());
}

pub type Entry = (&'static str, extern "C" fn(u64));

#[used]
static K1: [extern "C" fn(u32) -> u32; 1] = [v_choose];
#[used]
static K2: [extern "C" fn(bool); 1] = [v_assume];
#[used]
static K3: [extern "C" fn(bool, u32); 1] = [v_assert];
#[used]
static K4: [extern "C" fn(u32); 1] = [v_reach];
#[used]
static K5: [unsafe extern "C" fn(*mut u8, usize); 1] = [v_bytes];
#[used]
static K6: [unsafe extern "C" fn(*const u8, usize); 1] = [v_note];

/// `harness ENTRY TIER REPLAYFILE`: run one path natively.
pub fn run(table: &[Entry]) {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        for (n, _) in table {
            println!("{n}");
        }
        return;
    }
    let vals = match a.get(3) {
        Some(f) => std::fs::read_to_string(f).unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect(),
        None => vec![],
    };
    REPLAY.lock().unwrap().vals = vals;
    let f = table.iter().find(|(n, _)| *n == a[1]).expect("unknown entry").1;
    // big stack, so that only unbounded recursion overflows
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn({
            let t: u64 = a[2].parse().unwrap();
            move || f(t)
        })
        .unwrap()
        .join()
        .unwrap();
    finish();
    println!("DONE");
}

// ---- safe wrappers ---------------------------------------------------------------------------

pub fn u8_() -> u8 {
    v_u8()
}
pub fn u16_() -> u16 {
    v_u16()
}
pub fn u32_() -> u32 {
    v_u32()
}
pub fn u64_() -> u64 {
    v_u64()
}
pub fn flag() -> bool {
    v_choose(2) == 1
}
/// Case split: every value below `n` is explored on its own path.
pub fn choose(n: u32) -> u32 {
    v_choose(n)
}
pub fn assume(c: bool) {
    v_assume(c)
}
pub fn check(c: bool, id: u32) {
    v_assert(c, id)
}
pub fn reach(id: u32) {
    v_reach(id)
}
pub fn note(s: &str) {
    unsafe { v_note(s.as_ptr(), s.len()) }
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { v_bytes(v.as_mut_ptr(), n) };
    v
}
/// A symbolic byte below `n`, without splitting paths.
pub fn below(n: u8) -> u8 {
    let x = v_u8();
    v_assume(x < n);
    x
}
/// `n` symbolic ASCII characters as a string.
pub fn ascii(n: usize) -> String {
    let b = bytes(n);
    let mut or = 0;
    for x in &b {
        or |= *x;
    }
    v_assume(or < 128);
    unsafe { String::from_utf8_unchecked(b) }
}
/// `n` symbolic characters in `lo..=hi`.
pub fn chars_in(n: usize, lo: u8, hi: u8) -> String {
    let b = bytes(n);
    for x in &b {
        v_assume((*x >= lo) & (*x <= hi));
    }
    unsafe { String::from_utf8_unchecked(b) }
}
#[macro_export]
macro_rules! entries {
    ($($n:ident),* $(,)?) => {
        fn main() {
            static T: &[$crate::Entry] = &[$((stringify!($n), $n)),*];
            $crate::run(std::hint::black_box(T))
        }
    };
}
