//! Interface to the symbolic executor. Every symbolic variable is one byte;
//! variables are numbered in creation order, so a counterexample is a list of
//! values that the native replay feeds back in the same order.
mod sys {
    extern "C" {
        pub fn vp_arg() -> u64;
        pub fn vp_byte(lo: u8, hi: u8) -> u8;
        pub fn vp_pick(n: u64) -> u64;
        pub fn vp_choice(table: *const u8, n: u64, wordlen: u64, out: *mut u8) -> u8;
        pub fn vp_assume(c: bool);
        pub fn vp_check(c: bool, code: u32);
        pub fn vp_reach(code: u32);
        pub fn vp_out(v: u64);
        pub fn vp_text(p: *const u8, n: u64);
    }
}
/// Number of the job to run.
pub fn arg() -> u64 {
    unsafe { sys::vp_arg() }
}
/// A symbolic byte with lo <= byte <= hi.
pub fn byte(lo: u8, hi: u8) -> u8 {
    unsafe { sys::vp_byte(lo, hi) }
}
/// A value below n; every value is explored on a path of its own.
pub fn pick(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    unsafe { sys::vp_pick(n as u64) as usize }
}
/// A symbolic word of the vocabulary, left-aligned in a field padded with spaces.
pub fn choice(words: &[&str], out: &mut Vec<u8>) {
    let mut w = 0;
    for x in words {
        if x.len() > w {
            w = x.len();
        }
    }
    w += 1;
    let mut tab = Vec::with_capacity(w * words.len());
    for x in words {
        tab.extend_from_slice(x.as_bytes());
        for _ in x.len()..w {
            tab.push(b' ');
        }
    }
    let at = out.len();
    for _ in 0..w {
        out.push(b' ');
    }
    unsafe {
        sys::vp_choice(tab.as_ptr(), words.len() as u64, w as u64, out.as_mut_ptr().add(at));
    }
}
pub fn assume(c: bool) {
    unsafe { sys::vp_assume(c) }
}
pub fn check(c: bool, code: u32) {
    unsafe { sys::vp_check(c, code) }
}
/// Vacuity witness: the run must reach this on some path.
pub fn reach(code: u32) {
    unsafe { sys::vp_reach(code) }
}
/// Output compared between the encoding and the native build.
pub fn out(v: u64) {
    unsafe { sys::vp_out(v) }
}
/// The input under test, shown in reports.
pub fn text(b: &[u8]) {
    unsafe { sys::vp_text(b.as_ptr(), b.len() as u64) }
}
