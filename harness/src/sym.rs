//! The interface between the harnesses and whatever runs them: the symbolic executor (which
//! interprets the calls below) or the native replay driver (which answers them from a recorded
//! list of values).

extern "C-unwind" {
    fn __sym_var(bits: u32) -> u64;
    fn __sym_choose(n: u32) -> u32;
    fn __sym_assume(c: u32);
    fn __sym_assert(c: u32, p: *const u8, n: usize);
    fn __sym_observe(p: *const u8, n: usize);
    fn __sym_reach(p: *const u8, n: usize);
    fn __sym_fail(p: *const u8, n: usize) -> !;
    fn __sym_hash_stub(on: u32);
    fn __sym_concretize(v: u64) -> u64;
}

pub fn u8v() -> u8 {
    unsafe { __sym_var(8) as u8 }
}
pub fn u32v() -> u32 {
    unsafe { __sym_var(32) as u32 }
}
pub fn u64v() -> u64 {
    unsafe { __sym_var(64) }
}
/// an unconstrained value of `b` bits
pub fn bits(b: u32) -> u64 {
    unsafe { __sym_var(b) }
}
/// a symbolic value below `n` (one variable, no case split)
pub fn below(n: u64) -> u64 {
    let mut b = 1;
    while (1u64 << b) < n {
        b += 1;
    }
    let v = bits(b);
    assume(v < n);
    v
}
/// an exhaustive case split over 0..n
pub fn choose(n: u32) -> u32 {
    unsafe { __sym_choose(n) }
}
pub fn flag() -> bool {
    choose(2) == 1
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[choose(xs.len() as u32) as usize]
}
pub fn assume(c: bool) {
    unsafe { __sym_assume(c as u32) }
}
pub fn check(c: bool, m: &str) {
    unsafe { __sym_assert(c as u32, m.as_ptr(), m.len()) }
}
pub fn fail(m: &str) -> ! {
    unsafe { __sym_fail(m.as_ptr(), m.len()) }
}
pub fn reach(m: &str) {
    unsafe { __sym_reach(m.as_ptr(), m.len()) }
}
pub fn observe(b: &[u8]) {
    unsafe { __sym_observe(b.as_ptr(), b.len()) }
}
pub fn observe64(v: u64) {
    observe(&v.to_le_bytes())
}
/// names hash to a constant: equality of names is then decided by comparing them
pub fn hash_stub(on: bool) {
    unsafe { __sym_hash_stub(on as u32) }
}
/// case split over every feasible value
pub fn conc(v: u64) -> u64 {
    unsafe { __sym_concretize(v) }
}

/// `n` unconstrained bytes
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let k = (n - v.len()).min(8);
        let w = bits(8 * k as u32);
        for i in 0..k {
            v.push((w >> (8 * i)) as u8);
        }
    }
    v
}
/// a name of `n` unconstrained printable-or-control, non-NUL ASCII characters
pub fn name(n: usize) -> String {
    let v = bytes(n);
    let mut ok = true;
    for b in &v {
        ok &= (*b != 0) & (*b < 128);
    }
    assume(ok);
    unsafe { String::from_utf8_unchecked(v) }
}
/// a name of characters of the stated UTF-8 widths, all otherwise unconstrained (no NUL)
pub fn uname(widths: &[u8]) -> String {
    let mut v = vec![];
    let mut ok = true;
    for w in widths {
        let b = bytes(*w as usize);
        ok &= match *w {
            1 => (b[0] != 0) & (b[0] < 128),
            2 => (b[0] >= 0xc2) & (b[0] < 0xe0),
            3 => (b[0] >= 0xe1) & (b[0] < 0xed),
            _ => (b[0] >= 0xf1) & (b[0] < 0xf4),
        };
        for c in &b[1..] {
            ok &= *c & 0xc0 == 0x80;
        }
        v.extend_from_slice(&b);
    }
    assume(ok);
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    let mut i = 0;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}
