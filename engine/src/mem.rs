//! Flat byte memory with a symbolic shadow (one expression per symbolic byte).
use crate::expr::{Arena, Val};
use crate::ir::MEM_BASE;
use std::ffi::c_void;

extern "C" {
    fn mmap(a: *mut c_void, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void;
    fn madvise(a: *mut c_void, l: usize, adv: i32) -> i32;
}

const RESERVE: u64 = 6 << 30;
const STACK_OFF: u64 = 0x0400_0000;
const HEAP_OFF: u64 = 0x0800_0000;
const PB: u32 = 8;
const PS: usize = 1 << PB;

pub struct Mem {
    p: *mut u8,
    tab: *mut u32,
    pages: Vec<[u32; PS]>,
    dirty: Vec<u32>,
    image: Vec<u8>,
    pub sp: u64,
    sp_max: u64,
    heap: u64,
    free: Vec<Vec<u64>>,
    pub oob: bool,
}

unsafe impl Send for Mem {}

fn map(len: usize) -> *mut u8 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), len, 3, 0x4022, -1, 0);
        assert!(p as isize != -1, "mmap failed");
        p as *mut u8
    }
}

fn class(n: u64) -> (usize, u64) {
    // size classes: multiples of 16 up to 1024, then powers of two
    if n <= 1024 {
        let c = ((n + 15) / 16).max(1);
        (c as usize, c * 16)
    } else {
        let p = n.next_power_of_two();
        (64 + p.trailing_zeros() as usize, p)
    }
}

impl Mem {
    pub fn new(image: &[u8]) -> Mem {
        assert!((image.len() as u64) < STACK_OFF);
        let mut m = Mem {
            p: map(RESERVE as usize),
            tab: map((RESERVE >> PB) as usize * 4) as *mut u32,
            pages: vec![[0; PS]],
            dirty: vec![],
            image: image.to_vec(),
            sp: 0,
            sp_max: 0,
            heap: 0,
            free: vec![],
            oob: false,
        };
        m.sp_max = STACK_OFF;
        m.heap = HEAP_OFF;
        m.reset();
        m
    }
    pub fn reset(&mut self) {
        unsafe {
            for d in &self.dirty {
                *self.tab.add(*d as usize) = 0;
            }
            self.dirty.clear();
            self.pages.truncate(1);
            let z = |a: u64, n: u64| {
                if n > 1 << 20 {
                    let n = (n + 4095) & !4095;
                    madvise(self.p.add(a as usize) as *mut c_void, n as usize, 4);
                } else {
                    std::ptr::write_bytes(self.p.add(a as usize), 0, n as usize);
                }
            };
            z(STACK_OFF, self.sp_max - STACK_OFF);
            z(HEAP_OFF, self.heap - HEAP_OFF);
            std::ptr::copy_nonoverlapping(self.image.as_ptr(), self.p, self.image.len());
        }
        self.sp = STACK_OFF;
        self.sp_max = STACK_OFF;
        self.heap = HEAP_OFF;
        self.free = vec![vec![]; 110];
        self.oob = false;
    }
    #[inline(always)]
    fn off(&mut self, a: u64, n: u64) -> usize {
        let o = a.wrapping_sub(MEM_BASE);
        if o >= RESERVE - n {
            self.oob = true;
            return (RESERVE - 4096) as usize;
        }
        o as usize
    }
    pub fn valid(&self, a: u64, n: u64) -> bool {
        a >= MEM_BASE && a.wrapping_sub(MEM_BASE) < RESERVE - n
    }
    pub fn alloca(&mut self, size: u64, align: u64) -> u64 {
        self.sp = (self.sp + align - 1) / align * align;
        let a = self.sp;
        self.sp += size.max(1);
        if self.sp > self.sp_max {
            self.sp_max = self.sp;
        }
        if self.sp >= HEAP_OFF {
            self.oob = true;
            self.sp = STACK_OFF;
            return STACK_OFF + MEM_BASE;
        }
        a + MEM_BASE
    }
    fn raw64(&self, o: u64) -> u64 {
        unsafe { (self.p.add(o as usize) as *const u64).read_unaligned() }
    }
    fn set64(&self, o: u64, v: u64) {
        unsafe { (self.p.add(o as usize) as *mut u64).write_unaligned(v) }
    }
    pub fn malloc(&mut self, n: u64, align: u64) -> u64 {
        if n > 1 << 32 {
            return 0;
        }
        let (c, sz) = class(n);
        if align <= 16 {
            if let Some(o) = self.free[c].pop() {
                return o + MEM_BASE;
            }
        }
        let align = align.max(16);
        let o = (self.heap + 16 + align - 1) / align * align;
        if o + sz + 65536 >= RESERVE {
            return 0;
        }
        self.set64(o - 16, sz);
        self.set64(o - 8, c as u64);
        self.heap = o + sz;
        o + MEM_BASE
    }
    pub fn calloc(&mut self, n: u64) -> u64 {
        let a = self.malloc(n, 16);
        if a != 0 {
            self.set(a, Val::c(0), n);
        }
        a
    }
    pub fn free(&mut self, a: u64) {
        if a == 0 {
            return;
        }
        let o = a - MEM_BASE;
        let c = self.raw64(o - 8);
        self.free[c as usize].push(o);
    }
    pub fn realloc(&mut self, a: u64, n: u64) -> u64 {
        if a == 0 {
            return self.malloc(n, 16);
        }
        let sz = self.raw64(a - MEM_BASE - 16);
        if n <= sz {
            return a;
        }
        let b = self.malloc(n, 16);
        if b == 0 {
            return 0;
        }
        self.copy(b, a, sz);
        self.free(a);
        b
    }
    /// no symbolic byte in the pages touched by [o, o+n)
    #[inline(always)]
    fn clean(&self, o: usize, n: usize) -> bool {
        unsafe {
            let mut p = o >> PB;
            let e = (o + n.max(1) - 1) >> PB;
            while p <= e {
                if *self.tab.add(p) != 0 {
                    return false;
                }
                p += 1;
            }
            true
        }
    }
    #[inline]
    fn sh(&self, o: usize) -> u32 {
        unsafe {
            let t = *self.tab.add(o >> PB);
            if t == 0 {
                0
            } else {
                self.pages[t as usize][o & (PS - 1)]
            }
        }
    }
    #[inline]
    fn set_sh(&mut self, o: usize, e: u32) {
        unsafe {
            let t = *self.tab.add(o >> PB);
            if t == 0 {
                if e == 0 {
                    return;
                }
                self.pages.push([0; PS]);
                let i = self.pages.len() as u32 - 1;
                *self.tab.add(o >> PB) = i;
                self.dirty.push((o >> PB) as u32);
                self.pages[i as usize][o & (PS - 1)] = e;
            } else {
                self.pages[t as usize][o & (PS - 1)] = e;
            }
        }
    }
    /// concrete or symbolic byte
    pub fn byte(&mut self, a: u64) -> Val {
        let o = self.off(a, 1);
        let e = self.sh(o);
        if e != 0 {
            Val { c: 0, e }
        } else {
            Val::c(unsafe { *self.p.add(o) } as u64)
        }
    }
    pub fn set_byte(&mut self, a: u64, v: Val) {
        let o = self.off(a, 1);
        self.set_sh(o, v.e);
        if v.e == 0 {
            unsafe { *self.p.add(o) = v.c as u8 }
        }
    }
    #[inline(always)]
    pub fn load(&mut self, ar: &mut Arena, a: u64, n: u32, w: u32) -> Val {
        let o = self.off(a, n as u64);
        if n <= 8 && self.clean(o, n as usize) {
            let v = unsafe {
                match n {
                    8 => (self.p.add(o) as *const u64).read_unaligned(),
                    4 => (self.p.add(o) as *const u32).read_unaligned() as u64,
                    1 => *self.p.add(o) as u64,
                    2 => (self.p.add(o) as *const u16).read_unaligned() as u64,
                    _ => {
                        let mut b = [0u8; 8];
                        std::ptr::copy_nonoverlapping(self.p.add(o), b.as_mut_ptr(), n as usize);
                        u64::from_le_bytes(b)
                    }
                }
            };
            let v = if w < n * 8 { v & crate::expr::mask64(w) } else { v };
            return Val::c(v);
        }
        self.load_slow(ar, o, n, w)
    }
    #[cold]
    fn load_slow(&mut self, ar: &mut Arena, o: usize, n: u32, w: u32) -> Val {
        if n <= 16 && (0..n as usize).all(|i| self.sh(o + i) == 0) {
            let mut b = [0u8; 16];
            unsafe { std::ptr::copy_nonoverlapping(self.p.add(o), b.as_mut_ptr(), n as usize) };
            let v = u128::from_le_bytes(b) & crate::expr::mask(w);
            if w <= 64 {
                return Val::c(v as u64);
            }
            let k = ar.konst(w, v);
            return ar.val(k);
        }
        let mut r: u32 = 0;
        for i in 0..n as usize {
            let e = self.sh(o + i);
            let b = if e != 0 {
                e
            } else {
                let c = unsafe { *self.p.add(o + i) };
                ar.konst(8, c as u128)
            };
            r = if i == 0 { b } else { ar.concat(b, r) };
        }
        if w < n * 8 {
            r = ar.extract(r, 0, w);
        }
        ar.val(r)
    }
    #[inline(always)]
    pub fn store(&mut self, ar: &mut Arena, a: u64, v: Val, n: u32, w: u32) {
        let o = self.off(a, n as u64);
        if v.e == 0 {
            unsafe {
                match n {
                    8 => (self.p.add(o) as *mut u64).write_unaligned(v.c),
                    4 => (self.p.add(o) as *mut u32).write_unaligned(v.c as u32),
                    1 => *self.p.add(o) = v.c as u8,
                    2 => (self.p.add(o) as *mut u16).write_unaligned(v.c as u16),
                    _ => {
                        let mut b = [0u8; 16];
                        b[..8].copy_from_slice(&v.c.to_le_bytes());
                        std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(o), n as usize)
                    }
                }
            }
            if !self.clean(o, n as usize) {
                for i in 0..n as usize {
                    self.set_sh(o + i, 0);
                }
            }
            return;
        }
        self.store_slow(ar, o, v, n, w)
    }
    #[cold]
    fn store_slow(&mut self, ar: &mut Arena, o: usize, v: Val, n: u32, w: u32) {
        let mut e = v.e;
        if w < n * 8 {
            e = ar.zext(e, n * 8);
        }
        for i in 0..n {
            let b = ar.extract(e, i * 8, 8);
            let bv = ar.val(b);
            self.set_sh(o + i as usize, bv.e);
            if bv.e == 0 {
                unsafe { *self.p.add(o + i as usize) = bv.c as u8 }
            }
        }
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 {
            return;
        }
        let so = self.off(s, n);
        let dd = self.off(d, n);
        let n = n as usize;
        if self.oob {
            return;
        }
        let cs = self.clean(so, n);
        let cd = self.clean(dd, n);
        unsafe { std::ptr::copy(self.p.add(so), self.p.add(dd), n) };
        if cs && cd {
            return;
        }
        if cs {
            for i in 0..n {
                self.set_sh(dd + i, 0);
            }
        } else if dd <= so {
            for i in 0..n {
                let e = self.sh(so + i);
                self.set_sh(dd + i, e);
            }
        } else {
            for i in (0..n).rev() {
                let e = self.sh(so + i);
                self.set_sh(dd + i, e);
            }
        }
    }
    pub fn set(&mut self, d: u64, v: Val, n: u64) {
        if n == 0 {
            return;
        }
        let o = self.off(d, n);
        if self.oob {
            return;
        }
        if v.e == 0 {
            unsafe { std::ptr::write_bytes(self.p.add(o), v.c as u8, n as usize) };
            if !self.clean(o, n as usize) {
                for i in 0..n as usize {
                    self.set_sh(o + i, 0);
                }
            }
        } else {
            for i in 0..n as usize {
                self.set_sh(o + i, v.e);
            }
        }
    }
    pub fn all_concrete(&mut self, a: u64, n: u64) -> bool {
        let o = self.off(a, n);
        if self.clean(o, n as usize) {
            return true;
        }
        (0..n as usize).all(|i| self.sh(o + i) == 0)
    }
    pub fn slice(&mut self, a: u64, n: u64) -> &[u8] {
        let o = self.off(a, n);
        unsafe { std::slice::from_raw_parts(self.p.add(o), n as usize) }
    }
    pub fn write_bytes(&mut self, a: u64, b: &[u8]) {
        for (i, x) in b.iter().enumerate() {
            self.set_byte(a + i as u64, Val::c(*x as u64));
        }
    }
    pub fn heap_used(&self) -> u64 {
        self.heap - HEAP_OFF
    }
}
