//! Hash-consed bit-vector expressions with local simplification.
use crate::ir::Op;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum K {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract, // k = lo
    ZExt,
    SExt,
    Ite,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Key {
    pub op: K,
    pub w: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

#[derive(Clone, Copy)]
pub struct Node {
    pub key: Key,
    pub lo: u128,
    pub hi: u128,
}

/// A run-time value: concrete (`e == 0`, value `c`) or the expression `e`.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Val {
    pub c: u64,
    pub e: u32,
}
impl Val {
    #[inline(always)]
    pub fn c(c: u64) -> Val {
        Val { c, e: 0 }
    }
    #[inline(always)]
    pub fn conc(self) -> bool {
        self.e == 0
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline(always)]
pub fn mask64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub struct Arena {
    pub n: Vec<Node>,
    map: FxMap<Key, u32>,
    pub vars: Vec<u32>, // widths
    memo: Vec<(u32, u128)>,
    gen: u32,
}

#[derive(Clone, Copy)]
enum Seg {
    Z,
    E(u32, u32), // expr, lo
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena { n: vec![], map: Default::default(), vars: vec![], memo: vec![], gen: 1 };
        a.reset();
        a
    }
    pub fn reset(&mut self) {
        self.n.clear();
        self.map.clear();
        self.vars.clear();
        self.memo.clear();
        self.gen = 1;
        // id 0 is reserved ("concrete")
        self.n.push(Node {
            key: Key { op: K::Const, w: 0, a: 0, b: 0, c: 0, k: 0 },
            lo: 0,
            hi: 0,
        });
    }
    #[inline]
    pub fn w(&self, id: u32) -> u32 {
        self.n[id as usize].key.w
    }
    #[inline]
    pub fn key(&self, id: u32) -> Key {
        self.n[id as usize].key
    }
    pub fn cval(&self, id: u32) -> Option<u128> {
        let k = &self.n[id as usize].key;
        if k.op == K::Const {
            Some(k.k)
        } else {
            None
        }
    }
    fn put(&mut self, op: K, w: u32, a: u32, b: u32, c: u32, k: u128) -> u32 {
        match op {
            K::And | K::Or | K::Xor | K::Add | K::Sub | K::Mul | K::Shl | K::LShr | K::AShr | K::UDiv | K::URem
            | K::SDiv | K::SRem => assert!(self.w(a) == w && self.w(b) == w, "width {:?}", op),
            K::Eq | K::Ult | K::Ule | K::Slt | K::Sle => {
                assert!(w == 1 && self.w(a) == self.w(b), "width {:?} {} {}", op, self.w(a), self.w(b))
            }
            K::Ite => assert!(self.w(a) == 1 && self.w(b) == w && self.w(c) == w, "width ite"),
            K::Extract => assert!(k as u32 + w <= self.w(a), "width extract"),
            K::Concat => assert!(self.w(a) + self.w(b) == w, "width concat"),
            K::ZExt | K::SExt => assert!(self.w(a) < w, "width ext"),
            _ => {}
        }
        let key = Key { op, w, a, b, c, k };
        if let Some(i) = self.map.get(&key) {
            return *i;
        }
        let (lo, hi) = self.bounds(&key);
        let id = self.n.len() as u32;
        self.n.push(Node { key, lo, hi });
        self.map.insert(key, id);
        id
    }
    fn bounds(&self, k: &Key) -> (u128, u128) {
        let m = mask(k.w);
        let b = |i: u32| (self.n[i as usize].lo, self.n[i as usize].hi);
        match k.op {
            K::Const => (k.k, k.k),
            K::ZExt => b(k.a),
            K::And => {
                let (_, h1) = b(k.a);
                let (_, h2) = b(k.b);
                (0, h1.min(h2))
            }
            K::Or | K::Xor => {
                let (l1, h1) = b(k.a);
                let (l2, h2) = b(k.b);
                let h = h1 | h2;
                let up = if h == 0 { 0 } else { mask(128 - h.leading_zeros()) };
                (if k.op == K::Or { l1.max(l2) } else { 0 }, up & m)
            }
            K::Add => {
                let (l1, h1) = b(k.a);
                let (l2, h2) = b(k.b);
                match h1.checked_add(h2) {
                    Some(h) if h <= m => (l1 + l2, h),
                    _ => (0, m),
                }
            }
            K::Mul => {
                let (l1, h1) = b(k.a);
                let (l2, h2) = b(k.b);
                match h1.checked_mul(h2) {
                    Some(h) if h <= m => (l1 * l2, h),
                    _ => (0, m),
                }
            }
            K::Sub => {
                let (l1, h1) = b(k.a);
                let (l2, h2) = b(k.b);
                if l1 >= h2 {
                    (l1 - h2, h1 - l2)
                } else {
                    (0, m)
                }
            }
            K::UDiv => {
                let (_, h1) = b(k.a);
                let (l2, _) = b(k.b);
                if l2 > 0 {
                    (0, h1 / l2)
                } else {
                    (0, m)
                }
            }
            K::URem => {
                let (_, h1) = b(k.a);
                let (l2, h2) = b(k.b);
                if l2 > 0 {
                    (0, h1.min(h2 - 1))
                } else {
                    (0, m)
                }
            }
            K::LShr => (0, b(k.a).1),
            K::Concat => {
                let wl = self.w(k.b);
                let (l1, h1) = b(k.a);
                let (l2, h2) = b(k.b);
                ((l1 << wl) | l2, (h1 << wl) | h2)
            }
            K::Extract => {
                let (l, h) = b(k.a);
                if k.k == 0 && h <= m {
                    (l, h)
                } else if (h >> k.k) <= m {
                    (l >> k.k, h >> k.k)
                } else {
                    (0, m)
                }
            }
            K::Ite => {
                let (l1, h1) = b(k.b);
                let (l2, h2) = b(k.c);
                (l1.min(l2), h1.max(h2))
            }
            _ => (0, m),
        }
    }
    pub fn show(&self, id: u32, d: u32) -> String {
        let k = self.key(id);
        match k.op {
            K::Const => format!("{:#x}", k.k),
            K::Var => format!("v{}:{}", k.k, k.w),
            _ if d == 0 => "..".into(),
            _ => {
                let n = match k.op {
                    K::Not | K::Extract | K::ZExt | K::SExt => 1,
                    K::Ite => 3,
                    _ => 2,
                };
                let mut s = format!("({:?}:{}", k.op, k.w);
                if k.op == K::Extract {
                    s.push_str(&format!("@{}", k.k));
                }
                for x in [k.a, k.b, k.c].iter().take(n) {
                    s.push(' ');
                    s.push_str(&self.show(*x, d - 1));
                }
                s.push(')');
                s
            }
        }
    }
    pub fn konst(&mut self, w: u32, v: u128) -> u32 {
        self.put(K::Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn var(&mut self, w: u32) -> u32 {
        let i = self.vars.len();
        self.vars.push(w);
        self.put(K::Var, w, 0, 0, 0, i as u128)
    }
    /// expression id of a value
    pub fn id(&mut self, v: Val, w: u32) -> u32 {
        if v.e != 0 {
            debug_assert_eq!(self.w(v.e), w);
            v.e
        } else {
            self.konst(w, v.c as u128)
        }
    }
    /// value of an expression id
    pub fn val(&self, id: u32) -> Val {
        let k = &self.n[id as usize].key;
        if k.op == K::Const && k.w <= 64 {
            Val { c: k.k as u64, e: 0 }
        } else {
            Val { c: 0, e: id }
        }
    }

    pub fn not(&mut self, a: u32) -> u32 {
        let w = self.w(a);
        let k = self.key(a);
        match k.op {
            K::Const => self.konst(w, !k.k),
            K::Not => k.a,
            _ => self.put(K::Not, w, a, 0, 0, 0),
        }
    }
    fn is0(&self, a: u32) -> bool {
        self.cval(a) == Some(0)
    }
    fn isones(&self, a: u32) -> bool {
        self.cval(a) == Some(mask(self.w(a)))
    }
    pub fn and(&mut self, a: u32, b: u32) -> u32 {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(w, x & y);
        }
        if self.is0(a) || self.is0(b) {
            return self.konst(w, 0);
        }
        if self.isones(b) || a == b {
            return a;
        }
        if self.isones(a) {
            return b;
        }
        if self.key(a).op == K::Not && self.key(a).a == b || self.key(b).op == K::Not && self.key(b).a == a {
            return self.konst(w, 0);
        }
        // constant masks: b is the constant
        if let Some(m) = self.cval(b) {
            // runs of ones
            let runs = {
                let mut c = 0;
                let mut prev = false;
                for i in 0..w {
                    let bit = (m >> i) & 1 == 1;
                    if bit && !prev {
                        c += 1;
                    }
                    prev = bit;
                }
                c
            };
            if runs <= 4 {
                let mut r: Option<u32> = None;
                let mut i = 0;
                while i < w {
                    let bit = (m >> i) & 1 == 1;
                    let mut j = i;
                    while j < w && ((m >> j) & 1 == 1) == bit {
                        j += 1;
                    }
                    let piece = if bit { self.extract(a, i, j - i) } else { self.konst(j - i, 0) };
                    r = Some(match r {
                        None => piece,
                        Some(lo) => self.concat(piece, lo),
                    });
                    i = j;
                }
                return r.unwrap();
            }
        }
        self.put(K::And, w, a, b, 0, 0)
    }
    /// constants last, otherwise by id
    fn order(&self, a: u32, b: u32) -> (u32, u32) {
        let ca = self.cval(a).is_some();
        let cb = self.cval(b).is_some();
        if ca && !cb {
            (b, a)
        } else if cb && !ca {
            (a, b)
        } else if a <= b {
            (a, b)
        } else {
            (b, a)
        }
    }
    fn segs(&self, id: u32, lo: u32, w: u32, out: &mut Vec<(u32, Seg)>, depth: u32) {
        // pushes segments from low to high, covering bits [lo, lo+w) of id
        let k = self.key(id);
        match k.op {
            K::Const => {
                let v = (k.k >> lo) & mask(w);
                if v == 0 {
                    out.push((w, Seg::Z));
                    return;
                }
                // split into zero / nonzero runs
                let mut i = 0;
                while i < w {
                    let z = (v >> i) & 1 == 0;
                    let mut j = i;
                    while j < w && ((v >> j) & 1 == 0) == z {
                        j += 1;
                    }
                    out.push((j - i, if z { Seg::Z } else { Seg::E(id, lo + i) }));
                    i = j;
                }
            }
            K::ZExt if depth < 24 => {
                let wa = self.w(k.a);
                if lo < wa {
                    let n = w.min(wa - lo);
                    self.segs(k.a, lo, n, out, depth + 1);
                    if w > n {
                        out.push((w - n, Seg::Z));
                    }
                } else {
                    out.push((w, Seg::Z));
                }
            }
            K::Concat if depth < 24 => {
                let wl = self.w(k.b);
                if lo < wl {
                    let n = w.min(wl - lo);
                    self.segs(k.b, lo, n, out, depth + 1);
                    if w > n {
                        self.segs(k.a, 0, w - n, out, depth + 1);
                    }
                } else {
                    self.segs(k.a, lo - wl, w, out, depth + 1);
                }
            }
            _ => out.push((w, Seg::E(id, lo))),
        }
    }
    /// a|b when no bit position can be set in both
    fn merge_disjoint(&mut self, a: u32, b: u32) -> Option<u32> {
        let w = self.w(a);
        let ok = |k: K| matches!(k, K::Concat | K::ZExt | K::Const);
        let (ka, kb) = (self.key(a).op, self.key(b).op);
        if !ok(ka) && !ok(kb) {
            return None;
        }
        let mut sa = vec![];
        let mut sb = vec![];
        self.segs(a, 0, w, &mut sa, 0);
        self.segs(b, 0, w, &mut sb, 0);
        let mut pieces: Vec<(u32, Seg)> = vec![];
        let (mut i, mut j) = (0, 0);
        let (mut oi, mut oj) = (0u32, 0u32);
        while i < sa.len() && j < sb.len() {
            let n = (sa[i].0 - oi).min(sb[j].0 - oj);
            let p = match (sa[i].1, sb[j].1) {
                (Seg::Z, Seg::Z) => Seg::Z,
                (Seg::Z, Seg::E(e, l)) => Seg::E(e, l + oj),
                (Seg::E(e, l), Seg::Z) => Seg::E(e, l + oi),
                _ => return None,
            };
            pieces.push((n, p));
            oi += n;
            oj += n;
            if oi == sa[i].0 {
                i += 1;
                oi = 0;
            }
            if oj == sb[j].0 {
                j += 1;
                oj = 0;
            }
        }
        let mut r: Option<u32> = None;
        for (n, p) in pieces {
            let x = match p {
                Seg::Z => self.konst(n, 0),
                Seg::E(e, l) => self.extract(e, l, n),
            };
            r = Some(match r {
                None => x,
                Some(lo) => self.concat(x, lo),
            });
        }
        r
    }
    pub fn or(&mut self, a: u32, b: u32) -> u32 {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(w, x | y);
        }
        if self.is0(b) || a == b {
            return a;
        }
        if self.isones(b) {
            return b;
        }
        if w == 1 && (self.key(a).op == K::Not && self.key(a).a == b || self.key(b).op == K::Not && self.key(b).a == a) {
            return self.konst(1, 1);
        }
        if w > 1 {
            if let Some(r) = self.merge_disjoint(a, b) {
                return r;
            }
        }
        self.put(K::Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, a: u32, b: u32) -> u32 {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(w, x ^ y);
        }
        if self.is0(b) {
            return a;
        }
        if a == b {
            return self.konst(w, 0);
        }
        if self.isones(b) {
            return self.not(a);
        }
        if w > 1 {
            if let Some(r) = self.merge_disjoint(a, b) {
                return r;
            }
        }
        self.put(K::Xor, w, a, b, 0, 0)
    }
    pub fn add(&mut self, a: u32, b: u32) -> u32 {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(w, x.wrapping_add(y));
        }
        if self.is0(b) {
            return a;
        }
        if let Some(y) = self.cval(b) {
            let k = self.key(a);
            if k.op == K::Add {
                if let Some(x) = self.cval(k.b) {
                    let c = self.konst(w, x.wrapping_add(y));
                    return self.add(k.a, c);
                }
            }
        }
        if w > 1 {
            if let Some(r) = self.merge_disjoint(a, b) {
                return r;
            }
        }
        // (x - b) + b
        let ka = self.key(a);
        if ka.op == K::Sub && ka.b == b {
            return ka.a;
        }
        let kb = self.key(b);
        if kb.op == K::Sub && kb.b == a {
            return kb.a;
        }
        self.put(K::Add, w, a, b, 0, 0)
    }
    pub fn sub(&mut self, a: u32, b: u32) -> u32 {
        let w = self.w(a);
        if a == b {
            return self.konst(w, 0);
        }
        if let Some(y) = self.cval(b) {
            let c = self.konst(w, y.wrapping_neg());
            return self.add(a, c);
        }
        let ka = self.key(a);
        let kb = self.key(b);
        if ka.op == K::Add {
            if ka.a == b {
                return ka.b;
            }
            if ka.b == b {
                return ka.a;
            }
            // (x + c) - y where y = x + d
            if kb.op == K::Add && ka.a == kb.a {
                return self.sub(ka.b, kb.b);
            }
        }
        if kb.op == K::Add && kb.a == a {
            if let Some(c) = self.cval(kb.b) {
                return self.konst(w, c.wrapping_neg());
            }
        }
        self.put(K::Sub, w, a, b, 0, 0)
    }
    pub fn mul(&mut self, a: u32, b: u32) -> u32 {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(w, x.wrapping_mul(y));
        }
        if let Some(y) = self.cval(b) {
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let c = self.konst(w, y.trailing_zeros() as u128);
                return self.shl(a, c);
            }
        }
        self.put(K::Mul, w, a, b, 0, 0)
    }
    pub fn shl(&mut self, a: u32, b: u32) -> u32 {
        let w = self.w(a);
        if let Some(s) = self.cval(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.konst(w, 0);
            }
            let s = s as u32;
            let hi = self.extract(a, 0, w - s);
            let z = self.konst(s, 0);
            return self.concat(hi, z);
        }
        if self.is0(a) {
            return a;
        }
        self.put(K::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: u32, b: u32) -> u32 {
        let w = self.w(a);
        if let Some(s) = self.cval(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.konst(w, 0);
            }
            let s = s as u32;
            let hi = self.extract(a, s, w - s);
            return self.zext(hi, w);
        }
        if self.is0(a) {
            return a;
        }
        self.put(K::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: u32, b: u32) -> u32 {
        let w = self.w(a);
        if let Some(s) = self.cval(b) {
            let s = s.min(w as u128 - 1) as u32;
            if s == 0 {
                return a;
            }
            let hi = self.extract(a, s, w - s);
            return self.sext(hi, w);
        }
        if self.is0(a) {
            return a;
        }
        self.put(K::AShr, w, a, b, 0, 0)
    }
    pub fn divop(&mut self, op: K, a: u32, b: u32) -> u32 {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let r = Self::fold(op, w, x, y);
            return self.konst(w, r);
        }
        if let Some(y) = self.cval(b) {
            if y == 1 && (op == K::UDiv || op == K::SDiv) {
                return a;
            }
            if y == 1 && (op == K::URem || op == K::SRem) {
                return self.konst(w, 0);
            }
            if y.is_power_of_two() {
                let s = y.trailing_zeros();
                if op == K::UDiv {
                    let c = self.konst(w, s as u128);
                    return self.lshr(a, c);
                }
                if op == K::URem {
                    let x = self.extract(a, 0, s);
                    return self.zext(x, w);
                }
            }
            if op == K::URem && self.n[a as usize].hi < y {
                return a;
            }
        }
        self.put(op, w, a, b, 0, 0)
    }
    fn fold(op: K, w: u32, x: u128, y: u128) -> u128 {
        let m = mask(w);
        (match op {
            K::UDiv => {
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            K::URem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            K::SDiv => {
                if y == 0 {
                    if sx(x, w) < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    sx(x, w).wrapping_div(sx(y, w)) as u128
                }
            }
            K::SRem => {
                if y == 0 {
                    x
                } else {
                    sx(x, w).wrapping_rem(sx(y, w)) as u128
                }
            }
            _ => unreachable!(),
        }) & m
    }
    pub fn concat(&mut self, hi: u32, lo: u32) -> u32 {
        let (wh, wl) = (self.w(hi), self.w(lo));
        if wh == 0 {
            return lo;
        }
        if wl == 0 {
            return hi;
        }
        let w = wh + wl;
        assert!(w <= 128, "concat too wide");
        if let (Some(x), Some(y)) = (self.cval(hi), self.cval(lo)) {
            return self.konst(w, (x << wl) | y);
        }
        if self.is0(hi) {
            return self.zext(lo, w);
        }
        let kh = self.key(hi);
        let kl = self.key(lo);
        // zext on the left: concat(zext(x), lo) = zext(concat(x, lo))
        if kh.op == K::ZExt {
            let x = self.concat(kh.a, lo);
            return self.zext(x, w);
        }
        // adjacent extracts
        if kh.op == K::Extract && kl.op == K::Extract && kh.a == kl.a && kh.k == kl.k + wl as u128 {
            return self.extract(kl.a, kl.k as u32, w);
        }
        if kl.op == K::Concat {
            // concat(hi, concat(m, l)) : try merging hi with m
            let km = self.key(kl.a);
            let merge = kh.op == K::Extract && km.op == K::Extract && kh.a == km.a && kh.k == km.k + self.w(kl.a) as u128
                || (kh.op == K::Const && km.op == K::Const);
            if merge {
                let x = self.concat(hi, kl.a);
                return self.concat(x, kl.b);
            }
        }
        // right-associate: concat(concat(a,b),lo) = concat(a, concat(b,lo))
        if kh.op == K::Concat {
            let x = self.concat(kh.b, lo);
            return self.concat(kh.a, x);
        }
        self.put(K::Concat, w, hi, lo, 0, 0)
    }
    /// bits [lo, lo+w)
    pub fn extract(&mut self, a: u32, lo: u32, w: u32) -> u32 {
        let wa = self.w(a);
        if w == wa {
            return a;
        }
        if w == 0 {
            return self.put(K::Const, 0, 0, 0, 0, 0);
        }
        debug_assert!(lo + w <= wa);
        let n = self.n[a as usize];
        if lo < 128 && (n.hi >> lo) == 0 {
            return self.konst(w, 0);
        }
        let k = n.key;
        match k.op {
            K::Const => return self.konst(w, k.k >> lo),
            K::Extract => return self.extract(k.a, lo + k.k as u32, w),
            K::Concat => {
                let wl = self.w(k.b);
                if lo >= wl {
                    return self.extract(k.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(k.b, lo, w);
                }
                let l = self.extract(k.b, lo, wl - lo);
                let h = self.extract(k.a, 0, lo + w - wl);
                return self.concat(h, l);
            }
            K::ZExt => {
                let wx = self.w(k.a);
                if lo >= wx {
                    return self.konst(w, 0);
                }
                if lo + w <= wx {
                    return self.extract(k.a, lo, w);
                }
                let l = self.extract(k.a, lo, wx - lo);
                return self.zext(l, w);
            }
            K::SExt => {
                let wx = self.w(k.a);
                if lo + w <= wx {
                    return self.extract(k.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(k.a, w);
                }
            }
            K::Not => {
                let x = self.extract(k.a, lo, w);
                return self.not(x);
            }
            K::And | K::Or | K::Xor if self.cval(k.b).is_some() || w == 1 => {
                let x = self.extract(k.a, lo, w);
                let y = self.extract(k.b, lo, w);
                return match k.op {
                    K::And => self.and(x, y),
                    K::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            K::Add | K::Sub | K::Mul if lo == 0 => {
                // low bits depend only on low bits; useful when it exposes extensions
                let ext = |k: K| matches!(k, K::ZExt | K::SExt | K::Const | K::Concat);
                if ext(self.key(k.a).op) && ext(self.key(k.b).op) {
                    let x = self.extract(k.a, 0, w);
                    let y = self.extract(k.b, 0, w);
                    return match k.op {
                        K::Add => self.add(x, y),
                        K::Sub => self.sub(x, y),
                        _ => self.mul(x, y),
                    };
                }
            }
            K::Ite if self.cval(k.b).is_some() && self.cval(k.c).is_some() && w == 1 => {
                let x = self.extract(k.b, lo, w);
                let y = self.extract(k.c, lo, w);
                return self.ite(k.a, x, y);
            }
            _ => {}
        }
        self.put(K::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn zext(&mut self, a: u32, w: u32) -> u32 {
        let wa = self.w(a);
        if w == wa {
            return a;
        }
        if wa == 0 {
            return self.konst(w, 0);
        }
        let k = self.key(a);
        match k.op {
            K::Const => return self.konst(w, k.k),
            K::ZExt => return self.zext(k.a, w),
            _ => {}
        }
        self.put(K::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: u32, w: u32) -> u32 {
        let wa = self.w(a);
        if w == wa {
            return a;
        }
        let k = self.key(a);
        match k.op {
            K::Const => return self.konst(w, sx(k.k, wa) as u128),
            K::ZExt => return self.zext(k.a, w),
            K::SExt => return self.sext(k.a, w),
            _ => {}
        }
        if self.n[a as usize].hi <= mask(wa - 1) {
            return self.zext(a, w);
        }
        self.put(K::SExt, w, a, 0, 0, 0)
    }
    pub fn ite(&mut self, c: u32, a: u32, b: u32) -> u32 {
        if let Some(v) = self.cval(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        let kc = self.key(c);
        if kc.op == K::Not {
            return self.ite(kc.a, b, a);
        }
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let ka = self.key(a);
        if ka.op == K::Ite && ka.a == c {
            return self.ite(c, ka.b, b);
        }
        let kb = self.key(b);
        if kb.op == K::Ite && kb.a == c {
            return self.ite(c, a, kb.c);
        }
        self.put(K::Ite, w, c, a, b, 0)
    }
    pub fn eq(&mut self, a: u32, b: u32) -> u32 {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        if a == b {
            return self.konst(1, 1);
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(1, (x == y) as u128);
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.hi < nb.lo || nb.hi < na.lo {
            return self.konst(1, 0);
        }
        let ka = na.key;
        if let Some(y) = self.cval(b) {
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            match ka.op {
                K::ZExt => {
                    let wx = self.w(ka.a);
                    if y > mask(wx) {
                        return self.konst(1, 0);
                    }
                    let c = self.konst(wx, y);
                    return self.eq(ka.a, c);
                }
                K::SExt => {
                    let wx = self.w(ka.a);
                    let t = y & mask(wx);
                    if (sx(t, wx) as u128) & mask(w) != y {
                        return self.konst(1, 0);
                    }
                    let c = self.konst(wx, t);
                    return self.eq(ka.a, c);
                }
                K::Concat => {
                    let wl = self.w(ka.b);
                    let ch = self.konst(w - wl, y >> wl);
                    let cl = self.konst(wl, y);
                    let h = self.eq(ka.a, ch);
                    let l = self.eq(ka.b, cl);
                    return self.and(h, l);
                }
                K::Add => {
                    if let Some(x) = self.cval(ka.b) {
                        let c = self.konst(w, y.wrapping_sub(x));
                        return self.eq(ka.a, c);
                    }
                }
                K::Xor => {
                    if let Some(x) = self.cval(ka.b) {
                        let c = self.konst(w, y ^ x);
                        return self.eq(ka.a, c);
                    }
                    if y == 0 {
                        return self.eq(ka.a, ka.b);
                    }
                }
                K::Sub if y == 0 => return self.eq(ka.a, ka.b),
                K::Not => {
                    let c = self.konst(w, !y);
                    return self.eq(ka.a, c);
                }
                K::Or if y == 0 => {
                    let z = self.konst(w, 0);
                    let p = self.eq(ka.a, z);
                    let q = self.eq(ka.b, z);
                    return self.and(p, q);
                }
                K::Ite => {
                    let (cb, cc) = (self.cval(ka.b), self.cval(ka.c));
                    if cb.is_some() || cc.is_some() {
                        let p = self.eq(ka.b, b);
                        let q = self.eq(ka.c, b);
                        return self.ite(ka.a, p, q);
                    }
                }
                _ => {}
            }
        } else {
            let kb = nb.key;
            if ka.op == K::ZExt && kb.op == K::ZExt && self.w(ka.a) == self.w(kb.a) {
                return self.eq(ka.a, kb.a);
            }
            if ka.op == K::Add && kb.op == K::Add && ka.a == kb.a {
                return self.eq(ka.b, kb.b);
            }
            if ka.op == K::Add && ka.a == b {
                let z = self.konst(w, 0);
                return self.eq(ka.b, z);
            }
            if kb.op == K::Add && kb.a == a {
                let z = self.konst(w, 0);
                return self.eq(kb.b, z);
            }
            if ka.op == K::Concat && kb.op == K::Concat && self.w(ka.b) == self.w(kb.b) {
                let h = self.eq(ka.a, kb.a);
                let l = self.eq(ka.b, kb.b);
                return self.and(h, l);
            }
        }
        self.put(K::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: u32, b: u32) -> u32 {
        if a == b {
            return self.konst(1, 0);
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.hi < nb.lo {
            return self.konst(1, 1);
        }
        if na.lo >= nb.hi {
            return self.konst(1, 0);
        }
        let w = self.w(a);
        if nb.key.op == K::Const {
            if nb.key.k == 1 {
                let z = self.konst(w, 0);
                return self.eq(a, z);
            }
            if nb.key.k == mask(w) {
                let e = self.eq(a, b);
                return self.not(e);
            }
        }
        if na.key.op == K::Const && na.key.k == 0 {
            let e = self.eq(b, a);
            return self.not(e);
        }
        // strip matching zero extensions
        if na.key.op == K::ZExt && nb.key.op == K::ZExt && self.w(na.key.a) == self.w(nb.key.a) {
            return self.ult(na.key.a, nb.key.a);
        }
        if na.key.op == K::ZExt && nb.key.op == K::Const {
            let wx = self.w(na.key.a);
            if nb.key.k <= mask(wx) {
                let c = self.konst(wx, nb.key.k);
                return self.ult(na.key.a, c);
            }
        }
        if nb.key.op == K::ZExt && na.key.op == K::Const {
            let wx = self.w(nb.key.a);
            if na.key.k <= mask(wx) {
                let c = self.konst(wx, na.key.k);
                return self.ult(c, nb.key.a);
            }
        }
        // a < b with b = 2^k: high bits zero
        if nb.key.op == K::Const && nb.key.k.is_power_of_two() {
            let s = nb.key.k.trailing_zeros();
            let h = self.extract(a, s, w - s);
            let z = self.konst(w - s, 0);
            return self.eq(h, z);
        }
        self.put(K::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: u32, b: u32) -> u32 {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: u32, b: u32) -> u32 {
        if a == b {
            return self.konst(1, 0);
        }
        let w = self.w(a);
        if w == 1 {
            // signed 1 bit: 1 is -1
            let nb = self.not(b);
            return self.and(a, nb);
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let m = mask(w - 1);
        if na.hi <= m && nb.hi <= m {
            return self.ult(a, b);
        }
        if na.lo > m && nb.lo > m {
            return self.ult(a, b);
        }
        if na.hi <= m && nb.lo > m {
            return self.konst(1, 0);
        }
        if na.lo > m && nb.hi <= m {
            return self.konst(1, 1);
        }
        if self.is0(b) {
            return self.extract(a, w - 1, 1);
        }
        if self.isones(a) {
            // -1 < b  <=>  b >= 0
            let x = self.extract(b, w - 1, 1);
            return self.not(x);
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(1, (sx(x, w) < sx(y, w)) as u128);
        }
        self.put(K::Slt, 1, a, b, 0, 0)
    }

    pub fn bin(&mut self, op: Op, w: u32, x: Val, y: Val) -> Val {
        let a = self.id(x, w);
        let b = self.id(y, w);
        let r = match op {
            Op::Add => self.add(a, b),
            Op::Sub => self.sub(a, b),
            Op::Mul => self.mul(a, b),
            Op::UDiv => self.divop(K::UDiv, a, b),
            Op::URem => self.divop(K::URem, a, b),
            Op::SDiv => self.divop(K::SDiv, a, b),
            Op::SRem => self.divop(K::SRem, a, b),
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            Op::Shl => self.shl(a, b),
            Op::LShr => self.lshr(a, b),
            Op::AShr => self.ashr(a, b),
            Op::Eq => self.eq(a, b),
            Op::Ne => {
                let e = self.eq(a, b);
                self.not(e)
            }
            Op::Ult => self.ult(a, b),
            Op::Ugt => self.ult(b, a),
            Op::Ule => self.ule(a, b),
            Op::Uge => self.ule(b, a),
            Op::Slt => self.slt(a, b),
            Op::Sgt => self.slt(b, a),
            Op::Sle => {
                let x = self.slt(b, a);
                self.not(x)
            }
            Op::Sge => {
                let x = self.slt(a, b);
                self.not(x)
            }
        };
        self.val(r)
    }

    // ---------------------------------------------------------------- evaluation
    pub fn new_model(&mut self) {
        self.gen += 1;
    }
    pub fn eval(&mut self, id: u32, model: &[u128]) -> u128 {
        if self.memo.len() < self.n.len() {
            self.memo.resize(self.n.len(), (0, 0));
        }
        let (g, v) = self.memo[id as usize];
        if g == self.gen {
            return v;
        }
        let k = self.n[id as usize].key;
        let m = mask(k.w);
        let v = match k.op {
            K::Const => k.k,
            K::Var => model.get(k.k as usize).copied().unwrap_or(0) & m,
            K::Not => !self.eval(k.a, model) & m,
            K::And => self.eval(k.a, model) & self.eval(k.b, model),
            K::Or => self.eval(k.a, model) | self.eval(k.b, model),
            K::Xor => self.eval(k.a, model) ^ self.eval(k.b, model),
            K::Add => self.eval(k.a, model).wrapping_add(self.eval(k.b, model)) & m,
            K::Sub => self.eval(k.a, model).wrapping_sub(self.eval(k.b, model)) & m,
            K::Mul => self.eval(k.a, model).wrapping_mul(self.eval(k.b, model)) & m,
            K::UDiv | K::URem | K::SDiv | K::SRem => {
                let x = self.eval(k.a, model);
                let y = self.eval(k.b, model);
                Self::fold(k.op, k.w, x, y)
            }
            K::Shl => {
                let x = self.eval(k.a, model);
                let y = self.eval(k.b, model);
                if y >= k.w as u128 {
                    0
                } else {
                    (x << y) & m
                }
            }
            K::LShr => {
                let x = self.eval(k.a, model);
                let y = self.eval(k.b, model);
                if y >= k.w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            K::AShr => {
                let x = self.eval(k.a, model);
                let y = self.eval(k.b, model).min(k.w as u128 - 1);
                ((sx(x, k.w) >> y) as u128) & m
            }
            K::Concat => {
                let wl = self.w(k.b);
                (self.eval(k.a, model) << wl) | self.eval(k.b, model)
            }
            K::Extract => (self.eval(k.a, model) >> k.k) & m,
            K::ZExt => self.eval(k.a, model),
            K::SExt => {
                let wa = self.w(k.a);
                (sx(self.eval(k.a, model), wa) as u128) & m
            }
            K::Ite => {
                if self.eval(k.a, model) != 0 {
                    self.eval(k.b, model)
                } else {
                    self.eval(k.c, model)
                }
            }
            K::Eq => (self.eval(k.a, model) == self.eval(k.b, model)) as u128,
            K::Ult => (self.eval(k.a, model) < self.eval(k.b, model)) as u128,
            K::Ule => (self.eval(k.a, model) <= self.eval(k.b, model)) as u128,
            K::Slt => {
                let wa = self.w(k.a);
                (sx(self.eval(k.a, model), wa) < sx(self.eval(k.b, model), wa)) as u128
            }
            K::Sle => {
                let wa = self.w(k.a);
                (sx(self.eval(k.a, model), wa) <= sx(self.eval(k.b, model), wa)) as u128
            }
        };
        self.memo[id as usize] = (self.gen, v);
        v
    }
}
