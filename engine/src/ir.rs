//! Parser for the textual LLVM IR (LLVM 17+ with opaque pointers) and its lowering to a compact
//! register form.  Aggregates and vectors are flattened into scalar leaves.
use std::collections::HashMap;

pub const FUNC_BASE: u64 = 0x0020_0000;
pub const MEM_BASE: u64 = 0x1000_0000;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Meta,
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                let a = self.align();
                align_up(b, a)
            }
            Ty::Ptr => 8,
            Ty::Float(n) => (*n as u64) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) if w < 8 => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    align_up(o, self.align())
                }
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 1,
            Ty::Int(n) => match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(n) => (*n as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(_, _) => self.size().next_power_of_two().max(1),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    /// (byte offset, bit width) of every scalar leaf
    pub fn leaves(&self) -> Vec<(u64, u32)> {
        let mut v = Vec::new();
        self.leaves_into(0, &mut v);
        v
    }
    fn leaves_into(&self, off: u64, v: &mut Vec<(u64, u32)>) {
        match self {
            Ty::Void | Ty::Meta => {}
            Ty::Int(n) => v.push((off, *n)),
            Ty::Float(n) => v.push((off, *n)),
            Ty::Ptr => v.push((off, 64)),
            Ty::Arr(n, t) => {
                for i in 0..*n {
                    t.leaves_into(off + i * t.size(), v);
                }
            }
            Ty::Vec(n, t) => {
                for i in 0..*n {
                    t.leaves_into(off + i * t.size(), v);
                }
            }
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    t.leaves_into(off + o, v);
                    o += t.size();
                }
            }
        }
    }
    pub fn nleaves(&self) -> usize {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(_) | Ty::Float(_) | Ty::Ptr => 1,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.nleaves(),
            Ty::Struct(ts, _) => ts.iter().map(|t| t.nleaves()).sum(),
        }
    }
    /// leaf index, byte offset and type of the indexed element
    fn index(&self, i: u64) -> (usize, u64, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (
                i as usize * t.nleaves(),
                i * t.size(),
                (**t).clone(),
            ),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                let mut l = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k as u64 == i {
                        return (l, o, t.clone());
                    }
                    o += t.size();
                    l += t.nleaves();
                }
                panic!("struct index out of range")
            }
            _ => panic!("index into {:?}", self),
        }
    }
    fn is_vec(&self) -> bool {
        matches!(self, Ty::Vec(..))
    }
    fn elem_w(&self) -> u32 {
        match self {
            Ty::Int(n) | Ty::Float(n) => *n,
            Ty::Ptr => 64,
            Ty::Vec(_, t) => t.elem_w(),
            _ => 0,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opd {
    R(u32),
    C(u64),
    /// 128-bit constant, index into Module::wides
    W(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub target: u32,
    pub copies: Box<[(u32, Opd)]>,
    /// true when copies may be executed in order without temporaries
    pub seq: bool,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ptr(Opd),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: Op, w: u32, dst: u32, a: Opd, b: Opd },
    Cast { c: Cast, fw: u32, tw: u32, dst: u32, a: Opd },
    Mov { dst: u32, a: Opd },
    Select { dst: u32, w: u32, c: Opd, a: Opd, b: Opd },
    Load { dst: u32, w: u32, n: u32, p: Opd, off: u64 },
    Store { v: Opd, w: u32, n: u32, p: Opd, off: u64 },
    Gep { dst: u32, base: Opd, off: u64, terms: Box<[(Opd, u32, u64)]> },
    Alloca { dst: u32, size: u64, align: u64, count: Opd },
    /// concatenates n lanes of width w (lane 0 lowest)
    Pack { dst: u32, w: u32, lanes: Box<[Opd]> },
    /// splits a into n lanes of width w
    Unpack { dst: u32, w: u32, n: u32, a: Opd },
    DynExtract { dst: u32, w: u32, lanes: Box<[Opd]>, idx: Opd },
    Call { callee: Callee, args: Box<[Opd]>, dst: u32, nret: u32 },
    Intr { k: Intr, w: u32, dst: u32, args: Box<[Opd]> },
    Rmw { op: u8, dst: u32, w: u32, n: u32, p: Opd, v: Opd },
    CmpXchg { dst: u32, w: u32, n: u32, p: Opd, c: Opd, v: Opd },
    Br { e: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { v: Opd, w: u32, default: u32, cases: Box<[(u64, u32)]> },
    Ret { vals: Box<[Opd]> },
    Unreachable,
    Unsupported(Box<str>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memmove,
    Memset,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitreverse,
    Abs,
    Umin,
    Umax,
    Smin,
    Smax,
    Usubsat,
    Uaddsat,
    Ssubsat,
    Saddsat,
    Fshl,
    Fshr,
    Ucmp,
    Scmp,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    IsConstant,
    Copy,
    Trap,
    LoadRel,
    Expect,
    Assume,
}

pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub nparams: u32,
    pub code: Vec<I>,
    pub edges: Vec<Edge>,
    pub defined: bool,
    pub nblocks: u32,
    pub block_starts: Vec<u32>,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub image: Vec<u8>,
    pub wides: Vec<u128>,
    pub gaddr: HashMap<String, u64>,
}

// ------------------------------------------------------------------ tokens

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Id(&'a str),
    Local(&'a str),
    Global(&'a str),
    Num(&'a str),
    Str(&'a str),  // "..."
    CStr(&'a str), // c"..."
    P(u8),
    Meta(&'a str), // !foo
    Attr,          // #123
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn lex<'a>(s: &'a str) -> Vec<Tok<'a>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = Vec::with_capacity(16);
    let name = |i: &mut usize| -> &'a str {
        if b[*i] == b'"' {
            let st = *i + 1;
            let mut j = st;
            while b[j] != b'"' {
                j += 1;
            }
            *i = j + 1;
            &s[st..j]
        } else {
            let st = *i;
            while *i < b.len() && is_id(b[*i]) {
                *i += 1;
            }
            &s[st..*i]
        }
    };
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => break,
            b'%' => {
                i += 1;
                v.push(Tok::Local(name(&mut i)));
            }
            b'@' => {
                i += 1;
                v.push(Tok::Global(name(&mut i)));
            }
            b'!' => {
                i += 1;
                let st = i;
                while i < b.len() && is_id(b[i]) {
                    i += 1;
                }
                v.push(Tok::Meta(&s[st..i]));
            }
            b'#' => {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                v.push(Tok::Attr);
            }
            b'"' => {
                let n = name(&mut i);
                v.push(Tok::Str(n));
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                i += 1;
                let n = name(&mut i);
                v.push(Tok::CStr(n));
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                i += 1;
                while i < b.len() && is_id(b[i]) && b[i] != b'-' {
                    i += 1;
                }
                v.push(Tok::Num(&s[st..i]));
            }
            _ if is_id(c) => {
                let st = i;
                while i < b.len() && is_id(b[i]) {
                    i += 1;
                }
                v.push(Tok::Id(&s[st..i]));
            }
            _ => {
                v.push(Tok::P(c));
                i += 1;
            }
        }
    }
    v
}

struct P<'a> {
    t: Vec<Tok<'a>>,
    i: usize,
}

type R<T> = Result<T, String>;

#[derive(Clone, Debug)]
enum Ast {
    Local(String),
    Const(Vec<u128>), // per leaf
}

impl<'a> P<'a> {
    fn new(s: &'a str) -> Self {
        P { t: lex(s), i: 0 }
    }
    fn peek(&self) -> Option<&Tok<'a>> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok<'a>> {
        let t = self.t.get(self.i).cloned().ok_or("eol")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: u8) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: u8) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?}", c as char, self.peek()))
        }
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if *x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        if self.eat_p(b'(') {
            let mut d = 1;
            while d > 0 && self.i < self.t.len() {
                if self.is_p(b'(') {
                    d += 1
                } else if self.is_p(b')') {
                    d -= 1
                }
                self.i += 1;
            }
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            Tok::Num(s) => s.parse::<i128>().map_err(|e| format!("num {} {}", s, e)),
            t => Err(format!("expected number got {:?}", t)),
        }
    }
    fn type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::Id(s)) => {
                (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
                    || matches!(*s, "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "metadata" | "label" | "token")
            }
            Some(Tok::P(b'{')) | Some(Tok::P(b'[')) | Some(Tok::P(b'<')) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            Tok::Id(s) => match s {
                "ptr" => {
                    if self.eat_id("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" => Ty::Float(16),
                "fp128" | "x86_fp80" => Ty::Float(128),
                "metadata" | "label" | "token" => Ty::Meta,
                _ if s.starts_with('i') => {
                    Ty::Int(s[1..].parse().map_err(|_| format!("type {}", s))?)
                }
                _ => return Err(format!("type {}", s)),
            },
            Tok::P(b'[') => {
                let n = self.num()? as u64;
                self.eat_id("x");
                let t = self.ty()?;
                self.exp_p(b']')?;
                Ty::Arr(n, Box::new(t))
            }
            Tok::P(b'{') => {
                let mut v = vec![];
                while !self.eat_p(b'}') {
                    v.push(self.ty()?);
                    self.eat_p(b',');
                }
                Ty::Struct(v, false)
            }
            Tok::P(b'<') => {
                if self.eat_p(b'{') {
                    let mut v = vec![];
                    while !self.eat_p(b'}') {
                        v.push(self.ty()?);
                        self.eat_p(b',');
                    }
                    self.exp_p(b'>')?;
                    Ty::Struct(v, true)
                } else {
                    let n = self.num()? as u64;
                    self.eat_id("x");
                    let t = self.ty()?;
                    self.exp_p(b'>')?;
                    Ty::Vec(n, Box::new(t))
                }
            }
            t => return Err(format!("type token {:?}", t)),
        };
        Ok(t)
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    if is_value_kw(s) {
                        return;
                    }
                    let al = *s == "align";
                    self.i += 1;
                    if self.is_p(b'(') {
                        self.skip_parens();
                    } else if al {
                        self.i += 1;
                    }
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.eat_p(b'=') {
                        self.i += 1;
                    }
                }
                Some(Tok::Attr) => self.i += 1,
                _ => return,
            }
        }
    }
    fn value(&mut self, ty: &Ty, cx: &Cx) -> R<Ast> {
        if let Some(Tok::Local(n)) = self.peek() {
            let n = n.to_string();
            self.i += 1;
            return Ok(Ast::Local(n));
        }
        Ok(Ast::Const(self.konst(ty, cx)?))
    }
    fn konst(&mut self, ty: &Ty, cx: &Cx) -> R<Vec<u128>> {
        let n = ty.nleaves();
        let m = |w: u32, x: i128| -> u128 {
            if w >= 128 {
                x as u128
            } else {
                (x as u128) & ((1u128 << w) - 1)
            }
        };
        match self.next()? {
            Tok::Num(s) => {
                if let Ty::Float(_) = ty {
                    if s == "0.000000e" || s.starts_with("0.0") {
                        // lexer stops at '+': swallow exponent
                        if self.eat_p(b'+') {
                            self.i += 1;
                        }
                        return Ok(vec![0]);
                    }
                    if self.eat_p(b'+') {
                        self.i += 1;
                    }
                    if s.starts_with("0x") {
                        let bits = u64::from_str_radix(&s[2..], 16).map_err(|e| e.to_string())?;
                        return Ok(vec![match ty {
                            Ty::Float(32) => (f64::from_bits(bits) as f32).to_bits() as u128,
                            _ => bits as u128,
                        }]);
                    }
                    return Ok(vec![match ty {
                        Ty::Float(32) => (s.parse::<f64>().unwrap_or(0.0) as f32).to_bits() as u128,
                        _ => s.parse::<f64>().unwrap_or(0.0).to_bits() as u128,
                    }]);
                }
                let w = ty.elem_w();
                let v: u128 = if let Some(r) = s.strip_prefix('-') {
                    (r.parse::<u128>().map_err(|e| format!("{} {}", s, e))?).wrapping_neg()
                } else {
                    s.parse::<u128>().map_err(|e| format!("{} {}", s, e))?
                };
                Ok(vec![m(w, v as i128)])
            }
            Tok::Global(g) => Ok(vec![cx.addr(g)? as u128]),
            Tok::CStr(s) => {
                let b = s.as_bytes();
                let mut v = vec![];
                let mut i = 0;
                while i < b.len() {
                    if b[i] == b'\\' {
                        if b[i + 1] == b'\\' {
                            v.push(b'\\' as u128);
                            i += 2;
                        } else {
                            v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).map_err(|e| e.to_string())? as u128);
                            i += 3;
                        }
                    } else {
                        v.push(b[i] as u128);
                        i += 1;
                    }
                }
                Ok(v)
            }
            Tok::P(b'{') => self.agg(b'}', cx),
            Tok::P(b'[') => self.agg(b']', cx),
            Tok::P(b'<') => {
                if self.eat_p(b'{') {
                    let v = self.agg(b'}', cx)?;
                    self.exp_p(b'>')?;
                    Ok(v)
                } else {
                    self.agg(b'>', cx)
                }
            }
            Tok::Id(s) => match s {
                "true" => Ok(vec![1]),
                "false" | "null" | "none" => Ok(vec![0]),
                "undef" | "poison" | "zeroinitializer" => Ok(vec![0; n]),
                "splat" => {
                    self.exp_p(b'(')?;
                    let t = self.ty()?;
                    let v = self.konst(&t, cx)?;
                    self.exp_p(b')')?;
                    Ok(vec![v[0]; n])
                }
                "ptrtoint" | "inttoptr" | "trunc" | "zext" | "bitcast" | "ptrtoaddr" => {
                    self.exp_p(b'(')?;
                    let t = self.ty()?;
                    let v = self.konst(&t, cx)?;
                    if !self.eat_id("to") {
                        return Err("expected to".into());
                    }
                    let tt = self.ty()?;
                    self.exp_p(b')')?;
                    Ok(vec![m(tt.elem_w(), v[0] as i128)])
                }
                "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" => {
                    while matches!(self.peek(), Some(Tok::Id(_))) {
                        self.i += 1;
                    }
                    self.exp_p(b'(')?;
                    let t = self.ty()?;
                    let a = self.konst(&t, cx)?[0];
                    self.exp_p(b',')?;
                    let t = self.ty()?;
                    let b = self.konst(&t, cx)?[0];
                    self.exp_p(b')')?;
                    let r = match s {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "xor" => a ^ b,
                        "and" => a & b,
                        "or" => a | b,
                        "shl" => a << (b & 127),
                        _ => a.wrapping_mul(b),
                    };
                    Ok(vec![m(t.elem_w(), r as i128)])
                }
                "getelementptr" => {
                    while matches!(self.peek(), Some(Tok::Id(_))) {
                        self.i += 1;
                        self.skip_parens_if_inrange();
                    }
                    self.exp_p(b'(')?;
                    let et = self.ty()?;
                    self.exp_p(b',')?;
                    let pt = self.ty()?;
                    let mut a = self.konst(&pt, cx)?[0] as u64;
                    let mut cur = et;
                    let mut first = true;
                    while self.eat_p(b',') {
                        self.eat_id("inrange");
                        let it = self.ty()?;
                        let iv = self.konst(&it, cx)?[0];
                        let sx = sext(iv as u64, it.elem_w());
                        if first {
                            a = a.wrapping_add(sx.wrapping_mul(cur.size()));
                            first = false;
                        } else {
                            let (_, o, t) = match &cur {
                                Ty::Arr(_, t) => (0, sx.wrapping_mul(t.size()), (**t).clone()),
                                _ => cur.index(iv as u64),
                            };
                            a = a.wrapping_add(o);
                            cur = t;
                        }
                    }
                    self.exp_p(b')')?;
                    Ok(vec![a as u128])
                }
                "c" => Err("c".into()),
                _ => Err(format!("const kw {}", s)),
            },
            t => Err(format!("const tok {:?}", t)),
        }
    }
    fn skip_parens_if_inrange(&mut self) {
        // getelementptr inrange(-16, 16) (i8, ...)
        if let Some(Tok::Id("inrange")) = self.t.get(self.i - 1) {
            self.skip_parens();
        }
    }
    fn agg(&mut self, close: u8, cx: &Cx) -> R<Vec<u128>> {
        let mut v = vec![];
        while !self.eat_p(close) {
            let t = self.ty()?;
            v.extend(self.konst(&t, cx)?);
            self.eat_p(b',');
        }
        Ok(v)
    }
    fn tyval(&mut self, cx: &Cx) -> R<(Ty, Ast)> {
        let t = self.ty()?;
        self.skip_attrs();
        let v = self.value(&t, cx)?;
        Ok((t, v))
    }
}

fn is_value_kw(s: &str) -> bool {
    matches!(
        s,
        "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "ptrtoint" | "inttoptr"
            | "trunc" | "zext" | "bitcast" | "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" | "getelementptr"
            | "ptrtoaddr" | "asm"
    )
}

pub fn sext(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        (((v << (64 - w)) as i64) >> (64 - w)) as u64
    }
}

struct Cx {
    gaddr: HashMap<String, u64>,
}
impl Cx {
    fn addr(&self, g: &str) -> R<u64> {
        self.gaddr.get(g).copied().ok_or_else(|| format!("unknown global {}", g))
    }
}

struct GDef {
    addr: u64,
    ty: Ty,
    init: Option<(usize, usize)>,
}

fn gname(line: &str) -> (&str, &str) {
    // line starts with '@'
    let b = line.as_bytes();
    if b[1] == b'"' {
        let e = line[2..].find('"').unwrap() + 2;
        (&line[2..e], &line[e + 1..])
    } else {
        let mut e = 1;
        while e < b.len() && is_id(b[e]) {
            e += 1;
        }
        (&line[1..e], &line[e..])
    }
}

/// Name and remaining text of a `define`/`declare` line
fn fname(line: &str) -> Option<(String, usize)> {
    let at = line.find('@')?;
    let (n, _) = gname(&line[at..]);
    Some((n.to_string(), at))
}

pub fn parse(text: &str) -> R<Module> {
    let mut cx = Cx { gaddr: HashMap::new() };
    let mut funcs: Vec<Func> = vec![];
    let mut fidx = HashMap::new();
    let mut bodies: Vec<(u32, Vec<&str>)> = vec![];
    let mut gdefs: Vec<(GDef, &str)> = vec![];
    let mut aliases: Vec<(&str, &str)> = vec![];
    let mut cur = MEM_BASE;
    let mut lines = text.lines();
    while let Some(line) = lines.next() {
        if line.starts_with('@') {
            let (name, rest) = gname(line);
            if name.starts_with("llvm.") {
                continue;
            }
            let mut p = P::new(rest);
            p.exp_p(b'=')?;
            let mut ext = false;
            let mut alias = false;
            loop {
                match p.next()? {
                    Tok::Id("external") | Tok::Id("extern_weak") => ext = true,
                    Tok::Id("thread_local") | Tok::Id("addrspace") => p.skip_parens(),
                    Tok::Id("global") | Tok::Id("constant") => break,
                    Tok::Id("alias") => {
                        alias = true;
                        break;
                    }
                    Tok::Id(_) => {}
                    t => return Err(format!("global {:?} in {}", t, line)),
                }
            }
            if alias {
                aliases.push((name, rest));
                continue;
            }
            let ty = p.ty()?;
            // alignment: last "align N" on the line
            let mut al = ty.align();
            if let Some(k) = rest.rfind(", align ") {
                let s: String = rest[k + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                al = al.max(s.parse().unwrap_or(1));
            }
            al = al.max(1);
            cur = align_up(cur, al.max(16));
            let addr = cur;
            cur += ty.size().max(1);
            cx.gaddr.insert(name.to_string(), addr);
            let init = if ext { None } else { Some((p.i, 0)) };
            gdefs.push((GDef { addr, ty, init }, rest));
        } else if line.starts_with("define ") || line.starts_with("declare ") {
            let def = line.starts_with("define ");
            let (name, _) = fname(line).ok_or("fname")?;
            let id = funcs.len() as u32;
            fidx.insert(name.clone(), id);
            cx.gaddr.insert(name.clone(), FUNC_BASE + 16 * id as u64);
            funcs.push(Func {
                name,
                nregs: 0,
                nparams: 0,
                code: vec![],
                edges: vec![],
                defined: def,
                nblocks: 0,
                block_starts: vec![],
            });
            if def {
                let mut body = vec![line];
                for l in lines.by_ref() {
                    if l == "}" {
                        break;
                    }
                    if !l.is_empty() {
                        body.push(l);
                    }
                }
                bodies.push((id, body));
            }
        }
    }
    for (n, rest) in &aliases {
        let at = rest.rfind('@').ok_or("alias")?;
        let (t, _) = gname(&rest[at..]);
        let a = cx.addr(t)?;
        cx.gaddr.insert(n.to_string(), a);
        if let Some(i) = fidx.get(t).copied() {
            fidx.insert(n.to_string(), i);
        }
    }
    let mut image = vec![0u8; (cur - MEM_BASE) as usize];
    for (g, rest) in &gdefs {
        if let Some((i, _)) = g.init {
            let mut p = P::new(rest);
            p.i = i;
            let leaves = g.ty.leaves();
            let v = p.konst(&g.ty, &cx).map_err(|e| format!("{} in global {}", e, &rest[..rest.len().min(200)]))?;
            if v.len() != leaves.len() {
                return Err(format!("global init leaves {} vs {}: {}", v.len(), leaves.len(), &rest[..rest.len().min(200)]));
            }
            for ((o, w), v) in leaves.iter().zip(v) {
                let nb = ((w + 7) / 8) as usize;
                let a = (g.addr - MEM_BASE + o) as usize;
                image[a..a + nb].copy_from_slice(&v.to_le_bytes()[..nb]);
            }
        }
    }
    let mut wides = vec![];
    for (id, body) in bodies {
        lower(&mut funcs, &fidx, id, &body, &cx, &mut wides)
            .map_err(|e| format!("{} in function {}", e, funcs[id as usize].name))?;
    }
    Ok(Module { funcs, fidx, image, wides, gaddr: cx.gaddr })
}

// ------------------------------------------------------------------ function bodies

enum AI {
    Bin(Op, Ty, Ast, Ast),
    Icmp(Op, Ty, Ast, Ast),
    Cast(Cast, Ty, Ast, Ty),
    Bitcast(Ty, Ast, Ty),
    Select(Ty, Ast, Ty, Ast, Ast),
    Load(Ty, Ast),
    Store(Ty, Ast, Ast),
    Gep(Ty, Ast, Vec<(Ty, Ast)>),
    Alloca(Ty, (Ty, Ast), u64),
    Phi(Ty, Vec<(Ast, String)>),
    ExtractV(Ty, Ast, Vec<u64>),
    InsertV(Ty, Ast, Ty, Ast, Vec<u64>),
    ExtractE(Ty, Ast, Ty, Ast),
    InsertE(Ty, Ast, Ast, Ty, Ast),
    Shuffle(Ty, Ast, Ast, Vec<u128>),
    Freeze(Ty, Ast),
    Call(Ty, CalleeA, Vec<(Ty, Ast)>, Option<String>),
    Rmw(u8, Ty, Ast, Ast),
    CmpX(Ty, Ast, Ast, Ast),
    Br(String),
    CondBr(Ast, String, String),
    Switch(Ty, Ast, String, Vec<(u64, String)>),
    Ret(Option<(Ty, Ast)>),
    Unreachable,
    Nop(Ty),
    Unsup(String, Ty),
}

enum CalleeA {
    Name(String),
    Local(String),
    Addr(u64),
    Asm,
}

fn binop(s: &str) -> Option<Op> {
    Some(match s {
        "add" => Op::Add,
        "sub" => Op::Sub,
        "mul" => Op::Mul,
        "udiv" => Op::UDiv,
        "urem" => Op::URem,
        "sdiv" => Op::SDiv,
        "srem" => Op::SRem,
        "and" => Op::And,
        "or" => Op::Or,
        "xor" => Op::Xor,
        "shl" => Op::Shl,
        "lshr" => Op::LShr,
        "ashr" => Op::AShr,
        _ => return None,
    })
}

fn skip_flags(p: &mut P) {
    while let Some(Tok::Id(s)) = p.peek() {
        if matches!(
            *s,
            "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak"
                | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
        ) {
            p.i += 1;
        } else if *s == "inrange" {
            p.i += 1;
            p.skip_parens();
        } else {
            break;
        }
    }
}

fn label(p: &mut P) -> R<String> {
    if !p.eat_id("label") {
        return Err("label expected".into());
    }
    match p.next()? {
        Tok::Local(s) => Ok(s.to_string()),
        t => Err(format!("label {:?}", t)),
    }
}

fn parse_inst(p: &mut P, cx: &Cx, text: &str) -> R<AI> {
    let opn = match p.next()? {
        Tok::Id(s) => s,
        t => return Err(format!("opcode {:?}", t)),
    };
    if let Some(op) = binop(opn) {
        skip_flags(p);
        let t = p.ty()?;
        let a = p.value(&t, cx)?;
        p.exp_p(b',')?;
        let b = p.value(&t, cx)?;
        return Ok(AI::Bin(op, t, a, b));
    }
    Ok(match opn {
        "icmp" => {
            skip_flags(p);
            let op = match p.next()? {
                Tok::Id(s) => match s {
                    "eq" => Op::Eq,
                    "ne" => Op::Ne,
                    "ult" => Op::Ult,
                    "ule" => Op::Ule,
                    "ugt" => Op::Ugt,
                    "uge" => Op::Uge,
                    "slt" => Op::Slt,
                    "sle" => Op::Sle,
                    "sgt" => Op::Sgt,
                    "sge" => Op::Sge,
                    _ => return Err("icmp pred".into()),
                },
                _ => return Err("icmp".into()),
            };
            let t = p.ty()?;
            let a = p.value(&t, cx)?;
            p.exp_p(b',')?;
            let b = p.value(&t, cx)?;
            AI::Icmp(op, t, a, b)
        }
        "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
            skip_flags(p);
            let (t, a) = p.tyval(cx)?;
            if !p.eat_id("to") {
                return Err("cast".into());
            }
            let tt = p.ty()?;
            if opn == "bitcast" {
                return Ok(AI::Bitcast(t, a, tt));
            }
            let c = match opn {
                "zext" => Cast::Zext,
                "sext" => Cast::Sext,
                "trunc" => Cast::Trunc,
                _ => {
                    if tt.elem_w() < t.elem_w() {
                        Cast::Trunc
                    } else {
                        Cast::Zext
                    }
                }
            };
            AI::Cast(c, t, a, tt)
        }
        "select" => {
            skip_flags(p);
            let (ct, c) = p.tyval(cx)?;
            p.exp_p(b',')?;
            let (t, a) = p.tyval(cx)?;
            p.exp_p(b',')?;
            let (_, b) = p.tyval(cx)?;
            AI::Select(ct, c, t, a, b)
        }
        "load" => {
            skip_flags(p);
            let t = p.ty()?;
            p.exp_p(b',')?;
            let (_, a) = p.tyval(cx)?;
            AI::Load(t, a)
        }
        "store" => {
            skip_flags(p);
            let (t, v) = p.tyval(cx)?;
            p.exp_p(b',')?;
            let (_, a) = p.tyval(cx)?;
            AI::Store(t, v, a)
        }
        "getelementptr" => {
            skip_flags(p);
            let t = p.ty()?;
            p.exp_p(b',')?;
            let (pt, b) = p.tyval(cx)?;
            if pt.is_vec() {
                return Err("vector gep".into());
            }
            let mut ix = vec![];
            while p.eat_p(b',') {
                if let Some(Tok::Meta(_)) = p.peek() {
                    break;
                }
                ix.push(p.tyval(cx)?);
            }
            AI::Gep(t, b, ix)
        }
        "alloca" => {
            let t = p.ty()?;
            let mut cnt = (Ty::Int(64), Ast::Const(vec![1]));
            let mut al = t.align();
            while p.eat_p(b',') {
                if p.eat_id("align") {
                    al = p.num()? as u64;
                } else if p.type_start() {
                    cnt = p.tyval(cx)?;
                } else {
                    break;
                }
            }
            AI::Alloca(t, cnt, al)
        }
        "phi" => {
            skip_flags(p);
            let t = p.ty()?;
            let mut v = vec![];
            loop {
                p.exp_p(b'[')?;
                let a = p.value(&t, cx)?;
                p.exp_p(b',')?;
                let l = match p.next()? {
                    Tok::Local(s) => s.to_string(),
                    t => return Err(format!("phi {:?}", t)),
                };
                p.exp_p(b']')?;
                v.push((a, l));
                if !p.is_p(b',') {
                    break;
                }
                if let Some(Tok::P(b'[')) = p.t.get(p.i + 1) {
                    p.i += 1;
                } else {
                    break;
                }
            }
            AI::Phi(t, v)
        }
        "extractvalue" => {
            let (t, a) = p.tyval(cx)?;
            let mut ix = vec![];
            while p.eat_p(b',') {
                if let Some(Tok::Num(_)) = p.peek() {
                    ix.push(p.num()? as u64);
                } else {
                    break;
                }
            }
            AI::ExtractV(t, a, ix)
        }
        "insertvalue" => {
            let (t, a) = p.tyval(cx)?;
            p.exp_p(b',')?;
            let (vt, v) = p.tyval(cx)?;
            let mut ix = vec![];
            while p.eat_p(b',') {
                if let Some(Tok::Num(_)) = p.peek() {
                    ix.push(p.num()? as u64);
                } else {
                    break;
                }
            }
            AI::InsertV(t, a, vt, v, ix)
        }
        "extractelement" => {
            let (t, a) = p.tyval(cx)?;
            p.exp_p(b',')?;
            let (it, i) = p.tyval(cx)?;
            AI::ExtractE(t, a, it, i)
        }
        "insertelement" => {
            let (t, a) = p.tyval(cx)?;
            p.exp_p(b',')?;
            let (_, v) = p.tyval(cx)?;
            p.exp_p(b',')?;
            let (it, i) = p.tyval(cx)?;
            AI::InsertE(t, a, v, it, i)
        }
        "shufflevector" => {
            let (t, a) = p.tyval(cx)?;
            p.exp_p(b',')?;
            let (_, b) = p.tyval(cx)?;
            p.exp_p(b',')?;
            let (_, m) = p.tyval(cx)?;
            match m {
                Ast::Const(m) => AI::Shuffle(t, a, b, m),
                _ => return Err("shuffle mask".into()),
            }
        }
        "freeze" => {
            let (t, a) = p.tyval(cx)?;
            AI::Freeze(t, a)
        }
        "atomicrmw" => {
            skip_flags(p);
            let op = match p.next()? {
                Tok::Id(s) => match s {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    "xor" => 5,
                    _ => return Ok(AI::Unsup(text.into(), Ty::Void)),
                },
                _ => return Err("rmw".into()),
            };
            let (_, a) = p.tyval(cx)?;
            p.exp_p(b',')?;
            let (t, v) = p.tyval(cx)?;
            AI::Rmw(op, t, a, v)
        }
        "cmpxchg" => {
            skip_flags(p);
            let (_, a) = p.tyval(cx)?;
            p.exp_p(b',')?;
            let (t, c) = p.tyval(cx)?;
            p.exp_p(b',')?;
            let (_, v) = p.tyval(cx)?;
            AI::CmpX(t, a, c, v)
        }
        "fence" => AI::Nop(Ty::Void),
        "landingpad" => AI::Unsup("landingpad".into(), p.ty()?),
        "resume" => AI::Unreachable,
        "unreachable" => AI::Unreachable,
        "ret" => {
            let t = p.ty()?;
            if t == Ty::Void {
                AI::Ret(None)
            } else {
                let v = p.value(&t, cx)?;
                AI::Ret(Some((t, v)))
            }
        }
        "br" => {
            if p.is_id("label") {
                AI::Br(label(p)?)
            } else {
                let (_, c) = p.tyval(cx)?;
                p.exp_p(b',')?;
                let a = label(p)?;
                p.exp_p(b',')?;
                let b = label(p)?;
                AI::CondBr(c, a, b)
            }
        }
        "switch" => {
            let (t, v) = p.tyval(cx)?;
            p.exp_p(b',')?;
            let d = label(p)?;
            p.exp_p(b'[')?;
            let mut cases = vec![];
            while !p.eat_p(b']') {
                let ct = p.ty()?;
                let c = p.konst(&ct, cx)?[0];
                p.exp_p(b',')?;
                cases.push((c as u64, label(p)?));
            }
            AI::Switch(t, v, d, cases)
        }
        "call" | "invoke" | "tail" | "musttail" | "notail" => {
            if opn != "call" && opn != "invoke" {
                p.next()?;
            }
            // flags, calling convention, return attributes
            while !p.type_start() {
                match p.next()? {
                    Tok::Id("align") => {
                        p.i += 1;
                    }
                    Tok::Id(_) => {
                        if p.is_p(b'(') {
                            p.skip_parens();
                        }
                    }
                    Tok::Num(_) => {}
                    t => return Err(format!("call {:?}", t)),
                }
            }
            let rt = p.ty()?;
            if p.is_p(b'(') {
                p.skip_parens();
            }
            let callee = match p.next()? {
                Tok::Global(g) => CalleeA::Name(g.to_string()),
                Tok::Local(g) => CalleeA::Local(g.to_string()),
                Tok::Id("asm") => {
                    while matches!(p.peek(), Some(Tok::Id(_)) | Some(Tok::Str(_)) | Some(Tok::P(b','))) {
                        p.i += 1;
                    }
                    CalleeA::Asm
                }
                Tok::Id("inttoptr") => {
                    p.i -= 1;
                    CalleeA::Addr(p.konst(&Ty::Ptr, cx)?[0] as u64)
                }
                t => return Err(format!("callee {:?}", t)),
            };
            p.exp_p(b'(')?;
            let mut args = vec![];
            while !p.eat_p(b')') {
                let t = p.ty()?;
                if t == Ty::Meta {
                    // skip the metadata operand
                    let mut d = 0;
                    loop {
                        match p.peek() {
                            Some(Tok::P(b'(')) => d += 1,
                            Some(Tok::P(b')')) if d == 0 => break,
                            Some(Tok::P(b')')) => d -= 1,
                            Some(Tok::P(b',')) if d == 0 => break,
                            None => return Err("metadata arg".into()),
                            _ => {}
                        }
                        p.i += 1;
                    }
                } else {
                    p.skip_attrs();
                    let v = p.value(&t, cx)?;
                    args.push((t, v));
                }
                p.eat_p(b',');
            }
            let mut normal = None;
            if opn == "invoke" {
                while !p.eat_id("to") {
                    if p.is_p(b'[') {
                        // operand bundle
                        while !p.eat_p(b']') {
                            p.i += 1;
                        }
                        continue;
                    }
                    p.next()?;
                }
                normal = Some(label(p)?);
            }
            AI::Call(rt, callee, args, normal)
        }
        _ => {
            // unknown opcode: try to find the result type for floats etc.
            let mut t = Ty::Void;
            while p.peek().is_some() {
                if p.type_start() {
                    t = p.ty()?;
                    break;
                }
                p.i += 1;
            }
            if let Some(k) = text.rfind(" to ") {
                if let Ok(tt) = P::new(&text[k + 4..]).ty() {
                    t = tt;
                }
            }
            if opn == "fcmp" {
                t = Ty::Int(1);
            }
            AI::Unsup(text.into(), t)
        }
    })
}

fn result_ty(ai: &AI) -> R<Ty> {
    let vec_of = |t: &Ty, e: Ty| match t {
        Ty::Vec(n, _) => Ty::Vec(*n, Box::new(e)),
        _ => e,
    };
    Ok(match ai {
        AI::Bin(_, t, ..) => t.clone(),
        AI::Icmp(_, t, ..) => vec_of(t, Ty::Int(1)),
        AI::Cast(_, _, _, t) => t.clone(),
        AI::Bitcast(_, _, t) => t.clone(),
        AI::Select(_, _, t, ..) => t.clone(),
        AI::Load(t, _) => t.clone(),
        AI::Store(..) => Ty::Void,
        AI::Gep(..) => Ty::Ptr,
        AI::Alloca(..) => Ty::Ptr,
        AI::Phi(t, _) => t.clone(),
        AI::ExtractV(t, _, ix) => {
            let mut t = t.clone();
            for i in ix {
                t = t.index(*i).2;
            }
            t
        }
        AI::InsertV(t, ..) => t.clone(),
        AI::ExtractE(t, ..) => match t {
            Ty::Vec(_, e) => (**e).clone(),
            _ => return Err("ee".into()),
        },
        AI::InsertE(t, ..) => t.clone(),
        AI::Shuffle(t, _, _, m) => match t {
            Ty::Vec(_, e) => Ty::Vec(m.len() as u64, e.clone()),
            _ => return Err("sv".into()),
        },
        AI::Freeze(t, _) => t.clone(),
        AI::Call(t, ..) => t.clone(),
        AI::Rmw(_, t, ..) => t.clone(),
        AI::CmpX(t, ..) => Ty::Struct(vec![t.clone(), Ty::Int(1)], false),
        AI::Nop(t) => t.clone(),
        AI::Unsup(_, t) => t.clone(),
        _ => Ty::Void,
    })
}

fn intrinsic(name: &str) -> Option<Intr> {
    let n = name.strip_prefix("llvm.")?;
    let h = |s: &str| n.starts_with(s);
    Some(if h("memcpy") {
        Intr::Memcpy
    } else if h("memmove") {
        Intr::Memmove
    } else if h("memset") {
        Intr::Memset
    } else if h("ctpop") {
        Intr::Ctpop
    } else if h("ctlz") {
        Intr::Ctlz
    } else if h("cttz") {
        Intr::Cttz
    } else if h("bswap") {
        Intr::Bswap
    } else if h("bitreverse") {
        Intr::Bitreverse
    } else if h("abs") {
        Intr::Abs
    } else if h("umin") {
        Intr::Umin
    } else if h("umax") {
        Intr::Umax
    } else if h("smin") {
        Intr::Smin
    } else if h("smax") {
        Intr::Smax
    } else if h("usub.sat") {
        Intr::Usubsat
    } else if h("uadd.sat") {
        Intr::Uaddsat
    } else if h("ssub.sat") {
        Intr::Ssubsat
    } else if h("sadd.sat") {
        Intr::Saddsat
    } else if h("fshl") {
        Intr::Fshl
    } else if h("fshr") {
        Intr::Fshr
    } else if h("ucmp") {
        Intr::Ucmp
    } else if h("scmp") {
        Intr::Scmp
    } else if h("uadd.with.overflow") {
        Intr::UaddO
    } else if h("usub.with.overflow") {
        Intr::UsubO
    } else if h("umul.with.overflow") {
        Intr::UmulO
    } else if h("sadd.with.overflow") {
        Intr::SaddO
    } else if h("ssub.with.overflow") {
        Intr::SsubO
    } else if h("smul.with.overflow") {
        Intr::SmulO
    } else if h("is.constant") {
        Intr::IsConstant
    } else if h("threadlocal.address") || h("launder") || h("strip.invariant") {
        Intr::Copy
    } else if h("expect") {
        Intr::Expect
    } else if h("trap") {
        Intr::Trap
    } else if h("load.relative") {
        Intr::LoadRel
    } else if h("assume") {
        Intr::Assume
    } else if h("lifetime") || h("experimental.noalias") || h("x86.sse2.pause") || h("dbg") || h("donothing") || h("prefetch") || h("invariant") {
        Intr::Nop
    } else {
        return None;
    })
}

fn lower(
    funcs: &mut Vec<Func>,
    fidx: &HashMap<String, u32>,
    id: u32,
    body: &[&str],
    cx: &Cx,
    wides: &mut Vec<u128>,
) -> R<()> {
    // --- parameters
    let hdr = body[0];
    let (name, at) = fname(hdr).ok_or("hdr")?;
    let skip = if hdr.as_bytes()[at + 1] == b'"' { name.len() + 3 } else { name.len() + 1 };
    let mut p = P::new(&hdr[at + skip..]);
    p.exp_p(b'(')?;
    let mut regs: HashMap<String, (u32, Ty)> = HashMap::new();
    let mut nregs: u32 = 0;
    let mut nparam_unnamed = 0;
    while !p.eat_p(b')') {
        if p.eat_p(b'.') {
            continue;
        }
        if let Some(Tok::Id("...")) = p.peek() {
            p.i += 1;
            continue;
        }
        let t = p.ty()?;
        p.skip_attrs();
        let n = match p.peek() {
            Some(Tok::Local(n)) => {
                let n = n.to_string();
                p.i += 1;
                n
            }
            _ => {
                nparam_unnamed += 1;
                format!("{}", nparam_unnamed - 1)
            }
        };
        let k = t.nleaves() as u32;
        regs.insert(n, (nregs, t));
        nregs += k;
        p.eat_p(b',');
    }
    let nparams = nregs;
    // --- instructions
    let mut logical: Vec<String> = vec![];
    for l in &body[1..] {
        if l.starts_with("    ") || l.starts_with("  ]") {
            let s = logical.last_mut().ok_or("cont")?;
            s.push(' ');
            s.push_str(l.trim());
        } else {
            logical.push(l.to_string());
        }
    }
    struct B {
        name: String,
        insts: Vec<(Option<String>, AI)>,
    }
    let mut blocks: Vec<B> = vec![];
    for l in &logical {
        let b = l.as_bytes();
        if b[0] != b' ' {
            if b[0] == b';' {
                continue;
            }
            // label
            let n = if b[0] == b'"' {
                l[1..].split('"').next().unwrap().to_string()
            } else {
                l.split(':').next().unwrap().to_string()
            };
            blocks.push(B { name: n, insts: vec![] });
            continue;
        }
        if blocks.is_empty() {
            blocks.push(B { name: "$entry".into(), insts: vec![] });
        }
        let mut p = P::new(l);
        if p.t.is_empty() {
            continue;
        }
        let mut dst = None;
        if let Some(Tok::Local(n)) = p.peek() {
            if let Some(Tok::P(b'=')) = p.t.get(1) {
                dst = Some(n.to_string());
                p.i = 2;
            }
        }
        let ai = match parse_inst(&mut p, cx, l) {
            Ok(a) => a,
            Err(e) => return Err(format!("{}: {}", e, l)),
        };
        if let Some(n) = &dst {
            let t = result_ty(&ai)?;
            let k = t.nleaves() as u32;
            regs.insert(n.clone(), (nregs, t));
            nregs += k;
        }
        blocks.last_mut().unwrap().insts.push((dst, ai));
    }
    // entry label for phi references: unnamed entry has the next number
    let bidx: HashMap<String, usize> = blocks.iter().enumerate().map(|(i, b)| (b.name.clone(), i)).collect();

    let mut code: Vec<I> = vec![];
    let mut edges: Vec<Edge> = vec![];
    let mut pending: Vec<(usize, usize, usize)> = vec![]; // (edge idx, from block, to block)
    let mut starts = vec![0u32; blocks.len()];

    fn opds(a: &Ast, t: &Ty, regs: &HashMap<String, (u32, Ty)>, wides: &mut Vec<u128>) -> R<Vec<Opd>> {
        match a {
            Ast::Local(n) => {
                let (b, t2) = regs.get(n).ok_or_else(|| format!("unknown reg {}", n))?;
                let k = t2.nleaves() as u32;
                Ok((0..k).map(|i| Opd::R(b + i)).collect())
            }
            Ast::Const(v) => {
                let lw = t.leaves();
                if lw.len() != v.len() {
                    return Err(format!("const leaves {:?} {:?}", t, v));
                }
                Ok(v.iter()
                    .zip(lw)
                    .map(|(x, (_, w))| {
                        if w > 64 {
                            wides.push(*x);
                            Opd::W(wides.len() as u32 - 1)
                        } else {
                            Opd::C(*x as u64)
                        }
                    })
                    .collect())
            }
        }
    }

    for bi in 0..blocks.len() {
        starts[bi] = code.len() as u32;
        for (dst, ai) in &blocks[bi].insts {
            let d = dst.as_ref().map(|n| regs[n].0).unwrap_or(u32::MAX);
            macro_rules! ops {
                ($a:expr,$t:expr) => {
                    opds($a, $t, &regs, wides)?
                };
            }
            macro_rules! edge {
                ($l:expr) => {{
                    let to = *bidx.get($l).ok_or_else(|| format!("label {}", $l))?;
                    edges.push(Edge { target: 0, copies: Box::new([]), seq: true });
                    pending.push((edges.len() - 1, bi, to));
                    (edges.len() - 1) as u32
                }};
            }
            match ai {
                AI::Bin(op, t, a, b) => {
                    if let Ty::Float(_) = t {
                        code.push(I::Unsupported("float".into()));
                        continue;
                    }
                    let (a, b) = (ops!(a, t), ops!(b, t));
                    let w = t.elem_w();
                    for i in 0..a.len() {
                        code.push(I::Bin { op: *op, w, dst: d + i as u32, a: a[i], b: b[i] });
                    }
                }
                AI::Icmp(op, t, a, b) => {
                    let (a, b) = (ops!(a, t), ops!(b, t));
                    let w = t.elem_w();
                    for i in 0..a.len() {
                        code.push(I::Bin { op: *op, w, dst: d + i as u32, a: a[i], b: b[i] });
                    }
                }
                AI::Cast(c, t, a, tt) => {
                    let a = ops!(a, t);
                    let (fw, tw) = (t.elem_w(), tt.elem_w());
                    for i in 0..a.len() {
                        if fw == tw {
                            code.push(I::Mov { dst: d + i as u32, a: a[i] });
                        } else {
                            code.push(I::Cast { c: *c, fw, tw, dst: d + i as u32, a: a[i] });
                        }
                    }
                }
                AI::Bitcast(t, a, tt) => {
                    let a = ops!(a, t);
                    let (fl, tl) = (t.nleaves(), tt.nleaves());
                    let (fw, tw) = (t.elem_w(), tt.elem_w());
                    if fl == tl {
                        for i in 0..fl {
                            code.push(I::Mov { dst: d + i as u32, a: a[i] });
                        }
                    } else if tl == 1 {
                        code.push(I::Pack { dst: d, w: fw, lanes: a.into() });
                    } else if fl == 1 {
                        code.push(I::Unpack { dst: d, w: tw, n: tl as u32, a: a[0] });
                    } else if fl > tl {
                        let r = fl / tl;
                        for i in 0..tl {
                            code.push(I::Pack { dst: d + i as u32, w: fw, lanes: a[i * r..(i + 1) * r].into() });
                        }
                    } else {
                        let r = tl / fl;
                        for i in 0..fl {
                            code.push(I::Unpack { dst: d + (i * r) as u32, w: tw, n: r as u32, a: a[i] });
                        }
                    }
                }
                AI::Select(ct, c, t, a, b) => {
                    let c = ops!(c, ct);
                    let (a, b) = (ops!(a, t), ops!(b, t));
                    let lw = t.leaves();
                    for i in 0..a.len() {
                        let cc = if c.len() == a.len() { c[i] } else { c[0] };
                        code.push(I::Select { dst: d + i as u32, w: lw[i].1, c: cc, a: a[i], b: b[i] });
                    }
                }
                AI::Load(t, a) => {
                    let pa = ops!(a, &Ty::Ptr)[0];
                    if let Ty::Vec(n, e) = t {
                        if e.elem_w() < 8 {
                            let (n, ew) = (*n as u32, e.elem_w());
                            let w = n * ew;
                            if w > 64 || w % 8 != 0 {
                                code.push(I::Unsupported("load of sub-byte vector".into()));
                                continue;
                            }
                            let t = nregs;
                            nregs += 1;
                            code.push(I::Load { dst: t, w, n: w / 8, p: pa, off: 0 });
                            code.push(I::Unpack { dst: d, w: ew, n, a: Opd::R(t) });
                            continue;
                        }
                    }
                    for (i, (o, w)) in t.leaves().into_iter().enumerate() {
                        code.push(I::Load { dst: d + i as u32, w, n: (w + 7) / 8, p: pa, off: o });
                    }
                }
                AI::Store(t, v, a) => {
                    let pa = ops!(a, &Ty::Ptr)[0];
                    let v = ops!(v, t);
                    if let Ty::Vec(n, e) = t {
                        if e.elem_w() < 8 {
                            let (n, ew) = (*n as u32, e.elem_w());
                            let w = n * ew;
                            if w > 64 || w % 8 != 0 {
                                code.push(I::Unsupported("store of sub-byte vector".into()));
                                continue;
                            }
                            let t = nregs;
                            nregs += 1;
                            code.push(I::Pack { dst: t, w: ew, lanes: v.into() });
                            code.push(I::Store { v: Opd::R(t), w, n: w / 8, p: pa, off: 0 });
                            continue;
                        }
                    }
                    for (i, (o, w)) in t.leaves().into_iter().enumerate() {
                        code.push(I::Store { v: v[i], w, n: (w + 7) / 8, p: pa, off: o });
                    }
                }
                AI::Gep(t, b, ix) => {
                    let base = ops!(b, &Ty::Ptr)[0];
                    let mut off = 0u64;
                    let mut terms = vec![];
                    let mut cur = t.clone();
                    for (k, (it, iv)) in ix.iter().enumerate() {
                        let o = ops!(iv, it)[0];
                        let w = it.elem_w();
                        if k == 0 {
                            match o {
                                Opd::C(c) => off = off.wrapping_add(sext(c, w).wrapping_mul(cur.size())),
                                _ => terms.push((o, w, cur.size())),
                            }
                        } else {
                            match (&cur, o) {
                                (Ty::Struct(..), Opd::C(c)) => {
                                    let (_, bo, nt) = cur.index(c);
                                    off = off.wrapping_add(bo);
                                    cur = nt;
                                }
                                (Ty::Arr(_, e), o) | (Ty::Vec(_, e), o) => {
                                    match o {
                                        Opd::C(c) => off = off.wrapping_add(sext(c, w).wrapping_mul(e.size())),
                                        _ => terms.push((o, w, e.size())),
                                    }
                                    cur = (**e).clone();
                                }
                                _ => return Err("gep".into()),
                            }
                        }
                    }
                    code.push(I::Gep { dst: d, base, off, terms: terms.into() });
                }
                AI::Alloca(t, (ct, c), al) => {
                    let c = ops!(c, ct)[0];
                    code.push(I::Alloca { dst: d, size: t.size(), align: (*al).max(1), count: c });
                }
                AI::Phi(..) => {}
                AI::ExtractV(t, a, ix) => {
                    let a = ops!(a, t);
                    let mut t = t.clone();
                    let mut l = 0;
                    for i in ix {
                        let (li, _, nt) = t.index(*i);
                        l += li;
                        t = nt;
                    }
                    for i in 0..t.nleaves() {
                        code.push(I::Mov { dst: d + i as u32, a: a[l + i] });
                    }
                }
                AI::InsertV(t, a, vt, v, ix) => {
                    let a = ops!(a, t);
                    let v = ops!(v, vt);
                    let mut t = t.clone();
                    let mut l = 0;
                    for i in ix {
                        let (li, _, nt) = t.index(*i);
                        l += li;
                        t = nt;
                    }
                    for i in 0..a.len() {
                        let x = if i >= l && i < l + v.len() { v[i - l] } else { a[i] };
                        code.push(I::Mov { dst: d + i as u32, a: x });
                    }
                }
                AI::ExtractE(t, a, it, i) => {
                    let a = ops!(a, t);
                    match ops!(i, it)[0] {
                        Opd::C(k) => code.push(I::Mov { dst: d, a: a[k as usize] }),
                        o => code.push(I::DynExtract { dst: d, w: t.elem_w(), lanes: a.into(), idx: o }),
                    }
                }
                AI::InsertE(t, a, v, it, i) => {
                    let a = ops!(a, t);
                    let v = match t {
                        Ty::Vec(_, e) => ops!(v, e)[0],
                        _ => return Err("ie".into()),
                    };
                    match ops!(i, it)[0] {
                        Opd::C(k) => {
                            for j in 0..a.len() {
                                code.push(I::Mov { dst: d + j as u32, a: if j as u64 == k { v } else { a[j] } });
                            }
                        }
                        _ => code.push(I::Unsupported("insertelement".into())),
                    }
                }
                AI::Shuffle(t, a, b, m) => {
                    let a = ops!(a, t);
                    let b = ops!(b, t);
                    for (i, k) in m.iter().enumerate() {
                        let k = *k as usize;
                        let x = if k < a.len() {
                            a[k]
                        } else if k < 2 * a.len() {
                            b[k - a.len()]
                        } else {
                            Opd::C(0)
                        };
                        code.push(I::Mov { dst: d + i as u32, a: x });
                    }
                }
                AI::Freeze(t, a) => {
                    for (i, o) in ops!(a, t).into_iter().enumerate() {
                        code.push(I::Mov { dst: d + i as u32, a: o });
                    }
                }
                AI::Rmw(op, t, a, v) => {
                    let pa = ops!(a, &Ty::Ptr)[0];
                    let v = ops!(v, t)[0];
                    let w = t.elem_w();
                    code.push(I::Rmw { op: *op, dst: d, w, n: (w + 7) / 8, p: pa, v });
                }
                AI::CmpX(t, a, c, v) => {
                    let pa = ops!(a, &Ty::Ptr)[0];
                    let c = ops!(c, t)[0];
                    let v = ops!(v, t)[0];
                    let w = t.elem_w();
                    code.push(I::CmpXchg { dst: d, w, n: (w + 7) / 8, p: pa, c, v });
                }
                AI::Call(rt, callee, args, normal) => {
                    let mut done = false;
                    if let CalleeA::Name(n) = callee {
                        if n.starts_with("llvm.") {
                            done = true;
                            match intrinsic(n) {
                                Some(k) => {
                                    let vect = args.iter().any(|(t, _)| t.is_vec());
                                    let aw = args.first().map(|(t, _)| t.elem_w()).unwrap_or(0);
                                    if vect {
                                        // elementwise
                                        let av: Vec<Vec<Opd>> = {
                                            let mut r = vec![];
                                            for (t, a) in args {
                                                r.push(ops!(a, t));
                                            }
                                            r
                                        };
                                        let lanes = rt.nleaves();
                                        let two = matches!(k, Intr::UaddO | Intr::UsubO | Intr::UmulO);
                                        if two {
                                            code.push(I::Unsupported(n.as_str().into()));
                                        } else {
                                            for j in 0..lanes {
                                                let a: Vec<Opd> = av.iter().map(|x| if x.len() == lanes { x[j] } else { x[0] }).collect();
                                                code.push(I::Intr { k, w: aw, dst: d.wrapping_add(j as u32), args: a.into() });
                                            }
                                        }
                                    } else {
                                        let mut a = vec![];
                                        if k != Intr::Nop && k != Intr::Assume {
                                            for (t, x) in args {
                                                a.extend(ops!(x, t));
                                            }
                                        }
                                        if k == Intr::Ucmp || k == Intr::Scmp {
                                            // result width differs from argument width
                                            a.push(Opd::C(rt.elem_w() as u64));
                                        }
                                        code.push(I::Intr { k, w: aw, dst: d, args: a.into() });
                                    }
                                }
                                None => code.push(I::Unsupported(n.as_str().into())),
                            }
                        }
                    }
                    if !done {
                        let mut a = vec![];
                        for (t, x) in args {
                            a.extend(ops!(x, t));
                        }
                        let nret = rt.nleaves() as u32;
                        match callee {
                            CalleeA::Name(n) => {
                                let f = *fidx.get(n.as_str()).ok_or_else(|| format!("callee {}", n))?;
                                code.push(I::Call { callee: Callee::Func(f), args: a.into(), dst: d, nret });
                            }
                            CalleeA::Local(n) => {
                                let r = regs.get(n).ok_or("callee reg")?.0;
                                code.push(I::Call { callee: Callee::Ptr(Opd::R(r)), args: a.into(), dst: d, nret });
                            }
                            CalleeA::Addr(x) => {
                                code.push(I::Call { callee: Callee::Ptr(Opd::C(*x)), args: a.into(), dst: d, nret })
                            }
                            CalleeA::Asm => {
                                if nret == 0 {
                                } else {
                                    code.push(I::Unsupported("asm".into()));
                                }
                            }
                        }
                    }
                    if let Some(l) = normal {
                        let e = edge!(l);
                        code.push(I::Br { e });
                    }
                }
                AI::Br(l) => {
                    let e = edge!(l);
                    code.push(I::Br { e });
                }
                AI::CondBr(c, a, b) => {
                    let c = ops!(c, &Ty::Int(1))[0];
                    let t = edge!(a);
                    let f = edge!(b);
                    code.push(I::CondBr { c, t, f });
                }
                AI::Switch(t, v, dl, cases) => {
                    let v = ops!(v, t)[0];
                    let de = edge!(dl);
                    let mut cs = vec![];
                    for (c, l) in cases {
                        let e = edge!(l);
                        cs.push((*c, e));
                    }
                    cs.sort();
                    code.push(I::Switch { v, w: t.elem_w(), default: de, cases: cs.into() });
                }
                AI::Ret(None) => code.push(I::Ret { vals: Box::new([]) }),
                AI::Ret(Some((t, v))) => {
                    let v = ops!(v, t);
                    code.push(I::Ret { vals: v.into() });
                }
                AI::Unreachable => code.push(I::Unreachable),
                AI::Nop(_) => {}
                AI::Unsup(s, _) => code.push(I::Unsupported(s.trim().into())),
            }
        }
    }
    // --- phi edges
    // numeric entry label: if the first block is unnamed, phis refer to it by its number
    let entry_alias = if blocks[0].name == "$entry" { Some(()) } else { None };
    for (e, from, to) in pending {
        let mut copies = vec![];
        for (dst, ai) in &blocks[to].insts {
            if let AI::Phi(t, inc) = ai {
                let fname = &blocks[from].name;
                let found = inc.iter().find(|(_, l)| {
                    l == fname || (entry_alias.is_some() && from == 0 && !bidx.contains_key(l.as_str()))
                });
                let (a, _) = found.ok_or_else(|| format!("phi incoming {} in {}", fname, blocks[to].name))?;
                let o = opds(a, t, &regs, wides)?;
                let d = regs[dst.as_ref().unwrap()].0;
                for (i, x) in o.into_iter().enumerate() {
                    if x != Opd::R(d + i as u32) {
                        copies.push((d + i as u32, x));
                    }
                }
            } else {
                break;
            }
        }
        // sequential is safe if no source register is an earlier destination
        let mut seq = true;
        for (i, (_, s)) in copies.iter().enumerate() {
            if let Opd::R(r) = s {
                if copies[..i].iter().any(|(d, _)| d == r) {
                    seq = false;
                }
            }
        }
        edges[e] = Edge { target: starts[to], copies: copies.into(), seq };
    }
    let f = &mut funcs[id as usize];
    f.nregs = nregs;
    f.nparams = nparams;
    f.code = code;
    f.edges = edges;
    f.nblocks = blocks.len() as u32;
    f.block_starts = starts;
    Ok(())
}
