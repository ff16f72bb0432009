//! An independent reader of ELF relocatable objects, and the judge of an object against a Model.
use crate::model::*;
use crate::sym::*;

pub const HDR: u32 = 1; // C07
pub const STRUCT: u32 = 2; // C08
pub const CONTENT: u32 = 4; // C09
pub const SYMS: u32 = 8; // C10
pub const RELOCS: u32 = 16; // C11
pub const ZERO: u32 = 32; // C12
pub const CUSTOM: u32 = 64; // C17
pub const XNUM: u32 = 128; // C18
/// names may coincide: no uniqueness-by-name demands
pub const COINCIDE: u32 = 256;
pub const ALL: u32 = 255;

pub const SHT_PROGBITS: u32 = 1;
pub const SHT_SYMTAB: u32 = 2;
pub const SHT_STRTAB: u32 = 3;
pub const SHT_RELA: u32 = 4;
pub const SHT_NOBITS: u32 = 8;
pub const SHT_SYMTAB_SHNDX: u32 = 18;
pub const F_WRITE: u64 = 1;
pub const F_ALLOC: u64 = 2;
pub const F_EXEC: u64 = 4;
pub const F_MERGE: u64 = 0x10;
pub const F_STRINGS: u64 = 0x20;
pub const F_INFO: u64 = 0x40;

pub struct Sec {
    pub name: u64,
    pub ty: u32,
    pub flags: u64,
    pub addr: u64,
    pub off: u64,
    pub size: u64,
    pub link: u32,
    pub info: u32,
    pub align: u64,
    pub ent: u64,
}
pub struct Sym {
    pub name: u64,
    pub info: u8,
    pub other: u8,
    pub shndx: u32, // raw 16-bit value
    pub sec: u64,   // resolved section (extended table applied)
    pub value: u64,
    pub size: u64,
}
#[derive(Clone, Copy)]
pub struct Rel {
    pub off: u64,
    pub sym: u64,
    pub ty: u64,
    pub addend: i64,
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub be: bool,
}
impl<'a> Rd<'a> {
    pub fn u(&self, at: u64, n: u64) -> u64 {
        if at > self.b.len() as u64 || n > self.b.len() as u64 - at {
            fail("a structure of the object lies outside the file");
        }
        let at = at as usize;
        let mut v = 0u64;
        let mut i = 0;
        while i < n as usize {
            let k = if self.be { i } else { n as usize - 1 - i };
            v = (v << 8) | self.b[at + k] as u64;
            i += 1;
        }
        v
    }
}

pub struct Elf<'a> {
    pub r: Rd<'a>,
    pub c64: bool,
    pub shoff: u64,
    pub secs: Vec<Sec>,
    pub syms: Vec<Sym>,
    pub symtab: usize,
    pub strtab: usize,
    pub shstr: usize,
    pub shndx: Option<usize>,
}

pub fn parse<'a>(b: &'a [u8], c64: bool, be: bool) -> Elf<'a> {
    let r = Rd { b, be };
    check(b.len() >= if c64 { 64 } else { 52 }, "the file is shorter than an ELF header");
    check((b[0] == 0x7f) & (b[1] == b'E') & (b[2] == b'L') & (b[3] == b'F'), "ELF magic is wrong");
    check(b[4] == if c64 { 2 } else { 1 }, "ELF class is not the target's");
    check(b[5] == if be { 2 } else { 1 }, "ELF byte order is not the target's");
    let (shoff, shentsize, shnum, shstrndx) = if c64 {
        (r.u(40, 8), r.u(58, 2), r.u(60, 2), r.u(62, 2))
    } else {
        (r.u(32, 4), r.u(46, 2), r.u(48, 2), r.u(50, 2))
    };
    let shsz = if c64 { 64 } else { 40 };
    check(shentsize == shsz, "section header entry size is not that of the class");
    let shoff = conc(shoff);
    check(shoff != 0 && shoff <= b.len() as u64 && b.len() as u64 - shoff >= shsz, "the section header table lies outside the file");
    let rs = |i: u64| -> Sec {
        let o = shoff + i * shsz;
        if c64 {
            Sec {
                name: r.u(o, 4),
                ty: r.u(o + 4, 4) as u32,
                flags: r.u(o + 8, 8),
                addr: r.u(o + 16, 8),
                off: r.u(o + 24, 8),
                size: r.u(o + 32, 8),
                link: r.u(o + 40, 4) as u32,
                info: r.u(o + 44, 4) as u32,
                align: r.u(o + 48, 8),
                ent: r.u(o + 56, 8),
            }
        } else {
            Sec {
                name: r.u(o, 4),
                ty: r.u(o + 4, 4) as u32,
                flags: r.u(o + 8, 4),
                addr: r.u(o + 12, 4),
                off: r.u(o + 16, 4),
                size: r.u(o + 20, 4),
                link: r.u(o + 24, 4) as u32,
                info: r.u(o + 28, 4) as u32,
                align: r.u(o + 32, 4),
                ent: r.u(o + 36, 4),
            }
        }
    };
    let mut n = conc(shnum);
    if n == 0 {
        n = conc(rs(0).size);
        check(n >= 0xff00, "the section count is stored in the extended form although it fits the header");
    }
    check((b.len() as u64 - shoff) / shsz >= n, "the section header table lies outside the file");
    let mut shstr = conc(shstrndx);
    if shstr == 0xffff {
        shstr = conc(rs(0).link as u64);
    }
    check((shstr > 0) & (shstr < n), "the section name table index is out of range");
    let mut secs = Vec::with_capacity(n as usize);
    let (mut symtab, mut shx) = (0usize, None);
    for i in 0..n {
        let mut s = rs(i);
        s.ty = conc(s.ty as u64) as u32;
        s.off = conc(s.off);
        if s.ty != SHT_NOBITS {
            check(
                (s.ty == 0) | (s.size == 0) | ((s.off <= b.len() as u64) & (s.size <= (b.len() as u64).wrapping_sub(s.off))),
                "a section's contents lie outside the file",
            );
            s.size = conc(s.size);
        }
        s.link = conc(s.link as u64) as u32;
        s.info = conc(s.info as u64) as u32;
        s.name = conc(s.name);
        if i == 0 {
            check(s.ty == 0, "the first section header is not null");
        } else {
            if s.ty == SHT_SYMTAB {
                check(symtab == 0, "more than one symbol table");
                symtab = i as usize;
            }
            if s.ty == SHT_SYMTAB_SHNDX {
                check(shx.is_none(), "more than one extended index table");
                shx = Some(i as usize);
            }
            if s.ty != SHT_NOBITS && s.ty != 0 && s.size > 0 {
                check(
                    s.off <= b.len() as u64 && s.size <= b.len() as u64 - s.off,
                    "a section's contents lie outside the file",
                );
            }
        }
        secs.push(s);
    }
    check(symtab != 0, "no symbol table");
    let strtab = secs[symtab].link as usize;
    check(strtab > 0 && strtab < secs.len() && secs[strtab].ty == SHT_STRTAB, "the symbol table's string table link is wrong");
    check(secs[shstr as usize].ty == SHT_STRTAB, "the section name table is not a string table");
    let ssz = if c64 { 24 } else { 16 };
    check(secs[symtab].ent == ssz, "the symbol table entry size is not that of the class");
    check(secs[symtab].size % ssz == 0, "the symbol table's size is not a multiple of its entry size");
    let ns = secs[symtab].size / ssz;
    check(ns >= 1, "the symbol table is empty");
    if let Some(x) = shx {
        check(secs[x].link as usize == symtab, "the extended index table is not linked to the symbol table");
        check(secs[x].size == ns * 4, "the extended index table does not have one entry per symbol");
        check(secs[x].ent == 4, "the extended index table's entry size is wrong");
    }
    let mut syms = Vec::with_capacity(ns as usize);
    for i in 0..ns {
        let o = secs[symtab].off + i * ssz;
        let mut s = if c64 {
            Sym {
                name: r.u(o, 4),
                info: r.u(o + 4, 1) as u8,
                other: r.u(o + 5, 1) as u8,
                shndx: r.u(o + 6, 2) as u32,
                sec: 0,
                value: r.u(o + 8, 8),
                size: r.u(o + 16, 8),
            }
        } else {
            Sym {
                name: r.u(o, 4),
                value: r.u(o + 4, 4),
                size: r.u(o + 8, 4),
                info: r.u(o + 12, 1) as u8,
                other: r.u(o + 13, 1) as u8,
                shndx: r.u(o + 14, 2) as u32,
                sec: 0,
            }
        };
        s.name = conc(s.name);
        s.shndx = conc(s.shndx as u64) as u32;
        s.sec = s.shndx as u64;
        if s.shndx == 0xffff {
            match shx {
                Some(x) => s.sec = conc(r.u(secs[x].off + 4 * i, 4)),
                None => fail("a symbol has an extended section index but there is no extended index table"),
            }
        }
        syms.push(s);
    }
    Elf { r, c64, shoff, secs, syms, symtab, strtab, shstr: shstr as usize, shndx: shx }
}

impl<'a> Elf<'a> {
    /// is the string at `off` of string table `tab` exactly `want`?
    pub fn str_is(&self, tab: usize, off: u64, want: &[u8]) -> bool {
        let t = &self.secs[tab];
        if off >= t.size || (want.len() as u64) >= t.size - off {
            return false;
        }
        let p = (t.off + off) as usize;
        let mut d = 0u8;
        let mut i = 0;
        while i < want.len() {
            d |= self.r.b[p + i] ^ want[i];
            i += 1;
        }
        d |= self.r.b[p + want.len()];
        d == 0
    }
    pub fn str2_is(&self, tab: usize, off: u64, pre: &[u8], want: &[u8]) -> bool {
        let mut v = Vec::with_capacity(pre.len() + want.len());
        v.extend_from_slice(pre);
        v.extend_from_slice(want);
        self.str_is(tab, off, &v)
    }
    pub fn sec_is(&self, i: usize, want: &[u8]) -> bool {
        self.str_is(self.shstr, self.secs[i].name, want)
    }
    pub fn sym_is(&self, i: usize, want: &[u8]) -> bool {
        self.str_is(self.strtab, self.syms[i].name, want)
    }
    /// does the string at `off` end inside the table? (no demand on its characters)
    pub fn terminated(&self, tab: usize, off: u64) -> bool {
        let t = &self.secs[tab];
        if off >= t.size || t.size == 0 {
            return false;
        }
        // a table that ends in a zero byte terminates every string in it
        self.r.b[(t.off + t.size - 1) as usize] == 0
    }
    pub fn content(&self, i: usize) -> &[u8] {
        let s = &self.secs[i];
        if s.ty == SHT_NOBITS {
            return &[];
        }
        if s.off > self.r.b.len() as u64 || s.size > self.r.b.len() as u64 - s.off {
            fail("a section's contents lie outside the file")
        }
        &self.r.b[s.off as usize..(s.off + s.size) as usize]
    }
    pub fn rels(&self, i: usize) -> Vec<Rel> {
        let s = &self.secs[i];
        let es = if self.c64 { 24 } else { 12 };
        check(s.ent == es, "a relocation section's entry size is not that of the class");
        check(s.size % es == 0, "a relocation section's size is not a multiple of its entry size");
        let mut v = vec![];
        for k in 0..s.size / es {
            let o = s.off + k * es;
            v.push(if self.c64 {
                let inf = self.r.u(o + 8, 8);
                Rel { off: self.r.u(o, 8), sym: inf >> 32, ty: inf & 0xffff_ffff, addend: self.r.u(o + 16, 8) as i64 }
            } else {
                let inf = self.r.u(o + 4, 4);
                Rel { off: self.r.u(o, 4), sym: inf >> 8, ty: inf & 255, addend: self.r.u(o + 8, 4) as u32 as i32 as i64 }
            });
        }
        v
    }
}

/// the symbols that may have a name: all of them, or (when asked for) those whose names hash alike
pub struct Lookup {
    all: Vec<usize>,
    by: Vec<Vec<usize>>,
}
const BUCKETS: usize = 1 << 15;
fn mix(mut h: usize, b: &[u8]) -> usize {
    for c in b {
        h = (h ^ *c as usize).wrapping_mul(0x9e37_79b1) ^ (h >> 7);
    }
    h
}
impl Lookup {
    pub fn new(on: bool, first: usize, n: usize, tab: &[u8], at: impl Fn(usize) -> u64) -> Lookup {
        if !on {
            return Lookup { all: (first..n).collect(), by: vec![] };
        }
        let mut by = Vec::with_capacity(BUCKETS);
        for _ in 0..BUCKETS {
            by.push(vec![]);
        }
        for i in first..n {
            let p = at(i) as usize;
            check(p < tab.len(), "a symbol name is out of range");
            let mut q = p;
            while q < tab.len() && tab[q] != 0 {
                q += 1;
            }
            by[mix(1, &tab[p..q]) % BUCKETS].push(i);
        }
        Lookup { all: vec![], by }
    }
    pub fn find(&self, pre: &[u8], name: &[u8]) -> &[usize] {
        if self.by.is_empty() {
            return &self.all;
        }
        &self.by[mix(mix(1, pre), name) % BUCKETS]
    }
}

pub fn check_header(b: &[u8], m: &Model) {
    let t = &m.tgt;
    let e = Rd { b, be: t.be };
    check(b.len() >= if t.c64 { 64 } else { 52 }, "the file is shorter than an ELF header");
    check((b[0] == 0x7f) & (b[1] == b'E') & (b[2] == b'L') & (b[3] == b'F'), "ELF magic is wrong");
    check(b[4] == if t.c64 { 2 } else { 1 }, "ELF class is not the target's");
    check(b[5] == if t.be { 2 } else { 1 }, "ELF byte order is not the target's");
    check(b[6] == 1, "ELF identification version is not current");
    check(e.u(16, 2) == 1, "the ELF type is not relocatable");
    check(e.u(18, 2) == t.machine as u64, "the ELF machine number is not the target's");
    check(e.u(20, 4) == 1, "the ELF version is not current");
    let (entry, phoff, ehsize, phnum) = if t.c64 {
        (e.u(24, 8), e.u(32, 8), e.u(52, 2), e.u(56, 2))
    } else {
        (e.u(24, 4), e.u(28, 4), e.u(40, 2), e.u(44, 2))
    };
    check(entry == 0, "a relocatable object has an entry point");
    check((phnum == 0) & (phoff == 0), "a relocatable object has program headers");
    check(ehsize == if t.c64 { 64 } else { 52 }, "the ELF header size is not that of the class");
}

pub fn structure(e: &Elf, coincide: bool) {
    let flen = e.r.b.len() as u64;
    let n = e.secs.len();
    let shsz = if e.c64 { 64 } else { 40 };
    // (start, end) of everything that occupies the file
    let mut iv: Vec<(u64, u64)> = vec![(0, if e.c64 { 64 } else { 52 }), (e.shoff, e.shoff + n as u64 * shsz)];
    let mut note = false;
    for i in 1..n {
        let s = &e.secs[i];
        check(s.off <= flen, "a section's offset lies outside the file");
        if s.ty != SHT_NOBITS && s.ty != 0 && s.size > 0 {
            check(s.size <= flen - s.off, "a section's contents lie outside the file");
            iv.push((s.off, s.off + s.size));
        }
        check(e.terminated(e.shstr, s.name), "a section name does not resolve to a terminated string");
        let al = s.align;
        check((al == 0) | (al & al.wrapping_sub(1) == 0), "a section's alignment is not a power of two");
        if s.ent != 0 && s.ty != SHT_NOBITS {
            check(s.size % conc(s.ent) == 0, "a table's size is not a multiple of its entry size");
        }
        match s.ty {
            SHT_SYMTAB => {
                check(s.info as usize <= e.syms.len(), "the symbol table's first-non-local index is out of range");
            }
            SHT_RELA => {
                check(s.link as usize == e.symtab, "a relocation section is not linked to the symbol table");
                check(s.info > 0 && (s.info as usize) < n, "a relocation section's target section is out of range");
                for r in e.rels(i) {
                    check(r.sym < e.syms.len() as u64, "a relocation's symbol index is out of range");
                }
            }
            SHT_SYMTAB_SHNDX => {}
            _ => {
                check((s.link as usize) < n, "a section link is out of range");
            }
        }
        if e.sec_is(i, b".note.GNU-stack") {
            let fine = (s.flags & F_EXEC == 0) & (s.size == 0) & (s.ty == SHT_PROGBITS);
            // (a custom section may bear the note's name)
            check(fine | coincide, "the stack note asks for an executable stack or has contents");
            note |= fine;
        }
    }
    check(note, "there is no non-executable-stack note");
    iv.sort();
    for k in 1..iv.len() {
        check(iv[k - 1].1 <= iv[k].0, "two parts of the file overlap");
        // (a table that is said to be shorter than it is leaves bytes of nothing behind)
        check(iv[k].0 - iv[k - 1].1 < 64, "bytes of the file belong to no part of it");
    }
    check(iv[iv.len() - 1].1 == flen, "bytes of the file belong to no part of it");
    let z = &e.syms[0];
    check(
        (z.name == 0) & (z.info == 0) & (z.other == 0) & (z.shndx == 0) & (z.value == 0) & (z.size == 0),
        "the first symbol is not the null symbol",
    );
    check(e.r.b[e.secs[e.strtab].off as usize] == 0, "the string table does not start with a zero byte");
    for i in 1..e.syms.len() {
        let s = &e.syms[i];
        check(e.terminated(e.strtab, s.name), "a symbol name does not resolve to a terminated string");
        check(
            s.sec < n as u64 || s.shndx == 0xfff1 || s.shndx == 0xfff2,
            "a symbol's section index is out of range",
        );
    }
}

pub fn check_ext_table(e: &Elf) {
    let n = e.secs.len() as u64;
    let raw = if e.c64 { e.r.u(60, 2) } else { e.r.u(48, 2) };
    if n >= 0xff00 {
        check(raw == 0, "the header holds a section count although it needs extended numbering");
        check(e.secs[0].size == n, "the first section header does not hold the section count");
        match e.shndx {
            None => fail("there is no extended index table"),
            Some(x) => {
                for i in 0..e.syms.len() {
                    let v = e.r.u(e.secs[x].off + 4 * i as u64, 4);
                    if e.syms[i].shndx == 0xffff {
                        check((v >= 0xff00) & (v < n), "an extended index does not need extension or is out of range");
                    } else {
                        check(v == 0, "the extended index table has an entry for a symbol that is not marked");
                    }
                }
            }
        }
    } else {
        check(raw == n, "the header does not hold the section count");
        check(e.shndx.is_none(), "there is an extended index table although no symbol can need it");
        check(e.secs[0].size == 0, "the first section header holds a section count although the header does");
        for s in &e.syms {
            check(s.shndx != 0xffff, "a symbol is marked as extended below the limit");
        }
    }
}

fn def_prefix(d: &Def) -> &'static [u8] {
    match d.kind {
        Kind::Func => b".text.",
        Kind::Data | Kind::Str => {
            if d.zero.is_some() {
                b".bss."
            } else if d.writable {
                b".data."
            } else {
                b".rodata."
            }
        }
        _ => b"",
    }
}

fn default_align(d: &Def) -> u64 {
    match d.kind {
        Kind::Func | Kind::Sect(SK::Text) | Kind::SectStr(SK::Text) => 16,
        Kind::Sect(SK::Data) | Kind::SectStr(SK::Data) => 8,
        Kind::Sect(_) | Kind::SectStr(_) => 1,
        // zero-initialised storage is always writable
        _ => {
            if d.writable {
                8
            } else {
                1
            }
        }
    }
}

/// Is section `i` the section of definition `d`: name, bytes and attributes?
/// (`strict`: also attributes; otherwise only name and bytes.)
fn sec_matches(e: &Elf, i: usize, d: &Def) -> bool {
    let s = &e.secs[i];
    let mut ok = e.str2_is(e.shstr, s.name, def_prefix(d), d.name.as_bytes());
    if d.zero.is_some() {
        ok &= s.ty == SHT_NOBITS;
    } else {
        ok &= (s.ty == SHT_PROGBITS) && same(e.content(i), &d.data);
    }
    ok
}

fn check_attrs(e: &Elf, i: usize, d: &Def) {
    let s = &e.secs[i];
    let special = same(d.name.as_bytes(), b".debug_str") | same(d.name.as_bytes(), b".debug_line_str");
    match d.kind {
        Kind::Func => check(s.flags == F_ALLOC | F_EXEC, "a function section is not exactly allocated and executable"),
        Kind::Data | Kind::Str => {
            if d.zero.is_some() {
                check(s.flags == F_ALLOC | F_WRITE, "a zero-initialised section is not exactly allocated and writable");
            } else {
                let base = if d.writable { F_ALLOC | F_WRITE } else { F_ALLOC };
                let want = if d.kind == Kind::Str { base | F_MERGE | F_STRINGS } else { base };
                check(s.flags == want, "a data section's flags are not those of its declaration");
            }
        }
        Kind::Sect(k) | Kind::SectStr(k) => {
            let base = match k {
                SK::Data => F_ALLOC | F_WRITE,
                SK::Text => F_ALLOC | F_EXEC,
                SK::Debug => 0,
            };
            let strs = matches!(d.kind, Kind::SectStr(_)) | special;
            let want = if strs { base | F_MERGE | F_STRINGS } else { base };
            check(s.flags == want, "a custom section's flags are not those of its kind");
        }
    }
    let al = match d.align {
        Some(a) => a,
        None => default_align(d),
    };
    if d.zero.is_some() && d.align.is_none() {
        check(s.align >= 1, "a zero-initialised section has no alignment");
    } else {
        check(s.align == al, "a section's alignment is not the declared or default one");
    }
}

/// judge an emitted object; `what` selects the aspects that are reported
pub fn check_elf(b: &[u8], m: &Model, what: u32) {
    observe(b);
    if what & HDR != 0 {
        check_header(b, m);
    }
    let e = parse(b, m.tgt.c64, m.tgt.be);
    if what & STRUCT != 0 {
        structure(&e, what & COINCIDE != 0);
        let es = if e.c64 { 24 } else { 12 };
        let n: u64 = e.secs.iter().filter(|s| s.ty == SHT_RELA).map(|s| s.size / es).sum();
        check(n == m.links.len() as u64, "the relocation tables do not have as many entries as there are links");
    }
    if what & XNUM != 0 {
        check_ext_table(&e);
    }
    if what & !(HDR | STRUCT | XNUM | COINCIDE) == 0 {
        return;
    }
    let coincide = what & COINCIDE != 0;
    let nsec = e.secs.len();
    let t = &e.secs[e.strtab];
    let look = Lookup::new(m.indexed, 1, e.syms.len(), &e.r.b[t.off as usize..(t.off + t.size) as usize], |i| e.syms[i].name);
    // --- symbols and the section of each definition
    let mut used = vec![false; nsec];
    let mut home = vec![0usize; m.defs.len()];
    let mut claimed = vec![false; e.syms.len()];
    for (di, d) in m.defs.iter().enumerate() {
        if d.is_section() {
            continue;
        }
        let mut found = 0;
        let mut count = 0u32;
        for &i in look.find(b"", d.name.as_bytes()) {
            let t = e.syms[i].info & 15;
            if t == 3 || t == 4 || claimed[i] {
                continue;
            }
            let is = e.sym_is(i, d.name.as_bytes());
            if coincide {
                // custom symbols may carry the same name: only symbols of the right type count
                let want = if d.kind == Kind::Func { 2 } else { 1 };
                if t != want {
                    continue;
                }
            }
            if is {
                count += 1;
                found = i;
            }
        }
        check(count == 1, "a definition does not have exactly one symbol");
        if count != 1 {
            continue;
        }
        claimed[found] = true;
        let s = &e.syms[found];
        let sec = s.sec as usize;
        check(sec > 0 && sec < nsec && s.shndx != 0xfff1 && s.shndx != 0xfff2, "a defined symbol is not in a section");
        check(!used[sec], "two definitions share one section");
        used[sec] = true;
        home[di] = sec;
        if what & (SYMS | ZERO) != 0 {
            check(s.size == d.size(), "a symbol's size is not that of its definition");
        }
        if what & SYMS != 0 {
            let ty = if d.kind == Kind::Func { 2 } else { 1 };
            check(s.info == (d.scope << 4) | ty, "a symbol's type or binding is not that of its declaration");
            check(s.other == d.vis, "a symbol's visibility is not that of its declaration");
        }
        check(s.value == 0, "a symbol does not point at the start of its definition");
    }
    for (di, d) in m.defs.iter().enumerate() {
        if !d.is_section() {
            continue;
        }
        let mut found = 0;
        let mut count = 0;
        for i in 1..nsec {
            if used[i] || i == e.symtab || i == e.strtab || e.secs[i].ty == SHT_RELA || Some(i) == e.shndx {
                continue;
            }
            if coincide {
                if sec_matches(&e, i, d) {
                    found = i;
                    count += 1;
                    break;
                }
            } else if e.sec_is(i, d.name.as_bytes()) {
                count += 1;
                found = i;
            }
        }
        check(count == 1, "a custom section does not appear exactly once under its name");
        if count == 1 {
            used[found] = true;
            home[di] = found;
        }
    }
    if what & (CONTENT | CUSTOM | ZERO) != 0 {
        for (di, d) in m.defs.iter().enumerate() {
            let i = home[di];
            let s = &e.secs[i];
            if d.is_section() {
                if what & (CONTENT | CUSTOM) == 0 {
                    continue;
                }
            } else if d.zero.is_some() {
                if what & (CONTENT | ZERO) == 0 {
                    continue;
                }
            } else if what & CONTENT == 0 {
                continue;
            }
            check(
                e.str2_is(e.shstr, s.name, def_prefix(d), d.name.as_bytes()),
                "a section is not named after its definition and kind",
            );
            if d.zero.is_some() {
                check(s.ty == SHT_NOBITS, "zero-initialised data is not in a no-bits section");
                if what & ZERO != 0 {
                    check(s.size == d.size(), "a zero-initialised section does not reserve its size");
                    let al = d.align.unwrap_or(1);
                    check(s.align >= al, "a zero-initialised section does not have the declared alignment");
                }
            } else {
                check(s.ty == SHT_PROGBITS, "a definition's section does not hold program bits");
                check(s.size == d.data.len() as u64, "a section's size is not that of its definition");
                check(same(e.content(i), &d.data), "a section's bytes are not those of its definition");
            }
            if !(d.zero.is_some() && what & CONTENT == 0) {
                check_attrs(&e, i, d);
            }
        }
    }
    if what & (SYMS | CUSTOM) != 0 {
        // --- custom symbols
        for (di, d) in m.defs.iter().enumerate() {
            for (n, o) in &d.syms {
                let mut count = 0u32;
                let mut hit = 0;
                for &i in look.find(b"", n.as_bytes()) {
                    let t = e.syms[i].info & 15;
                    if t == 3 || t == 4 || claimed[i] {
                        continue;
                    }
                    if coincide && e.syms[i].sec != home[di] as u64 {
                        continue;
                    }
                    if e.sym_is(i, n.as_bytes()) {
                        count += 1;
                        hit = i;
                    }
                }
                check(count == 1, "a custom section symbol does not appear exactly once");
                if count == 1 {
                    claimed[hit] = true;
                    check(e.syms[hit].sec == home[di] as u64, "a custom symbol does not point into its section");
                    check(e.syms[hit].value == *o, "a custom symbol does not point at the requested offset");
                }
            }
        }
    }
    let mut imp_sym = vec![0usize; m.imps.len()];
    if what & (SYMS | RELOCS) != 0 {
        for (k, imp) in m.imps.iter().enumerate() {
            let mut count = 0u32;
            for &i in look.find(b"", imp.name.as_bytes()) {
                let t = e.syms[i].info & 15;
                if t == 3 || t == 4 || claimed[i] {
                    continue;
                }
                if e.sym_is(i, imp.name.as_bytes()) {
                    if coincide && e.syms[i].shndx != 0 {
                        continue;
                    }
                    count += 1;
                    imp_sym[k] = i;
                }
            }
            check(count == 1, "an import does not have exactly one symbol");
            let s = &e.syms[imp_sym[k]];
            claimed[imp_sym[k]] = true;
            check(s.shndx == 0, "an import's symbol is not undefined");
            check(s.info >> 4 == 1, "an import's symbol is not global");
            check((s.value == 0) & (s.size == 0), "an import's symbol has a value or a size");
        }
    }
    if what & SYMS != 0 {
        // nothing else is named, except the file symbol
        for i in 1..e.syms.len() {
            let t = e.syms[i].info & 15;
            if !claimed[i] {
                if what & CUSTOM == 0 && t == 0 && e.syms[i].shndx != 0 {
                    continue;
                }
                check(t == 3 || t == 4, "there is a symbol that nothing asked for");
                check(e.syms[i].info >> 4 == 0, "a section or file symbol is not local");
            }
        }
        let first = e.secs[e.symtab].info as usize;
        for i in 0..e.syms.len() {
            let b = e.syms[i].info >> 4;
            if i < first {
                check(b == 0, "a non-local symbol precedes the first non-local index");
            } else {
                check(b != 0, "a local symbol follows the first non-local index");
            }
        }
    }
    if what & RELOCS != 0 {
        let mut total = 0usize;
        // (section, relocations)
        let mut got: Vec<Option<Vec<Rel>>> = Vec::with_capacity(nsec);
        for _ in 0..nsec {
            got.push(None);
        }
        for i in 1..nsec {
            if e.secs[i].ty == SHT_RELA {
                let t = e.secs[i].info as usize;
                check(t > 0 && t < nsec, "a relocation section's target section is out of range");
                check(e.secs[i].link as usize == e.symtab, "a relocation section is not linked to the symbol table");
                check(got[t].is_none(), "a section has two relocation sections");
                let r = e.rels(i);
                total += r.len();
                got[t] = Some(r);
            }
            check(e.secs[i].ty != 9, "unexpected relocation section without addends");
        }
        check(total == m.links.len(), "the number of relocation entries is not the number of links");
        let mut pos = vec![0usize; nsec];
        for l in &m.links {
            let sec = home[l.from];
            let rs = match &got[sec] {
                Some(r) => r,
                None => fail("a link's source section has no relocations"),
            };
            let k = pos[sec];
            pos[sec] += 1;
            check(k < rs.len(), "a link has no relocation entry");
            let r = rs[k];
            check(r.off == l.at, "a relocation's offset is not the link's");
            let (ty, ad) = expected(m, l);
            check(r.ty == ty, "a relocation's type does not follow the link");
            check(r.addend == ad, "a relocation's addend does not follow the link");
            check(r.sym < e.syms.len() as u64, "a relocation's symbol index is out of range");
            let si = conc(r.sym) as usize;
            match l.to {
                To::Imp(x) => check(si == imp_sym[x], "a relocation does not refer to the imported symbol"),
                To::Def(x) => {
                    let s = &e.syms[si];
                    check(s.sec == home[x] as u64 && s.shndx != 0, "a relocation's symbol is not in the target's section");
                    check(s.value == 0, "a relocation's symbol does not point at the target");
                    let t = s.info & 15;
                    if t != 3 && !m.defs[x].is_section() {
                        check(e.sym_is(si, m.defs[x].name.as_bytes()), "a relocation's symbol is not the target");
                    }
                }
            }
        }
    }
}

pub fn expected(m: &Model, l: &Lnk) -> (u64, i64) {
    const R64: u64 = 1;
    const PC32: u64 = 2;
    const PLT32: u64 = 4;
    const GOTPCREL: u64 = 9;
    const R32: u64 = 10;
    match l.reloc {
        R::Auto => match m.defs[l.from].kind {
            Kind::Func => match l.to {
                To::Imp(i) => {
                    if m.imps[i].func {
                        (PLT32, -4)
                    } else {
                        (GOTPCREL, -4)
                    }
                }
                To::Def(i) => {
                    if m.defs[i].kind == Kind::Func {
                        (PLT32, -4)
                    } else {
                        (PC32, -4)
                    }
                }
            },
            _ => (if m.tgt.c64 { R64 } else { R32 }, 0),
        },
        R::Raw(t, a) => (t as u64, a as i64),
        R::Debug(s, a) => (if s == 8 { R64 } else { R32 }, a as i64),
    }
}

/// the entries that stand for no definition or import: the file symbol, the section symbols, the
/// tables and the relocation sections
/// the file symbol alone
pub fn check_file(b: &[u8], m: &Model) {
    let e = parse(b, m.tgt.c64, m.tgt.be);
    let mut files = 0;
    for i in 1..e.syms.len() {
        if e.syms[i].info & 15 == 4 {
            files += 1;
            check(e.sym_is(i, m.name.as_bytes()), "the file symbol does not carry the artifact's name");
        }
    }
    check(files == 1, "there is not exactly one file symbol");
}

/// symbol and relocation tables lie where a reader that maps the file expects them
pub fn check_layout(e: &Elf) {
    let word = if e.c64 { 8 } else { 4 };
    check(e.shoff % word == 0, "the section headers are not aligned in the file");
    for i in 1..e.secs.len() {
        let s = &e.secs[i];
        if i == e.symtab || s.ty == SHT_RELA {
            check(s.off % word == 0, "a table is not aligned in the file");
        }
        if Some(i) == e.shndx {
            check(s.off % 4 == 0, "a table is not aligned in the file");
        }
    }
}

pub fn check_aux(b: &[u8], m: &Model) {
    observe(b);
    let e = parse(b, m.tgt.c64, m.tgt.be);
    let n = e.secs.len();
    let mut files = 0;
    let mut secsym = vec![0u32; n];
    let first = e.secs[e.symtab].info as usize;
    for i in 1..e.syms.len() {
        let s = &e.syms[i];
        match s.info & 15 {
            4 => {
                files += 1;
                check(e.sym_is(i, m.name.as_bytes()), "the file symbol does not carry the artifact's name");
                check((s.info >> 4 == 0) & (i < first), "the file symbol is not local");
                check(s.shndx == 0xfff1, "the file symbol is not absolute");
                check((s.value == 0) & (s.size == 0), "the file symbol has a value or a size");
            }
            3 => {
                let x = s.sec as usize;
                check(x > 0 && x < n && s.shndx != 0xfff1 && s.shndx != 0xfff2, "a section symbol is not in a section");
                secsym[x] += 1;
                check((s.info >> 4 == 0) & (i < first), "a section symbol is not local");
                check(s.value == 0, "a section symbol does not point at the start of its section");
            }
            _ => {}
        }
    }
    check(files == 1, "there is not exactly one file symbol");
    let (mut bits, mut relas, mut notes) = (0, 0, 0);
    let mut rel_of = vec![0u32; n];
    let word = if e.c64 { 8 } else { 4 };
    check(e.shoff % word == 0, "the section headers are not aligned in the file");
    for i in 1..n {
        let s = &e.secs[i];
        if i == e.symtab {
            check(s.off % word == 0, "the symbol table is not aligned in the file");
            check(e.sec_is(i, b".symtab"), "the symbol table is not named .symtab");
            check(s.link as usize == e.strtab, "the symbol table is not linked to the string table");
        } else if i == e.strtab {
            check(e.sec_is(i, b".strtab"), "the string table is not named .strtab");
        } else if Some(i) == e.shndx {
            check(e.sec_is(i, b".symtab_shndx"), "the extended index table is not named .symtab_shndx");
        } else if s.ty == SHT_RELA {
            relas += 1;
            let t = s.info as usize;
            check(t > 0 && t < n, "a relocation section's target section is out of range");
            rel_of[t] += 1;
            check(rel_of[t] == 1, "a section has two relocation sections");
            check(s.size > 0, "there is a relocation section without relocations");
            check(s.flags == F_INFO, "a relocation section's flags are not exactly that its info is a section index");
            check(s.link as usize == e.symtab, "a relocation section is not linked to the symbol table");
            check(s.off % word == 0, "a relocation section is not aligned in the file");
            // .rela followed by the name of the section it applies to
            let a = &e.secs[e.shstr];
            let name = |o: u64| {
                let mut v = vec![];
                let mut p = o;
                while p < a.size && b[(a.off + p) as usize] != 0 {
                    v.push(b[(a.off + p) as usize]);
                    p += 1;
                }
                v
            };
            let (x, y) = (name(s.name), name(e.secs[t].name));
            check(x.len() == y.len() + 5 && same(&x[..5], b".rela") && same(&x[5..], &y), "a relocation section is not named .rela and its section's name");
        } else if e.sec_is(i, b".note.GNU-stack") {
            notes += 1;
            check(secsym[i] == 0, "the stack note has a section symbol");
        } else {
            bits += 1;
            check(secsym[i] == 1, "a definition's section does not have exactly one section symbol");
        }
    }
    check(notes == 1, "there is not exactly one stack note");
    check(bits == m.defs.len(), "there are sections nothing asked for");
    let mut src = vec![];
    for l in &m.links {
        if !src.contains(&l.from) {
            src.push(l.from);
        }
    }
    check(relas == src.len(), "there is not exactly one relocation section per section with links");
    let z = &e.secs[0];
    check((z.name == 0) & (z.ty == 0) & (z.flags == 0) & (z.off == 0) & (z.info == 0) & (z.align == 0) & (z.ent == 0), "the first section header is not the null section");
}
