//! An independent reader of Mach-O relocatable objects, and the judge of an object against a Model.
use crate::elfp::{Lookup, Rd};
use crate::model::*;
use crate::sym::*;

pub const STRUCT: u32 = 1; // C13
pub const CONTENT: u32 = 2; // C14
pub const SYMS: u32 = 4; // C15
pub const RELOCS: u32 = 8; // C16
pub const ZERO: u32 = 16; // C12
pub const CUSTOM: u32 = 32; // C17
pub const COINCIDE: u32 = 64;
pub const ALL: u32 = 63;

pub struct Sec {
    pub sect: [u8; 16],
    pub seg: [u8; 16],
    pub addr: u64,
    pub size: u64,
    pub off: u64,
    pub align: u64,
    pub reloff: u64,
    pub nreloc: u64,
    pub flags: u64,
}
impl Sec {
    pub fn zerofill(&self) -> bool {
        self.flags & 0xff == 1
    }
}
pub struct Sym {
    pub strx: u64,
    pub ty: u8,
    pub sect: u8,
    pub desc: u64,
    pub value: u64,
}
#[derive(Clone, Copy)]
pub struct Rel {
    pub addr: u64,
    pub sym: u64,
    pub pcrel: u64,
    pub len: u64,
    pub ext: u64,
    pub ty: u64,
}
pub struct Mach<'a> {
    pub r: Rd<'a>,
    pub secs: Vec<Sec>,
    pub syms: Vec<Sym>,
    pub stroff: u64,
    pub strsize: u64,
    pub symoff: u64,
    pub hdr_end: u64,
    pub c64: bool,
    pub vmaddr: u64,
    pub vmsize: u64,
    pub fileoff: u64,
    pub filesize: u64,
}

fn name16(want: &[u8]) -> [u8; 16] {
    let mut a = [0u8; 16];
    let n = want.len().min(16);
    a[..n].copy_from_slice(&want[..n]);
    a
}

pub fn parse<'a>(b: &'a [u8], t: &Tgt) -> Mach<'a> {
    let (c64, be) = (t.c64, t.be);
    let r = Rd { b, be };
    let hs = if c64 { 32 } else { 28 };
    check(b.len() as u64 >= hs, "the file is shorter than a Mach-O header");
    check(r.u(0, 4) == if c64 { 0xfeed_facf } else { 0xfeed_face }, "the Mach-O magic is not that of the target");
    check(r.u(4, 4) == t.cpu as u64, "the Mach-O cpu type is not the target's");
    check(r.u(12, 4) == 1, "the Mach-O file type is not object");
    let ncmds = conc(r.u(16, 4));
    let szcmds = conc(r.u(20, 4));
    check(szcmds <= b.len() as u64 - hs, "the load commands lie outside the file");
    let mut secs = vec![];
    let mut syms = vec![];
    let (mut stroff, mut strsize, mut symoff) = (0, 0, 0);
    let (mut nseg, mut nsym) = (0, 0);
    let (mut vmaddr, mut vmsize, mut fileoff, mut filesize) = (0, 0, 0, 0);
    let mut o = hs;
    for _ in 0..ncmds {
        check(o + 8 <= hs + szcmds, "a load command lies outside the load commands");
        let (cmd, sz) = (conc(r.u(o, 4)), conc(r.u(o + 4, 4)));
        check(sz >= 8 && o + sz <= hs + szcmds, "a load command's size is wrong");
        check(sz % if c64 { 8 } else { 4 } == 0, "a load command's size is not aligned");
        if cmd == if c64 { 0x19 } else { 1 } {
            nseg += 1;
            let ns;
            let (base, ss);
            if c64 {
                vmaddr = r.u(o + 24, 8);
                vmsize = r.u(o + 32, 8);
                fileoff = r.u(o + 40, 8);
                filesize = r.u(o + 48, 8);
                ns = conc(r.u(o + 64, 4));
                base = o + 72;
                ss = 80;
            } else {
                vmaddr = r.u(o + 24, 4);
                vmsize = r.u(o + 28, 4);
                fileoff = r.u(o + 32, 4);
                filesize = r.u(o + 36, 4);
                ns = conc(r.u(o + 48, 4));
                base = o + 56;
                ss = 68;
            }
            check(sz == (base - o) + ns * ss, "the segment command's size does not add up");
            for i in 0..ns {
                let p = base + i * ss;
                let mut sect = [0u8; 16];
                let mut seg = [0u8; 16];
                for k in 0..16 {
                    sect[k] = b[p as usize + k];
                    seg[k] = b[p as usize + 16 + k];
                }
                let w = if c64 { 8 } else { 4 };
                let q = p + 32 + 2 * w;
                secs.push(Sec {
                    sect,
                    seg,
                    addr: r.u(p + 32, w),
                    size: r.u(p + 32 + w, w),
                    off: r.u(q, 4),
                    align: conc(r.u(q + 4, 4)),
                    reloff: conc(r.u(q + 8, 4)),
                    nreloc: conc(r.u(q + 12, 4)),
                    flags: conc(r.u(q + 16, 4)),
                });
            }
        } else if cmd == 2 {
            nsym += 1;
            check(sz == 24, "the symbol table command's size is wrong");
            symoff = conc(r.u(o + 8, 4));
            let n = conc(r.u(o + 12, 4));
            stroff = conc(r.u(o + 16, 4));
            strsize = conc(r.u(o + 20, 4));
            let ss = if c64 { 16 } else { 12 };
            check(symoff + n * ss <= b.len() as u64, "the symbol table lies outside the file");
            check(stroff + strsize <= b.len() as u64, "the string table lies outside the file");
            for i in 0..n {
                let p = symoff + i * ss;
                syms.push(Sym {
                    strx: conc(r.u(p, 4)),
                    ty: r.u(p + 4, 1) as u8,
                    sect: conc(r.u(p + 5, 1)) as u8,
                    desc: r.u(p + 6, 2),
                    value: r.u(p + 8, if c64 { 8 } else { 4 }),
                });
            }
        }
        o += sz;
    }
    check(o == hs + szcmds, "the load commands' sizes do not add up");
    check((nseg == 1) & (nsym == 1), "there is not exactly one segment and one symbol table command");
    Mach { r, secs, syms, stroff, strsize, symoff, hdr_end: hs + szcmds, c64, vmaddr, vmsize, fileoff, filesize }
}

impl<'a> Mach<'a> {
    pub fn sym_is(&self, i: usize, want: &[u8]) -> bool {
        let s = &self.syms[i];
        let n = want.len() as u64 + 1;
        if s.strx >= self.strsize || n >= self.strsize - s.strx {
            return false;
        }
        let p = (self.stroff + s.strx) as usize;
        let mut d = self.r.b[p] ^ b'_';
        for k in 0..want.len() {
            d |= self.r.b[p + 1 + k] ^ want[k];
        }
        d |= self.r.b[p + n as usize];
        d == 0
    }
    pub fn rels(&self, i: usize) -> Vec<Rel> {
        let s = &self.secs[i];
        let mut v = vec![];
        for k in 0..s.nreloc {
            let o = s.reloff + 8 * k;
            let a = self.r.u(o, 4);
            let w = self.r.u(o + 4, 4);
            let f = if self.r.be {
                Rel { addr: a, sym: w >> 8, pcrel: (w >> 7) & 1, len: (w >> 5) & 3, ext: (w >> 4) & 1, ty: w & 15 }
            } else {
                Rel { addr: a, sym: w & 0xff_ffff, pcrel: (w >> 24) & 1, len: (w >> 25) & 3, ext: (w >> 27) & 1, ty: w >> 28 }
            };
            v.push(f);
        }
        v
    }
    /// file bytes of `n` bytes at section-relative offset `o` of section `i`
    pub fn at(&self, i: usize, o: u64, n: u64) -> &[u8] {
        let s = &self.secs[i];
        let size = conc(s.size);
        check(o <= size && n <= size - o, "a definition does not fit its section");
        let off = conc(s.off);
        let p = off + o;
        check(p + n <= self.r.b.len() as u64, "a section's contents lie outside the file");
        &self.r.b[p as usize..(p + n) as usize]
    }
    pub fn sect_is(&self, i: usize, want: &[u8], seg: &[u8]) -> bool {
        want.len() <= 16 && same(&self.secs[i].sect, &name16(want)) & same(&self.secs[i].seg, &name16(seg))
    }
}

fn structure(e: &Mach) {
    let flen = e.r.b.len() as u64;
    let mut iv: Vec<(u64, u64)> = vec![(0, e.hdr_end)];
    let mut prev_end = e.vmaddr;
    let (mut lo, mut hi) = (u64::MAX, 0u64);
    for (i, s) in e.secs.iter().enumerate() {
        check(s.align < 64, "a section's alignment exponent is out of range");
        check(s.addr >= prev_end, "section addresses are not increasing and disjoint");
        check((s.addr - prev_end) >> s.align == 0, "addresses of the segment belong to no section");
        check(s.size <= u64::MAX - s.addr, "a section's address range wraps");
        prev_end = s.addr + s.size;
        check(
            (s.addr - e.vmaddr <= e.vmsize) & (s.size <= e.vmsize.wrapping_sub(s.addr - e.vmaddr)),
            "a section lies outside its segment",
        );
        if !s.zerofill() {
            let (off, size) = (conc(s.off), conc(s.size));
            if size > 0 {
                check(off <= flen && size <= flen - off, "a section's contents lie outside the file");
                iv.push((off, off + size));
                lo = lo.min(off);
                hi = hi.max(off + size);
            }
        }
        if s.nreloc > 0 {
            check(s.reloff <= flen && s.nreloc * 8 <= flen - s.reloff, "a relocation table lies outside the file");
            iv.push((s.reloff, s.reloff + 8 * s.nreloc));
            for r in e.rels(i) {
                if r.ext == 1 {
                    check(r.sym < e.syms.len() as u64, "a relocation's symbol index is out of range");
                } else {
                    check((r.sym >= 1) & (r.sym <= e.secs.len() as u64), "a relocation's section ordinal is out of range");
                }
            }
        }
    }
    check(prev_end == e.vmaddr + e.vmsize, "the segment's size does not cover exactly its sections");
    if hi > 0 {
        check((e.fileoff <= lo) & (e.fileoff + e.filesize == hi), "the segment's file range does not cover exactly its sections");
    } else {
        check(e.filesize == 0, "the segment's file range does not cover exactly its sections");
    }
    let ss = if e.c64 { 16 } else { 12 };
    if !e.syms.is_empty() {
        iv.push((e.symoff, e.symoff + ss * e.syms.len() as u64));
    }
    iv.push((e.stroff, e.stroff + e.strsize));
    iv.sort();
    for k in 1..iv.len() {
        check(iv[k - 1].1 <= iv[k].0, "two parts of the file overlap");
        check(iv[k].0 - iv[k - 1].1 < 64, "bytes of the file belong to no part of it");
    }
    check(flen - iv[iv.len() - 1].1 < 64, "bytes of the file belong to no part of it");
    check(e.strsize >= 1, "the string table is empty");
    check(e.r.b[(e.stroff + e.strsize - 1) as usize] == 0, "the string table does not end with a terminated string");
    for s in &e.syms {
        check(s.strx < e.strsize, "a symbol name is out of range");
        check(s.sect as usize <= e.secs.len(), "a symbol's section ordinal is out of range");
        if s.ty & 0x0e == 0x0e {
            check(s.sect >= 1, "a defined symbol has no section");
        }
    }
}

const TEXT: (&[u8], &[u8]) = (b"__text", b"__TEXT");
const DATA: (&[u8], &[u8]) = (b"__data", b"__DATA");
const CSTR: (&[u8], &[u8]) = (b"__cstring", b"__TEXT");
const BSS: (&[u8], &[u8]) = (b"__bss", b"__DATA");

fn place(d: &Def) -> (&'static [u8], &'static [u8]) {
    if d.zero.is_some() {
        BSS
    } else if d.kind == Kind::Func {
        TEXT
    } else if d.kind == Kind::Str {
        CSTR
    } else {
        DATA
    }
}

pub fn mach_name(n: &str) -> Vec<u8> {
    let b = n.as_bytes();
    let pre = b".debug";
    if b.len() >= 6 && same(&b[..6], pre) {
        let mut v = b"__debug".to_vec();
        v.extend_from_slice(&b[6..]);
        v
    } else {
        b.to_vec()
    }
}

/// like ELF's: the symbol index of each definition / import, judged on the way
pub fn check_mach(b: &[u8], m: &Model, what: u32) {
    observe(b);
    let e = parse(b, &m.tgt);
    if what & STRUCT != 0 {
        structure(&e);
        // (links to or between custom sections, and constant addends, are not encoded in this format)
        let n: u64 = e.secs.iter().map(|s| s.nreloc).sum();
        let to_sec = m.links.iter().filter(|l| matches!(l.to, To::Def(i) if m.defs[i].is_section())).count() as u64;
        check((n <= m.links.len() as u64) & (n >= m.links.len() as u64 - to_sec), "the relocation tables do not have as many entries as there are links");
    }
    if what & !(STRUCT | COINCIDE) == 0 {
        return;
    }
    let coincide = what & COINCIDE != 0;
    let nd = m.defs.len();
    let mut claimed = vec![false; e.syms.len()];
    let mut symidx = vec![usize::MAX; nd];
    let mut home = vec![usize::MAX; nd];
    let mut base = vec![0u64; nd];
    if what & (CONTENT | ZERO) != 0 {
        for s in &e.secs {
            check(s.align < 64, "a section's alignment exponent is out of range");
            check(s.addr & ((1u64 << s.align) - 1) == 0, "a section's address is not a multiple of its alignment");
        }
    }
    // custom sections first: they are found by name, segment and bytes
    let mut used = vec![false; e.secs.len()];
    for (di, d) in m.defs.iter().enumerate() {
        let sk = match d.sk() {
            Some(k) => k,
            None => continue,
        };
        let seg: &[u8] = match sk {
            SK::Data => b"__DATA",
            SK::Debug => b"__DWARF",
            SK::Text => b"__TEXT",
        };
        let want = mach_name(&d.name);
        let mut count = 0u32;
        let mut hit = 0;
        let mut named = 0u32;
        for i in 0..e.secs.len() {
            if used[i] {
                continue;
            }
            if same(&e.secs[i].sect, &name16(&want)) {
                named += 1;
                if coincide {
                    // a built-in section may have the same name
                    if e.sect_is(i, &want, seg) && !e.secs[i].zerofill() && conc(e.secs[i].size) == d.data.len() as u64
                        && same(e.at(i, 0, d.data.len() as u64), &d.data)
                        && conc(e.secs[i].flags) & 0x8200_0400 == if sk == SK::Debug { 0x0200_0000 } else { 0 }
                    {
                        // the last match: built-in sections come first
                        hit = i;
                        count = 1;
                    }
                } else {
                    count += 1;
                    hit = i;
                }
            }
        }
        check(named > 0, "a custom section does not appear under its name");
        check(count == 1, "a custom section does not appear exactly once with its bytes");
        used[hit] = true;
        home[di] = hit;
        if what & (CONTENT | CUSTOM) != 0 {
            let s = &e.secs[hit];
            check(e.sect_is(hit, &want, seg), "a custom section is not in the segment of its kind");
            check(!s.zerofill(), "a custom section has no file contents");
            check(conc(s.size) == d.data.len() as u64, "a custom section's size is not that of its bytes");
            check(same(e.at(hit, 0, d.data.len() as u64), &d.data), "a custom section's bytes are not those of its definition");
            check(
                (s.flags & 0x0200_0000 != 0) == (sk == SK::Debug),
                "a custom section's debug attribute does not follow its kind",
            );
            check(s.align < 64 && (1u64 << s.align) >= d.align.unwrap_or(1), "a custom section's alignment is below the declared one");
        }
    }
    let look = Lookup::new(m.indexed, 0, e.syms.len(), &e.r.b[e.stroff as usize..(e.stroff + e.strsize) as usize], |i| e.syms[i].strx);
    // symbols of definitions
    for (di, d) in m.defs.iter().enumerate() {
        if d.is_section() {
            continue;
        }
        let (pn, ps) = place(d);
        let mut count = 0u32;
        let mut hit = 0;
        for &i in look.find(b"_", d.name.as_bytes()) {
            if claimed[i] || e.syms[i].ty & 0xe0 != 0 {
                continue;
            }
            if e.sym_is(i, d.name.as_bytes()) {
                if coincide {
                    let k = e.syms[i].sect as usize;
                    if k == 0 || k > e.secs.len() || used[k - 1] {
                        continue;
                    }
                }
                count += 1;
                hit = i;
            }
        }
        check(count == 1, "a definition does not have exactly one symbol");
        claimed[hit] = true;
        symidx[di] = hit;
        let s = &e.syms[hit];
        check(s.ty & 0x0e == 0x0e, "a definition's symbol is not defined in a section");
        check(s.sect >= 1 && s.sect as usize <= e.secs.len(), "a definition's symbol has no section");
        let sec = s.sect as usize - 1;
        home[di] = sec;
        check(e.sect_is(sec, pn, ps), "a definition is not in the section of its kind");
        check(!used[sec], "a definition is in a custom section");
        let x = &e.secs[sec];
        check(
            (s.value >= x.addr) & (s.value - x.addr <= x.size) & (d.size() <= x.size - (s.value - x.addr)),
            "a definition does not fit its section",
        );
        base[di] = s.value - x.addr;
        if what & SYMS != 0 {
            check(
                (s.ty & 1 != 0) == (d.scope != LOCAL),
                "a symbol is not external exactly when it is visible to other components",
            );
            check(s.ty & 0x10 == 0, "a symbol is marked private external");
            check((s.desc & 0x80 != 0) == (d.scope == WEAK), "a symbol is not marked weak exactly when declared weak");
        }
        if what & (CONTENT | ZERO) != 0 {
            let a = d.align.unwrap_or(1);
            check(x.align < 64, "a section's alignment exponent is out of range");
            check(base[di] & (a - 1) == 0, "a definition's address in its section does not satisfy its alignment");
            check((1u64 << x.align) >= a, "a section's alignment is below that of a definition in it");
        }
        if what & CONTENT != 0 && d.zero.is_none() {
            check(!x.zerofill(), "a definition with bytes is in a zero-fill section");
            let o = conc(base[di]);
            check(same(e.at(sec, o, d.data.len() as u64), &d.data), "the bytes at a symbol are not those of its definition");
        }
        if what & (ZERO | CONTENT) != 0 && d.zero.is_some() {
            check(x.zerofill(), "zero-initialised data is not in a zero-fill section");
        }
    }
    // disjointness of definitions in a section
    if what & (CONTENT | ZERO) != 0 {
        for i in 0..nd {
            if m.defs[i].is_section() {
                continue;
            }
            for j in 0..i {
                if m.defs[j].is_section() || home[i] != home[j] {
                    continue;
                }
                let (a, b) = (base[i], base[j]);
                let (sa, sb) = (m.defs[i].size(), m.defs[j].size());
                check((a + sa <= b) | (b + sb <= a), "two definitions overlap");
            }
        }
    }
    // the text section is code
    if what & CONTENT != 0 {
        for (di, d) in m.defs.iter().enumerate() {
            if d.kind == Kind::Func {
                check(e.secs[home[di]].flags & 0x8000_0400 == 0x8000_0400, "functions are not in a section of instructions");
            }
            if d.kind == Kind::Str && d.zero.is_none() {
                check(e.secs[home[di]].flags & 0xff == 2, "C strings are not in a section of C strings");
            }
        }
    }
    // custom symbols
    if what & (SYMS | CUSTOM) != 0 {
        for (di, d) in m.defs.iter().enumerate() {
            for (n, o) in &d.syms {
                let mut count = 0u32;
                let mut hit = 0;
                for &i in look.find(b"_", n.as_bytes()) {
                    if claimed[i] {
                        continue;
                    }
                    if coincide && e.syms[i].sect as usize != home[di] + 1 {
                        continue;
                    }
                    if e.sym_is(i, n.as_bytes()) {
                        count += 1;
                        hit = i;
                    }
                }
                check(count == 1, "a custom section symbol does not appear exactly once");
                claimed[hit] = true;
                let s = &e.syms[hit];
                check(s.sect as usize == home[di] + 1, "a custom symbol does not point into its section");
                check(s.ty & 0x0e == 0x0e, "a custom symbol is not defined in a section");
                check(s.ty & 1 == 1, "a custom symbol is not external");
                check((s.desc & 0xc0 == 0) & (s.ty & 0x10 == 0), "a custom symbol is marked weak or private");
                check(s.value == e.secs[home[di]].addr.wrapping_add(*o), "a custom symbol does not point at the requested offset");
            }
        }
    }
    let mut imp = vec![usize::MAX; m.imps.len()];
    if what & (SYMS | RELOCS) != 0 {
        for (k, im) in m.imps.iter().enumerate() {
            let mut count = 0u32;
            for &i in look.find(b"_", im.name.as_bytes()) {
                if claimed[i] || (coincide && e.syms[i].ty & 0x0e != 0) {
                    continue;
                }
                if e.sym_is(i, im.name.as_bytes()) {
                    count += 1;
                    imp[k] = i;
                }
            }
            check(count == 1, "an import does not have exactly one symbol");
            claimed[imp[k]] = true;
            let s = &e.syms[imp[k]];
            check((s.ty == 1) & (s.sect == 0), "an import's symbol is not undefined and external");
            check(s.value == 0, "an import's symbol has a value");
            check(s.desc & 0xc0 == 0, "an import's symbol is marked weak");
        }
    }
    if what & SYMS != 0 {
        let full = what & CUSTOM != 0 || m.defs.iter().all(|d| d.syms.is_empty());
        for i in 0..e.syms.len() {
            if full || claimed[i] {
                check(claimed[i], "there is a symbol that nothing asked for");
            }
        }
    }
    if what & RELOCS != 0 {
        let mut got: Vec<Vec<Rel>> = vec![];
        let mut total = 0;
        for i in 0..e.secs.len() {
            let r = e.rels(i);
            total += r.len();
            got.push(r);
        }
        let mut pos = vec![0usize; e.secs.len()];
        let mut want = 0;
        for l in &m.links {
            if let To::Def(x) = l.to {
                if m.defs[x].is_section() {
                    // debug links to sections are outside the statement
                    continue;
                }
            }
            want += 1;
            let sec = home[l.from];
            let k = pos[sec];
            pos[sec] += 1;
            check(k < got[sec].len(), "a link has no relocation entry in the section of its source");
            let r = got[sec][k];
            let at = if m.defs[l.from].is_section() { l.at } else { base[l.from] + l.at };
            check(r.addr == at & 0xffff_ffff, "a relocation's address is not the link's position");
            check(r.ext == 1, "a relocation is not external");
            let si = match l.to {
                To::Def(x) => symidx[x],
                To::Imp(x) => imp[x],
            };
            check(r.sym == si as u64, "a relocation does not refer to the link's target");
            let (ty, pc, len) = expected(m, l);
            check(r.ty == ty, "a relocation's type does not follow the link");
            check((r.pcrel == pc) & (r.len == len), "a relocation's pc-relativity or length does not follow the link");
        }
        check(total == want, "the number of relocation entries is not the number of links");
    }
}

fn expected(m: &Model, l: &Lnk) -> (u64, u64, u64) {
    match l.reloc {
        R::Auto => match m.defs[l.from].kind {
            Kind::Func => {
                let (f, imp) = match l.to {
                    To::Imp(i) => (m.imps[i].func, true),
                    To::Def(i) => (m.defs[i].kind == Kind::Func, false),
                };
                (if f { 2 } else if imp { 3 } else { 1 }, 1, 2)
            }
            _ => (0, 0, 3),
        },
        R::Raw(t, _) => {
            if t == 0 {
                (0, 0, 3)
            } else {
                (t as u64, 1, 2)
            }
        }
        R::Debug(s, _) => (0, 0, if s == 8 { 3 } else { 2 }),
    }
}
