//! Purity and writing (C06), extended numbering (C18), names (C19), order independence (C21).
use crate::elfp::{self, check_elf};
use crate::machp::{self, check_mach};
use crate::model::*;
use crate::scen::*;
use crate::sym::*;
use faerie::*;

// ---------------------------------------------------------------- C06

fn sample(tier: u32) -> Model {
    match choose(6) {
        3 => rich(X64, true),
        4 => twins(X64, true),
        5 => opaque(X64, true),
        0 => {
            let mut m = super::objs::link_model(X64, choose(3) as u8);
            let at = bits(30);
            m.link(To::Def(0), To::Def(1), at, R::Auto);
            m.link(To::Def(0), To::Imp(1), at, R::Auto);
            m.link(To::Def(1), To::Def(5), at, R::Auto);
            m
        }
        1 => {
            let n = if tier == 0 { 12 } else { 40 };
            many(&[X64], n, 6, n)
        }
        _ => {
            let n = if tier == 0 { 2 } else { 3 };
            several(tier, &[X64], &[0, 1, 3, 4, 6], n, &[3, 1], false, 0)
        }
    }
}

/// the file behind the modelled descriptor, and its faults
struct Sink {
    on: bool,
    /// a file can be sought in and has contents; a pipe only takes bytes
    seekable: bool,
    data: Vec<u8>,
    pos: usize,
    /// faults so far, and how many there may be
    faults: usize,
    limit: usize,
    failed: bool,
    /// bytes taken
    taken: usize,
    /// how often calls are still interrupted
    storm: usize,
    /// the most that a call takes from now on, or 0
    drip: usize,
}
const NO_SINK: Sink = Sink { on: false, seekable: false, data: Vec::new(), pos: 0, faults: 0, limit: 0, failed: false, taken: 0, storm: 0, drip: 0 };
static mut SINK: Sink = NO_SINK;
/// the file descriptor that stands for the faulty sink
pub const FD: i32 = 77;

fn sink() -> &'static mut Sink {
    unsafe { &mut *std::ptr::addr_of_mut!(SINK) }
}
fn put(at: usize, b: &[u8]) {
    let f = sink();
    if f.data.len() < at + b.len() {
        f.data.resize(at + b.len(), 0);
    }
    f.data[at..at + b.len()].copy_from_slice(b);
    f.taken += b.len();
}

/// The sink: each call may take everything, take part, be interrupted, or fail.
/// Called instead of the system's write for descriptor 77; returns -errno on failure.
fn sink_write(at: usize, buf: &[u8]) -> isize {
    let f = sink();
    let n = buf.len();
    if f.storm > 0 {
        f.storm -= 1;
        return -4;
    }
    if f.drip > 0 {
        let take = n.min(f.drip);
        put(at, &buf[..take]);
        return take as isize;
    }
    // after a bounded number of faults the sink behaves
    let what = if f.faults < f.limit { choose(if f.faults == 0 { 7 } else { 6 }) } else { 0 };
    if what != 0 {
        f.faults += 1;
    }
    let take = match what {
        0 => n,
        1 if f.faults == 1 && n > 1 => {
            // any part of it: the first or the last lengths (250 of them, 40 for a file), decided by the solver's values
            let w = (n - 1).min(if f.seekable { 40 } else { 250 }) as u64;
            let t = 1 + below(w);
            conc(if flag() { t } else { n as u64 - t }) as usize
        }
        1 => 1.min(n),
        2 => n / 2,
        3 => n.saturating_sub(1),
        4 => {
            // EINTR, once or often
            f.storm = if f.faults == 1 { pick(&[0usize, 1, 2, 3, 5, 8, 17, 40, 300]) } else { 0 };
            return -4;
        }
        6 => {
            f.drip = if n > 20_000 { pick(&[4096usize, 65_535]) } else { pick(&[1usize, 7, 512, 4096]) };
            n.min(f.drip)
        }
        _ => {
            f.failed = true;
            return if flag() { -28 } else { -5 }; // ENOSPC, EIO
        }
    };
    put(at, &buf[..take]);
    if take == 0 && n > 0 {
        // a sink that takes nothing: the writer may give up
        f.failed = true;
    }
    take as isize
}

/// the same artifact dozens of times
fn c06_often() {
    let mut m = super::objs::link_model(X64, choose(3) as u8);
    let at = bits(30);
    m.link(To::Def(0), To::Def(1), at, R::Auto);
    m.link(To::Def(1), To::Imp(1), at, R::Auto);
    m.name = if flag() { "a_library.so".to_string() } else { String::new() };
    let a = m.build(BinaryFormat::Elf);
    let fmts = [BinaryFormat::Elf, BinaryFormat::Macho];
    let first = [emit(&a, fmts[0]), emit(&a, fmts[1])];
    observe(&first[0]);
    observe(&first[1]);
    let how = choose(3);
    let mut c = a.clone();
    for i in 0..150usize {
        let f = match how {
            0 => i % 2,
            1 => (i % 7 == 3) as usize,
            _ => (i / 20) % 2,
        };
        if i % 10 == 9 {
            check(c.emit_as(BinaryFormat::Wasm).is_err(), "an unsupported format was emitted");
            c = c.clone();
        }
        let x = emit(if i % 3 == 1 { &c } else { &a }, fmts[f]);
        check(x.len() == first[f].len() && same(&x, &first[f]), "repeated emission does not give identical bytes");
    }
    // what happens to a clone does not concern the original
    must(c.declare("added_to_the_clone", Decl::function().global()), "declare");
    must(c.define("added_to_the_clone", vec![1, 2, 3]), "define");
    must(c.import("imported_by_the_clone", ImportKind::Function), "import");
    must(c.link_with(Link { from: &m.defs[0].name, to: "added_to_the_clone", at: 1 }, reloc_of(R::Raw(1, 0))), "link");
    c.name = "other.o".to_string();
    for f in 0..2 {
        let y = emit(&c, fmts[f]);
        check(y.len() > first[f].len(), "what was added to a clone is not emitted");
        let x = emit(&a, fmts[f]);
        check(x.len() == first[f].len() && same(&x, &first[f]), "a change of a clone changes the original");
    }
    check(a.imports().count() == m.imps.len() && a.undefined_symbols().is_empty(), "a change of a clone changes the original");
}

pub fn c06(tier: u32) {
    match choose(3) {
        0 => c06_often(),
        1 => c06_pure(tier),
        _ => c06_write(tier),
    }
}

fn c06_pure(tier: u32) {
    {
        let m = sample(tier);
        let mut a = m.build(BinaryFormat::Elf);
        a.target.binary_format = BinaryFormat::Elf;
        let a = a;
        let (e, o) = (BinaryFormat::Elf, BinaryFormat::Macho);
        let c = a.clone();
        // an attempt before completion must leave no trace either
        let mut early = m.empty_artifact(BinaryFormat::Elf);
        let first = flag();
        m.declare_all(&mut early);
        check(early.emit_as(if first { e } else { o }).is_err(), "an incomplete artifact was emitted");
        m.link_all(&mut early);
        for d in &m.defs {
            must(d.define(&mut early), "a well-formed definition was rejected after a failed emission");
        }
        let e1 = emit(&a, e);
        let e6 = emit(&early, e);
        // another artifact that shares some names is emitted in between
        let mut z = Model::new(X64);
        z.name = m.name.clone();
        z.def(Def::new("fun", Kind::Data).writable(true).data(vec![1, 2, 3]));
        z.def(Def::new("d0", Kind::Str).data(vec![0x61, 0]));
        z.import("zeta", true);
        let z = z.build(BinaryFormat::Elf);
        emit(&z, if first { o } else { e });
        let (m1, e2);
        if flag() {
            m1 = emit(&a, o);
            e2 = emit(&a, e);
        } else {
            e2 = emit(&a, e);
            m1 = emit(&a, o);
        }
        let m2 = emit(&a, o);
        let c2 = a.clone();
        let (e3, m3) = (emit(&c, e), emit(&c, o));
        let (m4, e4) = (emit(&c2, o), emit(&c2, e));
        let e5 = match a.emit() {
            Ok(b) => b,
            Err(_) => fail("emission of a complete artifact returned an error"),
        };
        observe(&e1);
        observe(&m1);
        for x in [&e2, &e3, &e4, &e5, &e6] {
            check(x.len() == e1.len() && same(x, &e1), "repeated emission does not give identical bytes");
        }
        for x in [&m2, &m3, &m4] {
            check(x.len() == m1.len() && same(x, &m1), "repeated emission does not give identical bytes");
        }
        check(a.undefined_symbols().is_empty(), "emission changed the artifact");
        check(a.imports().count() == m.imps.len(), "emission changed the artifact");
        // the artifact is changed in ways that leave some of its parts alone, and emitted again:
        // as if it had never been emitted before
        let how = choose(4);
        let mut a = a;
        let mut f = m.build(e);
        for x in [&mut a, &mut f] {
            match how {
                0 => x.name = "renamed".to_string(),
                1 => x.target = triple_of(A64.arch, o, Environment::Unknown),
                2 => must(x.import("zz_an_import_declared_late_after_it_all", ImportKind::Data), "import"),
                _ => {
                    must(x.declare("zz_some_data_declared_late_after_it_all", Decl::data().global()), "declare");
                    must(x.define("zz_some_data_declared_late_after_it_all", vec![1, 2, 3]), "define");
                    if first {
                        must(x.link_with(Link { from: &m.defs[0].name, to: "zz_some_data_declared_late_after_it_all", at: 0 }, reloc_of(R::Raw(1, 0))), "link");
                    }
                }
            }
        }
        for k in if first { [e, o] } else { [o, e] } {
            let (x, y) = (emit(&a, k), emit(&f, k));
            check(x.len() == y.len() && same(&x, &y), "an earlier emission shows in a later one");
        }
    }
}

fn c06_write(tier: u32) {
    let mut m = Model::new(X64);
    m.def(Def::new("f", Kind::Func).data(bytes(5)).scope(GLOBAL));
    // a pipe, an empty file, a file with other contents (written to in the middle), the end of a file
    let kind = choose(4);
    m.def(Def::new("d", Kind::Data).data(match if kind == 0 { pick(&[3usize, 4300, 9000, 70_001]) } else { pick(&[3, 9001, 9000]) } {
        3 => bytes(3),
        9001 => vec![0; 9001],
        n => (0..n).map(|i| (i * 7 + i / 253) as u8).collect(),
    }));
    let undefined = flag();
    let own_macho = flag();
    let own = if own_macho { BinaryFormat::Macho } else { BinaryFormat::Elf };
    let make = |m: &Model| {
        let mut a = m.build(own);
        a.target.binary_format = own;
        a
    };
    let mut a = make(&m);
    // also objects whose length is a multiple of a block, or next to one
    let block = if kind == 0 && !undefined && m.defs[1].data.len() == 3 { pick(&[0usize, 4096, 8192, 65_536]) } else { 0 };
    if block > 0 {
        let to = block - 8 + 8 * choose(3) as usize;
        let f = if flag() { BinaryFormat::Elf } else { BinaryFormat::Macho };
        let n = to - emit(&a, f).len();
        let mut hit = false;
        for k in 0..30 {
            m.defs[1].data = vec![9; n + k];
            a = make(&m);
            if emit(&a, f).len() == to {
                hit = true;
                break;
            }
        }
        assume(hit);
    }
    if undefined {
        must(a.declare("missing", Decl::function()), "declare");
    }
    let via = choose(3);
    let fmt = match via {
        0 => BinaryFormat::Elf,
        1 => BinaryFormat::Macho,
        _ => a.target.binary_format,
    };
    let want = a.emit_as(fmt);
    let old: Vec<u8> = match kind {
        2 => vec![0xee; 12_000],
        3 => bytes(5),
        _ => Vec::new(),
    };
    let start = match kind {
        2 => 1027,
        3 => 5,
        _ => 0,
    };
    let limit = match (kind, tier) {
        _ if block > 0 => 0,
        (0, 0) => 2,
        (0, _) => 3,
        _ => 1,
    };
    *sink() = Sink { on: true, seekable: kind != 0, data: old.clone(), pos: start, limit, ..NO_SINK };
    let file = sink_file();
    let r = if via == 2 { a.write(file) } else { a.write_as(file, fmt) };
    let f = sink();
    f.on = false;
    match want {
        Ok(w) => {
            observe(&f.data);
            let n = match r {
                Ok(()) => {
                    check(!f.failed, "writing claimed success although the sink failed");
                    w.len()
                }
                Err(ArtifactError::Io(_)) => {
                    check(f.failed, "writing reported an I/O error although the sink did not fail");
                    check(f.taken <= w.len(), "more was written than the emitted bytes");
                    f.taken
                }
                Err(_) => fail("writing failed with an error that is not an I/O error"),
            };
            let mut exp = old;
            if exp.len() < start + n {
                exp.resize(start + n, 0);
            }
            exp[start..start + n].copy_from_slice(&w[..n]);
            let msg = if n == w.len() { "the file does not hold exactly the emitted bytes" } else { "what was written before the failure is not a prefix of the emitted bytes" };
            check(f.data.len() == exp.len(), msg);
            check(same(&f.data[..start + n], &exp[..start + n]), msg);
            check(same(&f.data[start + n..], &exp[start + n..]), "writing changed the file beyond the emitted bytes");
        }
        Err(_) => {
            check(f.taken == 0 && f.data.len() == old.len(), "bytes were written although emission failed");
            check(matches!(r, Err(ArtifactError::UndefinedSymbols(_))), "writing an incomplete artifact did not report it");
        }
    }
    *sink() = NO_SINK;
}

fn sink_file() -> std::fs::File {
    use std::os::unix::io::FromRawFd;
    unsafe { std::fs::File::from_raw_fd(FD) }
}

fn errno(e: isize) -> isize {
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    unsafe { *__errno_location() = e as i32 };
    -1
}
fn ret(r: isize) -> isize {
    if r < 0 {
        errno(-r)
    } else {
        r
    }
}

// the executor calls these instead of the system's functions; so does the native replay, for
// descriptor 77

#[no_mangle]
pub extern "C" fn __model_write(fd: i32, p: *const u8, n: usize) -> isize {
    if fd != FD {
        return n as isize;
    }
    let at = sink().pos;
    let r = sink_write(at, unsafe { std::slice::from_raw_parts(p, n) });
    if r > 0 {
        sink().pos += r as usize;
    }
    ret(r)
}
#[repr(C)]
pub struct Iov {
    p: *const u8,
    n: usize,
}
#[no_mangle]
pub extern "C" fn __model_writev(fd: i32, v: *const Iov, n: i32) -> isize {
    let mut all = vec![];
    for i in 0..n as usize {
        let x = unsafe { &*v.add(i) };
        if x.n > 0 {
            all.extend_from_slice(unsafe { std::slice::from_raw_parts(x.p, x.n) });
        }
    }
    __model_write(fd, all.as_ptr(), all.len())
}
#[no_mangle]
pub extern "C" fn __model_pwrite64(fd: i32, p: *const u8, n: usize, at: i64) -> isize {
    if fd != FD {
        return n as isize;
    }
    if !sink().seekable {
        return errno(29); // ESPIPE
    }
    ret(sink_write(at as usize, unsafe { std::slice::from_raw_parts(p, n) }))
}
#[no_mangle]
pub extern "C" fn __model_lseek64(fd: i32, to: i64, whence: i32) -> i64 {
    let f = sink();
    if fd != FD || !f.seekable {
        return errno(29) as i64;
    }
    let base = match whence {
        0 => 0,
        1 => f.pos as i64,
        _ => f.data.len() as i64,
    };
    if base + to < 0 {
        return errno(22) as i64; // EINVAL
    }
    f.pos = (base + to) as usize;
    base + to
}
#[no_mangle]
pub extern "C" fn __model_ftruncate64(fd: i32, n: i64) -> i32 {
    let f = sink();
    if fd != FD || !f.seekable || n < 0 {
        return errno(22) as i32;
    }
    f.data.resize(n as usize, 0);
    0
}
#[no_mangle]
pub extern "C" fn __model_fsync(_fd: i32) -> i32 {
    if sink().seekable {
        0
    } else {
        errno(22) as i32
    }
}
#[no_mangle]
pub extern "C" fn __model_fdatasync(fd: i32) -> i32 {
    __model_fsync(fd)
}

// ---------------------------------------------------------------- C18

pub fn c18(tier: u32) {
    // section headers of an object: null, strtab, symtab, one per definition, one per relocated
    // definition, the stack note; the extended index table when there are 0xff00 or more
    // shapes around the limit: number of headers before the extra table is added
    let (w, nrel, t) = if tier == 0 {
        pick(&[(0xff00usize - 1, 2usize, X64), (0xff00, 2, X64), (0xff00 - 1, 4, PPC), (0xff00 + 14, 2, PPC), (0xff00 + 13, 4, S390), (0xff00 + 900, 12, X64)])
    } else {
        (
            pick(&[0xff00 - 2, 0xff00 - 1, 0xff00, 0xff00 + 1, 0xff00 + 300, 0x10000 + 5, 0x10000 + 1500]),
            pick(&[0usize, 2, 40]),
            pick(&[X64, PPC, S390]),
        )
    };
    large_elf(w, nrel, t)
}

/// an object of `w` sections (before the extended table) and `nrel` links
pub fn large_elf(w: usize, nrel: usize, t: Tgt) {
    let lim = 0xff00usize;
    let n = w - 4 - nrel;
    let mut m = Model::new(t);
    for i in 0..n {
        let mut d = Def::new(&short_name(i), if i % 16 == 3 { Kind::Func } else { Kind::Data });
        d.scope = if i % 977 == 5 { GLOBAL } else if i % 977 == 6 { WEAK } else { LOCAL };
        if i % 8000 == 1 || i + 3 > n {
            d.data = bytes(2);
        }
        if i % 6000 == 7 {
            d = Def::new(&short_name(i), Kind::Sect(SK::Debug)).sym(&idx_name("c", i), bits(32)).data(bytes(1));
        }
        m.def(d);
    }
    m.import("imp", true);
    for i in 0..nrel {
        let (f, to) = match i % 4 {
            0 => (n - 1 - i, To::Def(n - 2)),
            1 => (n - 1 - i, To::Imp(0)),
            2 => (16 * i, To::Def(n - 1)),
            // out of the last global definitions, whose sections come last
            _ => ((n - 6) / 977 * 977 + 5 - 977 * (i / 4 % 16), To::Def(0)),
        };
        let at = bits(32);
        m.link(To::Def(f), to, at, R::Raw(7, 3));
    }
    let a = m.build(BinaryFormat::Elf);
    let b = emit(&a, BinaryFormat::Elf);
    judge_big(&b, &m, w >= lim);
}

fn short_name(i: usize) -> String {
    // four letters, so that an index can be read back from the name
    let mut s = String::with_capacity(4);
    let mut k = i;
    for _ in 0..4 {
        s.push((b'a' + (k % 17) as u8) as char);
        k /= 17;
    }
    s
}
fn index_of(b: &[u8]) -> usize {
    let mut k = 0;
    for c in b.iter().rev() {
        k = k * 17 + (*c - b'a') as usize;
    }
    k
}

/// the general judge compares every symbol with every definition; here names are decoded instead
fn judge_big(b: &[u8], m: &Model, ext: bool) {
    observe64(b.len() as u64);
    let e = elfp::parse(b, m.tgt.c64, m.tgt.be);
    elfp::check_ext_table(&e);
    elfp::structure(&e, false);
    elfp::check_layout(&e);
    check(e.shndx.is_some() == ext, "the extended index table does not follow the limit");
    let nd = m.defs.len();
    check(e.secs.len() == nd + 4 + m.links.len() + ext as usize, "the number of sections is not that of the definitions, links and tables");
    let mut sec_of = vec![0usize; nd];
    let mut sym_of = vec![0usize; nd];
    let mut custom = 0;
    let mut imports = 0;
    let mut used = vec![false; e.secs.len()];
    for i in 1..e.syms.len() {
        let s = &e.syms[i];
        let t = s.info & 15;
        if t == 3 {
            check(s.sec > 0 && (s.sec as usize) < e.secs.len(), "a section symbol designates no section");
            continue;
        }
        if t == 4 {
            continue;
        }
        if s.shndx == 0 {
            check(e.sym_is(i, b"imp"), "an undefined symbol is not the import");
            check((s.info >> 4 == 1) & (s.value == 0) & (s.size == 0), "the import's symbol is not global and empty");
            imports += 1;
            continue;
        }
        let sec = s.sec as usize;
        check(sec > 0 && sec < e.secs.len(), "a symbol designates no section");
        let p = (e.secs[e.strtab].off + s.name) as usize;
        if e.r.b[p] == b'c' && e.r.b[p + 1].is_ascii_digit() {
            custom += 1;
            let mut hit = false;
            for d in &m.defs {
                if d.is_section() && e.sym_is(i, d.syms[0].0.as_bytes()) {
                    hit = true;
                    check(e.sec_is(sec, d.name.as_bytes()), "a custom symbol does not designate its section");
                    check(s.value == d.syms[0].1, "a custom symbol does not point at the requested offset");
                }
            }
            check(hit, "there is a symbol that nothing asked for");
            continue;
        }
        let k = index_of(&e.r.b[p..p + 4]);
        check(k < nd && !m.defs[k].is_section(), "there is a symbol that nothing asked for");
        check(e.r.b[p + 4] == 0, "a symbol has the wrong name");
        check(sym_of[k] == 0, "a definition has two symbols");
        sym_of[k] = i;
        sec_of[k] = sec;
        let d = &m.defs[k];
        let pre: &[u8] = if d.kind == Kind::Func { b".text." } else { b".rodata." };
        check(e.str2_is(e.shstr, e.secs[sec].name, pre, d.name.as_bytes()), "a symbol designates the wrong section");
        check(!used[sec], "two symbols designate one section");
        used[sec] = true;
        check(s.size == d.data.len() as u64, "a symbol has the wrong size");
        check(e.content(sec).len() == d.data.len() && same(e.content(sec), &d.data), "a section has the wrong bytes");
        let ty = if d.kind == Kind::Func { 2 } else { 1 };
        check((s.info == (d.scope << 4) | ty) & (s.other == 0) & (s.value == 0), "a symbol has the wrong type, binding, visibility or value");
    }
    let first = e.secs[e.symtab].info as usize;
    for i in 0..e.syms.len() {
        check((e.syms[i].info >> 4 == 0) == (i < first), "local symbols do not exactly precede the first non-local index");
    }
    check(imports == 1, "the import does not have exactly one symbol");
    let mut nc = 0;
    for k in 0..nd {
        if m.defs[k].is_section() {
            nc += 1;
            for i in 1..e.secs.len() {
                if e.secs[i].ty == elfp::SHT_PROGBITS && e.sec_is(i, m.defs[k].name.as_bytes()) {
                    sec_of[k] = i;
                }
            }
            check(sec_of[k] != 0, "a custom section is missing");
        } else {
            check(sym_of[k] != 0, "a definition has no symbol");
        }
    }
    check(nc == custom, "the custom symbols are not all there");
    let mut rels = 0;
    for i in 1..e.secs.len() {
        if e.secs[i].ty != elfp::SHT_RELA {
            continue;
        }
        check((e.secs[i].info as usize) < e.secs.len(), "a relocation section designates no section");
        for r in e.rels(i) {
            let mut hit = false;
            for l in &m.links {
                if sec_of[l.from] != e.secs[i].info as usize {
                    continue;
                }
                hit = true;
                check(r.off == l.at, "a relocation's offset is not the link's");
                check((r.sym as usize) < e.syms.len(), "a relocation designates no symbol");
                let s = &e.syms[r.sym as usize];
                match l.to {
                    To::Imp(_) => check(s.shndx == 0 && e.sym_is(r.sym as usize, b"imp"), "a relocation designates the wrong symbol"),
                    To::Def(x) => check(s.sec as usize == sec_of[x] && s.value == 0, "a relocation designates the wrong section"),
                }
            }
            check(hit, "a relocation section designates the wrong section");
            rels += 1;
        }
    }
    check(rels == m.links.len(), "the number of relocation entries is not the number of links");
    reach(if ext { "extended" } else { "plain" });
    if e.syms.iter().any(|s| s.shndx == 0xffff) {
        reach("extended symbol");
    }
}

// ---------------------------------------------------------------- C19

pub fn c19(tier: u32) {
    hash_stub(true);
    let is_elf = flag();
    let mut m = Model::new(X64);
    let judge = |m: &Model| {
        if is_elf {
            let b = emit(&m.build(BinaryFormat::Elf), BinaryFormat::Elf);
            check_elf(&b, m, elfp::ALL | elfp::COINCIDE);
            elfp::check_file(&b, m);
        } else {
            let b = emit(&m.build(BinaryFormat::Macho), BinaryFormat::Macho);
            check_mach(&b, m, machp::ALL | machp::COINCIDE);
        }
    };
    match choose(if tier == 0 { 6 } else { 7 }) {
        5 => judge(&opaque(X64, true)),
        0 => {
            // the artifact's name, a symbol and a section name, free to coincide with each other
            // and with the names the writers generate
            let (ln, ls, lc) = if is_elf {
                pick(&[(7usize, 7usize, 7usize), (0, 0, 0), (7, 1, 7), (1, 1, 7), (15, 3, 15), (13, 2, 8), (5, 1, 11)])
            } else {
                pick(&[(1, 6, 6), (0, 0, 0), (0, 2, 9), (1, 1, 5), (2, 7, 7)])
            };
            m.name = name(ln);
            let f = name(ls);
            let s = name(lc);
            let x = name(if lc < 4 { lc } else { 1 });
            assume(!same(f.as_bytes(), s.as_bytes()));
            m.def(Def::new(&f, Kind::Func).data(vec![1, 2, 3, 4]).scope(GLOBAL));
            m.def(Def::new(&s, Kind::Sect(if flag() { SK::Text } else { SK::Data })).data(vec![5, 6, 7]).sym(&x, 2));
            m.link(To::Def(0), To::Def(0), 1, R::Auto);
            judge(&m);
        }
        1 => {
            // three symbols of different namespaces
            let l = if tier == 0 { pick(&[1usize, 2]) } else { pick(&[0, 1, 2, 3, 9]) };
            let a = name(l);
            let b = name(if l == 2 { 1 } else { l });
            let c = name(l);
            assume(!same(a.as_bytes(), b.as_bytes()));
            assume(!same(a.as_bytes(), c.as_bytes()));
            assume(!same(b.as_bytes(), c.as_bytes()));
            m.name = name(l);
            m.def(Def::new(&a, Kind::Func).data(vec![1, 2]).scope(GLOBAL));
            m.def(Def::new(&b, Kind::Data).data(vec![3]).scope(choose(3) as u8).writable(true));
            m.import(&c, false);
            m.link(To::Def(0), To::Imp(0), 1, R::Auto);
            m.link(To::Def(0), To::Def(1), 0, R::Auto);
            m.link(To::Def(1), To::Def(0), 0, R::Auto);
            judge(&m);
        }
        2 => {
            // custom symbols against symbols, imports and each other
            let l = pick(&[1usize, 3]);
            let f = name(l);
            let i = name(l);
            let (x, y, z) = (name(l), name(l), name(1));
            assume(!same(f.as_bytes(), i.as_bytes()));
            assume(!same(x.as_bytes(), y.as_bytes()));
            m.def(Def::new(&f, Kind::Func).data(vec![1, 2]).scope(choose(2) as u8));
            let two = flag();
            let mut d = Def::new("__sa", Kind::Sect(SK::Data)).data(vec![3, 4, 5]).sym(&x, 1).sym(&y, 2);
            if !two {
                d.syms.pop();
            }
            m.def(d);
            m.def(Def::new("__sb", Kind::Sect(SK::Debug)).data(vec![6, 7]).sym(&z, 1));
            m.import(&i, true);
            m.link(To::Def(0), To::Imp(0), 1, R::Auto);
            m.link(To::Def(0), To::Def(0), 1, R::Auto);
            judge(&m);
        }
        3 => {
            // names that are the generated ones
            let fixed = [
                ".strtab", ".symtab", ".text.f", ".rela.text.f", ".data.d", ".note.GNU-stack", ".bss.z", ".symtab_shndx", "__text", "__data",
                "__bss", "__cstring", "", "f", ".rela.data.d",
            ];
            let a = pick(&fixed);
            let b = pick(&["", "f", ".strtab", ".symtab", "__text", ".text.f", ".rela.text.f"]);
            m.name = b.to_string();
            m.def(Def::new("f", Kind::Func).data(vec![1, 2]));
            m.def(Def::new("d", Kind::Data).data(vec![1, 2]).writable(true).scope(WEAK));
            m.def(Def::new("z", Kind::Data).zero(5).writable(true));
            if a != "f" {
                let s = match choose(4) {
                    0 => Def::new(a, Kind::Func).data(vec![8; 5]).scope(GLOBAL),
                    1 => Def::new(a, Kind::Data).data(vec![9; 3]),
                    2 => {
                        assume(is_elf || a.len() <= 16);
                        let d = Def::new(a, Kind::Sect(pick(&[SK::Data, SK::Text, SK::Debug]))).data(vec![7; 6]).sym("f", 1);
                        if b == "f" {
                            d
                        } else {
                            d.sym(b, 3)
                        }
                    }
                    _ => {
                        m.import(a, true);
                        Def::new("g", Kind::Func).data(vec![2; 5])
                    }
                };
                m.def(s);
                m.link(To::Def(0), To::Def(1), 1, R::Auto);
                m.link(To::Def(1), To::Def(0), 0, R::Auto);
                if m.imps.len() > 0 {
                    m.link(To::Def(0), To::Imp(0), 1, R::Auto);
                } else {
                    m.link(To::Def(0), To::Def(3), 1, R::Raw(1, 0));
                    m.link(To::Def(3), To::Def(0), 1, R::Raw(1, 0));
                    if !is_elf && m.defs[3].is_section() {
                        // Mach-O: links to sections are not symbol links
                        m.links.remove(2);
                    }
                }
            }
            judge(&m);
        }
        4 => {
            // names beyond ASCII
            let w: &[u8] = pick(&[&[2u8][..], &[2, 1], &[1, 3], &[4], &[1, 2, 2], &[3, 2, 1, 2]]);
            let f = uname(w);
            let i = uname(w);
            let s = uname(&w[..1]);
            let x = uname(w);
            assume(!same(f.as_bytes(), i.as_bytes()));
            assume(!same(f.as_bytes(), s.as_bytes()));
            assume(!same(i.as_bytes(), s.as_bytes()));
            m.name = uname(w);
            m.def(Def::new(&f, if flag() { Kind::Func } else { Kind::Str }).data(vec![1, 2]).scope(WEAK));
            m.def(Def::new(&s, Kind::Sect(SK::Data)).data(vec![3, 4, 5]).sym(&x, 1));
            m.def(Def::new("after", Kind::Data).data(vec![3, 5]));
            m.import(&i, true);
            m.link(To::Def(0), To::Imp(0), 1, R::Auto);
            m.link(To::Def(2), To::Def(0), 1, R::Auto);
            judge(&m);
        }
        _ => {
            // a Mach-O section name of any length is either reproduced or refused with an error
            let n = choose(24) as usize;
            let pre = flag();
            let mut s = String::from(if pre { ".debug" } else { "" });
            s.push_str(&long_name(1, n));
            if s.is_empty() {
                s.push('x');
            }
            m.def(Def::new(&s, Kind::Sect(SK::Debug)).data(vec![1, 2, 3]));
            let fits = s.len() + pre as usize <= 16;
            let a = m.build(BinaryFormat::Macho);
            match a.emit_as(BinaryFormat::Macho) {
                Ok(b) => {
                    check(fits, "a section name that does not fit was truncated");
                    check_mach(&b, &m, machp::ALL);
                }
                Err(_) => check(!fits, "emission failed for a section name that fits"),
            }
        }
    }
}

// ---------------------------------------------------------------- C21

fn perm(n: usize, mut k: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for i in (1..=n).rev() {
        out.push(left.remove(k % i));
        k /= i;
    }
    out
}
fn fact(n: usize) -> u32 {
    (1..=n as u32).product()
}

pub fn c21(tier: u32) {
    let n;
    let mut m;
    let order: Vec<usize>;
    match choose(3) {
        0 => {
            // every order of a few definitions of case-split kinds with symbolic attributes
            n = 3;
            m = if tier == 0 {
                several(tier, &[X64], &[0, 2, 6], n, &[2, 2, 3], true, 0)
            } else {
                several(tier, &[X64], &[0, 1, 2, 4, 6], n, &[2, 2, 3], true, 0)
            };
            order = perm(n, choose(fact(n)) as usize);
        }
        1 => {
            // same declarations, symbolic bytes of equal length: ties are broken by name and bytes
            n = if tier == 0 { 4 } else { 5 };
            m = Model::new(X64);
            let k = pick(&[0u32, 2, 4, 6]);
            for i in 0..n {
                let sec = k == 6;
                m.def(kind_def(&idx_name(if sec { "__s" } else { "d" }, (i * 7) % 10), k, 2));
            }
            order = perm(n, choose(fact(n)) as usize);
        }
        _ => {
            n = if tier == 0 { pick(&[25usize, 160, 300, 570]) } else { pick(&[25, 120, 300, 600]) };
            m = many(&[X64], n, 4, 10);
            order = match choose(3) {
                0 => (0..n).rev().collect(),
                1 => (0..n).map(|i| (i * 7 + 3) % n).collect(),
                _ => (0..n).map(|i| (i + n / 2) % n).collect(),
            };
            let mut seen = vec![false; n];
            for i in &order {
                seen[*i] = true;
            }
            assume(seen.iter().all(|x| *x));
        }
    }
    if m.imps.is_empty() {
        m.import("imp", true);
        m.import("imp2", false);
        // links, to themselves too, and several to the same thing
        let l = [&[][..], &[(0, 1), (2, 1), (1, 2), (0, 0)], &[(1, 1), (1, 9), (2, 0), (1, 0), (2, 2)], &[(0, 2), (0, 2), (1, 1)]][choose(4) as usize];
        for (from, to) in l {
            m.link(To::Def(*from), if *to == 9 { To::Imp(0) } else { To::Def(*to) }, 4 + *to as u64, R::Raw(0, 0));
        }
    }
    let a = m.build(BinaryFormat::Elf);
    let mut b = m.empty_artifact(BinaryFormat::Elf);
    let redundant = choose(3);
    if redundant > 0 {
        // rejected calls that mention, in another order, names that are declared later
        let mut s = std::collections::BTreeMap::new();
        for d in m.defs.iter().rev() {
            s.insert(d.name.clone(), 1);
            check(b.define(&d.name, vec![1]).is_err(), "an undeclared name was defined");
            check(b.link(Link { from: &d.name, to: &m.imps[0].name, at: 0 }).is_err(), "a link out of an undeclared name was accepted");
        }
        let d = &m.defs[0];
        must(b.declare(&d.name, d.decl()), "a first declaration was rejected");
        if !d.is_section() {
            check(b.define_with_symbols(&d.name, vec![1], s.clone()).is_err(), "custom symbols outside a section were accepted");
        } else {
            check(b.define_zero_init(&d.name, 4).is_err(), "a zero-initialised section was accepted");
        }
        must(b.import(&m.imps[0].name, if m.imps[0].func { ImportKind::Function } else { ImportKind::Data }), "a first import was rejected");
        check(b.define_with_symbols(&m.imps[0].name, vec![1], s).is_err(), "an import was defined");
        check(b.link(Link { from: &d.name, to: &m.defs[m.defs.len() - 1].name, at: 0 }).is_err(), "a link to an undeclared name was accepted");
        check(b.declare(&d.name, Decl::function_import()).is_err() || d.kind == Kind::Func, "an incompatible declaration was accepted");
    }
    m.declare_all(&mut b);
    let first = if m.links.is_empty() { false } else { flag() };
    if first {
        m.link_all(&mut b);
    }
    for i in &order {
        let d = &m.defs[*i];
        if redundant == 1 {
            must(b.declare(&d.name, d.decl()), "a redundant declaration was rejected");
        }
        must(d.define(&mut b), "a well-formed definition was rejected");
        if redundant == 2 {
            check(d.define(&mut b).is_err(), "a second definition was accepted");
            match d.kind {
                Kind::Func => must(b.import(&d.name, ImportKind::Function), "an import of a definition was rejected"),
                Kind::Data | Kind::Str => must(b.import(&d.name, ImportKind::Data), "an import of a definition was rejected"),
                _ => {}
            }
            check(b.define(&m.imps[0].name, vec![1]).is_err(), "an import was defined");
        }
    }
    if redundant == 1 {
        // (in another order than the first time, and not all of them)
        for i in m.imps[..m.imps.len() - 1].iter().rev() {
            let k = if i.func { ImportKind::Function } else { ImportKind::Data };
            must(b.import(&i.name, k), "a redundant import was rejected");
        }
    }
    if !first {
        m.link_all(&mut b);
    }
    for f in [BinaryFormat::Elf, BinaryFormat::Macho] {
        let x = emit(&a, f);
        let y = emit(&b, f);
        observe(&x);
        check(x.len() == y.len() && same(&x, &y), "equal artifacts emit different bytes");
    }
}
