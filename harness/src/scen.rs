//! Generators of artifacts: shapes are case-split, attributes / bytes / offsets are symbolic.
use crate::model::*;
use crate::sym::*;
use faerie::Architecture;

pub const NKIND: u32 = 14;
/// kinds that are custom sections
pub fn sec_kind(k: u32) -> bool {
    matches!(k, 5 | 6 | 7 | 9 | 12 | 13)
}

pub fn kind_def(name: &str, k: u32, len: usize) -> Def {
    match k {
        0 => Def::new(name, Kind::Func).data(bytes(len)),
        1 => Def::new(name, Kind::Data).data(bytes(len)),
        2 => Def::new(name, Kind::Data).writable(true).data(bytes(len)),
        3 => Def::new(name, Kind::Str).data(bytes(len)),
        4 => Def::new(name, Kind::Data).writable(true).zero(len as u64),
        5 => Def::new(name, Kind::Sect(SK::Data)).data(bytes(len)),
        6 => Def::new(name, Kind::Sect(SK::Debug)).data(bytes(len)),
        7 => Def::new(name, Kind::Sect(SK::Text)).data(bytes(len)),
        8 => Def::new(name, Kind::Data).zero(len as u64),
        9 => Def::new(name, Kind::SectStr(SK::Debug)).data(bytes(len)),
        10 => Def::new(name, Kind::Str).writable(true).data(bytes(len)),
        11 => Def::new(name, Kind::Str).zero(len as u64),
        12 => Def::new(name, Kind::SectStr(SK::Data)).data(bytes(len)),
        _ => Def::new(name, Kind::SectStr(SK::Text)).data(bytes(len)),
    }
}

/// a symbolic binding and visibility (no case split by the harness)
pub fn sym_attrs(mut d: Def) -> Def {
    if !d.is_section() {
        d.scope = below(3) as u8;
        let v = below(4) as u8;
        assume(v != 1);
        d.vis = v;
    }
    d
}

/// None or a symbolic power of two below 2^maxk
pub fn sym_align(maxk: u64) -> Option<u64> {
    if flag() {
        let k = below(maxk);
        Some(1u64 << k)
    } else {
        None
    }
}

pub fn long_name(seed: usize, n: usize) -> String {
    let mut s = String::with_capacity(n);
    for i in 0..n {
        s.push((b'a' + ((i * 7 + seed * 5 + i / 11) % 26) as u8) as char);
    }
    s
}
pub fn idx_name(pre: &str, i: usize) -> String {
    let mut s = String::from(pre);
    let mut k = i;
    loop {
        s.push((b'0' + (k % 10) as u8) as char);
        k /= 10;
        if k == 0 {
            break;
        }
    }
    s
}

/// one definition with everything about it symbolic
pub fn single(tier: u32, tgts: &[Tgt], kinds: u32, maxk: u64) -> Model {
    let t = pick(tgts);
    let mut m = Model::new(t);
    let k = choose(kinds);
    let len = if tier == 0 { pick(&[0usize, 1, 5, 16, 300]) } else { pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 127, 128, 255, 256, 257, 300, 1023, 4096, 4097]) };
    let name = if tier == 0 {
        pick(&["f", "a_name_that_is_longer_than_thirty_two_bytes_altogether", "\u{e9}t\u{e9}.y"])
    } else {
        pick(&["", "f", "a_name_that_is_longer_than_thirty_two_bytes_altogether", ".debug_str", "x.y", "\u{e9}t\u{e9}"])
    };
    let name = if sec_kind(k) { if name.len() > 16 { "__sixteen_bytes_" } else { name } } else { name };
    let mut d = sym_attrs(kind_def(name, k, len));
    if d.zero.is_some() {
        let z = u64v();
        assume(z < (if t.c64 { 1u64 << 40 } else { 1 << 28 }));
        d.zero = Some(z);
    }
    // an alignment has to fit the class's fields
    d.align = sym_align(if t.c64 { maxk } else { maxk.min(31) });
    m.def(d);
    m
}

/// several definitions of case-split kinds; attributes as asked
pub fn several(_tier: u32, tgts: &[Tgt], kinds: &[u32], n: usize, lens: &[usize], attrs: bool, maxk: u64) -> Model {
    let t = pick(tgts);
    let mut m = Model::new(t);
    let names = ["zeta", "b", "alpha_with_a_name_longer_than_32_bytes__", "m", "q0", "__c"];
    let snames = [".zeta", ".debug_b", "__al_sixteen_byt", "__m", ".q0", ".debug_str"];
    for i in 0..n {
        let k = pick(kinds);
        let sec = sec_kind(k);
        let mut d = kind_def(if sec { snames[i] } else { names[i] }, k, lens[i % lens.len()]);
        if attrs {
            d = sym_attrs(d);
        } else if !d.is_section() {
            d.scope = [LOCAL, GLOBAL, WEAK][i % 3];
            d.vis = [0, 2, 3][(i + k as usize) % 3];
        }
        if maxk > 0 {
            d.align = sym_align(maxk);
        }
        if sec {
            let o = u32v() as u64;
            d = d.sym(["s1", "s2", "s3", "s4", "s5", "s6"][i], o);
            if i & 1 == 1 {
                d = d.sym(["t1", "t2", "t3", "t4", "t5", "t6"][i], 0);
            }
        }
        m.def(d);
    }
    m
}

/// many definitions of all kinds in one object
pub fn many(tgts: &[Tgt], n: usize, imps: usize, nlinks: usize) -> Model {
    let t = pick(tgts);
    let mut m = Model::new(t);
    m.name = long_name(3, 45);
    for i in 0..n {
        let k = (i * 5 + i / 7) as u32 % NKIND;
        let nm = if sec_kind(k) {
            idx_name(if i % 2 == 0 { ".debug_" } else { "__s" }, i)
        } else if i % 4 == 3 {
            let mut s = long_name(i, 30 + i % 20);
            s.push_str(&idx_name("_", i));
            s
        } else {
            idx_name("d", i)
        };
        let mut d = kind_def(&nm, k, (i * 3) % 11);
        if !d.is_section() {
            d.scope = (i % 3) as u8;
            d.vis = [0u8, 2, 3][(i / 3) % 3];
            d.align = if i % 5 == 0 { Some(1 << (i % 6)) } else { None };
        } else {
            let o = u32v() as u64;
            d = d.sym(&idx_name("cs", i), o);
        }
        m.def(d);
    }
    for i in 0..imps {
        m.import(&idx_name("imp", i), i % 3 != 0);
    }
    let src: Vec<usize> = (0..n).filter(|i| m.defs[*i].kind == Kind::Func || (m.defs[*i].kind == Kind::Data && m.defs[*i].zero.is_none())).collect();
    let dst: Vec<usize> = (0..n).filter(|i| !m.defs[*i].is_section()).collect();
    if !src.is_empty() {
        for i in 0..nlinks {
            let from = src[(i * 7) % src.len()];
            let to = if i % 3 == 1 && imps > 0 { To::Imp(i % imps) } else { To::Def(dst[(i * 5 + 1) % dst.len()]) };
            let at = bits(30);
            m.link(To::Def(from), to, at, R::Auto);
        }
    }
    m
}

/// seven definitions whose kinds rotate, of interleaved sections, with names that are suffixes of
/// one another, symbolic attributes on one of them, imports, and links between them
pub fn rich(t: Tgt, auto: bool) -> Model {
    let mut m = Model::new(t);
    let r = choose(NKIND) as usize;
    m.name = ["lib", "a", "cab.o", ""][r % 4].to_string();
    let names = ["cab", "ab", "b", "xcab", "bc", "abc_abc_abc_abc_abc_abc_abc_abc_abc_abc", "c"];
    let snames = ["__cab", "_cab", "cab.", ".debug_ab", "ab.", ".debug_xab", "__bc"];
    let n = 7;
    for i in 0..n {
        let k = ((r * [1, 3, 5, 1, 9, 11, 13][i] + [0, 1, 2, 7, 4, 11, 3][i]) % NKIND as usize) as u32;
        let sec = sec_kind(k);
        let mut d = kind_def(if sec { snames[i] } else { names[i] }, k, (r * 3 + i * 7) % 23);
        if sec {
            let (o, p) = (bits(if t.be { 16 } else { 24 }), bits(16));
            d = d.sym(["o1", "dabc", "o3", "o4", "dcab", "o6", "o7"][i], o);
            if i % 2 == 0 {
                d = d.sym(["c1", "c2", "c3", "c4", "c5", "c6", "c7"][i], p);
            }
            if (r + i) % 3 == 0 {
                d.align = Some(1 << (r % 7));
            }
        } else {
            d.scope = ((r + i) % 3) as u8;
            d.vis = [0, 2, 3][(r * 2 + i) % 3];
            if i == r % n {
                d = sym_attrs(d);
            }
            if (r + i) % 2 == 0 {
                d.align = Some(1 << ((r * 5 + i * 3) % 9));
            }
            if d.zero.is_some() {
                d.zero = Some(if m.defs.iter().any(|x| x.zero.is_some()) { (r * 7 + i) as u64 } else { bits(9) });
            }
        }
        m.def(d);
    }
    for i in 0..(r % 4) {
        m.import(["ibc", "bc_", "i_with_a_name_longer_than_thirty_two_bytes"][i], (r + i) % 2 == 0);
    }
    if auto {
        let ok: Vec<usize> = (0..n).filter(|i| !m.defs[*i].is_section()).collect();
        for i in 0..ok.len() {
            for j in 0..2 {
                let to = if j == 1 && !m.imps.is_empty() { To::Imp(i % m.imps.len()) } else { To::Def(ok[(i * 3 + j + r) % ok.len()]) };
                let at = bits(24);
                if m.defs[ok[i]].zero.is_some() || (i + r) % 5 == 4 {
                    let ty = 1 + bits(2) as u32;
                    m.link(To::Def(ok[i]), to, at, R::Raw(ty, 0));
                } else {
                    m.link(To::Def(ok[i]), to, at, R::Auto);
                }
            }
        }
        for i in 0..n {
            if m.defs[i].sk() == Some(SK::Debug) && !ok.is_empty() {
                let at = bits(24);
                let ad = if (r + i) % 2 == 0 { 0 } else { 5 };
                m.link(To::Def(i), To::Def(ok[(r + i) % ok.len()]), at, R::Debug(if i % 2 == 0 { 4 } else { 8 }, ad));
            }
        }
    }
    m
}

/// one object whose tables, names and contents exceed the reach of 8- and 16-bit counters
pub fn big(t: Tgt) -> Model {
    let mut m = Model::new(t);
    m.name = long_name(5, 300);
    let mut d = Def::new("code", Kind::Func).scope(GLOBAL);
    d.data = (0..70_000u32).map(|i| (i * 7 + i / 251) as u8).collect();
    d.data.extend_from_slice(&bytes(8));
    m.def(d);
    let mut d = Def::new("data", Kind::Data).writable(true);
    d.data = (0..66_001u32).map(|i| (i * 11 + i / 13) as u8).collect();
    d.data.extend_from_slice(&bytes(5));
    m.def(d);
    m.def(Def::new(&long_name(1, 66_000), Kind::Data).data(bytes(3)).scope(WEAK));
    m.def(Def::new(&long_name(2, 300), Kind::Func).data(bytes(5)));
    for i in 0..260 {
        let k = [0u32, 1, 2, 3, 4][i % 5];
        m.def(kind_def(&idx_name("v", i), k, 1 + i % 9).scope((i / 5 % 3) as u8));
    }
    for i in 0..3 {
        let o = bits(32);
        m.def(Def::new(&idx_name("__bs", i), Kind::Sect([SK::Data, SK::Debug, SK::Text][i])).data(bytes(9)).sym(&idx_name("bsym", i), o));
    }
    m.import("imp_fun", true);
    m.import("imp_dat", false);
    for i in 0..300usize {
        let at = bits(20);
        let to = if i % 11 == 3 { To::Imp(i % 2) } else { To::Def(if i % 3 == 0 { i % 3 } else { 4 + (i * 7) % 260 }) };
        m.link(To::Def(if i % 10 == 9 { 1 } else { 0 }), to, at, R::Auto);
    }
    m
}

/// symbolic names in every role: function, data, section, custom symbol, import
pub fn named(t: Tgt, auto: bool) -> Model {
    hash_stub(true);
    let mut m = Model::new(t);
    m.named = true;
    let shape = choose(4) as usize;
    let l = [1usize, 2, 3, 5][shape];
    let ns: Vec<String> = (0..5).map(|i| name(if i == 4 && shape > 0 { l - 1 } else { l })).collect();
    let mut ok = true;
    for i in 0..5 {
        for j in 0..i {
            ok &= !same(ns[i].as_bytes(), ns[j].as_bytes());
        }
    }
    // (".data" and the like are names of sections that the tables themselves have)
    ok &= ns[2].as_bytes()[0] != b'.' && ns[2].as_bytes()[0] != b'_';
    assume(ok);
    let sk = [SK::Data, SK::Debug, SK::Text, SK::Debug][shape];
    let (o, p) = (bits(16), bits(24));
    m.def(Def::new(&ns[0], if shape == 3 { Kind::Str } else { Kind::Func }).data(vec![1, 2, 3]).scope(shape as u8 % 3).vis([0, 2, 3, 0][shape]));
    m.def(Def::new(&ns[2], Kind::Sect(sk)).data(vec![4, 5, 6, 7, 8, 9, 10, 11, 12]).sym(&ns[3], o));
    let d = Def::new(&ns[1], Kind::Data).scope((shape as u8 + 1) % 3);
    m.def(if shape % 2 == 0 { d.writable(true).data(vec![7; 5]) } else { d.zero(5) });
    m.def(Def::new("a_fixed_one", Kind::Func).data(vec![3; 4]).scope(GLOBAL));
    m.import(&ns[4], shape % 2 == 0);
    if auto {
        m.link(To::Def(0), To::Def(2), p, R::Auto);
        m.link(To::Def(3), To::Imp(0), 1, R::Auto);
        m.link(To::Def(3), To::Def(0), 2, R::Auto);
        m.link(To::Def(0), To::Imp(0), o, R::Auto);
        if sk == SK::Debug {
            m.link(To::Def(1), To::Def(0), o, R::Debug(8, 0));
        }
    }
    m
}

/// more symbols than 16 bits can count, at the price of one section
pub fn huge(t: Tgt, auto: bool) -> Model {
    let mut m = Model::new(t);
    m.indexed = true;
    let n = 66_000usize;
    m.def(Def::new("code", Kind::Func).data(bytes(9)).scope(GLOBAL));
    let mut d = Def::new("__huge", Kind::Sect(SK::Data)).data(bytes(3));
    for i in 0..n {
        d.syms.push((idx_name("s", i), if i == 5 || i == 65_905 { bits(32) } else { i as u64 * 3 }));
    }
    m.def(d);
    m.def(Def::new("data", Kind::Data).data(bytes(9)).writable(true).scope(WEAK));
    m.def(Def::new("local", Kind::Data).data(bytes(2)));
    m.def(Def::new(".debug_x", Kind::Sect(SK::Debug)).data(bytes(8)).sym("zz_dbg", 1));
    m.def(Def::new("zz", Kind::Func).data(bytes(2)).scope(GLOBAL));
    m.import("imp_fun", true);
    m.import("imp_dat", false);
    m.import("zz_imp", true);
    if auto {
        for (f, to) in [(0usize, To::Imp(0)), (0, To::Def(2)), (2, To::Imp(1)), (2, To::Def(5)), (5, To::Imp(2)), (0, To::Def(3)), (2, To::Def(0))] {
            let at = bits(24);
            m.link(To::Def(f), to, at, R::Auto);
        }
        m.link(To::Def(4), To::Def(2), 3, R::Debug(8, 0));
        m.link(To::Def(4), To::Imp(0), 4, R::Debug(4, 0));
    }
    m
}

/// contents of plain patterns and of lengths around powers of two
pub fn patterned(t: Tgt) -> Model {
    let mut m = Model::new(t);
    let r = choose(6) as usize;
    let lens = [[255usize, 1024, 64, 8191], [256, 1023, 2048, 127], [257, 4096, 512, 63], [1500, 65, 128, 1025], [511, 16, 4095, 32], [24, 513, 4097, 255]][r];
    for i in 0..4 {
        let n = lens[i];
        let v: Vec<u8> = match (i + r) % 6 {
            0 | 3 => vec![0; n],
            1 => vec![0xff; n],
            2 => (0..n).map(|k| if k + 1 == n { 0 } else { b'a' + (k % 26) as u8 }).collect(),
            4 => (0..n).map(|k| if k < n / 2 { 0 } else { k as u8 }).collect(),
            _ => (0..n).map(|k| if k % 9 == 8 { 0 } else { 0x90 }).collect(),
        };
        let k = [[1u32, 2, 0, 3], [3, 1, 2, 0], [2, 10, 3, 1], [0, 1, 10, 2], [1, 2, 3, 0], [2, 0, 1, 3]][r][i];
        let mut d = kind_def(&idx_name("p", i), k, 0).scope((i as u8 + r as u8) % 3);
        d.data = v.clone();
        m.def(d);
        let mut d = kind_def(&idx_name("__q", i), [5u32, 9, 7, 6][(i + r) % 4], 0).sym(&idx_name("y", i), i as u64);
        d.data = v;
        m.def(d);
    }
    if t.arch == Architecture::X86_64 {
        let at = bits(20);
        m.link(To::Def(0), To::Def(6), at, R::Auto);
        m.link(To::Def(2), To::Def(0), at, R::Auto);
        m.link(To::Def(6), To::Def(4), at, R::Auto);
    }
    m
}

/// two objects of one section (and a third behind them): lengths and alignments case-split
pub fn spread() -> Model {
    let mut m = Model::new(X64);
    let k = pick(&[0u32, 2, 3, 4]);
    let len = choose(18) as usize;
    let al = pick(&[None, Some(1u64), Some(2), Some(4), Some(8), Some(16), Some(32), Some(64), Some(4096)]);
    m.def(kind_def("one", k, len).scope(GLOBAL));
    m.def(kind_def("two", k, 3).align(al));
    m.def(kind_def("three", k, (len * 5) % 13).align(if len % 3 == 0 { Some(8) } else { None }).scope(WEAK));
    m.def(kind_def("other", if k == 0 { 2 } else { 0 }, 3));
    let at = bits(16);
    m.link(To::Def(1), To::Def(3), at, if k == 0 { R::Auto } else { R::Raw(0, 0) });
    m.link(To::Def(2), To::Def(1), at, R::Raw(0, 0));
    m
}

/// an artifact made by a history full of rejected and redundant calls
pub fn noisy(t: Tgt, auto: bool) -> Model {
    let mut m = rich(t, auto);
    m.noise = true;
    m
}

/// one name of every length up to 26 (Mach-O sections' 15) with every character symbolic, in every role, next to
/// names it cannot coincide with: nothing may depend on how something is called
pub fn opaque(t: Tgt, auto: bool) -> Model {
    opaque_upto(t, auto, 15)
}
/// (ELF does not limit the names of sections)
pub fn opaque_upto(t: Tgt, auto: bool, slen: u32) -> Model {
    hash_stub(true);
    let mut m = Model::new(t);
    m.named = true;
    let role = choose(10) as usize;
    let len = 1 + choose(if (4..7).contains(&role) { slen } else { 26 }) as usize;
    let s = name(len);
    let mut ok = true;
    if (4..7).contains(&role) {
        // (sections that the tables themselves have)
        for g in [".strtab", ".symtab", ".note.GNU-stack", "__text", "__data", "__cstring", "__bss", "__debug_b"] {
            ok &= !same(s.as_bytes(), g.as_bytes());
        }
    }
    if role == 9 {
        m.name = s.clone();
    }
    assume(ok);
    let fixed = [
        "a_function_with_a_name_of_its_own", "some_data_with_a_name_of_its_own", "a_string_with_a_name_of_its_own", "zeros_with_a_name_of_their_own",
        "__a_sect", ".debug_b", "__text_c", "a_custom_symbol_with_a_name_of_its_own", "an_import_with_a_name_of_its_own",
    ];
    // the fixed section names never have the length of the symbolic one
    let nm = |i: usize| -> String {
        if i == role {
            s.clone()
        } else if len == fixed[i].len() {
            let mut x = fixed[i].to_string();
            x.push_str("_x");
            x
        } else {
            fixed[i].to_string()
        }
    };
    let (o, p) = (bits(16), bits(24));
    m.def(Def::new(&nm(0), Kind::Func).data(vec![1, 2, 3]).vis(2).scope(if len % 2 == 0 { LOCAL } else { WEAK }));
    m.def(Def::new(&nm(1), Kind::Data).data(vec![4; 5]).writable(true).scope(if len % 2 == 0 { GLOBAL } else { LOCAL }));
    m.def(Def::new(&nm(2), Kind::Str).data(vec![b'x', 0]).scope(if len % 2 == 0 { WEAK } else { GLOBAL }).vis(3));
    m.def(Def::new(&nm(3), Kind::Data).zero(24).writable(true).align(Some(4)));
    m.def(Def::new(&nm(4), Kind::Sect(SK::Data)).data(vec![6; 9]).sym(&nm(7), o));
    m.def(Def::new(&nm(5), Kind::Sect(SK::Debug)).data(vec![7; 8]));
    m.def(Def::new(&nm(6), Kind::Sect(SK::Text)).data(vec![8; 4]));
    m.import(&nm(8), len % 2 == 0);
    if auto {
        m.link(To::Def(0), To::Def(1), p, R::Auto);
        m.link(To::Def(0), To::Imp(0), o, R::Auto);
        m.link(To::Def(1), To::Def(0), 1, R::Auto);
        m.link(To::Def(1), To::Imp(0), 2, R::Auto);
        m.link(To::Def(2), To::Def(3), 2, R::Auto);
        m.link(To::Def(5), To::Def(0), p, R::Debug(8, 0));
        m.link(To::Def(5), To::Imp(0), o, R::Debug(4, 0));
    }
    m
}

/// more links out of one section than 16 bits can count
pub fn flood(t: Tgt) -> Model {
    let mut m = Model::new(t);
    m.def(Def::new("code", Kind::Func).data(bytes(9)).scope(GLOBAL));
    m.def(Def::new("data", Kind::Data).data(bytes(9)).writable(true).scope(WEAK));
    m.def(Def::new("other", Kind::Func).data(bytes(2)));
    m.def(Def::new(".debug_x", Kind::Sect(SK::Debug)).data(bytes(8)).sym("in_debug", 1));
    m.import("imp_fun", true);
    m.import("imp_dat", false);
    let to = [To::Def(1), To::Imp(0), To::Def(2), To::Imp(1), To::Def(0)];
    for i in 0..65_540u64 {
        let at = if i == 7 || i == 65_530 { bits(24) } else { i };
        m.link(To::Def(0), to[i as usize % 5], at, R::Auto);
        if i % 16_000 == 9 {
            m.link(To::Def(1), To::Def(0), i, R::Auto);
            m.link(To::Def(3), To::Imp(1), i, R::Debug(8, 0));
            m.link(To::Def(2), To::Def(1), at, R::Auto);
        }
    }
    m
}

/// contents beyond 16-bit lengths, of every kind
pub fn bulk(t: Tgt) -> Model {
    let mut m = Model::new(t);
    let (n, k) = [(40_000usize, 3u32), (65_535, 0), (65_536, 2), (70_001, 1), (33_000, 5), ((1 << 20) + 1, 2), ((1 << 20) + 4096, 0), (300_001, 3)][choose(8) as usize];
    let long = |n: usize| -> Vec<u8> { (0..n).map(|i| 1 + (i % 251) as u8).collect() };
    m.def(Def::new("before", Kind::Func).data(bytes(3)).scope(GLOBAL));
    m.def(kind_def("data_before", 2, 5));
    m.def(Def::new("str_before", Kind::Str).data(vec![b'x', 0]));
    let mut d = kind_def(if k == 5 { "__long" } else { "long" }, k, 0);
    d.data = long(n);
    d.scope = (n % 3) as u8;
    if k == 5 {
        d.scope = LOCAL;
        d = d.sym("in_long", 32_999);
    }
    m.def(d);
    m.def(kind_def("data_after", 2, 5).scope(WEAK));
    m.def(Def::new("str_after", Kind::Str).data(vec![b'y', b'z', 0]));
    m.def(Def::new("after", Kind::Func).data(bytes(7)));
    m.def(Def::new("__custom", Kind::Sect(SK::Debug)).data(bytes(6)).sym("in_custom", 4));
    m.import("imp", true);
    if t.arch == Architecture::X86_64 {
        let at = bits(20);
        m.link(To::Def(6), To::Def(4), at, R::Auto);
        m.link(To::Def(0), To::Def(6), at, R::Auto);
        m.link(To::Def(4), To::Def(0), at, R::Auto);
        m.link(To::Def(7), To::Def(6), 2, R::Debug(4, 0));
    }
    m
}

/// one count or length at a time, through every value up to about fifty (lengths: up to 1200)
pub fn sweep(t: Tgt, auto: bool, elf: bool) -> Model {
    let mut m = Model::new(t);
    m.indexed = true;
    let role = choose(8);
    let n = choose(48) as usize;
    let at = bits(20);
    let fill = |i: usize, l: usize| -> Vec<u8> { (0..l).map(|k| (k * 7 + i * 3 + l) as u8).collect() };
    match role {
        0 => {
            for i in 0..n {
                m.def(kind_def(&idx_name("d", i), ((i * 3 + n) % 5) as u32, (i * 5 + n) % 9).scope(((i + n / 3) % 3) as u8));
            }
        }
        1 => {
            let k = choose(5);
            for i in 0..n {
                m.def(kind_def(&idx_name("d", i), k, 1 + (i * 5 + n) % 9).scope(((i + n / 3) % 3) as u8));
            }
        }
        2 => {
            m.def(Def::new("fun", Kind::Func).data(bytes(3)).scope(GLOBAL));
            for i in 0..n {
                m.import(&idx_name("imp", i * 7), (i * i + n) % 3 != 0);
            }
            for i in 0..n {
                if auto {
                    m.link(To::Def(0), To::Imp((i * 5) % n), at, R::Auto);
                }
            }
        }
        3 => {
            m.def(Def::new("fun", Kind::Func).data(bytes(3)).scope(GLOBAL));
            m.def(Def::new("dat", Kind::Data).data(bytes(3)));
            m.def(Def::new("fun2", Kind::Func).data(bytes(1)).scope(WEAK));
            m.import("imp", true);
            if auto {
                for i in 0..n {
                    let (f, to) = [(0, To::Def(1)), (0, To::Imp(0)), (1, To::Def(0)), (0, To::Def(2)), (2, To::Def(1))][(i + n) % 5];
                    m.link(To::Def(f), to, if i % 7 == 3 { at } else { (i * 4) as u64 }, R::Auto);
                }
            }
        }
        4 => {
            m.def(Def::new("fun", Kind::Func).data(bytes(3)).scope(GLOBAL));
            let mut d = Def::new("__many", Kind::Sect([SK::Data, SK::Debug, SK::Text][n % 3])).data(bytes(9));
            for i in 0..n {
                d.syms.push((idx_name("s", i * 13), if i % 9 == 5 { at } else { (i * i) as u64 }));
            }
            m.def(d);
            m.def(Def::new("fun2", Kind::Func).data(bytes(1)));
        }
        5 => {
            for i in 0..n {
                let d = Def::new(&idx_name(if i % 4 == 1 { ".debug_" } else { "__s" }, i), Kind::Sect([SK::Data, SK::Debug, SK::Text][(i + n) % 3]));
                let d = d.data(fill(i, i % 6)).align(if i % 5 == 2 { Some(1 << (i % 7)) } else { None });
                m.def(d.sym(&idx_name("y", i), if i % 9 == 5 { at } else { i as u64 }));
            }
            m.def(Def::new("fun", Kind::Func).data(bytes(3)).scope(GLOBAL));
        }
        6 => {
            for i in 0..25 {
                let l = 4 + n * 25 + i;
                let s = |p: &str| -> String {
                    let mut x = String::from(p);
                    x.push_str(&idx_name("", i));
                    while x.len() < l {
                        x.push((b'a' + ((x.len() * 7 + i * 3) % 26) as u8) as char);
                    }
                    x
                };
                m.def(kind_def(&s("d"), (i % 5) as u32, i % 3).scope((i % 3) as u8));
                m.import(&s("i"), i % 2 == 0);
                if elf {
                    m.def(Def::new(&s("__"), Kind::Sect([SK::Data, SK::Debug, SK::Text][i % 3])).data(fill(i, i % 5)).sym(&s("y"), i as u64));
                } else if i < 16 {
                    m.def(Def::new(&idx_name("__c", i), Kind::Sect([SK::Data, SK::Debug, SK::Text][i % 3])).data(fill(i, i % 5)).sym(&s("y"), i as u64));
                }
            }
            if n % 2 == 1 {
                m.name = long_name(n, n * 25);
            }
        }
        _ => {
            for i in 0..25 {
                let l = n * 25 + i;
                let k = [0u32, 1, 2, 3, 5, 6, 10, 7][(i * 3 + n) % 8];
                let mut d = kind_def(&idx_name(if sec_kind(k) { "__l" } else { "l" }, i), k, 0);
                if !sec_kind(k) {
                    d.scope = ((i + n) % 3) as u8;
                }
                d.data = fill(i, l);
                m.def(d);
            }
        }
    }
    m
}

/// names of lengths around powers of two, whose first and last characters are symbolic
pub fn ends(t: Tgt, auto: bool, elf: bool) -> Model {
    hash_stub(true);
    let mut m = Model::new(t);
    m.named = true;
    let k = choose(14) as usize;
    let off = choose(4) as usize;
    let len = (1usize << (k + 3)) - 2 + off;
    let role = k % 3;
    let nm = |p: &str, i: usize| -> String {
        let mut x = String::from(p);
        x.push_str(&name(1));
        let w = [1u8, 2, 3, 1, 2][(i + role + off) % 5];
        while x.len() + (w as usize) < len {
            x.push((b'a' + ((x.len() * 7 + i * 3) % 26) as u8) as char);
        }
        x.push_str(&uname(&[w]));
        x
    };
    let at = bits(16);
    m.def(Def::new(&nm("f", 0), Kind::Func).data(bytes(3)).scope((off % 3) as u8));
    m.def(Def::new(&nm("d", 1), Kind::Data).data(bytes(5)).writable(true).scope(GLOBAL));
    m.def(Def::new("another", Kind::Func).data(bytes(3)));
    m.import(&nm("i", 2), k % 2 == 0);
    if elf {
        m.def(Def::new(&nm("__", 3), Kind::Sect([SK::Data, SK::Debug, SK::Text][off % 3])).data(bytes(4)).sym(&nm("s", 4), at));
        if off == 2 {
            m.name = nm("n", 1);
        }
    } else {
        m.def(Def::new("__custom", Kind::Sect([SK::Data, SK::Debug, SK::Text][off % 3])).data(bytes(4)).sym(&nm("s", 4), at));
    }
    m.import("imp", true);
    if auto {
        m.link(To::Def(0), To::Imp(0), at, R::Auto);
        m.link(To::Def(2), To::Def(0), at, R::Auto);
        m.link(To::Def(1), To::Imp(1), 1, R::Auto);
    }
    m
}

/// definitions that are alike in everything but their names
pub fn twins(t: Tgt, auto: bool) -> Model {
    let mut m = Model::new(t);
    let k = choose(NKIND);
    let (n, l) = [(2usize, 8usize), (5, 3), (3, 0), (4, 64)][choose(4) as usize];
    let v = if l == 8 { bytes(l) } else { (0..l).map(|i| i as u8 + 65).collect() };
    let o = bits(16);
    for i in 0..n {
        let mut d = kind_def(&idx_name(if sec_kind(k) { "__t" } else { "t" }, i), k, 0).scope(if sec_kind(k) { 0 } else { (l % 3) as u8 });
        if d.zero.is_some() {
            d.zero = Some(l as u64);
        } else {
            d.data = v.clone();
        }
        d.align = if l == 3 { Some(8) } else { None };
        if sec_kind(k) {
            d = d.sym(&idx_name("a", i), o).sym(&idx_name("b", i), o);
        }
        m.def(d);
    }
    m.def(Def::new("fun", Kind::Func).data(v.clone()).scope(GLOBAL));
    m.def(Def::new("dat", Kind::Data).data(v).scope(GLOBAL));
    m.import("imp", true);
    m.import("imp2", true);
    if auto {
        for i in 0..3 {
            // the same link more than once, and the same from and to each of the twins
            m.link(To::Def(n), To::Def(n + 1), 4, R::Auto);
            m.link(To::Def(n), To::Imp(i % 2), 4, R::Auto);
            m.link(To::Def(n + 1), To::Imp(i % 2), o, R::Auto);
        }
        for i in 0..n {
            if !sec_kind(k) {
                m.link(To::Def(n), To::Def(i), o, R::Auto);
                m.link(To::Def(n), To::Def(i), o, R::Auto);
                if m.defs[i].zero.is_none() || i == 1 {
                    m.link(To::Def(i), To::Def(n), o, R::Auto);
                    m.link(To::Def(i), To::Imp(0), 2, R::Auto);
                }
            } else if m.defs[i].sk() == Some(SK::Debug) {
                m.link(To::Def(i), To::Def(n), o, R::Debug(8, 0));
                m.link(To::Def(i), To::Imp(0), 4, R::Debug(4, 0));
            }
        }
    }
    m
}
