//! Convenience calls (C22), auxiliary ELF entries (C23), error texts (C24), totality (C25).
use super::api::*;
use crate::elfp;
use crate::machp;
use crate::model::*;
use crate::scen::*;
use crate::sym::*;
use faerie::*;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- C22

fn eqs(a: &str, b: &str) -> bool {
    same(a.as_bytes(), b.as_bytes())
}

/// the same outcome: success, or the same error about the same things
fn same_outcome<T, U>(a: &Result<T, ArtifactError>, b: &Result<U, ArtifactError>) -> bool {
    use ArtifactError::*;
    match (a, b) {
        (Ok(_), Ok(_)) => true,
        (Err(a), Err(b)) => match (a, b) {
            (Undeclared(x), Undeclared(y)) | (ImportDefined(x), ImportDefined(y)) | (RelocateImport(x), RelocateImport(y)) | (DuplicateDefinition(x), DuplicateDefinition(y)) => {
                eqs(x, y)
            }
            (IncompatibleDeclaration { old: a, new: b }, IncompatibleDeclaration { old: c, new: d }) => (a == c) & (b == d),
            (InvalidZeroInit(x), InvalidZeroInit(y)) => x == y,
            (NonSectionCustomSymbols(x, s), NonSectionCustomSymbols(y, t)) => (x == y) & (s == t),
            (UnsupportedBinaryFormat(x), UnsupportedBinaryFormat(y)) => x == y,
            (UndefinedSymbols(x), UndefinedSymbols(y)) => {
                x.len() == y.len() && {
                    let mut ok = true;
                    for i in 0..x.len() {
                        ok &= eqs(&x[i], &y[i]);
                    }
                    ok
                }
            }
            (Io(x), Io(y)) => x.kind() == y.kind(),
            _ => false,
        },
        _ => false,
    }
}

fn small_ds(k: u32) -> DS {
    let d = any_ds(k);
    if let Some(x) = d.al {
        assume(x <= 8);
    }
    d
}

const DIFF: &str = "a convenience call does not do what its expansion does";

fn calls(tier: u32) {
    let mut a = blank();
    let mut b = a.clone();
    let (p, l) = (any_name(6), any_name(3));
    let names = [&p[..], "q_a_name_longer_than_thirty_two_bytes_in_all", &l[..]];
    let kp = choose(6);
    let mut ops = kp;
    let fixed = |k: u32| DS { k, scope: (k % 3) as u8, vis: 0, w: k == 3, dt: 0, sk: 0, al: None };
    if kp < 5 {
        let d = fixed(kp);
        must(a.declare(names[0], d.decl()), "declare");
        must(b.declare(names[0], d.decl()), "declare");
        if kp > 1 && flag() {
            must(a.define(names[0], vec![1, 2]), "define");
            must(b.define(names[0], vec![1, 2]), "define");
        }
    }
    for x in [&mut a, &mut b] {
        must(x.declare(names[1], Decl::function().global()), "declare");
    }
    let steps = if tier == 0 { 2 } else { 3 };
    let mut sect = false;
    for s in 0..steps {
        let n = [0usize, 2, 1][choose(if s == 0 { 2 } else { 3 }) as usize];
        let what = choose(5);
        ops += n as u32 + what;
        match what {
            0 => {
                let k = if s == 0 { choose(5) } else { [2u32, 3, 0][n] };
                sect |= k == 4;
                let d = if s == 0 { small_ds(k) } else { fixed(k) };
                let v = bytes(3);
                let r = a.declare_with(names[n], d.decl(), v.clone());
                let q = match b.declare(names[n], d.decl()) {
                    Ok(()) => b.define(names[n], v),
                    e => e,
                };
                check(same_outcome(&r, &q), DIFF);
            }
            1 => {
                let k = if flag() { ImportKind::Function } else { ImportKind::Data };
                let r = a.import(names[n], k);
                let q = b.declare(names[n], Decl::Import(k));
                check(same_outcome(&r, &q), DIFF);
            }
            2 => {
                let v = bytes(2);
                let r = a.define(names[n], v.clone());
                let q = b.define_with_symbols(names[n], Data::Blob(v), BTreeMap::new());
                check(same_outcome(&r, &q), DIFF);
            }
            3 => {
                let z = bits(30) as usize;
                let r = a.define_zero_init(names[n], z);
                let q = b.define_with_symbols(names[n], Data::ZeroInit(z), BTreeMap::new());
                check(same_outcome(&r, &q), DIFF);
            }
            _ => {
                // (the writers do not support links to and from custom sections)
                assume(kp != 4 && !sect && s + 1 == steps);
                let (f, t) = match n {
                    0 => (names[0], names[1]),
                    1 => (names[1], names[0]),
                    _ => (names[1], names[2]),
                };
                let at = bits(30);
                let l = |x, y| Link { from: x, to: y, at };
                let r = a.link(l(f, t));
                let q = b.link_with(l(f, t), Reloc::Auto);
                check(same_outcome(&r, &q), DIFF);
            }
        }
        // the lists agree throughout
        check(same_lists(&a, &b), DIFF);
    }
    finish_and_compare(a, b, if tier == 0 { ops % 2 } else { 2 }, DIFF);
}

/// `declarations` declares its items in order and stops at the first that fails
fn sequence(tier: u32) {
    let mut a = blank();
    let mut b = a.clone();
    let n = if tier == 0 { 3 } else { 4 };
    let (x, y, z) = (any_name(7), any_name(4), any_name(1));
    let names = [&x[..], &y[..], &z[..]];
    let mut v: Vec<(&str, Decl)> = vec![];
    let mut kinds = 0;
    // the artifact is not always empty
    if flag() {
        for x in [&mut a, &mut b] {
            must(x.import(names[1], ImportKind::Function), "import");
            must(x.declare("there_already", Decl::data()), "declare");
            must(x.define("there_already", vec![4, 5]), "define");
        }
    }
    for i in 0..n {
        let nm = choose((i + 1).min(3)) as usize;
        let k = if i == 0 { choose(5) } else { choose(4) };
        kinds += k;
        let d = if i + 1 == n {
            small_ds(k)
        } else {
            DS { k, scope: 1, vis: 0, w: true, dt: 0, sk: 0, al: None }
        };
        v.push((names[nm], d.decl()));
    }
    let taken = std::cell::Cell::new(0usize);
    let r = a.declarations(v.clone().into_iter().inspect(|_| taken.set(taken.get() + 1)));
    let mut q = Ok(());
    let mut used = 0;
    for (nm, d) in v {
        used += 1;
        q = b.declare(nm, d);
        if q.is_err() {
            break;
        }
    }
    check(same_outcome(&r, &q), DIFF);
    check(same_lists(&a, &b), DIFF);
    if q.is_err() {
        check(taken.get() == used, "declarations goes on after a declaration that failed");
    }
    finish_and_compare(a, b, kinds % 2, DIFF);
}

/// a long list of declarations with the first failure anywhere, or nowhere
fn long_sequence() {
    let mut a = blank();
    let mut b = a.clone();
    let n = pick(&[17usize, 40]);
    let bad = choose(n as u32 + 1) as usize;
    let mut v: Vec<(String, Decl)> = vec![];
    for i in 0..n {
        let d: Decl = match i % 5 {
            0 => Decl::function().global().into(),
            1 => Decl::data().writable().into(),
            2 => Decl::function_import().into(),
            3 => Decl::section(SectionKind::Debug).into(),
            _ => Decl::cstring().weak().into(),
        };
        // now and then the same declaration again
        v.push((idx_name("n", if i % 10 == 9 { i - 5 } else { i }), d));
    }
    if bad > 0 && bad < n {
        v[bad] = (v[bad - 1].0.clone(), if bad % 2 == 0 { Decl::data_import().into() } else { Decl::function().with_align(Some(4)).into() });
    }
    // what is declared, imported, defined before
    if flag() {
        for x in [&mut a, &mut b] {
            must(x.declare("n2", Decl::function_import()), "declare");
            must(x.declare("n1", Decl::data().writable()), "declare");
            must(x.define("n1", vec![4, 5]), "define");
            must(x.import("other", ImportKind::Data), "import");
        }
    }
    // iterators that know how many items there are, how many at most, or nothing
    let mut taken = 0;
    let mut it = v.clone().into_iter();
    let r = match bad % 3 {
        0 => a.declarations(it.inspect(|_| taken += 1)),
        1 => a.declarations(it.filter(|_| {
            taken += 1;
            true
        })),
        _ => a.declarations(std::iter::from_fn(|| {
            taken += 1;
            it.next()
        })),
    };
    let mut q = Ok(());
    let mut used = 0;
    for (nm, d) in v {
        used += 1;
        q = b.declare(nm, d);
        if q.is_err() {
            break;
        }
    }
    check(same_outcome(&r, &q), DIFF);
    if q.is_err() {
        check(taken == used, "declarations goes on after a declaration that failed");
    }
    check(same_lists(&a, &b), DIFF);
    finish_and_compare(a, b, (bad % 2) as u32, DIFF);
}

/// the builder makes what `Artifact::new` makes
fn builder() {
    hash_stub(true);
    let fmt = pick(&[BinaryFormat::Elf, BinaryFormat::Macho, BinaryFormat::Coff]);
    let t = pick(&[X64, X86]);
    let mut tr = any_system(t.arch, "").target;
    tr.binary_format = fmt;
    let mut x = ArtifactBuilder::new(tr.clone());
    let mut want = String::from("faerie.o");
    let mut lib = false;
    for _ in 0..3 {
        match choose(3) {
            0 => {
                let n = name(choose(3) as usize);
                x = x.name(n.clone());
                want = n;
            }
            1 => {
                let l = bits(1) != 0;
                x = x.library(l);
                lib = l;
            }
            _ => {}
        }
    }
    let mut a = x.finish();
    let mut b = Artifact::new(tr.clone(), want.clone());
    check(eqs(&a.name, &want), "the builder does not give the artifact its name");
    check(a.is_library == lib, "the builder does not set the library flag");
    check(a.target == tr && b.target == tr, "the artifact's target is not the one given");
    check(!b.is_library, "a new artifact is a library");
    check(a.imports().count() == 0 && a.undefined_symbols().is_empty(), "a new artifact is not empty");
    check(b.imports().count() == 0 && b.undefined_symbols().is_empty(), "a new artifact is not empty");
    b.is_library = lib;
    for x in [&mut a, &mut b] {
        must(x.declare_with("f", Decl::function().global(), vec![1, 2, 3]), "declare_with");
    }
    finish_and_compare(a, b, 2, "the builder's artifact is not Artifact::new's");
    reach("builder");
}

/// emit and the contents type
/// contents of plain patterns, long ones too, through the convenience calls
fn patterns() {
    let n = pick(&[0usize, 7, 300, 1500, 5000, 66_000]);
    let k = pick(&[2u32, 3, 4]);
    let v: Vec<u8> = match choose(if n <= 300 { 4 } else { 3 }) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|i| if i + 1 == n { 0 } else { b'a' + (i % 26) as u8 }).collect(),
        _ => bytes(n),
    };
    let d = DS { k, scope: 1, vis: 0, w: choose(2) == 1, dt: (k == 3) as u8 * choose(2) as u8, sk: (n % 3) as u8, al: None };
    let mut a = blank();
    let mut b = a.clone();
    let it = any_name(5);
    let r = a.declare_with(&it, d.decl(), v.clone());
    let q = match b.declare(&it, d.decl()) {
        Ok(()) => b.define_with_symbols(&it, Data::Blob(v.clone()), BTreeMap::new()),
        e => e,
    };
    check(same_outcome(&r, &q), DIFF);
    for x in [&mut a, &mut b] {
        must(x.declare("other_one", d.decl()), "declare");
    }
    let r = a.define("other_one", v.clone());
    let q = b.define_with_symbols("other_one", Data::Blob(v), BTreeMap::new());
    check(same_outcome(&r, &q), DIFF);
    finish_and_compare(a, b, 2, DIFF);
}

fn values() {
    let mut a = blank();
    let own = a.target.binary_format;
    let n = choose(4) as usize;
    let v = bytes(n);
    let d: Data = v.clone().into();
    let z = u64v() as usize;
    let zero = Data::ZeroInit(z);
    match &d {
        Data::Blob(x) => check(same(x, &v), "converting bytes to contents changes them"),
        _ => fail("bytes convert to zero-initialised contents"),
    }
    check(d.file_size() == n && zero.file_size() == 0, "file_size is not the number of bytes in the file");
    check(d.is_empty() == (n == 0) && zero.is_empty() == (z == 0), "is_empty does not tell whether there are no bytes");
    check(!d.is_zero_init() && zero.is_zero_init(), "is_zero_init does not tell zero-initialised contents");
    if flag() {
        must(a.declare("f", Decl::data()), "declare");
        if flag() {
            must(a.define_with_symbols("f", v.clone(), BTreeMap::new()), "define");
        }
    }
    let (r, q) = (a.emit(), a.emit_as(own));
    check(same_outcome(&r, &q), "emit does not do what emit_as does for the artifact's own format");
    if let (Ok(x), Ok(y)) = (&r, &q) {
        observe(x);
        check(x.len() == y.len() && same(x, y), "emit does not do what emit_as does for the artifact's own format");
    }
    reach("values");
}

pub fn c22(tier: u32) {
    match choose(6) {
        5 => long_sequence(),
        4 => patterns(),
        0 => calls(tier),
        1 => sequence(tier),
        2 => builder(),
        _ => values(),
    }
}

// ---------------------------------------------------------------- C23

/// the entries of an ELF object that stand for no definition or import
pub fn c23(tier: u32) {
    let mut m = match choose(9) {
        8 => {
            // extended numbering, and numbers of symbols of either parity
            let (w, n, t) = pick(&[(0xff00usize + 14, 2usize, X64), (0xff00 + 15, 2, X64), (0xff00 + 15, 3, X64), (0xff00 + 13, 2, S390)]);
            return super::misc::large_elf(w, n, t);
        }
        6 => flood(X64),
        7 => opaque_upto(X64, true, 26),
        4 => huge(X64, true),
        5 => noisy(X64, true),
        0 => super::objs::elf_mix(tier),
        1 => super::objs::links(tier, true),
        2 => rich(X64, true),
        _ => {
            let mut m = Model::new(pick(&[X64, X86, S390, PPC]));
            hash_stub(true);
            m.name = if flag() { name(1 + choose(6) as usize) } else { uname(&[2, 1, 3]) };
            m.def(Def::new("f", Kind::Func).data(bytes(4)));
            m.def(Def::new("a longer name than that of the artifact", Kind::Data).data(bytes(1)));
            reach("symbolic artifact name");
            m
        }
    };
    if m.name == "test.o" && flag() {
        m.name = long_name(7, 77);
    }
    let a = m.build(BinaryFormat::Elf);
    let b = emit(&a, BinaryFormat::Elf);
    elfp::check_aux(&b, &m);
}

// ---------------------------------------------------------------- C24

fn tells(e: &ArtifactError, pre: &str, what: &str) {
    use std::fmt::Write;
    let mut s = String::new();
    check(write!(s, "{}", e).is_ok(), "an error cannot be displayed");
    observe(s.as_bytes());
    let mut want = String::from(pre);
    want.push_str(what);
    check(eqs(&s, &want), "an error's text does not name what it is about");
}
fn has(t: &[u8], w: &[u8]) -> bool {
    let mut any = false;
    let mut i = 0;
    while i + w.len() <= t.len() {
        any |= same(&t[i..i + w.len()], w);
        i += 1;
    }
    any
}

/// up to forty undefined names, with others that are not
fn undefined_list() {
    let n = 1 + choose(40) as usize;
    let mut a = blank();
    let mut want = vec![];
    for i in 0..n {
        let x = if i % 6 == 5 { long_name(i, 30 + i) } else { idx_name(["u_", "undefined", "x"][i % 3], 10 + i) };
        must(a.declare(&x, Decl::data()), "declare");
        want.push(x);
        let y = idx_name("other", 10 + i);
        match i % 3 {
            0 => must(a.import(&y, ImportKind::Data), "import"),
            1 => must(a.declare_with(&y, Decl::function(), vec![1]), "declare"),
            _ => {}
        }
    }
    let e = match a.emit() {
        Err(e) => e,
        Ok(_) => fail("an incomplete artifact was emitted"),
    };
    let t = e.to_string();
    for x in &want {
        check(t.contains(&x[..]), "an error's text does not name what it is about");
    }
    check(!t.contains("other"), "an error's text names what it is not about");
}

pub fn c24(tier: u32) {
    hash_stub(true);
    if choose(2) == 1 {
        return undefined_list();
    }
    let len = if tier == 0 { [1usize, 4][choose(2) as usize] } else { choose(9) as usize };
    let x = match choose(3) {
        0 => name(len),
        1 => uname(&[2, 3][..1 + choose(2) as usize]),
        _ => {
            // long names with a few free characters at the ends
            let mut s = long_name(1, pick(&[60usize, 130, 260, 1100, 66_000]));
            s.insert_str(0, &name(1));
            s.push_str(&name(1));
            s
        }
    };
    let other = "the_other_symbol";
    assume(!eqs(&x, other));
    let mut a = blank();
    must(a.declare_with(other, Decl::function(), vec![1]), "declare");
    let e = match choose(8) {
        0 => a.define(&x, vec![1]),
        1 => a.link(Link { from: &x, to: other, at: 0 }),
        2 => a.link(Link { from: other, to: &x, at: 0 }),
        3 => {
            must(a.import(&x, ImportKind::Function), "import");
            match a.define(&x, vec![1]) {
                Err(e) => return tells(&e, "Attempt to define an undefined import: ", &x),
                Ok(_) => fail("defining an import succeeded"),
            }
        }
        4 => {
            must(a.import(&x, ImportKind::Data), "import");
            match a.link(Link { from: &x, to: other, at: 0 }) {
                Err(e) => return tells(&e, "Attempt to add a relocation to an import: ", &x),
                Ok(_) => fail("a link out of an import succeeded"),
            }
        }
        5 => {
            must(a.declare_with(&x, Decl::data(), vec![1]), "declare");
            match a.define(&x, vec![1]) {
                Err(e) => return tells(&e, "Duplicate definition of symbol: ", &x),
                Ok(_) => fail("a duplicate definition succeeded"),
            }
        }
        6 => {
            // letters and digits only: others are escaped in the list
            let v = x.as_bytes();
            let mut plain = true;
            for c in v {
                plain &= ((*c >= b'a') & (*c <= b'z')) | ((*c >= b'0') & (*c <= b'9'));
            }
            assume(plain);
            must(a.declare(&x, Decl::data()), "declare");
            must(a.declare("second", Decl::data()), "declare");
            let e = match a.emit() {
                Err(e) => e,
                Ok(_) => fail("an incomplete artifact was emitted"),
            };
            let t = e.to_string();
            observe(t.as_bytes());
            check(has(t.as_bytes(), v) && has(t.as_bytes(), b"second"), "an error's text does not name what it is about");
            check(!has(t.as_bytes(), other.as_bytes()) , "an error's text names what it is not about");
            return;
        }
        _ => {
            let f = pick(&[BinaryFormat::Coff, BinaryFormat::Wasm, BinaryFormat::Unknown]);
            match a.emit_as(f) {
                Err(e) => {
                    let n = match f {
                        BinaryFormat::Coff => "coff",
                        BinaryFormat::Wasm => "wasm",
                        _ => "unknown",
                    };
                    let t = e.to_string();
                    check(has(t.as_bytes(), n.as_bytes()), "an error's text does not name what it is about");
                    return;
                }
                Ok(_) => fail("an unsupported format was emitted"),
            }
        }
    };
    match e {
        Err(e) => tells(&e, "Undeclared symbolic reference to: ", &x),
        Ok(_) => fail("an undeclared name was accepted"),
    }
}

// ---------------------------------------------------------------- C25

/// Emission in either format ends without panicking or overflowing, whatever the (supported) inputs
pub fn c25(tier: u32) {
    let t = pick(&[X64, X86, S390, A64]);
    let fmt = if flag() { BinaryFormat::Elf } else { BinaryFormat::Macho };
    let is_elf = fmt == BinaryFormat::Elf;
    assume(is_elf || t.arch != S390.arch);
    let mut m = Model::new(t);
    match choose(16) {
        15 => {
            // names of any characters, NUL too
            hash_stub(true);
            let role = choose(6) as usize;
            let len = 1 + choose(3) as usize;
            let v = bytes(len);
            let mut ok = true;
            for c in &v {
                ok &= *c < 128;
            }
            assume(ok);
            let any = String::from_utf8(v).unwrap_or_default();
            let nm = |i: usize, d: &str| if i == role { any.clone() } else { d.to_string() };
            m.name = nm(0, "test.o");
            m.def(Def::new(&nm(1, "a_function"), Kind::Func).data(bytes(3)).scope(GLOBAL));
            m.def(Def::new(&nm(2, "some_data"), Kind::Data).data(bytes(2)).writable(true));
            m.def(Def::new(&nm(3, "__sect"), Kind::Sect(SK::Debug)).data(bytes(3)).sym(&nm(4, "a_symbol"), 1));
            m.import(&nm(5, "an_import"), true);
            if t.c64 && !t.be {
                m.link(To::Def(0), To::Def(1), 1, R::Auto);
                m.link(To::Def(1), To::Imp(0), 1, R::Auto);
            }
        }
        14 => {
            // section names around the 16 bytes that Mach-O has for them, in any characters
            hash_stub(true);
            let k = 8 + choose(10) as usize;
            let mut s = long_name(3, k);
            s.push_str(&uname(pick(&[&[2u8][..], &[3, 1], &[4, 2], &[2, 2, 2]])));
            if flag() {
                s.insert_str(0, ".debug_");
            }
            m.def(Def::new(&s, Kind::Sect(pick(&[SK::Debug, SK::Data]))).data(bytes(3)).sym(&s, 1));
            m.def(Def::new("f", Kind::Func).data(bytes(3)));
        }
        12 => m = sweep(t, t.c64 && !t.be, is_elf),
        13 => m = twins(t, t.c64 && !t.be),
        9 => m = flood(X64),
        10 => m = bulk(t),
        11 => m = opaque_upto(t, t.c64 && !t.be, 26),
        5 => {
            // long names, one of each role
            let n = pick(&[127usize, 128, 254, 255, 256, 257, 511, 1024, 65_535, 65_536, 70_000]);
            m.name = long_name(1, if flag() { n } else { 3 });
            m.def(Def::new(&long_name(2, n), Kind::Func).data(bytes(3)).scope(GLOBAL));
            m.def(Def::new(&long_name(3, n), Kind::Data).zero(7).writable(true));
            m.def(Def::new(&long_name(4, if is_elf { n } else { 16 }), Kind::Sect(SK::Debug)).data(bytes(3)).sym(&long_name(5, n), 1));
            m.import(&long_name(6, n), true);
            if t.c64 && !t.be {
                let at = bits(20);
                m.link(To::Def(0), To::Imp(0), at, R::Auto);
                m.link(To::Def(0), To::Def(1), at, R::Auto);
            }
        }
        6 => m = big(t),
        7 => m = huge(t, t.c64 && !t.be),
        8 => {
            m = noisy(t, t.c64 && !t.be);
        }
        0 => {
            // anything about one definition, with the extreme values the other properties leave out
            let k = choose(NKIND);
            let len = pick(&[0usize, 1, 7]);
            let n = if sec_kind(k) { "__s" } else { "f" };
            let mut d = sym_attrs(kind_def(n, k, len));
            if d.zero.is_some() {
                let z = u64v();
                assume(z < 1 << 62);
                d.zero = Some(z);
            }
            d.align = sym_align(64);
            if sec_kind(k) {
                // (addresses are 64 bits wide: a Mach-O symbol further away has none)
                let o = if is_elf { u64v() } else { bits(62) };
                d = d.sym("s", o);
            }
            m.def(d);
        }
        1 => {
            hash_stub(true);
            m.name = name(choose(3) as usize)
        }
        2 => {
            m = super::objs::link_model(t, 1);
            let at = u64v();
            let (f, to) = (choose(2) * 5, choose(2) * 10);
            let to = if to < 10 { To::Def(to as usize) } else { To::Imp(0) };
            let r = match choose(3) {
                0 => R::Auto,
                1 => R::Raw(bits(8) as u32, 0),
                _ => R::Debug(pick(&[4, 8]), u32v() as i32),
            };
            m.link(To::Def(f as usize), to, at, r);
        }
        3 => m = rich(t, t.c64 && !t.be),
        _ => {
            m = zeros_of(t, tier);
        }
    }
    let a = m.build(fmt);
    match a.emit_as(fmt) {
        Ok(b) => {
            observe(&b);
            check(b.len() > 28, "the emitted object is empty");
        }
        Err(_) => reach("refused"),
    }
}

fn zeros_of(t: Tgt, _tier: u32) -> Model {
    let mut m = Model::new(t);
    for (i, n) in ["z0", "z1", "z2"].iter().enumerate() {
        let z = bits(61);
        m.def(Def::new(n, Kind::Data).zero(z).scope(i as u8).align(Some(1 << (4 * i))));
    }
    m
}

// ---------------------------------------------------------------- C26

/// What the format cannot hold is refused; what is emitted holds exactly what was asked for.
pub fn c26(tier: u32) {
    let is_elf = flag();
    let t = if is_elf { pick(&[X64, X86, PPC, S390]) } else { pick(&[X64, X86, A64]) };
    let mut m = Model::new(t);
    // does everything fit, with room to spare?
    let mut fits = true;
    let wide = is_elf && t.c64;
    let mut within = |v: u64, bits: u32| fits &= wide | (v < 1u64 << bits);
    let which = choose(6);
    let class = if t.c64 { 62 } else if is_elf { 32 } else { 31 };
    match which {
        0 => {
            // a size
            let z = u64v();
            within(z, class);
            m.def(Def::new("fun", Kind::Func).data(bytes(5)).scope(GLOBAL));
            m.def(Def::new("zer", Kind::Data).writable(true).zero(z).scope(choose(3) as u8));
            if flag() {
                let y = u64v();
                within(y, class - if is_elf { 0 } else { 1 });
                if !is_elf {
                    within(z, class - 1);
                }
                m.def(Def::new("zer2", Kind::Data).writable(true).zero(y).align(Some(64)));
            }
        }
        1 => {
            // an alignment
            let k = choose(64);
            within(1u64 << k, class - if is_elf { 0 } else { 3 });
            m.def(Def::new("fun", Kind::Func).data(bytes(3)));
            m.def(kind_def("dat", pick(&[2u32, 4]), 4).align(Some(1u64 << k)));
        }
        2 => {
            // a custom symbol's offset
            let o = u64v();
            within(o, class);
            m.def(Def::new("__sect", Kind::Sect(pick(&[SK::Data, SK::Debug, SK::Text]))).data(bytes(9)).sym("inside", 3).sym("symbol", o));
            m.def(Def::new("d", Kind::Data).data(bytes(3)));
        }
        3 => {
            // a link's offset
            let (a, b) = (u64v(), u64v());
            within(a, if is_elf { 32 } else { 30 });
            within(b, if is_elf { 32 } else { 30 });
            m.def(Def::new("fun", Kind::Func).data(bytes(5)));
            m.def(Def::new("fun2", Kind::Func).data(bytes(40)).align(Some(32)));
            m.def(Def::new("dat", Kind::Data).data(bytes(8)));
            let ty = bits(4) as u32;
            m.link(To::Def(1), To::Def(2), a, R::Raw(ty, 0));
            m.link(To::Def(0), To::Def(1), b, R::Raw(1, 0));
        }
        4 => {
            // a raw relocation's type
            let ty = u32v();
            within(ty as u64, if is_elf { 8 } else { 4 });
            m.def(Def::new("fun", Kind::Func).data(bytes(5)));
            m.def(Def::new("dat", Kind::Data).data(bytes(8)));
            let at = bits(16);
            m.link(To::Def(0), To::Def(1), at, R::Raw(ty, 0));
        }
        _ => {
            // a section's name
            let n = choose(if tier == 0 { 20 } else { 40 }) as usize;
            let mut s = name(1 + n);
            let n = if flag() {
                // the last character takes more than a byte
                let c = uname(pick(&[&[2u8][..], &[3], &[4]]));
                s.push_str(&c);
                n + c.len()
            } else {
                n
            };
            assume(!s.starts_with(".debug") && !eqs(&s, "f"));
            within(n as u64, 4);
            if flag() {
                s.insert_str(0, ".debug");
                within(n as u64 + 8, 4);
            }
            hash_stub(true);
            m.def(Def::new(&s, Kind::Sect(SK::Debug)).data(bytes(4)));
            m.def(Def::new("f", Kind::Func).data(bytes(4)));
        }
    }
    // (links judged on other architectures than x86-64 are raw ones)
    let fmt = if is_elf { BinaryFormat::Elf } else { BinaryFormat::Macho };
    let a = m.build(fmt);
    match a.emit_as(fmt) {
        Ok(b) => {
            reach("emitted");
            if is_elf {
                let co = if which == 5 { elfp::COINCIDE } else { 0 };
                elfp::check_elf(&b, &m, elfp::STRUCT | elfp::CONTENT | elfp::SYMS | elfp::CUSTOM | elfp::RELOCS | elfp::ZERO | co)
            } else {
                let co = if which == 5 { machp::COINCIDE } else { 0 };
                machp::check_mach(&b, &m, machp::STRUCT | machp::CONTENT | machp::SYMS | machp::CUSTOM | machp::RELOCS | machp::ZERO | co)
            }
        }
        Err(ArtifactError::Goblin(_)) | Err(ArtifactError::Io(_)) => {
            reach("refused");
            check(!fits, "emission refuses values that the format can hold");
        }
        Err(_) => fail("values that do not fit the format are not reported as an I/O or format error"),
    }
}
