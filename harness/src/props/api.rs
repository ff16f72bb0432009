//! Properties of the artifact API: declarations, definitions, links, gating of emission.
use crate::elfp::{self, check_elf};
use crate::machp::{self, check_mach};
use crate::model::*;
use crate::scen::*;
use crate::sym::*;
use faerie::artifact::DefinedDecl;
use faerie::*;
use std::collections::BTreeMap;

/// A declaration with symbolic attributes
#[derive(Clone)]
pub struct DS {
    /// 0 function import, 1 data import, 2 function, 3 data, 4 section
    pub k: u32,
    pub scope: u8,
    pub vis: u8,
    pub w: bool,
    pub dt: u8,
    pub sk: u8,
    pub al: Option<u64>,
}

pub fn dt_of(x: u8) -> DataType {
    match x {
        0 => DataType::Bytes,
        _ => DataType::String,
    }
}
pub fn sk_n(x: u8) -> SectionKind {
    match x {
        0 => SectionKind::Data,
        1 => SectionKind::Debug,
        _ => SectionKind::Text,
    }
}

pub fn any_ds(k: u32) -> DS {
    let mut d = DS { k, scope: 0, vis: 0, w: false, dt: 0, sk: 0, al: None };
    if k == 2 || k == 3 {
        d.scope = below(3) as u8;
        let v = below(4) as u8;
        assume(v != 1);
        d.vis = v;
    }
    if k == 3 {
        d.w = bits(1) != 0;
    }
    if k >= 3 {
        d.dt = bits(1) as u8;
    }
    if k == 4 {
        d.sk = below(3) as u8;
    }
    if k >= 2 {
        let s = below(64);
        d.al = if bits(1) != 0 { Some(1u64 << s) } else { None };
    }
    d
}

impl DS {
    pub fn decl(&self) -> Decl {
        match self.k {
            0 => Decl::function_import().into(),
            1 => Decl::data_import().into(),
            2 => Decl::function().with_scope(scope_of(self.scope)).with_visibility(vis_of(self.vis)).with_align(self.al).into(),
            3 => Decl::data()
                .with_scope(scope_of(self.scope))
                .with_visibility(vis_of(self.vis))
                .with_writable(self.w)
                .with_datatype(dt_of(self.dt))
                .with_align(self.al)
                .into(),
            _ => Decl::section(sk_n(self.sk)).with_datatype(dt_of(self.dt)).with_align(self.al).into(),
        }
    }
    pub fn same(&self, o: &DS) -> bool {
        if self.k != o.k {
            return false;
        }
        let al = match (self.al, o.al) {
            (Some(a), Some(b)) => a == b,
            (None, None) => true,
            _ => false,
        };
        (self.scope == o.scope) & (self.vis == o.vis) & (self.w == o.w) & (self.dt == o.dt) & (self.sk == o.sk) & al
    }
    pub fn import(&self) -> bool {
        self.k < 2
    }
    /// does `d` have exactly these attributes?
    pub fn is(&self, d: &Decl) -> bool {
        let al = |a: Option<u64>| match (a, self.al) {
            (Some(a), Some(b)) => a == b,
            (None, None) => true,
            _ => false,
        };
        match d {
            Decl::Import(ImportKind::Function) => self.k == 0,
            Decl::Import(ImportKind::Data) => self.k == 1,
            Decl::Defined(DefinedDecl::Function(f)) => {
                self.k == 2
                    && (f.get_scope() == scope_of(self.scope)) & (f.get_visibility() == vis_of(self.vis)) & al(f.get_align())
            }
            Decl::Defined(DefinedDecl::Data(f)) => {
                self.k == 3
                    && (f.get_scope() == scope_of(self.scope))
                        & (f.get_visibility() == vis_of(self.vis))
                        & (f.is_writable() == self.w)
                        & (f.get_datatype() == dt_of(self.dt))
                        & al(f.get_align())
            }
            Decl::Defined(DefinedDecl::Section(f)) => {
                self.k == 4 && (f.kind() == sk_n(self.sk)) & (f.get_datatype() == dt_of(self.dt)) & al(f.get_align())
            }
        }
    }
}

/// an empty artifact for x86-64 with any format, system and library flag of its own
pub fn blank() -> Artifact {
    any_system(Architecture::X86_64, "t.o")
}
/// a name of `k` symbolic characters; the other names around it have other lengths
pub fn any_name(k: usize) -> String {
    hash_stub(true);
    name(k)
}

/// what the documented rules make of declaring `new` over `cur`
enum Eff {
    Set,
    Noop,
    Bad,
}
fn rule(cur: &Option<DS>, new: &DS) -> Eff {
    match cur {
        None => Eff::Set,
        Some(c) => match (c.k, new.k) {
            (0, 0) | (1, 1) => Eff::Noop,
            (0, 2) | (1, 3) => Eff::Set,
            (2, 0) | (3, 1) => Eff::Noop,
            (a, b) if a == b => {
                if c.same(new) {
                    Eff::Noop
                } else {
                    Eff::Bad
                }
            }
            _ => Eff::Bad,
        },
    }
}

/// same imports (in order) and same undefined symbols
pub fn same_lists(a: &Artifact, b: &Artifact) -> bool {
    let x: Vec<(&str, &ImportKind)> = a.imports().collect();
    let y: Vec<(&str, &ImportKind)> = b.imports().collect();
    if x.len() != y.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..x.len() {
        ok &= same(x[i].0.as_bytes(), y[i].0.as_bytes()) && *x[i].1 == *y[i].1;
    }
    let u = a.undefined_symbols();
    let v = b.undefined_symbols();
    if u.len() != v.len() {
        return false;
    }
    for i in 0..u.len() {
        ok &= same(u[i].as_bytes(), v[i].as_bytes());
    }
    ok
}

/// `which`: 0 ELF, 1 Mach-O, 2 both
pub fn finish_and_compare(mut a: Artifact, mut b: Artifact, which: u32, m: &str) {
    for n in a.undefined_symbols() {
        let d = vec![1u8, 2, 3];
        must(a.define(&n, d.clone()), "a definition was rejected");
        must(b.define(&n, d), "a definition was rejected");
    }
    check(b.undefined_symbols().is_empty(), m);
    for (i, f) in [BinaryFormat::Elf, BinaryFormat::Macho].iter().enumerate() {
        if which < 2 && which != i as u32 {
            continue;
        }
        let x = emit(&a, *f);
        let y = emit(&b, *f);
        observe(&x);
        check(x.len() == y.len(), m);
        check(same(&x, &y), m);
    }
}

// ---------------------------------------------------------------- C01

pub fn c01(tier: u32) {
    match choose(4) {
        0 => c01_one(tier),
        1 => c01_two(tier),
        2 => c01_absorb(),
        _ => c01_long(tier),
    }
}

/// the rule itself, on two declarations with symbolic attributes
fn c01_absorb() {
    let (k, l) = (choose(5), choose(5));
    let (c, n) = (any_ds(k), any_ds(l));
    let mut d = c.decl();
    let r = d.absorb(n.decl());
    let eff = rule(&Some(c.clone()), &n);
    match (eff, r) {
        (Eff::Set, Ok(())) => check(n.is(&d), "an upgrade of an import does not become the new declaration"),
        (Eff::Noop, Ok(())) => check(c.is(&d), "a redundant redeclaration changes the declaration"),
        (Eff::Bad, Err(ArtifactError::IncompatibleDeclaration { old, new })) => {
            check(c.is(&old), "the incompatible-declaration error does not carry the current declaration");
            check(n.is(&new), "the incompatible-declaration error does not carry the offered declaration");
            check(c.is(&d), "a rejected redeclaration changes the declaration");
        }
        _ => fail("a declaration is absorbed against the rules"),
    }
}

/// one name redeclared two dozen times among none to hundreds of others, whose attributes vary
fn c01_long(tier: u32) {
    let mut a = blank();
    let mut b = a.clone();
    let (n, p, at) = if flag() {
        (pick(if tier == 0 { &[130usize, 300, 530, 1100][..] } else { &[130, 260, 400, 530, 1100, 2100][..] }), choose(3) as usize * 2, 1)
    } else {
        (choose(50) as usize, choose(6) as usize, choose(4) as usize)
    };
    for i in 0..n {
        for x in [&mut a, &mut b] {
            if i % 5 == 2 {
                must(x.import(idx_name("imp", i), ImportKind::Data), "import");
            } else {
                must(x.declare(idx_name("by", i), Decl::data().global()), "declare");
                if i % 3 == 1 {
                    must(x.define(idx_name("by", i), vec![i as u8]), "define");
                }
            }
        }
    }
    let nm = ["it", "a_name_that_is_longer_than_thirty_two_bytes", "", "by"][at];
    let mut cur = None;
    for s in 0..24usize {
        let k = [[0u32, 0, 2, 2, 0, 2], [1, 3, 3, 1, 4, 3], [2, 2, 0, 3, 2, 0], [3, 1, 3, 3, 2, 1], [4, 4, 4, 0, 4, 3], [0, 1, 2, 3, 2, 0]][p][(s * (1 + s / 6)) % 6];
        let v = if s < 12 { 0 } else { s };
        let d = DS {
            k,
            scope: if k == 2 || k == 3 { (v % 3) as u8 } else { 0 },
            vis: if k == 2 || k == 3 { [0, 2, 3][(v / 3) % 3] } else { 0 },
            w: k == 3 && v % 5 == 4,
            dt: if k >= 3 { (v % 7 == 5) as u8 } else { 0 },
            sk: if k == 4 { (v % 4 / 2) as u8 } else { 0 },
            al: if k >= 2 && v % 6 == 5 { Some(8) } else { None },
        };
        declare_step(&mut a, &mut b, nm, &mut cur, d);
        // a definition in the middle changes nothing about that
        if s == 15 && !cur.as_ref().unwrap().import() {
            must(a.define(nm, vec![1, 2, 3]), "define");
            must(b.define(nm, vec![1, 2, 3]), "define");
        }
    }
    // (Mach-O section names are short)
    let which = if cur.unwrap().k == 4 && nm.len() > 16 { 0 } else { (n % 2) as u32 };
    finish_and_compare(a, b, which, "a rejected or redundant redeclaration changed the emitted bytes");
}

fn declare_step(a: &mut Artifact, b: &mut Artifact, name: &str, cur: &mut Option<DS>, new: DS) {
    let eff = rule(cur, &new);
    let r = a.declare(name, new.decl());
    match eff {
        Eff::Bad => match r {
            Err(ArtifactError::IncompatibleDeclaration { old, new: n }) => {
                check(cur.as_ref().unwrap().is(&old), "the incompatible-declaration error does not carry the current declaration");
                check(new.is(&n), "the incompatible-declaration error does not carry the offered declaration");
            }
            Err(_) => fail("an incompatible redeclaration failed with another error"),
            Ok(()) => fail("an incompatible redeclaration was accepted"),
        },
        Eff::Set => {
            check(r.is_ok(), "a compatible declaration was rejected");
            must(b.declare(name, new.decl()), "a compatible declaration was rejected");
            *cur = Some(new);
        }
        Eff::Noop => check(r.is_ok(), "a redundant redeclaration was rejected"),
    }
    check(same_lists(a, b), "a rejected or redundant redeclaration changed the import or undefined list");
}

/// one name under test among two bystanders; every kind, symbolic attributes
fn c01_one(tier: u32) {
    let mut a = blank();
    let mut b = a.clone();
    let by = choose(2);
    let it = any_name([3, 8][by as usize]);
    for x in [&mut a, &mut b] {
        must(x.declare("first", Decl::function().global()), "declare");
        if by == 1 {
            must(x.import("some_import", ImportKind::Data), "import");
        }
    }
    let steps = if tier == 0 { 3 } else { 4 };
    let mut cur = None;
    let mut which = by;
    for _ in 0..steps {
        let k = choose(5);
        which += k;
        let d = any_ds(k);
        declare_step(&mut a, &mut b, &it, &mut cur, d);
    }
    // the alignment is bounded from here on so that the Mach-O padding stays small
    if let Some(DS { al: Some(x), .. }) = &cur {
        assume(*x <= 8);
    }
    // in the quick tier each history is emitted in one of the formats
    finish_and_compare(a, b, if tier == 0 { which % 2 } else { 2 }, "a rejected or redundant redeclaration changed the emitted bytes");
}

/// two names with definitions and imports in between; fixed attributes
fn c01_two(tier: u32) {
    let mut a = blank();
    let mut b = a.clone();
    let x = any_name(4);
    let names = [&x[..], "y_with_a_name_longer_than_thirty_two_bytes"];
    let mut cur: [Option<DS>; 2] = [None, None];
    let mut defd = [false, false];
    let mut ops = 0;
    let steps = if tier == 0 { 4 } else { 5 };
    let base = DS { k: 0, scope: 0, vis: 0, w: false, dt: 0, sk: 0, al: None };
    for s in 0..steps {
        let n = if s == 0 { 0 } else { choose(2) as usize };
        let op = choose(6);
        ops += op + n as u32;
        let d = match op {
            0 => DS { k: 0, ..base.clone() },
            1 => DS { k: 1, ..base.clone() },
            2 => DS { k: 2, scope: GLOBAL, ..base.clone() },
            3 => DS { k: 3, w: true, ..base.clone() },
            4 => DS { k: 2, vis: 2, al: Some(16), ..base.clone() },
            _ => {
                // define it, if that is possible
                match &cur[n] {
                    Some(c) if !c.import() && !defd[n] => {
                        must(a.define(names[n], vec![n as u8, 7]), "a definition was rejected");
                        must(b.define(names[n], vec![n as u8, 7]), "a definition was rejected");
                        defd[n] = true;
                    }
                    // or else let it refer to something
                    Some(c) if !c.import() && cur[1 - n].is_some() => {
                        for x in [&mut a, &mut b] {
                            must(x.link(Link { from: names[n], to: names[1 - n], at: 1 }), "a link between declared symbols with a local source was rejected");
                        }
                    }
                    _ => assume(false),
                }
                continue;
            }
        };
        declare_step(&mut a, &mut b, names[n], &mut cur[n], d);
    }
    finish_and_compare(a, b, if tier == 0 { ops % 2 } else { 2 }, "a rejected or redundant redeclaration changed the emitted bytes");
}

// ---------------------------------------------------------------- C02

/// the documented content of the lists, kept independently
struct Lists {
    /// (name, kind: None undeclared; 0/1 import function/data; 2.. definition, defined)
    st: Vec<(String, u32, bool)>,
}
impl Lists {
    fn judge(&self, a: &Artifact) {
        let imps: Vec<(&str, &ImportKind)> = a.imports().collect();
        let mut want = 0;
        for (n, k, _) in &self.st {
            let c = imps.iter().filter(|x| x.0 == n).count();
            if *k < 2 {
                want += 1;
                check(c == 1, "an import is not listed exactly once");
                for x in &imps {
                    if x.0 == n {
                        let kk = if *k == 0 { ImportKind::Function } else { ImportKind::Data };
                        check(*x.1 == kk, "an import is listed with the wrong kind");
                    }
                }
            } else {
                check(c == 0, "something that is not an import is listed as one");
            }
        }
        check(imps.len() == want, "the import list holds an unknown name");
        let u = a.undefined_symbols();
        let w: Vec<&String> = self.st.iter().filter(|x| x.1 >= 2 && !x.2).map(|x| &x.0).collect();
        check(u.len() == w.len(), "the undefined list does not hold exactly the undefined names");
        for i in 0..u.len() {
            check(&u[i] == w[i], "the undefined list is not in order of first declaration");
        }
    }
}

/// declarations of every kind with symbolic attributes and fitting or unfitting definitions of
/// symbolic names: which of the names are equal is for the solver to split
fn c02_names(tier: u32) {
    hash_stub(true);
    let mut a = blank();
    let mut st: Vec<(String, DS, bool)> = vec![];
    for _ in 0..(if tier == 0 { 3 } else { 4 }) {
        let n = name(1);
        let mut cur = None;
        for i in 0..st.len() {
            if same(st[i].0.as_bytes(), n.as_bytes()) {
                cur = Some(i);
            }
        }
        let op = choose(8);
        if op < 5 {
            let d = any_ds(op);
            let eff = rule(&cur.map(|i: usize| st[i].1.clone()), &d);
            let r = a.declare(&n, d.decl());
            match eff {
                Eff::Bad => check(r.is_err(), "an incompatible redeclaration was accepted"),
                _ => check(r.is_ok(), "a compatible declaration was rejected"),
            }
            if let Eff::Set = eff {
                match cur {
                    Some(i) => st[i].1 = d,
                    None => st.push((n, d, false)),
                }
            }
        } else {
            let r = match op {
                5 => a.define(&n, bytes(2)),
                6 => a.define_zero_init(&n, below(1 << 30) as usize),
                _ => {
                    let mut s = BTreeMap::new();
                    s.insert("cs".to_string(), bits(40));
                    a.define_with_symbols(&n, bytes(2), s)
                }
            };
            let want = match cur {
                Some(i) => {
                    let k = st[i].1.k;
                    !st[i].2 && k >= 2 && (op != 6 || k == 3) && (op != 7 || k == 4)
                }
                None => false,
            };
            check(r.is_ok() == want, "a definition was accepted or rejected against the rules");
            if want {
                st[cur.unwrap()].2 = true;
            }
        }
        let l = Lists { st: st.iter().map(|x| (x.0.clone(), x.1.k, x.2)).collect() };
        l.judge(&a);
    }
    reach("names");
}

pub fn c02(tier: u32) {
    match choose(5) {
        4 => c02_long(if tier == 0 { pick(&[130, 270]) } else { pick(&[260, 520, 1030]) }),
        3 => c02_names(tier),
        0 => {
            // every history over up to three names
            let names = ["n0", "n1_longer_than_thirty_two_bytes_in_all_", "n2", "n3"];
            let mut a = blank();
            let mut l = Lists { st: vec![] };
            let linked = flag();
            let steps = if tier == 0 { 4 } else { 5 };
            let mut usedn = 0;
            for _ in 0..steps {
                let n = choose((usedn + 1).min(3)) as usize;
                let op = choose(5);
                c02_op(&mut a, &mut l, names[n], op);
                usedn = usedn.max(n as u32 + 1);
                if linked {
                    c02_links(&mut a, &l);
                }
                l.judge(&a);
            }
        }
        1 => {
            // several imports, upgraded in any order, with fresh ones in between
            let n = if tier == 0 { 4 } else { 5 };
            let mut a = blank();
            let mut l = Lists { st: vec![] };
            for i in 0..n {
                c02_op(&mut a, &mut l, &idx_name("imp", i), (i % 2) as u32);
            }
            for s in 0..n {
                let i = choose(n as u32) as usize;
                // upgrade (possibly again), or define
                c02_op(&mut a, &mut l, &idx_name("imp", i), 2 + (i % 2) as u32);
                if s == 1 {
                    c02_op(&mut a, &mut l, "late", 0);
                }
                if i % 2 == 0 {
                    c02_links(&mut a, &l);
                }
                l.judge(&a);
            }
            for i in 0..n {
                c02_op(&mut a, &mut l, &idx_name("imp", i), 4);
                c02_op(&mut a, &mut l, &idx_name("imp", i), (i % 2) as u32);
                l.judge(&a);
            }
        }
        _ => {
            // many names; which are imports, definitions, upgrades is symbolic in the sense of a
            // case split on a period, and checked at the end
            let n = if tier == 0 { 40 } else { 200 };
            let p = choose(4) as usize + 2;
            let mut a = blank();
            let mut l = Lists { st: vec![] };
            for i in 0..n {
                c02_op(&mut a, &mut l, &idx_name("name_", i), (i % p) as u32 % 4);
            }
            for i in 0..n {
                let k = l.st[i].1;
                match (i / p) % 4 {
                    0 if k < 2 => c02_op(&mut a, &mut l, &idx_name("name_", i), k + 2),
                    1 if k >= 2 => c02_op(&mut a, &mut l, &idx_name("name_", i), 4),
                    2 if k >= 2 => c02_op(&mut a, &mut l, &idx_name("name_", i), k - 2),
                    _ => {}
                }
            }
            l.judge(&a);
            c02_links(&mut a, &l);
            l.judge(&a);
        }
    }
}

/// links between all of the first names, those that are accepted and those that are not
fn c02_links(a: &mut Artifact, l: &Lists) {
    let n = l.st.len().min(5);
    for f in 0..n {
        for t in 0..=n {
            let to = if t < n { &l.st[t].0[..] } else { "never_declared" };
            let link = Link { from: &l.st[f].0, to, at: (4 * f) as u64 };
            let r = if (f + t) % 2 == 0 { a.link(link) } else { a.link_with(link, Reloc::Raw { reloc: 2, addend: 0 }) };
            check(r.is_ok() == (t < n && l.st[f].1 >= 2), "a link was accepted or rejected against the rules");
        }
    }
}

/// hundreds of imports, each declared again, upgraded or defined later
fn c02_long(n: usize) {
    let mut a = blank();
    let mut want: Vec<(String, u32)> = vec![];
    let p = 2 + choose(2) as usize;
    let list = |a: &Artifact, want: &Vec<(String, u32)>| {
        let got: Vec<(&str, &ImportKind)> = a.imports().collect();
        check(got.len() == want.len(), "the import list is not exactly the imports");
        for i in 0..got.len() {
            let k = if want[i].1 == 0 { ImportKind::Function } else { ImportKind::Data };
            check(same(got[i].0.as_bytes(), want[i].0.as_bytes()) && *got[i].1 == k, "the import list is not exactly the imports");
        }
    };
    for i in 0..n {
        let nm = idx_name("imp", i);
        let k = (i % p) as u32 % 2;
        let kind = if k == 0 { ImportKind::Function } else { ImportKind::Data };
        must(a.import(&nm, kind), "a first import was rejected");
        must(a.import(&nm, kind), "a redundant import was rejected");
        check(a.import(&nm, if k == 0 { ImportKind::Data } else { ImportKind::Function }).is_err(), "an incompatible declaration was accepted");
        want.push((nm, k));
        if i % 8 == 0 || (i & (i + 1)) == 0 || (i & (i - 1)) == 0 {
            list(&a, &want);
        }
    }
    for i in 0..n {
        must(a.import(&want[i].0, if want[i].1 == 0 { ImportKind::Function } else { ImportKind::Data }), "a redundant import was rejected");
    }
    list(&a, &want);
    must(a.declare("refers", Decl::function()), "declare");
    must(a.define("refers", vec![0; 8]), "define");
    for i in 0..n {
        let at = (i % 7) as u64;
        must(a.link(Link { from: "refers", to: &want[n - 1 - i].0, at }), "a link between declared symbols with a local source was rejected");
    }
    list(&a, &want);
    // every third becomes a definition, and is imported again
    let (mut left, mut undef) = (vec![], vec![]);
    for i in 0..n {
        let (nm, k) = want[i].clone();
        if i % 3 == 1 {
            let d: Decl = if k == 0 { Decl::function().into() } else { Decl::data().into() };
            must(a.declare(&nm, d), "an upgrade of an import was rejected");
            must(a.import(&nm, if k == 0 { ImportKind::Function } else { ImportKind::Data }), "an import of a definition was rejected");
            undef.push(nm);
        } else {
            left.push((nm, k));
        }
    }
    let got: Vec<(&str, &ImportKind)> = a.imports().collect();
    check(got.len() == left.len(), "the import list is not exactly the imports");
    for (nm, k) in &left {
        let mut c = 0;
        for (x, y) in &got {
            if same(x.as_bytes(), nm.as_bytes()) {
                c += 1;
                check((**y == ImportKind::Function) == (*k == 0), "an import is listed with the wrong kind");
            }
        }
        check(c == 1, "an import is not listed exactly once");
    }
    let u = a.undefined_symbols();
    check(u.len() == undef.len(), "the undefined list does not hold exactly the undefined names");
    for i in 0..u.len() {
        check(same(u[i].as_bytes(), undef[i].as_bytes()), "the undefined list is not in order of first declaration");
    }
}

fn c02_op(a: &mut Artifact, l: &mut Lists, name: &str, op: u32) {
    let cur = l.st.iter().position(|x| x.0 == name);
    if op == 4 {
        let r = a.define(name, bytes(3));
        let want = match cur {
            Some(i) => l.st[i].1 >= 2 && !l.st[i].2,
            None => false,
        };
        check(r.is_ok() == want, "a definition was accepted or rejected against the rules");
        if want {
            l.st[cur.unwrap()].2 = true;
        }
        return;
    }
    let r = match op {
        0 => a.import(name, ImportKind::Function),
        1 => a.declare(name, Decl::data_import()),
        2 => a.declare(name, Decl::function().global()),
        _ => a.declare(name, Decl::data().writable()),
    };
    match cur {
        None => {
            check(r.is_ok(), "a first declaration was rejected");
            l.st.push((name.to_string(), op, false));
        }
        Some(i) => {
            let k = l.st[i].1;
            let ok = k % 2 == op % 2;
            check(r.is_ok() == ok, "a redeclaration was accepted or rejected against the rules");
            if ok && k < 2 && op >= 2 {
                l.st[i].1 = op;
            }
        }
    }
}

// ---------------------------------------------------------------- C03

/// many names of every kind, each defined among rejected attempts at all of them
fn c03_many() {
    let n = 1 + choose(60) as usize;
    let mut m = Model::new(X64);
    for i in 0..n {
        let k = ((i * 5 + n) as u32) % NKIND;
        m.def(kind_def(&idx_name(if sec_kind(k) { "__s" } else { "d" }, i), k, 1 + (i * 3 + n) % 7));
    }
    let last = n - 1;
    m.defs[last].data = if m.defs[last].zero.is_some() { vec![] } else { bytes(6) };
    // some are longer, and some are equal
    for i in 0..last {
        let d = &mut m.defs[i];
        if d.zero.is_none() && i % 4 == 1 {
            d.data = vec![(i % 3) as u8; 8 * (i % 6)];
        }
    }
    m.import("imp", true);
    let mut a = m.empty_artifact(BinaryFormat::Elf);
    let mut b = a.clone();
    m.declare_all(&mut a);
    m.declare_all(&mut b);
    let mut left: Vec<&str> = m.defs.iter().map(|d| &d.name[..]).collect();
    let syms = |d: &Def| {
        let mut s = BTreeMap::new();
        s.insert("rejected_symbol".to_string(), 3);
        s.insert(d.name.clone(), 4);
        s
    };
    for j in 0..n {
        let i = if n % 3 == 0 { n - 1 - j } else { j };
        let d = &m.defs[i];
        if !d.is_section() {
            let r = a.define_with_symbols(&d.name, vec![1], syms(d));
            check(matches!(r, Err(ArtifactError::NonSectionCustomSymbols(..))), "a definition was accepted or rejected against the rules");
        }
        if d.is_section() || d.kind == Kind::Func {
            let r = a.define_zero_init(&d.name, 4);
            check(matches!(r, Err(ArtifactError::InvalidZeroInit(_))), "a definition was accepted or rejected against the rules");
        }
        must(d.define(&mut a), "a fitting definition was rejected");
        must(d.define(&mut b), "a fitting definition was rejected");
        left.retain(|x| *x != &d.name[..]);
        // what is defined is declared once more, or imported, to no effect
        if (i + n) % 3 != 1 {
            must(a.declare(&d.name, d.decl()), "a redundant redeclaration was rejected");
        }
        if !d.is_section() && (i + n) % 4 < 2 {
            must(a.import(&d.name, if d.kind == Kind::Func { ImportKind::Function } else { ImportKind::Data }), "a redundant import was rejected");
        }
        check(matches!(a.define(&d.name, vec![]), Err(ArtifactError::DuplicateDefinition(_))), "a definition was accepted or rejected against the rules");
        // the very same again
        check(matches!(d.define(&mut a), Err(ArtifactError::DuplicateDefinition(_))), "a second definition was accepted");
        if d.zero.is_some() {
            check(matches!(a.define_zero_init(&d.name, 1), Err(ArtifactError::DuplicateDefinition(_))), "a definition was accepted or rejected against the rules");
        }
        if d.is_section() {
            check(matches!(a.define_with_symbols(&d.name, vec![1], syms(d)), Err(ArtifactError::DuplicateDefinition(_))), "a definition was accepted or rejected against the rules");
        }
        check(matches!(a.define("imp", vec![1]), Err(ArtifactError::ImportDefined(_))), "a definition was accepted or rejected against the rules");
        check(matches!(a.define("never", vec![1]), Err(ArtifactError::Undeclared(_))), "a definition was accepted or rejected against the rules");
        let u = a.undefined_symbols();
        check(u.len() == left.len(), "a definition leaves another name defined or undefined");
        for k in 0..u.len() {
            check(same(u[k].as_bytes(), left[k].as_bytes()), "a definition leaves another name defined or undefined");
        }
    }
    finish_and_compare(a, b, 2, "a rejected definition changed the emitted bytes");
}

pub fn c03(tier: u32) {
    if choose(2) == 1 {
        return c03_many();
    }
    let mut a = blank();
    let mut b = a.clone();
    let (p, l) = (any_name(6), any_name(4));
    let names = [&p[..], "q", &l[..]];
    // what is declared before the definitions: p (any kind or nothing), q
    let kp = choose(6);
    let kq = choose(2);
    let mut cur: [Option<DS>; 3] = [None, None, None];
    let mut decl = |a: &mut Artifact, b: &mut Artifact, n: usize, d: DS, cur: &mut [Option<DS>; 3]| {
        must(a.declare(names[n], d.decl()), "a first declaration was rejected");
        must(b.declare(names[n], d.decl()), "a first declaration was rejected");
        cur[n] = Some(d);
    };
    let mut any = |k: u32| {
        let d = any_ds(k);
        if let Some(x) = d.al {
            assume(x <= 8);
        }
        d
    };
    if kp < 5 {
        let d = any(kp);
        decl(&mut a, &mut b, 0, d, &mut cur);
    }
    let base = DS { k: 3, scope: 1, vis: 0, w: true, dt: 0, sk: 0, al: None };
    if kq == 1 {
        decl(&mut a, &mut b, 1, DS { k: 2, ..base.clone() }, &mut cur);
    }
    let mut defd = [false; 3];
    let mut ops = kp;
    let steps = if tier == 0 { 2 } else { 3 };
    for s in 0..steps {
        let n = choose(if s == 0 { 2 } else { 3 }) as usize;
        let zero = flag();
        let nsym = pick(if tier == 0 { &[0u32, 2][..] } else { &[0, 1, 2][..] });
        ops += n as u32 + zero as u32 + nsym / 2;
        let mut syms = BTreeMap::new();
        for i in 0..nsym {
            let o = bits(40);
            syms.insert(["sa", "sb_a_symbol_with_a_name_longer_than_32_bytes"][i as usize].to_string(), o);
        }
        let data = if zero { Data::ZeroInit(below(1 << 30) as usize) } else { Data::Blob(bytes(3)) };
        let d2 = data.clone();
        let r = a.define_with_symbols(names[n], data, syms.clone());
        let ok = match &cur[n] {
            None => {
                match r {
                    Err(ArtifactError::Undeclared(x)) => check(same(x.as_bytes(), names[n].as_bytes()), "the undeclared error names another symbol"),
                    _ => fail("defining an undeclared name did not fail as undeclared"),
                }
                false
            }
            Some(d) => {
                // several reasons may apply at once: any matching error is right
                let mut want = vec![];
                if d.import() {
                    want.push(1);
                } else {
                    if defd[n] {
                        want.push(2);
                    }
                    if d.k != 4 && nsym > 0 {
                        want.push(3);
                    }
                    if d.k != 3 && zero {
                        want.push(4);
                    }
                }
                if want.is_empty() {
                    check(r.is_ok(), "a fitting definition was rejected");
                    true
                } else {
                    let got = match r {
                        Ok(()) => fail("a definition that does not fit was accepted"),
                        Err(ArtifactError::ImportDefined(x)) => {
                            check(same(x.as_bytes(), names[n].as_bytes()), "the import-defined error names another symbol");
                            1
                        }
                        Err(ArtifactError::DuplicateDefinition(x)) => {
                            check(same(x.as_bytes(), names[n].as_bytes()), "the duplicate-definition error names another symbol");
                            2
                        }
                        Err(ArtifactError::NonSectionCustomSymbols(dd, m)) => {
                            check(d.is(&Decl::Defined(dd)), "the custom-symbols error carries another declaration");
                            check(m.len() == nsym as usize, "the custom-symbols error carries other symbols");
                            let mut same_ = true;
                            for ((n1, o1), (n2, o2)) in m.iter().zip(syms.iter()) {
                                same_ &= same(n1.as_bytes(), n2.as_bytes()) & (o1 == o2);
                            }
                            check(same_, "the custom-symbols error carries other symbols");
                            3
                        }
                        Err(ArtifactError::InvalidZeroInit(dd)) => {
                            check(d.is(&Decl::Defined(dd)), "the zero-init error carries another declaration");
                            4
                        }
                        Err(_) => fail("a definition that does not fit failed with an unrelated error"),
                    };
                    check(want.contains(&got), "a definition failed with an error whose reason does not apply");
                    false
                }
            }
        };
        if ok {
            must(b.define_with_symbols(names[n], d2, syms), "a fitting definition was rejected");
            defd[n] = true;
        }
        // in between, what is declared is declared once more, or imported, to no effect
        if let (true, Some(d)) = ((ops + s as u32) % 2 == 1, &cur[n]) {
            must(a.declare(names[n], d.decl()), "a redundant redeclaration was rejected");
            if d.k == 2 || d.k == 3 {
                must(a.import(names[n], if d.k == 2 { ImportKind::Function } else { ImportKind::Data }), "a redundant import was rejected");
            }
        }
        // or refers to itself and to the others
        if let (true, Some(d)) = ((ops + s as u32) % 3 == 2, &cur[n]) {
            for t in 0..3 {
                if (d.k == 2 || d.k == 3) && cur[t].as_ref().map_or(false, |x| x.k < 4) {
                    for x in [&mut a, &mut b] {
                        must(x.link(Link { from: names[n], to: names[t], at: 0 }), "a link between declared symbols with a local source was rejected");
                    }
                }
            }
        }
        check(same_lists(&a, &b), "a rejected definition changed the import or undefined list");
    }
    // afterwards names that a rejected call may have mentioned are declared for the first time
    if flag() {
        for x in [&mut a, &mut b] {
            must(x.declare("sb_a_symbol_with_a_name_longer_than_32_bytes", Decl::data().global()), "a first declaration was rejected");
            must(x.declare("x_new", Decl::function()), "a first declaration was rejected");
            must(x.declare("sa", Decl::function().global()), "a first declaration was rejected");
        }
    }
    for n in (0..3).rev() {
        if cur[n].is_none() {
            decl(&mut a, &mut b, n, DS { k: 2, ..base.clone() }, &mut cur);
        }
    }
    finish_and_compare(a, b, if tier == 0 { ops % 2 } else { 2 }, "a rejected definition changed the emitted bytes");
}

// ---------------------------------------------------------------- C04

/// hundreds of links, in no order of offsets, with duplicates and rejected ones in between
fn c04_many(n: usize, fmt_elf: bool, sym: usize) {
    let mut m = Model::new(X64);
    m.def(Def::new("f", Kind::Func).data(bytes(4)).scope(GLOBAL));
    m.def(Def::new("d", Kind::Data).writable(true).data(bytes(8)));
    m.def(Def::new("g", Kind::Func).data(bytes(2)).scope(WEAK));
    m.def(Def::new(".debug_info", Kind::Sect(SK::Debug)).data(bytes(9)));
    m.import("imp", true);
    m.import("dat", false);
    let fmt = if fmt_elf { BinaryFormat::Elf } else { BinaryFormat::Macho };
    let mut a = m.empty_artifact(fmt);
    m.declare_all(&mut a);
    let tos = [To::Def(2), To::Imp(0), To::Def(1), To::Imp(1), To::Def(0)];
    for i in 0..n {
        let from = [0usize, 0, 1, 0, 2, 3][i % 6];
        let to = tos[(i / 2) % 5];
        let at = match i % 9 {
            // a few are symbolic
            8 if i / 9 < sym => bits(24),
            3 => 7,
            k => ((i * 37 + k * 11) % 509) as u64,
        };
        let r = if from == 3 {
            R::Debug(if i % 4 == 1 { 4 } else { 8 }, 0)
        } else if i % 7 == 2 {
            R::Raw(1 + (i % 3) as u32, 0)
        } else {
            R::Auto
        };
        for k in 0..1 + (i % 10 == 4) as usize {
            let l = Link { from: &m.defs[from].name, to: m.to_name(to), at };
            must(a.link_with(l, reloc_of(r)), "a link between declared symbols with a local source was rejected");
            if k == 0 && i % 5 == 2 {
                check(a.link(Link { from: "imp", to: "f", at }).is_err(), "a link out of an import was accepted");
                check(a.link(Link { from: "f", to: "nowhere", at }).is_err(), "a link to an undeclared name was accepted");
                check(a.link(Link { from: "nowhere", to: "f", at }).is_err(), "a link out of an undeclared name was accepted");
            }
            m.link(To::Def(from), to, at, r);
        }
    }
    for d in &m.defs {
        must(d.define(&mut a), "a well-formed definition was rejected");
    }
    let x = emit(&a, fmt);
    if fmt_elf {
        check_elf(&x, &m, elfp::RELOCS);
    } else {
        check_mach(&x, &m, machp::RELOCS);
    }
}

/// links between any two things that can be declared, with any attributes
fn c04_kinds() {
    let mut m = Model::new(X64);
    let (k, l) = (choose(NKIND), choose(NKIND + 2));
    let fix = |d: Def| {
        let al = sym_align(64);
        sym_attrs(d).align(al)
    };
    m.def(fix(kind_def("from", k, 6)));
    if l < NKIND {
        let mut d = kind_def("to", l, 5);
        d = if k < 5 { fix(d) } else { sym_attrs(d) };
        m.def(d);
    } else {
        m.import("to", l == NKIND);
    }
    let mut a = m.empty_artifact(BinaryFormat::Elf);
    m.declare_imports(&mut a);
    m.declare_all(&mut a);
    let early = flag();
    if early {
        for d in &m.defs {
            must(d.define(&mut a), "a well-formed definition was rejected");
        }
    }
    let at = u64v();
    let to = if l < NKIND { To::Def(1) } else { To::Imp(0) };
    let auto = !sec_kind(k) && (l >= NKIND || !sec_kind(l));
    for (n, (at, to, name)) in [(at, to, "to"), (3, to, "to"), (at, To::Def(0), "from")].into_iter().enumerate() {
        let r = if auto && n == 1 { R::Auto } else { R::Raw(u32v(), u32v() as i32) };
        let res = a.link_with(Link { from: "from", to: name, at }, reloc_of(r));
        check(res.is_ok(), "a link between declared symbols with a local source was rejected");
        m.link(To::Def(0), to, at, r);
    }
    if !early {
        for d in &m.defs {
            must(d.define(&mut a), "a well-formed definition was rejected");
        }
    }
    check_elf(&emit(&a, BinaryFormat::Elf), &m, elfp::RELOCS);
}

pub fn c04(tier: u32) {
    let fmt_elf = flag();
    if flag() {
        if fmt_elf && flag() {
            return c04_kinds();
        }
        if flag() {
            return c04_many(if tier == 0 { pick(&[40, 300]) } else { pick(&[100, 600]) }, fmt_elf, 100);
        }
        return c04_many(if tier == 0 { pick(&[34, 70, 140, 270, 530, 1100, 2200]) } else { pick(&[35, 600, 3000, 4200]) }, fmt_elf, 0);
    }
    let mut m = Model::new(X64);
    let steps = if tier == 0 { 2 } else { 3 };
    let when = choose(steps + 1);
    // in some of the histories the names are symbolic
    let ns = match when {
        0 => [any_name(6), any_name(3), any_name(7), any_name(5), any_name(4)],
        _ => ["f", "d", "up", "imp", "late"].map(String::from),
    };
    m.def(Def::new(&ns[0], Kind::Func).data(bytes(4)).scope(GLOBAL));
    m.def(Def::new(&ns[1], Kind::Data).writable(true).data(bytes(8)));
    m.def(Def::new(&ns[2], Kind::Func).data(bytes(2)).scope(WEAK));
    m.import(&ns[3], true);
    // what is defined before the links are made, and as what
    let early = [0, 2, 1, 2][when as usize];
    if early == 2 {
        m.defs[0].data = vec![];
        m.defs[1] = Def::new(&ns[1], Kind::Data).writable(true).zero(0);
    }
    let mut a = m.empty_artifact(BinaryFormat::Elf);
    let mut b = a.clone();
    // up is an import first; late is undeclared at first
    for x in [&mut a, &mut b] {
        must(x.declare(&ns[0], m.defs[0].decl()), "declare");
        must(x.declare(&ns[1], m.defs[1].decl()), "declare");
        must(x.import(&ns[2], ImportKind::Function), "import");
        must(x.import(&ns[3], ImportKind::Function), "import");
        for d in &m.defs[..if early > 0 { 2 } else { 0 }] {
            must(d.define(x), "a well-formed definition was rejected");
        }
    }
    let names = [&ns[0][..], &ns[1][..], &ns[2][..], &ns[3][..], &ns[4][..]];
    let to_of = |n: usize| match n {
        0 => To::Def(0),
        1 => To::Def(1),
        2 => To::Def(2),
        _ => To::Imp(0),
    };
    let mut upgraded = false;
    for s in 0..steps {
        if s == when {
            for x in [&mut a, &mut b] {
                must(x.declare(names[2], m.defs[2].decl()), "an upgrade of an import was rejected");
            }
            upgraded = true;
        }
        let f = choose(5) as usize;
        let t = choose(5) as usize;
        let at = bits(29);
        let r = match choose(if s == 0 { 3 } else { 2 }) {
            0 => R::Auto,
            2 => {
                R::Debug(if flag() { 8 } else { 4 }, if fmt_elf { u32v() as i32 } else { 0 })
            }
            _ => {
                let ty = bits(4) as u32;
                R::Raw(ty, if fmt_elf { u32v() as i32 } else { 0 })
            }
        };
        let before = same_lists(&a, &b);
        check(before, "the artifacts diverged");
        let via_link = matches!(r, R::Auto) && flag();
        let l = Link { from: names[f], to: names[t], at };
        let res = if via_link { a.link(l) } else { a.link_with(l, reloc_of(r)) };
        let import_src = f == 3 || (f == 2 && !upgraded);
        if f == 4 || t == 4 {
            let who = if f == 4 { f } else { t };
            match res {
                Err(ArtifactError::Undeclared(x)) => {
                    check(same(x.as_bytes(), names[who].as_bytes()), "the undeclared error does not name the source first, else the target")
                }
                // both errors apply: an import as source, and an undeclared target
                Err(ArtifactError::RelocateImport(x)) if f != 4 && import_src => {
                    check(same(x.as_bytes(), names[f].as_bytes()), "the relocate-import error does not name the source")
                }
                _ => fail("a link with an undeclared end was not rejected as undeclared"),
            }
        } else if import_src {
            match res {
                Err(ArtifactError::RelocateImport(x)) => check(same(x.as_bytes(), names[f].as_bytes()), "the relocate-import error does not name the source"),
                _ => fail("a link out of an import was not rejected as such"),
            }
        } else {
            check(res.is_ok(), "a link between declared symbols with a local source was rejected");
            must(b.link_with(Link { from: names[f], to: names[t], at }, reloc_of(r)), "link");
            m.link(to_of(f), to_of(t), at, r);
        }
        check(same_lists(&a, &b), "a link changed the import or undefined list");
    }
    for x in [&mut a, &mut b] {
        if !upgraded {
            must(x.declare(names[2], m.defs[2].decl()), "an upgrade of an import was rejected");
        }
        must(x.declare(names[4], Decl::data().global()), "declare");
    }
    m.def(Def::new(names[4], Kind::Data).scope(GLOBAL).data(vec![9; 3]));
    for d in &m.defs[if early > 0 { 2 } else { 0 }..] {
        must(d.define(&mut a), "a well-formed definition was rejected");
        must(d.define(&mut b), "a well-formed definition was rejected");
    }
    let fmt = if fmt_elf { BinaryFormat::Elf } else { BinaryFormat::Macho };
    let x = emit(&a, fmt);
    let y = emit(&b, fmt);
    check(x.len() == y.len(), "a rejected link changed the emitted bytes");
    check(same(&x, &y), "a rejected link changed the emitted bytes");
    if fmt_elf {
        check_elf(&x, &m, elfp::RELOCS);
    } else {
        check_mach(&x, &m, machp::RELOCS);
    }
}

// ---------------------------------------------------------------- C05

/// hundreds of undefined names among others
fn c05_many() {
    let f = pick(&[BinaryFormat::Elf, BinaryFormat::Macho, BinaryFormat::Wasm]);
    let n = pick(&[33usize, 65, 129, 257, 300]);
    let mut a = blank();
    let mut missing = vec![];
    let dense = flag();
    for i in 0..n {
        let pre = [".debug_", "name", "__", ".text.", "L", "name"][(i / 4) % 6];
        let nm = if i % 9 == 4 { long_name(i, 40 + i) } else { idx_name(pre, i * 7) };
        if i % 5 == 3 && !dense {
            must(a.import(&nm, if i % 2 == 0 { ImportKind::Function } else { ImportKind::Data }), "import");
            if i % 10 == 3 {
                must(a.declare(&nm, Decl::data().writable()), "an upgrade of an import was rejected");
                missing.push(nm);
            }
            continue;
        }
        let d: Decl = match i % 4 {
            0 => Decl::function().global().into(),
            1 => Decl::data().writable().into(),
            2 => Decl::section(SectionKind::Debug).into(),
            _ => Decl::cstring().into(),
        };
        must(a.declare(&nm, d), "declare");
        if i % 6 == 1 && !dense {
            must(a.define(&nm, vec![1, 2]), "define");
        } else {
            missing.push(nm);
        }
    }
    // some of them are linked with some
    if flag() {
        for i in 0..missing.len() / 3 {
            must(a.link(Link { from: &missing[i * 2], to: &missing[i * 3], at: 0 }), "a link between declared symbols with a local source was rejected");
        }
    }
    match a.emit_as(f) {
        Err(ArtifactError::UndefinedSymbols(v)) => {
            check(v.len() == missing.len(), "the undefined-symbols error does not list exactly the undefined names");
            for i in 0..v.len() {
                check(same(v[i].as_bytes(), missing[i].as_bytes()), "the undefined-symbols error is not in declaration order");
            }
        }
        Ok(_) => fail("an incomplete artifact was emitted"),
        Err(_) => fail("emission of an incomplete artifact failed with another error"),
    }
}

pub fn c05(tier: u32) {
    if flag() {
        return c05_many();
    }
    // symbolic formats, names, attributes and contents
    hash_stub(true);
    let own = any_format();
    let asked = any_format();
    let via = choose(2);
    let asked = if via == 1 { own } else { asked };
    let mut a = blank();
    a.target.binary_format = own;
    let n = if tier == 0 { 3 } else { 4 };
    let mut names = vec![];
    let pre = [pick(&["", ".debug_"]), "", ["", ".debug_"][via as usize], ".text."];
    for i in 0..n {
        let x = format!("{}{}", pre[i], name([2usize, 2, 1, 5][i]));
        for y in &names {
            let y: &String = y;
            assume(!same(x.as_bytes(), y.as_bytes()));
        }
        names.push(x);
    }
    let mut missing: Vec<&str> = vec![];
    let mut kinds = [0; 4];
    for i in 0..n {
        // 0 undefined, 1 defined, 2 import, 3 upgraded import, undefined, 4 upgraded and defined
        let how = choose(5);
        let kind = if i == 0 { 2 + choose(3) } else { [2, 3, 4, 3][i] };
        kinds[i] = kind;
        let mut d = any_ds(kind);
        if let Some(x) = d.al {
            assume(x <= 8);
        }
        if i > 0 {
            // attributes are symbolic for the first name, and cycle for the others
            d.scope = i as u8 % 3;
            d.vis = 0;
            d.al = None;
            d.w = i % 2 == 1;
            d.dt = 0;
            d.sk = how as u8 % 3;
        }
        let d = d.decl();
        let k = if kind == 2 { ImportKind::Function } else { ImportKind::Data };
        if how == 2 {
            must(a.import(&names[i], k), "import");
        } else {
            if how >= 3 {
                assume(kind != 4);
                must(a.import(&names[i], k), "import");
            }
            must(a.declare(&names[i], d), "a first declaration or an upgrade of an import was rejected");
            if how == 1 || how == 4 {
                if kind == 3 && i == 0 && how == 4 {
                    must(a.define_zero_init(&names[i], 24), "define_zero_init");
                } else {
                    must(a.define(&names[i], bytes(i + 1)), "define");
                }
            } else {
                missing.push(&names[i]);
            }
        }
    }
    if via == 0 {
        // what can be linked is linked
        for i in 0..n {
            if i != 2 && (kinds[0] != 4 || i == 3) {
                let to = if i == 1 { 3 % n } else { 1 - i % 2 };
                let _ = a.link(Link { from: &names[i], to: &names[to], at: 0 });
            }
        }
    }
    let r = if via == 1 { a.emit() } else { a.emit_as(asked) };
    if !missing.is_empty() {
        match r {
            Err(ArtifactError::UndefinedSymbols(v)) => {
                check(v.len() == missing.len(), "the undefined-symbols error does not list exactly the undefined names");
                for i in 0..v.len() {
                    check(same(v[i].as_bytes(), missing[i].as_bytes()), "the undefined-symbols error is not in declaration order");
                }
            }
            Ok(_) => fail("an incomplete artifact was emitted"),
            Err(_) => fail("emission of an incomplete artifact failed with another error"),
        }
        return;
    }
    match asked {
        BinaryFormat::Elf | BinaryFormat::Macho => match r {
            Ok(b) => {
                observe(&b);
                check(b.len() > 4, "the emitted object is empty");
                let w = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
                let want = if asked == BinaryFormat::Elf { 0x464c_457f } else { 0xfeed_facf };
                check(w == want, "the emitted bytes are not of the requested format");
            }
            Err(_) => fail("emission of a complete artifact in a supported format failed"),
        },
        _ => match r {
            Err(ArtifactError::UnsupportedBinaryFormat(f)) => {
                check(f == asked, "the unsupported-format error does not name the requested format")
            }
            Ok(_) => fail("an unsupported format was emitted"),
            Err(_) => fail("emission in an unsupported format failed with another error"),
        },
    }
}
