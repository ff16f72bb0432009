//! C20: the declaration builders.
use super::api::*;
use crate::model::*;
use crate::sym::*;
use faerie::artifact::DefinedDecl;
use faerie::*;
use std::cmp::Ordering;

fn sym_scope() -> u8 {
    below(3) as u8
}
fn sym_vis() -> u8 {
    let v = below(4) as u8;
    assume(v != 1);
    v
}
fn sym_al() -> Option<u64> {
    let s = below(64);
    if bits(1) != 0 {
        Some(1u64 << s)
    } else {
        None
    }
}

fn opt_eq(a: Option<u64>, b: Option<u64>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a == b,
        (None, None) => true,
        _ => false,
    }
}

macro_rules! common {
    ($d:ident, $m:ident, $op:expr) => {
        match $op {
            0 => {
                $d = $d.global();
                $m.scope = GLOBAL;
            }
            1 => {
                $d = $d.local();
                $m.scope = LOCAL;
            }
            2 => {
                $d = $d.weak();
                $m.scope = WEAK;
            }
            3 => {
                $m.scope = sym_scope();
                $d = $d.with_scope(scope_of($m.scope));
            }
            4 => {
                $m.scope = sym_scope();
                $d.set_scope(scope_of($m.scope));
            }
            5 => {
                $d = $d.default_visibility();
                $m.vis = 0;
            }
            6 => {
                $d = $d.protected();
                $m.vis = 3;
            }
            7 => {
                $d = $d.hidden();
                $m.vis = 2;
            }
            8 => {
                $m.vis = sym_vis();
                $d = $d.with_visibility(vis_of($m.vis));
            }
            9 => {
                $m.vis = sym_vis();
                $d.set_visibility(vis_of($m.vis));
            }
            10 => {
                $m.al = sym_al();
                $d = $d.with_align($m.al);
            }
            _ => {
                $m.al = sym_al();
                $d.set_align($m.al);
            }
        }
    };
}

const MSG: &str = "an accessor does not report the last value set";

pub fn c20(tier: u32) {
    match choose(5) {
        0 => function(tier),
        1 => data(tier),
        2 => section(tier),
        3 => order(tier),
        _ => fresh(),
    }
}

fn fresh() {
    check(FunctionDecl::default().get_scope() == Scope::Local, "a fresh function is not local");
    check(Decl::function() == FunctionDecl::default(), "Decl::function is not a fresh function");
    check(Decl::data() == DataDecl::default(), "Decl::data is not a fresh data object");
    check(Decl::function().get_visibility() == Visibility::Default, "a fresh function does not have default visibility");
    check(Decl::function().get_align().is_none() & !Decl::function().is_global(), "a fresh function has an alignment or is global");
    let d = Decl::data();
    check((d.get_scope() == Scope::Local) & (d.get_visibility() == Visibility::Default), "fresh data is not local with default visibility");
    check(!d.is_writable() & (d.get_datatype() == DataType::Bytes) & d.get_align().is_none(), "fresh data is not read-only raw bytes without alignment");
    let c = Decl::cstring();
    check((c.get_datatype() == DataType::String) & !c.is_writable() & (c.get_scope() == Scope::Local), "a fresh C string is not a local read-only string");
    check(c == Decl::data().with_datatype(DataType::String), "a C string differs from string data");
    for k in [SectionKind::Data, SectionKind::Debug, SectionKind::Text] {
        let s = Decl::section(k);
        check(s == SectionDecl::new(k), "Decl::section is not a fresh section");
        check((s.kind() == k) & (s.get_datatype() == DataType::Bytes) & s.get_align().is_none(), "a fresh section is not raw bytes of its kind");
        check(!s.is_global() & (s.is_writable() == (k == SectionKind::Data)), "a fresh section's classification is wrong");
    }
    let f: Decl = Decl::function_import().into();
    let g: Decl = Decl::data_import().into();
    check(f.is_import() & g.is_import() & !f.is_section() & !g.is_section(), "an import is not classified as import");
    check(ImportKind::from_decl(&f) == Some(ImportKind::Function), "a function import's kind is wrong");
    check(ImportKind::from_decl(&g) == Some(ImportKind::Data), "a data import's kind is wrong");
    check(f == Decl::Import(ImportKind::Function), "a function import converts to something else");
    check(g == Decl::Import(ImportKind::Data), "a data import converts to something else");
}

fn general(d: Decl, m: &DS) {
    check(m.is(&d), "attributes do not survive conversion to a general declaration");
    check(!d.is_import(), "a definition is classified as import");
    check(d.is_section() == (m.k == 4), "the section classification is wrong");
    check(ImportKind::from_decl(&d).is_none(), "a definition has an import kind");
    if let Decl::Defined(x) = d {
        check(x.is_function() == (m.k == 2), "the function classification is wrong");
        check(x.is_data() == (m.k == 3), "the data classification is wrong");
        check(x.is_section() == (m.k == 4), "the section classification is wrong");
        check(x.is_global() == ((m.k != 4) & (m.scope == GLOBAL)), "the global classification is wrong");
        let w = match m.k {
            3 => m.w,
            4 => m.sk == 0,
            _ => false,
        };
        check(x.is_writable() == w, "the writable classification is wrong");
        check(opt_eq(x.get_align(), m.al), "the alignment accessor is wrong");
    } else {
        fail("a definition converts to an import");
    }
    let _: Option<DefinedDecl> = None;
}

fn function(tier: u32) {
    let mut d = Decl::function();
    let mut m = DS { k: 2, scope: LOCAL, vis: 0, w: false, dt: 0, sk: 0, al: None };
    for _ in 0..(if tier == 0 { 3 } else { 4 }) {
        let op = choose(12);
        common!(d, m, op);
        check(d.get_scope() == scope_of(m.scope), MSG);
        check(d.is_global() == (m.scope == GLOBAL), MSG);
        check(d.get_visibility() == vis_of(m.vis), MSG);
        check(opt_eq(d.get_align(), m.al), MSG);
    }
    general(d.into(), &m);
}

fn data(tier: u32) {
    let cstr = flag();
    let mut d = if cstr { Decl::cstring() } else { Decl::data() };
    let mut m = DS { k: 3, scope: LOCAL, vis: 0, w: false, dt: cstr as u8, sk: 0, al: None };
    for _ in 0..(if tier == 0 { 3 } else { 4 }) {
        let op = choose(18);
        match op {
            12 => {
                d = d.writable();
                m.w = true;
            }
            13 => {
                d = d.read_only();
                m.w = false;
            }
            14 => {
                m.w = bits(1) != 0;
                d = d.with_writable(m.w);
            }
            15 => {
                m.w = bits(1) != 0;
                d.set_writable(m.w);
            }
            16 => {
                m.dt = bits(1) as u8;
                d = d.with_datatype(dt_of(m.dt));
            }
            17 => {
                m.dt = bits(1) as u8;
                d.set_datatype(dt_of(m.dt));
            }
            _ => common!(d, m, op),
        }
        check(d.get_scope() == scope_of(m.scope), MSG);
        check(d.is_global() == (m.scope == GLOBAL), MSG);
        check(d.get_visibility() == vis_of(m.vis), MSG);
        check(opt_eq(d.get_align(), m.al), MSG);
        check(d.is_writable() == m.w, MSG);
        check(d.get_datatype() == dt_of(m.dt), MSG);
    }
    general(d.into(), &m);
}

fn section(tier: u32) {
    let mut m = DS { k: 4, scope: LOCAL, vis: 0, w: false, dt: 0, sk: below(3) as u8, al: None };
    let mut d = Decl::section(sk_n(m.sk));
    for _ in 0..(if tier == 0 { 4 } else { 6 }) {
        match choose(4) {
            0 => {
                m.dt = bits(1) as u8;
                d = d.with_datatype(dt_of(m.dt));
            }
            1 => {
                m.dt = bits(1) as u8;
                d.set_datatype(dt_of(m.dt));
            }
            2 => {
                m.al = sym_al();
                d = d.with_align(m.al);
            }
            _ => {
                m.al = sym_al();
                d.set_align(m.al);
            }
        }
        check(d.kind() == sk_n(m.sk), MSG);
        check(d.get_datatype() == dt_of(m.dt), MSG);
        check(opt_eq(d.get_align(), m.al), MSG);
        check(d.is_writable() == (m.sk == 0), MSG);
        check(!d.is_global(), MSG);
    }
    general(d.into(), &m);
}

/// equality and ordering of two or three declarations with symbolic attributes
fn order(tier: u32) {
    let ka = choose(5);
    let kb = choose(5);
    let (a, b) = (any_ds(ka), any_ds(kb));
    let (x, y) = (a.decl(), b.decl());
    let eq = a.same(&b);
    check((x == y) == eq, "equality does not follow the attributes");
    check((x != y) == !eq, "inequality does not follow the attributes");
    let c = x.cmp(&y);
    check((c == Ordering::Equal) == eq, "ordering is not consistent with equality");
    check(y.cmp(&x) == c.reverse(), "ordering is not antisymmetric");
    check(x.partial_cmp(&y) == Some(c), "partial and total ordering differ");
    check((x < y) == (c == Ordering::Less), "the comparison operators differ from the ordering");
    check((x >= y) == (c != Ordering::Less), "the comparison operators differ from the ordering");
    // the same of the declarations themselves
    if let (Decl::Defined(p), Decl::Defined(q)) = (x, y) {
        check((p == q) == eq, "equality does not follow the attributes");
        check(p.cmp(&q) == c && p.partial_cmp(&q) == Some(c), "a declaration's ordering changes by conversion");
        match (p, q) {
            (DefinedDecl::Function(p), DefinedDecl::Function(q)) => {
                check((p == q) == eq && p.cmp(&q) == c && p.partial_cmp(&q) == Some(c), "a declaration's ordering changes by conversion")
            }
            (DefinedDecl::Data(p), DefinedDecl::Data(q)) => {
                check((p == q) == eq && p.cmp(&q) == c && p.partial_cmp(&q) == Some(c), "a declaration's ordering changes by conversion")
            }
            (DefinedDecl::Section(p), DefinedDecl::Section(q)) => {
                check((p == q) == eq && p.cmp(&q) == c && p.partial_cmp(&q) == Some(c), "a declaration's ordering changes by conversion")
            }
            _ => {}
        }
    }
    let ke = choose(5);
    if tier > 0 || ka != kb || ka == ke {
        let e = any_ds(ke);
        let z = e.decl();
        let d = y.cmp(&z);
        if c == d {
            check(x.cmp(&z) == c, "ordering is not transitive");
        }
    }
    // attributes alone
    let (s, t) = (scope_of(a.scope), scope_of(b.scope));
    check((s == t) == (a.scope == b.scope) && (s.cmp(&t) == Ordering::Equal) == (s == t) && s.partial_cmp(&t) == Some(s.cmp(&t)), "equality does not follow the attributes");
    let (s, t) = (vis_of(a.vis), vis_of(b.vis));
    check((s == t) == (a.vis == b.vis) && (s.cmp(&t) == Ordering::Equal) == (s == t) && s.partial_cmp(&t) == Some(s.cmp(&t)), "equality does not follow the attributes");
    let (s, t) = (dt_of(a.dt), dt_of(b.dt));
    check((s == t) == (a.dt == b.dt) && (s.cmp(&t) == Ordering::Equal) == (s == t) && s.partial_cmp(&t) == Some(s.cmp(&t)), "equality does not follow the attributes");
    let (s, t) = (sk_n(a.sk), sk_n(b.sk));
    check((s == t) == (a.sk == b.sk) && (s.cmp(&t) == Ordering::Equal) == (s == t) && s.partial_cmp(&t) == Some(s.cmp(&t)), "equality does not follow the attributes");
}
