//! Properties of emitted objects, judged by the readers in elfp / machp.
use crate::elfp::{self, check_elf};
use crate::machp::{self, check_mach};
use crate::model::*;
use crate::scen::*;
use crate::sym::*;
use faerie::*;
use target_lexicon as tl;

const ELF4: [Tgt; 4] = [X64, X86, S390, PPC];
const MACH4: [Tgt; 4] = [X64, X86, PPC64, A64];

fn elf(m: &Model, what: u32) {
    let a = m.build(BinaryFormat::Elf);
    let b = emit(&a, BinaryFormat::Elf);
    check_elf(&b, m, what | if m.named { elfp::COINCIDE } else { 0 });
}
fn mach(m: &Model, what: u32) {
    let a = m.build(BinaryFormat::Macho);
    let b = emit(&a, BinaryFormat::Macho);
    check_mach(&b, m, what | if m.named { machp::COINCIDE } else { 0 });
}

// ---------------------------------------------------------------- links

/// defs 0..=9 of different kinds, imports 0 (function) and 1 (data)
pub fn link_model(t: Tgt, scope: u8) -> Model {
    let mut m = Model::new(t);
    m.def(Def::new("fun", Kind::Func).data(bytes(9)).scope(scope));
    m.def(Def::new("dat_with_a_name_longer_than_32_characters", Kind::Data).writable(true).data(bytes(16)).scope(scope));
    m.def(Def::new("rod", Kind::Data).data(bytes(12)).align(Some(4)).scope(GLOBAL));
    m.def(Def::new("str", Kind::Str).data(bytes(3)).scope((scope + 1) % 3));
    m.def(Def::new("zer", Kind::Data).writable(true).zero(40).align(Some(16)).scope((scope + 2) % 3));
    m.def(Def::new("g", Kind::Func).data(bytes(17)).align(Some(32)).scope((scope + 1) % 3));
    m.def(Def::new(".debug_info", Kind::Sect(SK::Debug)).data(bytes(10)).sym("in_debug", 4));
    m.def(Def::new("__cdata", Kind::Sect(SK::Data)).data(bytes(24)));
    m.def(Def::new("__ctext", Kind::Sect(SK::Text)).data(bytes(8)));
    m.def(Def::new("h", Kind::Func).data(bytes(1)).scope((scope + 2) % 3));
    m.import("imp_fun", true);
    m.import("imp_dat", false);
    m
}
const NDEF: u32 = 10;

fn tgt_of(i: u32) -> To {
    if i < NDEF {
        To::Def(i as usize)
    } else {
        To::Imp((i - NDEF) as usize)
    }
}

fn is_sec(i: u32) -> bool {
    (6..9).contains(&i)
}

/// every link the ELF writer supports
fn elf_link(m: &mut Model, froms: &[u32], tos: &[u32]) {
    let f = pick(froms);
    let t = pick(tos);
    let how = choose(3);
    let r = match how {
        0 => {
            // automatic: from code to anything that is not a section, from data to anything
            let code = f == 0 || f == 5 || f == 9;
            assume(!is_sec(f) && !(code && is_sec(t)));
            R::Auto
        }
        1 => R::Raw(if m.tgt.c64 { u32v() } else { bits(8) as u32 }, u32v() as i32),
        _ => R::Debug(if flag() { 8 } else { 4 }, u32v() as i32),
    };
    let at = if m.tgt.c64 { u64v() } else { u32v() as u64 };
    m.link(tgt_of(f), tgt_of(t), at, r);
}

/// every link the Mach-O writer supports
fn mach_link(m: &mut Model, froms: &[u32], tos: &[u32]) {
    let f = pick(froms);
    let t = pick(tos);
    let how = choose(3);
    let r = match how {
        0 => {
            assume(!is_sec(f) && !is_sec(t));
            R::Auto
        }
        1 => {
            assume(!is_sec(t));
            let ty = bits(4) as u32;
            R::Raw(ty, 0)
        }
        _ => R::Debug(if flag() { 8 } else { 4 }, u32v() as i32),
    };
    let at = bits(30);
    m.link(tgt_of(f), tgt_of(t), at, r);
}

const ALLF: [u32; 10] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
const ALLT: [u32; 12] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];

pub fn links(tier: u32, is_elf: bool) -> Model {
    let add = |m: &mut Model, f: &[u32], t: &[u32]| if is_elf { elf_link(m, f, t) } else { mach_link(m, f, t) };
    match choose(4) {
        0 => {
            let mut m = link_model(X64, choose(3) as u8);
            add(&mut m, &ALLF, &ALLT);
            m
        }
        1 => {
            // two links, from the same or from different sources
            let mut m = link_model(X64, 1);
            if tier == 0 {
                add(&mut m, &[0, 7], &[5, 11]);
                add(&mut m, &[0, 1, 6], &[0, 1, 10]);
            } else {
                add(&mut m, &[0, 1, 6, 7], &[2, 5, 10, 11]);
                add(&mut m, &[0, 1, 5, 6], &[0, 1, 4, 10]);
            }
            m
        }
        2 => {
            // a chain of links out of three sources, offsets symbolic (and free to coincide)
            let mut m = link_model(X64, 0);
            let n = if tier == 0 { 12 } else { 40 };
            for i in 0..n {
                let f = [0, 1, 5, 0, 2, 0][i % 6];
                let t = [5u32, 10, 1, 11, 9, 0, 3][i % 7];
                let at = bits(28);
                let r = if i % 4 == 2 {
                    let ty = bits(4) as u32;
                    R::Raw(ty, if is_elf { u32v() as i32 } else { 0 })
                } else {
                    R::Auto
                };
                m.link(tgt_of(f), tgt_of(t), at, r);
            }
            m
        }
        _ => {
            let n = if tier == 0 { 30 } else { 130 };
            many(&[X64], n, n / 3, n * 2)
        }
    }
}

// ---------------------------------------------------------------- C07

pub fn c07(tier: u32) {
    use tl::Architecture as A;
    use tl::*;
    // (architecture, 64-bit, big-endian, machine)
    let t: Vec<(A, bool, bool, u16)> = vec![
        (A::X86_64, true, false, 62),
        (A::X86_32(X86_32Architecture::I386), false, false, 3),
        (A::X86_32(X86_32Architecture::I586), false, false, 3),
        (A::X86_32(X86_32Architecture::I686), false, false, 3),
        (A::Aarch64(Aarch64Architecture::Aarch64), true, false, 183),
        (A::Aarch64(Aarch64Architecture::Aarch64be), true, true, 183),
        (A::Arm(ArmArchitecture::Arm), false, false, 40),
        (A::Arm(ArmArchitecture::Armeb), false, true, 40),
        (A::Arm(ArmArchitecture::Armv7), false, false, 40),
        (A::Arm(ArmArchitecture::Thumbv6m), false, false, 40),
        (A::Arm(ArmArchitecture::Thumbeb), false, true, 40),
        (A::Mips32(Mips32Architecture::Mips), false, true, 8),
        (A::Mips32(Mips32Architecture::Mipsel), false, false, 8),
        (A::Mips64(Mips64Architecture::Mips64), true, true, 8),
        (A::Mips64(Mips64Architecture::Mips64el), true, false, 8),
        (A::Powerpc, false, true, 20),
        (A::Powerpc64, true, true, 21),
        (A::Powerpc64le, true, false, 21),
        (A::Riscv32(Riscv32Architecture::Riscv32imac), false, false, 243),
        (A::Riscv64(Riscv64Architecture::Riscv64gc), true, false, 243),
        (A::S390x, true, true, 22),
        (A::Sparc, false, true, 2),
        (A::Sparc64, true, true, 43),
        (A::Sparcv9, true, true, 43),
    ];
    if flag() {
        return c07_all();
    }
    let k = choose(t.len() as u32 + 1) as usize;
    // x32: 64-bit registers, 32-bit pointers
    let x32 = k == t.len();
    let (arch, c64, be, machine) = if x32 { (A::X86_64, false, false, 62) } else { t[k] };
    let tgt = Tgt { arch, c64, be, machine, cpu: 0 };
    let mut m = Model::new(tgt);
    let shape = choose(if tier == 0 { 3 } else { 5 });
    match shape {
        0 => {}
        1 | 2 => {
            m = link_model(tgt, 1);
            let at = if tgt.c64 { u64v() } else { u32v() as u64 };
            let ty = if tgt.c64 { u32v() } else { bits(8) as u32 };
            let ad = u32v() as i32;
            m.link(To::Def(0), To::Def(1), at, R::Raw(ty, ad));
            if shape == 2 {
                let z = if tgt.c64 { u64v() } else { u32v() as u64 };
                m.defs[4].zero = Some(z);
                let o = if tgt.c64 { u64v() } else { u32v() as u64 };
                m.defs[6].syms[0].1 = o;
                m.link(To::Def(0), To::Imp(1), 3, R::Raw(7, -1));
                m.link(To::Def(7), To::Def(6), 1, R::Raw(8, 1));
            }
        }
        _ => {
            m = many(&[tgt], if shape == 3 { 9 } else { 60 }, 3, 0);
        }
    }
    let mut a = any_system(tgt.arch, &m.name);
    if x32 {
        a.target.environment = Environment::Gnux32;
    }
    m.declare_all(&mut a);
    for d in &m.defs {
        must(d.define(&mut a), "a well-formed definition was rejected");
    }
    m.link_all(&mut a);
    let b = emit(&a, BinaryFormat::Elf);
    check_elf(&b, &m, elfp::HDR | elfp::STRUCT | elfp::CONTENT | if m.links.is_empty() { 0 } else { elfp::RELOCS });
}

/// every variant of every architecture: (architecture, 64-bit, big-endian, machine, cpu type or 0)
fn all_archs() -> Vec<(tl::Architecture, bool, bool, u16, u32)> {
    use tl::Aarch64Architecture::*;
    use tl::Architecture as A;
    use tl::ArmArchitecture::*;
    use tl::Mips32Architecture as M3;
    use tl::Mips64Architecture as M6;
    use tl::Riscv32Architecture as R3;
    use tl::Riscv64Architecture as R6;
    use tl::X86_32Architecture as X;
    let mut v = vec![
        (A::X86_64, true, false, 62, 0x0100_0007),
        (A::X86_32(X::I386), false, false, 3, 7),
        (A::X86_32(X::I586), false, false, 3, 7),
        (A::X86_32(X::I686), false, false, 3, 7),
        (A::Aarch64(Aarch64), true, false, 183, 0x0100_000c),
        (A::Aarch64(Aarch64be), true, true, 183, 0x0100_000c),
        (A::Mips32(M3::Mips), false, true, 8, 0),
        (A::Mips32(M3::Mipsel), false, false, 8, 0),
        (A::Mips32(M3::Mipsisa32r6), false, true, 8, 0),
        (A::Mips32(M3::Mipsisa32r6el), false, false, 8, 0),
        (A::Mips64(M6::Mips64), true, true, 8, 0),
        (A::Mips64(M6::Mips64el), true, false, 8, 0),
        (A::Mips64(M6::Mipsisa64r6), true, true, 8, 0),
        (A::Mips64(M6::Mipsisa64r6el), true, false, 8, 0),
        (A::Powerpc, false, true, 20, 18),
        (A::Powerpc64, true, true, 21, 0x0100_0012),
        (A::Powerpc64le, true, false, 21, 0x0100_0012),
        (A::S390x, true, true, 22, 0),
        (A::Sparc, false, true, 2, 14),
        (A::Sparc64, true, true, 43, 0),
        (A::Sparcv9, true, true, 43, 0),
    ];
    for r in [R3::Riscv32, R3::Riscv32gc, R3::Riscv32i, R3::Riscv32im, R3::Riscv32imac, R3::Riscv32imc] {
        v.push((A::Riscv32(r), false, false, 243, 0));
    }
    for r in [R6::Riscv64, R6::Riscv64gc, R6::Riscv64imac] {
        v.push((A::Riscv64(r), true, false, 243, 0));
    }
    for a in [
        Arm, Armv4, Armv4t, Armv5t, Armv5te, Armv5tej, Armv6, Armv6j, Armv6k, Armv6z, Armv6kz, Armv6t2, Armv6m, Armv7, Armv7a, Armv7k, Armv7ve, Armv7m,
        Armv7r, Armv7s, Armv8, Armv8a, Armv8_1a, Armv8_2a, Armv8_3a, Armv8_4a, Armv8_5a, Armv8mBase, Armv8mMain, Armv8r, Thumbv4t, Thumbv5te, Thumbv6m,
        Thumbv7a, Thumbv7em, Thumbv7m, Thumbv7neon, Thumbv8mBase, Thumbv8mMain,
    ] {
        v.push((A::Arm(a), false, false, 40, 12));
    }
    for a in [Armeb, Armebv7r, Thumbeb] {
        v.push((A::Arm(a), false, true, 40, 12));
    }
    v
}

/// every variant of every architecture for all kinds of systems
fn c07_all() {
    let v = all_archs();
    let k = choose(v.len() as u32) as usize;
    let (arch, mut c64, be, machine, cpu) = v[k];
    // environments in which pointers are narrower than the registers
    let narrow = choose(3);
    c64 &= narrow == 0;
    let mut m = link_model(Tgt { arch, c64, be, machine, cpu }, 1);
    m.link(To::Def(0), To::Imp(1), 3, R::Raw(7, -1));
    let mut a = any_system(arch, &m.name);
    match narrow {
        0 => {}
        1 => a.target.environment = tl::Environment::Gnux32,
        _ => a.target.environment = tl::Environment::GnuIlp32,
    }
    m.declare_all(&mut a);
    for d in &m.defs {
        must(d.define(&mut a), "a well-formed definition was rejected");
    }
    m.link_all(&mut a);
    let b = emit(&a, BinaryFormat::Elf);
    check_elf(&b, &m, elfp::HDR | elfp::STRUCT | elfp::CONTENT | elfp::RELOCS);
}

// ---------------------------------------------------------------- ELF

pub fn elf_mix(tier: u32) -> Model {
    match choose(if tier == 0 { 16 } else { 17 }) {
        15 => {
            let t = pick(&[X64, PPC]);
            ends(t, t.arch == Architecture::X86_64, true)
        }
        13 => {
            let t = pick(&[X64, PPC]);
            sweep(t, t.arch == Architecture::X86_64, true)
        }
        14 => {
            let t = pick(&[X64, S390]);
            twins(t, t.arch == Architecture::X86_64)
        }
        11 => {
            let t = pick(&[X64, PPC]);
            opaque_upto(t, t.arch == Architecture::X86_64, 26)
        }
        12 => bulk(pick(&[X64, PPC])),
        8 => {
            let t = pick(&ELF4);
            named(t, t.arch == Architecture::X86_64)
        }
        9 => patterned(pick(&[X64, S390])),
        10 => noisy(X64, true),
        0 => single(tier, &ELF4, NKIND, 63),
        1 => {
            if tier == 0 {
                several(tier, &[X64, PPC], &[0, 1, 4, 6], 3, &[3, 0, 8], false, 0)
            } else {
                several(tier, &ELF4, &[0, 1, 2, 3, 4, 5, 6, 7], 3, &[3, 0, 8], false, 0)
            }
        }
        2 => links(tier, true),
        3 => {
            let n = if tier == 0 { 45 } else { 150 };
            many(&[X64, PPC], n, 7, 0)
        }
        4 => several(tier, &[X64], &[0, 2, 4], 2, &[5, 2], true, if tier == 0 { 0 } else { 8 }),
        5 => {
            let t = pick(&[X64, PPC]);
            rich(t, t.arch == Architecture::X86_64)
        }
        6 => big(X64),
        7 => zeros(pick(&ELF4)),
        _ => many(&[S390], 300, 40, 0),
    }
}

pub fn c08(tier: u32) {
    let m = match choose(3) {
        0 => huge(X64, true),
        1 => flood(X64),
        _ => elf_mix(tier),
    };
    elf(&m, elfp::STRUCT);
}
pub fn c09(tier: u32) {
    let m = elf_mix(tier);
    elf(&m, elfp::CONTENT);
}

pub fn c10(tier: u32) {
    let m = match choose(4) {
        0 => elf_mix(tier),
        1 => huge(X64, true),
        2 => return super::misc::large_elf(0x1_0005, 2, X64),
        _ => {
            // declarations and imports in histories: upgraded imports, later imports of definitions
            return c10_history(tier);
        }
    };
    elf(&m, elfp::SYMS | elfp::CUSTOM);
}

/// imports that are later upgraded to definitions, and definitions that are later imported
fn import_history(tgt: Tgt, fmt: BinaryFormat, tier: u32) -> (Model, Artifact) {
    let mut m = Model::new(tgt);
    let mut a = m.empty_artifact(fmt);
    let n = if tier == 0 { 3 } else { 4 };
    let names = ["imp_a", "b", "imp_c_longer_than_thirty_two_characters_", "d"];
    let mut how = vec![];
    // a custom section whose symbols have the names of two of them
    if flag() {
        let (o, p) = (bits(32), bits(32));
        let d = Def::new("__custom", Kind::Sect(SK::Data)).data(bytes(6)).sym("b", o).sym("imp_a", p);
        must(a.declare(&d.name, d.decl()), "declare");
        must(d.define(&mut a), "a well-formed definition was rejected");
        m.def(d);
    }
    let first = m.defs.len();
    // 0: import only, 1: import then definition, 2: definition then import, 3: definition only
    for i in 0..n {
        let h = choose(4);
        how.push(h);
        let func = (i + h as usize) % 2 == 0;
        let k = if func { ImportKind::Function } else { ImportKind::Data };
        if h <= 1 {
            must(a.import(names[i], k), "a first import was rejected");
        }
    }
    for i in 0..n {
        let h = how[i];
        let func = (i + h as usize) % 2 == 0;
        let k = if func { ImportKind::Function } else { ImportKind::Data };
        if h == 0 {
            m.import(names[i], func);
            continue;
        }
        let mut d = kind_def(names[i], if func { 0 } else { 2 }, 3 + i);
        d.scope = (i % 3) as u8;
        must(a.declare(names[i], d.decl()), "a definition of an import of the same kind was rejected");
        if h == 2 {
            must(a.import(names[i], k), "an import of a definition of the same kind was rejected");
        }
        must(d.define(&mut a), "a well-formed definition was rejected");
        m.def(d);
    }
    if m.defs.len() > first && !m.imps.is_empty() {
        let at = bits(30);
        m.link(To::Def(first), To::Imp(0), at, R::Auto);
        let l = m.defs.len() - 1;
        m.link(To::Def(l), To::Def(first), at, R::Auto);
        m.link_all(&mut a);
    }
    (m, a)
}

fn c10_history(tier: u32) {
    let (m, a) = import_history(X64, BinaryFormat::Elf, tier);
    let b = emit(&a, BinaryFormat::Elf);
    check_elf(&b, &m, elfp::SYMS | elfp::CUSTOM | elfp::RELOCS | elfp::COINCIDE);
}

pub fn c11(tier: u32) {
    if choose(2) == 1 {
        return c10_history(tier);
    }
    let m = match choose(10) {
        8 => sweep(X64, true, true),
        9 => twins(X64, true),
        6 => flood(X64),
        7 => opaque_upto(X64, true, 26),
        0 => links(tier, true),
        1 => rich(X64, true),
        2 => huge(X64, true),
        3 => named(X64, true),
        4 => noisy(X64, true),
        _ => big(X64),
    };
    elf(&m, elfp::RELOCS);
}

// ---------------------------------------------------------------- C12

/// zero-initialised objects among ordinary ones
fn zeros(t: Tgt) -> Model {
    let mut m = Model::new(t);
    // around nothing, and around sizes that exceed 32 bits alone or in sum
    let base = if t.c64 { pick(&[0u64, 0x7fff_8000, 0xffff_8000]) } else { 0 };
    let n1 = base + below(1 << 16);
    let n2 = base + below(1 << 16);
    let al = pick(&[None, Some(1u64), Some(8), Some(64)]);
    let al2 = pick(&[None, Some(4u64), Some(32)]);
    m.def(Def::new("a", Kind::Data).writable(true).data(bytes(5)));
    m.def(Def::new("z1", Kind::Data).writable(true).zero(n1).align(al).scope(choose(3) as u8));
    m.def(Def::new("f", Kind::Func).data(bytes(3)).scope(GLOBAL));
    m.def(Def::new("z2", Kind::Data).zero(n2).align(al2).scope(GLOBAL));
    m.def(Def::new("s", Kind::Str).data(bytes(4)));
    m.def(Def::new("__cust", Kind::Sect(SK::Data)).data(bytes(7)).sym("cs", 2));
    m.def(Def::new("r", Kind::Data).data(bytes(9)).align(Some(16)));
    let at = bits(20);
    if t.arch == Architecture::X86_64 {
        m.link(To::Def(2), To::Def(1), at, R::Auto);
        m.link(To::Def(0), To::Def(3), at, R::Auto);
    }
    m
}

pub fn c12(tier: u32) {
    let is_elf = flag();
    let t = if is_elf { pick(&[X64, PPC]) } else { X64 };
    let mut m = Model::new(t);
    let lim = if t.c64 { 1u64 << 40 } else { 1 << 28 };
    let z = |m: &mut Model, nm: &str, w: bool, k: Kind| {
        let n = u64v();
        assume(n < lim);
        let mut d = Def::new(nm, k).zero(n).writable(w);
        d.scope = choose(3) as u8;
        d.align = if flag() { Some(1 << choose(if tier == 0 { 6 } else { 13 })) } else { None };
        m.def(d);
    };
    let shape = choose(if tier == 0 { 6 } else { 7 });
    match shape {
        4 => m = sweep(t, t.c64, is_elf),
        5 => m = twins(t, t.c64),
        3 => m = opaque_upto(t, t.c64, if is_elf { 26 } else { 15 }),
        0 => {
            let w = flag();
            z(&mut m, "zero", w, if flag() { Kind::Data } else { Kind::Str });
        }
        1 => {
            m = zeros(t);
        }
        2 => {
            // many objects of symbolic sizes
            let n = if tier == 0 { 4 } else { 6 };
            for i in 0..n {
                let s = below(1 << 10);
                let d = Def::new(&idx_name("z", i), Kind::Data).zero(s).writable(i % 2 == 0).scope((i % 3) as u8);
                m.def(d.align(if i % 3 == 1 { Some(1 << (i % 7)) } else { None }));
            }
            m.def(Def::new("d", Kind::Data).data(bytes(6)));
        }
        _ => {
            z(&mut m, "z1", true, Kind::Data);
            z(&mut m, "z2", true, Kind::Data);
        }
    }
    let fmt = if is_elf { BinaryFormat::Elf } else { BinaryFormat::Macho };
    let a = m.build(fmt);
    let b = emit(&a, fmt);
    // the file does not grow with the sizes: same length with every size zero
    let mut m0 = m.clone();
    for d in m0.defs.iter_mut() {
        if d.zero.is_some() {
            d.zero = Some(0);
        }
    }
    let b0 = emit(&m0.build(fmt), fmt);
    check(b.len() == b0.len(), "the file grows with the size of zero-initialised data");
    if is_elf {
        check_elf(&b, &m, elfp::ZERO | elfp::STRUCT | elfp::CONTENT | if t.c64 { elfp::RELOCS } else { 0 });
    } else {
        check_mach(&b, &m, machp::ALL);
    }
}

// ---------------------------------------------------------------- Mach-O

fn mach_mix(tier: u32, maxk: u64) -> Model {
    match choose(17) {
        16 => ends(X64, true, false),
        14 => {
            let t = pick(&[X64, X86]);
            sweep(t, t.arch == Architecture::X86_64, false)
        }
        15 => twins(X64, true),
        12 => opaque(X64, true),
        13 => bulk(pick(&[X64, A64])),
        8 => {
            let t = pick(&[X64, X86]);
            named(t, t.c64)
        }
        9 => patterned(pick(&[X64, A64])),
        10 => noisy(X64, true),
        11 => spread(),
        0 => {
            let mut m = single(tier, &MACH4, NKIND, maxk);
            for d in m.defs.iter_mut() {
                // keep addresses of a 32-bit segment in range
                if let Some(z) = d.zero {
                    assume(z < 1 << 28);
                }
            }
            m
        }
        1 => {
            if tier == 0 {
                several(tier, &[X64], &[0, 1, 4, 6], 3, &[3, 0, 8], false, 0)
            } else {
                several(tier, &[X64, PPC64], &[0, 1, 2, 3, 4, 5, 6, 7], 3, &[3, 0, 8], false, 0)
            }
        }
        2 => links(tier, false),
        3 => {
            let n = if tier == 0 { 45 } else { 150 };
            many(&[X64], n, 7, 0)
        }
        4 => {
            if flag() {
                pads(tier)
            } else {
                aligned(tier)
            }
        }
        5 => several(tier, &[X64], &[0, 2, 4], 2, &[5, 2], true, if tier == 0 { 0 } else { 5 }),
        6 => rich(X64, true),
        _ => big(X64),
    }
}

/// every small and every nearly whole padding in front of each alignment
fn pads(tier: u32) -> Model {
    let mut m = Model::new(X64);
    let e = choose(if tier == 0 { 15 } else { 17 }) as u64;
    let p = choose(72) as u64;
    let al = 1u64 << e;
    let pad = match p {
        0..=34 => p,
        35..=69 => al.wrapping_sub(p - 34),
        70 => al / 2,
        _ => al / 2 + 1,
    };
    assume(pad < al && (p < 35 || pad > 34));
    let k = [0u32, 2, 3, 1][((e + p) % 4) as usize];
    let len = |n: u64| -> Vec<u8> { (0..n).map(|i| 1 + (i % 251) as u8).collect() };
    m.def(Def { data: len(al - pad), ..kind_def("a", k, 0) }.scope((p % 3) as u8));
    m.def(kind_def("b", k, 3).align(Some(al)).scope((p % 3) as u8));
    // (definitions come in the order of their attributes)
    m.def(kind_def("c", k, 2).align(Some(al)).scope((p % 3) as u8));
    let at = bits(16);
    m.link(To::Def(1), To::Def(2), at, R::Raw(if k == 0 { 2 } else { 0 }, 0));
    m
}

/// several objects of one section with every combination of small alignments
fn aligned(tier: u32) -> Model {
    let mut m = Model::new(X64);
    let k = pick(&[0u32, 2, 3, 4]);
    let n = if tier == 0 { 3 } else { 4 };
    let lens = [5usize, 1, 19, 8];
    let big = flag();
    let names = ["p", "q", "r", "s"];
    for i in 0..n {
        let al = match choose(if tier == 0 || big { 3 } else { 4 }) {
            0 => None,
            1 if big => Some(1u64 << [13, 15, 14, 12][i]),
            2 if big => Some(1u64 << [4, 8, 13, 15][i]),
            1 => Some(1u64 << [5, 6, 1, 3][i]),
            2 => Some(1u64 << [0, 2, 5, 7][i]),
            _ => Some(1u64 << [12, 4, 3, 0][i]),
        };
        m.def(kind_def(names[i], k, lens[i]).align(al).scope((i % 3) as u8));
    }
    m.def(kind_def("other", if k == 0 { 2 } else { 0 }, 3));
    let at = bits(16);
    m.link(To::Def(1), To::Def(n), at, if k == 0 { R::Auto } else { R::Raw(0, 0) });
    m
}

/// Mach-O numbers sections with one byte: the most sections there can be, and one more
fn many_sections() {
    let n = 251 + choose(2) as usize;
    let mut m = Model::new(X64);
    for i in 0..n {
        let o = bits(16);
        m.def(Def::new(&idx_name("__s", i), Kind::Sect([SK::Data, SK::Debug, SK::Text][i % 3])).data(bytes(i % 3)).sym(&idx_name("y", i), o));
    }
    m.def(Def::new("f", Kind::Func).data(bytes(3)));
    let a = m.build(BinaryFormat::Macho);
    match a.emit_as(BinaryFormat::Macho) {
        Ok(b) => check_mach(&b, &m, machp::STRUCT | machp::SYMS | machp::CUSTOM),
        Err(_) => check(n > 251, "an artifact with as many sections as can be numbered is refused"),
    }
}

/// every architecture with a Mach-O cpu type
fn mach_targets() {
    use tl::*;
    let t: Vec<_> = all_archs().into_iter().filter(|x| x.4 != 0).collect();
    let (arch, c64, be, _, cpu) = t[choose(t.len() as u32) as usize];
    let mut m = Model::new(Tgt { arch, c64, be, machine: 0, cpu });
    if flag() {
        m = link_model(m.tgt, choose(3) as u8);
        // (the bit fields of big-endian relocations, like their kinds, are not x86-64's)
        if c64 && !be {
            let at = bits(24);
            m.link(To::Def(0), To::Def(1), at, R::Auto);
            m.link(To::Def(1), To::Imp(1), at, R::Auto);
        }
    }
    mach(&m, machp::STRUCT | machp::SYMS);
}

pub fn c13(tier: u32) {
    match choose(6) {
        4 => return mach(&huge(X64, true), machp::STRUCT),
        5 => return mach(&flood(X64), machp::STRUCT),
        0 => return many_sections(),
        1 => return mach_targets(),
        2 => return mach(&zeros(X64), machp::STRUCT),
        _ => {}
    }
    let m = mach_mix(tier, if tier == 0 { 7 } else { 14 });
    mach(&m, machp::STRUCT);
}
pub fn c14(tier: u32) {
    let m = mach_mix(tier, if tier == 0 { 14 } else { 18 });
    mach(&m, machp::CONTENT);
}
pub fn c15(tier: u32) {
    if choose(2) == 1 {
        let (m, a) = import_history(X64, BinaryFormat::Macho, tier);
        let b = emit(&a, BinaryFormat::Macho);
        return check_mach(&b, &m, machp::SYMS | machp::CUSTOM | machp::RELOCS | machp::COINCIDE);
    }
    let m = if flag() { huge(X64, true) } else { mach_mix(tier, 4) };
    mach(&m, machp::SYMS | machp::CUSTOM);
}
pub fn c16(tier: u32) {
    if choose(2) == 1 {
        let (m, a) = import_history(X64, BinaryFormat::Macho, tier);
        let b = emit(&a, BinaryFormat::Macho);
        return check_mach(&b, &m, machp::RELOCS | machp::COINCIDE);
    }
    let m = match choose(13) {
        11 => sweep(X64, true, false),
        12 => twins(X64, true),
        8 => flood(X64),
        9 => opaque(X64, true),
        10 => bulk(X64),
        0 => links(tier, false),
        1 => aligned(tier),
        2 => rich(X64, true),
        3 => huge(X64, true),
        4 => named(X64, true),
        5 => noisy(X64, true),
        6 => spread(),
        _ => big(X64),
    };
    mach(&m, machp::RELOCS);
}

// ---------------------------------------------------------------- C17

pub fn c17(tier: u32) {
    let is_elf = flag();
    let t = if is_elf { pick(&ELF4) } else { X64 };
    let mut m = Model::new(t);
    let kinds = [SK::Data, SK::Debug, SK::Text];
    // (Mach-O symbol values are addresses: section address plus offset)
    let off = || if !is_elf { bits(62) } else if t.c64 { u64v() } else { u32v() as u64 };
    match choose(if tier == 0 { 13 } else { 14 }) {
        11 => m = sweep(t, t.arch == Architecture::X86_64, is_elf),
        12 => m = twins(t, t.arch == Architecture::X86_64),
        9 => m = opaque_upto(t, t.arch == Architecture::X86_64, if is_elf { 26 } else { 15 }),
        10 => m = bulk(t),
        5 => m = huge(t, t.arch == Architecture::X86_64),
        6 => m = named(t, t.arch == Architecture::X86_64),
        7 => m = noisy(t, t.arch == Architecture::X86_64),
        8 => m = patterned(t),
        0 => {
            let k = pick(&kinds);
            let str_ = flag();
            let name = pick(&["", ".debug", ".debug_str", ".debug_line_str", ".debug_info", "debug_x", ".text", "__text_", "sixteen_bytes_ok", ".d", ".debug_a.debug", "x.debug", "__debug"]);
            assume(!(name.is_empty() && !is_elf));
            let len = pick(&[0usize, 1, 9, 40]);
            let mut d = Def::new(name, if str_ { Kind::SectStr(k) } else { Kind::Sect(k) }).data(bytes(len));
            d.align = if flag() { Some(1 << choose(if tier == 0 { 7 } else { 20 })) } else { None };
            for i in 0..choose(4) as usize {
                let o = off();
                d = d.sym(["first", "a_symbol_name_longer_than_32_characters_", "zz"][i], o);
            }
            m.def(d);
        }
        4 => {
            // names with symbolic characters around the renamed prefix
            hash_stub(true);
            let k = pick(&kinds);
            let mut nm = String::from(pick(&["", ".debug", ".debug_a", "x"]));
            let c = choose(2);
            nm.push_str(&name(if nm.is_empty() { 7 } else { [6, 7][c as usize] }));
            let (s1, o1) = (name(if flag() { 2 } else { nm.len() }), off());
            m.def(Def::new(&nm, Kind::Sect(k)).data(bytes(4)).sym(&s1, o1));
        }
        1 => {
            // two sections, with symbols, next to ordinary definitions
            let k1 = pick(&kinds);
            let k2 = pick(&kinds);
            let (o1, o2, o3) = (off(), off(), off());
            m.def(Def::new("f", Kind::Func).data(bytes(5)).scope(choose(3) as u8));
            m.def(Def::new(".debug_abbrev", Kind::Sect(k1)).data(bytes(6)).sym("x", o1).sym("w", o2));
            m.def(Def::new("__second", Kind::Sect(k2)).data(bytes(3)).sym("y", o3).align(Some(32)));
            m.def(Def::new("d", Kind::Data).writable(true).data(bytes(2)).scope(GLOBAL));
            m.def(Def::new("z", Kind::Data).writable(true).zero(9));
            m.import("i", true);
            if k1 == SK::Debug {
                let at = bits(30);
                m.link(To::Def(1), To::Def(0), at, R::Debug(8, 0));
                m.link(To::Def(1), To::Imp(0), at, R::Debug(4, 0));
            }
        }
        2 => {
            // many sections, many symbols
            let n = if tier == 0 { 9 } else { 40 };
            for i in 0..n {
                let mut d = Def::new(&idx_name("__sec", i), Kind::Sect(kinds[i % 3])).data(bytes(i % 5));
                for j in 0..(i * 3) % 7 {
                    let o = off();
                    let mut s = idx_name("s", i);
                    s.push_str(&idx_name("_", j));
                    d = d.sym(&s, o);
                }
                m.def(d);
            }
            m.def(Def::new("f", Kind::Func).data(bytes(5)).scope(WEAK));
        }
        3 => m = rich(t, t.arch == Architecture::X86_64),
        _ => {
            let k1 = pick(&kinds);
            let k2 = pick(&kinds);
            let k3 = pick(&kinds);
            m.def(Def::new("__a", Kind::Sect(k1)).data(bytes(4)).align(sym_align(if is_elf { 63 } else { 8 })));
            m.def(Def::new("__b", Kind::SectStr(k2)).data(bytes(0)).align(sym_align(if is_elf { 63 } else { 8 })).sym("b", 0));
            m.def(Def::new("__c", Kind::Sect(k3)).data(bytes(1)).sym("c", 1));
        }
    }
    if is_elf {
        elf(&m, elfp::CUSTOM | elfp::SYMS | if t.arch == Architecture::X86_64 { elfp::RELOCS } else { 0 });
    } else {
        mach(&m, machp::CUSTOM | machp::SYMS | machp::RELOCS);
    }
}
