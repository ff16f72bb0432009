//! What was asked of the artifact: an independent record against which emitted objects are judged.
use crate::sym::*;
use faerie::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum SK {
    Data,
    Debug,
    Text,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Func,
    Data,
    Str,
    Sect(SK),
    SectStr(SK),
}

pub const LOCAL: u8 = 0;
pub const GLOBAL: u8 = 1;
pub const WEAK: u8 = 2;

#[derive(Clone)]
pub struct Def {
    pub name: String,
    pub kind: Kind,
    pub scope: u8,
    /// ELF numbering: 0 default, 2 hidden, 3 protected
    pub vis: u8,
    pub writable: bool,
    pub align: Option<u64>,
    pub data: Vec<u8>,
    pub zero: Option<u64>,
    pub syms: Vec<(String, u64)>,
}

#[derive(Clone)]
pub struct Imp {
    pub name: String,
    pub func: bool,
}

#[derive(Clone)]
pub struct Lnk {
    /// index into defs
    pub from: usize,
    pub to: To,
    pub at: u64,
    pub reloc: R,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum To {
    Def(usize),
    Imp(usize),
}
#[derive(Clone, Copy)]
pub enum R {
    Auto,
    Raw(u32, i32),
    Debug(u8, i32),
}

#[derive(Clone, Copy)]
pub struct Tgt {
    pub arch: Architecture,
    pub c64: bool,
    pub be: bool,
    pub machine: u16,
    pub cpu: u32,
}

pub const X64: Tgt = Tgt { arch: Architecture::X86_64, c64: true, be: false, machine: 62, cpu: 0x0100_0007 };
pub const X86: Tgt = Tgt { arch: Architecture::X86_32(target_lexicon::X86_32Architecture::I686), c64: false, be: false, machine: 3, cpu: 7 };
pub const S390: Tgt = Tgt { arch: Architecture::S390x, c64: true, be: true, machine: 22, cpu: 0 };
pub const PPC: Tgt = Tgt { arch: Architecture::Powerpc, c64: false, be: true, machine: 20, cpu: 18 };
pub const PPC64: Tgt = Tgt { arch: Architecture::Powerpc64, c64: true, be: true, machine: 21, cpu: 0x0100_0012 };
pub const A64: Tgt = Tgt { arch: Architecture::Aarch64(target_lexicon::Aarch64Architecture::Aarch64), c64: true, be: false, machine: 183, cpu: 0x0100_000c };

pub fn triple_of(arch: Architecture, fmt: BinaryFormat, env: Environment) -> Triple {
    let mut t = Triple::unknown();
    t.architecture = arch;
    t.binary_format = fmt;
    t.environment = env;
    t
}

/// an artifact for `arch` whose binary format, vendor, operating system, environment (but for those
/// that change the width of pointers) and library flag are symbolic
pub fn any_system(arch: Architecture, name: &str) -> Artifact {
    let env = any_env();
    assume((env != Environment::Gnux32) & (env != Environment::GnuIlp32));
    let mut t = triple_of(arch, any_format(), env);
    t.vendor = any_vendor();
    t.operating_system = any_os();
    let mut a = Artifact::new(t, name.to_string());
    a.is_library = bits(1) != 0;
    a
}
pub fn any_env() -> Environment {
    unsafe { std::mem::transmute::<u8, Environment>(below(Environment::Threads as u64 + 1) as u8) }
}
pub fn any_format() -> BinaryFormat {
    unsafe { std::mem::transmute::<u8, BinaryFormat>(below(BinaryFormat::Xcoff as u64 + 1) as u8) }
}
/// the variants of an enumeration that lie between two others differ in one byte of their
/// representation, which counts up
unsafe fn between<T>(lo: &T, hi: &T, fill: &T) -> T {
    let k = std::mem::size_of::<T>();
    let (p, q) = (std::hint::black_box(lo as *const T as *const u8), std::hint::black_box(hi as *const T as *const u8));
    let mut at = 0;
    while at < k && *p.add(at) == *q.add(at) {
        at += 1;
    }
    let base = *p.add(at % k);
    let n = u64::from((*q.add(at % k)).wrapping_sub(base));
    if at == k || n < 8 || n > 80 {
        panic!("the representation of target_lexicon's enumerations is not understood");
    }
    let mut x = std::mem::MaybeUninit::<T>::zeroed();
    std::ptr::copy_nonoverlapping(fill as *const T, x.as_mut_ptr(), 1);
    let b = std::hint::black_box(x.as_mut_ptr() as *mut u8);
    *b.add(at) = base + below(n + 1) as u8;
    x.assume_init()
}
pub fn any_vendor() -> target_lexicon::Vendor {
    use target_lexicon::Vendor::*;
    unsafe { between(&Unknown, &Wrs, &Unknown) }
}
pub fn any_os() -> target_lexicon::OperatingSystem {
    use target_lexicon::OperatingSystem::*;
    unsafe { between(&Unknown, &Windows, &MacOSX { major: 11, minor: 1, patch: 0 }) }
}

#[derive(Clone)]
pub struct Model {
    pub tgt: Tgt,
    pub name: String,
    pub defs: Vec<Def>,
    pub imps: Vec<Imp>,
    pub links: Vec<Lnk>,
    /// so many symbols that the judges look them up by (concrete) name
    pub indexed: bool,
    /// names are symbolic or may coincide with generated ones
    pub named: bool,
    /// build with rejected and redundant calls, upgrades, failed emissions and clones in between
    pub noise: bool,
}

pub fn scope_of(s: u8) -> Scope {
    match s {
        LOCAL => Scope::Local,
        GLOBAL => Scope::Global,
        _ => Scope::Weak,
    }
}
pub fn vis_of(v: u8) -> Visibility {
    match v {
        0 => Visibility::Default,
        2 => Visibility::Hidden,
        _ => Visibility::Protected,
    }
}
pub fn sk_of(k: SK) -> SectionKind {
    match k {
        SK::Data => SectionKind::Data,
        SK::Debug => SectionKind::Debug,
        SK::Text => SectionKind::Text,
    }
}

impl Def {
    pub fn new(name: &str, kind: Kind) -> Def {
        Def {
            name: name.to_string(),
            kind,
            scope: LOCAL,
            vis: 0,
            writable: false,
            align: None,
            data: Vec::new(),
            zero: None,
            syms: Vec::new(),
        }
    }
    pub fn scope(mut self, s: u8) -> Def {
        self.scope = s;
        self
    }
    pub fn vis(mut self, s: u8) -> Def {
        self.vis = s;
        self
    }
    pub fn data(mut self, d: Vec<u8>) -> Def {
        self.data = d;
        self
    }
    pub fn zero(mut self, n: u64) -> Def {
        self.zero = Some(n);
        self
    }
    pub fn writable(mut self, w: bool) -> Def {
        self.writable = w;
        self
    }
    pub fn align(mut self, a: Option<u64>) -> Def {
        self.align = a;
        self
    }
    pub fn sym(mut self, n: &str, at: u64) -> Def {
        self.syms.push((n.to_string(), at));
        self
    }
    pub fn is_section(&self) -> bool {
        matches!(self.kind, Kind::Sect(_) | Kind::SectStr(_))
    }
    pub fn sk(&self) -> Option<SK> {
        match self.kind {
            Kind::Sect(k) | Kind::SectStr(k) => Some(k),
            _ => None,
        }
    }
    pub fn size(&self) -> u64 {
        match self.zero {
            Some(n) => n,
            None => self.data.len() as u64,
        }
    }
    pub fn decl(&self) -> Decl {
        match self.kind {
            Kind::Func => FunctionDecl::default()
                .with_scope(scope_of(self.scope))
                .with_visibility(vis_of(self.vis))
                .with_align(self.align)
                .into(),
            Kind::Data | Kind::Str => DataDecl::default()
                .with_datatype(if self.kind == Kind::Str { DataType::String } else { DataType::Bytes })
                .with_scope(scope_of(self.scope))
                .with_visibility(vis_of(self.vis))
                .with_writable(self.writable)
                .with_align(self.align)
                .into(),
            Kind::Sect(k) => SectionDecl::new(sk_of(k)).with_align(self.align).into(),
            Kind::SectStr(k) => SectionDecl::new(sk_of(k)).with_datatype(DataType::String).with_align(self.align).into(),
        }
    }
    pub fn define(&self, a: &mut Artifact) -> Result<(), ArtifactError> {
        if let Some(n) = self.zero {
            a.define_zero_init(&self.name, n as usize)
        } else if self.syms.is_empty() {
            a.define(&self.name, self.data.clone())
        } else {
            let mut m = BTreeMap::new();
            for (n, o) in &self.syms {
                m.insert(n.clone(), *o);
            }
            a.define_with_symbols(&self.name, self.data.clone(), m)
        }
    }
}

pub fn reloc_of(r: R) -> Reloc {
    match r {
        R::Auto => Reloc::Auto,
        R::Raw(reloc, addend) => Reloc::Raw { reloc, addend },
        R::Debug(size, addend) => Reloc::Debug { size, addend },
    }
}

pub fn must(r: Result<(), ArtifactError>, m: &str) {
    if r.is_err() {
        fail(m)
    }
}

impl Model {
    pub fn new(tgt: Tgt) -> Model {
        Model { tgt, name: "test.o".to_string(), defs: vec![], imps: vec![], links: vec![], indexed: false, named: false, noise: false }
    }
    pub fn import(&mut self, name: &str, func: bool) -> To {
        self.imps.push(Imp { name: name.to_string(), func });
        To::Imp(self.imps.len() - 1)
    }
    pub fn def(&mut self, d: Def) -> To {
        self.defs.push(d);
        To::Def(self.defs.len() - 1)
    }
    pub fn link(&mut self, from: To, to: To, at: u64, reloc: R) {
        if let To::Def(from) = from {
            self.links.push(Lnk { from, to, at, reloc });
        }
    }
    pub fn to_name(&self, t: To) -> &str {
        match t {
            To::Def(i) => &self.defs[i].name,
            To::Imp(i) => &self.imps[i].name,
        }
    }
    /// the target's own format and its system are any, and so is the library flag
    pub fn empty_artifact(&self, _fmt: BinaryFormat) -> Artifact {
        any_system(self.tgt.arch, &self.name)
    }
    /// declare everything, define everything, link everything
    pub fn build(&self, fmt: BinaryFormat) -> Artifact {
        if self.noise {
            return self.build_noisy(fmt);
        }
        let mut a = self.empty_artifact(fmt);
        let bad = "a well-formed definition was rejected";
        // the order of the calls varies with the shape; it must not matter
        match (self.defs.len() + self.links.len() + self.name.len()) % 4 {
            // (taking imports back is quadratic)
            3 if self.defs.len() > 3000 => {
                self.declare_all(&mut a);
                for d in &self.defs {
                    must(d.define(&mut a), bad);
                }
                self.link_all(&mut a);
            }
            0 => {
                self.declare_all(&mut a);
                self.link_all(&mut a);
                for d in &self.defs {
                    must(d.define(&mut a), bad);
                }
            }
            1 => {
                self.declare_imports(&mut a);
                for d in &self.defs {
                    must(a.declare(&d.name, d.decl()), "a first declaration was rejected");
                    must(d.define(&mut a), bad);
                }
                self.link_all(&mut a);
            }
            2 => {
                self.declare_all(&mut a);
                for d in self.defs.iter().rev() {
                    must(d.define(&mut a), bad);
                }
                self.link_all(&mut a);
            }
            _ => {
                // everything is an import at first; what a link comes out of is declared before it, and
                // the rest when everything is linked
                self.declare_imports(&mut a);
                let mut done = vec![false; self.defs.len()];
                let up = |a: &mut Artifact, i: usize, done: &mut Vec<bool>| {
                    if !done[i] {
                        done[i] = true;
                        must(a.declare(&self.defs[i].name, self.defs[i].decl()), "an upgrade of an import was rejected");
                    }
                };
                for (i, d) in self.defs.iter().enumerate() {
                    if d.is_section() {
                        up(&mut a, i, &mut done);
                    } else {
                        let k = if d.kind == Kind::Func { ImportKind::Function } else { ImportKind::Data };
                        must(a.import(&d.name, k), "a first import was rejected");
                    }
                }
                for (n, l) in self.links.iter().enumerate() {
                    up(&mut a, l.from, &mut done);
                    self.link_one(&mut a, n);
                }
                for i in 0..self.defs.len() {
                    up(&mut a, i, &mut done);
                }
                for d in &self.defs {
                    must(d.define(&mut a), bad);
                }
            }
        }
        a
    }
    /// the same artifact by a history of calls in which many are rejected, redundant or upgrades
    pub fn build_noisy(&self, fmt: BinaryFormat) -> Artifact {
        let mut a = self.empty_artifact(fmt);
        let bad = "a well-formed definition was rejected";
        let no = "a call that must be rejected succeeded";
        let kind = |d: &Def| if d.kind == Kind::Func { ImportKind::Function } else { ImportKind::Data };
        check(a.define("never_declared", vec![1]).is_err(), no);
        for (i, d) in self.defs.iter().enumerate() {
            if i % 2 == 0 && !d.is_section() {
                must(a.import(&d.name, kind(d)), "a first import was rejected");
                check(a.declare(&d.name, Decl::section(SectionKind::Data)).is_err(), no);
            }
        }
        self.declare_imports(&mut a);
        for i in self.imps.iter().rev().skip(1) {
            let k = if i.func { ImportKind::Function } else { ImportKind::Data };
            must(a.import(&i.name, k), "a redundant import was rejected");
        }
        for i in &self.imps {
            check(a.define(&i.name, vec![3, 4]).is_err(), no);
            check(a.link(Link { from: &i.name, to: &i.name, at: 1 }).is_err(), no);
        }
        let mut b = a.clone();
        for (i, d) in self.defs.iter().enumerate() {
            must(b.declare(&d.name, d.decl()), "a first declaration or an upgrade of an import was rejected");
            must(b.declare(&d.name, d.decl()), "a redundant declaration was rejected");
            check(b.link(Link { from: &d.name, to: "nowhere", at: 0 }).is_err(), no);
            check(b.emit_as(fmt).is_err(), no);
            if i % 3 == 0 {
                b = b.clone();
            }
            if i % 3 == 2 {
                must(d.define(&mut b), bad);
                check(d.define(&mut b).is_err(), no);
            }
        }
        for (i, d) in self.defs.iter().enumerate().rev() {
            if i % 3 == 2 {
                continue;
            }
            if !d.is_section() {
                let mut s = BTreeMap::new();
                s.insert("rejected_symbol".to_string(), 1);
                s.insert(self.defs[0].name.clone(), 0);
                check(b.define_with_symbols(&d.name, vec![9], s).is_err(), no);
            }
            if d.kind == Kind::Func || d.is_section() {
                check(b.define_zero_init(&d.name, 77).is_err(), no);
            }
            must(d.define(&mut b), bad);
            if !d.is_section() {
                must(b.import(&d.name, kind(d)), "an import of a definition was rejected");
            }
            check(b.define(&d.name, vec![1, 2, 3]).is_err(), no);
        }
        for l in &self.links {
            check(b.link(Link { from: "nowhere", to: self.to_name(l.to), at: l.at }).is_err(), no);
            let r = b.link_with(Link { from: &self.defs[l.from].name, to: self.to_name(l.to), at: l.at }, reloc_of(l.reloc));
            must(r, "a well-formed link was rejected");
        }
        let _ = b.emit_as(fmt);
        let c = b.clone();
        drop(b);
        c
    }
    pub fn declare_all(&self, a: &mut Artifact) {
        for d in &self.defs {
            must(a.declare(&d.name, d.decl()), "a first declaration was rejected");
        }
        self.declare_imports(a);
    }
    pub fn declare_imports(&self, a: &mut Artifact) {
        for i in &self.imps {
            let k = if i.func { ImportKind::Function } else { ImportKind::Data };
            must(a.import(&i.name, k), "a first import was rejected");
        }
    }
    pub fn link_all(&self, a: &mut Artifact) {
        for n in 0..self.links.len() {
            self.link_one(a, n);
        }
    }
    fn link_one(&self, a: &mut Artifact, n: usize) {
        let l = &self.links[n];
        let k = Link { from: &self.defs[l.from].name, to: self.to_name(l.to), at: l.at };
        let r = match l.reloc {
            R::Auto if (n + self.links.len()) % 2 == 1 => a.link(k),
            r => a.link_with(k, reloc_of(r)),
        };
        must(r, "a well-formed link was rejected");
    }
}

pub fn emit(a: &Artifact, fmt: BinaryFormat) -> Vec<u8> {
    match a.emit_as(fmt) {
        Ok(b) => b,
        Err(_) => fail("emission of a complete artifact returned an error"),
    }
}
