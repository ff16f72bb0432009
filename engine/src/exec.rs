//! The symbolic executor: one call of `run` explores one path.
use crate::expr::*;
use crate::ir::*;
use crate::mem::Mem;
use crate::z3::{Api, Sat, Solver};
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Default)]
pub struct Work {
    pub prefix: Vec<u64>,
    pub model: Vec<u128>,
}

#[derive(Debug, Clone)]
pub enum End {
    /// returned from the entry function
    Done,
    /// an assumption cannot be met
    Infeasible,
    Violation(String),
    Inconclusive(String),
    /// other workers asked to stop
    Stopped,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    None,
    Panic,
    SymVar,
    SymChoose,
    SymAssume,
    SymAssert,
    SymObserve,
    SymReach,
    SymFail,
    SymHashStub,
    SymConcretize,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Memcmp,
    Bcmp,
    Strlen,
    Memchr,
    Memcpy,
    Memset,
    Close,
    Fcntl,
    Getenv,
    Errno,
    Getrandom,
    Syscall,
    Abort,
    Hash,
    NopRet0,
}

pub struct Cfg {
    pub max_steps: u64,
    pub max_values: usize,
    pub solver_ms: u32,
    pub dump: Option<(String, u64)>,
}

pub struct Prog {
    pub m: Module,
    pub ext: Vec<Ext>,
    pub cov_base: Vec<u32>,
    pub cov_len: usize,
    /// externals that the harness models itself: `__model_NAME` is called instead of NAME
    pub redirect: Vec<Option<u32>>,
    pub errno_addr: u64,
}

fn classify(name: &str, defined: bool) -> Ext {
    let has = |s: &str| name.contains(s);
    if name.starts_with("__sym_") {
        return match name {
            "__sym_var" => Ext::SymVar,
            "__sym_choose" => Ext::SymChoose,
            "__sym_assume" => Ext::SymAssume,
            "__sym_assert" => Ext::SymAssert,
            "__sym_observe" => Ext::SymObserve,
            "__sym_reach" => Ext::SymReach,
            "__sym_fail" => Ext::SymFail,
            "__sym_hash_stub" => Ext::SymHashStub,
            "__sym_concretize" => Ext::SymConcretize,
            _ => Ext::None,
        };
    }
    if has("4core9panicking")
        || (has("3std9panicking") && !has("panic_count"))
        || has("13unwrap_failed")
        || has("13expect_failed")
        || has("12handle_error")
        || has("18handle_alloc_error")
        || has("17capacity_overflow")
        || has("16slice_index_fail")
        || has("16slice_error_fail")
        || has("17len_mismatch_fail")
        || has("15copy_from_slice_impl17len_mismatch")
        || has("24panic_access_error")
        || has("11assert_failed")
    {
        return Ext::Panic;
    }
    if !defined {
        return match name {
            "malloc" => Ext::Malloc,
            "calloc" => Ext::Calloc,
            "realloc" => Ext::Realloc,
            "free" => Ext::Free,
            "posix_memalign" => Ext::Memalign,
            "memcmp" => Ext::Memcmp,
            "bcmp" => Ext::Bcmp,
            "strlen" => Ext::Strlen,
            "memchr" => Ext::Memchr,
            "memcpy" | "memmove" => Ext::Memcpy,
            "memset" => Ext::Memset,
            "close" => Ext::Close,
            "fcntl" | "fcntl64" => Ext::Fcntl,
            "getenv" => Ext::Getenv,
            "__errno_location" => Ext::Errno,
            "getrandom" => Ext::Getrandom,
            "syscall" => Ext::Syscall,
            "abort" => Ext::Abort,
            "__cxa_thread_atexit_impl" => Ext::NopRet0,
            _ => Ext::None,
        };
    }
    // string hashing entry points (see `__sym_hash_stub`)
    if has("4core4hash6Hasher6finish") {
        return Ext::Hash;
    }
    Ext::None
}

impl Prog {
    pub fn new(mut m: Module) -> Prog {
        let ext: Vec<Ext> = m.funcs.iter().map(|f| classify(&f.name, f.defined)).collect();
        let mut cov_base = vec![];
        let mut n = 0u32;
        for f in &m.funcs {
            cov_base.push(n);
            n += f.code.len() as u32 + 1;
        }
        let redirect = m
            .funcs
            .iter()
            .map(|f| if f.defined { None } else { m.fidx.get(&format!("__model_{}", f.name)).copied() })
            .collect();
        // errno cell at the end of the image
        while m.image.len() % 16 != 0 {
            m.image.push(0);
        }
        let errno_addr = MEM_BASE + m.image.len() as u64;
        m.image.extend_from_slice(&[0; 16]);
        Prog { ext, cov_base, cov_len: n as usize, redirect, errno_addr, m }
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub steps: u64,
    pub queries: u64,
    pub qsat: u64,
    pub qunsat: u64,
    pub qtime: f64,
    pub qmax: f64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_const: u64,
    pub asserts_solved: u64,
    pub sym_branches: u64,
    pub forced: u64,
    pub reach: BTreeMap<String, u64>,
    pub max_heap: u64,
}

struct Frame {
    f: u32,
    pc: u32,
    base: usize,
    dst: u32,
    sp: u64,
    nret: u32,
}

pub struct Exec {
    pub p: Arc<Prog>,
    pub cfg: Arc<Cfg>,
    pub api: Api,
    pub ar: Arena,
    pub mem: Mem,
    regs: Vec<Val>,
    frames: Vec<Frame>,
    solver: Option<Solver>,
    pc: Vec<u32>,
    asserted: usize,
    facts: FxMap<u32, u32>, // expr -> const expr id known equal
    pub model: Vec<u128>,
    pub prefix: Vec<u64>,
    pos: usize,
    pub newwork: Vec<Work>,
    /// what this path left unexplored
    pub partial: Vec<String>,
    obs: Vec<Val>,
    pub st: Stats,
    pub cov: Vec<u8>,
    tmp: Vec<Val>,
    hash_stub: bool,
    pub trace: bool,
    pub pathlog: Vec<String>,
    rnd: u64,
    pub log_on: bool,
}

type X<T> = Result<T, End>;

fn inc<T>(s: impl Into<String>) -> X<T> {
    Err(End::Inconclusive(s.into()))
}

impl Exec {
    pub fn new(p: Arc<Prog>, cfg: Arc<Cfg>, api: Api) -> Exec {
        let mem = Mem::new(&p.m.image);
        let cov = vec![0; p.cov_len];
        Exec {
            p,
            cfg,
            api,
            ar: Arena::new(),
            mem,
            regs: vec![],
            frames: vec![],
            solver: None,
            pc: vec![],
            asserted: 0,
            facts: Default::default(),
            model: vec![],
            prefix: vec![],
            pos: 0,
            newwork: vec![],
            partial: vec![],
            obs: vec![],
            st: Stats::default(),
            cov,
            tmp: vec![],
            hash_stub: false,
            trace: false,
            pathlog: vec![],
            rnd: 0,
            log_on: false,
        }
    }

    fn replaying(&self) -> bool {
        self.pos < self.prefix.len()
    }
    /// a 32-bit C boolean as a 1-bit value
    fn nonzero(&mut self, v: Val) -> Val {
        if v.e == 0 {
            return Val::c((v.c != 0) as u64);
        }
        let z = self.ar.konst(self.ar.w(v.e), 0);
        let e = self.ar.eq(v.e, z);
        let e = self.ar.not(e);
        self.ar.val(e)
    }
    fn check(&mut self, cond: u32) -> (Sat, Vec<u128>) {
        if let Some(c) = self.ar.cval(cond) {
            if c == 0 {
                return (Sat::Unsat, vec![]);
            }
        }
        if self.solver.is_none() {
            let mut s = Solver::new(self.api, self.cfg.solver_ms / 8, false);
            if let Some((d, n)) = &self.cfg.dump {
                s.dump = Some((d.clone(), *n, 0));
            }
            self.solver = Some(s);
        }
        let s = self.solver.as_mut().unwrap();
        while self.asserted < self.pc.len() {
            s.assert(&self.ar, self.pc[self.asserted]);
            self.asserted += 1;
        }
        let r = s.check(&self.ar, cond);
        if r.0 != Sat::Unknown {
            return r;
        }
        // another solver, from scratch and for longer
        let mut t = Solver::new(self.api, self.cfg.solver_ms, true);
        for c in &self.pc {
            t.assert(&self.ar, *c);
        }
        let r = t.check(&self.ar, cond);
        s.time += t.time;
        s.max_time = s.max_time.max(t.max_time);
        r
    }
    fn set_model(&mut self, m: Vec<u128>) {
        self.model = m;
        self.ar.new_model();
    }
    fn learn(&mut self, e: u32, v: u32) {
        self.facts.insert(e, v);
        let k = self.ar.key(e);
        if k.w == 1 {
            let one = self.ar.konst(1, 1);
            let zero = self.ar.konst(1, 0);
            if k.op == K::Not {
                let nv = if v == one { zero } else { one };
                self.facts.insert(k.a, nv);
            } else {
                let n = self.ar.not(e);
                let nv = if v == one { zero } else { one };
                self.facts.insert(n, nv);
            }
            if k.op == K::And && v == one {
                self.learn(k.a, one);
                self.learn(k.b, one);
            }
            if k.op == K::Eq && v == one && self.ar.cval(k.b).is_some() {
                self.facts.insert(k.a, k.b);
            }
        }
    }
    fn add_pc(&mut self, c: u32) {
        if self.ar.cval(c).is_some() {
            return;
        }
        self.pc.push(c);
        let one = self.ar.konst(1, 1);
        self.learn(c, one);
    }
    fn known(&self, e: u32) -> Option<u128> {
        if let Some(v) = self.ar.cval(e) {
            return Some(v);
        }
        self.facts.get(&e).and_then(|v| self.ar.cval(*v))
    }

    fn noans<T>(&self, e: u32) -> X<T> {
        let sh = self.ar.show(e, 6);
        inc(format!("solver gave no answer on {} in {}", &sh[..sh.len().min(600)], self.stack()))
    }

    /// decide a one-bit expression, forking when both sides are feasible
    fn branch(&mut self, e: u32) -> X<bool> {
        if let Some(v) = self.known(e) {
            return Ok(v != 0);
        }
        self.st.sym_branches += 1;
        if self.replaying() {
            let d = self.prefix[self.pos];
            self.pos += 1;
            let v = d & 1 != 0;
            let c = if v { e } else { self.ar.not(e) };
            if d & 2 != 0 {
                self.add_pc(c);
            } else {
                let one = self.ar.konst(1, 1);
                self.learn(c, one);
            }
            return Ok(v);
        }
        let v = self.ar.eval(e, &self.model) != 0;
        let (c, o) = {
            let n = self.ar.not(e);
            if v {
                (e, n)
            } else {
                (n, e)
            }
        };
        let (r, m) = self.check(o);
        match r {
            Sat::Unknown => return self.noans(o),
            Sat::Unsat => {
                self.st.forced += 1;
                self.prefix.push(v as u64);
                self.pos += 1;
                let one = self.ar.konst(1, 1);
                self.learn(c, one);
            }
            Sat::Sat => {
                self.st.forks += 1;
                let mut p = self.prefix.clone();
                p.push((!v) as u64 | 2);
                self.newwork.push(Work { prefix: p, model: m });
                self.prefix.push(v as u64 | 2);
                self.pos += 1;
                self.add_pc(c);
            }
        }
        Ok(v)
    }

    /// all feasible values of an expression (at most max_values)
    fn values(&mut self, e: u32) -> X<Vec<(u128, Vec<u128>)>> {
        let w = self.ar.w(e);
        let v0 = self.ar.eval(e, &self.model);
        let mut out = vec![(v0, self.model.clone())];
        let mut cond = {
            let c = self.ar.konst(w, v0);
            let q = self.ar.eq(e, c);
            self.ar.not(q)
        };
        loop {
            let (r, m) = self.check(cond);
            match r {
                Sat::Unknown => return self.noans(cond),
                Sat::Unsat => return Ok(out),
                Sat::Sat => {
                    // evaluate under m
                    self.ar.new_model();
                    let v = self.ar.eval(e, &m);
                    self.ar.new_model();
                    out.push((v, m));
                    if out.len() > self.cfg.max_values {
                        return Ok(out);
                    }
                    let c = self.ar.konst(w, v);
                    let q = self.ar.eq(e, c);
                    let n = self.ar.not(q);
                    cond = self.ar.and(cond, n);
                }
            }
        }
    }

    /// make a value concrete, forking over its feasible values
    fn conc(&mut self, v: Val) -> X<u64> {
        if v.conc() {
            return Ok(v.c);
        }
        if let Some(k) = self.known(v.e) {
            return Ok(k as u64);
        }
        let w = self.ar.w(v.e);
        if self.replaying() {
            let d = self.prefix[self.pos] as u128;
            self.pos += 1;
            let c = self.ar.konst(w, d);
            let q = self.ar.eq(v.e, c);
            self.add_pc(q);
            self.facts.insert(v.e, c);
            return Ok(d as u64);
        }
        let mut vals = self.values(v.e)?;
        if vals.len() > self.cfg.max_values {
            // too many: go on with a few of them, and say that the rest is not explored
            let sh = self.ar.show(v.e, 7);
            let m = format!("more than {} values of a symbolic address, size or callee {} in {}", self.cfg.max_values, sh, self.stack());
            self.partial.push(m);
            vals.truncate(4);
        }
        for (x, m) in &vals[1..] {
            let mut p = self.prefix.clone();
            p.push(*x as u64);
            self.st.forks += 1;
            self.newwork.push(Work { prefix: p, model: m.clone() });
        }
        let x = vals[0].0;
        self.prefix.push(x as u64);
        self.pos += 1;
        let c = self.ar.konst(w, x);
        let q = self.ar.eq(v.e, c);
        self.add_pc(q);
        self.facts.insert(v.e, c);
        Ok(x as u64)
    }

    /// feasible values without forking (recorded so that replay does not query again)
    fn enumerate(&mut self, e: u32) -> X<Vec<u64>> {
        if let Some(k) = self.known(e) {
            return Ok(vec![k as u64]);
        }
        if self.replaying() {
            let n = self.prefix[self.pos] as usize;
            let v = self.prefix[self.pos + 1..self.pos + 1 + n].to_vec();
            self.pos += 1 + n;
            if v.len() == 1 {
                let w = self.ar.w(e);
                let c = self.ar.konst(w, v[0] as u128);
                self.facts.insert(e, c);
            }
            return Ok(v);
        }
        let vals = self.values(e)?;
        if vals.len() > self.cfg.max_values {
            let sh = self.ar.show(e, 7);
            return inc(format!("more than {} values of a symbolic address {} in {}", self.cfg.max_values, sh, self.stack()));
        }
        let v: Vec<u64> = vals.iter().map(|x| x.0 as u64).collect();
        self.prefix.push(v.len() as u64);
        self.prefix.extend(&v);
        self.pos = self.prefix.len();
        if v.len() == 1 {
            let w = self.ar.w(e);
            let c = self.ar.konst(w, v[0] as u128);
            self.facts.insert(e, c);
        }
        Ok(v)
    }

    fn assume(&mut self, v: Val) -> X<()> {
        if v.conc() {
            return if v.c & 1 != 0 { Ok(()) } else { Err(End::Infeasible) };
        }
        if let Some(k) = self.known(v.e) {
            return if k != 0 { Ok(()) } else { Err(End::Infeasible) };
        }
        if self.ar.eval(v.e, &self.model) == 0 {
            if self.replaying() {
                // the stored model satisfies every constraint of the replayed prefix that the
                // parent had; an assumption in the replayed part was satisfiable there
            }
            let (r, m) = self.check(v.e);
            match r {
                Sat::Unknown => return self.noans(v.e),
                Sat::Unsat => return Err(End::Infeasible),
                Sat::Sat => self.set_model(m),
            }
        }
        self.add_pc(v.e);
        Ok(())
    }

    fn assert_(&mut self, v: Val, msg: &str) -> X<()> {
        self.st.asserts += 1;
        if v.conc() {
            self.st.asserts_const += 1;
            return if v.c & 1 != 0 { Ok(()) } else { Err(End::Violation(msg.to_string())) };
        }
        if let Some(k) = self.known(v.e) {
            self.st.asserts_const += 1;
            return if k != 0 { Ok(()) } else { Err(End::Violation(msg.to_string())) };
        }
        let one = self.ar.konst(1, 1);
        if self.replaying() {
            self.learn(v.e, one);
            return Ok(());
        }
        let n = self.ar.not(v.e);
        if self.ar.eval(v.e, &self.model) == 0 {
            self.add_pc(n);
            return Err(End::Violation(msg.to_string()));
        }
        self.st.asserts_solved += 1;
        let (r, m) = self.check(n);
        match r {
            Sat::Unknown => inc(format!("solver gave no answer on assertion: {}", msg)),
            Sat::Unsat => {
                self.learn(v.e, one);
                Ok(())
            }
            Sat::Sat => {
                self.set_model(m);
                self.add_pc(n);
                Err(End::Violation(msg.to_string()))
            }
        }
    }

    pub fn stack(&self) -> String {
        let mut s = String::new();
        for f in self.frames.iter().rev().take(14) {
            s.push_str(&crate::demangle(&self.p.m.funcs[f.f as usize].name));
            s.push_str(" < ");
        }
        s
    }

    pub fn obs_hash(&mut self) -> u64 {
        let mut h: u64 = 0xcbf29ce484222325;
        let obs = std::mem::take(&mut self.obs);
        for v in &obs {
            let b = if v.e != 0 { self.ar.eval(v.e, &self.model) as u8 } else { v.c as u8 };
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        self.obs = obs;
        h
    }

    pub fn values_of_vars(&self) -> Vec<u128> {
        let mut m = self.model.clone();
        m.resize(self.ar.vars.len(), 0);
        for (i, w) in self.ar.vars.iter().enumerate() {
            m[i] &= mask(*w);
        }
        m
    }

    pub fn run(&mut self, w: Work, entry: u32, args: &[u64], stop: &dyn Fn(&mut Vec<Work>) -> bool) -> End {
        self.ar.reset();
        self.mem.reset();
        self.regs.clear();
        self.frames.clear();
        match &mut self.solver {
            Some(s) if s.uses < 300 => s.recycle(),
            s => *s = None,
        }
        self.pc.clear();
        self.asserted = 0;
        self.facts.clear();
        self.model = w.model;
        self.ar.new_model();
        self.prefix = w.prefix;
        self.pos = 0;
        self.newwork.clear();
        self.partial.clear();
        self.obs.clear();
        self.hash_stub = false;
        self.pathlog.clear();
        self.rnd = 0;
        let f = &self.p.m.funcs[entry as usize];
        let n = f.nregs as usize;
        self.regs.resize(n, Val::c(0));
        for (i, a) in args.iter().enumerate() {
            self.regs[i] = Val::c(*a);
        }
        self.frames.push(Frame { f: entry, pc: 0, base: 0, dst: u32::MAX, sp: self.mem.sp, nret: 0 });
        let r = self.interp(stop);
        if let Some(s) = &self.solver {
            self.st.queries += s.queries;
            self.st.qsat += s.sat;
            self.st.qunsat += s.unsat;
            self.st.qtime += s.time;
            self.st.qmax = self.st.qmax.max(s.max_time);
        }
        self.st.max_heap = self.st.max_heap.max(self.mem.heap_used());
        match r {
            Ok(()) => End::Done,
            Err(e) => e,
        }
    }

    #[inline(always)]
    fn get(&mut self, base: usize, o: Opd) -> Val {
        match o {
            Opd::R(r) => unsafe { *self.regs.get_unchecked(base + r as usize) },
            Opd::C(c) => Val::c(c),
            Opd::W(i) => {
                let k = self.p.m.wides[i as usize];
                let e = self.ar.konst(128, k);
                self.ar.val(e)
            }
        }
    }
    #[inline(always)]
    fn set(&mut self, base: usize, d: u32, v: Val) {
        unsafe { *self.regs.get_unchecked_mut(base + d as usize) = v }
    }

    fn take_edge(&mut self, base: usize, f: &Func, e: u32, cb: usize) -> u32 {
        let ed = &f.edges[e as usize];
        if ed.seq {
            for (d, s) in ed.copies.iter() {
                let v = self.get(base, *s);
                self.set(base, *d, v);
            }
        } else {
            self.tmp.clear();
            for (_, s) in ed.copies.iter() {
                let v = self.get(base, *s);
                self.tmp.push(v);
            }
            for (i, (d, _)) in ed.copies.iter().enumerate() {
                let v = self.tmp[i];
                self.set(base, *d, v);
            }
        }
        unsafe { *self.cov.get_unchecked_mut(cb + ed.target as usize) = 1 };
        ed.target
    }

    fn interp(&mut self, stop: &dyn Fn(&mut Vec<Work>) -> bool) -> X<()> {
        let prog = self.p.clone();
        let mut steps: u64 = 0;
        let mut limit_check: u64 = 1 << 20;
        'frame: loop {
            let (fi, base, mut pc) = {
                let f = self.frames.last().unwrap();
                (f.f, f.base, f.pc as usize)
            };
            let f = &prog.m.funcs[fi as usize];
            let cb = prog.cov_base[fi as usize] as usize;
            if pc == 0 {
                self.cov[cb] = 1;
            }
            loop {
                steps += 1;
                if steps >= limit_check {
                    self.st.steps += limit_check;
                    steps = 0;
                    limit_check = 1 << 20;
                    self.rnd += 1;
                    if self.rnd << 20 > self.cfg.max_steps {
                        return inc("step limit");
                    }
                    if self.trace {
                        self.sync(pc);
                        eprintln!("PROF {}", self.stack());
                    }
                    if stop(&mut self.newwork) {
                        return Err(End::Stopped);
                    }
                }
                let ins = &f.code[pc];
                pc += 1;
                match ins {
                    I::Bin { op, w, dst, a, b } => {
                        let (x, y) = (self.get(base, *a), self.get(base, *b));
                        let v = if (x.e | y.e) == 0 && *w <= 64 { Val::c(cbin(*op, *w, x.c, y.c)) } else { self.ar.bin(*op, *w, x, y) };
                        self.set(base, *dst, v);
                    }
                    I::Mov { dst, a } => {
                        let v = self.get(base, *a);
                        self.set(base, *dst, v);
                    }
                    I::Cast { c, fw, tw, dst, a } => {
                        let x = self.get(base, *a);
                        let v = if x.e == 0 && *tw <= 64 {
                            Val::c(match c {
                                Cast::Zext => x.c,
                                Cast::Sext => sext(x.c, *fw) & mask64(*tw),
                                Cast::Trunc => x.c & mask64(*tw),
                            })
                        } else {
                            let i = self.ar.id(x, *fw);
                            let r = match c {
                                Cast::Zext => self.ar.zext(i, *tw),
                                Cast::Sext => self.ar.sext(i, *tw),
                                Cast::Trunc => self.ar.extract(i, 0, *tw),
                            };
                            self.ar.val(r)
                        };
                        self.set(base, *dst, v);
                    }
                    I::Select { dst, w, c, a, b } => {
                        let cv = self.get(base, *c);
                        let (x, y) = (self.get(base, *a), self.get(base, *b));
                        let v = if cv.e == 0 {
                            if cv.c & 1 != 0 {
                                x
                            } else {
                                y
                            }
                        } else if let Some(k) = self.known(cv.e) {
                            if k != 0 {
                                x
                            } else {
                                y
                            }
                        } else if x == y {
                            x
                        } else {
                            let (i, j) = (self.ar.id(x, *w), self.ar.id(y, *w));
                            let r = self.ar.ite(cv.e, i, j);
                            self.ar.val(r)
                        };
                        self.set(base, *dst, v);
                    }
                    I::Load { dst, w, n, p, off } => {
                        let a = self.get(base, *p);
                        let v = if a.e == 0 {
                            let v = self.mem.load(&mut self.ar, a.c.wrapping_add(*off), *n, *w);
                            if self.mem.oob {
                                return self.oob(a.c, pc);
                            }
                            v
                        } else {
                            self.sync(pc - 1);
                            self.sym_load(a, *off, *n, *w)?
                        };
                        self.set(base, *dst, v);
                    }
                    I::Store { v, w, n, p, off } => {
                        let a = self.get(base, *p);
                        let x = self.get(base, *v);
                        let a = if a.e == 0 {
                            a.c
                        } else {
                            self.sync(pc - 1);
                            self.conc(a)?
                        };
                        self.mem.store(&mut self.ar, a.wrapping_add(*off), x, *n, *w);
                        if self.mem.oob {
                            return self.oob(a, pc);
                        }
                    }
                    I::Gep { dst, base: b, off, terms } => {
                        let p = self.get(base, *b);
                        let mut c = p.c.wrapping_add(*off);
                        let mut sym = p.e != 0;
                        for (o, w, s) in terms.iter() {
                            let v = self.get(base, *o);
                            if v.e != 0 {
                                sym = true;
                                break;
                            }
                            c = c.wrapping_add(sext(v.c, *w).wrapping_mul(*s));
                        }
                        let v = if !sym {
                            Val::c(c)
                        } else {
                            let mut r = self.ar.id(p, 64);
                            let o = self.ar.konst(64, *off as u128);
                            r = self.ar.add(r, o);
                            for (o, w, s) in terms.iter() {
                                let v = self.get(base, *o);
                                let i = self.ar.id(v, *w);
                                let i = self.ar.sext(i, 64);
                                let k = self.ar.konst(64, *s as u128);
                                let t = self.ar.mul(i, k);
                                r = self.ar.add(r, t);
                            }
                            self.ar.val(r)
                        };
                        self.set(base, *dst, v);
                    }
                    I::Alloca { dst, size, align, count } => {
                        let c = self.get(base, *count);
                        if c.e != 0 {
                            return inc("symbolic alloca");
                        }
                        let a = self.mem.alloca(size * c.c, *align);
                        if self.mem.oob {
                            return inc("stack overflow");
                        }
                        self.set(base, *dst, Val::c(a));
                    }
                    I::Pack { dst, w, lanes } => {
                        let n = lanes.len() as u32 * *w;
                        let mut acc: u128 = 0;
                        let mut sym = n > 128 || *w > 64;
                        if !sym {
                            for (i, l) in lanes.iter().enumerate() {
                                let v = self.get(base, *l);
                                if v.e != 0 {
                                    sym = true;
                                    break;
                                }
                                acc |= (v.c as u128) << (i as u32 * *w);
                            }
                        }
                        let v = if !sym && n <= 64 {
                            Val::c(acc as u64)
                        } else if !sym {
                            let k = self.ar.konst(n, acc);
                            self.ar.val(k)
                        } else {
                            let mut r = 0;
                            for (i, l) in lanes.iter().enumerate() {
                                let v = self.get(base, *l);
                                let x = self.ar.id(v, *w);
                                r = if i == 0 { x } else { self.ar.concat(x, r) };
                            }
                            self.ar.val(r)
                        };
                        self.set(base, *dst, v);
                    }
                    I::Unpack { dst, w, n, a } => {
                        let v = self.get(base, *a);
                        let k = if v.e == 0 { Some(v.c as u128) } else { self.ar.cval(v.e) };
                        if let (Some(k), true) = (k, *w <= 64) {
                            for i in 0..*n {
                                self.set(base, *dst + i, Val::c((k >> (i * *w)) as u64 & mask64(*w)));
                            }
                            continue;
                        }
                        let id = self.ar.id(v, *w * *n);
                        for i in 0..*n {
                            let x = self.ar.extract(id, i * *w, *w);
                            let x = self.ar.val(x);
                            self.set(base, *dst + i, x);
                        }
                    }
                    I::DynExtract { dst, w: _, lanes, idx } => {
                        let i = self.get(base, *idx);
                        self.sync(pc - 1);
                        let i = self.conc(i)? as usize;
                        let v = if i < lanes.len() { self.get(base, lanes[i]) } else { Val::c(0) };
                        self.set(base, *dst, v);
                    }
                    I::Br { e } => {
                        pc = self.take_edge(base, f, *e, cb) as usize;
                    }
                    I::CondBr { c, t, f: fe } => {
                        let v = self.get(base, *c);
                        let b = if v.e == 0 {
                            v.c & 1 != 0
                        } else {
                            self.sync(pc - 1);
                            let r = self.branch(v.e)?;
                            if self.log_on {
                                let s = format!("branch {} in {}", r, self.stack());
                                self.pathlog.push(s);
                            }
                            r
                        };
                        pc = self.take_edge(base, f, if b { *t } else { *fe }, cb) as usize;
                    }
                    I::Switch { v, w, default, cases } => {
                        let x = self.get(base, *v);
                        let e = if x.e == 0 {
                            match cases.binary_search_by(|c| c.0.cmp(&x.c)) {
                                Ok(i) => cases[i].1,
                                Err(_) => *default,
                            }
                        } else {
                            self.sync(pc - 1);
                            self.sym_switch(f, x.e, *w, *default, cases)?
                        };
                        pc = self.take_edge(base, f, e, cb) as usize;
                    }
                    I::Ret { vals } => {
                        let fr = self.frames.pop().unwrap();
                        self.mem.sp = fr.sp;
                        if self.frames.is_empty() {
                            self.st.steps += steps;
                            return Ok(());
                        }
                        let cbase = self.frames.last().unwrap().base;
                        if fr.nret as usize == vals.len() {
                            for (i, o) in vals.iter().enumerate() {
                                let v = self.get(base, *o);
                                if fr.dst != u32::MAX {
                                    self.set(cbase, fr.dst + i as u32, v);
                                }
                            }
                        } else {
                            return inc("return arity");
                        }
                        self.regs.truncate(base);
                        continue 'frame;
                    }
                    I::Call { callee, args, dst, nret } => {
                        self.frames.last_mut().unwrap().pc = pc as u32;
                        let fid = match callee {
                            Callee::Func(i) => *i,
                            Callee::Ptr(o) => {
                                let v = self.get(base, *o);
                                let a = self.conc(v)?;
                                let i = a.wrapping_sub(FUNC_BASE) / 16;
                                if a < FUNC_BASE || i as usize >= prog.m.funcs.len() {
                                    return inc(format!("call through {:#x} in {}", a, self.stack()));
                                }
                                i as u32
                            }
                        };
                        let ext = prog.ext[fid as usize];
                        if ext != Ext::None && !(ext == Ext::Hash && !self.hash_stub) {
                            let mut av: [Val; 8] = [Val::c(0); 8];
                            for (i, o) in args.iter().take(8).enumerate() {
                                av[i] = self.get(base, *o);
                            }
                            match self.external(ext, fid, &av[..args.len().min(8)], base, *dst, *nret)? {
                                true => continue,
                                false => {} // fall through to a real call
                            }
                        }
                        if let Some(mf) = prog.redirect[fid as usize] {
                            self.enter(&prog, mf, args, base, *dst, *nret)?;
                            continue 'frame;
                        }
                        if !prog.m.funcs[fid as usize].defined {
                            return inc(format!("unmodelled external {} in {}", prog.m.funcs[fid as usize].name, self.stack()));
                        }
                        self.enter(&prog, fid, args, base, *dst, *nret)?;
                        continue 'frame;
                    }
                    I::Intr { k, w, dst, args } => {
                        if *k == Intr::Nop || *k == Intr::Assume {
                            continue;
                        }
                        self.sync(pc - 1);
                        self.intrinsic(*k, *w, *dst, args, base)?;
                    }
                    I::Rmw { op, dst, w, n, p, v } => {
                        let a = self.get(base, *p);
                        let a = self.conc(a)?;
                        let x = self.get(base, *v);
                        let old = self.mem.load(&mut self.ar, a, *n, *w);
                        let nv = match op {
                            0 => x,
                            1 => self.vbin(Op::Add, *w, old, x),
                            2 => self.vbin(Op::Sub, *w, old, x),
                            3 => self.vbin(Op::And, *w, old, x),
                            4 => self.vbin(Op::Or, *w, old, x),
                            _ => self.vbin(Op::Xor, *w, old, x),
                        };
                        self.mem.store(&mut self.ar, a, nv, *n, *w);
                        if self.mem.oob {
                            return self.oob(a, pc);
                        }
                        if *dst != u32::MAX {
                            self.set(base, *dst, old);
                        }
                    }
                    I::CmpXchg { dst, w, n, p, c, v } => {
                        let a = self.get(base, *p);
                        let a = self.conc(a)?;
                        let (cv, nv) = (self.get(base, *c), self.get(base, *v));
                        let old = self.mem.load(&mut self.ar, a, *n, *w);
                        let eq = self.vbin(Op::Eq, *w, old, cv);
                        if eq.e != 0 {
                            return inc("symbolic cmpxchg");
                        }
                        if eq.c != 0 {
                            self.mem.store(&mut self.ar, a, nv, *n, *w);
                        }
                        if self.mem.oob {
                            return self.oob(a, pc);
                        }
                        self.set(base, *dst, old);
                        self.set(base, *dst + 1, eq);
                    }
                    I::Unreachable => {
                        self.sync(pc - 1);
                        return inc(format!("unreachable executed in {}", self.stack()));
                    }
                    I::Unsupported(s) => {
                        self.sync(pc - 1);
                        return inc(format!("unsupported instruction {} in {}", s, self.stack()));
                    }
                }
            }
        }
    }
    fn sync(&mut self, pc: usize) {
        self.frames.last_mut().unwrap().pc = pc as u32;
    }
    fn oob<T>(&mut self, a: u64, pc: usize) -> X<T> {
        self.sync(pc);
        inc(format!("invalid memory access at {:#x} in {}", a, self.stack()))
    }
    fn enter(&mut self, prog: &Prog, fid: u32, args: &[Opd], base: usize, dst: u32, nret: u32) -> X<()> {
        let f = &prog.m.funcs[fid as usize];
        if args.len() as u32 != f.nparams {
            return inc(format!("call arity of {}: {} vs {}", f.name, args.len(), f.nparams));
        }
        if self.frames.len() > 3000 {
            return inc("call depth");
        }
        let nb = self.regs.len();
        self.regs.resize(nb + f.nregs as usize, Val::c(0));
        for (i, o) in args.iter().enumerate() {
            let v = self.get(base, *o);
            self.regs[nb + i] = v;
        }
        self.frames.push(Frame { f: fid, pc: 0, base: nb, dst, sp: self.mem.sp, nret });
        Ok(())
    }
    fn vbin(&mut self, op: Op, w: u32, x: Val, y: Val) -> Val {
        if (x.e | y.e) == 0 && w <= 64 {
            Val::c(cbin(op, w, x.c, y.c))
        } else {
            self.ar.bin(op, w, x, y)
        }
    }
    fn sym_load(&mut self, a: Val, off: u64, n: u32, w: u32) -> X<Val> {
        let vals = self.enumerate(a.e)?;
        let mut r: Option<u32> = None;
        for x in vals {
            let v = self.mem.load(&mut self.ar, x.wrapping_add(off), n, w);
            if self.mem.oob {
                return self.oob(x, 0);
            }
            let v = self.ar.id(v, w);
            r = Some(match r {
                None => v,
                Some(o) => {
                    let k = self.ar.konst(64, x as u128);
                    let c = self.ar.eq(a.e, k);
                    self.ar.ite(c, v, o)
                }
            });
        }
        Ok(self.ar.val(r.unwrap()))
    }
    fn sym_switch(&mut self, f: &Func, e: u32, w: u32, default: u32, cases: &[(u64, u32)]) -> X<u32> {
        // group the cases by destination edge target; decide with a chain of forks
        if let Some(k) = self.known(e) {
            return Ok(match cases.binary_search_by(|c| c.0.cmp(&(k as u64))) {
                Ok(i) => cases[i].1,
                Err(_) => default,
            });
        }
        let _ = f;
        let v = {
            // current model's case first (deterministic under replay because the decision is recorded)
            let one = self.ar.konst(1, 1);
            let mut any = self.ar.konst(1, 0);
            let mut order: Vec<usize> = (0..cases.len()).collect();
            if !self.replaying() {
                let cur = self.ar.eval(e, &self.model) as u64;
                if let Ok(i) = cases.binary_search_by(|c| c.0.cmp(&cur)) {
                    order.retain(|x| *x != i);
                    order.insert(0, i);
                }
            }
            let _ = (&mut any, one);
            order
        };
        // record chosen: as one decision value: case index + 1, or 0 for default
        if self.replaying() {
            let d = self.prefix[self.pos];
            self.pos += 1;
            let split = d & 1 != 0;
            let ci = (d >> 1) as usize;
            let c = self.switch_cond(e, w, ci, cases);
            if split {
                self.add_pc(c);
            } else {
                let one = self.ar.konst(1, 1);
                self.learn(c, one);
            }
            return Ok(if ci == 0 { default } else { cases[ci - 1].1 });
        }
        self.st.sym_branches += 1;
        let cur = self.ar.eval(e, &self.model) as u64;
        let ci = match cases.binary_search_by(|c| c.0.cmp(&cur)) {
            Ok(i) => i + 1,
            Err(_) => 0,
        };
        let mut split = false;
        for alt in std::iter::once(0).chain(v.iter().map(|i| i + 1)) {
            if alt == ci {
                continue;
            }
            let c = self.switch_cond(e, w, alt, cases);
            let (r, m) = self.check(c);
            match r {
                Sat::Unknown => return self.noans(c),
                Sat::Unsat => {}
                Sat::Sat => {
                    split = true;
                    self.st.forks += 1;
                    let mut p = self.prefix.clone();
                    p.push((alt as u64) << 1 | 1);
                    self.newwork.push(Work { prefix: p, model: m });
                }
            }
        }
        let c = self.switch_cond(e, w, ci, cases);
        self.prefix.push((ci as u64) << 1 | split as u64);
        self.pos += 1;
        if split {
            self.add_pc(c);
        } else {
            self.st.forced += 1;
            let one = self.ar.konst(1, 1);
            self.learn(c, one);
        }
        Ok(if ci == 0 { default } else { cases[ci - 1].1 })
    }
    fn switch_cond(&mut self, e: u32, w: u32, ci: usize, cases: &[(u64, u32)]) -> u32 {
        if ci == 0 {
            let mut r = self.ar.konst(1, 1);
            for (c, _) in cases {
                let k = self.ar.konst(w, *c as u128);
                let q = self.ar.eq(e, k);
                let n = self.ar.not(q);
                r = self.ar.and(r, n);
            }
            r
        } else {
            let k = self.ar.konst(w, cases[ci - 1].0 as u128);
            self.ar.eq(e, k)
        }
    }

    fn cstr(&mut self, a: u64, n: u64) -> String {
        if !self.mem.valid(a, n) || n > 4096 {
            return "?".into();
        }
        String::from_utf8_lossy(self.mem.slice(a, n)).into_owned()
    }
    fn loc(&mut self, a: u64) -> String {
        // core::panic::Location { file: &str, line: u32, col: u32 }
        if a < MEM_BASE || a >= MEM_BASE + self.p.m.image.len() as u64 {
            return String::new();
        }
        let g = |s: &mut Self, o: u64, n: u32| s.mem.load(&mut s.ar, a + o, n, n * 8).c;
        let (fp, fl, line, col) = (g(self, 0, 8), g(self, 8, 8), g(self, 16, 4), g(self, 20, 4));
        if fl > 300 || fp < MEM_BASE || fp >= MEM_BASE + self.p.m.image.len() as u64 {
            return String::new();
        }
        let s = self.cstr(fp, fl);
        if !s.contains(".rs") {
            return String::new();
        }
        format!("{}:{}:{}", s.trim_end_matches('\0'), line, col)
    }

    /// Ok(true): handled; Ok(false): perform a real call (or the write model)
    fn external(&mut self, ext: Ext, fid: u32, a: &[Val], base: usize, dst: u32, nret: u32) -> X<bool> {
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                if dst != u32::MAX && nret > 0 {
                    self.set(base, dst, v);
                }
                return Ok(true);
            }};
        }
        match ext {
            Ext::Panic => {
                let mut l = String::new();
                for v in a {
                    if v.e == 0 {
                        let s = self.loc(v.c);
                        if !s.is_empty() {
                            l = s;
                        }
                    }
                }
                let n = crate::demangle(&self.p.m.funcs[fid as usize].name);
                Err(End::Violation(format!("panic at {} ({}) in {}", l, n, self.stack())))
            }
            Ext::Abort => Err(End::Violation(format!("abort in {}", self.stack()))),
            Ext::SymVar => {
                let w = self.conc(a[0])? as u32;
                let e = self.ar.var(w.clamp(1, 64));
                let e = self.ar.zext(e, 64);
                while self.model.len() < self.ar.vars.len() {
                    self.model.push(0);
                }
                ret!(self.ar.val(e))
            }
            Ext::SymChoose => {
                let n = self.conc(a[0])?;
                let w = 32;
                let e = self.ar.var(w);
                let idx = self.ar.vars.len() - 1;
                while self.model.len() < self.ar.vars.len() {
                    self.model.push(0);
                }
                let x = if self.replaying() {
                    let d = self.prefix[self.pos];
                    self.pos += 1;
                    d
                } else {
                    for i in 1..n {
                        let mut p = self.prefix.clone();
                        p.push(i);
                        let mut m = self.model.clone();
                        m[idx] = i as u128;
                        self.st.forks += 1;
                        self.newwork.push(Work { prefix: p, model: m });
                    }
                    self.prefix.push(0);
                    self.pos += 1;
                    0
                };
                self.model[idx] = x as u128;
                self.ar.new_model();
                let c = self.ar.konst(w, x as u128);
                let q = self.ar.eq(e, c);
                self.pc.push(q);
                if self.log_on {
                    let s = format!("choose {} of {}", x, n);
                    self.pathlog.push(s);
                }
                ret!(Val::c(x))
            }
            Ext::SymConcretize => {
                let x = self.conc(a[0])?;
                ret!(Val::c(x))
            }
            Ext::SymAssume => {
                let c = self.nonzero(a[0]);
                self.assume(c)?;
                Ok(true)
            }
            Ext::SymAssert => {
                let m = self.cstr(a[1].c, a[2].c);
                let c = self.nonzero(a[0]);
                self.assert_(c, &m)?;
                Ok(true)
            }
            Ext::SymFail => {
                self.st.asserts += 1;
                self.st.asserts_const += 1;
                let m = self.cstr(a[0].c, a[1].c);
                Err(End::Violation(m))
            }
            Ext::SymObserve => {
                let n = self.conc(a[1])?;
                let p = self.conc(a[0])?;
                for i in 0..n {
                    let b = self.mem.byte(p + i);
                    self.obs.push(b);
                }
                Ok(true)
            }
            Ext::SymReach => {
                let m = self.cstr(a[0].c, a[1].c);
                *self.st.reach.entry(m).or_insert(0) += 1;
                Ok(true)
            }
            Ext::SymHashStub => {
                self.hash_stub = a[0].c != 0;
                Ok(true)
            }
            Ext::Malloc => {
                let n = self.conc(a[0])?;
                ret!(Val::c(self.mem.malloc(n, 16)))
            }
            Ext::Calloc => {
                let n = self.conc(a[0])?;
                let k = self.conc(a[1])?;
                ret!(Val::c(self.mem.calloc(n.saturating_mul(k))))
            }
            Ext::Realloc => {
                let p = self.conc(a[0])?;
                let n = self.conc(a[1])?;
                ret!(Val::c(self.mem.realloc(p, n)))
            }
            Ext::Free => {
                let p = self.conc(a[0])?;
                self.mem.free(p);
                Ok(true)
            }
            Ext::Memalign => {
                let o = self.conc(a[0])?;
                let al = self.conc(a[1])?;
                let n = self.conc(a[2])?;
                let p = self.mem.malloc(n, al);
                self.mem.store(&mut self.ar, o, Val::c(p), 8, 64);
                ret!(Val::c(if p == 0 { 12 } else { 0 }))
            }
            Ext::Memcmp | Ext::Bcmp => {
                let p = self.conc(a[0])?;
                let q = self.conc(a[1])?;
                let n = self.conc(a[2])?;
                let v = self.memcmp(p, q, n, ext == Ext::Bcmp);
                if self.mem.oob {
                    return inc("memcmp range");
                }
                ret!(v)
            }
            Ext::Strlen => {
                let p = self.conc(a[0])?;
                let mut i = 0;
                loop {
                    let b = self.mem.byte(p + i);
                    let z = if b.e == 0 {
                        b.c == 0
                    } else {
                        let k = self.ar.konst(8, 0);
                        let c = self.ar.eq(b.e, k);
                        match self.ar.cval(c) {
                            Some(v) => v != 0,
                            None => self.branch(c)?,
                        }
                    };
                    if z {
                        break;
                    }
                    i += 1;
                }
                ret!(Val::c(i))
            }
            Ext::Memchr => {
                let p = self.conc(a[0])?;
                let k = self.conc(a[1])? & 255;
                let n = self.conc(a[2])?;
                for i in 0..n {
                    let b = self.mem.byte(p + i);
                    let z = if b.e == 0 {
                        b.c == k
                    } else {
                        let kk = self.ar.konst(8, k as u128);
                        let c = self.ar.eq(b.e, kk);
                        match self.ar.cval(c) {
                            Some(v) => v != 0,
                            None => self.branch(c)?,
                        }
                    };
                    if z {
                        ret!(Val::c(p + i))
                    }
                }
                ret!(Val::c(0))
            }
            Ext::Memcpy => {
                let d = self.conc(a[0])?;
                let s = self.conc(a[1])?;
                let n = self.conc(a[2])?;
                self.mem.copy(d, s, n);
                ret!(Val::c(d))
            }
            Ext::Memset => {
                let d = self.conc(a[0])?;
                let n = self.conc(a[2])?;
                let v = Val::c(self.conc(a[1])? & 255);
                self.mem.set(d, v, n);
                ret!(Val::c(d))
            }
            Ext::Close => ret!(Val::c(0)),
            Ext::Fcntl => ret!(Val::c(0)),
            Ext::Getenv => ret!(Val::c(0)),
            Ext::NopRet0 => ret!(Val::c(0)),
            Ext::Errno => ret!(Val::c(self.p.errno_addr)),
            Ext::Getrandom => {
                let p = self.conc(a[0])?;
                let n = self.conc(a[1])?;
                for i in 0..n {
                    self.mem.set_byte(p + i, Val::c((0x5b + 37 * i) & 255));
                }
                ret!(Val::c(n))
            }
            Ext::Syscall => {
                let k = self.conc(a[0])?;
                if k == 318 {
                    let p = self.conc(a[1])?;
                    let n = self.conc(a[2])?;
                    for i in 0..n {
                        self.mem.set_byte(p + i, Val::c((0x5b + 37 * i) & 255));
                    }
                    ret!(Val::c(n))
                }
                inc(format!("syscall {}", k))
            }
            Ext::Hash => {
                // `__sym_hash_stub(1)` is in force: string hashes are an arbitrary fixed function;
                // the constant function is one such function and is the same for equal strings.
                ret!(Val::c(0x0123_4567_89ab_cdef))
            }
            Ext::None => unreachable!(),
        }
    }

    fn memcmp(&mut self, p: u64, q: u64, n: u64, eq_only: bool) -> Val {
        // find the end: first definitely different byte
        let mut bytes = vec![];
        let mut tail: Option<i32> = None;
        for i in 0..n {
            let x = self.mem.byte(p + i);
            let y = self.mem.byte(q + i);
            if x == y {
                continue;
            }
            if x.e == 0 && y.e == 0 {
                tail = Some(if x.c < y.c { -1 } else { 1 });
                break;
            }
            bytes.push((x, y));
        }
        let mut r = self.ar.konst(32, tail.unwrap_or(0) as i128 as u128);
        if eq_only {
            if tail.is_some() {
                return Val::c(1);
            }
            let mut all = self.ar.konst(1, 1);
            for (x, y) in bytes {
                let (i, j) = (self.ar.id(x, 8), self.ar.id(y, 8));
                let e = self.ar.eq(i, j);
                all = self.ar.and(all, e);
            }
            let n = self.ar.not(all);
            let z = self.ar.zext(n, 32);
            return self.ar.val(z);
        }
        for (x, y) in bytes.into_iter().rev() {
            let (i, j) = (self.ar.id(x, 8), self.ar.id(y, 8));
            let e = self.ar.eq(i, j);
            let l = self.ar.ult(i, j);
            let m1 = self.ar.konst(32, 0xffff_ffff);
            let p1 = self.ar.konst(32, 1);
            let d = self.ar.ite(l, m1, p1);
            r = self.ar.ite(e, r, d);
        }
        self.ar.val(r)
    }

    fn intrinsic(&mut self, k: Intr, w: u32, dst: u32, args: &[Opd], base: usize) -> X<()> {
        let a = if !args.is_empty() { self.get(base, args[0]) } else { Val::c(0) };
        let b = if args.len() > 1 { self.get(base, args[1]) } else { Val::c(0) };
        macro_rules! vb {
            ($op:expr,$w:expr,$x:expr,$y:expr) => {{
                let (x, y) = ($x, $y);
                self.vbin($op, $w, x, y)
            }};
        }
        let r = match k {
            Intr::Memcpy | Intr::Memmove => {
                let n = self.get(base, args[2]);
                let n = self.conc(n)?;
                if n == 0 {
                    return Ok(());
                }
                let d = self.conc(a)?;
                let s = self.conc(b)?;
                self.mem.copy(d, s, n);
                if self.mem.oob {
                    return inc(format!("memcpy range {:#x} {:#x} {} in {}", d, s, n, self.stack()));
                }
                return Ok(());
            }
            Intr::Memset => {
                let n = self.get(base, args[2]);
                let n = self.conc(n)?;
                if n == 0 {
                    return Ok(());
                }
                let d = self.conc(a)?;
                self.mem.set(d, b, n);
                if self.mem.oob {
                    return inc(format!("memset range {:#x} {} in {}", d, n, self.stack()));
                }
                return Ok(());
            }
            Intr::Trap => return Err(End::Violation(format!("trap in {}", self.stack()))),
            Intr::Copy | Intr::Expect => a,
            Intr::IsConstant => Val::c(0),
            Intr::Umin | Intr::Umax | Intr::Smin | Intr::Smax => {
                let op = match k {
                    Intr::Umin => Op::Ult,
                    Intr::Umax => Op::Ugt,
                    Intr::Smin => Op::Slt,
                    _ => Op::Sgt,
                };
                let c = vb!(op, w, a, b);
                self.vite(c, w, a, b)
            }
            Intr::Usubsat => {
                let c = vb!(Op::Ult, w, a, b);
                let d = vb!(Op::Sub, w, a, b);
                self.vite(c, w, Val::c(0), d)
            }
            Intr::Uaddsat => {
                let d = vb!(Op::Add, w, a, b);
                let c = vb!(Op::Ult, w, d, a);
                if w > 64 {
                    return inc("wide uadd.sat");
                }
                self.vite(c, w, Val::c(mask64(w)), d)
            }
            Intr::UaddO => {
                let d = vb!(Op::Add, w, a, b);
                let c = vb!(Op::Ult, w, d, a);
                self.set(base, dst, d);
                self.set(base, dst + 1, c);
                return Ok(());
            }
            Intr::UsubO => {
                let d = vb!(Op::Sub, w, a, b);
                let c = vb!(Op::Ult, w, a, b);
                self.set(base, dst, d);
                self.set(base, dst + 1, c);
                return Ok(());
            }
            Intr::UmulO | Intr::SmulO | Intr::SaddO | Intr::SsubO => {
                if w > 64 {
                    return inc("wide mul overflow");
                }
                let signed = k != Intr::UmulO;
                if (a.e | b.e) == 0 {
                    let (x, y) = if signed {
                        (sext(a.c, w) as i64 as i128, sext(b.c, w) as i64 as i128)
                    } else {
                        (a.c as i128, b.c as i128)
                    };
                    // (64-bit products of unsigned values wrap i128 only in the sign)
                    let m = match k {
                        Intr::SaddO => x + y,
                        Intr::SsubO => x - y,
                        _ => x.wrapping_mul(y),
                    };
                    let lo = m as u64 & mask64(w);
                    let back = if signed { sext(lo, w) as i64 as i128 } else { lo as i128 };
                    self.set(base, dst, Val::c(lo));
                    self.set(base, dst + 1, Val::c((back != m) as u64));
                    return Ok(());
                }
                let (i, j) = (self.ar.id(a, w), self.ar.id(b, w));
                let (i2, j2) = if signed {
                    (self.ar.sext(i, 2 * w), self.ar.sext(j, 2 * w))
                } else {
                    (self.ar.zext(i, 2 * w), self.ar.zext(j, 2 * w))
                };
                let m = match k {
                    Intr::SaddO => self.ar.add(i2, j2),
                    Intr::SsubO => self.ar.sub(i2, j2),
                    _ => self.ar.mul(i2, j2),
                };
                let lo = self.ar.extract(m, 0, w);
                let back = if signed { self.ar.sext(lo, 2 * w) } else { self.ar.zext(lo, 2 * w) };
                let e = self.ar.eq(back, m);
                let o = self.ar.not(e);
                let (lo, o) = (self.ar.val(lo), self.ar.val(o));
                self.set(base, dst, lo);
                self.set(base, dst + 1, o);
                return Ok(());
            }
            Intr::Ucmp | Intr::Scmp => {
                let rw = match args[2] {
                    Opd::C(c) => c as u32,
                    _ => 8,
                };
                let op = if k == Intr::Ucmp { Op::Ult } else { Op::Slt };
                let l = vb!(op, w, a, b);
                let e = vb!(Op::Eq, w, a, b);
                let x = self.vite(e, rw, Val::c(0), Val::c(1));
                self.vite(l, rw, Val::c(mask64(rw)), x)
            }
            Intr::Abs => {
                let z = vb!(Op::Slt, w, a, Val::c(0));
                let n = vb!(Op::Sub, w, Val::c(0), a);
                self.vite(z, w, n, a)
            }
            Intr::Fshl | Intr::Fshr => {
                let s = self.get(base, args[2]);
                let s = self.conc(s)? % w as u64;
                let (i, j) = (self.ar.id(a, w), self.ar.id(b, w));
                let sh = if k == Intr::Fshl { s as u32 } else { (w - s as u32) % w };
                if k == Intr::Fshr && s == 0 {
                    b
                } else if sh == 0 {
                    a
                } else if (a.e | b.e) == 0 && w <= 64 {
                    Val::c(((a.c << sh) | (b.c >> (w - sh))) & mask64(w))
                } else {
                    let hi = self.ar.extract(i, 0, w - sh);
                    let lo = self.ar.extract(j, w - sh, sh);
                    let r = self.ar.concat(hi, lo);
                    self.ar.val(r)
                }
            }
            Intr::Bswap if a.e == 0 && w <= 64 => Val::c(a.c.swap_bytes() >> (64 - w)),
            Intr::Bitreverse if a.e == 0 && w <= 64 => Val::c(a.c.reverse_bits() >> (64 - w)),
            Intr::Bswap => {
                let i = self.ar.id(a, w);
                let mut r = 0;
                for n in 0..w / 8 {
                    let x = self.ar.extract(i, n * 8, 8);
                    r = if n == 0 { x } else { self.ar.concat(r, x) };
                }
                self.ar.val(r)
            }
            Intr::Bitreverse => {
                let i = self.ar.id(a, w);
                let mut r = 0;
                for n in 0..w {
                    let x = self.ar.extract(i, n, 1);
                    r = if n == 0 { x } else { self.ar.concat(r, x) };
                }
                self.ar.val(r)
            }
            Intr::Ctpop | Intr::Ctlz | Intr::Cttz => {
                if a.e == 0 && w <= 64 {
                    Val::c(match k {
                        Intr::Ctpop => a.c.count_ones() as u64,
                        Intr::Ctlz => a.c.leading_zeros() as u64 - (64 - w as u64),
                        _ => {
                            if a.c == 0 {
                                w as u64
                            } else {
                                a.c.trailing_zeros() as u64
                            }
                        }
                    })
                } else {
                    let i = self.ar.id(a, w);
                    let mut r = if k == Intr::Ctpop { self.ar.konst(w, 0) } else { self.ar.konst(w, w as u128) };
                    for n in 0..w {
                        // ctlz: later (higher) bits win; cttz: iterate from the top so that low bits win
                        let bit = match k {
                            Intr::Cttz => w - 1 - n,
                            _ => n,
                        };
                        let x = self.ar.extract(i, bit, 1);
                        if k == Intr::Ctpop {
                            let z = self.ar.zext(x, w);
                            r = self.ar.add(r, z);
                        } else {
                            let v = if k == Intr::Ctlz { w - 1 - bit } else { bit };
                            let c = self.ar.konst(w, v as u128);
                            r = self.ar.ite(x, c, r);
                        }
                    }
                    self.ar.val(r)
                }
            }
            Intr::LoadRel => {
                let p = self.conc(a)?;
                let o = self.conc(b)?;
                let v = self.mem.load(&mut self.ar, p.wrapping_add(o), 4, 32);
                let v = self.conc(v)?;
                Val::c(p.wrapping_add(sext(v, 32)))
            }
            _ => return inc(format!("intrinsic {:?}", k)),
        };
        self.set(base, dst, r);
        Ok(())
    }
    fn vite(&mut self, c: Val, w: u32, a: Val, b: Val) -> Val {
        if c.e == 0 {
            return if c.c & 1 != 0 { a } else { b };
        }
        let (i, j) = (self.ar.id(a, w), self.ar.id(b, w));
        let r = self.ar.ite(c.e, i, j);
        self.ar.val(r)
    }
}

#[inline(always)]
fn cbin(op: Op, w: u32, x: u64, y: u64) -> u64 {
    let m = mask64(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u64 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = sext(x, w) as i64;
            ((s >> y.min(63)) as u64) & m
        }
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext(x, w) as i64, sext(y, w) as i64);
            if b == 0 {
                m
            } else {
                (a.wrapping_div(b) as u64) & m
            }
        }
        Op::SRem => {
            let (a, b) = (sext(x, w) as i64, sext(y, w) as i64);
            if b == 0 {
                x
            } else {
                (a.wrapping_rem(b) as u64) & m
            }
        }
        Op::Eq => (x == y) as u64,
        Op::Ne => (x != y) as u64,
        Op::Ult => (x < y) as u64,
        Op::Ule => (x <= y) as u64,
        Op::Ugt => (x > y) as u64,
        Op::Uge => (x >= y) as u64,
        Op::Slt => ((sext(x, w) as i64) < (sext(y, w) as i64)) as u64,
        Op::Sle => ((sext(x, w) as i64) <= (sext(y, w) as i64)) as u64,
        Op::Sgt => ((sext(x, w) as i64) > (sext(y, w) as i64)) as u64,
        Op::Sge => ((sext(x, w) as i64) >= (sext(y, w) as i64)) as u64,
    }
}
