//! Minimal binding to the Z3 C API, loaded with dlopen so that no linking is needed at build time.
use crate::expr::{mask, Arena, K};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
}

type P = *mut c_void;

macro_rules! api {
    ($($name:ident : fn($($a:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        #[derive(Clone, Copy)]
        pub struct Api { $(pub $name: unsafe extern "C" fn($($a),*) $(-> $r)?,)* }
        impl Api {
            fn load(path: &str) -> Option<Api> {
                unsafe {
                    let p = CString::new(path).unwrap();
                    let h = dlopen(p.as_ptr(), 2);
                    if h.is_null() { return None; }
                    Some(Api { $($name: {
                        let s = dlsym(h, concat!(stringify!($name), "\0").as_ptr() as *const c_char);
                        if s.is_null() { return None; }
                        std::mem::transmute(s)
                    },)* })
                }
            }
        }
    }
}

api! {
    Z3_mk_config: fn() -> P;
    Z3_del_config: fn(P);
    Z3_set_param_value: fn(P, *const c_char, *const c_char);
    Z3_mk_context: fn(P) -> P;
    Z3_del_context: fn(P);
    Z3_set_error_handler: fn(P, P);
    Z3_get_error_code: fn(P) -> c_int;
    Z3_get_error_msg: fn(P, c_int) -> *const c_char;
    Z3_get_full_version: fn() -> *const c_char;
    Z3_mk_simple_solver: fn(P) -> P;
    Z3_mk_solver_for_logic: fn(P, P) -> P;
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_solver_inc_ref: fn(P, P);
    Z3_solver_dec_ref: fn(P, P);
    Z3_solver_push: fn(P, P);
    Z3_solver_pop: fn(P, P, c_uint);
    Z3_solver_assert: fn(P, P, P);
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_solver_to_string: fn(P, P) -> *const c_char;
    Z3_model_inc_ref: fn(P, P);
    Z3_model_dec_ref: fn(P, P);
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_string: fn(P, P) -> *const c_char;
    Z3_get_numeral_uint64: fn(P, P, *mut u64) -> bool;
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_int_symbol: fn(P, c_int) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_numeral: fn(P, *const c_char, P) -> P;
    Z3_mk_unsigned_int64: fn(P, u64, P) -> P;
    Z3_mk_true: fn(P) -> P;
    Z3_mk_false: fn(P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_and: fn(P, c_uint, *const P) -> P;
    Z3_mk_or: fn(P, c_uint, *const P) -> P;
    Z3_mk_bvnot: fn(P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvsub: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvule: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_bvsle: fn(P, P, P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_mk_extract: fn(P, c_uint, c_uint, P) -> P;
    Z3_mk_zero_ext: fn(P, c_uint, P) -> P;
    Z3_mk_sign_ext: fn(P, c_uint, P) -> P;
}

pub const CANDIDATES: &[&str] = &[
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so",
    "/usr/lib/x86_64-linux-gnu/libz3.so.4",
    "/usr/lib/x86_64-linux-gnu/libz3.so",
    "libz3.so.4",
    "libz3.so",
];

pub fn load(path: Option<&str>) -> Option<(Api, String)> {
    if let Some(p) = path {
        return Api::load(p).map(|a| (a, p.to_string()));
    }
    for c in CANDIDATES {
        if let Some(a) = Api::load(c) {
            return Some((a, c.to_string()));
        }
    }
    None
}

pub fn version(a: &Api) -> String {
    unsafe { CStr::from_ptr((a.Z3_get_full_version)()).to_string_lossy().into_owned() }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

/// One Z3 context per path; dropped with it.
pub struct Solver {
    api: Api,
    ctx: P,
    s: P,
    bv: Vec<P>,
    bl: Vec<P>,
    vars: std::collections::HashMap<(usize, u32), P>,
    /// paths this context has served
    pub uses: u32,
    pub queries: u64,
    pub time: f64,
    pub max_time: f64,
    pub sat: u64,
    pub unsat: u64,
    pub dump: Option<(String, u64, u64)>, // directory, every n-th, counter
}

unsafe impl Send for Solver {}

extern "C" fn onerr(c: P, e: c_int) {
    let m = match load(None) {
        Some((a, _)) => unsafe { CStr::from_ptr((a.Z3_get_error_msg)(c, e)).to_string_lossy().into_owned() },
        None => String::new(),
    };
    eprintln!("z3 error code {} {}", e, m);
    std::process::abort();
}

impl Solver {
    /// `bits`: Z3's solver for bit-vectors, which gives up on different things than the general one
    pub fn new(api: Api, timeout_ms: u32, bits: bool) -> Solver {
        unsafe {
            let cfg = (api.Z3_mk_config)();
            let t = CString::new(timeout_ms.to_string()).unwrap();
            (api.Z3_set_param_value)(cfg, c"timeout".as_ptr(), t.as_ptr());
            let ctx = (api.Z3_mk_context)(cfg);
            (api.Z3_del_config)(cfg);
            (api.Z3_set_error_handler)(ctx, onerr as *const () as P);
            let s = if bits {
                (api.Z3_mk_solver_for_logic)(ctx, (api.Z3_mk_string_symbol)(ctx, c"QF_BV".as_ptr()))
            } else {
                (api.Z3_mk_simple_solver)(ctx)
            };
            (api.Z3_solver_inc_ref)(ctx, s);
            (api.Z3_solver_push)(ctx, s);
            Solver {
                uses: 0,
                api,
                ctx,
                s,
                bv: vec![],
                bl: vec![],
                vars: Default::default(),
                queries: 0,
                time: 0.0,
                max_time: 0.0,
                sat: 0,
                unsat: 0,
                dump: None,
            }
        }
    }
    fn grow(&mut self, n: usize) {
        if self.bv.len() < n {
            self.bv.resize(n, std::ptr::null_mut());
            self.bl.resize(n, std::ptr::null_mut());
        }
    }
    fn numeral(&self, w: u32, v: u128) -> P {
        unsafe {
            let s = (self.api.Z3_mk_bv_sort)(self.ctx, w);
            if w <= 64 {
                (self.api.Z3_mk_unsigned_int64)(self.ctx, v as u64, s)
            } else {
                let c = CString::new((v & mask(w)).to_string()).unwrap();
                (self.api.Z3_mk_numeral)(self.ctx, c.as_ptr(), s)
            }
        }
    }
    fn var(&mut self, i: usize, w: u32) -> P {
        let (api, ctx) = (self.api, self.ctx);
        *self.vars.entry((i, w)).or_insert_with(|| unsafe {
            let s = (api.Z3_mk_bv_sort)(ctx, w);
            let y = (api.Z3_mk_int_symbol)(ctx, i as c_int);
            (api.Z3_mk_const)(ctx, y, s)
        })
    }
    /// forget everything asserted, ready for another path
    pub fn recycle(&mut self) {
        unsafe {
            (self.api.Z3_solver_pop)(self.ctx, self.s, 1);
            (self.api.Z3_solver_push)(self.ctx, self.s);
        }
        self.bv.clear();
        self.bl.clear();
        self.uses += 1;
        self.queries = 0;
        self.time = 0.0;
        self.max_time = 0.0;
        self.sat = 0;
        self.unsat = 0;
    }
    /// boolean term for a 1-bit expression
    fn tb(&mut self, a: &Arena, id: u32) -> P {
        self.grow(a.n.len());
        if !self.bl[id as usize].is_null() {
            return self.bl[id as usize];
        }
        let k = a.key(id);
        let api = self.api;
        let c = self.ctx;
        let r = unsafe {
            match k.op {
                K::Const => {
                    if k.k != 0 {
                        (api.Z3_mk_true)(c)
                    } else {
                        (api.Z3_mk_false)(c)
                    }
                }
                K::Not => {
                    let x = self.tb(a, k.a);
                    (api.Z3_mk_not)(c, x)
                }
                K::And => {
                    let v = [self.tb(a, k.a), self.tb(a, k.b)];
                    (api.Z3_mk_and)(c, 2, v.as_ptr())
                }
                K::Or => {
                    let v = [self.tb(a, k.a), self.tb(a, k.b)];
                    (api.Z3_mk_or)(c, 2, v.as_ptr())
                }
                K::Eq => {
                    if a.w(k.a) == 1 {
                        let (x, y) = (self.tb(a, k.a), self.tb(a, k.b));
                        (api.Z3_mk_eq)(c, x, y)
                    } else {
                        let (x, y) = (self.tv(a, k.a), self.tv(a, k.b));
                        (api.Z3_mk_eq)(c, x, y)
                    }
                }
                K::Ult | K::Ule | K::Slt | K::Sle => {
                    let (x, y) = (self.tv(a, k.a), self.tv(a, k.b));
                    match k.op {
                        K::Ult => (api.Z3_mk_bvult)(c, x, y),
                        K::Ule => (api.Z3_mk_bvule)(c, x, y),
                        K::Slt => (api.Z3_mk_bvslt)(c, x, y),
                        _ => (api.Z3_mk_bvsle)(c, x, y),
                    }
                }
                _ => {
                    let x = self.tv(a, id);
                    let one = self.numeral(1, 1);
                    (api.Z3_mk_eq)(c, x, one)
                }
            }
        };
        self.bl[id as usize] = r;
        r
    }
    fn tv(&mut self, a: &Arena, id: u32) -> P {
        self.grow(a.n.len());
        if !self.bv[id as usize].is_null() {
            return self.bv[id as usize];
        }
        let k = a.key(id);
        let api = self.api;
        let c = self.ctx;
        macro_rules! b2 {
            ($f:ident) => {{
                let (x, y) = (self.tv(a, k.a), self.tv(a, k.b));
                (api.$f)(c, x, y)
            }};
        }
        let r = unsafe {
            match k.op {
                K::Const => self.numeral(k.w, k.k),
                K::Var => self.var(k.k as usize, k.w),
                K::Not => {
                    let x = self.tv(a, k.a);
                    (api.Z3_mk_bvnot)(c, x)
                }
                K::And => b2!(Z3_mk_bvand),
                K::Or => b2!(Z3_mk_bvor),
                K::Xor => b2!(Z3_mk_bvxor),
                K::Add => b2!(Z3_mk_bvadd),
                K::Sub => b2!(Z3_mk_bvsub),
                K::Mul => b2!(Z3_mk_bvmul),
                K::UDiv => b2!(Z3_mk_bvudiv),
                K::URem => b2!(Z3_mk_bvurem),
                K::SDiv => b2!(Z3_mk_bvsdiv),
                K::SRem => b2!(Z3_mk_bvsrem),
                K::Shl => b2!(Z3_mk_bvshl),
                K::LShr => b2!(Z3_mk_bvlshr),
                K::AShr => b2!(Z3_mk_bvashr),
                K::Concat => b2!(Z3_mk_concat),
                K::Extract => {
                    let x = self.tv(a, k.a);
                    (api.Z3_mk_extract)(c, k.k as c_uint + k.w - 1, k.k as c_uint, x)
                }
                K::ZExt => {
                    let x = self.tv(a, k.a);
                    (api.Z3_mk_zero_ext)(c, k.w - a.w(k.a), x)
                }
                K::SExt => {
                    let x = self.tv(a, k.a);
                    (api.Z3_mk_sign_ext)(c, k.w - a.w(k.a), x)
                }
                K::Ite => {
                    let (p, x, y) = (self.tb(a, k.a), self.tv(a, k.b), self.tv(a, k.c));
                    (api.Z3_mk_ite)(c, p, x, y)
                }
                K::Eq | K::Ult | K::Ule | K::Slt | K::Sle => {
                    let p = self.tb(a, id);
                    let one = self.numeral(1, 1);
                    let zero = self.numeral(1, 0);
                    (api.Z3_mk_ite)(c, p, one, zero)
                }
            }
        };
        self.bv[id as usize] = r;
        r
    }
    pub fn assert(&mut self, a: &Arena, id: u32) {
        let t = self.tb(a, id);
        unsafe { (self.api.Z3_solver_assert)(self.ctx, self.s, t) }
    }
    /// Is pc /\ cond satisfiable?  On Sat returns an assignment of all variables.
    pub fn check(&mut self, a: &Arena, cond: u32) -> (Sat, Vec<u128>) {
        let t = self.tb(a, cond);
        let st = std::time::Instant::now();
        let api = self.api;
        let c = self.ctx;
        unsafe {
            (api.Z3_solver_push)(c, self.s);
            (api.Z3_solver_assert)(c, self.s, t);
            let r = (api.Z3_solver_check)(c, self.s);
            let mut model = vec![];
            let res = match r {
                1 => {
                    self.sat += 1;
                    let m = (api.Z3_solver_get_model)(c, self.s);
                    (api.Z3_model_inc_ref)(c, m);
                    for (i, w) in a.vars.iter().enumerate() {
                        let v = self.var(i, *w);
                        let mut out: P = std::ptr::null_mut();
                        let ok = (api.Z3_model_eval)(c, m, v, true, &mut out);
                        assert!(ok);
                        let val = if *w <= 64 {
                            let mut u = 0u64;
                            assert!((api.Z3_get_numeral_uint64)(c, out, &mut u));
                            u as u128
                        } else {
                            let s = CStr::from_ptr((api.Z3_get_numeral_string)(c, out));
                            s.to_str().unwrap().parse::<u128>().unwrap()
                        };
                        model.push(val);
                    }
                    (api.Z3_model_dec_ref)(c, m);
                    Sat::Sat
                }
                -1 => {
                    self.unsat += 1;
                    Sat::Unsat
                }
                _ => Sat::Unknown,
            };
            if let Some((dir, every, n)) = &mut self.dump {
                *n += 1;
                if *n % *every == 0 && res != Sat::Unknown {
                    let s = CStr::from_ptr((api.Z3_solver_to_string)(c, self.s)).to_string_lossy().into_owned();
                    let h = {
                        use std::hash::Hasher;
                        let mut f = crate::expr::Fx::default();
                        f.write(s.as_bytes());
                        f.finish()
                    };
                    let exp = if res == Sat::Sat { "sat" } else { "unsat" };
                    let _ = std::fs::write(
                        format!("{}/{:016x}.{}.smt2", dir, h, exp),
                        format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s),
                    );
                }
            }
            (api.Z3_solver_pop)(c, self.s, 1);
            let dt = st.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.max_time {
                self.max_time = dt;
            }
            self.queries += 1;
            (res, model)
        }
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        unsafe {
            (self.api.Z3_solver_dec_ref)(self.ctx, self.s);
            (self.api.Z3_del_context)(self.ctx);
        }
    }
}
