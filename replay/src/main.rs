//! Runs the harness natively against the real crate, answering its requests for symbolic values
//! from recorded lists.
//!
//!   replay ID TIER batch FILE      one path per line: <observation hash> <values…>; prints the
//!                                  lines whose native run differs, then a summary
//!   replay ID TIER one VALUES…     runs one path; exit 0 held, 10 violated, 11 out of step
use std::cell::RefCell;
use std::panic;

struct State {
    vals: Vec<u64>,
    pos: usize,
    hash: u64,
    violated: Option<String>,
    out_of_step: Option<String>,
}
thread_local! {
    static S: RefCell<State> = RefCell::new(State { vals: vec![], pos: 0, hash: 0, violated: None, out_of_step: None });
    static PANIC: RefCell<String> = RefCell::new(String::new());
}
/// unwinds to the driver without the panic hook's report
struct Stop;

fn next() -> u64 {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let v = s.vals.get(s.pos).copied();
        s.pos += 1;
        v.unwrap_or(0)
    })
}
fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()
}
fn violated(m: String) -> ! {
    S.with(|s| s.borrow_mut().violated = Some(m));
    panic::panic_any(Stop)
}
fn out_of_step(m: &str) -> ! {
    S.with(|s| s.borrow_mut().out_of_step = Some(m.to_string()));
    panic::panic_any(Stop)
}

#[no_mangle]
pub extern "C-unwind" fn __sym_var(bits: u32) -> u64 {
    let v = next();
    if bits >= 64 {
        v
    } else {
        v & ((1u64 << bits) - 1)
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_choose(n: u32) -> u32 {
    let v = next();
    if v >= n as u64 {
        out_of_step("a recorded choice is out of range")
    }
    v as u32
}
#[no_mangle]
pub extern "C-unwind" fn __sym_assume(c: u32) {
    if c == 0 {
        out_of_step("an assumption does not hold natively")
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_assert(c: u32, p: *const u8, n: usize) {
    if c == 0 {
        violated(text(p, n))
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_fail(p: *const u8, n: usize) -> ! {
    violated(text(p, n))
}
#[no_mangle]
pub extern "C-unwind" fn __sym_observe(p: *const u8, n: usize) {
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    S.with(|s| {
        let mut s = s.borrow_mut();
        let mut h = s.hash;
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        s.hash = h;
    })
}
#[no_mangle]
pub extern "C-unwind" fn __sym_reach(_p: *const u8, _n: usize) {}
#[no_mangle]
pub extern "C-unwind" fn __sym_hash_stub(_on: u32) {}
#[no_mangle]
pub extern "C-unwind" fn __sym_concretize(v: u64) -> u64 {
    v
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn dup2(a: i32, b: i32) -> i32;
}
// the system's functions, except for the descriptor of the modelled sink
use harness::props::{self as model, Iov, FD};
#[no_mangle]
pub extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if fd == FD {
        return model::__model_write(fd, p, n);
    }
    unsafe { syscall(1, fd as i64, p, n) as isize }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const Iov, n: i32) -> isize {
    if fd == FD {
        return model::__model_writev(fd, v, n);
    }
    syscall(20, fd as i64, v, n as i64) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, p: *const u8, n: usize, at: i64) -> isize {
    if fd == FD {
        return model::__model_pwrite64(fd, p, n, at);
    }
    syscall(18, fd as i64, p, n, at) as isize
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, to: i64, whence: i32) -> i64 {
    if fd == FD {
        return model::__model_lseek64(fd, to, whence);
    }
    syscall(8, fd as i64, to, whence as i64)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    if fd == FD {
        return model::__model_ftruncate64(fd, n);
    }
    syscall(77, fd as i64, n) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    if fd == FD {
        return model::__model_fsync(fd);
    }
    syscall(74, fd as i64) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    if fd == FD {
        return model::__model_fdatasync(fd);
    }
    syscall(75, fd as i64) as i32
}

enum Out {
    Held(u64),
    Violated(String),
    OutOfStep(String),
}

fn run(id: u32, tier: u32, vals: Vec<u64>, null: &std::fs::File) -> Out {
    use std::os::unix::io::AsRawFd;
    unsafe { dup2(null.as_raw_fd(), harness::props::FD) };
    let n = vals.len();
    S.with(|s| *s.borrow_mut() = State { vals, pos: 0, hash: 0xcbf29ce484222325, violated: None, out_of_step: None });
    let r = panic::catch_unwind(|| harness::props::run(id, tier));
    S.with(|s| {
        let s = s.borrow();
        if let Some(m) = &s.violated {
            return Out::Violated(m.clone());
        }
        if let Some(m) = &s.out_of_step {
            return Out::OutOfStep(m.clone());
        }
        match r {
            Ok(()) if s.pos == n => Out::Held(s.hash),
            Ok(()) => Out::OutOfStep(format!("{} values were recorded, {} were asked for", n, s.pos)),
            Err(e) => {
                if e.is::<Stop>() {
                    return Out::OutOfStep("stopped".into());
                }
                Out::Violated(format!("panic: {}", PANIC.with(|p| p.borrow().clone())))
            }
        }
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (id, tier): (u32, u32) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    panic::set_hook(Box::new(|i| {
        if i.payload().is::<Stop>() {
            return;
        }
        let t = i.to_string().replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = t);
    }));
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    let hex = |w: &str| u64::from_str_radix(w, 16).unwrap();
    // the harness gets a stack of its own size
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || match a[3].as_str() {
        "batch" => {
            let t = std::fs::read_to_string(&a[4]).unwrap();
            let (mut ok, mut bad) = (0u64, 0u64);
            for (k, l) in t.lines().enumerate() {
                let mut w = l.split_whitespace();
                let want = hex(w.next().unwrap());
                let vals: Vec<u64> = w.map(hex).collect();
                let vs = l.splitn(2, ' ').nth(1).unwrap_or("").to_string();
                let m = match run(id, tier, vals.clone(), &null) {
                    Out::Held(h) if h == want => {
                        ok += 1;
                        continue;
                    }
                    Out::Held(h) => {
                        // is it the code that is not deterministic, or the executor that is wrong?
                        let mut det = true;
                        for _ in 0..40 {
                            if !matches!(run(id, tier, vals.clone(), &null), Out::Held(x) if x == h) {
                                det = false;
                                break;
                            }
                        }
                        if det {
                            format!("DIFFERS {:016x}", h)
                        } else {
                            "NONDETERMINISTIC".to_string()
                        }
                    }
                    Out::Violated(m) => format!("VIOLATED {}", m),
                    Out::OutOfStep(m) => format!("OUTOFSTEP {}", m),
                };
                bad += 1;
                if bad <= 20 {
                    println!("LINE {} | {} | {}", k, m, vs);
                }
            }
            println!("SUMMARY ok {} bad {}", ok, bad);
            0
        }
        _ => {
            let vals: Vec<u64> = a[4..].iter().flat_map(|w| w.split_whitespace().map(hex).collect::<Vec<_>>()).collect();
            match run(id, tier, vals, &null) {
                Out::Held(h) => {
                    println!("held {:016x}", h);
                    0
                }
                Out::Violated(m) => {
                    println!("violated: {}", m);
                    10
                }
                Out::OutOfStep(m) => {
                    println!("out of step: {}", m);
                    11
                }
            }
        }
    });
    std::process::exit(h.unwrap().join().unwrap_or(12));
}
