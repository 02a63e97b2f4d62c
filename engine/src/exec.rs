//! Path-exhaustive symbolic execution of LLVM IR.
use crate::expr::{self, ctx, mask, sext128, Op, E};
use crate::mem::{mkval, Obj};
use crate::parse::*;
use crate::solver::Solver;
use std::collections::HashMap;
use std::io::Write;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub blk: u32,
    pub prev: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub ret: Option<u32>,
    pub normal: Option<u32>,
    pub sbase: usize,
}

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub heap: Vec<Option<Rc<Obj>>>,
    pub stk: Vec<Rc<Obj>>,
    pub gmut: HashMap<u32, Rc<Obj>>,
    pub pc: Vec<E>,
    pub known: Rc<HashMap<E, bool>>,
    pub fixed: Rc<HashMap<E, u128>>,
    pub model: Rc<Vec<u128>>,
    pub ep: u32,
    pub widths: Vec<u16>,
    pub obs: Vec<Val>,
    pub cover: [u64; 2],
    pub steps: u64,
}

/// Counters shared by all worker processes.
#[repr(C)]
pub struct Shared {
    pub tokens: AtomicI64,
    pub stop: AtomicU64,
    pub incomplete: AtomicU64,
    pub errors: AtomicU64,
    pub paths: AtomicU64,
    pub killed: AtomicU64,
    pub forks: AtomicU64,
    pub steps: AtomicU64,
    pub checks: AtomicU64,
    pub queries: AtomicU64,
    pub z3: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub cache: AtomicU64,
    pub mhits: AtomicU64,
    pub us: AtomicU64,
    pub max_us: AtomicU64,
    pub viols: AtomicU64,
    pub procs: AtomicU64,
    pub checks_solved: AtomicU64,
    pub cover: [AtomicU64; 128],
    pub maxsteps: AtomicU64,
    pub maxvars: AtomicU64,
    pub bpaths: [AtomicU64; 64],
    /// when the first violation was found (ms, 0: none yet)
    pub viol_at: AtomicU64,
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

pub fn shared_new() -> &'static Shared {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 1 << 16, 3, 0x21, -1, 0);
        &*(p as *const Shared)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sp {
    None,
    Nop,
    Panic,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    CRealloc,
    Free,
    PosixMemalign,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    Make,
    Pick,
    Assume,
    Check,
    Cover,
    Observe,
    Param,
    Concretize,
    Unreached,
    Intr,
}

pub enum End {
    Done,
    Killed,
    Viol,
    Err(String),
}

enum Stop {
    /// The path ended.
    End(End),
}
type R<T> = Result<T, Stop>;

pub struct Opts {
    pub entry: String,
    pub out: String,
    pub jobs: i64,
    pub time: f64,
    pub params: Vec<u64>,
    pub known: Vec<String>,
    pub max_steps: u64,
    pub stop_on_viol: bool,
    pub traces: usize,
    pub verbose: bool,
}

pub struct Engine {
    pub m: Module,
    sp: Vec<Sp>,
    pub solver: Solver,
    pub work: Vec<State>,
    pub sh: &'static Shared,
    pub o: Opts,
    pub t0: Instant,
    last_donate: Instant,
    nviol: HashMap<String, u32>,
    violfile: Option<std::fs::File>,
    traces: Vec<String>,
    seen_paths: u64,
    rng: u64,
    children: Vec<i32>,
    is_child: bool,
    flushed: [u64; 8],
    branch_prof: HashMap<(u32, u32), u64>,
}

fn sp_of(n: &str) -> Sp {
    if n.contains("7___rustc") {
        if n.ends_with("___rust_alloc") {
            return Sp::Alloc;
        }
        if n.ends_with("___rust_dealloc") {
            return Sp::Dealloc;
        }
        if n.ends_with("___rust_realloc") {
            return Sp::Realloc;
        }
        if n.ends_with("___rust_alloc_zeroed") {
            return Sp::AllocZeroed;
        }
        if n.ends_with("no_alloc_shim_is_unstable_v2") {
            return Sp::Nop;
        }
        if n.ends_with("17rust_begin_unwind") || n.ends_with("10rust_panic") {
            return Sp::Panic;
        }
    }
    if n.contains("4core9panicking") {
        return Sp::Panic;
    }
    if n.contains("5alloc5alloc18handle_alloc_error") || n.contains("5alloc7raw_vec12handle_error") || n.contains("5alloc7raw_vec17capacity_overflow") {
        return Sp::Panic;
    }
    match n {
        "malloc" => Sp::Malloc,
        "calloc" => Sp::Calloc,
        "realloc" => Sp::CRealloc,
        "free" => Sp::Free,
        "posix_memalign" => Sp::PosixMemalign,
        "memcpy" | "memmove" => Sp::Memcpy,
        "memset" => Sp::Memset,
        "bcmp" => Sp::Bcmp,
        "memcmp" => Sp::Memcmp,
        "strlen" => Sp::Strlen,
        "abort" | "exit" | "_exit" => Sp::Panic,
        "sym_make" => Sp::Make,
        "sym_pick" => Sp::Pick,
        "sym_assume" => Sp::Assume,
        "sym_check" => Sp::Check,
        "sym_cover" => Sp::Cover,
        "sym_observe" => Sp::Observe,
        "sym_param" => Sp::Param,
        "sym_concretize" => Sp::Concretize,
        "sym_unreached" => Sp::Unreached,
        _ => {
            if let Some(r) = n.strip_prefix("llvm.") {
                if r.starts_with("lifetime")
                    || r.starts_with("experimental.noalias")
                    || r.starts_with("dbg.")
                    || r.starts_with("assume")
                    || r.starts_with("donothing")
                    || r.starts_with("prefetch")
                    || r.starts_with("sideeffect")
                    || r.starts_with("var.annotation")
                    || r.starts_with("invariant")
                    || r.starts_with("x86.sse2.pause")
                {
                    return Sp::Nop;
                }
                if r.starts_with("memcpy") || r.starts_with("memmove") {
                    return Sp::Memcpy;
                }
                if r.starts_with("memset") {
                    return Sp::Memset;
                }
                if r.starts_with("trap") || r.starts_with("ubsantrap") {
                    return Sp::Panic;
                }
                return Sp::Intr;
            }
            Sp::None
        }
    }
}

fn e_of(v: &Val, w: u16) -> E {
    match v {
        Val::C(c) => expr::cst(*c, w),
        Val::S(e) => {
            debug_assert_eq!(expr::width(*e), w);
            *e
        }
        Val::A(_) => panic!("aggregate as scalar"),
    }
}

fn xop(op: BinOp) -> Op {
    match op {
        BinOp::Add => Op::Add,
        BinOp::Sub => Op::Sub,
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::And => Op::And,
        BinOp::Or => Op::Or,
        BinOp::Xor => Op::Xor,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
        BinOp::FAdd => Op::FAdd,
        BinOp::FSub => Op::FSub,
        BinOp::FMul => Op::FMul,
        BinOp::FDiv => Op::FDiv,
    }
}

fn vbin(op: BinOp, w: u16, a: &Val, b: &Val) -> Val {
    match (a, b) {
        (Val::C(x), Val::C(y)) => {
            let (x, y) = (*x, *y);
            let m = mask(w);
            Val::C(match op {
                BinOp::Add => x.wrapping_add(y) & m,
                BinOp::Sub => x.wrapping_sub(y) & m,
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                _ => expr::fold(xop(op), w, x, w, y, w, 0),
            })
        }
        (Val::A(x), Val::A(y)) => Val::A(Rc::new(x.iter().zip(y.iter()).map(|(a, b)| vbin(op, w, a, b)).collect())),
        _ => mkval(expr::bin(xop(op), e_of(a, w), e_of(b, w))),
    }
}

fn vicmp(p: Pred, w: u16, a: &Val, b: &Val) -> Val {
    match (a, b) {
        (Val::C(x), Val::C(y)) => {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext128(x, w), sext128(y, w));
            Val::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
            } as u128)
        }
        (Val::A(x), Val::A(y)) => Val::A(Rc::new(x.iter().zip(y.iter()).map(|(a, b)| vicmp(p, w, a, b)).collect())),
        _ => {
            let (a, b) = (e_of(a, w), e_of(b, w));
            mkval(match p {
                Pred::Eq => expr::eq(a, b),
                Pred::Ne => expr::not(expr::eq(a, b)),
                Pred::Ugt => expr::ult(b, a),
                Pred::Uge => expr::ule(b, a),
                Pred::Ult => expr::ult(a, b),
                Pred::Ule => expr::ule(a, b),
                Pred::Sgt => expr::scmp(Op::Slt, b, a),
                Pred::Sge => expr::scmp(Op::Sle, b, a),
                Pred::Slt => expr::scmp(Op::Slt, a, b),
                Pred::Sle => expr::scmp(Op::Sle, a, b),
            })
        }
    }
}

fn vcast(k: Cast, from: u16, to: u16, a: &Val) -> Val {
    match a {
        Val::C(c) => Val::C(match k {
            Cast::Trunc => c & mask(to),
            Cast::ZExt | Cast::Copy => *c,
            Cast::SExt => sext128(*c, from) as u128 & mask(to),
            Cast::UiToF => (*c as f64).to_bits() as u128,
            Cast::SiToF => (sext128(*c, from) as f64).to_bits() as u128,
            Cast::FToUi => (f64::from_bits(*c as u64) as u128) & mask(to),
            Cast::FToSi => (f64::from_bits(*c as u64) as i128 as u128) & mask(to),
        }),
        Val::S(e) => mkval(match k {
            Cast::Trunc => expr::extract(*e, to - 1, 0),
            Cast::ZExt => expr::zext(*e, to),
            Cast::SExt => expr::sext(*e, to),
            Cast::Copy => *e,
            Cast::UiToF => expr::un(Op::UiToF, *e, 64),
            Cast::SiToF => expr::un(Op::SiToF, *e, 64),
            Cast::FToUi => expr::un(Op::FToUi, *e, to),
            Cast::FToSi => expr::un(Op::FToSi, *e, to),
        }),
        Val::A(v) => Val::A(Rc::new(v.iter().map(|x| vcast(k, from, to, x)).collect())),
    }
}

/// select, pushing an if-then-else into aggregates
fn vselect(c: E, a: &Val, b: &Val, ty: &Ty) -> Val {
    match (a, b) {
        (Val::A(x), Val::A(y)) => Val::A(Rc::new(
            x.iter()
                .zip(y.iter())
                .enumerate()
                .map(|(i, (p, q))| {
                    let t = match ty {
                        Ty::Struct(f, _) => f[i].clone(),
                        Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
                        _ => panic!(),
                    };
                    vselect(c, p, q, &t)
                })
                .collect(),
        )),
        _ => {
            let w = ty.bits();
            mkval(expr::ite(c, e_of(a, w), e_of(b, w)))
        }
    }
}

fn fnv(h: u64, v: u64) -> u64 {
    let mut h = h;
    for b in v.to_le_bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn suffix_width(n: &str) -> u16 {
    // llvm.foo.i32 -> 32
    n.rsplit('.').find_map(|p| p.strip_prefix('i').and_then(|x| x.parse().ok())).unwrap_or(64)
}

impl Engine {
    pub fn new(m: Module, o: Opts, sh: &'static Shared) -> Engine {
        let sp = m.fn_names.iter().map(|n| sp_of(n)).collect();
        let mut solver = Solver::new();
        if let Ok(d) = std::env::var("SYMX_DUMP") {
            let every = std::env::var("SYMX_DUMP_EVERY").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            solver.dump = Some((d, every, 0));
        }
        Engine {
            m,
            sp,
            solver,
            work: vec![],
            sh,
            o,
            t0: Instant::now(),
            last_donate: Instant::now(),
            nviol: HashMap::new(),
            violfile: None,
            traces: vec![],
            seen_paths: 0,
            rng: 0x9E3779B97F4A7C15,
            children: vec![],
            is_child: false,
            flushed: [0; 8],
            branch_prof: HashMap::new(),
        }
    }

    pub fn start(&mut self) -> bool {
        let Some(&a) = self.m.sym.get(self.o.entry.as_str()) else {
            eprintln!("symx: no entry {}", self.o.entry);
            return false;
        };
        let id = ((a >> 32) & 0xfffffff) as u32;
        let f = self.m.func(id).expect("entry body");
        f.entered.borrow_mut()[0] = true;
        let st = State {
            top: Frame { f, blk: 0, prev: 0, ip: 0, regs: vec![Val::C(0); f.nregs as usize], ret: None, normal: None, sbase: 0 },
            stack: vec![],
            heap: vec![],
            stk: vec![],
            gmut: HashMap::new(),
            pc: vec![],
            known: Rc::new(HashMap::new()),
            fixed: Rc::new(HashMap::new()),
            model: Rc::new(vec![]),
            ep: ctx().new_epoch(),
            widths: vec![],
            obs: vec![],
            cover: [0; 2],
            steps: 0,
        };
        self.work.push(st);
        self.explore();
        self.finish();
        true
    }

    fn explore(&mut self) {
        while let Some(st) = self.work.pop() {
            if self.sh.stop.load(Relaxed) != 0 {
                break;
            }
            self.run_path(st);
            self.maybe_donate();
        }
    }

    fn maybe_donate(&mut self) {
        if self.work.is_empty() {
            return;
        }
        if self.last_donate.elapsed().as_micros() < 3000 {
            return;
        }
        self.last_donate = Instant::now();
        // a few more counterexamples after the first one are enough
        let at = self.sh.viol_at.load(Relaxed);
        if at != 0 && self.t0.elapsed().as_millis() as u64 > at + 15_000 {
            self.sh.stop.store(1, Relaxed);
            return;
        }
        if self.t0.elapsed().as_secs_f64() > self.o.time {
            self.sh.incomplete.store(1, Relaxed);
            self.sh.stop.store(1, Relaxed);
            return;
        }
        if self.sh.tokens.load(Relaxed) <= 0 {
            return;
        }
        if self.sh.tokens.fetch_sub(1, Relaxed) <= 0 {
            self.sh.tokens.fetch_add(1, Relaxed);
            return;
        }
        let k = (self.work.len() + 1) / 2;
        let rest = self.work.split_off(k);
        let give = std::mem::replace(&mut self.work, rest);
        self.flush_stats();
        let _ = std::io::stdout().flush();
        let p = unsafe { fork() };
        if p == 0 {
            self.sh.procs.fetch_add(1, Relaxed);
            self.children.clear();
            self.is_child = true;
            self.traces.clear();
            self.nviol.clear();
            self.violfile = None;
            self.seen_paths = 0;
            self.rng ^= std::process::id() as u64 * 0x2545F4914F6CDD1D;
            self.work = give;
            self.explore();
            self.finish();
            unsafe { _exit(0) }
        } else if p > 0 {
            self.children.push(p);
            // reap finished children
            self.children.retain(|&c| {
                let mut st = 0;
                let r = unsafe { waitpid(c, &mut st, 1) };
                if r == c && st != 0 {
                    self.sh.errors.fetch_add(1, Relaxed);
                    self.sh.tokens.fetch_add(1, Relaxed);
                }
                r == 0
            });
        } else {
            // could not fork: take the work back
            self.sh.tokens.fetch_add(1, Relaxed);
            let mut w = give;
            w.append(&mut self.work);
            self.work = w;
        }
    }

    fn flush_stats(&mut self) {
        let s = &mut self.solver.st;
        self.sh.queries.fetch_add(s.queries, Relaxed);
        self.sh.z3.fetch_add(s.z3_calls, Relaxed);
        self.sh.sat.fetch_add(s.sat, Relaxed);
        self.sh.unsat.fetch_add(s.unsat, Relaxed);
        self.sh.unknown.fetch_add(s.unknown, Relaxed);
        self.sh.cache.fetch_add(s.cache_hits, Relaxed);
        self.sh.mhits.fetch_add(s.model_hits, Relaxed);
        self.sh.us.fetch_add(s.us, Relaxed);
        self.sh.max_us.fetch_max(s.max_us, Relaxed);
        *s = Default::default();
        let _ = self.flushed;
    }

    fn finish(&mut self) {
        self.flush_stats();
        self.sh.tokens.fetch_add(1, Relaxed);
        if self.sh.stop.load(Relaxed) == 0 && !self.work.is_empty() {
            self.sh.errors.fetch_add(1, Relaxed);
        }
        let pid = std::process::id();
        if !self.traces.is_empty() {
            let _ = std::fs::write(format!("{}/traces-{pid}.txt", self.o.out), self.traces.concat());
        }
        let mut s = String::new();
        for f in &self.m.fns {
            if let FnSlot::Parsed(f) = f {
                let e = f.entered.borrow();
                let n = e.iter().filter(|x| **x).count();
                if n > 0 {
                    s += &format!("{} {}", f.name, e.len());
                    for (i, x) in e.iter().enumerate() {
                        if *x {
                            s += &format!(" {i}");
                        }
                    }
                    s += "\n";
                }
            }
        }
        let _ = std::fs::write(format!("{}/funcs-{pid}.txt", self.o.out), s);
        if self.o.verbose {
            let mut v: Vec<_> = self.branch_prof.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            let mut s = String::new();
            for ((f, b), n) in v.iter().take(40) {
                s += &format!("{n} {} {b}\n", self.m.fn_names[*f as usize]);
            }
            let _ = std::fs::write(format!("{}/prof-{pid}.txt", self.o.out), s);
        }
        for c in self.children.drain(..) {
            let mut st = 0;
            unsafe { waitpid(c, &mut st, 0) };
            if st != 0 {
                self.sh.errors.fetch_add(1, Relaxed);
                self.sh.tokens.fetch_add(1, Relaxed);
            }
        }
    }

    fn inputs_text(&self, st: &State, model: &[u128]) -> String {
        let mut s = String::new();
        for (i, w) in st.widths.iter().enumerate() {
            let v = model.get(i).copied().unwrap_or(0) & mask(*w);
            s += &format!(" {v:x}");
        }
        s
    }

    fn record(&mut self, st: &State, msg: &str, model: &[u128]) {
        let known = self.o.known.iter().any(|k| msg.contains(k.as_str()));
        let n = self.nviol.entry(msg.to_string()).or_insert(0);
        *n += 1;
        if *n <= 2 {
            let mut t = format!("VIOL {}\nIN{}\n", msg.replace('\n', " "), self.inputs_text(st, model));
            for f in std::iter::once(&st.top).chain(st.stack.iter().rev().map(|f| &**f)) {
                t += &format!("AT {} #{}\n", f.f.name, f.f.blocks[f.blk as usize].name);
            }
            t += "END\n";
            if self.violfile.is_none() {
                let p = format!("{}/viol-{}.txt", self.o.out, std::process::id());
                self.violfile = std::fs::OpenOptions::new().create(true).append(true).open(p).ok();
            }
            if let Some(f) = &mut self.violfile {
                let _ = f.write_all(t.as_bytes());
            }
        }
        self.sh.viols.fetch_add(1, Relaxed);
        if !known {
            let now = self.t0.elapsed().as_millis() as u64 + 1;
            let _ = self.sh.viol_at.compare_exchange(0, now, Relaxed, Relaxed);
        }
        if self.o.stop_on_viol && !known {
            self.sh.stop.store(1, Relaxed);
        }
    }

    fn run_path(&mut self, mut st: State) {
        ctx().use_epoch(st.ep);
        let s0 = st.steps;
        let r = self.run(&mut st);
        self.sh.steps.fetch_add(st.steps - s0, Relaxed);
        self.sh.maxsteps.fetch_max(st.steps, Relaxed);
        self.sh.maxvars.fetch_max(st.widths.len() as u64, Relaxed);
        match r {
            End::Done => {
                self.sh.paths.fetch_add(1, Relaxed);
                for i in 0..128 {
                    if st.cover[i / 64] >> (i % 64) & 1 != 0 {
                        self.sh.cover[i].fetch_add(1, Relaxed);
                    }
                }
                // reservoir sample of completed paths for native validation
                self.seen_paths += 1;
                let slot = if self.traces.len() < self.o.traces {
                    self.traces.push(String::new());
                    Some(self.traces.len() - 1)
                } else if self.o.traces > 0 {
                    self.rng ^= self.rng << 13;
                    self.rng ^= self.rng >> 7;
                    self.rng ^= self.rng << 17;
                    let k = self.rng % self.seen_paths;
                    if (k as usize) < self.o.traces {
                        Some(k as usize)
                    } else {
                        None
                    }
                } else {
                    None
                };
                if let Some(k) = slot {
                    let mut h = 0xcbf29ce484222325u64;
                    ctx().use_epoch(st.ep);
                    for v in &st.obs {
                        let x = match v {
                            Val::C(c) => *c as u64,
                            Val::S(e) => ctx().eval(*e, &st.model) as u64,
                            _ => 0,
                        };
                        h = fnv(h, x);
                    }
                    self.traces[k] = format!("T {h:x} {}{}\n", st.obs.len(), self.inputs_text(&st, &st.model));
                }
            }
            End::Killed => {
                self.sh.killed.fetch_add(1, Relaxed);
            }
            End::Viol => {
                self.sh.paths.fetch_add(1, Relaxed);
            }
            End::Err(m) => {
                let mut t = format!("symx: ERROR {m}\n");
                for f in std::iter::once(&st.top).chain(st.stack.iter().rev().map(|f| &**f)) {
                    t += &format!("   at {} #{} ip {}\n", f.f.name, f.f.blocks[f.blk as usize].name, f.ip);
                }
                eprint!("{t}");
                self.sh.errors.fetch_add(1, Relaxed);
                self.sh.stop.store(1, Relaxed);
            }
        }
    }

    fn ov(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::R(r) => st.top.regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }

    fn jump(&mut self, st: &mut State, b: u32) {
        let f = &mut st.top;
        let cur = f.blk;
        f.prev = cur;
        f.blk = b;
        f.ip = 0;
        let blk = &f.f.blocks[b as usize];
        f.f.entered.borrow_mut()[b as usize] = true;
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let (d, v) = &blk.phis[0];
                let o = &v.iter().find(|(p, _)| *p == cur).unwrap_or_else(|| panic!("phi in {} #{} from #{}", f.f.name, f.f.blocks[b as usize].name, f.f.blocks[cur as usize].name)).1;
                let x = match o {
                    Opd::R(r) => f.regs[*r as usize].clone(),
                    Opd::K(v) => v.clone(),
                };
                f.regs[*d as usize] = x;
            } else {
                let mut t = Vec::with_capacity(blk.phis.len());
                for (_, v) in &blk.phis {
                    let o = &v.iter().find(|(p, _)| *p == cur).unwrap_or_else(|| panic!("phi in {} #{} from #{}", f.f.name, f.f.blocks[b as usize].name, f.f.blocks[cur as usize].name)).1;
                    t.push(match o {
                        Opd::R(r) => f.regs[*r as usize].clone(),
                        Opd::K(v) => v.clone(),
                    });
                }
                for ((d, _), x) in blk.phis.iter().zip(t) {
                    f.regs[*d as usize] = x;
                }
            }
        }
    }

    fn err<T>(&self, m: impl Into<String>) -> R<T> {
        Err(Stop::End(End::Err(m.into())))
    }

    fn viol<T>(&mut self, st: &State, m: &str) -> R<T> {
        let model = st.model.clone();
        self.record(st, m, &model);
        Err(Stop::End(End::Viol))
    }

    fn query(&mut self, st: &State, q: E) -> R<Option<Vec<u128>>> {
        let t = std::time::Instant::now();
        let r = self.solver.check(&st.pc, q, &st.model);
        ctx().use_epoch(st.ep);
        if self.o.verbose && t.elapsed().as_millis() > 500 {
            eprintln!("slow query {:?} in {} #{}: {}", t.elapsed(), st.top.f.name, st.top.f.blocks[st.top.blk as usize].name, expr::show(q, 14));
            for x in &st.pc {
                eprintln!("    {}", expr::show(*x, 14));
            }
        }
        match r {
            Ok(x) => Ok(x),
            Err(()) => self.err("solver gave no answer"),
        }
    }

    fn add_pc(&self, st: &mut State, c: E) {
        if expr::is_const(c).is_some() {
            return;
        }
        st.pc.push(c);
        let k = Rc::make_mut(&mut st.known);
        k.insert(c, true);
        k.insert(expr::not(c), false);
    }

    fn push_work(&mut self, st: State) {
        self.sh.forks.fetch_add(1, Relaxed);
        self.work.push(st);
    }

    /// Decide a symbolic condition for the current state, forking the other side.
    fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(&b) = st.known.get(&c) {
            return Ok(b);
        }
        let v = ctx().eval(c, &st.model) != 0;
        let (here, other) = if v { (c, expr::not(c)) } else { (expr::not(c), c) };
        match self.query(st, other)? {
            None => {
                let k = Rc::make_mut(&mut st.known);
                k.insert(here, true);
                k.insert(other, false);
            }
            Some(m) => {
                let mut alt = st.clone();
                self.add_pc(&mut alt, other);
                alt.model = Rc::new(m);
                alt.ep = ctx().new_epoch();
                ctx().use_epoch(st.ep);
                if self.o.verbose {
                    *self.branch_prof.entry((st.top.f.idx, st.top.blk)).or_insert(0) += 1;
                }
                self.push_work(alt);
                self.add_pc(st, here);
                self.maybe_donate();
                if self.sh.stop.load(Relaxed) != 0 {
                    return Err(Stop::End(End::Killed));
                }
            }
        }
        Ok(v)
    }

    /// A concrete value for `v`, forking one state per other feasible value.
    fn conc(&mut self, st: &mut State, v: &Val, w: u16) -> R<u128> {
        let e = match v {
            Val::C(c) => return Ok(*c),
            Val::S(e) => *e,
            Val::A(_) => return self.err("concretize aggregate"),
        };
        let _ = w;
        if let Some(&x) = st.fixed.get(&e) {
            return Ok(x);
        }
        let we = expr::width(e);
        let x0 = ctx().eval(e, &st.model);
        let mut excl = vec![expr::not(expr::eq(e, expr::cst(x0, we)))];
        let mut n = 0;
        loop {
            let mut q = expr::tt();
            for x in &excl {
                q = expr::and(q, *x);
            }
            match self.query(st, q)? {
                None => break,
                Some(m) => {
                    let ep = ctx().new_epoch();
                    let x = ctx().eval(e, &m);
                    ctx().use_epoch(st.ep);
                    let mut alt = st.clone();
                    let eqc = expr::eq(e, expr::cst(x, we));
                    self.add_pc(&mut alt, eqc);
                    Rc::make_mut(&mut alt.fixed).insert(e, x);
                    alt.model = Rc::new(m);
                    alt.ep = ep;
                    self.push_work(alt);
                    excl.push(expr::not(eqc));
                }
            }
            n += 1;
            if n > 4096 {
                return self.err("too many values for a symbolic address, size or index");
            }
        }
        if self.o.verbose && n > 0 {
            *self.branch_prof.entry((st.top.f.idx, st.top.blk)).or_insert(0) += n;
        }
        let eqc = expr::eq(e, expr::cst(x0, we));
        if n > 0 {
            self.add_pc(st, eqc);
        }
        Rc::make_mut(&mut st.fixed).insert(e, x0);
        if n > 0 {
            self.maybe_donate();
            if self.sh.stop.load(Relaxed) != 0 {
                return Err(Stop::End(End::Killed));
            }
        }
        Ok(x0)
    }

    fn glob(&mut self, id: u32) -> Rc<Obj> {
        if let Some(o) = &self.m.globals[id as usize].obj {
            return o.clone();
        }
        let (ty, init) = self.m.global_init(id);
        let mut o = Obj::new(ty.size());
        match init {
            Init::Zero | Init::Extern => {}
            Init::Bytes(b) => o.data[..b.len()].copy_from_slice(&b),
            Init::Val(t, v) => o.write(0, &t, &v),
        }
        o.ro = self.m.globals[id as usize].constant;
        let o = Rc::new(o);
        self.m.globals[id as usize].obj = Some(o.clone());
        o
    }

    /// The object and offset of an access of n bytes.
    fn locate(&mut self, st: &State, addr: u64, n: u64) -> R<(u64, u32, usize)> {
        let tag = addr & (0xf << 60);
        let id = ((addr >> 32) & 0xfffffff) as u32;
        let off = (addr & 0xffff_ffff).wrapping_sub(OFF0);
        let mut open = false;
        let size = match tag {
            TAG_HEAP => match st.heap.get(id as usize) {
                Some(Some(o)) => {
                    open = o.open;
                    o.data.len() as u64
                }
                _ => return self.viol(st, "memory: access to freed or unallocated heap memory"),
            },
            TAG_STACK => match st.stk.get(id as usize) {
                Some(o) => o.data.len() as u64,
                _ => return self.viol(st, "memory: access to a dead stack slot"),
            },
            TAG_GLOB => {
                if id as usize >= self.m.globals.len() {
                    return self.viol(st, "memory: wild pointer");
                }
                self.glob(id).data.len() as u64
            }
            _ => return self.viol(st, &format!("memory: wild pointer")),
        };
        if off > size || n > size - off {
            if open {
                return self.err("access beyond the modelled part of an allocation of symbolic size");
            }
            return self.viol(st, &format!("memory: out of bounds access ({n} bytes at offset {} of {size})", off as i64));
        }
        Ok((tag, id, off as usize))
    }

    fn obj(&mut self, st: &State, tag: u64, id: u32) -> Rc<Obj> {
        match tag {
            TAG_HEAP => st.heap[id as usize].clone().unwrap(),
            TAG_STACK => st.stk[id as usize].clone(),
            _ => match st.gmut.get(&id) {
                Some(o) => o.clone(),
                None => self.glob(id),
            },
        }
    }

    fn with_obj<T>(&mut self, st: &State, tag: u64, id: u32, f: impl FnOnce(&Obj) -> T) -> T {
        match tag {
            TAG_HEAP => f(st.heap[id as usize].as_ref().unwrap()),
            TAG_STACK => f(&st.stk[id as usize]),
            _ => match st.gmut.get(&id) {
                Some(o) => f(o),
                None => f(&self.glob(id)),
            },
        }
    }

    fn obj_mut<'a>(&mut self, st: &'a mut State, tag: u64, id: u32) -> R<&'a mut Obj> {
        match tag {
            TAG_HEAP => Ok(Rc::make_mut(st.heap[id as usize].as_mut().unwrap())),
            TAG_STACK => Ok(Rc::make_mut(&mut st.stk[id as usize])),
            _ => {
                let g = self.glob(id);
                if g.ro {
                    return self.viol(st, "memory: write to constant data");
                }
                Ok(Rc::make_mut(st.gmut.entry(id).or_insert(g)))
            }
        }
    }

    fn alloc(&mut self, st: &mut State, size: u64) -> R<u64> {
        if size > 1 << 34 {
            return self.viol(st, "memory: allocation of a size that cannot be served");
        }
        let id = st.heap.len() as u64;
        let mut o = Obj::new(if size > 1 << 24 { 1024 } else { size });
        o.open = size > 1 << 24;
        st.heap.push(Some(Rc::new(o)));
        Ok(obj_addr(TAG_HEAP, id))
    }

    /// An allocation whose size depends on the input: report sizes no allocator can serve,
    /// and model the first bytes of the others.
    fn alloc_sym(&mut self, st: &mut State, v: &Val) -> R<u64> {
        let Val::S(e) = v else {
            let n = self.conc(st, v, 64)? as u64;
            return self.alloc(st, n);
        };
        let e = *e;
        const CAP: u64 = 1024;
        let k = |x: u64| expr::cst(x as u128, 64);
        if st.fixed.contains_key(&e) || self.query(st, expr::ult(k(CAP), e))?.is_none() {
            let n = self.conc(st, v, 64)? as u64;
            return self.alloc(st, n);
        }
        let huge = expr::ult(k(1 << 34), e);
        let mut worst = self.query(st, expr::ult(k(1 << 46), e))?;
        if worst.is_none() {
            worst = self.query(st, huge)?;
        }
        if let Some(m) = worst {
            self.record(st, "memory: allocation of a size that cannot be served", &m);
            let small = expr::not(huge);
            if ctx().eval(small, &st.model) == 0 {
                match self.query(st, small)? {
                    None => return Err(Stop::End(End::Viol)),
                    Some(m) => {
                        st.model = Rc::new(m);
                        st.ep = ctx().new_epoch();
                    }
                }
            }
            self.add_pc(st, small);
        }
        let p = self.alloc(st, CAP)?;
        let id = ((p >> 32) & 0xfffffff) as usize;
        Rc::make_mut(st.heap[id].as_mut().unwrap()).open = true;
        Ok(p)
    }

    fn dealloc(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        let id = ((p >> 32) & 0xfffffff) as usize;
        if p & (0xf << 60) != TAG_HEAP || st.heap.get(id).map_or(true, |x| x.is_none()) || (p & 0xffffffff) != OFF0 {
            return self.viol(st, "memory: invalid free");
        }
        st.heap[id] = None;
        Ok(())
    }

    fn realloc(&mut self, st: &mut State, p: u64, n: u64) -> R<u64> {
        let q = self.alloc(st, n)?;
        if p != 0 {
            let (t, id, off) = self.locate(st, p, 0)?;
            let src = self.obj(st, t, id);
            let k = (src.data.len() - off).min(n as usize);
            let (qt, qid, _) = self.locate(st, q, 0)?;
            self.obj_mut(st, qt, qid)?.copy_from(0, &src, off, k);
            self.dealloc(st, p)?;
        }
        Ok(q)
    }

    fn bytes_at(&mut self, st: &State, p: u64, n: u64) -> R<Vec<Val>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (t, id, off) = self.locate(st, p, n)?;
        Ok(self.with_obj(st, t, id, |o| (0..n as usize).map(|i| o.byte(off + i)).collect()))
    }

    fn str_at(&mut self, st: &State, p: u64, n: u64) -> R<String> {
        let b = self.bytes_at(st, p, n)?;
        Ok(String::from_utf8_lossy(&b.iter().map(|v| if let Val::C(c) = v { *c as u8 } else { b'?' }).collect::<Vec<_>>()).into_owned())
    }

    fn location_of(&mut self, st: &State, args: &[Val], tys: &[Ty]) -> String {
        for (a, t) in args.iter().zip(tys).rev() {
            if *t != Ty::Ptr {
                continue;
            }
            if let Val::C(p) = a {
                let p = *p as u64;
                if p & (0xf << 60) != TAG_GLOB {
                    continue;
                }
                let id = ((p >> 32) & 0xfffffff) as u32;
                if id as usize >= self.m.globals.len() || (p & 0xffffffff) != OFF0 {
                    continue;
                }
                let o = self.glob(id);
                if o.data.len() != 24 {
                    continue;
                }
                let (Val::C(fp), Val::C(fl), Val::C(line)) = (o.read_int(0, 64), o.read_int(8, 64), o.read_int(16, 32)) else { continue };
                if fl > 500 || (fp as u64) & (0xf << 60) != TAG_GLOB {
                    continue;
                }
                if let Ok(s) = self.str_at(st, fp as u64, fl as u64) {
                    return format!("{s}:{line}");
                }
            }
        }
        String::new()
    }

    fn push_frame(&mut self, st: &mut State, f: &'static Func, args: Vec<Val>, ret: Option<u32>, normal: Option<u32>) -> R<()> {
        if st.stack.len() > 600 {
            return self.viol(st, "stack: call depth over 600");
        }
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (p, a) in f.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        f.entered.borrow_mut()[0] = true;
        let fr = Frame { f, blk: 0, prev: 0, ip: 0, regs, ret, normal, sbase: st.stk.len() };
        let old = std::mem::replace(&mut st.top, fr);
        st.stack.push(Rc::new(old));
        Ok(())
    }

    fn run(&mut self, st: &mut State) -> End {
        loop {
            match self.step(st) {
                Ok(true) => {}
                Ok(false) => return End::Done,
                Err(Stop::End(e)) => return e,
            }
        }
    }

    /// Executes one instruction; Ok(false) when the entry function returned.
    fn step(&mut self, st: &mut State) -> R<bool> {
        let f: &'static Func = st.top.f;
        let ins: &'static Ins = &f.blocks[st.top.blk as usize].ins[st.top.ip as usize];
        st.steps += 1;
        if st.steps & 0xfff == 0 {
            if st.steps > self.o.max_steps {
                return self.viol(st, "steps: a path exceeds the step limit (non-termination)");
            }
            if self.sh.stop.load(Relaxed) != 0 {
                return Err(Stop::End(End::Killed));
            }
            if st.steps & 0xfffff == 0 && self.t0.elapsed().as_secs_f64() > self.o.time {
                self.sh.incomplete.store(1, Relaxed);
                self.sh.stop.store(1, Relaxed);
            }
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                st.top.regs[*$d as usize] = v;
                st.top.ip += 1;
            }};
        }
        match ins {
            Ins::Bin { op, w, d, a, b, .. } => {
                let v = vbin(*op, *w, &self.ov(st, a), &self.ov(st, b));
                set!(d, v)
            }
            Ins::ICmp { p, w, d, a, b, .. } => {
                let v = vicmp(*p, *w, &self.ov(st, a), &self.ov(st, b));
                set!(d, v)
            }
            Ins::FCmp { p, d, a, b } => {
                let (a, b) = (e_of(&self.ov(st, a), 64), e_of(&self.ov(st, b), 64));
                let uno = expr::bin(Op::FUno, a, b);
                let ord = expr::not(uno);
                let (base, un) = match p.as_str() {
                    "ord" => (ord, false),
                    "uno" => (uno, false),
                    _ => {
                        let un = p.starts_with('u');
                        let e = match &p[1..] {
                            "eq" => expr::bin(Op::FOeq, a, b),
                            "ne" => expr::and(ord, expr::not(expr::bin(Op::FOeq, a, b))),
                            "lt" => expr::bin(Op::FOlt, a, b),
                            "le" => expr::bin(Op::FOle, a, b),
                            "gt" => expr::bin(Op::FOlt, b, a),
                            "ge" => expr::bin(Op::FOle, b, a),
                            _ => return self.err("fcmp"),
                        };
                        (e, un)
                    }
                };
                let v = if un { expr::or(base, uno) } else { base };
                set!(d, mkval(v))
            }
            Ins::Alloca { d, size, n } => {
                let k = match n {
                    None => 1,
                    Some(o) => {
                        let v = self.ov(st, o);
                        self.conc(st, &v, 64)? as u64
                    }
                };
                let id = st.stk.len() as u64;
                st.stk.push(Rc::new(Obj::new(size * k)));
                set!(d, Val::C(obj_addr(TAG_STACK, id) as u128))
            }
            Ins::Load { d, ty, p } => {
                let n = ty.store_size();
                let pv = self.ov(st, p);
                if let Val::S(e) = pv {
                    if st.fixed.get(&e).is_none() {
                        if let Some(v) = self.sym_load(st, e, ty)? {
                            set!(d, v);
                            return Ok(true);
                        }
                    }
                }
                let a = self.conc(st, &pv, 64)? as u64;
                if n == 0 {
                    let v = Obj::new(0).read(0, ty);
                    set!(d, v);
                    return Ok(true);
                }
                let (t, id, off) = self.locate(st, a, n)?;
                let v = self.with_obj(st, t, id, |o| o.read(off, ty));
                set!(d, v)
            }
            Ins::Store { ty, v, p } => {
                let pv = self.ov(st, p);
                let a = self.conc(st, &pv, 64)? as u64;
                let n = ty.store_size();
                if n > 0 {
                    let x = self.ov(st, v);
                    let (t, id, off) = self.locate(st, a, n)?;
                    self.obj_mut(st, t, id)?.write(off, ty, &x);
                }
                st.top.ip += 1;
            }
            Ins::Gep { d, base, off, idx } => {
                let mut acc = self.ov(st, base);
                acc = match acc {
                    Val::C(c) => Val::C((c as u64).wrapping_add(*off) as u128),
                    v => vbin(BinOp::Add, 64, &v, &Val::C(*off as u128)),
                };
                for (o, w, stride) in idx {
                    let i = self.ov(st, o);
                    let i = if *w < 64 { vcast(Cast::SExt, *w, 64, &i) } else { i };
                    let m = vbin(BinOp::Mul, 64, &i, &Val::C(*stride as u128));
                    acc = vbin(BinOp::Add, 64, &acc, &m);
                }
                set!(d, acc)
            }
            Ins::Br(b) => self.jump(st, *b),
            Ins::CondBr(c, t, e) => {
                let v = match self.ov(st, c) {
                    Val::C(x) => x != 0,
                    Val::S(x) => self.branch(st, x)?,
                    _ => return self.err("branch on aggregate"),
                };
                self.jump(st, if v { *t } else { *e });
            }
            Ins::Switch { v, w, default, cases } => {
                let x = self.ov(st, v);
                let tgt = match x {
                    Val::C(c) => cases.iter().find(|k| k.0 == c).map(|k| k.1).unwrap_or(*default),
                    Val::S(e) => self.sym_switch(st, e, *w, *default, cases)?,
                    _ => return self.err("switch on aggregate"),
                };
                self.jump(st, tgt);
            }
            Ins::Select { d, c, a, b, ty, vec } => {
                let cv = self.ov(st, c);
                let (a, b) = (self.ov(st, a), self.ov(st, b));
                let v = if *vec {
                    match (cv, a, b, ty) {
                        (Val::A(cs), Val::A(x), Val::A(y), Ty::Vector(_, t)) => Val::A(Rc::new(
                            cs.iter()
                                .enumerate()
                                .map(|(i, c)| match c {
                                    Val::C(c) => if *c != 0 { x[i].clone() } else { y[i].clone() },
                                    Val::S(e) => vselect(*e, &x[i], &y[i], t),
                                    _ => unreachable!(),
                                })
                                .collect(),
                        )),
                        _ => return self.err("vector select"),
                    }
                } else {
                    match cv {
                        Val::C(c) => {
                            if c != 0 {
                                a
                            } else {
                                b
                            }
                        }
                        Val::S(e) => {
                            if let Some(&k) = st.known.get(&e) {
                                if k { a } else { b }
                            } else if *ty == Ty::Ptr {
                                // a choice between pointers: fork
                                if self.branch(st, e)? { a } else { b }
                            } else {
                                vselect(e, &a, &b, ty)
                            }
                        }
                        _ => return self.err("select"),
                    }
                };
                set!(d, v)
            }
            Ins::Cast { k, d, from, to, a } => {
                let a = self.ov(st, a);
                let v = match (from, to) {
                    (Ty::Vector(n, e), Ty::Vector(m, t)) if n == m && *k != Cast::Copy => vcast(*k, e.bits(), t.bits(), &a),
                    (Ty::Vector(_, e), t) if *k == Cast::Copy && from != to => {
                        // vector -> integer or other vector
                        let ew = e.bits();
                        let Val::A(xs) = &a else { return self.err("bitcast") };
                        let mut acc: Option<E> = None;
                        for x in xs.iter() {
                            let p = e_of(x, ew);
                            acc = Some(match acc {
                                None => p,
                                Some(q) => expr::concat(p, q),
                            });
                        }
                        let whole = acc.unwrap();
                        if let Ty::Vector(m, te) = t {
                            let tw = te.bits();
                            Val::A(Rc::new((0..*m as u16).map(|i| mkval(expr::extract(whole, i * tw + tw - 1, i * tw))).collect()))
                        } else {
                            mkval(whole)
                        }
                    }
                    (_, Ty::Vector(m, te)) if *k == Cast::Copy && from != to => {
                        let tw = te.bits();
                        let whole = e_of(&a, from.bits());
                        Val::A(Rc::new((0..*m as u16).map(|i| mkval(expr::extract(whole, i * tw + tw - 1, i * tw))).collect()))
                    }
                    _ => {
                        if *k == Cast::Copy {
                            a
                        } else {
                            vcast(*k, from.bits(), to.bits(), &a)
                        }
                    }
                };
                set!(d, v)
            }
            Ins::Call { d, callee, args, tys, ret, normal } => {
                let cv = self.ov(st, callee);
                let addr = self.conc(st, &cv, 64)? as u64;
                if addr & (0xf << 60) != TAG_FN {
                    return self.viol(st, "memory: call through a wild pointer");
                }
                let id = ((addr >> 32) & 0xfffffff) as u32;
                let sp = self.sp[id as usize];
                if sp != Sp::None {
                    let r = if sp == Sp::Nop { None } else { 
                        let av: Vec<Val> = args.iter().map(|a| self.ov(st, a)).collect();
                        self.special(st, sp, id, &av, tys, ret)? };
                    if let (Some(d), Some(v)) = (d, r) {
                        st.top.regs[*d as usize] = v;
                    }
                    match normal {
                        Some(b) => self.jump(st, *b),
                        None => st.top.ip += 1,
                    }
                    return Ok(true);
                }
                let av: Vec<Val> = args.iter().map(|a| self.ov(st, a)).collect();
                let Some(f) = self.m.func(id) else {
                    let n = self.m.fn_names[id as usize];
                    return self.err(format!("call to external function {n}"));
                };
                self.push_frame(st, f, av, *d, *normal)?;
            }
            Ins::Ret(o) => {
                let v = o.as_ref().map(|o| self.ov(st, o));
                let Some(up) = st.stack.pop() else { return Ok(false) };
                let sb = st.top.sbase;
                st.stk.truncate(sb);
                let up = Rc::try_unwrap(up).unwrap_or_else(|r| (*r).clone());
                let done = std::mem::replace(&mut st.top, up);
                if let (Some(d), Some(v)) = (done.ret, v) {
                    st.top.regs[d as usize] = v;
                }
                match done.normal {
                    Some(b) => self.jump(st, b),
                    None => st.top.ip += 1,
                }
            }
            Ins::Unreachable => return self.viol(st, "panic: unreachable code reached"),
            Ins::ExtractValue { d, a, idx } => {
                let mut v = self.ov(st, a);
                for i in idx {
                    v = match v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => return self.err("extractvalue"),
                    };
                }
                set!(d, v)
            }
            Ins::InsertValue { d, a, v, idx } => {
                let mut agg = self.ov(st, a);
                let x = self.ov(st, v);
                fn ins(a: &mut Val, idx: &[u32], x: Val) {
                    if idx.is_empty() {
                        *a = x;
                        return;
                    }
                    if let Val::A(v) = a {
                        ins(&mut Rc::make_mut(v)[idx[0] as usize], &idx[1..], x)
                    }
                }
                ins(&mut agg, idx, x);
                set!(d, agg)
            }
            Ins::ExtractElt { d, a, i } => {
                let iv = self.ov(st, i);
                let i = self.conc(st, &iv, 64)? as usize;
                let Val::A(x) = self.ov(st, a) else { return self.err("extractelement") };
                set!(d, x[i].clone())
            }
            Ins::InsertElt { d, a, v, i } => {
                let iv = self.ov(st, i);
                let i = self.conc(st, &iv, 64)? as usize;
                let Val::A(mut x) = self.ov(st, a) else { return self.err("insertelement") };
                Rc::make_mut(&mut x)[i] = self.ov(st, v);
                set!(d, Val::A(x))
            }
            Ins::Shuffle { d, a, b, m, n } => {
                let (Val::A(x), Val::A(y)) = (self.ov(st, a), self.ov(st, b)) else { return self.err("shufflevector") };
                let v = m
                    .iter()
                    .map(|&k| if k < 0 { Val::C(0) } else if (k as u64) < *n { x[k as usize].clone() } else { y[k as usize - *n as usize].clone() })
                    .collect();
                set!(d, Val::A(Rc::new(v)))
            }
            Ins::Rmw { d, op, w, p, v } => {
                let pv = self.ov(st, p);
                let a = self.conc(st, &pv, 64)? as u64;
                let (t, id, off) = self.locate(st, a, (*w as u64 + 7) / 8)?;
                let old = self.with_obj(st, t, id, |o| o.read_int(off, *w));
                let x = self.ov(st, v);
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" => vbin(BinOp::Add, *w, &old, &x),
                    "sub" => vbin(BinOp::Sub, *w, &old, &x),
                    "and" => vbin(BinOp::And, *w, &old, &x),
                    "or" => vbin(BinOp::Or, *w, &old, &x),
                    "xor" => vbin(BinOp::Xor, *w, &old, &x),
                    _ => return self.err(format!("atomicrmw {op}")),
                };
                self.obj_mut(st, t, id)?.write_int(off, *w, &new);
                set!(d, old)
            }
            Ins::CmpXchg { d, w, p, c, n } => {
                let pv = self.ov(st, p);
                let a = self.conc(st, &pv, 64)? as u64;
                let (t, id, off) = self.locate(st, a, (*w as u64 + 7) / 8)?;
                let old = self.with_obj(st, t, id, |o| o.read_int(off, *w));
                let eq = vicmp(Pred::Eq, *w, &old, &self.ov(st, c));
                let ok = match &eq {
                    Val::C(c) => *c != 0,
                    Val::S(e) => self.branch(st, *e)?,
                    _ => unreachable!(),
                };
                if ok {
                    let n = self.ov(st, n);
                    self.obj_mut(st, t, id)?.write_int(off, *w, &n);
                }
                set!(d, Val::A(Rc::new(vec![old, Val::C(ok as u128)])))
            }
            Ins::Nop => st.top.ip += 1,
            Ins::Unsupported(s) => return self.err(format!("unsupported instruction: {s}")),
        }
        Ok(true)
    }

    fn sym_switch(&mut self, st: &mut State, e: E, w: u16, default: u32, cases: &[(u128, u32)]) -> R<u32> {
        if let Some(&x) = st.fixed.get(&e) {
            return Ok(cases.iter().find(|k| k.0 == x).map(|k| k.1).unwrap_or(default));
        }
        // group the cases by target, and let the solver decide each target
        let mut tg: Vec<(u32, E)> = vec![];
        let mut none = expr::tt();
        for (c, b) in cases {
            let q = expr::eq(e, expr::cst(*c, w));
            if let Some(x) = tg.iter_mut().find(|x| x.0 == *b) {
                x.1 = expr::or(x.1, q);
            } else {
                tg.push((*b, q));
            }
            none = expr::and(none, expr::not(q));
        }
        if let Some(x) = tg.iter_mut().find(|x| x.0 == default) {
            x.1 = expr::or(x.1, none);
        } else {
            tg.push((default, none));
        }
        let mut here = None;
        let mut alts = vec![];
        for (b, q) in tg {
            if ctx().eval(q, &st.model) != 0 {
                here = Some((b, q));
                continue;
            }
            if let Some(m) = self.query(st, q)? {
                alts.push((q, m));
            }
        }
        let n = alts.len();
        for (q, m) in alts {
            let mut alt = st.clone();
            self.add_pc(&mut alt, q);
            // an exact case value fixes the expression
            let ep = ctx().new_epoch();
            let v = ctx().eval(e, &m);
            if q == expr::eq(e, expr::cst(v, w)) {
                Rc::make_mut(&mut alt.fixed).insert(e, v);
            }
            ctx().use_epoch(st.ep);
            alt.model = Rc::new(m);
            alt.ep = ep;
            self.push_work(alt);
        }
        let (b, q) = here.unwrap();
        if n > 0 {
            self.add_pc(st, q);
            let v = ctx().eval(e, &st.model);
            if q == expr::eq(e, expr::cst(v, w)) {
                Rc::make_mut(&mut st.fixed).insert(e, v);
            }
            if self.o.verbose {
                *self.branch_prof.entry((st.top.f.idx, st.top.blk)).or_insert(0) += n as u64;
            }
            self.maybe_donate();
            if self.sh.stop.load(Relaxed) != 0 {
                return Err(Stop::End(End::Killed));
            }
        }
        Ok(b)
    }

    /// Load of an integer through a symbolic address into one constant table:
    /// an if-then-else over the feasible addresses (instead of a fork each).
    fn sym_load(&mut self, st: &mut State, e: E, ty: &Ty) -> R<Option<Val>> {
        if !matches!(ty, Ty::Int(_)) {
            return Ok(None);
        }
        let a0 = ctx().eval(e, &st.model) as u64;
        if a0 & (0xf << 60) != TAG_GLOB {
            return Ok(None);
        }
        let id = ((a0 >> 32) & 0xfffffff) as u32;
        if id as usize >= self.m.globals.len() || !self.m.globals[id as usize].constant {
            return Ok(None);
        }
        let n = ty.store_size();
        let w = ty.bits();
        let mut vals = vec![a0];
        let mut q = expr::not(expr::eq(e, expr::cst(a0 as u128, 64)));
        while let Some(m) = self.query(st, q)? {
            ctx().new_epoch();
            let a = ctx().eval(e, &m) as u64;
            ctx().use_epoch(st.ep);
            if a >> 32 != a0 >> 32 || vals.len() >= 256 {
                return Ok(None);
            }
            if vals.len() == 8 {
                if let Some(v) = self.sym_table(st, e, id, a0, n, w)? {
                    return Ok(Some(v));
                }
            }
            vals.push(a);
            q = expr::and(q, expr::not(expr::eq(e, expr::cst(a as u128, 64))));
        }
        let mut acc = None;
        for a in vals {
            let (t, id, off) = self.locate(st, a, n)?;
            let v = self.with_obj(st, t, id, |o| o.read_int(off, w));
            let v = e_of(&v, w);
            acc = Some(match acc {
                None => v,
                Some(p) => expr::ite(expr::eq(e, expr::cst(a as u128, 64)), v, p),
            });
        }
        Ok(Some(mkval(acc.unwrap())))
    }

    /// The same for a large table: decide once that the address stays inside, then
    /// select over runs of equal entries.
    fn sym_table(&mut self, st: &mut State, e: E, id: u32, a0: u64, n: u64, w: u16) -> R<Option<Val>> {
        let size = self.glob(id).data.len() as u64;
        let base = (a0 >> 32 << 32).wrapping_add(OFF0);
        if size < n || size > 4096 {
            return Ok(None);
        }
        let k = |x: u64| expr::cst(x as u128, 64);
        let out = expr::or(expr::ult(e, k(base)), expr::ult(k(base + size - n), e));
        if self.query(st, out)?.is_some() {
            return Ok(None);
        }
        let mut stride = 1;
        if n.is_power_of_two() && n > 1 && (a0 - base) % n == 0 {
            let off = expr::bin(expr::Op::And, expr::sub(e, k(base)), k(n - 1));
            if self.query(st, expr::not(expr::eq(off, k(0))))?.is_none() {
                stride = n;
            }
        }
        let mut runs: Vec<(u64, E)> = vec![];
        let mut a = base;
        while a <= base + size - n {
            let (t, id, off) = self.locate(st, a, n)?;
            let v = self.with_obj(st, t, id, |o| o.read_int(off, w));
            let v = e_of(&v, w);
            if runs.last().map(|r| r.1) != Some(v) {
                runs.push((a, v));
            }
            a += stride;
        }
        fn tree(e: E, r: &[(u64, E)]) -> E {
            if r.len() == 1 {
                return r[0].1;
            }
            let h = r.len() / 2;
            let (a, b) = (tree(e, &r[..h]), tree(e, &r[h..]));
            expr::ite(expr::ult(e, expr::cst(r[h].0 as u128, 64)), a, b)
        }
        Ok(Some(mkval(tree(e, &runs))))
    }

    fn special(&mut self, st: &mut State, sp: Sp, id: u32, a: &[Val], tys: &[Ty], ret: &Ty) -> R<Option<Val>> {
        macro_rules! c {
            ($i:expr) => {
                self.conc(st, &a[$i], 64)? as u64
            };
        }
        let p = |x: u64| Ok(Some(Val::C(x as u128)));
        match sp {
            Sp::None | Sp::Nop => Ok(None),
            Sp::Panic => {
                let n = self.m.fn_names[id as usize];
                let loc = self.location_of(st, a, tys);
                let msg = format!("panic: {} at {}", short(n), loc);
                self.viol(st, &msg)
            }
            Sp::Alloc | Sp::AllocZeroed | Sp::Malloc => {
                p(self.alloc_sym(st, &a[0])?)
            }
            Sp::Calloc => {
                if matches!(a[1], Val::C(1)) {
                    return p(self.alloc_sym(st, &a[0])?);
                }
                let n = c!(0).wrapping_mul(c!(1));
                p(self.alloc(st, n)?)
            }
            Sp::Dealloc | Sp::Free => {
                let x = c!(0);
                self.dealloc(st, x)?;
                Ok(None)
            }
            Sp::Realloc => {
                let (x, n) = (c!(0), c!(3));
                p(self.realloc(st, x, n)?)
            }
            Sp::CRealloc => {
                let (x, n) = (c!(0), c!(1));
                p(self.realloc(st, x, n)?)
            }
            Sp::PosixMemalign => {
                let (o, n) = (c!(0), c!(2));
                let q = self.alloc(st, n)?;
                let (t, id, off) = self.locate(st, o, 8)?;
                self.obj_mut(st, t, id)?.write_int(off, 64, &Val::C(q as u128));
                p(0)
            }
            Sp::Memcpy => {
                let n = c!(2);
                let (d, s) = (c!(0), c!(1));
                if n > 0 {
                    let (st_, sid, soff) = self.locate(st, s, n)?;
                    let (dt, did, doff) = self.locate(st, d, n)?;
                    if st_ == dt && sid == did {
                        self.obj_mut(st, dt, did)?.move_within(doff, soff, n as usize);
                    } else {
                        let src = self.obj(st, st_, sid);
                        self.obj_mut(st, dt, did)?.copy_from(doff, &src, soff, n as usize);
                    }
                }
                p(d)
            }
            Sp::Memset => {
                let n = c!(2);
                let d = c!(0);
                if n > 0 {
                    let (dt, did, doff) = self.locate(st, d, n)?;
                    let v = vcast(Cast::Trunc, tys[1].bits(), 8, &a[1]);
                    let o = self.obj_mut(st, dt, did)?;
                    match v {
                        Val::C(b) => {
                            o.data[doff..doff + n as usize].fill(b as u8);
                            if !o.sym.is_empty() {
                                o.sym[doff..doff + n as usize].fill((0, 0));
                            }
                        }
                        v => {
                            for i in 0..n as usize {
                                o.write_int(doff + i, 8, &v);
                            }
                        }
                    }
                }
                p(d)
            }
            Sp::Bcmp | Sp::Memcmp => {
                let n = c!(2);
                let (x, y) = (c!(0), c!(1));
                let bx = self.bytes_at(st, x, n)?;
                let by = self.bytes_at(st, y, n)?;
                let w = ret.bits();
                let mut acc = expr::cst(0, w);
                for (p, q) in bx.iter().zip(by.iter()).rev() {
                    if let (Val::C(p), Val::C(q)) = (p, q) {
                        if p != q {
                            acc = if p < q { expr::cst(u128::MAX, w) } else { expr::cst(1, w) };
                        }
                        continue;
                    }
                    let (p, q) = (e_of(p, 8), e_of(q, 8));
                    let ne = if sp == Sp::Bcmp {
                        expr::cst(1, w)
                    } else {
                        expr::ite(expr::ult(p, q), expr::cst(u128::MAX, w), expr::cst(1, w))
                    };
                    acc = expr::ite(expr::eq(p, q), acc, ne);
                }
                Ok(Some(mkval(acc)))
            }
            Sp::Strlen => {
                let x = c!(0);
                let mut n = 0;
                loop {
                    match self.bytes_at(st, x + n, 1)?[0] {
                        Val::C(0) => break,
                        Val::C(_) => n += 1,
                        _ => return self.err("strlen of symbolic data"),
                    }
                }
                p(n)
            }
            Sp::Make => {
                let w = c!(0) as u16;
                let ord = st.widths.len() as u32;
                st.widths.push(w);
                let v = expr::var(ord, w);
                {
                    let m = Rc::make_mut(&mut st.model);
                    while m.len() <= ord as usize {
                        m.push(0);
                    }
                    // the model keeps whatever value a sibling path's query gave this ordinal
                    m[ord as usize] &= mask(w);
                }
                st.ep = ctx().new_epoch();
                Ok(Some(mkval(expr::zext(v, 64))))
            }
            Sp::Pick => {
                let n = c!(0);
                let ord = st.widths.len() as u32;
                if n == 0 {
                    return Err(Stop::End(End::Killed));
                }
                st.widths.push(64);
                let mut base = st.clone();
                for i in (0..n).rev() {
                    let m = Rc::make_mut(&mut base.model);
                    while m.len() <= ord as usize {
                        m.push(0);
                    }
                    m[ord as usize] = i as u128;
                    if i == 0 {
                        st.model = base.model.clone();
                        st.ep = ctx().new_epoch();
                    } else {
                        let mut alt = base.clone();
                        alt.ep = ctx().new_epoch();
                        // resume after the call with the picked value
                        let f: &'static Func = alt.top.f;
                        if let Ins::Call { d, normal, .. } = &f.blocks[alt.top.blk as usize].ins[alt.top.ip as usize] {
                            if let Some(d) = d {
                                alt.top.regs[*d as usize] = Val::C(i as u128);
                            }
                            match normal {
                                Some(b) => self.jump(&mut alt, *b),
                                None => alt.top.ip += 1,
                            }
                        }
                        self.push_work(alt);
                    }
                }
                ctx().use_epoch(st.ep);
                if n > 1 {
                    self.maybe_donate();
                }
                p(0)
            }
            Sp::Assume => {
                match &a[0] {
                    Val::C(c) => {
                        if *c == 0 {
                            return Err(Stop::End(End::Killed));
                        }
                    }
                    Val::S(e) => {
                        let e = if expr::width(*e) == 1 { *e } else { expr::not(expr::eq(*e, expr::cst(0, expr::width(*e)))) };
                        if let Some(&k) = st.known.get(&e) {
                            if !k {
                                return Err(Stop::End(End::Killed));
                            }
                            return Ok(None);
                        }
                        if ctx().eval(e, &st.model) == 0 {
                            match self.query(st, e)? {
                                None => return Err(Stop::End(End::Killed)),
                                Some(m) => {
                                    st.model = Rc::new(m);
                                    st.ep = ctx().new_epoch();
                                }
                            }
                        }
                        self.add_pc(st, e);
                    }
                    _ => return self.err("assume"),
                }
                Ok(None)
            }
            Sp::Check => {
                self.sh.checks.fetch_add(1, Relaxed);
                let (mp, ml) = (c!(1), c!(2));
                match &a[0] {
                    Val::C(c) => {
                        if *c == 0 {
                            let m = self.str_at(st, mp, ml)?;
                            return self.viol(st, &format!("check: {m}"));
                        }
                    }
                    Val::S(e) => {
                        let e = if expr::width(*e) == 1 { *e } else { expr::not(expr::eq(*e, expr::cst(0, expr::width(*e)))) };
                        if st.known.get(&e) == Some(&true) {
                            return Ok(None);
                        }
                        self.sh.checks_solved.fetch_add(1, Relaxed);
                        if let Some(m) = self.query(st, expr::not(e))? {
                            let msg = format!("check: {}", self.str_at(st, mp, ml)?);
                            self.record(st, &msg, &m);
                            // go on where the check holds
                            match self.query(st, e)? {
                                None => return Err(Stop::End(End::Viol)),
                                Some(m) => {
                                    st.model = Rc::new(m);
                                    st.ep = ctx().new_epoch();
                                    self.add_pc(st, e);
                                }
                            }
                        } else {
                            let k = Rc::make_mut(&mut st.known);
                            k.insert(e, true);
                            k.insert(expr::not(e), false);
                        }
                    }
                    _ => return self.err("check"),
                }
                Ok(None)
            }
            Sp::Unreached => {
                let (mp, ml) = (c!(0), c!(1));
                let m = self.str_at(st, mp, ml)?;
                self.viol(st, &format!("check: {m}"))
            }
            Sp::Cover => {
                let i = c!(0) as usize & 127;
                st.cover[i / 64] |= 1 << (i % 64);
                Ok(None)
            }
            Sp::Observe => {
                st.obs.push(a[0].clone());
                Ok(None)
            }
            Sp::Param => {
                let i = c!(0) as usize;
                p(self.o.params.get(i).copied().unwrap_or(0))
            }
            Sp::Concretize => {
                let w = tys[0].bits();
                let v = self.conc(st, &a[0], w)?;
                Ok(Some(Val::C(v)))
            }
            Sp::Intr => self.intrinsic(st, id, a, tys, ret).map(Some),
        }
    }

    fn intrinsic(&mut self, st: &mut State, id: u32, a: &[Val], tys: &[Ty], ret: &Ty) -> R<Val> {
        let name: &'static str = self.m.fn_names[id as usize];
        let n = &name[5..];
        // elementwise for vectors
        if let Some(Val::A(v0)) = a.first() {
            if let Some(r) = n.strip_prefix("vector.reduce.") {
                let w = match &tys[0] {
                    Ty::Vector(_, t) => t.bits(),
                    _ => 0,
                };
                let op = r.split('.').next().unwrap();
                let mut acc = v0[0].clone();
                for x in &v0[1..] {
                    acc = match op {
                        "or" => vbin(BinOp::Or, w, &acc, x),
                        "and" => vbin(BinOp::And, w, &acc, x),
                        "xor" => vbin(BinOp::Xor, w, &acc, x),
                        "add" => vbin(BinOp::Add, w, &acc, x),
                        "mul" => vbin(BinOp::Mul, w, &acc, x),
                        _ => return self.err(format!("intrinsic {name}")),
                    };
                }
                return Ok(acc);
            }
            let len = v0.len();
            let et: Vec<Ty> = tys
                .iter()
                .map(|t| match t {
                    Ty::Vector(_, e) => (**e).clone(),
                    t => t.clone(),
                })
                .collect();
            let mut out = vec![];
            for i in 0..len {
                let ai: Vec<Val> = a
                    .iter()
                    .map(|x| match x {
                        Val::A(v) => v[i].clone(),
                        v => v.clone(),
                    })
                    .collect();
                out.push(self.intrinsic(st, id, &ai, &et, ret)?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        let w = if tys.is_empty() { suffix_width(n) } else { tys[0].bits() };
        let e = |i: usize| e_of(&a[i], tys[i].bits());
        let base: &str = match n.find(".i").or_else(|| n.find(".f64")).or_else(|| n.find(".p0")) {
            Some(k) => &n[..k],
            None => n,
        };
        let r = match base {
            "umin" => expr::ite(expr::ult(e(0), e(1)), e(0), e(1)),
            "umax" => expr::ite(expr::ult(e(0), e(1)), e(1), e(0)),
            "smin" => expr::ite(expr::scmp(Op::Slt, e(0), e(1)), e(0), e(1)),
            "smax" => expr::ite(expr::scmp(Op::Slt, e(0), e(1)), e(1), e(0)),
            "abs" => {
                let z = expr::cst(0, w);
                expr::ite(expr::scmp(Op::Slt, e(0), z), expr::sub(z, e(0)), e(0))
            }
            "uadd.sat" => {
                let s = expr::add(e(0), e(1));
                expr::ite(expr::ult(s, e(0)), expr::cst(u128::MAX, w), s)
            }
            "usub.sat" => expr::ite(expr::ult(e(0), e(1)), expr::cst(0, w), expr::sub(e(0), e(1))),
            "sadd.sat" | "ssub.sat" => {
                let (x, y) = (expr::sext(e(0), w + 1), expr::sext(e(1), w + 1));
                let s = if base == "sadd.sat" { expr::add(x, y) } else { expr::sub(x, y) };
                let hi = expr::cst(mask(w - 1), w + 1);
                let lo = expr::cst((mask(w - 1) ^ u128::MAX) & mask(w + 1), w + 1);
                let r = expr::ite(expr::scmp(Op::Slt, hi, s), hi, expr::ite(expr::scmp(Op::Slt, s, lo), lo, s));
                expr::extract(r, w - 1, 0)
            }
            "uadd.with.overflow" => {
                let s = expr::add(e(0), e(1));
                let o = expr::ult(s, e(0));
                return Ok(Val::A(Rc::new(vec![mkval(s), mkval(o)])));
            }
            "usub.with.overflow" => {
                let s = expr::sub(e(0), e(1));
                let o = expr::ult(e(0), e(1));
                return Ok(Val::A(Rc::new(vec![mkval(s), mkval(o)])));
            }
            "umul.with.overflow" => {
                if w > 64 {
                    return self.err("wide umul.with.overflow");
                }
                let full = expr::bin(Op::Mul, expr::zext(e(0), w * 2), expr::zext(e(1), w * 2));
                let s = expr::extract(full, w - 1, 0);
                let o = expr::not(expr::eq(expr::extract(full, w * 2 - 1, w), expr::cst(0, w)));
                return Ok(Val::A(Rc::new(vec![mkval(s), mkval(o)])));
            }
            "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
                if w > 64 {
                    return self.err("wide signed overflow");
                }
                let (x, y) = (expr::sext(e(0), w * 2), expr::sext(e(1), w * 2));
                let op = match &base[..4] {
                    "sadd" => Op::Add,
                    "ssub" => Op::Sub,
                    _ => Op::Mul,
                };
                let full = expr::bin(op, x, y);
                let s = expr::extract(full, w - 1, 0);
                let o = expr::not(expr::eq(expr::sext(s, w * 2), full));
                return Ok(Val::A(Rc::new(vec![mkval(s), mkval(o)])));
            }
            "fshl" | "fshr" => {
                let Val::C(s) = a[2] else { 
                    let sh = self.conc(st, &a[2], w)?;
                    let mut b = a.to_vec();
                    b[2] = Val::C(sh);
                    return self.intrinsic(st, id, &b, tys, ret);
                };
                let s = (s % w as u128) as u16;
                let cat = expr::concat(e(0), e(1));
                if base == "fshl" {
                    expr::extract(cat, 2 * w - 1 - s, w - s)
                } else {
                    expr::extract(cat, w - 1 + s, s)
                }
            }
            "ucmp" | "scmp" => {
                let rw = ret.bits();
                let lt = if base == "ucmp" { expr::ult(e(0), e(1)) } else { expr::scmp(Op::Slt, e(0), e(1)) };
                expr::ite(lt, expr::cst(u128::MAX, rw), expr::ite(expr::eq(e(0), e(1)), expr::cst(0, rw), expr::cst(1, rw)))
            }
            "ctpop" => {
                let x = e(0);
                let mut s = expr::cst(0, w);
                for i in 0..w {
                    s = expr::add(s, expr::zext(expr::extract(x, i, i), w));
                }
                s
            }
            "ctlz" => {
                let x = e(0);
                let mut s = expr::cst(w as u128, w);
                for i in 0..w {
                    s = expr::ite(expr::extract(x, i, i), expr::cst((w - 1 - i) as u128, w), s);
                }
                s
            }
            "cttz" => {
                let x = e(0);
                let mut s = expr::cst(w as u128, w);
                for i in (0..w).rev() {
                    s = expr::ite(expr::extract(x, i, i), expr::cst(i as u128, w), s);
                }
                s
            }
            "bswap" => {
                let x = e(0);
                let mut s = expr::extract(x, 7, 0);
                for i in 1..w / 8 {
                    s = expr::concat(s, expr::extract(x, i * 8 + 7, i * 8));
                }
                s
            }
            "bitreverse" => {
                let x = e(0);
                let mut s = expr::extract(x, 0, 0);
                for i in 1..w {
                    s = expr::concat(s, expr::extract(x, i, i));
                }
                s
            }
            "expect" | "threadlocal.address" | "launder.invariant.group" | "strip.invariant.group" | "ssa.copy" => return Ok(a[0].clone()),
            "is.constant" => return Ok(Val::C(0)),
            "objectsize" => return Ok(Val::C(u64::MAX as u128)),
            "ptrmask" => expr::and(e(0), e(1)),
            "fptoui.sat" => {
                let rw = ret.bits();
                // Rust `as`: NaN -> 0, saturating
                let x = e(0);
                let nan = expr::bin(Op::FUno, x, x);
                let zero = expr::cst(0f64.to_bits() as u128, 64);
                let max = expr::cst((mask(rw) as f64).to_bits() as u128, 64);
                let neg = expr::bin(Op::FOle, x, zero);
                let big = expr::bin(Op::FOle, max, x);
                expr::ite(
                    expr::or(nan, neg),
                    expr::cst(0, rw),
                    expr::ite(big, expr::cst(u128::MAX, rw), expr::un(Op::FToUi, x, rw)),
                )
            }
            "maxnum" | "minnum" => expr::bin(if base == "maxnum" { Op::FMax } else { Op::FMin }, e(0), e(1)),
            "fabs" => expr::and(e(0), expr::cst(mask(63), 64)),
            _ => return self.err(format!("intrinsic {name}")),
        };
        Ok(mkval(r))
    }
}

fn short(n: &str) -> String {
    // last identifiers of a v0-mangled path: enough to tell which panic it is
    let b = n.as_bytes();
    let mut out: Vec<&str> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if let Ok(l) = n[i..j].parse::<usize>() {
                let s = if b.get(j) == Some(&b'_') { j + 1 } else { j };
                if l > 1 && s + l <= b.len() && b[s].is_ascii_alphabetic() {
                    out.push(&n[s..s + l]);
                    i = s + l;
                    continue;
                }
            }
            i = j;
        } else {
            i += 1;
        }
    }
    if out.len() > 3 {
        out.drain(..out.len() - 3);
    }
    out.join("::")
}
