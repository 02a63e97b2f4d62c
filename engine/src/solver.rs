//! z3 back end (C API), with constraint independence and query caching.
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use crate::expr::{ctx, mask, Op, E};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type Z = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> Z;
    fn Z3_mk_context(c: Z) -> Z;
    fn Z3_del_context(c: Z);
    fn Z3_set_error_handler(c: Z, h: Option<extern "C" fn(Z, c_int)>);
    fn Z3_get_error_msg(c: Z, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: Z, a: Z);
    fn Z3_mk_bv_sort(c: Z, w: c_uint) -> Z;
    fn Z3_mk_bool_sort(c: Z) -> Z;
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_mk_const(c: Z, s: Z, t: Z) -> Z;
    fn Z3_mk_numeral(c: Z, s: *const c_char, t: Z) -> Z;
    fn Z3_mk_unsigned_int64(c: Z, v: u64, t: Z) -> Z;
    fn Z3_mk_true(c: Z) -> Z;
    fn Z3_mk_false(c: Z) -> Z;
    fn Z3_mk_not(c: Z, a: Z) -> Z;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_or(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_xor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsub(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvule(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsle(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_extract(c: Z, hi: c_uint, lo: c_uint, a: Z) -> Z;
    fn Z3_mk_zero_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_sign_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_simple_solver(c: Z) -> Z;
    fn Z3_mk_solver_for_logic(c: Z, s: Z) -> Z;
    fn Z3_solver_inc_ref(c: Z, s: Z);
    fn Z3_solver_dec_ref(c: Z, s: Z);
    fn Z3_solver_assert(c: Z, s: Z, a: Z);
    fn Z3_solver_check(c: Z, s: Z) -> c_int;
    fn Z3_solver_push(c: Z, s: Z);
    fn Z3_solver_pop(c: Z, s: Z, n: c_uint);
    fn Z3_solver_to_string(c: Z, s: Z) -> *const c_char;
    fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_model_inc_ref(c: Z, m: Z);
    fn Z3_model_dec_ref(c: Z, m: Z);
    fn Z3_model_eval(c: Z, m: Z, t: Z, completion: bool, v: *mut Z) -> bool;
    fn Z3_get_numeral_string(c: Z, a: Z) -> *const c_char;
    fn Z3_get_numeral_uint64(c: Z, a: Z, v: *mut u64) -> bool;
    fn Z3_get_bool_value(c: Z, a: Z) -> c_int;
    fn Z3_mk_params(c: Z) -> Z;
    fn Z3_params_inc_ref(c: Z, p: Z);
    fn Z3_params_set_uint(c: Z, p: Z, k: Z, v: c_uint);
    fn Z3_solver_set_params(c: Z, s: Z, p: Z);
    // floating point
    fn Z3_mk_fpa_sort_double(c: Z) -> Z;
    fn Z3_mk_fpa_rne(c: Z) -> Z;
    fn Z3_mk_fpa_rtz(c: Z) -> Z;
    fn Z3_mk_fpa_to_fp_bv(c: Z, bv: Z, s: Z) -> Z;
    fn Z3_mk_fpa_to_ieee_bv(c: Z, t: Z) -> Z;
    fn Z3_mk_fpa_add(c: Z, rm: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_sub(c: Z, rm: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_mul(c: Z, rm: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_div(c: Z, rm: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_lt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_leq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_is_nan(c: Z, a: Z) -> Z;
    fn Z3_mk_fpa_to_fp_unsigned(c: Z, rm: Z, t: Z, s: Z) -> Z;
    fn Z3_mk_fpa_to_fp_signed(c: Z, rm: Z, t: Z, s: Z) -> Z;
    fn Z3_mk_fpa_to_ubv(c: Z, rm: Z, t: Z, w: c_uint) -> Z;
    fn Z3_mk_fpa_to_sbv(c: Z, rm: Z, t: Z, w: c_uint) -> Z;
}

extern "C" fn on_err(c: Z, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error {e}: {}", m.to_string_lossy());
        libc_exit(70);
    }
}
extern "C" {
    #[link_name = "_exit"]
    fn libc_exit(c: c_int) -> !;
}

pub enum Res {
    Sat(Rc<Vec<(u32, u128)>>),
    Unsat,
    Unknown,
}

#[derive(Default)]
pub struct Stats {
    pub queries: u64,
    pub z3_calls: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub us: u64,
    pub max_us: u64,
}

pub struct Solver {
    c: Z,
    s: Z,
    tr_bv: HashMap<E, Z, crate::expr::BuildFx>,
    tr_b: HashMap<E, Z, crate::expr::BuildFx>,
    cache: HashMap<Box<[E]>, Option<Rc<Vec<(u32, u128)>>>, crate::expr::BuildFx>,
    recent: Vec<Rc<Vec<u128>>>,
    pub st: Stats,
    pub dump: Option<(String, u64, u64)>, // dir, every, written
    mode: u8,
    asserted: u64,
    shared: &'static [[AtomicU64; 2]],
}

impl Solver {
    pub fn new() -> Solver {
        let mode = std::env::var("SYMX_Z3").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
        let mut s = Solver {
            c: std::ptr::null_mut(),
            s: std::ptr::null_mut(),
            tr_bv: HashMap::default(),
            tr_b: HashMap::default(),
            cache: HashMap::default(),
            recent: vec![],
            st: Stats::default(),
            dump: None,
            mode,
            asserted: 0,
            shared: shared_table(),
        };
        s.init();
        s
    }
    fn init(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            self.c = Z3_mk_context(cfg);
            Z3_set_error_handler(self.c, Some(on_err));
            self.mksolver();
        }
    }
    unsafe fn mksolver(&mut self) {
        if !self.s.is_null() {
            Z3_solver_dec_ref(self.c, self.s);
        }
        self.s = if self.mode == 1 {
            let q = CString::new("QF_BV").unwrap();
            Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, q.as_ptr()))
        } else {
            Z3_mk_simple_solver(self.c)
        };
        Z3_solver_inc_ref(self.c, self.s);
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        let k = CString::new("rlimit").unwrap();
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), 400_000_000);
        Z3_solver_set_params(self.c, self.s, p);
        self.asserted = 0;
    }
    /// Drops the z3 context (translation caches) to bound memory.
    pub fn recycle(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            self.s = std::ptr::null_mut();
            Z3_del_context(self.c);
        }
        self.tr_b.clear();
        self.tr_bv.clear();
        self.init();
    }
    fn keep(&self, a: Z) -> Z {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    fn b(&mut self, e: E) -> Z {
        if let Some(&z) = self.tr_b.get(&e) {
            return z;
        }
        let n = ctx().n(e);
        debug_assert!(n.w == 1);
        let c = self.c;
        let z = unsafe {
            match n.op {
                Op::Const => {
                    if n.k != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Var => {
                    let s = CString::new(format!("v{}", n.k >> 8)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bool_sort(c))
                }
                Op::And => {
                    let a = [self.b(n.a), self.b(n.b)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                Op::Or => {
                    let a = [self.b(n.a), self.b(n.b)];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                Op::Xor => {
                    if crate::expr::is_const(n.b) == Some(1) {
                        let a = self.b(n.a);
                        Z3_mk_not(c, a)
                    } else {
                        let (a, b) = (self.b(n.a), self.b(n.b));
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let (a, b, d) = (self.b(n.a), self.b(n.b), self.b(n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Eq => {
                    if ctx().n(n.a).w == 1 {
                        let (a, b) = (self.b(n.a), self.b(n.b));
                        Z3_mk_eq(c, a, b)
                    } else {
                        let (a, b) = (self.bv(n.a), self.bv(n.b));
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult => {
                    let (a, b) = (self.bv(n.a), self.bv(n.b));
                    Z3_mk_bvult(c, a, b)
                }
                Op::Ule => {
                    let (a, b) = (self.bv(n.a), self.bv(n.b));
                    Z3_mk_bvule(c, a, b)
                }
                Op::Slt => {
                    let (a, b) = (self.bv(n.a), self.bv(n.b));
                    Z3_mk_bvslt(c, a, b)
                }
                Op::Sle => {
                    let (a, b) = (self.bv(n.a), self.bv(n.b));
                    Z3_mk_bvsle(c, a, b)
                }
                Op::FOlt | Op::FOle | Op::FOeq | Op::FUno => {
                    let (a, b) = (self.fp(n.a), self.fp(n.b));
                    match n.op {
                        Op::FOlt => Z3_mk_fpa_lt(c, a, b),
                        Op::FOle => Z3_mk_fpa_leq(c, a, b),
                        Op::FOeq => Z3_mk_fpa_eq(c, a, b),
                        _ => {
                            let x = [Z3_mk_fpa_is_nan(c, a), Z3_mk_fpa_is_nan(c, b)];
                            Z3_mk_or(c, 2, x.as_ptr())
                        }
                    }
                }
                _ => {
                    let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                    let v = self.bv_raw(e);
                    Z3_mk_eq(c, v, one)
                }
            }
        };
        let z = self.keep(z);
        self.tr_b.insert(e, z);
        z
    }
    fn fp(&mut self, e: E) -> Z {
        let v = self.bv(e);
        unsafe { Z3_mk_fpa_to_fp_bv(self.c, v, Z3_mk_fpa_sort_double(self.c)) }
    }
    fn bv(&mut self, e: E) -> Z {
        if let Some(&z) = self.tr_bv.get(&e) {
            return z;
        }
        let n = ctx().n(e);
        let c = self.c;
        let z = if n.w == 1 && !matches!(n.op, Op::Extract | Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr) {
            let b = self.b(e);
            unsafe {
                let s = Z3_mk_bv_sort(c, 1);
                Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
            }
        } else {
            self.bv_raw(e)
        };
        let z = self.keep(z);
        self.tr_bv.insert(e, z);
        z
    }
    fn bv_raw(&mut self, e: E) -> Z {
        let n = ctx().n(e);
        let c = self.c;
        unsafe {
            macro_rules! two {
                ($f:ident) => {{
                    let a = self.bv(n.a);
                    let b = self.bv(n.b);
                    $f(c, a, b)
                }};
            }
            match n.op {
                Op::Const => {
                    let s = Z3_mk_bv_sort(c, n.w as c_uint);
                    if n.k <= u64::MAX as u128 {
                        Z3_mk_unsigned_int64(c, n.k as u64, s)
                    } else {
                        let t = CString::new(n.k.to_string()).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                Op::Var => {
                    let s = CString::new(format!("v{}", n.k >> 8)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, n.w as c_uint))
                }
                Op::Add => two!(Z3_mk_bvadd),
                Op::Sub => two!(Z3_mk_bvsub),
                Op::Mul => two!(Z3_mk_bvmul),
                Op::UDiv => two!(Z3_mk_bvudiv),
                Op::SDiv => two!(Z3_mk_bvsdiv),
                Op::URem => two!(Z3_mk_bvurem),
                Op::SRem => two!(Z3_mk_bvsrem),
                Op::And => two!(Z3_mk_bvand),
                Op::Or => two!(Z3_mk_bvor),
                Op::Xor => two!(Z3_mk_bvxor),
                Op::Shl => two!(Z3_mk_bvshl),
                Op::LShr => two!(Z3_mk_bvlshr),
                Op::AShr => two!(Z3_mk_bvashr),
                Op::Concat => two!(Z3_mk_concat),
                Op::Ite => {
                    let a = self.b(n.a);
                    let b = self.bv(n.b);
                    let d = self.bv(n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Extract => {
                    let a = self.bv(n.a);
                    Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, a)
                }
                Op::ZExt => {
                    let a = self.bv(n.a);
                    Z3_mk_zero_ext(c, (n.w - ctx().n(n.a).w) as c_uint, a)
                }
                Op::SExt => {
                    let a = self.bv(n.a);
                    Z3_mk_sign_ext(c, (n.w - ctx().n(n.a).w) as c_uint, a)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (a, b) = (self.fp(n.a), self.fp(n.b));
                    let rm = Z3_mk_fpa_rne(c);
                    let r = match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, rm, a, b),
                        Op::FSub => Z3_mk_fpa_sub(c, rm, a, b),
                        Op::FMul => Z3_mk_fpa_mul(c, rm, a, b),
                        _ => Z3_mk_fpa_div(c, rm, a, b),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::FMax | Op::FMin => {
                    // maxnum/minnum: the other operand when one is NaN
                    let (za, zb) = (self.bv(n.a), self.bv(n.b));
                    let (a, b) = (self.fp(n.a), self.fp(n.b));
                    let lt = Z3_mk_fpa_lt(c, a, b);
                    let pick = if n.op == Op::FMax { Z3_mk_ite(c, lt, zb, za) } else { Z3_mk_ite(c, lt, za, zb) };
                    let na = Z3_mk_fpa_is_nan(c, a);
                    let nb = Z3_mk_fpa_is_nan(c, b);
                    Z3_mk_ite(c, na, zb, Z3_mk_ite(c, nb, za, pick))
                }
                Op::UiToF => {
                    let a = self.bv(n.a);
                    let r = Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a, Z3_mk_fpa_sort_double(c));
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::SiToF => {
                    let a = self.bv(n.a);
                    let r = Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, Z3_mk_fpa_sort_double(c));
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::FToUi => {
                    let a = self.fp(n.a);
                    Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), a, n.w as c_uint)
                }
                Op::FToSi => {
                    let a = self.fp(n.a);
                    Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), a, n.w as c_uint)
                }
                _ => panic!("bv of {:?}", n.op),
            }
        }
    }

    /// Is `pc && q` satisfiable? `model` satisfies pc. Returns a full model.
    pub fn check(&mut self, pc: &[E], q: E, model: &[u128]) -> Result<Option<Vec<u128>>, ()> {
        self.st.queries += 1;
        if let Some(c) = crate::expr::is_const(q) {
            return Ok(if c != 0 { Some(model.to_vec()) } else { None });
        }
        // independence slice
        let mut sup: Vec<u64> = ctx().support(q).to_vec();
        let mut used = vec![false; pc.len()];
        let mut slice = vec![q];
        loop {
            let mut changed = false;
            for (i, &c) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = ctx().support(c);
                if s.iter().zip(sup.iter()).any(|(a, b)| a & b != 0) {
                    used[i] = true;
                    slice.push(c);
                    if s.len() > sup.len() {
                        sup.resize(s.len(), 0);
                    }
                    for (k, b) in s.iter().enumerate() {
                        if sup[k] & b != *b {
                            sup[k] |= b;
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        slice.sort_unstable();
        slice.dedup();
        let key: Box<[E]> = slice.clone().into_boxed_slice();
        let merge = |m: &[(u32, u128)]| {
            let mut v = model.to_vec();
            for (i, x) in m {
                if *i as usize >= v.len() {
                    v.resize(*i as usize + 1, 0);
                }
                v[*i as usize] = *x;
            }
            v
        };
        if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            return Ok(r.as_ref().map(|m| merge(m)));
        }
        // recent models: a stored assignment that satisfies the slice
        for k in (0..self.recent.len()).rev().take(6) {
            let m = self.recent[k].clone();
            ctx().new_epoch();
            if slice.iter().all(|&c| ctx().eval(c, &m) != 0) {
                self.st.model_hits += 1;
                let asg = Rc::new(collect(&sup, |i| m.get(i as usize).copied().unwrap_or(0)));
                let out = merge(&asg);
                self.cache.insert(key, Some(asg));
                return Ok(Some(out));
            }
        }
        let h = slice_hash(&slice);
        if self.shared_has(h) {
            self.st.cache_hits += 1;
            self.cache.insert(key, None);
            return Ok(None);
        }
        let r = self.solve(&slice, &sup);
        match r {
            Res::Unsat => {
                self.shared_put(h);
                self.cache.insert(key, None);
                Ok(None)
            }
            Res::Sat(asg) => {
                let out = merge(&asg);
                ctx().new_epoch();
                for &c in &slice {
                    if ctx().eval(c, &out) == 0 {
                        eprintln!("symx: solver model does not satisfy a constraint: {}", crate::expr::show(c, 12));
                        return Err(());
                    }
                }
                self.cache.insert(key, Some(asg));
                self.recent.push(Rc::new(out.clone()));
                if self.recent.len() > 64 {
                    self.recent.drain(..32);
                }
                Ok(Some(out))
            }
            Res::Unknown => Err(()),
        }
    }

    /// unsatisfiable slices, by structural hash, shared by all workers
    fn shared_has(&self, h: [u64; 2]) -> bool {
        let n = self.shared.len();
        for k in 0..8 {
            let s = &self.shared[(h[0] as usize + k) & (n - 1)];
            let a = s[0].load(Relaxed);
            if a == 0 {
                return false;
            }
            if a == h[0] && s[1].load(Relaxed) == h[1] {
                return true;
            }
        }
        false
    }
    fn shared_put(&self, h: [u64; 2]) {
        let n = self.shared.len();
        for k in 0..8 {
            let s = &self.shared[(h[0] as usize + k) & (n - 1)];
            if s[0].compare_exchange(0, h[0], Relaxed, Relaxed).is_ok() {
                s[1].store(h[1], Relaxed);
                return;
            }
        }
    }

    fn solve(&mut self, slice: &[E], sup: &[u64]) -> Res {
        let zs: Vec<Z> = slice.iter().map(|&e| self.b(e)).collect();
        let t = Instant::now();
        unsafe {
            let c = self.c;
            if self.mode == 0 {
                Z3_solver_push(c, self.s);
            } else {
                self.mksolver();
            }
            for z in &zs {
                Z3_solver_assert(c, self.s, *z);
            }
            let r = Z3_solver_check(c, self.s);
            self.st.z3_calls += 1;
            let res = match r {
                1 => {
                    self.st.sat += 1;
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    // widths: find var nodes through their ordinals
                    let mut widths: HashMap<u32, E> = HashMap::new();
                    for &e in slice {
                        vars_of(e, &mut widths);
                    }
                    let asg = collect(sup, |i| {
                        let Some(&v) = widths.get(&i) else { return 0 };
                        let w = ctx().n(v).w;
                        let z = if w == 1 { self.b(v) } else { self.bv(v) };
                        let mut out: Z = std::ptr::null_mut();
                        if !Z3_model_eval(c, m, z, true, &mut out) {
                            return 0;
                        }
                        Z3_inc_ref(c, out);
                        if w == 1 {
                            (Z3_get_bool_value(c, out) == 1) as u128
                        } else if w <= 64 {
                            let mut u = 0u64;
                            Z3_get_numeral_uint64(c, out, &mut u);
                            u as u128 & mask(w)
                        } else {
                            CStr::from_ptr(Z3_get_numeral_string(c, out)).to_string_lossy().parse().unwrap_or(0)
                        }
                    });
                    Z3_model_dec_ref(c, m);
                    Res::Sat(Rc::new(asg))
                }
                -1 => {
                    self.st.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.st.unknown += 1;
                    Res::Unknown
                }
            };
            let us = t.elapsed().as_micros() as u64;
            self.st.us += us;
            self.st.max_us = self.st.max_us.max(us);
            if let Some((dir, every, n)) = &mut self.dump {
                if self.st.z3_calls % *every == 1 || *every == 1 {
                    let txt = CStr::from_ptr(Z3_solver_to_string(c, self.s)).to_string_lossy().into_owned();
                    let _ = std::fs::write(
                        format!("{dir}/q-{}-{}.smt2", std::process::id(), n),
                        format!("; verdict {}\n(set-logic ALL)\n{}\n(check-sat)\n", if r == 1 { "sat" } else if r == -1 { "unsat" } else { "unknown" }, txt),
                    );
                    *n += 1;
                }
            }
            if self.mode == 0 {
                Z3_solver_pop(c, self.s, 1);
                self.asserted += 1;
                if self.asserted > 2000 {
                    self.mksolver();
                }
            }
            if self.tr_bv.len() + self.tr_b.len() > 400_000 {
                self.recycle();
            }
            res
        }
    }
}

fn slice_hash(slice: &[E]) -> [u64; 2] {
    let mut hs: Vec<u128> = slice.iter().map(|&e| ctx().hash[e as usize]).collect();
    hs.sort_unstable();
    let mut h = 0x243f6a8885a308d313198a2e03707344u128;
    for x in hs {
        h = crate::expr::mix128(h ^ x).wrapping_add(x);
    }
    [(h >> 64) as u64 | 1, h as u64 | 1]
}

fn shared_table() -> &'static [[AtomicU64; 2]] {
    extern "C" {
        fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    }
    let n = 1usize << 22;
    unsafe {
        let p = mmap(std::ptr::null_mut(), n * 16, 3, 0x21, -1, 0);
        std::slice::from_raw_parts(p as *const [AtomicU64; 2], n)
    }
}

fn collect(sup: &[u64], mut f: impl FnMut(u32) -> u128) -> Vec<(u32, u128)> {
    let mut v = vec![];
    for (k, b) in sup.iter().enumerate() {
        let mut b = *b;
        while b != 0 {
            let i = b.trailing_zeros();
            b &= b - 1;
            let id = (k * 64) as u32 + i;
            v.push((id, f(id)));
        }
    }
    v
}

fn vars_of(e: E, out: &mut HashMap<u32, E>) {
    let mut seen = std::collections::HashSet::new();
    let mut st = vec![e];
    while let Some(e) = st.pop() {
        if e == 0 || !seen.insert(e) {
            continue;
        }
        let n = ctx().n(e);
        match n.op {
            Op::Const => {}
            Op::Var => {
                out.insert((n.k >> 8) as u32, e);
            }
            _ => st.extend([n.a, n.b, n.c]),
        }
    }
}
