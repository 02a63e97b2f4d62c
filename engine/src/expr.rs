//! Hash-consed bit-vector expressions with local simplification.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract, // k = lo, w = width
    ZExt,
    SExt,
    // IEEE double operations over 64-bit vectors (f64 only)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FOlt,
    FOle,
    FOeq,
    FUno,
    FMax,
    FMin,
    UiToF, // from width a.w to f64
    SiToF,
    FToUi, // truncating
    FToSi,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    /// structural hashes (the same in every worker process)
    pub hash: Vec<u128>,
    map: HashMap<Node, E, BuildFx>,
    support: Vec<Option<std::rc::Rc<[u64]>>>,
    memo_val: Vec<u128>,
    memo_ep: Vec<u32>,
    epoch: u32,
    next_ep: u32,
}

#[derive(Default, Clone, Copy)]
pub struct BuildFx;
pub struct Fx(u64);
impl std::hash::BuildHasher for BuildFx {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx {
        Fx(0)
    }
}
impl Fx {
    #[inline]
    fn add(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
}
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.add(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.add(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.add(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.add(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.add(i)
    }
    fn write_u128(&mut self, i: u128) {
        self.add(i as u64);
        self.add((i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.add(i as u64)
    }
}

static mut CTX: *mut Ctx = std::ptr::null_mut();

pub fn ctx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_null() {
            CTX = Box::into_raw(Box::new(Ctx {
                hash: vec![0],
                nodes: vec![],
                map: HashMap::default(),
                support: vec![],
                memo_val: vec![],
                memo_ep: vec![],
                epoch: 0,
                next_ep: 0,
            }));
            // id 0 is reserved (concrete marker in memory cells)
            (*CTX).nodes.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: u128::MAX });
            (*CTX).support.push(None);
            (*CTX).memo_val.push(0);
            (*CTX).memo_ep.push(0);
        }
        &mut *CTX
    }
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext128(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

impl Ctx {
    fn node_hash(&self, n: &Node) -> u128 {
        let mut h = 0x9e3779b97f4a7c15f39cc0605cedc835u128 ^ ((n.op as u128) << 64 | n.w as u128);
        for x in [n.k, self.hash.get(n.a as usize).copied().unwrap_or(1), self.hash.get(n.b as usize).copied().unwrap_or(2), self.hash.get(n.c as usize).copied().unwrap_or(3)] {
            h = mix128(h ^ x.wrapping_mul(0xda942042e4dd58b5a3b195354a39b70du128));
        }
        h
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        let h = self.node_hash(&n);
        self.hash.push(h);
        self.map.insert(n, id);
        self.support.push(None);
        self.memo_val.push(0);
        self.memo_ep.push(0);
        id
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn support(&mut self, e: E) -> std::rc::Rc<[u64]> {
        if let Some(s) = &self.support[e as usize] {
            return s.clone();
        }
        let n = self.n(e);
        let r: std::rc::Rc<[u64]> = match n.op {
            Op::Const => std::rc::Rc::from(Vec::<u64>::new()),
            Op::Var => {
                let idx = (n.k >> 8) as usize;
                let mut v = vec![0u64; idx / 64 + 1];
                v[idx / 64] |= 1 << (idx % 64);
                std::rc::Rc::from(v)
            }
            _ => {
                let mut v: Vec<u64> = vec![];
                for x in [n.a, n.b, n.c] {
                    if x == 0 {
                        continue;
                    }
                    let s = self.support(x);
                    if s.len() > v.len() {
                        v.resize(s.len(), 0);
                    }
                    for (i, b) in s.iter().enumerate() {
                        v[i] |= b;
                    }
                }
                std::rc::Rc::from(v)
            }
        };
        self.support[e as usize] = Some(r.clone());
        r
    }

    /// Starts a new evaluation epoch (a new model).
    pub fn new_epoch(&mut self) -> u32 {
        self.next_ep += 1;
        self.epoch = self.next_ep;
        self.epoch
    }
    /// Continues evaluating under a model that was given epoch `e` before.
    pub fn use_epoch(&mut self, e: u32) {
        self.epoch = e;
    }
    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
        if self.memo_ep[e as usize] == self.epoch {
            return self.memo_val[e as usize];
        }
        let n = self.n(e);
        let v = match n.op {
            Op::Const => n.k,
            Op::Var => model.get((n.k >> 8) as usize).copied().unwrap_or(0) & mask(n.w),
            Op::Ite => {
                if self.eval(n.a, model) != 0 {
                    self.eval(n.b, model)
                } else {
                    self.eval(n.c, model)
                }
            }
            _ => {
                let wa = self.n(n.a).w;
                let a = self.eval(n.a, model);
                let b = if n.b != 0 { self.eval(n.b, model) } else { 0 };
                let wb = if n.b != 0 { self.n(n.b).w } else { 0 };
                fold(n.op, n.w, a, wa, b, wb, n.k)
            }
        };
        self.memo_ep[e as usize] = self.epoch;
        self.memo_val[e as usize] = v;
        v
    }
}

/// Concrete semantics of each operator; division by zero as in SMT-LIB.
pub fn fold(op: Op, w: u16, a: u128, wa: u16, b: u128, wb: u16, k: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            (if y == 0 {
                if x < 0 {
                    1
                } else {
                    -1
                }
            } else {
                x.wrapping_div(y)
            }) as u128
                & m
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            (if y == 0 { x } else { x.wrapping_rem(y) }) as u128 & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sext128(a, w);
            let sh = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            (s >> sh) as u128 & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, wa) < sext128(b, wa)) as u128,
        Op::Sle => (sext128(a, wa) <= sext128(b, wa)) as u128,
        Op::Concat => (a << wb) | b,
        Op::Extract => (a >> k) & m,
        Op::ZExt => a,
        Op::SExt => sext128(a, wa) as u128 & m,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FMax | Op::FMin => {
            let x = f64::from_bits(a as u64);
            let y = f64::from_bits(b as u64);
            let r = match op {
                Op::FAdd => x + y,
                Op::FSub => x - y,
                Op::FMul => x * y,
                Op::FDiv => x / y,
                Op::FMax => x.max(y),
                _ => x.min(y),
            };
            r.to_bits() as u128
        }
        Op::FOlt | Op::FOle | Op::FOeq | Op::FUno => {
            let x = f64::from_bits(a as u64);
            let y = f64::from_bits(b as u64);
            (match op {
                Op::FOlt => x < y,
                Op::FOle => x <= y,
                Op::FOeq => x == y,
                _ => x.is_nan() || y.is_nan(),
            }) as u128
        }
        Op::UiToF => (a as f64).to_bits() as u128,
        Op::SiToF => (sext128(a, wa) as f64).to_bits() as u128,
        Op::FToUi => (f64::from_bits(a as u64) as u128) & m,
        Op::FToSi => (f64::from_bits(a as u64) as i128 as u128) & m,
        Op::Const | Op::Var | Op::Ite => unreachable!(),
    }
}

pub fn width(e: E) -> u16 {
    ctx().n(e).w
}
pub fn is_const(e: E) -> Option<u128> {
    let n = ctx().n(e);
    if n.op == Op::Const {
        Some(n.k)
    } else {
        None
    }
}
pub fn cst(v: u128, w: u16) -> E {
    ctx().mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
}
pub fn var(ordinal: u32, w: u16) -> E {
    ctx().mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: ((ordinal as u128) << 8) | w as u128 })
}
fn raw(op: Op, w: u16, a: E, b: E, c: E, k: u128) -> E {
    ctx().mk(Node { op, w, a, b, c, k })
}
pub fn tt() -> E {
    cst(1, 1)
}
pub fn ff() -> E {
    cst(0, 1)
}
pub fn not(e: E) -> E {
    xor(e, tt())
}

pub fn bin(op: Op, a: E, b: E) -> E {
    match op {
        Op::Add => add(a, b),
        Op::Sub => sub(a, b),
        Op::And => and(a, b),
        Op::Or => or(a, b),
        Op::Xor => xor(a, b),
        Op::Shl => shl(a, b),
        Op::LShr => lshr(a, b),
        Op::Eq => eq(a, b),
        Op::Ult => ult(a, b),
        Op::Ule => ule(a, b),
        Op::Slt | Op::Sle => scmp(op, a, b),
        Op::Concat => concat(a, b),
        _ => {
            let w = match op {
                Op::FOlt | Op::FOle | Op::FOeq | Op::FUno => 1,
                _ => width(a),
            };
            if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
                let wa = width(a);
                let wb = width(b);
                return cst(fold(op, w, x, wa, y, wb, 0), w);
            }
            match op {
                Op::Mul => {
                    let (a, b) = if is_const(a).is_some() { (b, a) } else { (a, b) };
                    if let Some(y) = is_const(b) {
                        if y == 0 {
                            return b;
                        }
                        if y == 1 {
                            return a;
                        }
                        if y.is_power_of_two() {
                            return shl(a, cst(y.trailing_zeros() as u128, w));
                        }
                    }
                    return raw(op, w, a, b, 0, 0);
                }
                Op::UDiv => {
                    if let Some(y) = is_const(b) {
                        if y.is_power_of_two() {
                            return lshr(a, cst(y.trailing_zeros() as u128, w));
                        }
                    }
                }
                Op::URem => {
                    if let Some(y) = is_const(b) {
                        if y.is_power_of_two() {
                            return and(a, cst(y - 1, w));
                        }
                    }
                }
                Op::AShr => {
                    if is_const(b) == Some(0) {
                        return a;
                    }
                }
                _ => {}
            }
            raw(op, w, a, b, 0, 0)
        }
    }
}

pub fn un(op: Op, a: E, w: u16) -> E {
    if let Some(x) = is_const(a) {
        let wa = width(a);
        return cst(fold(op, w, x, wa, 0, 0, 0), w);
    }
    raw(op, w, a, 0, 0, 0)
}

pub fn add(a: E, b: E) -> E {
    let w = width(a);
    let (a, b) = if is_const(a).is_some() { (b, a) } else { (a, b) };
    match (is_const(a), is_const(b)) {
        (Some(x), Some(y)) => return cst(x.wrapping_add(y), w),
        (_, Some(0)) => return a,
        (_, Some(y)) => {
            let n = ctx().n(a);
            if n.op == Op::Add {
                if let Some(x) = is_const(n.b) {
                    return add(n.a, cst(x.wrapping_add(y), w));
                }
            }
            if n.op == Op::Ite && is_const(n.b).is_some() && is_const(n.c).is_some() {
                return ite(n.a, add(n.b, b), add(n.c, b));
            }
        }
        _ => {}
    }
    if w == 1 {
        return xor(a, b);
    }
    let (a, b) = if is_const(b).is_none() && a > b { (b, a) } else { (a, b) };
    raw(Op::Add, w, a, b, 0, 0)
}
pub fn sub(a: E, b: E) -> E {
    let w = width(a);
    if a == b {
        return cst(0, w);
    }
    if let Some(y) = is_const(b) {
        return add(a, cst(y.wrapping_neg(), w));
    }
    if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
        return cst(x.wrapping_sub(y), w);
    }
    raw(Op::Sub, w, a, b, 0, 0)
}
pub fn and(a: E, b: E) -> E {
    let w = width(a);
    if a == b {
        return a;
    }
    let (a, b) = if is_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(y) = is_const(b) {
        if let Some(x) = is_const(a) {
            return cst(x & y, w);
        }
        if y == 0 {
            return b;
        }
        if y == mask(w) {
            return a;
        }
        // low mask -> zext(extract)
        if (y + 1).is_power_of_two() {
            let k = y.trailing_ones() as u16;
            return zext(extract(a, k - 1, 0), w);
        }
        // contiguous mask lo..hi
        let lo = y.trailing_zeros() as u16;
        let sh = y >> lo;
        if (sh + 1).is_power_of_two() {
            let hi = lo + sh.trailing_ones() as u16 - 1;
            let mid = extract(a, hi, lo);
            return zext(concat(mid, cst(0, lo)), w);
        }
    } else if w == 1 {
        // absorb complements
        if is_not_of(a, b) {
            return ff();
        }
        let nb = ctx().n(b);
        if nb.op == Op::And && (nb.a == a || nb.b == a) {
            return b;
        }
        let na = ctx().n(a);
        if na.op == Op::And && (na.a == b || na.b == b) {
            return a;
        }
    }
    let (a, b) = if is_const(b).is_none() && a > b { (b, a) } else { (a, b) };
    raw(Op::And, w, a, b, 0, 0)
}
fn is_not_of(a: E, b: E) -> bool {
    let na = ctx().n(a);
    if na.op == Op::Xor && na.a == b && is_const(na.b) == Some(mask(na.w)) {
        return true;
    }
    let nb = ctx().n(b);
    nb.op == Op::Xor && nb.a == a && is_const(nb.b) == Some(mask(nb.w))
}
pub fn or(a: E, b: E) -> E {
    let w = width(a);
    if a == b {
        return a;
    }
    let (a, b) = if is_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(y) = is_const(b) {
        if let Some(x) = is_const(a) {
            return cst(x | y, w);
        }
        if y == 0 {
            return a;
        }
        if y == mask(w) {
            return b;
        }
    } else if w == 1 && is_not_of(a, b) {
        return tt();
    }
    // disjoint-bits or as concat: split on boundary where one side is zero
    if w > 1 {
        if let Some(r) = or_concat(a, b) {
            return r;
        }
        if let Some(r) = or_concat(b, a) {
            return r;
        }
    }
    let (a, b) = if is_const(b).is_none() && a > b { (b, a) } else { (a, b) };
    raw(Op::Or, w, a, b, 0, 0)
}
/// a = concat(x, 0_k), b has zeros above k: concat(x, b[k-1:0])
fn or_concat(a: E, b: E) -> Option<E> {
    let na = ctx().n(a);
    let w = na.w;
    let k = low_zeros(a);
    if k == 0 || k >= w {
        return None;
    }
    let nz = high_zeros(b);
    if nz >= w - k {
        let hi = extract(a, w - 1, k);
        let lo = extract(b, k - 1, 0);
        return Some(concat(hi, lo));
    }
    None
}
/// number of low bits syntactically zero
fn low_zeros(e: E) -> u16 {
    let n = ctx().n(e);
    match n.op {
        Op::Const => {
            if n.k == 0 {
                n.w
            } else {
                n.k.trailing_zeros() as u16
            }
        }
        Op::Concat => {
            let wb = width(n.b);
            let l = low_zeros(n.b);
            if l == wb {
                wb + low_zeros(n.a)
            } else {
                l
            }
        }
        Op::ZExt => {
            let wa = width(n.a);
            let l = low_zeros(n.a);
            if l == wa {
                n.w
            } else {
                l
            }
        }
        _ => 0,
    }
}
fn high_zeros(e: E) -> u16 {
    let n = ctx().n(e);
    match n.op {
        Op::Const => {
            if n.k == 0 {
                n.w
            } else {
                n.w - (128 - n.k.leading_zeros() as u16)
            }
        }
        Op::Concat => {
            let wa = width(n.a);
            let h = high_zeros(n.a);
            if h == wa {
                wa + high_zeros(n.b)
            } else {
                h
            }
        }
        Op::ZExt => {
            let wa = width(n.a);
            (n.w - wa) + high_zeros(n.a)
        }
        _ => 0,
    }
}
pub fn xor(a: E, b: E) -> E {
    let w = width(a);
    if a == b {
        return cst(0, w);
    }
    let (a, b) = if is_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(y) = is_const(b) {
        if let Some(x) = is_const(a) {
            return cst(x ^ y, w);
        }
        if y == 0 {
            return a;
        }
        let n = ctx().n(a);
        if n.op == Op::Xor {
            if let Some(x) = is_const(n.b) {
                return xor(n.a, cst(x ^ y, w));
            }
        }
        if w == 1 {
            // negation of comparisons
            match n.op {
                Op::Ult => return ule(n.b, n.a),
                Op::Ule => return ult(n.b, n.a),
                Op::Slt => return scmp(Op::Sle, n.b, n.a),
                Op::Sle => return scmp(Op::Slt, n.b, n.a),
                _ => {}
            }
        }
        if n.op == Op::Ite && is_const(n.b).is_some() && is_const(n.c).is_some() {
            return ite(n.a, xor(n.b, b), xor(n.c, b));
        }
        if n.op == Op::ZExt {
            let wa = width(n.a);
            if y & !mask(wa) == 0 {
                return zext(xor(n.a, cst(y, wa)), w);
            }
        }
    }
    let (a, b) = if is_const(b).is_none() && a > b { (b, a) } else { (a, b) };
    raw(Op::Xor, w, a, b, 0, 0)
}
pub fn shl(a: E, b: E) -> E {
    let w = width(a);
    if let Some(s) = is_const(b) {
        if s == 0 {
            return a;
        }
        if s >= w as u128 {
            return cst(0, w);
        }
        let s = s as u16;
        return concat(extract(a, w - 1 - s, 0), cst(0, s));
    }
    raw(Op::Shl, w, a, b, 0, 0)
}
pub fn lshr(a: E, b: E) -> E {
    let w = width(a);
    if let Some(s) = is_const(b) {
        if s == 0 {
            return a;
        }
        if s >= w as u128 {
            return cst(0, w);
        }
        let s = s as u16;
        return zext(extract(a, w - 1, s), w);
    }
    raw(Op::LShr, w, a, b, 0, 0)
}
pub fn eq(a: E, b: E) -> E {
    if a == b {
        return tt();
    }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let (a, b) = if is_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(y) = is_const(b) {
        let n = ctx().n(a);
        if w == 1 {
            return if y == 1 { a } else { not(a) };
        }
        match n.op {
            Op::Const => return if n.k == y { tt() } else { ff() },
            Op::ZExt => {
                let wa = width(n.a);
                if y & !mask(wa) != 0 {
                    return ff();
                }
                return eq(n.a, cst(y, wa));
            }
            Op::SExt => {
                let wa = width(n.a);
                let low = y & mask(wa);
                if (sext128(low, wa) as u128) & mask(w) != y {
                    return ff();
                }
                return eq(n.a, cst(low, wa));
            }
            Op::Concat => {
                let wb = width(n.b);
                let wa = width(n.a);
                return and(eq(n.a, cst(y >> wb, wa)), eq(n.b, cst(y, wb)));
            }
            Op::Ite => {
                let (tb, tc) = (is_const(n.b), is_const(n.c));
                if tb.is_some() || tc.is_some() {
                    return ite(n.a, eq(n.b, b), eq(n.c, b));
                }
            }
            Op::Add => {
                if let Some(x) = is_const(n.b) {
                    return eq(n.a, cst(y.wrapping_sub(x), w));
                }
            }
            Op::Xor => {
                if let Some(x) = is_const(n.b) {
                    return eq(n.a, cst(y ^ x, w));
                }
                if y == 0 {
                    return eq(n.a, n.b);
                }
            }
            Op::Sub => {
                if y == 0 {
                    return eq(n.a, n.b);
                }
            }
            Op::Or => {
                if y == 0 {
                    return and(eq(n.a, b), eq(n.b, b));
                }
            }
            _ => {}
        }
    } else {
        let na = ctx().n(a);
        let nb = ctx().n(b);
        if na.op == Op::ZExt && nb.op == Op::ZExt && width(na.a) == width(nb.a) {
            return eq(na.a, nb.a);
        }
        if na.op == Op::SExt && nb.op == Op::SExt && width(na.a) == width(nb.a) {
            return eq(na.a, nb.a);
        }
        if na.op == Op::Concat && nb.op == Op::Concat && width(na.b) == width(nb.b) {
            return and(eq(na.a, nb.a), eq(na.b, nb.b));
        }
        if w == 1 {
            return not(xor(a, b));
        }
    }
    let (a, b) = if is_const(b).is_none() && a > b { (b, a) } else { (a, b) };
    raw(Op::Eq, 1, a, b, 0, 0)
}
pub fn ult(a: E, b: E) -> E {
    if a == b {
        return ff();
    }
    let w = width(a);
    let (ca, cb) = (is_const(a), is_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return if x < y { tt() } else { ff() };
    }
    if let Some(y) = cb {
        if y == 0 {
            return ff();
        }
        if y == 1 {
            return eq(a, cst(0, w));
        }
        let n = ctx().n(a);
        if n.op == Op::ZExt {
            let wa = width(n.a);
            if y > mask(wa) {
                return tt();
            }
            return ult(n.a, cst(y, wa));
        }
        if n.op == Op::Ite && is_const(n.b).is_some() && is_const(n.c).is_some() {
            return ite(n.a, ult(n.b, b), ult(n.c, b));
        }
        if y == mask(w) {
            return not(eq(a, b));
        }
    }
    if let Some(x) = ca {
        if x == mask(w) {
            return ff();
        }
        if x == 0 {
            return not(eq(b, a));
        }
        let n = ctx().n(b);
        if n.op == Op::ZExt {
            let wa = width(n.a);
            if x >= mask(wa) {
                return ff();
            }
            return ult(cst(x, wa), n.a);
        }
        if n.op == Op::Ite && is_const(n.b).is_some() && is_const(n.c).is_some() {
            return ite(n.a, ult(a, n.b), ult(a, n.c));
        }
    }
    let (na, nb) = (ctx().n(a), ctx().n(b));
    if na.op == Op::ZExt && nb.op == Op::ZExt && width(na.a) == width(nb.a) {
        return ult(na.a, nb.a);
    }
    raw(Op::Ult, 1, a, b, 0, 0)
}
pub fn ule(a: E, b: E) -> E {
    if a == b {
        return tt();
    }
    let w = width(a);
    if let Some(y) = is_const(b) {
        if y == mask(w) {
            return tt();
        }
        return ult(a, cst(y + 1, w));
    }
    if let Some(x) = is_const(a) {
        if x == 0 {
            return tt();
        }
        return ult(cst(x - 1, w), b);
    }
    let (na, nb) = (ctx().n(a), ctx().n(b));
    if na.op == Op::ZExt && nb.op == Op::ZExt && width(na.a) == width(nb.a) {
        return ule(na.a, nb.a);
    }
    raw(Op::Ule, 1, a, b, 0, 0)
}
pub fn scmp(op: Op, a: E, b: E) -> E {
    if a == b {
        return if op == Op::Sle { tt() } else { ff() };
    }
    let w = width(a);
    if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
        return cst(fold(op, 1, x, w, y, w, 0), 1);
    }
    // non-negative both: unsigned comparison
    if high_zeros(a) > 0 && high_zeros(b) > 0 {
        return if op == Op::Slt { ult(a, b) } else { ule(a, b) };
    }
    for (x, y, flip) in [(a, b, false), (b, a, true)] {
        let n = ctx().n(x);
        if n.op == Op::Ite && is_const(y).is_some() && is_const(n.b).is_some() && is_const(n.c).is_some() {
            return if flip {
                ite(n.a, scmp(op, y, n.b), scmp(op, y, n.c))
            } else {
                ite(n.a, scmp(op, n.b, y), scmp(op, n.c, y))
            };
        }
    }
    raw(op, 1, a, b, 0, 0)
}
pub fn ite(c: E, a: E, b: E) -> E {
    if a == b {
        return a;
    }
    if let Some(x) = is_const(c) {
        return if x != 0 { a } else { b };
    }
    let w = width(a);
    if w == 1 {
        match (is_const(a), is_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or(c, b),
            (Some(0), None) => return and(not(c), b),
            (None, Some(0)) => return and(c, a),
            (None, Some(1)) => return or(not(c), a),
            _ => {}
        }
    }
    let nc = ctx().n(c);
    if nc.op == Op::Xor && nc.w == 1 && is_const(nc.b) == Some(1) {
        return ite(nc.a, b, a);
    }
    let na = ctx().n(a);
    if na.op == Op::Ite && na.a == c {
        return ite(c, na.b, b);
    }
    let nb = ctx().n(b);
    if nb.op == Op::Ite && nb.a == c {
        return ite(c, a, nb.c);
    }
    raw(Op::Ite, w, c, a, b, 0)
}
pub fn concat(a: E, b: E) -> E {
    let (wa, wb) = (width(a), width(b));
    let w = wa + wb;
    if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
        return cst((x << wb) | y, w);
    }
    let (na, nb) = (ctx().n(a), ctx().n(b));
    if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + wb as u128 {
        return extract(na.a, (na.k as u16) + wa - 1, nb.k as u16);
    }
    // b is a whole narrow value and a extract of the same? (zext handled below)
    if na.op == Op::Const && na.k == 0 {
        return zext(b, w);
    }
    // concat(a, concat(b1, b2)) -> merge a with b1 when adjacent
    if nb.op == Op::Concat {
        let n1 = ctx().n(nb.a);
        if na.op == Op::Extract && n1.op == Op::Extract && na.a == n1.a && na.k == n1.k + n1.w as u128 {
            return concat(concat(a, nb.a), nb.b);
        }
        if na.op == Op::Const && n1.op == Op::Const {
            return concat(concat(a, nb.a), nb.b);
        }
    }
    if na.op == Op::Concat {
        let n2 = ctx().n(na.b);
        if nb.op == Op::Extract && n2.op == Op::Extract && nb.a == n2.a && n2.k == nb.k + wb as u128 {
            return concat(na.a, concat(na.b, b));
        }
        if nb.op == Op::Const && n2.op == Op::Const {
            return concat(na.a, concat(na.b, b));
        }
    }
    if na.op == Op::ZExt {
        return zext(concat(na.a, b), w);
    }
    if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
        return ite(na.a, concat(na.b, nb.b), concat(na.c, nb.c));
    }
    if na.op == Op::Ite && nb.op == Op::Const && is_const(na.b).is_some() && is_const(na.c).is_some() {
        return ite(na.a, concat(na.b, b), concat(na.c, b));
    }
    raw(Op::Concat, w, a, b, 0, 0)
}
pub fn extract(a: E, hi: u16, lo: u16) -> E {
    let n = ctx().n(a);
    let w = hi - lo + 1;
    debug_assert!(hi < n.w);
    if w == n.w {
        return a;
    }
    match n.op {
        Op::Const => cst(n.k >> lo, w),
        Op::Extract => extract(n.a, hi + n.k as u16, lo + n.k as u16),
        Op::Concat => {
            let wb = width(n.b);
            if hi < wb {
                extract(n.b, hi, lo)
            } else if lo >= wb {
                extract(n.a, hi - wb, lo - wb)
            } else {
                concat(extract(n.a, hi - wb, 0), extract(n.b, wb - 1, lo))
            }
        }
        Op::ZExt => {
            let wa = width(n.a);
            if lo >= wa {
                cst(0, w)
            } else if hi < wa {
                extract(n.a, hi, lo)
            } else {
                zext(extract(n.a, wa - 1, lo), w)
            }
        }
        Op::SExt => {
            let wa = width(n.a);
            if hi < wa {
                extract(n.a, hi, lo)
            } else if lo == 0 {
                sext(n.a, w)
            } else {
                raw(Op::Extract, w, a, 0, 0, lo as u128)
            }
        }
        Op::And => and(extract(n.a, hi, lo), extract(n.b, hi, lo)),
        Op::Or => or(extract(n.a, hi, lo), extract(n.b, hi, lo)),
        Op::Xor => xor(extract(n.a, hi, lo), extract(n.b, hi, lo)),
        Op::Add if lo == 0 => add(extract(n.a, hi, 0), extract(n.b, hi, 0)),
        Op::Sub if lo == 0 => sub(extract(n.a, hi, 0), extract(n.b, hi, 0)),
        Op::Ite => {
            let nb = ctx().n(n.b).op;
            let nc = ctx().n(n.c).op;
            if nb == Op::Const || nc == Op::Const || w == 1 || true {
                ite(n.a, extract(n.b, hi, lo), extract(n.c, hi, lo))
            } else {
                raw(Op::Extract, w, a, 0, 0, lo as u128)
            }
        }
        _ => raw(Op::Extract, w, a, 0, 0, lo as u128),
    }
}
pub fn zext(a: E, w: u16) -> E {
    let n = ctx().n(a);
    if n.w == w {
        return a;
    }
    match n.op {
        Op::Const => cst(n.k, w),
        Op::ZExt => zext(n.a, w),
        Op::Ite if is_const(n.b).is_some() && is_const(n.c).is_some() => {
            ite(n.a, zext(n.b, w), zext(n.c, w))
        }
        _ => raw(Op::ZExt, w, a, 0, 0, 0),
    }
}
pub fn sext(a: E, w: u16) -> E {
    let n = ctx().n(a);
    if n.w == w {
        return a;
    }
    match n.op {
        Op::Const => cst(sext128(n.k, n.w) as u128, w),
        Op::ZExt => zext(a, w),
        Op::Ite if is_const(n.b).is_some() && is_const(n.c).is_some() => {
            ite(n.a, sext(n.b, w), sext(n.c, w))
        }
        _ => raw(Op::SExt, w, a, 0, 0, 0),
    }
}

pub fn show(e: E, depth: u32) -> String {
    let n = ctx().n(e);
    match n.op {
        Op::Const => format!("{}:{}", n.k, n.w),
        Op::Var => format!("v{}:{}", n.k >> 8, n.w),
        _ if depth == 0 => "..".into(),
        _ => {
            let mut s = format!("({:?}", n.op);
            if n.op == Op::Extract {
                s += &format!("[{}+:{}]", n.k, n.w);
            }
            for x in [n.a, n.b, n.c] {
                if x != 0 {
                    s += " ";
                    s += &show(x, depth - 1);
                }
            }
            s + ")"
        }
    }
}

pub fn mix128(x: u128) -> u128 {
    let mut x = x;
    x ^= x >> 61;
    x = x.wrapping_mul(0x2360ed051fc65da44385df649fccf645);
    x ^= x >> 71;
    x = x.wrapping_mul(0x9e3779b97f4a7c15bf58476d1ce4e5b9);
    x ^= x >> 67;
    x
}
