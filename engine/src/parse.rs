//! Lazy parser for LLVM textual IR (the subset rustc emits).
use crate::expr::mask;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float,
    Double,
    Struct(Vec<Ty>, bool),
    Array(u64, Box<Ty>),
    Vector(u64, Box<Ty>),
    Other,
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    /// Size in memory including padding (alloc size).
    /// bytes touched by a load or store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            t => t.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => align_up(((*w as u64) + 7) / 8, self.align()),
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    align_up(o, self.align())
                }
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => {
                let bits = n * t.bits() as u64;
                ((bits + 7) / 8).next_power_of_two()
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => (((*w as u64) + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size(),
        }
    }
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            Ty::Vector(n, t) => *n as u16 * t.bits(),
            _ => 0,
        }
    }
    pub fn field_off(&self, idx: u64) -> (u64, &Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (i, t) in f.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if i as u64 == idx {
                        return (o, t);
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Array(_, t) => (idx * t.size(), t),
            Ty::Vector(_, t) => (idx * t.size(), t),
            _ => panic!("field_off on {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(crate::expr::E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Copy,
    UiToF,
    SiToF,
    FToUi,
    FToSi,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: BinOp, w: u16, vec: bool, d: u32, a: Opd, b: Opd },
    ICmp { p: Pred, w: u16, vec: bool, d: u32, a: Opd, b: Opd },
    FCmp { p: String, d: u32, a: Opd, b: Opd },
    Alloca { d: u32, size: u64, n: Option<Opd> },
    Load { d: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: u64, idx: Vec<(Opd, u16, u64)> },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { v: Opd, w: u16, default: u32, cases: Vec<(u128, u32)> },
    Select { d: u32, c: Opd, a: Opd, b: Opd, ty: Ty, vec: bool },
    Cast { k: Cast, d: u32, from: Ty, to: Ty, a: Opd },
    Call { d: Option<u32>, callee: Opd, args: Vec<Opd>, tys: Rc<Vec<Ty>>, ret: Ty, normal: Option<u32> },
    Ret(Option<Opd>),
    Unreachable,
    ExtractValue { d: u32, a: Opd, idx: Vec<u32> },
    InsertValue { d: u32, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractElt { d: u32, a: Opd, i: Opd },
    InsertElt { d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, m: Vec<i64>, n: u64 },
    Rmw { d: u32, op: String, w: u16, p: Opd, v: Opd },
    CmpXchg { d: u32, w: u16, p: Opd, c: Opd, n: Opd },
    Nop,
    Unsupported(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<Ins>,
    pub name: String,
}

pub struct Func {
    pub name: &'static str,
    pub params: Vec<u32>,
    pub ptys: Vec<Ty>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub idx: u32,
    /// indices of the blocks entered at least once in this process
    pub entered: std::cell::RefCell<Vec<bool>>,
}

#[derive(Clone, Debug)]
pub enum Init {
    Zero,
    Bytes(Vec<u8>),
    Val(Ty, Val),
    Extern,
}

pub struct Global {
    pub name: &'static str,
    pub text: &'static str,
    pub constant: bool,
    pub obj: Option<Rc<crate::mem::Obj>>,
}

pub enum FnSlot {
    Decl,
    Text(&'static str),
    Parsed(&'static Func),
}

pub struct Module {
    pub fn_names: Vec<&'static str>,
    pub fns: Vec<FnSlot>,
    pub globals: Vec<Global>,
    pub sym: HashMap<&'static str, u64>,
    pub types: HashMap<&'static str, &'static str>,
}

pub const TAG_HEAP: u64 = 1 << 60;
pub const TAG_STACK: u64 = 2 << 60;
pub const TAG_GLOB: u64 = 3 << 60;
pub const TAG_FN: u64 = 4 << 60;
pub const OFF0: u64 = 0x10000;

pub fn obj_addr(tag: u64, id: u64) -> u64 {
    tag | (id << 32) | OFF0
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(&'static str),
    Local(&'static str),
    Global(&'static str),
    Meta,
    Attr,
    Str(&'static str),
    CStr(&'static str),
    P(u8),
    End,
}

struct Lx {
    t: &'static [u8],
    i: usize,
    nl: bool,
}

fn s(b: &'static [u8]) -> &'static str {
    unsafe { std::str::from_utf8_unchecked(b) }
}
fn wordc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' || c == b'+'
}

impl Lx {
    fn quoted(&mut self) -> &'static str {
        // at opening quote
        let st = self.i + 1;
        let mut j = st;
        while self.t[j] != b'"' {
            j += 1;
        }
        self.i = j + 1;
        s(&self.t[st..j])
    }
    fn next(&mut self) -> Tok {
        self.nl = false;
        loop {
            if self.i >= self.t.len() {
                self.nl = true;
                return Tok::End;
            }
            let c = self.t[self.i];
            match c {
                b'\n' => {
                    self.nl = true;
                    self.i += 1;
                }
                b' ' | b'\t' | b'\r' => self.i += 1,
                b';' => {
                    while self.i < self.t.len() && self.t[self.i] != b'\n' {
                        self.i += 1;
                    }
                }
                _ => break,
            }
        }
        let c = self.t[self.i];
        match c {
            b'%' | b'@' => {
                let name = if self.t[self.i + 1] == b'"' {
                    self.i += 1;
                    self.quoted()
                } else {
                    let st = self.i + 1;
                    let mut j = st;
                    while j < self.t.len() && wordc(self.t[j]) {
                        j += 1;
                    }
                    self.i = j;
                    s(&self.t[st..j])
                };
                if c == b'%' {
                    Tok::Local(name)
                } else {
                    Tok::Global(name)
                }
            }
            b'!' => {
                self.i += 1;
                if self.i < self.t.len() && self.t[self.i] == b'"' {
                    self.quoted();
                } else {
                    while self.i < self.t.len() && wordc(self.t[self.i]) {
                        self.i += 1;
                    }
                }
                Tok::Meta
            }
            b'#' => {
                self.i += 1;
                while self.i < self.t.len() && wordc(self.t[self.i]) {
                    self.i += 1;
                }
                Tok::Attr
            }
            b'"' => {
                let q = self.quoted();
                Tok::Str(q)
            }
            b'c' if self.t.get(self.i + 1) == Some(&b'"') => {
                self.i += 1;
                Tok::CStr(self.quoted())
            }
            _ if wordc(c) => {
                let st = self.i;
                let mut j = st;
                while j < self.t.len() && wordc(self.t[j]) {
                    j += 1;
                }
                self.i = j;
                Tok::Word(s(&self.t[st..j]))
            }
            _ => {
                self.i += 1;
                Tok::P(c)
            }
        }
    }
}

struct P<'m> {
    lx: Lx,
    cur: Tok,
    nl: bool,
    m: &'m Module,
    regs: HashMap<&'static str, u32>,
    blocks: HashMap<&'static str, u32>,
}

pub fn unescape(b: &str) -> Vec<u8> {
    let b = b.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

impl<'m> P<'m> {
    fn new(m: &'m Module, t: &'static str) -> Self {
        let mut p = P {
            lx: Lx { t: t.as_bytes(), i: 0, nl: false },
            cur: Tok::End,
            nl: false,
            m,
            regs: HashMap::new(),
            blocks: HashMap::new(),
        };
        p.adv();
        p
    }
    fn adv(&mut self) -> Tok {
        let n = self.lx.next();
        self.nl = self.lx.nl;
        std::mem::replace(&mut self.cur, n)
    }
    fn is(&self, c: u8) -> bool {
        self.cur == Tok::P(c)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.is(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("parse: expected {:?}, got {:?} near {:?}", c as char, self.cur, self.ctx());
        }
    }
    fn ctx(&self) -> String {
        let a = self.lx.i.saturating_sub(120);
        let b = (self.lx.i + 60).min(self.lx.t.len());
        String::from_utf8_lossy(&self.lx.t[a..b]).into_owned()
    }
    fn word(&self) -> Option<&'static str> {
        if let Tok::Word(w) = self.cur {
            Some(w)
        } else {
            None
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.word() == Some(w) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.adv() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                Tok::End => panic!("unbalanced"),
                _ => {}
            }
        }
    }
    fn skip_line(&mut self) {
        while !self.nl && self.cur != Tok::End {
            self.adv();
        }
    }
    fn is_type_start(&self) -> bool {
        match &self.cur {
            Tok::Word(w) => {
                matches!(
                    *w,
                    "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "token" | "metadata" | "label" | "opaque"
                ) || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => true,
            Tok::Local(_) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        match self.adv() {
            Tok::Word(w) => match w {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eatw("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float,
                "double" => Ty::Double,
                _ if w.starts_with('i') && w[1..].parse::<u16>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => Ty::Other,
            },
            Tok::P(b'{') => {
                let mut f = vec![];
                while !self.is(b'}') {
                    f.push(self.ty());
                    self.eat(b',');
                }
                self.adv();
                Ty::Struct(f, false)
            }
            Tok::P(b'[') => {
                let n = self.num();
                self.adv(); // x
                let t = self.ty();
                self.expect(b']');
                Ty::Array(n as u64, Box::new(t))
            }
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let mut f = vec![];
                    while !self.is(b'}') {
                        f.push(self.ty());
                        self.eat(b',');
                    }
                    self.adv();
                    self.expect(b'>');
                    Ty::Struct(f, true)
                } else {
                    let n = self.num();
                    self.adv();
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vector(n as u64, Box::new(t))
                }
            }
            Tok::Local(n) => {
                let t = self.m.types.get(n).unwrap_or_else(|| panic!("type %{n}"));
                let mut p = P::new(self.m, t);
                p.ty()
            }
            t => panic!("parse type: {:?} near {:?}", t, self.ctx()),
        }
    }
    fn num(&mut self) -> i128 {
        match self.adv() {
            Tok::Word(w) => w.parse::<i128>().unwrap_or_else(|_| panic!("num {w} near {:?}", self.ctx())),
            t => panic!("num: {:?} near {:?}", t, self.ctx()),
        }
    }
    /// Skip words that are attributes/flags until a type or operand starts.
    fn skip_attrs(&mut self) {
        loop {
            match &self.cur {
                Tok::Word(w) => {
                    let w = *w;
                    if self.is_type_start() {
                        return;
                    }
                    if matches!(
                        w,
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr"
                            | "ptrtoint" | "bitcast" | "trunc" | "blockaddress" | "asm" | "add" | "sub" | "splat" | "dso_local_equivalent"
                            | "ptrtoaddr"
                    ) {
                        return;
                    }
                    let c = w.as_bytes()[0];
                    if c.is_ascii_digit() || c == b'-' {
                        return;
                    }
                    self.adv();
                    if self.is(b'(') {
                        self.skip_parens();
                    } else if w == "align" || w == "cc" {
                        self.adv();
                    }
                }
                Tok::Str(_) => {
                    self.adv();
                    if self.eat(b'=') {
                        self.adv();
                    }
                }
                Tok::Attr => {
                    self.adv();
                }
                _ => return,
            }
        }
    }
    fn reg(&mut self, n: &'static str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(Self::zero).collect())),
            Ty::Array(n, t) | Ty::Vector(n, t) => Val::A(Rc::new((0..*n).map(|_| Self::zero(t)).collect())),
            _ => Val::C(0),
        }
    }
    fn opd(&mut self, ty: &Ty) -> Opd {
        self.skip_attrs();
        if let Tok::Local(n) = self.cur {
            self.adv();
            return Opd::R(self.reg(n));
        }
        Opd::K(self.cval(ty))
    }
    fn tyopd(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        if t == Ty::Other {
            // metadata operand
            let mut d = 0;
            loop {
                match self.cur {
                    Tok::P(b'(') | Tok::P(b'{') => d += 1,
                    Tok::P(b')') | Tok::P(b'}') => {
                        if d == 0 {
                            break;
                        }
                        d -= 1
                    }
                    Tok::P(b',') if d == 0 => break,
                    Tok::End => break,
                    _ => {}
                }
                self.adv();
            }
            return (t, Opd::K(Val::C(0)));
        }
        let o = self.opd(&t);
        (t, o)
    }
    fn cval(&mut self, ty: &Ty) -> Val {
        match self.adv() {
            Tok::Global(n) => Val::C(*self.m.sym.get(n).unwrap_or_else(|| panic!("unknown symbol @{n}")) as u128),
            Tok::CStr(x) => Val::A(Rc::new(unescape(x).into_iter().map(|b| Val::C(b as u128)).collect())),
            Tok::P(b'{') => self.agg(b'}'),
            Tok::P(b'[') => self.agg(b']'),
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let v = self.agg(b'}');
                    self.expect(b'>');
                    v
                } else {
                    self.agg(b'>')
                }
            }
            Tok::Word(w) => match w {
                "true" => Val::C(1),
                "false" | "null" | "none" => Val::C(0),
                "undef" | "poison" | "zeroinitializer" => Self::zero(ty),
                "splat" => {
                    self.expect(b'(');
                    let t = self.ty();
                    let v = self.cval(&t);
                    self.expect(b')');
                    if let Ty::Vector(n, _) = ty {
                        Val::A(Rc::new(vec![v; *n as usize]))
                    } else {
                        v
                    }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    self.expect(b'(');
                    let t = self.ty();
                    let v = self.cval(&t);
                    self.eatw("to");
                    let t2 = self.ty();
                    self.expect(b')');
                    match v {
                        Val::C(c) => Val::C(c & mask(t2.bits().max(1))),
                        v => v,
                    }
                }
                "add" | "sub" => {
                    while !self.is(b'(') {
                        self.adv();
                    }
                    self.expect(b'(');
                    let t = self.ty();
                    let a = self.cval(&t);
                    self.expect(b',');
                    let t = self.ty();
                    let b = self.cval(&t);
                    self.expect(b')');
                    match (a, b) {
                        (Val::C(a), Val::C(b)) => {
                            Val::C((if w == "add" { a.wrapping_add(b) } else { a.wrapping_sub(b) }) & mask(t.bits()))
                        }
                        _ => panic!("const add"),
                    }
                }
                "getelementptr" => {
                    while !self.is(b'(') {
                        self.adv();
                        if self.cur == Tok::Word("inrange") {
                            self.adv();
                            self.skip_parens();
                        }
                    }
                    self.expect(b'(');
                    let t = self.ty();
                    self.expect(b',');
                    let _ = self.ty();
                    let base = match self.cval(&Ty::Ptr) {
                        Val::C(c) => c as u64,
                        _ => panic!(),
                    };
                    let mut off = 0u64;
                    let mut cur = t.clone();
                    let mut first = true;
                    while self.eat(b',') {
                        self.eatw("inrange");
                        let it = self.ty();
                        let v = match self.cval(&it) {
                            Val::C(c) => crate::expr::sext128(c, it.bits()) as i64 as u64,
                            _ => panic!(),
                        };
                        if first {
                            off = off.wrapping_add(v.wrapping_mul(cur.size()));
                            first = false;
                        } else {
                            let (o, nt) = match &cur {
                                Ty::Array(_, e) => (v.wrapping_mul(e.size()), (**e).clone()),
                                _ => {
                                    let (o, t) = cur.field_off(v);
                                    (o, t.clone())
                                }
                            };
                            off = off.wrapping_add(o);
                            cur = nt;
                        }
                    }
                    self.expect(b')');
                    Val::C(base.wrapping_add(off) as u128)
                }
                _ => match ty {
                    Ty::Double | Ty::Float => {
                        let bits = if let Some(h) = w.strip_prefix("0x") {
                            let v = u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("fp const {w}"));
                            f64::from_bits(v)
                        } else {
                            w.parse::<f64>().unwrap_or_else(|_| panic!("fp const {w} near {}", self.ctx()))
                        };
                        if *ty == Ty::Double {
                            Val::C(bits.to_bits() as u128)
                        } else {
                            Val::C((bits as f32).to_bits() as u128)
                        }
                    }
                    _ => {
                        let v = if w.starts_with('-') {
                            w.parse::<i128>().map(|x| x as u128)
                        } else {
                            w.parse::<u128>()
                        }
                        .unwrap_or_else(|_| panic!("int const {w} near {:?}", self.ctx()));
                        Val::C(v & mask(ty.bits().max(1)))
                    }
                },
            },
            t => panic!("const {:?} near {:?}", t, self.ctx()),
        }
    }
    fn agg(&mut self, close: u8) -> Val {
        let mut v = vec![];
        while !self.is(close) {
            let t = self.ty();
            v.push(self.cval(&t));
            self.eat(b',');
        }
        self.adv();
        Val::A(Rc::new(v))
    }
    fn label(&mut self) -> u32 {
        self.eatw("label");
        match self.adv() {
            Tok::Local(n) => {
                let l = self.blocks.len() as u32;
                *self.blocks.entry(n).or_insert(l)
            }
            t => panic!("label {:?} near {:?}", t, self.ctx()),
        }
    }

    fn func(&mut self, name: &'static str, idx: u32) -> Func {
        // at: define ... @name(params) ... {
        loop {
            if let Tok::Global(_) = self.cur {
                break;
            }
            if self.is(b'(') {
                self.skip_parens();
                continue;
            }
            self.adv();
        }
        self.adv();
        self.expect(b'(');
        let mut params = vec![];
        let mut ptys = vec![];
        let mut unnamed = 0;
        while !self.is(b')') {
            if self.is(b'.') {
                self.adv();
                continue;
            }
            if self.word() == Some("...") {
                self.adv();
                continue;
            }
            let t = self.ty();
            self.skip_attrs();
            let r = match self.cur {
                Tok::Local(n) => {
                    unnamed += n.bytes().all(|c| c.is_ascii_digit()) as usize;
                    self.adv();
                    self.reg(n)
                }
                _ => {
                    unnamed += 1;
                    // unnamed parameter: numbered implicitly
                    let n: &'static str = Box::leak(format!("{}", params.len()).into_boxed_str());
                    self.reg(n)
                }
            };
            params.push(r);
            ptys.push(t);
            self.eat(b',');
        }
        self.adv();
        while !self.is(b'{') {
            self.adv();
        }
        self.adv();
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut curb: Option<(u32, Block)> = None;
        let mut order_first = true;
        loop {
            if self.is(b'}') || self.cur == Tok::End {
                break;
            }
            // label? word followed by ':'
            let is_label = match &self.cur {
                Tok::Word(_) | Tok::Str(_) => self.lx.t.get(self.lx.i) == Some(&b':'),
                _ => false,
            };
            if is_label {
                let n = match self.adv() {
                    Tok::Word(w) | Tok::Str(w) => w,
                    _ => unreachable!(),
                };
                self.expect(b':');
                if let Some((i, b)) = curb.take() {
                    put(&mut blocks, i, b);
                }
                let l = self.blocks.len() as u32;
                let id = *self.blocks.entry(n).or_insert(l);
                if order_first {
                    assert_eq!(id, 0, "entry block");
                    order_first = false;
                }
                curb = Some((id, Block { phis: vec![], ins: vec![], name: n.to_string() }));
                continue;
            }
            if curb.is_none() {
                // unnamed entry block
                self.blocks.insert(Box::leak(unnamed.to_string().into_boxed_str()), 0);
                order_first = false;
                curb = Some((0, Block { phis: vec![], ins: vec![], name: "entry".into() }));
            }
            self.ins(&mut curb.as_mut().unwrap().1);
            self.skip_line();
        }
        if let Some((i, b)) = curb.take() {
            put(&mut blocks, i, b);
        }
        let n = self.blocks.len();
        while blocks.len() < n {
            blocks.push(None);
        }
        let blocks: Vec<Block> = blocks
            .into_iter()
            .map(|b| b.unwrap_or(Block { phis: vec![], ins: vec![Ins::Unreachable], name: "?".into() }))
            .collect();
        let nb = blocks.len();
        Func { name, params, ptys, nregs: self.regs.len() as u32, blocks, idx, entered: std::cell::RefCell::new(vec![false; nb]) }
    }

    fn ins(&mut self, b: &mut Block) {
        let start = self.lx.i;
        let d = if let Tok::Local(n) = self.cur {
            self.adv();
            self.expect(b'=');
            Some(self.reg(n))
        } else {
            None
        };
        let mut op = match self.adv() {
            Tok::Word(w) => w,
            t => panic!("ins {:?} near {:?}", t, self.ctx()),
        };
        if matches!(op, "tail" | "musttail" | "notail") {
            op = match self.adv() {
                Tok::Word(w) => w,
                _ => panic!(),
            };
        }
        let dd = d.unwrap_or(u32::MAX);
        let bop = match op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            _ => None,
        };
        if let Some(bop) = bop {
            self.skip_attrs();
            let t = self.ty();
            let a = self.opd(&t);
            self.expect(b',');
            let bb = self.opd(&t);
            let (w, vec) = match &t {
                Ty::Vector(_, e) => (e.bits(), true),
                t => (t.bits(), false),
            };
            if t == Ty::Float {
                b.ins.push(Ins::Unsupported("float".into()));
                return;
            }
            b.ins.push(Ins::Bin { op: bop, w, vec, d: dd, a, b: bb });
            return;
        }
        let i = match op {
            "br" => {
                if self.word() == Some("label") {
                    Ins::Br(self.label())
                } else {
                    let (_, c) = self.tyopd();
                    self.expect(b',');
                    let t = self.label();
                    self.expect(b',');
                    let f = self.label();
                    Ins::CondBr(c, t, f)
                }
            }
            "switch" => {
                let (t, v) = self.tyopd();
                self.expect(b',');
                let default = self.label();
                self.expect(b'[');
                let mut cases = vec![];
                while !self.is(b']') {
                    let t = self.ty();
                    let c = match self.cval(&t) {
                        Val::C(c) => c,
                        _ => panic!(),
                    };
                    self.expect(b',');
                    cases.push((c, self.label()));
                }
                self.adv();
                Ins::Switch { v, w: t.bits(), default, cases }
            }
            "ret" => {
                let t = self.ty();
                if t == Ty::Void {
                    Ins::Ret(None)
                } else {
                    Ins::Ret(Some(self.opd(&t)))
                }
            }
            "unreachable" => Ins::Unreachable,
            "icmp" => {
                self.eatw("samesign");
                let p = match self.adv() {
                    Tok::Word(w) => match w {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => panic!("icmp {w}"),
                    },
                    _ => panic!(),
                };
                let t = self.ty();
                let a = self.opd(&t);
                self.expect(b',');
                let bb = self.opd(&t);
                let (w, vec) = match &t {
                    Ty::Vector(_, e) => (e.bits(), true),
                    t => (t.bits(), false),
                };
                Ins::ICmp { p, w, vec, d: dd, a, b: bb }
            }
            "fcmp" => {
                let mut p = String::new();
                while !self.is_type_start() {
                    if let Tok::Word(w) = self.adv() {
                        p = w.to_string();
                    }
                }
                let t = self.ty();
                let a = self.opd(&t);
                self.expect(b',');
                let bb = self.opd(&t);
                if t != Ty::Double {
                    Ins::Unsupported("fcmp".into())
                } else {
                    Ins::FCmp { p, d: dd, a, b: bb }
                }
            }
            "alloca" => {
                self.skip_attrs();
                let t = self.ty();
                let mut n = None;
                if self.eat(b',') {
                    if self.is_type_start() {
                        let (_, o) = self.tyopd();
                        n = Some(o);
                    }
                }
                Ins::Alloca { d: dd, size: t.size(), n }
            }
            "load" => {
                self.skip_attrs();
                let ty = self.ty();
                self.expect(b',');
                let (_, p) = self.tyopd();
                Ins::Load { d: dd, ty, p }
            }
            "store" => {
                self.skip_attrs();
                let (ty, v) = self.tyopd();
                self.expect(b',');
                let (_, p) = self.tyopd();
                Ins::Store { ty, v, p }
            }
            "fence" => Ins::Nop,
            "getelementptr" => {
                self.skip_attrs();
                let t = self.ty();
                self.expect(b',');
                let (_, base) = self.tyopd();
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                while self.eat(b',') {
                    if matches!(self.cur, Tok::Meta) {
                        break;
                    }
                    let (it, o) = self.tyopd();
                    let (stride, nt) = if first {
                        (cur.size(), cur.clone())
                    } else {
                        match (&cur, &o) {
                            (Ty::Array(_, e), _) => (e.size(), (**e).clone()),
                            (Ty::Struct(..), Opd::K(Val::C(c))) => {
                                let (fo, t) = cur.field_off(*c as u64);
                                let t = t.clone();
                                off = off.wrapping_add(fo);
                                cur = t;
                                continue;
                            }
                            _ => panic!("gep"),
                        }
                    };
                    first = false;
                    match &o {
                        Opd::K(Val::C(c)) => {
                            let v = crate::expr::sext128(*c, it.bits()) as i64 as u64;
                            off = off.wrapping_add(v.wrapping_mul(stride));
                        }
                        _ => idx.push((o, it.bits(), stride)),
                    }
                    cur = nt;
                }
                Ins::Gep { d: dd, base, off, idx }
            }
            "phi" => {
                self.skip_attrs();
                let t = self.ty();
                let mut v = vec![];
                loop {
                    self.expect(b'[');
                    let o = self.opd(&t);
                    self.expect(b',');
                    let l = self.label();
                    self.expect(b']');
                    v.push((l, o));
                    if self.nl || !self.eat(b',') || matches!(self.cur, Tok::Meta) {
                        break;
                    }
                }
                b.phis.push((dd, v));
                return;
            }
            "select" => {
                self.skip_attrs();
                let (ct, c) = self.tyopd();
                self.expect(b',');
                let (ty, a) = self.tyopd();
                self.expect(b',');
                let (_, bb) = self.tyopd();
                Ins::Select { d: dd, c, a, b: bb, ty, vec: matches!(ct, Ty::Vector(..)) }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "ptrtoaddr" => {
                self.skip_attrs();
                let (from, a) = self.tyopd();
                self.eatw("to");
                let to = self.ty();
                let k = match op {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "uitofp" => Cast::UiToF,
                    "sitofp" => Cast::SiToF,
                    "fptoui" => Cast::FToUi,
                    "fptosi" => Cast::FToSi,
                    _ => Cast::Copy,
                };
                let k = if k == Cast::Copy && from.bits() > to.bits() {
                    Cast::Trunc
                } else if k == Cast::Copy && from.bits() < to.bits() {
                    Cast::ZExt
                } else {
                    k
                };
                Ins::Cast { k, d: dd, from, to, a }
            }
            "freeze" => {
                let (t, a) = self.tyopd();
                Ins::Cast { k: Cast::Copy, d: dd, from: t.clone(), to: t, a }
            }
            "call" | "invoke" => {
                self.skip_attrs();
                let ret = self.ty();
                if self.is(b'(') {
                    self.skip_parens();
                }
                self.skip_attrs();
                if self.word() == Some("asm") {
                    // inline asm: only side-effect barriers without results are accepted
                    self.skip_line();
                    if ret == Ty::Void {
                        b.ins.push(Ins::Nop);
                    } else {
                        b.ins.push(Ins::Unsupported("inline asm".into()));
                    }
                    return;
                }
                let callee = self.opd(&Ty::Ptr);
                self.expect(b'(');
                let mut args = vec![];
                let mut tys = vec![];
                while !self.is(b')') {
                    let (t, o) = self.tyopd();
                    args.push(o);
                    tys.push(t);
                    self.eat(b',');
                }
                self.adv();
                let mut normal = None;
                if op == "invoke" {
                    while self.word() != Some("to") {
                        if self.is(b'[') {
                            while !self.is(b']') {
                                self.adv();
                            }
                        }
                        self.adv();
                    }
                    self.adv();
                    normal = Some(self.label());
                    self.eatw("unwind");
                    let _ = self.label();
                }
                Ins::Call { d, callee, args, tys: Rc::new(tys), ret, normal }
            }
            "extractvalue" => {
                let (_, a) = self.tyopd();
                let mut idx = vec![];
                while self.eat(b',') {
                    if matches!(self.cur, Tok::Meta) {
                        break;
                    }
                    idx.push(self.num() as u32);
                }
                Ins::ExtractValue { d: dd, a, idx }
            }
            "insertvalue" => {
                let (_, a) = self.tyopd();
                self.expect(b',');
                let (_, v) = self.tyopd();
                let mut idx = vec![];
                while self.eat(b',') {
                    if matches!(self.cur, Tok::Meta) {
                        break;
                    }
                    idx.push(self.num() as u32);
                }
                Ins::InsertValue { d: dd, a, v, idx }
            }
            "extractelement" => {
                let (_, a) = self.tyopd();
                self.expect(b',');
                let (_, i) = self.tyopd();
                Ins::ExtractElt { d: dd, a, i }
            }
            "insertelement" => {
                let (_, a) = self.tyopd();
                self.expect(b',');
                let (_, v) = self.tyopd();
                self.expect(b',');
                let (_, i) = self.tyopd();
                Ins::InsertElt { d: dd, a, v, i }
            }
            "shufflevector" => {
                let (t, a) = self.tyopd();
                self.expect(b',');
                let (_, bb) = self.tyopd();
                self.expect(b',');
                let (_, m) = self.tyopd();
                let m = match m {
                    Opd::K(Val::A(v)) => v
                        .iter()
                        .map(|x| match x {
                            Val::C(c) => *c as i64,
                            _ => -1,
                        })
                        .collect(),
                    _ => panic!("shuffle mask"),
                };
                let n = match t {
                    Ty::Vector(n, _) => n,
                    _ => panic!(),
                };
                Ins::Shuffle { d: dd, a, b: bb, m, n }
            }
            "atomicrmw" => {
                self.eatw("volatile");
                let o = match self.adv() {
                    Tok::Word(w) => w.to_string(),
                    _ => panic!(),
                };
                let (_, p) = self.tyopd();
                self.expect(b',');
                let (t, v) = self.tyopd();
                Ins::Rmw { d: dd, op: o, w: t.bits(), p, v }
            }
            "cmpxchg" => {
                self.eatw("weak");
                self.eatw("volatile");
                let (_, p) = self.tyopd();
                self.expect(b',');
                let (t, c) = self.tyopd();
                self.expect(b',');
                let (_, n) = self.tyopd();
                Ins::CmpXchg { d: dd, w: t.bits(), p, c, n }
            }
            "landingpad" => {
                self.skip_line();
                Ins::Unsupported("landingpad".into())
            }
            "cleanup" | "catch" | "filter" => Ins::Nop,
            "fneg" => {
                self.skip_attrs();
                let (_, a) = self.tyopd();
                Ins::Bin { op: BinOp::Xor, w: 64, vec: false, d: dd, a, b: Opd::K(Val::C(1 << 63)) }
            }
            _ => {
                let e = (start + 100).min(self.lx.t.len());
                self.skip_line();
                Ins::Unsupported(format!("{op}: {}", String::from_utf8_lossy(&self.lx.t[start..e])))
            }
        };
        b.ins.push(i);
    }
}

fn put(v: &mut Vec<Option<Block>>, i: u32, b: Block) {
    while v.len() <= i as usize {
        v.push(None);
    }
    v[i as usize] = Some(b);
}

fn name_at(t: &'static str, i: usize) -> &'static str {
    // t[i] == '@' or '%'
    let b = t.as_bytes();
    if b[i + 1] == b'"' {
        let e = t[i + 2..].find('"').unwrap();
        &t[i + 2..i + 2 + e]
    } else {
        let mut j = i + 1;
        while j < b.len() && wordc(b[j]) {
            j += 1;
        }
        &t[i + 1..j]
    }
}

impl Module {
    pub fn load(text: &'static str) -> Module {
        let mut m = Module { fn_names: vec![], fns: vec![], globals: vec![], sym: HashMap::new(), types: HashMap::new() };
        let bytes = text.as_bytes();
        let mut i = 0;
        let mut aliases: Vec<(&'static str, &'static str)> = vec![];
        while i < bytes.len() {
            let e = text[i..].find('\n').map(|x| i + x).unwrap_or(bytes.len());
            let line = &text[i..e];
            if line.starts_with("define ") {
                let at = i + line.find('@').unwrap();
                let name = name_at(text, at);
                let end = text[e..].find("\n}").map(|x| e + x + 2).unwrap();
                let id = m.fns.len() as u64;
                m.fns.push(FnSlot::Text(&text[i..end]));
                m.fn_names.push(name);
                m.sym.insert(name, obj_addr(TAG_FN, id));
                i = end;
                continue;
            } else if line.starts_with("declare ") {
                let at = i + line.find('@').unwrap();
                let name = name_at(text, at);
                let id = m.fns.len() as u64;
                m.fns.push(FnSlot::Decl);
                m.fn_names.push(name);
                m.sym.insert(name, obj_addr(TAG_FN, id));
            } else if line.starts_with('@') {
                let name = name_at(text, i);
                let rest = &text[i..e];
                if let Some(p) = rest.find(" alias ") {
                    let tgt = rest[p..].rfind('@').map(|x| name_at(text, i + p + x)).unwrap_or("");
                    aliases.push((name, tgt));
                } else {
                    let id = m.globals.len() as u64;
                    let eqp = rest.find(" = ").unwrap();
                    let hdr = &rest[eqp + 3..];
                    let cp = hdr.find("constant ");
                    let gp = hdr.find("global ");
                    let constant = match (cp, gp) {
                        (Some(a), Some(b)) => a < b,
                        (Some(_), None) => true,
                        _ => false,
                    };
                    m.globals.push(Global { name, text: &text[i..e], constant, obj: None });
                    m.sym.insert(name, obj_addr(TAG_GLOB, id));
                }
            } else if line.starts_with('%') && line.contains(" = type ") {
                let name = name_at(text, i);
                let p = line.find(" = type ").unwrap();
                m.types.insert(name, &text[i + p + 8..e]);
            }
            i = e + 1;
        }
        for (a, t) in aliases {
            if let Some(x) = m.sym.get(t).copied() {
                m.sym.insert(a, x);
            }
        }
        m
    }

    pub fn func(&mut self, id: u32) -> Option<&'static Func> {
        match &self.fns[id as usize] {
            FnSlot::Decl => None,
            FnSlot::Parsed(f) => Some(f),
            FnSlot::Text(t) => {
                let t: &'static str = t;
                let name = self.fn_names[id as usize];
                let f = P::new(self, t).func(name, id);
                let f: &'static Func = Box::leak(Box::new(f));
                self.fns[id as usize] = FnSlot::Parsed(f);
                Some(f)
            }
        }
    }

    pub fn global_init(&self, id: u32) -> (Ty, Init) {
        let t = self.globals[id as usize].text;
        let mut p = P::new(self, t);
        p.adv(); // @name
        p.expect(b'=');
        let mut ext = false;
        loop {
            match p.word() {
                Some("constant") | Some("global") => {
                    p.adv();
                    break;
                }
                Some("external") | Some("extern_weak") => {
                    ext = true;
                    p.adv();
                }
                _ => {
                    if p.is(b'(') {
                        p.skip_parens();
                    } else {
                        p.adv();
                    }
                }
            }
        }
        let ty = p.ty();
        if ext {
            return (ty, Init::Extern);
        }
        if p.word() == Some("zeroinitializer") {
            return (ty, Init::Zero);
        }
        if let Tok::CStr(c) = p.cur {
            return (ty, Init::Bytes(unescape(c)));
        }
        let v = p.cval(&ty);
        (ty.clone(), Init::Val(ty, v))
    }
}
