//! Memory objects: concrete addresses, per-byte symbolic content.
use crate::expr::{self, E};
use crate::parse::{Ty, Val};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Obj {
    pub data: Vec<u8>,
    /// Empty, or one cell per byte: (expression, byte index); expression 0 = concrete.
    pub sym: Vec<(E, u8)>,
    pub ro: bool,
    /// of a symbolic size: only this much of it is modelled
    pub open: bool,
}

impl Obj {
    pub fn new(size: u64) -> Obj {
        Obj { data: vec![0; size as usize], sym: vec![], ro: false, open: false }
    }
    pub fn read_int(&self, off: usize, w: u16) -> Val {
        let n = ((w + 7) / 8) as usize;
        if self.sym.is_empty() {
            return Val::C(self.rd(off, n) & expr::mask(w));
        }
        let cells = &self.sym[off..off + n];
        if cells.iter().all(|c| c.0 == 0) {
            return Val::C(self.rd(off, n) & expr::mask(w));
        }
        // whole expression fast path
        let e0 = cells[0].0;
        if e0 != 0 && cells.iter().enumerate().all(|(i, c)| c.0 == e0 && c.1 as usize == cells[0].1 as usize + i) {
            let lo = cells[0].1 as u16 * 8;
            let we = expr::width(e0);
            let r = ext_byte_range(e0, lo, w, we);
            return mkval(r);
        }
        let mut acc: Option<E> = None;
        let mut i = 0;
        while i < n {
            let (e, b) = cells[i];
            let (piece, k) = if e == 0 {
                let mut k = 1;
                while i + k < n && cells[i + k].0 == 0 {
                    k += 1;
                }
                (expr::cst(self.rd(off + i, k), (k * 8) as u16), k)
            } else {
                let mut k = 1;
                while i + k < n && cells[i + k].0 == e && cells[i + k].1 as usize == b as usize + k {
                    k += 1;
                }
                (ext_byte_range(e, b as u16 * 8, (k * 8) as u16, expr::width(e)), k)
            };
            acc = Some(match acc {
                None => piece,
                Some(a) => expr::concat(piece, a),
            });
            i += k;
        }
        let e = acc.unwrap();
        let e = if expr::width(e) > w { expr::extract(e, w - 1, 0) } else { e };
        mkval(e)
    }
    fn rd(&self, off: usize, n: usize) -> u128 {
        let mut v = [0u8; 16];
        v[..n].copy_from_slice(&self.data[off..off + n]);
        u128::from_le_bytes(v)
    }
    pub fn write_int(&mut self, off: usize, w: u16, v: &Val) {
        let n = ((w + 7) / 8) as usize;
        match v {
            Val::C(c) => {
                let b = c.to_le_bytes();
                self.data[off..off + n].copy_from_slice(&b[..n]);
                if !self.sym.is_empty() {
                    for c in &mut self.sym[off..off + n] {
                        *c = (0, 0);
                    }
                }
            }
            Val::S(e) => {
                if self.sym.is_empty() {
                    self.sym = vec![(0, 0); self.data.len()];
                }
                let e = if expr::width(*e) < (n * 8) as u16 { expr::zext(*e, (n * 8) as u16) } else { *e };
                // keep concrete parts concrete
                for i in 0..n {
                    let piece = expr::extract(e, (i * 8 + 7) as u16, (i * 8) as u16);
                    if let Some(c) = expr::is_const(piece) {
                        self.data[off + i] = c as u8;
                        self.sym[off + i] = (0, 0);
                    } else {
                        self.sym[off + i] = (e, i as u8);
                    }
                }
            }
            Val::A(_) => panic!("write_int of aggregate"),
        }
    }
    pub fn read(&self, off: usize, ty: &Ty) -> Val {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float => self.read_int(off, ty.bits()),
            Ty::Struct(f, _) => {
                Val::A(Rc::new((0..f.len()).map(|i| {
                    let (o, t) = ty.field_off(i as u64);
                    self.read(off + o as usize, t)
                }).collect()))
            }
            Ty::Array(n, t) | Ty::Vector(n, t) => {
                assert!(t.bits() != 1, "vector of i1 in memory");
                Val::A(Rc::new((0..*n).map(|i| self.read(off + (i * t.size()) as usize, t)).collect()))
            }
            _ => panic!("read of {:?}", ty),
        }
    }
    pub fn write(&mut self, off: usize, ty: &Ty, v: &Val) {
        match (ty, v) {
            (Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float, v) => self.write_int(off, ty.bits(), v),
            (Ty::Struct(f, _), Val::A(vs)) => {
                for i in 0..f.len() {
                    let (o, t) = ty.field_off(i as u64);
                    self.write(off + o as usize, t, &vs[i]);
                }
            }
            (Ty::Array(n, t) | Ty::Vector(n, t), Val::A(vs)) => {
                assert!(t.bits() != 1, "vector of i1 in memory");
                for i in 0..*n {
                    self.write(off + (i * t.size()) as usize, t, &vs[i as usize]);
                }
            }
            _ => panic!("write of {:?} {:?}", ty, v),
        }
    }
    pub fn copy_from(&mut self, doff: usize, src: &Obj, soff: usize, n: usize) {
        self.data[doff..doff + n].copy_from_slice(&src.data[soff..soff + n]);
        if src.sym.is_empty() || src.sym[soff..soff + n].iter().all(|c| c.0 == 0) {
            if !self.sym.is_empty() {
                for c in &mut self.sym[doff..doff + n] {
                    *c = (0, 0);
                }
            }
        } else {
            if self.sym.is_empty() {
                self.sym = vec![(0, 0); self.data.len()];
            }
            self.sym[doff..doff + n].copy_from_slice(&src.sym[soff..soff + n]);
        }
    }
    pub fn move_within(&mut self, doff: usize, soff: usize, n: usize) {
        self.data.copy_within(soff..soff + n, doff);
        if !self.sym.is_empty() {
            self.sym.copy_within(soff..soff + n, doff);
        }
    }
    pub fn byte(&self, off: usize) -> Val {
        self.read_int(off, 8)
    }
}

fn ext_byte_range(e: E, lo: u16, w: u16, we: u16) -> E {
    if lo == 0 && w == we {
        e
    } else if lo + w <= we {
        expr::extract(e, lo + w - 1, lo)
    } else {
        // the expression is narrower than its last byte
        expr::zext(expr::extract(e, we - 1, lo), w)
    }
}

pub fn mkval(e: E) -> Val {
    match expr::is_const(e) {
        Some(c) => Val::C(c),
        None => Val::S(e),
    }
}
