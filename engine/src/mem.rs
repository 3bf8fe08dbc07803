//! Symbolic memory: objects addressed by (object id << 24 | offset), copy-on-write between states.
use crate::expr::{self, E, V};
use crate::ir::Ty;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const OFFB: u32 = 24;
pub const MAXT: usize = 8;
pub type Vc = [u16; MAXT];

/// race shadow of one byte
#[derive(Clone, Copy, Default)]
pub struct Sh {
    pub wt: u8,
    pub wc: u16,
    pub r: Vc,
    pub aw: Vc,
    pub ar: Vc,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u32,
    pub ro: bool,
    pub tls: bool,
    pub data: Vec<u8>,
    pub sym: Option<Box<BTreeMap<u32, E>>>,
    pub sh: Option<Box<Vec<Sh>>>,
    pub hash: Cell<u64>,
}

impl Obj {
    pub fn new(size: u64) -> Obj {
        Obj { size: size as u32, ro: false, tls: false, data: vec![0; size as usize], sym: None, sh: None, hash: Cell::new(0) }
    }
    pub fn get_hash(&self) -> u64 {
        let h = self.hash.get();
        if h != 0 {
            return h;
        }
        let mut h = 0x9E3779B97F4A7C15u64 ^ self.size as u64;
        for c in self.data.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            h = mix(h, u64::from_le_bytes(b));
        }
        if let Some(s) = &self.sym {
            for (k, e) in s.iter() {
                h = mix(h, (*k as u64) << 32 | *e as u64);
            }
        }
        let h = if h == 0 { 1 } else { h };
        self.hash.set(h);
        h
    }
}
pub fn mix(h: u64, v: u64) -> u64 {
    let x = (h ^ v).wrapping_mul(0xff51afd7ed558ccd);
    (x ^ (x >> 32)).wrapping_mul(0xc4ceb9fe1a85ec53).rotate_left(23)
}

pub type Slots = Vec<Option<Rc<Obj>>>;

#[derive(Clone, Default)]
pub struct Mem {
    pub regs: Vec<Rc<Slots>>,
    pub live: u32,
}

pub fn split(a: u64) -> (usize, usize, u32) {
    let id = a >> OFFB;
    ((id >> 18) as usize, (id & 0x3ffff) as usize, (a & 0xffffff) as u32)
}
pub fn join(region: usize, idx: usize) -> u64 {
    ((region as u64) << 18 | idx as u64) << OFFB
}

impl Mem {
    pub fn region(&mut self, r: usize) -> &mut Slots {
        while self.regs.len() <= r {
            self.regs.push(Rc::new(vec![None]));
        }
        Rc::make_mut(&mut self.regs[r])
    }
    pub fn alloc(&mut self, r: usize, o: Obj) -> u64 {
        let s = self.region(r);
        s.push(Some(Rc::new(o)));
        let i = s.len() - 1;
        assert!(i < 0x3ffff, "too many objects");
        join(r, i)
    }
    pub fn get(&self, a: u64) -> Option<&Obj> {
        let (r, i, _) = split(a);
        self.regs.get(r)?.get(i)?.as_deref()
    }
    pub fn get_mut(&mut self, a: u64) -> Option<&mut Obj> {
        let (r, i, _) = split(a);
        let s = Rc::make_mut(self.regs.get_mut(r)?);
        let o = Rc::make_mut(s.get_mut(i)?.as_mut()?);
        o.hash.set(0);
        Some(o)
    }
}

/// read `n` bytes at offset as a scalar of width w
pub fn load_scalar(o: &Obj, off: u32, w: u32) -> V {
    let n = ((w + 7) / 8) as usize;
    let off_us = off as usize;
    if o.sym.is_none() || o.sym.as_ref().unwrap().range(off..off + n as u32).next().is_none() {
        let d = &o.data[off_us..off_us + n];
        let mut b = [0u8; 16];
        b[..n].copy_from_slice(d);
        if n <= 8 {
            let mut x = u64::from_le_bytes(b[..8].try_into().unwrap());
            if w < 64 {
                x &= (1u64 << w) - 1;
            }
            return V::I(x);
        }
        return V::W(Box::new(crate::ir::mask(u128::from_le_bytes(b), w)));
    }
    let s = o.sym.as_ref().unwrap();
    let mut e: Option<E> = None;
    for k in 0..n {
        let b = match s.get(&(off + k as u32)) {
            Some(e) => *e,
            None => expr::kon(o.data[off_us + k] as u128, 8),
        };
        e = Some(match e {
            None => b,
            Some(lo) => expr::concat(b, lo),
        });
    }
    let e = expr::extract(e.unwrap(), 0, w);
    vof(e)
}
pub fn vof(e: E) -> V {
    match expr::as_const(e) {
        Some(c) => {
            if expr::width(e) <= 64 {
                V::I(c as u64)
            } else {
                V::W(Box::new(c))
            }
        }
        None => V::S(e),
    }
}
pub fn eof(v: &V, w: u32) -> E {
    match v {
        V::I(x) => expr::kon(*x as u128, w),
        V::W(x) => expr::kon(**x, w),
        V::S(e) => *e,
        V::Agg(_) => panic!("aggregate used as scalar"),
    }
}
pub fn store_scalar(o: &mut Obj, off: u32, w: u32, v: &V) {
    let n = ((w + 7) / 8) as usize;
    let ou = off as usize;
    match v {
        V::I(x) => {
            let b = (*x as u128).to_le_bytes();
            o.data[ou..ou + n].copy_from_slice(&b[..n]);
            clear_sym(o, off, n as u32);
        }
        V::W(x) => {
            let b = x.to_le_bytes();
            o.data[ou..ou + n].copy_from_slice(&b[..n]);
            clear_sym(o, off, n as u32);
        }
        V::S(e) => {
            let e = expr::zext(*e, n as u32 * 8);
            let mut any = false;
            for k in 0..n {
                let b = expr::extract(e, k as u32 * 8, 8);
                if let Some(c) = expr::as_const(b) {
                    o.data[ou + k] = c as u8;
                    if let Some(s) = &mut o.sym {
                        s.remove(&(off + k as u32));
                    }
                } else {
                    any = true;
                    o.data[ou + k] = 0;
                    o.sym.get_or_insert_with(Default::default).insert(off + k as u32, b);
                }
            }
            if !any {
                drop_empty(o);
            }
        }
        V::Agg(_) => panic!("aggregate store"),
    }
}
fn drop_empty(o: &mut Obj) {
    if matches!(&o.sym, Some(s) if s.is_empty()) {
        o.sym = None;
    }
}
pub fn clear_sym(o: &mut Obj, off: u32, n: u32) {
    if let Some(s) = &mut o.sym {
        if n > 64 {
            let ks: Vec<u32> = s.range(off..off + n).map(|x| *x.0).collect();
            for k in ks {
                s.remove(&k);
            }
        } else {
            for k in off..off + n {
                s.remove(&k);
            }
        }
        drop_empty(o);
    }
}
pub fn load_ty(o: &Obj, off: u32, ty: &Ty) -> V {
    match ty {
        Ty::Vec(n, t) if matches!(**t, Ty::Int(w) if w % 8 != 0) => {
            // bit vector <n x i1>
            let w = t.width();
            let total = *n as u32 * w;
            let v = load_scalar(o, off, (total + 7) / 8 * 8);
            let e = eof(&v, (total + 7) / 8 * 8);
            V::Agg(Rc::new((0..*n as u32).map(|i| vof(expr::extract(e, i * w, w))).collect()))
        }
        t if t.is_agg() => {
            let n = t.nfields();
            let mut v = Vec::with_capacity(n);
            for i in 0..n {
                v.push(load_ty(o, off + t.field_off(i) as u32, &t.field(i)));
            }
            V::Agg(Rc::new(v))
        }
        t => load_scalar(o, off, t.width()),
    }
}
pub fn store_ty(o: &mut Obj, off: u32, ty: &Ty, v: &V) {
    if ty.is_agg() {
        if let V::Agg(a) = v {
            for (i, x) in a.iter().enumerate() {
                store_ty(o, off + ty.field_off(i) as u32, &ty.field(i), x);
            }
            return;
        }
        panic!("store of non-aggregate as aggregate");
    }
    store_scalar(o, off, ty.width(), v)
}
