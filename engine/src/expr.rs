//! Hash-consed bit-vector expressions with light simplification.
use crate::ir::{mask, sext, BinOp, Pred};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    S(E),
    Agg(Rc<Vec<V>>),
    W(Box<u128>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Const(u128),
    Var(u32),
    Bin(BinOpK, E, E),
    Cmp(Pred, E, E),
    Ite(E, E, E),
    Extract(u32, E), // lo, (width from node)
    Concat(E, E),    // hi, lo
    ZExt(E),
    SExt(E),
    Not(E), // width 1 only
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOpK {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
impl From<BinOp> for BinOpK {
    fn from(b: BinOp) -> Self {
        match b {
            BinOp::Add => BinOpK::Add,
            BinOp::Sub => BinOpK::Sub,
            BinOp::Mul => BinOpK::Mul,
            BinOp::UDiv => BinOpK::UDiv,
            BinOp::SDiv => BinOpK::SDiv,
            BinOp::URem => BinOpK::URem,
            BinOp::SRem => BinOpK::SRem,
            BinOp::Shl => BinOpK::Shl,
            BinOp::LShr => BinOpK::LShr,
            BinOp::AShr => BinOpK::AShr,
            BinOp::And => BinOpK::And,
            BinOp::Or => BinOpK::Or,
            BinOp::Xor => BinOpK::Xor,
        }
    }
}

#[derive(Clone, Copy)]
pub struct Node {
    pub k: K,
    pub w: u32,
    pub vars: u128,
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<(K, u32), E>,
}

thread_local! {
    pub static A: RefCell<Arena> = RefCell::new(Arena::default());
}

pub fn node(e: E) -> Node {
    A.with(|a| a.borrow().nodes[e as usize])
}
pub fn width(e: E) -> u32 {
    node(e).w
}
pub fn vars(e: E) -> u128 {
    node(e).vars
}
fn mk(k: K, w: u32) -> E {
    A.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(e) = a.map.get(&(k, w)) {
            return *e;
        }
        let vs = |a: &Arena, e: E| a.nodes[e as usize].vars;
        let vars = match k {
            K::Const(_) => 0,
            K::Var(i) => 1u128 << i.min(127),
            K::Bin(_, x, y) | K::Cmp(_, x, y) | K::Concat(x, y) => vs(&a, x) | vs(&a, y),
            K::Ite(x, y, z) => vs(&a, x) | vs(&a, y) | vs(&a, z),
            K::Extract(_, x) | K::ZExt(x) | K::SExt(x) | K::Not(x) => vs(&a, x),
        };
        let id = a.nodes.len() as E;
        a.nodes.push(Node { k, w, vars });
        a.map.insert((k, w), id);
        id
    })
}
pub fn kon(v: u128, w: u32) -> E {
    mk(K::Const(mask(v, w)), w)
}
pub fn var(i: u32, w: u32) -> E {
    mk(K::Var(i), w)
}
pub fn as_const(e: E) -> Option<u128> {
    match node(e).k {
        K::Const(c) => Some(c),
        _ => None,
    }
}

pub fn fold(op: BinOpK, a: u128, b: u128, w: u32) -> Option<u128> {
    let r = match op {
        BinOpK::Add => a.wrapping_add(b),
        BinOpK::Sub => a.wrapping_sub(b),
        BinOpK::Mul => a.wrapping_mul(b),
        BinOpK::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        BinOpK::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        BinOpK::SDiv => {
            if b == 0 {
                return None;
            }
            sext(a, w).wrapping_div(sext(b, w)) as u128
        }
        BinOpK::SRem => {
            if b == 0 {
                return None;
            }
            sext(a, w).wrapping_rem(sext(b, w)) as u128
        }
        BinOpK::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        BinOpK::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BinOpK::AShr => {
            let s = sext(a, w);
            (s >> b.min(127) as u32) as u128
        }
        BinOpK::And => a & b,
        BinOpK::Or => a | b,
        BinOpK::Xor => a ^ b,
    };
    Some(mask(r, w))
}
pub fn fold_cmp(p: Pred, a: u128, b: u128, w: u32) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sext(a, w) < sext(b, w),
        Pred::Sle => sext(a, w) <= sext(b, w),
        Pred::Sgt => sext(a, w) > sext(b, w),
        Pred::Sge => sext(a, w) >= sext(b, w),
    }
}

pub fn not(a: E) -> E {
    match node(a).k {
        K::Const(c) => kon(c ^ 1, 1),
        K::Not(x) => x,
        K::Cmp(p, x, y) => {
            let q = match p {
                Pred::Eq => Pred::Ne,
                Pred::Ne => Pred::Eq,
                Pred::Ult => return cmp(Pred::Ule, y, x),
                Pred::Ule => return cmp(Pred::Ult, y, x),
                Pred::Slt => return cmp(Pred::Sle, y, x),
                Pred::Sle => return cmp(Pred::Slt, y, x),
                _ => return mk(K::Not(a), 1),
            };
            cmp(q, x, y)
        }
        _ => mk(K::Not(a), 1),
    }
}

pub fn bin(op: BinOpK, a: E, b: E) -> E {
    let w = width(a);
    let (ca, cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        if let Some(r) = fold(op, x, y, w) {
            return kon(r, w);
        }
    }
    use BinOpK::*;
    // commutative: constant on the right, otherwise by id
    if matches!(op, Add | Mul | And | Or | Xor) && (ca.is_some() || (cb.is_none() && a > b)) {
        if !(ca.is_some() && cb.is_some()) && !(ca.is_none() && cb.is_none() && a < b) {
            return bin(op, b, a);
        }
    }
    let ones = mask(u128::MAX, w);
    if let Some(c) = cb {
        match op {
            Add | Sub | Or | Xor | Shl | LShr | AShr if c == 0 => return a,
            Mul | UDiv if c == 1 => return a,
            Mul | And if c == 0 => return kon(0, w),
            And if c == ones => return a,
            Or if c == ones => return kon(ones, w),
            Shl | LShr if c >= w as u128 => return kon(0, w),
            Xor if w == 1 && c == 1 => return not(a),
            Sub => return bin(Add, a, kon((!c).wrapping_add(1), w)),
            _ => {}
        }
        match (op, node(a).k) {
            (Add, K::Bin(Add, x, y)) => {
                if let Some(c2) = as_const(y) {
                    return bin(Add, x, kon(c.wrapping_add(c2), w));
                }
            }
            (And, K::ZExt(x)) => {
                let wx = width(x);
                let m = mask(c, wx);
                return zext(bin(And, x, kon(m, wx)), w);
            }
            (And, K::Bin(And, x, y)) => {
                if let Some(c2) = as_const(y) {
                    return bin(And, x, kon(c & c2, w));
                }
            }
            (LShr, K::ZExt(x)) => {
                let wx = width(x);
                if c >= wx as u128 {
                    return kon(0, w);
                }
                return zext(bin(LShr, x, kon(c, wx)), w);
            }
            (LShr, _) if w > 1 => {
                // x >> c == zext(extract(x, c..))
                let c = c as u32;
                return zext(extract(a, c, w - c), w);
            }
            (Shl, _) if w > 1 => {
                let c = c as u32;
                return concat(extract(a, 0, w - c), kon(0, c));
            }
            (And, _) if c & (c + 1) == 0 && c != 0 => {
                // low mask
                let n = 128 - c.leading_zeros();
                if n < w {
                    return zext(extract(a, 0, n), w);
                }
            }
            (Or | Xor | Add, K::ZExt(x)) if false => {
                let _ = x;
            }
            _ => {}
        }
    }
    if a == b {
        match op {
            Sub | Xor => return kon(0, w),
            And | Or => return a,
            _ => {}
        }
    }
    // or of disjoint concat pieces: zext(x) | (y ++ 0)
    if op == Or {
        let (na, nb) = (node(a).k, node(b).k);
        for (p, q) in [(na, nb), (nb, na)] {
            if let (K::ZExt(x), K::Concat(h, l)) = (p, q) {
                if as_const(l) == Some(0) && width(x) <= width(l) {
                    let lo = zext(x, width(l));
                    return concat(h, lo);
                }
            }
        }
    }
    if w == 1 {
        match op {
            And => {
                if a == not(b) {
                    return kon(0, 1);
                }
            }
            Or => {
                if a == not(b) {
                    return kon(1, 1);
                }
            }
            _ => {}
        }
    }
    mk(K::Bin(op, a, b), w)
}

pub fn cmp(p: Pred, a: E, b: E) -> E {
    let w = width(a);
    let (ca, cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return kon(fold_cmp(p, x, y, w) as u128, 1);
    }
    match p {
        Pred::Ugt => return cmp(Pred::Ult, b, a),
        Pred::Uge => return cmp(Pred::Ule, b, a),
        Pred::Sgt => return cmp(Pred::Slt, b, a),
        Pred::Sge => return cmp(Pred::Sle, b, a),
        _ => {}
    }
    if a == b {
        return kon(matches!(p, Pred::Eq | Pred::Ule | Pred::Sle) as u128, 1);
    }
    if matches!(p, Pred::Eq | Pred::Ne) {
        if ca.is_some() {
            return cmp(p, b, a);
        }
        if cb.is_none() && a > b {
            return cmp(p, b, a);
        }
        if w == 1 {
            let r = if let Some(c) = cb {
                if c == 1 {
                    a
                } else {
                    not(a)
                }
            } else {
                mk(K::Cmp(Pred::Eq, a, b), 1)
            };
            return if p == Pred::Eq { r } else { not2(r) };
        }
        if let Some(c) = cb {
            match node(a).k {
                K::ZExt(x) => {
                    let wx = width(x);
                    if c >> wx != 0 {
                        return kon((p == Pred::Ne) as u128, 1);
                    }
                    return cmp(p, x, kon(c, wx));
                }
                K::SExt(x) => {
                    let wx = width(x);
                    if mask(sext(mask(c, wx), wx) as u128, w) != c {
                        return kon((p == Pred::Ne) as u128, 1);
                    }
                    return cmp(p, x, kon(c, wx));
                }
                K::Ite(cd, x, y) => {
                    if let (Some(x), Some(y)) = (as_const(x), as_const(y)) {
                        let (ex, ey) = ((x == c) == (p == Pred::Eq), (y == c) == (p == Pred::Eq));
                        return match (ex, ey) {
                            (true, true) => kon(1, 1),
                            (false, false) => kon(0, 1),
                            (true, false) => cd,
                            (false, true) => not(cd),
                        };
                    } else if as_const(x).is_some() || as_const(y).is_some() {
                        let k = kon(c, w);
                        return ite(cd, cmp(p, x, k), cmp(p, y, k));
                    }
                }
                K::Concat(h, l) => {
                    let wl = width(l);
                    if let Some(ch) = as_const(h) {
                        if ch != c >> wl {
                            return kon((p == Pred::Ne) as u128, 1);
                        }
                        return cmp(p, l, kon(c, wl));
                    }
                    if let Some(cl) = as_const(l) {
                        if cl != mask(c, wl) {
                            return kon((p == Pred::Ne) as u128, 1);
                        }
                        return cmp(p, h, kon(c >> wl, width(h)));
                    }
                }
                K::Bin(BinOpK::Add, x, y) => {
                    if let Some(c2) = as_const(y) {
                        return cmp(p, x, kon(c.wrapping_sub(c2), w));
                    }
                }
                K::Bin(BinOpK::Xor, x, y) => {
                    if let Some(c2) = as_const(y) {
                        return cmp(p, x, kon(c ^ c2, w));
                    }
                    if c == 0 {
                        return cmp(p, x, y);
                    }
                }
                _ => {}
            }
        } else if let (K::ZExt(x), K::ZExt(y)) = (node(a).k, node(b).k) {
            if width(x) == width(y) {
                return cmp(p, x, y);
            }
        }
    }
    if matches!(p, Pred::Ult | Pred::Ule) {
        let ones = mask(u128::MAX, w);
        if let Some(c) = cb {
            if c == 0 {
                return if p == Pred::Ult { kon(0, 1) } else { cmp(Pred::Eq, a, b) };
            }
            if c == ones && p == Pred::Ule {
                return kon(1, 1);
            }
            if c == 1 && p == Pred::Ult {
                return cmp(Pred::Eq, a, kon(0, w));
            }
            if let K::ZExt(x) = node(a).k {
                let wx = width(x);
                if c >> wx != 0 {
                    return kon(1, 1);
                }
                return cmp(p, x, kon(c, wx));
            }
        }
        if let Some(c) = ca {
            if c == ones {
                return if p == Pred::Ult { kon(0, 1) } else { cmp(Pred::Eq, a, b) };
            }
            if c == 0 && p == Pred::Ule {
                return kon(1, 1);
            }
            if c == 0 && p == Pred::Ult {
                return cmp(Pred::Ne, b, a);
            }
            if let K::ZExt(x) = node(b).k {
                let wx = width(x);
                if c >> wx != 0 {
                    return kon(0, 1);
                }
                return cmp(p, kon(c, wx), x);
            }
        }
        if let (K::ZExt(x), K::ZExt(y)) = (node(a).k, node(b).k) {
            if width(x) == width(y) {
                return cmp(p, x, y);
            }
        }
        if w == 1 {
            // a<b  == !a & b
            return if p == Pred::Ult { bin(BinOpK::And, not(a), b) } else { bin(BinOpK::Or, not(a), b) };
        }
    }
    mk(K::Cmp(p, a, b), 1)
}
fn not2(a: E) -> E {
    if let K::Cmp(Pred::Eq, x, y) = node(a).k {
        if width(x) == 1 {
            let _ = (x, y);
            return match node(a).k {
                K::Not(x) => x,
                _ => mk(K::Not(a), 1),
            };
        }
    }
    not(a)
}

pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(k) = as_const(c) {
        return if k != 0 { a } else { b };
    }
    if a == b {
        return a;
    }
    if let K::Not(x) = node(c).k {
        return ite(x, b, a);
    }
    let w = width(a);
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(BinOpK::Or, c, b),
            (Some(0), None) => return bin(BinOpK::And, not(c), b),
            (None, Some(1)) => return bin(BinOpK::Or, not(c), a),
            (None, Some(0)) => return bin(BinOpK::And, c, a),
            _ => {}
        }
    }
    mk(K::Ite(c, a, b), w)
}
pub fn zext(a: E, w: u32) -> E {
    let wa = width(a);
    if wa == w {
        return a;
    }
    match node(a).k {
        K::Const(c) => kon(c, w),
        K::ZExt(x) => zext(x, w),
        _ => mk(K::ZExt(a), w),
    }
}
pub fn sext_e(a: E, w: u32) -> E {
    let wa = width(a);
    if wa == w {
        return a;
    }
    match node(a).k {
        K::Const(c) => kon(sext(c, wa) as u128, w),
        K::SExt(x) => sext_e(x, w),
        K::ZExt(_) => zext(a, w),
        _ => mk(K::SExt(a), w),
    }
}
pub fn extract(a: E, lo: u32, w: u32) -> E {
    let n = node(a);
    if lo == 0 && w == n.w {
        return a;
    }
    match n.k {
        K::Const(c) => return kon(c >> lo, w),
        K::Extract(l2, x) => return extract(x, lo + l2, w),
        K::ZExt(x) => {
            let wx = width(x);
            if lo >= wx {
                return kon(0, w);
            }
            if lo + w <= wx {
                return extract(x, lo, w);
            }
            return zext(extract(x, lo, wx - lo), w);
        }
        K::SExt(x) => {
            let wx = width(x);
            if lo + w <= wx {
                return extract(x, lo, w);
            }
            if lo == 0 {
                return sext_e(x, w);
            }
        }
        K::Concat(h, l) => {
            let wl = width(l);
            if lo + w <= wl {
                return extract(l, lo, w);
            }
            if lo >= wl {
                return extract(h, lo - wl, w);
            }
            return concat(extract(h, 0, lo + w - wl), extract(l, lo, wl - lo));
        }
        K::Ite(c, x, y) => {
            if as_const(x).is_some() || as_const(y).is_some() {
                return ite(c, extract(x, lo, w), extract(y, lo, w));
            }
        }
        K::Bin(op @ (BinOpK::And | BinOpK::Or | BinOpK::Xor), x, y) => {
            return bin(op, extract(x, lo, w), extract(y, lo, w));
        }
        K::Bin(op @ (BinOpK::Add | BinOpK::Sub | BinOpK::Mul), x, y) if lo == 0 => {
            return bin(op, extract(x, 0, w), extract(y, 0, w));
        }
        _ => {}
    }
    mk(K::Extract(lo, a), w)
}
pub fn concat(h: E, l: E) -> E {
    let (wh, wl) = (width(h), width(l));
    let w = wh + wl;
    match (node(h).k, node(l).k) {
        (K::Const(a), K::Const(b)) => return kon(a << wl | b, w),
        (K::Const(0), _) => return zext(l, w),
        (K::Extract(lh, x), K::Extract(ll, y)) if x == y && lh == ll + wl => return extract(x, ll, w),
        (K::Extract(lh, x), _) if x == l && lh == wl && lh + wh == width(x) && false => return x,
        (_, K::Concat(h2, l2)) => {
            // right-nested merge: (h ++ h2) ++ l2 when h ++ h2 simplifies
            let m = concat(h, h2);
            if !matches!(node(m).k, K::Concat(..)) {
                return concat(m, l2);
            }
        }
        (K::Concat(h1, l1), _) => {
            // canonical form: h1 ++ (l1 ++ l)
            return concat(h1, concat(l1, l));
        }
        _ => {}
    }
    // zext pieces: extract of var whose low part is whole
    if let K::Extract(lh, x) = node(h).k {
        if x == l && lh == 0 {
            // not adjacent
        }
        if lh == wl && extract(x, 0, wl) == l {
            return extract(x, 0, w);
        }
    }
    mk(K::Concat(h, l), w)
}

/// Evaluate under an assignment of the variables.
pub fn eval(e: E, asg: &[u128], memo: &mut HashMap<E, u128>) -> u128 {
    if let Some(v) = memo.get(&e) {
        return *v;
    }
    let n = node(e);
    let r = match n.k {
        K::Const(c) => c,
        K::Var(i) => mask(asg.get(i as usize).copied().unwrap_or(0), n.w),
        K::Bin(op, a, b) => {
            let (x, y) = (eval(a, asg, memo), eval(b, asg, memo));
            match fold(op, x, y, n.w) {
                Some(v) => v,
                None => match op {
                    BinOpK::UDiv => mask(u128::MAX, n.w),
                    BinOpK::URem | BinOpK::SRem => x,
                    _ => {
                        if sext(x, n.w) < 0 {
                            1
                        } else {
                            mask(u128::MAX, n.w)
                        }
                    }
                },
            }
        }
        K::Cmp(p, a, b) => {
            let w = width(a);
            fold_cmp(p, eval(a, asg, memo), eval(b, asg, memo), w) as u128
        }
        K::Ite(c, a, b) => {
            if eval(c, asg, memo) != 0 {
                eval(a, asg, memo)
            } else {
                eval(b, asg, memo)
            }
        }
        K::Extract(lo, a) => mask(eval(a, asg, memo) >> lo, n.w),
        K::Concat(h, l) => {
            let wl = width(l);
            eval(h, asg, memo) << wl | eval(l, asg, memo)
        }
        K::ZExt(a) => eval(a, asg, memo),
        K::SExt(a) => mask(sext(eval(a, asg, memo), width(a)) as u128, n.w),
        K::Not(a) => eval(a, asg, memo) ^ 1,
    };
    memo.insert(e, r);
    r
}

pub fn show(e: E) -> String {
    let n = node(e);
    match n.k {
        K::Const(c) => format!("{}", c),
        K::Var(i) => format!("v{}", i),
        K::Bin(op, a, b) => format!("({:?} {} {})", op, show(a), show(b)),
        K::Cmp(p, a, b) => format!("({:?} {} {})", p, show(a), show(b)),
        K::Ite(c, a, b) => format!("(ite {} {} {})", show(c), show(a), show(b)),
        K::Extract(lo, a) => format!("{}[{}+{}]", show(a), lo, n.w),
        K::Concat(a, b) => format!("({} ++ {})", show(a), show(b)),
        K::ZExt(a) => format!("(zext{} {})", n.w, show(a)),
        K::SExt(a) => format!("(sext{} {})", n.w, show(a)),
        K::Not(a) => format!("!{}", show(a)),
    }
}
