//! LLVM textual IR (as printed by the toolchain's llvm-dis): types, lexer, lazy parser.
use crate::expr::V;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Meta,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 1,
            Ty::Int(w) => match (*w + 7) / 8 {
                0..=1 => 1,
                2 => 2,
                3..=4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64 / 8).max(1).min(16),
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    /// allocation size (multiple of the alignment)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => {
                if *w == 80 {
                    16
                } else {
                    *w as u64 / 8
                }
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                if let Ty::Int(w) = **t {
                    ((n * w as u64) + 7) / 8
                } else {
                    n * t.size()
                }
            }
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
        }
    }
    /// bytes touched by a load or store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field_off on {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("field on {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))
    }
    /// width of a scalar in bits
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) | Ty::Float(w) => *w,
            Ty::Ptr => 64,
            _ => panic!("width of {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Null,
    Undef,
    Zero,
    Bytes(Rc<Vec<u8>>),
    Agg(Rc<Vec<(Ty, Const)>>),
    Global(Rc<str>),
    Gep(Ty, Box<(Ty, Const)>, Vec<(Ty, Const)>),
    Cast(String, Box<(Ty, Const)>, Ty),
    Bin(String, Box<(Ty, Const)>, Box<(Ty, Const)>),
    Splat(Box<(Ty, Const)>),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    V(V),
    K(Const),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ord {
    None,
    Unordered,
    Relaxed,
    Acquire,
    Release,
    AcqRel,
    SeqCst,
}
impl Ord {
    pub fn parse(s: &str) -> Option<Ord> {
        Some(match s {
            "unordered" => Ord::Unordered,
            "monotonic" => Ord::Relaxed,
            "acquire" => Ord::Acquire,
            "release" => Ord::Release,
            "acq_rel" => Ord::AcqRel,
            "seq_cst" => Ord::SeqCst,
            _ => return None,
        })
    }
    pub fn acq(self) -> bool {
        matches!(self, Ord::Acquire | Ord::AcqRel | Ord::SeqCst)
    }
    pub fn rel(self) -> bool {
        matches!(self, Ord::Release | Ord::AcqRel | Ord::SeqCst)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    Move,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(Rc<str>),
    Ptr(Op),
    Asm,
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub ret: Ty,
    pub callee: Callee,
    pub args: Vec<(Ty, Op)>,
    pub normal: u32, // invoke only
    pub tgt: std::cell::Cell<u32>,
    pub unwind: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca { dst: u32, ty: Ty, n: Op },
    Load { dst: u32, ty: Ty, ptr: Op, ord: Ord },
    Store { ty: Ty, val: Op, ptr: Op, ord: Ord },
    Gep { dst: u32, base: Op, off: i64, idx: Vec<(Op, u32, i64)> },
    Bin { dst: u32, op: BinOp, ty: Ty, a: Op, b: Op },
    Icmp { dst: u32, p: Pred, ty: Ty, a: Op, b: Op },
    Cast { dst: u32, k: Cast, from: Ty, to: Ty, a: Op },
    Select { dst: u32, cty: Ty, c: Op, ty: Ty, a: Op, b: Op },
    Extract { dst: u32, a: Op, aty: Ty, idx: Vec<u32> },
    Insert { dst: u32, a: Op, aty: Ty, v: Op, idx: Vec<u32> },
    ExtractEl { dst: u32, vty: Ty, a: Op, i: Op },
    InsertEl { dst: u32, vty: Ty, a: Op, v: Op, i: Op },
    Shuffle { dst: u32, vty: Ty, a: Op, b: Op, mask: Vec<i64> },
    Call(Rc<CallI>),
    Invoke(Rc<CallI>),
    Br { t: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { ty: Ty, v: Op, def: u32, cases: Rc<Vec<(u128, u32)>> },
    Ret { v: Option<(Ty, Op)> },
    Unreachable,
    Resume { v: Op },
    LandingPad { dst: u32 },
    Rmw { dst: u32, op: Rmw, ty: Ty, ptr: Op, v: Op, ord: Ord },
    CmpXchg { dst: u32, ty: Ty, ptr: Op, cmp: Op, new: Op, succ: Ord, fail: Ord, weak: bool },
    Fence { ord: Ord },
    Unsupported(String),
}

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: Ty,
    pub inc: Vec<(u32, Op)>, // (pred block, value)
}
#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub id: u32,
    pub nparams: u32,
    pub nregs: u32,
    pub ret: Ty,
    pub blocks: Vec<Block>,
}

pub struct GlobalDef {
    pub name: Rc<str>,
    pub ty: Ty,
    pub init: Option<Const>,
    pub constant: bool,
    pub tls: bool,
}

pub struct Module {
    pub text: String,
    pub globals: Vec<GlobalDef>,
    pub gmap: HashMap<Rc<str>, u32>,
    /// functions (defined or declared): name and text range (None when only declared)
    pub fnames: Vec<Rc<str>>,
    pub fmap: HashMap<Rc<str>, u32>,
    pub fbody: Vec<Option<(usize, usize)>>,
    pub parsed: RefCell<Vec<Option<Rc<Func>>>>,
    pub named: HashMap<String, Ty>,
    pub aliases: HashMap<Rc<str>, Rc<str>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(String),
    Global(String),
    Int(i128),
    Word(String),
    Str(Vec<u8>),
    P(char),
    Meta(String),
    Attr(String),
    FloatLit(String),
    Dots,
}

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                let h = u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap();
                v.push(h);
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let name;
                if b.get(i + 1) == Some(&b'"') {
                    let mut j = i + 2;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = String::from_utf8_lossy(&unescape(&b[i + 2..j])).into_owned();
                    i = j + 1;
                } else {
                    let mut j = i + 1;
                    while j < b.len() && idc(b[j]) {
                        j += 1;
                    }
                    name = s[i + 1..j].to_string();
                    i = j;
                }
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Str(unescape(&b[i + 1..j])));
                i = j + 1;
            }
            b'c' if b.get(i + 1) == Some(&b'"') => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Str(unescape(&b[i + 2..j])));
                i = j + 1;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && (idc(b[j])) {
                    j += 1;
                }
                out.push(Tok::Meta(s[i..j].to_string()));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                out.push(Tok::Attr(s[i..j].to_string()));
                i = j;
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(Tok::Dots);
                i += 3;
            }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || ((b[j] == b'+' || b[j] == b'-') && b[j - 1] == b'e')) {
                    j += 1;
                }
                let t = &s[i..j];
                if let Ok(v) = t.parse::<i128>() {
                    out.push(Tok::Int(v));
                } else if let Ok(v) = t.parse::<u128>() {
                    out.push(Tok::Int(v as i128));
                } else {
                    out.push(Tok::FloatLit(t.to_string()));
                }
                i = j;
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                out.push(Tok::Word(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

pub struct P<'a> {
    pub t: &'a [Tok],
    pub i: usize,
    pub named: &'a HashMap<String, Ty>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or_else(|| "eol".to_string())?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(d)) if *d == c)
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(d)) if d == w)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?}", c, self.peek()))
        }
    }
    fn exp_w(&mut self, c: &str) -> R<()> {
        if self.eat_w(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?}", c, self.peek()))
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        // at '('
        let mut d = 0;
        loop {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return Ok(());
                    }
                }
                _ => {}
            }
        }
    }
    fn type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => {
                matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "label" | "metadata" | "bfloat" | "token")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::Local(n)) => self.named.contains_key(n),
            _ => false,
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.is_w("addrspace") {
                        self.i += 1;
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" | "bfloat" => Ty::Float(16),
                "fp128" => Ty::Float(128),
                "x86_fp80" => Ty::Float(80),
                "label" => Ty::Label,
                "metadata" | "token" => Ty::Meta,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?),
                _ => return Err(format!("type {}", w)),
            },
            Tok::P('[') => {
                let n = self.int()? as u64;
                self.exp_w("x")?;
                let t = self.ty()?;
                self.exp_p(']')?;
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('{') => {
                let mut f = vec![];
                if !self.eat_p('}') {
                    loop {
                        f.push(self.ty()?);
                        if self.eat_p('}') {
                            break;
                        }
                        self.exp_p(',')?;
                    }
                }
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let mut f = vec![];
                    if !self.eat_p('}') {
                        loop {
                            f.push(self.ty()?);
                            if self.eat_p('}') {
                                break;
                            }
                            self.exp_p(',')?;
                        }
                    }
                    self.exp_p('>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.int()? as u64;
                    self.exp_w("x")?;
                    let t = self.ty()?;
                    self.exp_p('>')?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::Local(n) => self.named.get(&n).cloned().ok_or_else(|| format!("named type {}", n))?,
            t => return Err(format!("type: {:?}", t)),
        };
        Ok(t)
    }
    fn int(&mut self) -> R<i128> {
        match self.next()? {
            Tok::Int(i) => Ok(i),
            t => Err(format!("int: {:?}", t)),
        }
    }
    /// skip parameter / return attributes
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    if matches!(
                        w.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc"
                            | "add" | "sub" | "xor" | "splat" | "blockaddress" | "asm" | "dso_local_equivalent" | "no_cfi"
                    ) {
                        return Ok(());
                    }
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens()?;
                    } else if let Some(Tok::Int(_)) = self.peek() {
                        // align 8
                        if let Some(Tok::Word(w)) = self.t.get(self.i - 1) {
                            if w == "align" {
                                self.i += 1;
                            } else {
                                return Ok(());
                            }
                        }
                    }
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                Some(Tok::Attr(_)) => self.i += 1,
                _ => return Ok(()),
            }
        }
    }
    pub fn konst(&mut self, ty: &Ty) -> R<Const> {
        let t = self.next()?;
        Ok(match t {
            Tok::Int(i) => Const::Int(i as u128),
            Tok::Word(w) => match w.as_str() {
                "true" => Const::Int(1),
                "false" => Const::Int(0),
                "null" | "none" => Const::Null,
                "undef" | "poison" => Const::Undef,
                "zeroinitializer" => Const::Zero,
                "splat" => {
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let c = self.konst(&t)?;
                    self.exp_p(')')?;
                    Const::Splat(Box::new((t, c)))
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        self.i += 1;
                        if self.is_p('(') && matches!(self.t.get(self.i - 1), Some(Tok::Word(w)) if w == "inrange") {
                            self.skip_parens()?;
                        }
                    }
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    self.exp_p(',')?;
                    let bt = self.ty()?;
                    let b = self.konst(&bt)?;
                    let mut idx = vec![];
                    while self.eat_p(',') {
                        let it = self.ty()?;
                        let iv = self.konst(&it)?;
                        idx.push((it, iv));
                    }
                    self.exp_p(')')?;
                    Const::Gep(t, Box::new((bt, b)), idx)
                }
                "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" => {
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let c = self.konst(&t)?;
                    self.exp_w("to")?;
                    let to = self.ty()?;
                    self.exp_p(')')?;
                    Const::Cast(w, Box::new((t, c)), to)
                }
                "add" | "sub" | "xor" | "mul" => {
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let c = self.konst(&t)?;
                    self.exp_p(',')?;
                    let t2 = self.ty()?;
                    let c2 = self.konst(&t2)?;
                    self.exp_p(')')?;
                    Const::Bin(w, Box::new((t, c)), Box::new((t2, c2)))
                }
                _ => return Err(format!("const word {}", w)),
            },
            Tok::Str(b) => Const::Bytes(Rc::new(b)),
            Tok::Global(g) => Const::Global(g.into()),
            Tok::P('[') => self.list(']')?,
            Tok::P('{') => self.list('}')?,
            Tok::P('<') => {
                if self.eat_p('{') {
                    let l = self.list('}')?;
                    self.exp_p('>')?;
                    l
                } else {
                    self.list('>')?
                }
            }
            Tok::FloatLit(s) => {
                let w = if let Ty::Float(w) = ty { *w } else { 64 };
                let bits: u64 = if let Some(h) = s.strip_prefix("0x") {
                    match u64::from_str_radix(h, 16) {
                        Ok(v) => v,
                        Err(_) => return Ok(Const::Unsupported(s)),
                    }
                } else {
                    match s.parse::<f64>() {
                        Ok(v) => v.to_bits(),
                        Err(_) => return Ok(Const::Unsupported(s)),
                    }
                };
                if w == 32 {
                    Const::Int((f64::from_bits(bits) as f32).to_bits() as u128)
                } else {
                    Const::Int(bits as u128)
                }
            }
            t => return Err(format!("const {:?}", t)),
        })
    }
    fn list(&mut self, end: char) -> R<Const> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(Const::Agg(Rc::new(v)));
        }
        loop {
            let t = self.ty()?;
            let c = self.konst(&t)?;
            v.push((t, c));
            if self.eat_p(end) {
                break;
            }
            self.exp_p(',')?;
        }
        Ok(Const::Agg(Rc::new(v)))
    }
}

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn blk(&self, n: &str) -> R<u32> {
        self.blocks.get(n).copied().ok_or_else(|| format!("block {}", n))
    }
}

impl Module {
    pub fn parse(text: String) -> Result<Module, String> {
        let mut m = Module {
            text,
            globals: vec![],
            gmap: HashMap::new(),
            fnames: vec![],
            fmap: HashMap::new(),
            fbody: vec![],
            parsed: RefCell::new(vec![]),
            named: HashMap::new(),
            aliases: HashMap::new(),
        };
        let text = std::mem::take(&mut m.text);
        let mut pos = 0;
        let mut named_lines = vec![];
        let mut glob_lines = vec![];
        let n = text.len();
        while pos < n {
            let eol = text[pos..].find('\n').map(|e| pos + e).unwrap_or(n);
            let line = &text[pos..eol];
            if line.starts_with("define ") {
                let name = fn_name(line)?;
                let end = text[eol..].find("\n}").map(|e| eol + e + 1).ok_or("unterminated fn")?;
                let id = m.add_fn(&name);
                m.fbody[id as usize] = Some((pos, end));
                pos = end + 1;
                continue;
            } else if line.starts_with("declare ") {
                let name = fn_name(line)?;
                m.add_fn(&name);
            } else if line.starts_with('@') {
                glob_lines.push(line.to_string());
            } else if line.starts_with('%') && line.contains(" = type ") {
                named_lines.push(line.to_string());
            }
            pos = eol + 1;
        }
        // named types may refer to each other: iterate to a fixpoint
        for _ in 0..named_lines.len() + 1 {
            for l in &named_lines {
                let t = lex(l);
                if let Tok::Local(nm) = &t[0] {
                    let mut p = P { t: &t, i: 3, named: &m.named.clone() };
                    if p.is_w("opaque") {
                        m.named.insert(nm.clone(), Ty::Int(8));
                    } else if let Ok(ty) = p.ty() {
                        m.named.insert(nm.clone(), ty);
                    }
                }
            }
        }
        for l in &glob_lines {
            let t = lex(l);
            let name: Rc<str> = match &t[0] {
                Tok::Global(g) => g.as_str().into(),
                _ => return Err("global".into()),
            };
            let mut p = P { t: &t, i: 2, named: &m.named };
            let mut tls = false;
            let mut constant = false;
            let mut external = false;
            let mut alias = false;
            loop {
                match p.peek() {
                    Some(Tok::Word(w)) => match w.as_str() {
                        "thread_local" => {
                            tls = true;
                            p.i += 1;
                            if p.is_p('(') {
                                p.skip_parens()?;
                            }
                        }
                        "global" => {
                            p.i += 1;
                            break;
                        }
                        "constant" => {
                            constant = true;
                            p.i += 1;
                            break;
                        }
                        "alias" => {
                            alias = true;
                            p.i += 1;
                            break;
                        }
                        "external" | "extern_weak" => {
                            external = true;
                            p.i += 1;
                        }
                        "addrspace" => {
                            p.i += 1;
                            p.skip_parens()?;
                        }
                        _ => p.i += 1,
                    },
                    _ => return Err(format!("global line {}", l)),
                }
            }
            let ty = p.ty()?;
            if alias {
                p.exp_p(',')?;
                let at = p.ty()?;
                if let Const::Global(g) = p.konst(&at)? {
                    m.aliases.insert(name, g);
                }
                continue;
            }
            let init = if external { None } else { Some(p.konst(&ty).map_err(|e| format!("{}: {}", e, &l[..l.len().min(200)]))?) };
            let id = m.globals.len() as u32;
            m.gmap.insert(name.clone(), id);
            m.globals.push(GlobalDef { name, ty, init, constant, tls });
        }
        m.text = text;
        Ok(m)
    }
    fn add_fn(&mut self, name: &str) -> u32 {
        if let Some(i) = self.fmap.get(name) {
            return *i;
        }
        let n: Rc<str> = name.into();
        let id = self.fnames.len() as u32;
        self.fnames.push(n.clone());
        self.fmap.insert(n, id);
        self.fbody.push(None);
        self.parsed.borrow_mut().push(None);
        id
    }
    pub fn func(&self, id: u32) -> Result<Rc<Func>, String> {
        if let Some(f) = &self.parsed.borrow()[id as usize] {
            return Ok(f.clone());
        }
        let (s, e) = self.fbody[id as usize].ok_or_else(|| format!("undefined function {}", self.fnames[id as usize]))?;
        let f = Rc::new(self.parse_fn(id, &self.text[s..e]).map_err(|er| format!("in {}: {}", self.fnames[id as usize], er))?);
        self.parsed.borrow_mut()[id as usize] = Some(f.clone());
        Ok(f)
    }
    fn parse_fn(&self, id: u32, text: &str) -> R<Func> {
        let mut lines = text.lines();
        let head = lex(lines.next().unwrap());
        let mut cx = FnCtx { regs: HashMap::new(), blocks: HashMap::new() };
        // header
        let gi = head.iter().position(|t| matches!(t, Tok::Global(_))).ok_or("fn header")?;
        // return type: the type that ends right before gi: parse from the first type_start
        let mut p = P { t: &head, i: 1, named: &self.named };
        let ret;
        loop {
            if p.type_start() {
                ret = p.ty()?;
                break;
            }
            p.i += 1;
            if p.is_p('(') {
                p.skip_parens()?;
            }
            if p.i >= gi {
                return Err("no return type".into());
            }
        }
        p.i = gi + 1;
        p.exp_p('(')?;
        let mut nparams = 0;
        let mut unnamed = 0u32;
        if !p.eat_p(')') {
            loop {
                if let Some(Tok::Dots) = p.peek() {
                    p.i += 1;
                } else {
                    p.ty()?;
                    p.skip_attrs()?;
                    if let Tok::Local(n) = p.next()? {
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        cx.reg(&n);
                    }
                    nparams += 1;
                }
                if p.eat_p(')') {
                    break;
                }
                p.exp_p(',')?;
            }
        }
        // logical lines
        let mut logical: Vec<(bool, String)> = vec![]; // (is_label, text)
        for l in lines {
            if l.is_empty() || l == "}" || l.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let e = l.rfind(':').map(|_| {
                    if l.starts_with('"') {
                        let q = l[1..].find('"').unwrap() + 1;
                        String::from_utf8_lossy(&unescape(&l.as_bytes()[1..q])).into_owned()
                    } else {
                        l[..l.find(':').unwrap()].to_string()
                    }
                });
                logical.push((true, e.unwrap()));
            } else if l.starts_with("    ") || l.starts_with("  ]") {
                let last = logical.last_mut().unwrap();
                last.1.push(' ');
                last.1.push_str(l.trim());
            } else {
                logical.push((false, l[2..].to_string()));
            }
        }
        if !logical.first().map(|x| x.0).unwrap_or(false) {
            logical.insert(0, (true, unnamed.to_string()));
        }
        let mut nb = 0;
        for (is, n) in &logical {
            if *is {
                cx.blocks.insert(n.clone(), nb);
                nb += 1;
            }
        }
        let mut blocks: Vec<Block> = vec![];
        for (is, l) in &logical {
            if *is {
                blocks.push(Block::default());
            } else {
                let toks = lex(l);
                let b = blocks.last_mut().unwrap();
                match self.parse_inst(&toks, &mut cx) {
                    Ok(PI::I(i)) => b.insts.push(i),
                    Ok(PI::Phi(p)) => b.phis.push(p),
                    Ok(PI::Skip) => {}
                    Err(e) => {
                        // reserve the destination register
                        b.insts.push(Inst::Unsupported(format!("{}: {}", e, l)))
                    }
                }
            }
        }
        Ok(Func { name: self.fnames[id as usize].clone(), id, nparams, nregs: cx.regs.len() as u32, ret, blocks })
    }

    fn parse_inst(&self, t: &[Tok], cx: &mut FnCtx) -> R<PI> {
        let mut p = P { t, i: 0, named: &self.named };
        let mut dst = None;
        if let Some(Tok::Local(n)) = p.peek() {
            if matches!(t.get(1), Some(Tok::P('='))) {
                dst = Some(cx.reg(n));
                p.i = 2;
            }
        }
        let w = match p.next()? {
            Tok::Word(w) => w,
            x => return Err(format!("opcode {:?}", x)),
        };
        let d = |dst: Option<u32>| dst.ok_or_else(|| "no dst".to_string());
        let i = match w.as_str() {
            "alloca" => {
                p.eat_w("inalloca");
                let ty = p.ty()?;
                let mut n = Op::V(V::I(1));
                if p.eat_p(',') && p.type_start() {
                    let nt = p.ty()?;
                    n = self.op(&mut p, cx, &nt)?;
                }
                Inst::Alloca { dst: d(dst)?, ty, n }
            }
            "load" => {
                let atomic = p.eat_w("atomic");
                p.eat_w("volatile");
                let ty = p.ty()?;
                p.exp_p(',')?;
                let pt = p.ty()?;
                let ptr = self.op(&mut p, cx, &pt)?;
                let ord = self.ordering(&mut p, atomic)?;
                Inst::Load { dst: d(dst)?, ty, ptr, ord }
            }
            "store" => {
                let atomic = p.eat_w("atomic");
                p.eat_w("volatile");
                let ty = p.ty()?;
                let val = self.op(&mut p, cx, &ty)?;
                p.exp_p(',')?;
                let pt = p.ty()?;
                let ptr = self.op(&mut p, cx, &pt)?;
                let ord = self.ordering(&mut p, atomic)?;
                Inst::Store { ty, val, ptr, ord }
            }
            "getelementptr" => {
                while !p.type_start() {
                    p.i += 1;
                    if p.is_p('(') {
                        p.skip_parens()?;
                    }
                }
                let ty = p.ty()?;
                p.exp_p(',')?;
                let bt = p.ty()?;
                if bt.is_agg() {
                    return Err("vector gep".into());
                }
                let base = self.op(&mut p, cx, &bt)?;
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur: Option<Ty> = None;
                while p.eat_p(',') {
                    if let Some(Tok::Meta(_)) = p.peek() {
                        break;
                    }
                    let it = p.ty()?;
                    let iv = self.op(&mut p, cx, &it)?;
                    let iw = it.width();
                    match cur.take() {
                        None => {
                            add_idx(&mut off, &mut idx, iv, iw, ty.size() as i64);
                            cur = Some(ty.clone());
                        }
                        Some(ct) => match &ct {
                            Ty::Struct(..) => {
                                let k = match iv {
                                    Op::V(V::I(k)) => k as usize,
                                    _ => return Err("struct gep".into()),
                                };
                                off += ct.field_off(k) as i64;
                                cur = Some(ct.field(k));
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                add_idx(&mut off, &mut idx, iv, iw, e.size() as i64);
                                cur = Some((**e).clone());
                            }
                            _ => return Err("gep into scalar".into()),
                        },
                    }
                }
                Inst::Gep { dst: d(dst)?, base, off, idx }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while !p.type_start() {
                    p.i += 1;
                }
                let ty = p.ty()?;
                let a = self.op(&mut p, cx, &ty)?;
                p.exp_p(',')?;
                let b = self.op(&mut p, cx, &ty)?;
                let op = match w.as_str() {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    _ => BinOp::Xor,
                };
                Inst::Bin { dst: d(dst)?, op, ty, a, b }
            }
            "icmp" => {
                p.eat_w("samesign");
                let ps = match p.next()? {
                    Tok::Word(w) => w,
                    x => return Err(format!("pred {:?}", x)),
                };
                let pr = match ps.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => return Err(format!("pred {}", ps)),
                };
                let ty = p.ty()?;
                let a = self.op(&mut p, cx, &ty)?;
                p.exp_p(',')?;
                let b = self.op(&mut p, cx, &ty)?;
                Inst::Icmp { dst: d(dst)?, p: pr, ty, a, b }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "freeze" | "addrspacecast" => {
                while !p.type_start() {
                    p.i += 1;
                }
                let from = p.ty()?;
                let a = self.op(&mut p, cx, &from)?;
                let to = if w == "freeze" {
                    from.clone()
                } else {
                    p.exp_w("to")?;
                    p.ty()?
                };
                let k = match w.as_str() {
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "trunc" => Cast::Trunc,
                    "ptrtoint" | "ptrtoaddr" | "inttoptr" => {
                        if from.is_agg() || to.is_agg() {
                            return Err("vector ptr cast".into());
                        }
                        if from.width() > to.width() {
                            Cast::Trunc
                        } else if from.width() < to.width() {
                            Cast::ZExt
                        } else {
                            Cast::Move
                        }
                    }
                    _ => Cast::Move,
                };
                Inst::Cast { dst: d(dst)?, k, from, to, a }
            }
            "select" => {
                while !p.type_start() {
                    p.i += 1;
                }
                let ct = p.ty()?;
                let c = self.op(&mut p, cx, &ct)?;
                p.exp_p(',')?;
                let ty = p.ty()?;
                let a = self.op(&mut p, cx, &ty)?;
                p.exp_p(',')?;
                let ty2 = p.ty()?;
                let b = self.op(&mut p, cx, &ty2)?;
                Inst::Select { dst: d(dst)?, cty: ct, c, ty, a, b }
            }
            "extractvalue" => {
                let ty = p.ty()?;
                let a = self.op(&mut p, cx, &ty)?;
                let mut idx = vec![];
                while p.eat_p(',') {
                    if let Some(Tok::Int(_)) = p.peek() {
                        idx.push(p.int()? as u32);
                    } else {
                        break;
                    }
                }
                Inst::Extract { dst: d(dst)?, a, aty: ty, idx }
            }
            "insertvalue" => {
                let ty = p.ty()?;
                let a = self.op(&mut p, cx, &ty)?;
                p.exp_p(',')?;
                let vt = p.ty()?;
                let v = self.op(&mut p, cx, &vt)?;
                let mut idx = vec![];
                while p.eat_p(',') {
                    if let Some(Tok::Int(_)) = p.peek() {
                        idx.push(p.int()? as u32);
                    } else {
                        break;
                    }
                }
                Inst::Insert { dst: d(dst)?, a, aty: ty, v, idx }
            }
            "extractelement" => {
                let ty = p.ty()?;
                let a = self.op(&mut p, cx, &ty)?;
                p.exp_p(',')?;
                let it = p.ty()?;
                let i = self.op(&mut p, cx, &it)?;
                Inst::ExtractEl { dst: d(dst)?, vty: ty, a, i }
            }
            "insertelement" => {
                let ty = p.ty()?;
                let a = self.op(&mut p, cx, &ty)?;
                p.exp_p(',')?;
                let vt = p.ty()?;
                let v = self.op(&mut p, cx, &vt)?;
                p.exp_p(',')?;
                let it = p.ty()?;
                let i = self.op(&mut p, cx, &it)?;
                Inst::InsertEl { dst: d(dst)?, vty: ty, a, v, i }
            }
            "shufflevector" => {
                let ty = p.ty()?;
                let a = self.op(&mut p, cx, &ty)?;
                p.exp_p(',')?;
                let ty2 = p.ty()?;
                let b = self.op(&mut p, cx, &ty2)?;
                p.exp_p(',')?;
                let mt = p.ty()?;
                let m = p.konst(&mt)?;
                let n = mt.nfields();
                let mask = match m {
                    Const::Zero => vec![0; n],
                    Const::Undef => vec![-1; n],
                    Const::Splat(b) => match b.1 {
                        Const::Int(i) => vec![i as i64; n],
                        _ => return Err("shuffle mask".into()),
                    },
                    Const::Agg(v) => v
                        .iter()
                        .map(|(_, c)| match c {
                            Const::Int(i) => *i as i64,
                            _ => -1,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                Inst::Shuffle { dst: d(dst)?, vty: ty, a, b, mask }
            }
            "phi" => {
                while !p.type_start() {
                    p.i += 1;
                }
                let ty = p.ty()?;
                let mut inc = vec![];
                loop {
                    p.exp_p('[')?;
                    let v = self.op(&mut p, cx, &ty)?;
                    p.exp_p(',')?;
                    let b = match p.next()? {
                        Tok::Local(n) => cx.blk(&n)?,
                        x => return Err(format!("phi {:?}", x)),
                    };
                    p.exp_p(']')?;
                    inc.push((b, v));
                    if !(p.is_p(',') && matches!(t.get(p.i + 1), Some(Tok::P('[')))) {
                        break;
                    }
                    p.i += 1;
                }
                return Ok(PI::Phi(Phi { dst: d(dst)?, ty, inc }));
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let inv = w == "invoke";
                if w != "call" && w != "invoke" {
                    p.exp_w("call")?;
                }
                // cconv, ret attrs
                while !p.type_start() {
                    match p.next()? {
                        Tok::Word(w) => {
                            if p.is_p('(') {
                                p.skip_parens()?;
                            } else if w == "align" || w == "cc" {
                                p.i += 1;
                            }
                        }
                        Tok::Attr(_) | Tok::Int(_) => {}
                        x => return Err(format!("call prefix {:?}", x)),
                    }
                }
                let ret = p.ty()?;
                if p.is_p('(') {
                    p.skip_parens()?; // function type
                }
                let callee = match p.next()? {
                    Tok::Global(g) => {
                        let g: Rc<str> = g.into();
                        let g = self.aliases.get(&g).cloned().unwrap_or(g);
                        Callee::Name(g)
                    }
                    Tok::Local(n) => Callee::Ptr(Op::R(cx.reg(&n))),
                    Tok::Word(w) if w == "asm" => {
                        while !p.is_p('(') {
                            p.i += 1;
                        }
                        Callee::Asm
                    }
                    Tok::Word(_) => {
                        p.i -= 1;
                        Callee::Ptr(self.op(&mut p, cx, &Ty::Ptr)?)
                    }
                    x => return Err(format!("callee {:?}", x)),
                };
                p.exp_p('(')?;
                let mut args = vec![];
                let mut skip = false;
                if !p.eat_p(')') {
                    loop {
                        let ty = p.ty()?;
                        if ty == Ty::Meta {
                            // metadata argument: skip to , or )
                            skip = true;
                            let mut dep = 0;
                            loop {
                                match p.peek() {
                                    Some(Tok::P('(')) | Some(Tok::P('{')) => dep += 1,
                                    Some(Tok::P('}')) => dep -= 1,
                                    Some(Tok::P(')')) => {
                                        if dep == 0 {
                                            break;
                                        }
                                        dep -= 1
                                    }
                                    Some(Tok::P(',')) if dep == 0 => break,
                                    None => return Err("eol".into()),
                                    _ => {}
                                }
                                p.i += 1;
                            }
                        } else {
                            p.skip_attrs()?;
                            let v = self.op(&mut p, cx, &ty)?;
                            args.push((ty, v));
                        }
                        if p.eat_p(')') {
                            break;
                        }
                        p.exp_p(',')?;
                    }
                }
                if skip || matches!(&callee, Callee::Name(n) if n.starts_with("llvm.lifetime.") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg.") || &**n == "llvm.donothing" || n.starts_with("llvm.invariant.") || n.starts_with("llvm.prefetch")) && !inv
                {
                    return Ok(PI::Skip);
                }
                let mut normal = 0;
                let mut unwind = None;
                if inv {
                    while !p.eat_w("to") {
                        p.next()?;
                    }
                    p.exp_w("label")?;
                    normal = match p.next()? {
                        Tok::Local(n) => cx.blk(&n)?,
                        _ => return Err("invoke".into()),
                    };
                    p.exp_w("unwind")?;
                    p.exp_w("label")?;
                    unwind = Some(match p.next()? {
                        Tok::Local(n) => cx.blk(&n)?,
                        _ => return Err("invoke".into()),
                    });
                }
                let c = Rc::new(CallI { dst, ret, callee, args, normal, unwind, tgt: std::cell::Cell::new(u32::MAX) });
                if inv {
                    Inst::Invoke(c)
                } else {
                    Inst::Call(c)
                }
            }
            "br" => {
                if p.eat_w("label") {
                    match p.next()? {
                        Tok::Local(n) => Inst::Br { t: cx.blk(&n)? },
                        _ => return Err("br".into()),
                    }
                } else {
                    let ty = p.ty()?;
                    let c = self.op(&mut p, cx, &ty)?;
                    p.exp_p(',')?;
                    p.exp_w("label")?;
                    let t = match p.next()? {
                        Tok::Local(n) => cx.blk(&n)?,
                        _ => return Err("br".into()),
                    };
                    p.exp_p(',')?;
                    p.exp_w("label")?;
                    let f = match p.next()? {
                        Tok::Local(n) => cx.blk(&n)?,
                        _ => return Err("br".into()),
                    };
                    Inst::CondBr { c, t, f }
                }
            }
            "switch" => {
                let ty = p.ty()?;
                let v = self.op(&mut p, cx, &ty)?;
                p.exp_p(',')?;
                p.exp_w("label")?;
                let def = match p.next()? {
                    Tok::Local(n) => cx.blk(&n)?,
                    _ => return Err("switch".into()),
                };
                p.exp_p('[')?;
                let wd = ty.width();
                let mut cases = vec![];
                while !p.eat_p(']') {
                    let t2 = p.ty()?;
                    let k = match p.konst(&t2)? {
                        Const::Int(k) => mask(k, wd),
                        _ => return Err("switch case".into()),
                    };
                    p.exp_p(',')?;
                    p.exp_w("label")?;
                    let b = match p.next()? {
                        Tok::Local(n) => cx.blk(&n)?,
                        _ => return Err("switch".into()),
                    };
                    cases.push((k, b));
                }
                Inst::Switch { ty, v, def, cases: Rc::new(cases) }
            }
            "ret" => {
                let ty = p.ty()?;
                if ty == Ty::Void {
                    Inst::Ret { v: None }
                } else {
                    let v = self.op(&mut p, cx, &ty)?;
                    Inst::Ret { v: Some((ty, v)) }
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" => {
                let ty = p.ty()?;
                let v = self.op(&mut p, cx, &ty)?;
                Inst::Resume { v }
            }
            "landingpad" => Inst::LandingPad { dst: d(dst)? },
            "fence" => {
                if p.eat_w("syncscope") {
                    p.skip_parens()?;
                    return Ok(PI::Skip);
                }
                match p.next()? {
                    Tok::Word(w) => Inst::Fence { ord: Ord::parse(&w).ok_or("fence")? },
                    _ => return Err("fence".into()),
                }
            }
            "atomicrmw" => {
                p.eat_w("volatile");
                let o = match p.next()? {
                    Tok::Word(w) => w,
                    _ => return Err("rmw".into()),
                };
                let op = match o.as_str() {
                    "xchg" => Rmw::Xchg,
                    "add" => Rmw::Add,
                    "sub" => Rmw::Sub,
                    "and" => Rmw::And,
                    "or" => Rmw::Or,
                    "xor" => Rmw::Xor,
                    "nand" => Rmw::Nand,
                    "max" => Rmw::Max,
                    "min" => Rmw::Min,
                    "umax" => Rmw::UMax,
                    "umin" => Rmw::UMin,
                    _ => return Err(format!("rmw {}", o)),
                };
                let pt = p.ty()?;
                let ptr = self.op(&mut p, cx, &pt)?;
                p.exp_p(',')?;
                let ty = p.ty()?;
                let v = self.op(&mut p, cx, &ty)?;
                let ord = self.ordering(&mut p, true)?;
                Inst::Rmw { dst: d(dst)?, op, ty, ptr, v, ord }
            }
            "cmpxchg" => {
                let weak = p.eat_w("weak");
                p.eat_w("volatile");
                let pt = p.ty()?;
                let ptr = self.op(&mut p, cx, &pt)?;
                p.exp_p(',')?;
                let ty = p.ty()?;
                let cmp = self.op(&mut p, cx, &ty)?;
                p.exp_p(',')?;
                let ty2 = p.ty()?;
                let new = self.op(&mut p, cx, &ty2)?;
                let succ = self.ordering(&mut p, true)?;
                let fail = self.ordering(&mut p, true)?;
                Inst::CmpXchg { dst: d(dst)?, ty, ptr, cmp, new, succ, fail, weak }
            }
            _ => return Err(format!("unsupported instruction {}", w)),
        };
        Ok(PI::I(i))
    }
    fn ordering(&self, p: &mut P<'_>, atomic: bool) -> R<Ord> {
        if !atomic {
            return Ok(Ord::None);
        }
        loop {
            match p.next()? {
                Tok::Word(w) => {
                    if w == "syncscope" {
                        p.skip_parens()?;
                        continue;
                    }
                    if let Some(o) = Ord::parse(&w) {
                        return Ok(o);
                    }
                }
                _ => return Err("ordering".into()),
            }
        }
    }
    fn op(&self, p: &mut P<'_>, cx: &mut FnCtx, ty: &Ty) -> R<Op> {
        if let Some(Tok::Local(n)) = p.peek() {
            let r = cx.reg(n);
            p.i += 1;
            return Ok(Op::R(r));
        }
        let k = p.konst(ty)?;
        match self.eval_const(ty, &k) {
            Ok(v) => Ok(Op::V(v)),
            Err(_) => Ok(Op::K(k)),
        }
    }

    pub fn gaddr(&self, name: &str) -> Option<u64> {
        let name: Rc<str> = match self.aliases.get(name) {
            Some(n) => n.clone(),
            None => name.into(),
        };
        if let Some(i) = self.gmap.get(&name) {
            return Some(((*i as u64) + 1) << 24);
        }
        if let Some(i) = self.fmap.get(&name) {
            return Some(((1u64 << 18) | (*i as u64 + 1)) << 24);
        }
        None
    }

    pub fn eval_const(&self, ty: &Ty, c: &Const) -> R<V> {
        if ty.is_agg() {
            let n = ty.nfields();
            let mut v = Vec::with_capacity(n);
            match c {
                Const::Undef | Const::Zero | Const::Null => {
                    for i in 0..n {
                        v.push(self.eval_const(&ty.field(i), &Const::Zero)?);
                    }
                }
                Const::Bytes(b) => {
                    for x in b.iter() {
                        v.push(V::I(*x as u64));
                    }
                }
                Const::Agg(l) => {
                    for (t, k) in l.iter() {
                        v.push(self.eval_const(t, k)?);
                    }
                }
                Const::Splat(b) => {
                    let x = self.eval_const(&b.0, &b.1)?;
                    for _ in 0..n {
                        v.push(x.clone());
                    }
                }
                _ => return Err(format!("const agg {:?}", c)),
            }
            return Ok(V::Agg(Rc::new(v)));
        }
        if *ty == Ty::Void || *ty == Ty::Label || *ty == Ty::Meta {
            return Ok(V::I(0));
        }
        let w = ty.width();
        let mkv = |x: u128| {
            let x = mask(x, w);
            if w <= 64 {
                V::I(x as u64)
            } else {
                V::W(Box::new(x))
            }
        };
        Ok(match c {
            Const::Int(i) => mkv(*i),
            Const::Null | Const::Undef | Const::Zero => mkv(0),
            Const::Global(g) => V::I(self.gaddr(g).ok_or_else(|| format!("unknown global {}", g))?),
            Const::Gep(t, b, idx) => {
                let mut a = match self.eval_const(&b.0, &b.1)? {
                    V::I(a) => a as i64,
                    _ => return Err("gep base".into()),
                };
                let mut cur: Option<Ty> = None;
                for (it, iv) in idx {
                    let k = match self.eval_const(it, iv)? {
                        V::I(k) => sext(k as u128, it.width()) as i64,
                        _ => return Err("gep idx".into()),
                    };
                    match cur.take() {
                        None => {
                            a += k * t.size() as i64;
                            cur = Some(t.clone());
                        }
                        Some(ct) => {
                            a += ct.field_off(k as usize) as i64;
                            cur = Some(ct.field(match ct {
                                Ty::Struct(..) => k as usize,
                                _ => 0,
                            }));
                        }
                    }
                }
                V::I(a as u64)
            }
            Const::Cast(_, b, _) => match self.eval_const(&b.0, &b.1)? {
                V::I(x) => mkv(x as u128),
                V::W(x) => mkv(*x),
                _ => return Err("const cast".into()),
            },
            Const::Bin(o, a, b) => {
                let (x, y) = match (self.eval_const(&a.0, &a.1)?, self.eval_const(&b.0, &b.1)?) {
                    (V::I(x), V::I(y)) => (x, y),
                    _ => return Err("const bin".into()),
                };
                mkv(match o.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    _ => x ^ y,
                } as u128)
            }
            _ => return Err(format!("const {:?}", c)),
        })
    }

    /// bytes of a global initializer
    pub fn init_bytes(&self, ty: &Ty, c: &Const, out: &mut [u8]) -> R<()> {
        match (ty, c) {
            (_, Const::Undef) | (_, Const::Zero) | (_, Const::Null) => {}
            (_, Const::Bytes(b)) => out[..b.len()].copy_from_slice(b),
            (Ty::Vec(..), _) | (Ty::Struct(..), Const::Agg(_)) | (Ty::Arr(..), Const::Agg(_)) => match c {
                Const::Agg(l) => {
                    for (i, (t, k)) in l.iter().enumerate() {
                        let o = ty.field_off(i) as usize;
                        let n = t.size() as usize;
                        self.init_bytes(t, k, &mut out[o..o + n])?;
                    }
                }
                Const::Splat(b) => {
                    for i in 0..ty.nfields() {
                        let o = ty.field_off(i) as usize;
                        let n = b.0.size() as usize;
                        self.init_bytes(&b.0, &b.1, &mut out[o..o + n])?;
                    }
                }
                _ => return Err("init".into()),
            },
            _ => {
                let v = match self.eval_const(ty, c)? {
                    V::I(x) => x as u128,
                    V::W(x) => *x,
                    _ => return Err("init scalar".into()),
                };
                let n = ((ty.width() + 7) / 8) as usize;
                out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
        Ok(())
    }
}

enum PI {
    I(Inst),
    Phi(Phi),
    Skip,
}

fn add_idx(off: &mut i64, idx: &mut Vec<(Op, u32, i64)>, iv: Op, iw: u32, scale: i64) {
    match iv {
        Op::V(V::I(k)) => *off = off.wrapping_add((sext(k as u128, iw) as i64).wrapping_mul(scale)),
        _ => idx.push((iv, iw, scale)),
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let sh = 128 - w;
        ((v << sh) as i128) >> sh
    }
}

fn fn_name(line: &str) -> R<String> {
    // first @name followed by '('
    let b = line.as_bytes();
    let i = line.find('@').ok_or("fn name")?;
    if b[i + 1] == b'"' {
        let e = line[i + 2..].find('"').ok_or("fn name")? + i + 2;
        return Ok(String::from_utf8_lossy(&unescape(&b[i + 2..e])).into_owned());
    }
    let e = line[i..].find('(').ok_or("fn name")? + i;
    Ok(line[i + 1..e].to_string())
}
