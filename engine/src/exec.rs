//! The symbolic executor: states, threads, instruction semantics.
use crate::expr::{self, BinOpK, E, V};
use crate::ir::{self, BinOp, CallI, Callee, Cast, Func, Inst, Module, Op, Ord, Pred, Rmw, Ty};
use crate::mem::{self, eof, mix, split, vof, Mem, Obj, Vc, MAXT};
use crate::solver::{Sat, Solver};
use std::collections::{BTreeSet, HashMap, VecDeque};
use std::rc::Rc;

#[derive(Debug, Clone)]
pub enum Stop {
    Violation(String, String),
    Error(String),
    /// the path ends (infeasible assumption, pruned duplicate)
    Dead,
    /// the path ends normally
    End,
    /// another thread was scheduled
    Switched,
}
type R<T> = Result<T, Stop>;
fn viol<T>(k: &str, m: impl Into<String>) -> R<T> {
    Err(Stop::Violation(k.into(), m.into()))
}
fn err<T>(m: impl Into<String>) -> R<T> {
    Err(Stop::Error(m.into()))
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub blk: u32,
    pub ip: u32,
    pub prev: u32,
    pub regs: Vec<V>,
    pub sbase: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Status {
    Run,
    Futex(u64),
    Join(usize),
    Ghost(usize),
    Done,
}

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Rc<Frame>>,
    pub status: Status,
    pub yielded: bool,
    pub at_vis: bool,
    pub vis: u32,
    pub exc: u64,
    pub tls: Vec<(u32, u64)>,
    pub keys: Vec<(u64, u64)>,
    pub dtors: Vec<(u64, u64)>,
    pub detached: bool,
    pub vc: Vc,
    pub acq: Vc,
    pub rel: Vc,
}

/// schedule event: thread `t`, at its visible operation number `n`, hands over to `to`
#[derive(Clone, Copy, Debug)]
pub struct Ev {
    pub t: u8,
    pub n: u32,
    pub k: char,
    pub to: u8,
}
pub struct Link<T> {
    pub v: T,
    pub p: Option<Rc<Link<T>>>,
}
pub type List<T> = Option<Rc<Link<T>>>;
pub fn list_vec<T: Clone>(l: &List<T>) -> Vec<T> {
    let mut o = vec![];
    let mut c = l.clone();
    while let Some(n) = c {
        o.push(n.v.clone());
        c = n.p.clone();
    }
    o.reverse();
    o
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub th: Vec<Thread>,
    pub cur: usize,
    pub pc: Vec<E>,
    pub varw: Vec<u32>,
    pub model: Vec<u128>,
    pub ev: List<Ev>,
    pub log: List<V>,
    pub preempt: u32,
    pub spins: u32,
    pub run: u32,
    pub steps: u64,
    pub ghost: Rc<Vec<V>>,
    pub locs: Rc<HashMap<u64, Vc>>,
    pub clock: u64,
    pub nkeys: u64,
    pub pstack: Option<Rc<Vec<u32>>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    VpSym,
    VpAssume,
    VpCheck,
    VpCover,
    VpChoose,
    VpSpawn,
    VpJoin,
    VpYield,
    VpGGet,
    VpGSet,
    VpGAdd,
    VpLog,
    VpParam,
    VpLive,
    VpConc,
    VpTid,
    VpWake,
    VpWait,
    VpTrace,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    Free,
    CRealloc,
    PosixMemalign,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    UMax,
    UMin,
    SMax,
    SMin,
    USubSat,
    UAddSat,
    SSubSat,
    SAddSat,
    OvUAdd,
    OvUSub,
    OvUMul,
    OvSAdd,
    OvSSub,
    OvSMul,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Abs,
    Fshl,
    Fshr,
    Ucmp,
    Scmp,
    IsConstant,
    Nop0,
    Ret1,
    RetM1,
    ThreadLocalAddr,
    Pause,
    Yield,
    Trap,
    AbortPanic,
    RustPanic,
    Raise,
    DeleteExc,
    Syscall,
    Errno,
    PthreadCreate,
    PthreadJoin,
    PthreadDetach,
    PthreadSelf,
    KeyCreate,
    KeyGet,
    KeySet,
    AtExit,
    Getenv,
    Getrandom,
    Write,
    Sysconf,
    ClockGettime,
    GenIndex,
    Expect,
    Enoent,
    Void,
}

#[derive(Clone, Copy)]
enum Tgt {
    F(&'static Func),
    B(B),
}

pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<u128>,
    pub ev: Vec<Ev>,
    pub stack: Vec<String>,
}
pub struct Sample {
    pub inputs: Vec<u128>,
    pub ev: Vec<Ev>,
    pub log: Vec<u128>,
}

pub struct Opts {
    pub preempt: u32,
    pub fair: u32,
    pub race: bool,
    pub dedupe: bool,
    pub max_steps: u64,
    pub params: Vec<u64>,
    pub samples: usize,
    pub trace: bool,
}

pub struct Eng {
    pub m: &'static Module,
    pub o: Opts,
    pub solver: Solver,
    pub work: VecDeque<State>,
    tg: Vec<Option<Tgt>>,
    pub seen: HashMap<u64, u32>,
    pub covers: BTreeSet<u64>,
    pub executed: Vec<bool>,
    pub paths: u64,
    pub dead: u64,
    pub deduped: u64,
    pub forks: u64,
    pub switches: u64,
    pub insts: u64,
    pub checks: u64,
    pub checks_sym: u64,
    pub samples: Vec<Sample>,
    pub max_vars: usize,
    pub max_threads: usize,
    pub panic_fn: Option<u32>,
    base_globals: Mem,
}

fn w_of(t: &Ty) -> u32 {
    t.width()
}
fn m64(x: u64, w: u32) -> u64 {
    if w >= 64 {
        x
    } else {
        x & ((1u64 << w) - 1)
    }
}
fn s64(x: u64, w: u32) -> i64 {
    if w >= 64 {
        x as i64
    } else {
        ((x << (64 - w)) as i64) >> (64 - w)
    }
}

impl State {
    fn top(&mut self) -> &mut Frame {
        Rc::make_mut(self.th[self.cur].frames.last_mut().unwrap())
    }
    fn topr(&self) -> &Frame {
        self.th[self.cur].frames.last().unwrap()
    }
    fn set(&mut self, r: u32, v: V) {
        self.top().regs[r as usize] = v;
    }
    fn next(&mut self) {
        self.top().ip += 1;
    }
    pub fn push_ev(&mut self, k: char, to: usize) {
        let t = self.cur;
        let e = Ev { t: t as u8, n: self.th[t].vis, k, to: to as u8 };
        self.ev = Some(Rc::new(Link { v: e, p: self.ev.take() }));
    }
    pub fn inputs(&self) -> Vec<u128> {
        self.model.clone()
    }
}

impl Eng {
    pub fn new(m: &'static Module, o: Opts) -> Eng {
        Eng {
            m,
            o,
            solver: Solver::new(60000),
            work: VecDeque::new(),
            tg: vec![None; m.fnames.len()],
            seen: HashMap::new(),
            covers: BTreeSet::new(),
            executed: vec![false; m.fnames.len()],
            paths: 0,
            dead: 0,
            deduped: 0,
            forks: 0,
            switches: 0,
            insts: 0,
            checks: 0,
            checks_sym: 0,
            samples: vec![],
            max_vars: 0,
            max_threads: 0,
            panic_fn: m.fmap.get("vp_rt_panic").copied(),
            base_globals: Mem::default(),
        }
    }
    pub fn initial(&mut self, entry: &str) -> Result<State, String> {
        let id = *self.m.fmap.get(entry).ok_or_else(|| format!("no entry {}", entry))?;
        let f: &'static Func = self.func(id)?;
        let mut mem = Mem::default();
        let ng = self.m.globals.len();
        mem.regs.push(Rc::new(vec![None; ng + 1]));
        mem.regs.push(Rc::new(vec![None]));
        let mut st = State {
            mem,
            th: vec![],
            cur: 0,
            pc: vec![],
            varw: vec![],
            model: vec![],
            ev: None,
            log: None,
            preempt: 0,
            spins: 0,
            run: 0,
            steps: 0,
            ghost: Rc::new(vec![V::I(0); 256]),
            locs: Rc::new(HashMap::new()),
            clock: 1_000_000,
            nkeys: 1,
            pstack: None,
        };
        self.new_thread(&mut st, f, vec![]);
        Ok(st)
    }
    fn func(&mut self, id: u32) -> Result<&'static Func, String> {
        let f = self.m.func(id)?;
        let p: *const Func = &*f;
        // parsed functions live as long as the (leaked) module
        Ok(unsafe { &*p })
    }
    fn new_thread(&mut self, st: &mut State, f: &'static Func, args: Vec<V>) -> usize {
        let t = st.th.len();
        let mut vc = [0u16; MAXT];
        if t > 0 {
            vc = st.th[st.cur].vc;
            let c = st.cur;
            st.th[c].vc[c] += 1;
        }
        vc[t] += 1;
        self.executed[f.id as usize] = true;
        st.th.push(Thread {
            frames: vec![],
            status: Status::Run,
            yielded: false,
            at_vis: false,
            vis: 0,
            exc: 0,
            tls: vec![],
            keys: vec![],
            dtors: vec![],
            detached: false,
            vc,
            acq: [0; MAXT],
            rel: [0; MAXT],
        });
        st.mem.region(2 + 2 * t);
        st.mem.region(3 + 2 * t);
        let fr = self.frame(st, t, f, args);
        st.th[t].frames.push(Rc::new(fr));
        self.max_threads = self.max_threads.max(st.th.len());
        t
    }
    fn frame(&mut self, st: &mut State, t: usize, f: &'static Func, args: Vec<V>) -> Frame {
        let sbase = st.mem.regs[3 + 2 * t].len() as u32;
        let mut regs = args;
        regs.resize(f.nregs as usize, V::I(0));
        Frame { f, blk: 0, ip: 0, prev: 0, regs, sbase }
    }
    fn pop_frame(&mut self, st: &mut State) {
        let t = st.cur;
        let f = st.th[t].frames.pop().unwrap();
        let r = &mut st.mem.regs[3 + 2 * t];
        if r.len() as u32 > f.sbase {
            Rc::make_mut(r).truncate(f.sbase as usize);
        }
    }

    // ---------- path condition ----------
    fn slice(&self, st: &State, e: E) -> Vec<E> {
        let mut vs = expr::vars(e);
        let mut out = vec![];
        let mut rest: Vec<(E, u128)> = st.pc.iter().map(|&c| (c, expr::vars(c))).collect();
        loop {
            let mut ch = false;
            let mut i = 0;
            while i < rest.len() {
                if rest[i].1 & vs != 0 {
                    vs |= rest[i].1;
                    out.push(rest[i].0);
                    rest.swap_remove(i);
                    ch = true;
                } else {
                    i += 1;
                }
            }
            if !ch {
                return out;
            }
        }
    }
    fn eval(&self, st: &State, e: E) -> u128 {
        if let Some(c) = expr::as_const(e) {
            return c;
        }
        expr::eval(e, &st.model, &mut HashMap::new())
    }
    fn feasible(&mut self, st: &State, e: E) -> R<Option<Rc<Vec<(u32, u128)>>>> {
        let mut s = self.slice(st, e);
        s.push(e);
        match self.solver.check(&s, &st.varw) {
            (Sat::Sat, m) => Ok(Some(m.unwrap_or_default())),
            (Sat::Unsat, _) => Ok(None),
            _ => err("solver returned unknown"),
        }
    }
    /// Truth of `e` on this path; when both are feasible the state is forked (the fork re-executes
    /// the current instruction, so nothing may have been modified before).
    pub fn decide(&mut self, st: &mut State, e: E) -> R<bool> {
        if let Some(c) = expr::as_const(e) {
            return Ok(c != 0);
        }
        let ne = expr::not(e);
        for &c in st.pc.iter().rev() {
            if c == e {
                return Ok(true);
            }
            if c == ne {
                return Ok(false);
            }
        }
        let here = self.eval(st, e) != 0;
        let (mine, other) = if here { (e, ne) } else { (ne, e) };
        if let Some(m) = self.feasible(st, other)? {
            let mut o = st.clone();
            for (i, v) in m.iter() {
                o.model[*i as usize] = *v;
            }
            o.pc.push(other);
            self.forks += 1;
            self.work.push_back(o);
            st.pc.push(mine);
        }
        Ok(here)
    }
    pub fn assume(&mut self, st: &mut State, e: E) -> R<()> {
        match expr::as_const(e) {
            Some(0) => return Err(Stop::Dead),
            Some(_) => return Ok(()),
            None => {}
        }
        if self.eval(st, e) == 0 {
            match self.feasible(st, e)? {
                None => return Err(Stop::Dead),
                Some(m) => {
                    for (i, v) in m.iter() {
                        st.model[*i as usize] = *v;
                    }
                }
            }
        }
        st.pc.push(e);
        Ok(())
    }
    fn must(&mut self, st: &mut State, e: E, msg: &str) -> R<()> {
        self.checks += 1;
        if let Some(c) = expr::as_const(e) {
            if c == 0 {
                return viol("assert", msg);
            }
            return Ok(());
        }
        self.checks_sym += 1;
        if self.eval(st, e) == 0 {
            return viol("assert", msg);
        }
        let ne = expr::not(e);
        if let Some(m) = self.feasible(st, ne)? {
            for (i, v) in m.iter() {
                st.model[*i as usize] = *v;
            }
            return viol("assert", msg);
        }
        Ok(())
    }
    fn conc(&mut self, st: &mut State, v: &V, w: u32) -> R<u64> {
        match v {
            V::I(x) => Ok(*x),
            V::W(x) => Ok(**x as u64),
            V::S(e) => {
                let m = self.eval(st, *e);
                let c = expr::cmp(Pred::Eq, *e, expr::kon(m, expr::width(*e)));
                if !self.decide(st, c)? {
                    return err("concretise");
                }
                let _ = w;
                Ok(m as u64)
            }
            V::Agg(_) => err("concretise aggregate"),
        }
    }
    fn fresh(&mut self, st: &mut State, w: u32) -> E {
        let i = st.varw.len() as u32;
        st.varw.push(w);
        st.model.push(0);
        self.max_vars = self.max_vars.max(st.varw.len());
        expr::var(i, w)
    }

    // ---------- memory ----------
    fn ensure_global(&mut self, st: &mut State, a: u64) -> R<()> {
        let (r, i, _) = split(a);
        if r != 0 || i == 0 || i > self.m.globals.len() {
            return Ok(());
        }
        if st.mem.regs[0][i].is_some() {
            return Ok(());
        }
        if self.base_globals.regs.is_empty() {
            self.base_globals.regs.push(Rc::new(vec![None; self.m.globals.len() + 1]));
        }
        if self.base_globals.regs[0][i].is_none() {
            let g = &self.m.globals[i - 1];
            let init = match &g.init {
                Some(c) => c,
                None => return Ok(()),
            };
            let mut o = Obj::new(g.ty.size());
            self.m.init_bytes(&g.ty, init, &mut o.data).map_err(|e| Stop::Error(format!("global {}: {}", g.name, e)))?;
            o.ro = g.constant;
            Rc::make_mut(&mut self.base_globals.regs[0])[i] = Some(Rc::new(o));
        }
        let o = self.base_globals.regs[0][i].clone();
        Rc::make_mut(&mut st.mem.regs[0])[i] = o;
        Ok(())
    }
    fn describe(&self, st: &State, a: u64) -> String {
        let (r, i, o) = split(a);
        let kind = match r {
            0 => return format!("address {:#x} (global {} + {})", a, self.m.globals.get(i.wrapping_sub(1)).map(|g| &*g.name).unwrap_or("none"), o),
            1 => "function",
            x if x % 2 == 0 => "heap",
            _ => "stack",
        };
        let known = st.mem.regs.get(r).map(|s| i < s.len() && i > 0).unwrap_or(false);
        format!("{} object {}:{} offset {}{}", kind, r, i, o, if known { " (freed or never allocated)" } else { "" })
    }
    fn chk(&mut self, st: &mut State, a: u64, n: u64, write: bool) -> R<()> {
        let (r, _, off) = split(a);
        if r == 0 {
            self.ensure_global(st, a)?;
        }
        match st.mem.get(a) {
            None => viol("memory", format!("{} of {} bytes through an invalid pointer: {}", if write { "write" } else { "read" }, n, self.describe(st, a))),
            Some(o) => {
                if off as u64 + n > o.size as u64 {
                    return viol("memory", format!("out-of-bounds {} of {} bytes at offset {} of an object of {} bytes ({})", if write { "write" } else { "read" }, n, off, o.size, self.describe(st, a)));
                }
                if write && o.ro {
                    return viol("memory", format!("write to a constant: {}", self.describe(st, a)));
                }
                Ok(())
            }
        }
    }
    /// race check + record of an access of n bytes
    fn access(&mut self, st: &mut State, a: u64, n: u64, write: bool, atomic: bool) -> R<()> {
        if !self.o.race || st.th.len() < 2 || n == 0 {
            return Ok(());
        }
        let (r, _, off) = split(a);
        if r % 2 == 1 {
            return Ok(()); // stacks
        }
        let t = st.cur;
        let vc = st.th[t].vc;
        let o = match st.mem.get_mut(a) {
            Some(o) => o,
            None => return Ok(()),
        };
        if o.ro || o.tls {
            return Ok(());
        }
        let sz = o.size as usize;
        let sh = o.sh.get_or_insert_with(|| Box::new(vec![Sh0; sz]));
        let mut race = None;
        for k in off as usize..(off as u64 + n) as usize {
            let s = &mut sh[k];
            if s.wc > 0 && s.wt as usize != t && s.wc > vc[s.wt as usize] {
                race = Some((s.wt as usize, "non-atomic write"));
            }
            for u in 0..MAXT {
                if u == t {
                    continue;
                }
                if write && s.r[u] > vc[u] {
                    race = Some((u, "non-atomic read"));
                }
                if !atomic && s.aw[u] > vc[u] {
                    race = Some((u, "atomic write"));
                }
                if !atomic && write && s.ar[u] > vc[u] {
                    race = Some((u, "atomic read"));
                }
            }
            if atomic {
                if write {
                    s.aw[t] = vc[t];
                } else {
                    s.ar[t] = vc[t];
                }
            } else if write {
                s.wt = t as u8;
                s.wc = vc[t];
            } else {
                s.r[t] = vc[t];
            }
        }
        if let Some((u, k)) = race {
            return viol(
                "race",
                format!("data race: {} {} by thread {} is unordered with an earlier {} by thread {}", if atomic { "atomic" } else { "non-atomic" }, if write { "write" } else { "read" }, t, k, u),
            );
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, a: u64, ty: &Ty) -> R<V> {
        let n = ty.store_size();
        if n == 0 {
            return Ok(V::Agg(Rc::new(vec![])));
        }
        self.chk(st, a, n, false)?;
        self.access(st, a, n, false, false)?;
        let o = st.mem.get(a).unwrap();
        Ok(mem::load_ty(o, split(a).2, ty))
    }
    fn store(&mut self, st: &mut State, a: u64, ty: &Ty, v: &V) -> R<()> {
        let n = ty.store_size();
        if n == 0 {
            return Ok(());
        }
        self.chk(st, a, n, true)?;
        self.access(st, a, n, true, false)?;
        let o = st.mem.get_mut(a).unwrap();
        mem::store_ty(o, split(a).2, ty, v);
        Ok(())
    }
    fn read_bytes(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<u8>> {
        self.chk(st, a, n, false)?;
        let o = st.mem.get(a).unwrap();
        let off = split(a).2 as usize;
        Ok(o.data[off..off + n as usize].to_vec())
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        self.chk(st, s, n, false)?;
        self.chk(st, d, n, true)?;
        self.access(st, s, n, false, false)?;
        self.access(st, d, n, true, false)?;
        let (so, doff) = (split(s).2, split(d).2);
        let o = st.mem.get(s).unwrap();
        let bytes: Vec<u8> = o.data[so as usize..(so as u64 + n) as usize].to_vec();
        let syms: Vec<(u32, E)> = match &o.sym {
            Some(m) => m.range(so..so + n as u32).map(|(k, e)| (*k - so, *e)).collect(),
            None => vec![],
        };
        let o = st.mem.get_mut(d).unwrap();
        o.data[doff as usize..(doff as u64 + n) as usize].copy_from_slice(&bytes);
        mem::clear_sym(o, doff, n as u32);
        if !syms.is_empty() {
            let m = o.sym.get_or_insert_with(Default::default);
            for (k, e) in syms {
                m.insert(doff + k, e);
            }
        }
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, n: u64, tls: bool) -> R<u64> {
        if n >= 0xff_ffff {
            return err(format!("allocation of {} bytes exceeds the memory model", n));
        }
        let mut o = Obj::new(n);
        o.tls = tls;
        if !tls {
            st.mem.live += 1;
        }
        let r = 2 + 2 * st.cur;
        Ok(st.mem.alloc(r, o))
    }
    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        let (r, i, off) = split(a);
        let ok = r >= 2 && r % 2 == 0 && off == 0 && st.mem.get(a).is_some();
        if !ok {
            return viol("memory", format!("free of an invalid pointer (double free?): {}", self.describe(st, a)));
        }
        let n = st.mem.get(a).unwrap().size;
        self.access(st, a, n as u64, true, false)?;
        Rc::make_mut(&mut st.mem.regs[r])[i] = None;
        st.mem.live -= 1;
        Ok(())
    }

    // ---------- operands ----------
    fn op(&self, st: &State, o: &Op) -> R<V> {
        match o {
            Op::R(r) => Ok(st.topr().regs[*r as usize].clone()),
            Op::V(v) => Ok(v.clone()),
            Op::K(k) => err(format!("constant operand {:?}", k)),
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = st.top();
        let from = fr.blk;
        let b = &fr.f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, V)> = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                let mut found = false;
                for (pb, o) in &p.inc {
                    if *pb == from {
                        let v = match o {
                            Op::R(r) => fr.regs[*r as usize].clone(),
                            Op::V(v) => v.clone(),
                            Op::K(k) => return err(format!("phi const {:?}", k)),
                        };
                        vals.push((p.dst, v));
                        found = true;
                        break;
                    }
                }
                if !found {
                    return err("phi without incoming edge");
                }
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.prev = from;
        fr.blk = to;
        fr.ip = 0;
        Ok(())
    }

    /// complete the call instruction the top frame stands at
    fn ret_to(&mut self, st: &mut State, v: V) -> R<()> {
        let fr = st.topr();
        let f = fr.f;
        match &f.blocks[fr.blk as usize].insts[fr.ip as usize] {
            Inst::Call(c) => {
                if let Some(d) = c.dst {
                    st.set(d, v);
                }
                st.next();
                Ok(())
            }
            Inst::Invoke(c) => {
                if let Some(d) = c.dst {
                    st.set(d, v);
                }
                let n = c.normal;
                self.jump(st, n)
            }
            _ => err("return to a non-call"),
        }
    }
    fn unwind(&mut self, st: &mut State, exc: u64) -> R<()> {
        loop {
            let t = st.cur;
            let fr = match st.th[t].frames.last() {
                None => return viol("panic", "panic escaped the thread's entry function"),
                Some(f) => f,
            };
            let f = fr.f;
            if let Inst::Invoke(c) = &f.blocks[fr.blk as usize].insts[fr.ip as usize] {
                st.th[t].exc = exc;
                let u = c.unwind.unwrap();
                return self.jump(st, u);
            }
            self.pop_frame(st);
        }
    }

    // ---------- scheduling ----------
    fn runnable(&self, st: &State, t: usize) -> bool {
        match st.th[t].status {
            Status::Run => true,
            _ => false,
        }
    }
    fn hash(&self, st: &State) -> u64 {
        let mut h = 0x1234567u64;
        for (ri, r) in st.mem.regs.iter().enumerate() {
            h = mix(h, (ri as u64) << 32 | r.len() as u64);
            for (i, o) in r.iter().enumerate() {
                if let Some(o) = o {
                    if ri == 0 && o.ro {
                        continue;
                    }
                    h = mix(h, (i as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ o.get_hash());
                }
            }
        }
        fn hv(h: u64, v: &V) -> u64 {
            match v {
                V::I(x) => mix(h, *x),
                V::S(e) => mix(h, 0xabcd_0000_0000_0000 | *e as u64),
                V::W(x) => mix(mix(h, **x as u64), (**x >> 64) as u64),
                V::Agg(a) => a.iter().fold(mix(h, 77), |h, x| hv(h, x)),
            }
        }
        for t in &st.th {
            h = mix(h, t.frames.len() as u64);
            h = mix(
                h,
                match t.status {
                    Status::Run => 1,
                    Status::Futex(a) => a.wrapping_mul(3),
                    Status::Join(a) => a as u64 * 5 + 2,
                    Status::Ghost(a) => a as u64 * 7 + 3,
                    Status::Done => 11,
                } ^ (t.yielded as u64) << 60
                    ^ (t.at_vis as u64) << 61,
            );
            h = mix(h, t.exc);
            for f in &t.frames {
                h = mix(h, (f.f.id as u64) << 40 ^ (f.blk as u64) << 20 ^ f.ip as u64);
                for r in &f.regs {
                    h = hv(h, r);
                }
            }
            for (a, b) in t.tls.iter().map(|x| (x.0 as u64, x.1)).chain(t.dtors.iter().copied()).chain(t.keys.iter().copied()) {
                h = mix(mix(h, a), b);
            }
            if self.o.race {
                for x in t.vc.iter().chain(t.acq.iter()).chain(t.rel.iter()) {
                    h = mix(h, *x as u64);
                }
            }
        }
        for v in st.ghost.iter() {
            h = hv(h, v);
        }
        let mut pc = st.pc.clone();
        pc.sort_unstable();
        for e in pc {
            h = mix(h, e as u64);
        }
        mix(h, st.varw.len() as u64 ^ (st.cur as u64) << 32)
    }
    /// Called before a visible operation. Returns true when the operation may proceed.
    fn visible(&mut self, st: &mut State) -> R<()> {
        let c = st.cur;
        if st.th[c].at_vis {
            return Ok(());
        }
        st.th[c].at_vis = true;
        st.th[c].vis += 1;
        if st.th.len() < 2 {
            return Ok(());
        }
        let all: Vec<usize> = (0..st.th.len()).filter(|&u| u != c && self.runnable(st, u)).collect();
        if all.is_empty() {
            return Ok(());
        }
        let cands: Vec<usize> = all.iter().copied().filter(|&u| !st.th[u].yielded).collect();
        st.run += 1;
        if st.run > self.o.fair {
            // fairness: nobody runs for ever while others can
            self.dedupe(st)?;
            return self.force(st, all);
        }
        if cands.is_empty() {
            return Ok(());
        }
        self.dedupe(st)?;
        if st.preempt >= self.o.preempt {
            return Ok(());
        }
        for u in cands {
            let mut o = st.clone();
            o.push_ev('p', u);
            o.cur = u;
            o.run = 0;
            o.preempt += 1;
            self.switches += 1;
            self.work.push_back(o);
        }
        Ok(())
    }
    fn force(&mut self, st: &mut State, cands: Vec<usize>) -> R<()> {
        st.spins += 1;
        if st.spins > 400 {
            return viol("livelock", "threads run for ever without progress");
        }
        st.run = 0;
        // the thread that has waited longest (round robin)
        let c = st.cur;
        let u = cands.iter().copied().find(|&u| u > c).unwrap_or(cands[0]);
        st.push_ev('p', u);
        st.cur = u;
        Err(Stop::Switched)
    }
    fn dedupe(&mut self, st: &State) -> R<()> {
        if self.o.dedupe && !self.o.race {
            let h = self.hash(st);
            match self.seen.get(&h) {
                Some(&p) if p <= st.preempt => {
                    self.deduped += 1;
                    return Err(Stop::Dead);
                }
                _ => {
                    self.seen.insert(h, st.preempt);
                }
            }
        }
        Ok(())
    }
    /// the current thread cannot continue: hand over to some other thread (all choices explored)
    fn switch_away(&mut self, st: &mut State, k: char) -> R<()> {
        let c = st.cur;
        let mut cands: Vec<usize> = (0..st.th.len()).filter(|&u| u != c && self.runnable(st, u) && !st.th[u].yielded).collect();
        if cands.is_empty() {
            cands = (0..st.th.len()).filter(|&u| u != c && self.runnable(st, u)).collect();
            for t in st.th.iter_mut() {
                t.yielded = false;
            }
            st.spins += 1;
            if st.spins > 400 {
                return viol("livelock", "all runnable threads spin without progress");
            }
        }
        if cands.is_empty() {
            let s: Vec<String> = st.th.iter().enumerate().map(|(i, t)| format!("thread {}: {:?}", i, t.status)).collect();
            return viol("deadlock", format!("no thread can run ({})", s.join(", ")));
        }
        self.dedupe(st)?;
        for &u in &cands[1..] {
            let mut o = st.clone();
            o.push_ev(k, u);
            o.cur = u;
            o.run = 0;
            self.switches += 1;
            self.work.push_back(o);
        }
        st.push_ev(k, cands[0]);
        st.cur = cands[0];
        st.run = 0;
        Ok(())
    }
    fn thread_end(&mut self, st: &mut State) -> R<()> {
        let t = st.cur;
        if t == 0 {
            return Err(Stop::End);
        }
        if let Some((f, a)) = st.th[t].dtors.pop() {
            let id = self.fn_of(st, f)?;
            let f = self.func(id).map_err(Stop::Error)?;
            let fr = self.frame(st, t, f, vec![V::I(a)]);
            st.th[t].frames.push(Rc::new(fr));
            return Ok(());
        }
        st.th[t].status = Status::Done;
        for u in 0..st.th.len() {
            if st.th[u].status == Status::Join(t) {
                st.th[u].status = Status::Run;
            }
        }
        self.switch_away(st, 'e')
    }
    fn do_yield(&mut self, st: &mut State) -> R<()> {
        let c = st.cur;
        let others = (0..st.th.len()).any(|u| u != c && self.runnable(st, u));
        if !others {
            st.spins += 1;
            if st.spins > 400 {
                return viol("livelock", "the only runnable thread spins without progress");
            }
            return Ok(());
        }
        st.th[c].yielded = true;
        self.switch_away(st, 'y')
    }
    fn wrote(&mut self, st: &mut State) {
        let c = st.cur;
        if st.th.len() > 1 {
            for (i, t) in st.th.iter_mut().enumerate() {
                if i != c {
                    t.yielded = false;
                }
            }
        }
    }
    fn hb_load(&mut self, st: &mut State, a: u64, ord: Ord) {
        if !self.o.race {
            return;
        }
        if let Some(l) = st.locs.get(&a) {
            let l = *l;
            let t = &mut st.th[st.cur];
            vjoin(if ord.acq() { &mut t.vc } else { &mut t.acq }, &l);
        }
    }
    fn hb_store(&mut self, st: &mut State, a: u64, ord: Ord, rmw: bool) {
        if !self.o.race {
            return;
        }
        let c = st.cur;
        let t = &mut st.th[c];
        let mut v = if ord.rel() { t.vc } else { t.rel };
        if ord.rel() {
            t.vc[c] += 1;
        }
        let m = Rc::make_mut(&mut st.locs);
        if rmw {
            if let Some(l) = m.get(&a) {
                vjoin(&mut v, l);
            }
        }
        m.insert(a, v);
    }

    // ---------- main loop ----------
    pub fn run(&mut self, mut st: State) -> Result<(), Viol> {
        loop {
            let r = self.step(&mut st);
            match r {
                Ok(()) | Err(Stop::Switched) => {}
                Err(Stop::End) => {
                    self.paths += 1;
                    if self.samples.len() < self.o.samples || (self.o.samples > 0 && self.paths % 997 == 0) {
                        let log: Vec<u128> = list_vec(&st.log)
                            .iter()
                            .map(|v| match v {
                                V::I(x) => *x as u128,
                                V::S(e) => self.eval(&st, *e),
                                _ => 0,
                            })
                            .collect();
                        let s = Sample { inputs: st.inputs(), ev: list_vec(&st.ev), log };
                        if self.samples.len() < self.o.samples {
                            self.samples.push(s);
                        } else {
                            let k = (self.paths / 997) as usize % self.o.samples;
                            self.samples[k] = s;
                        }
                    }
                    return Ok(());
                }
                Err(Stop::Dead) => {
                    self.dead += 1;
                    return Ok(());
                }
                Err(Stop::Violation(k, m)) => {
                    return Err(self.mk_viol(&st, k, m));
                }
                Err(Stop::Error(e)) => {
                    let mut v = self.mk_viol(&st, "engine-error".into(), e);
                    v.kind = "engine-error".into();
                    return Err(v);
                }
            }
        }
    }
    fn mk_viol(&self, st: &State, kind: String, msg: String) -> Viol {
        let mut stack = vec![];
        for (i, t) in st.th.iter().enumerate() {
            if i == st.cur || t.status != Status::Done {
                stack.push(format!("thread {}{}:", i, if i == st.cur { " (current)" } else { "" }));
                for f in t.frames.iter().rev().take(25) {
                    stack.push(format!("  {}", crate::demangle(&f.f.name)));
                }
            }
        }
        if kind == "panic" || kind == "abort" {
            if let Some(p) = &st.pstack {
                stack.push("last panic raised at:".into());
                for f in p.iter().take(25) {
                    stack.push(format!("  {}", crate::demangle(&self.m.fnames[*f as usize])));
                }
            }
        }
        Viol { kind, msg, inputs: st.inputs(), ev: list_vec(&st.ev), stack }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let t = st.cur;
        let fr = match st.th[t].frames.last() {
            None => return self.thread_end(st),
            Some(f) => f,
        };
        let f = fr.f;
        let inst = &f.blocks[fr.blk as usize].insts[fr.ip as usize];
        self.insts += 1;
        st.steps += 1;
        if st.steps > self.o.max_steps {
            return viol("livelock", format!("no end after {} instructions", st.steps));
        }
        match inst {
            Inst::Alloca { dst, ty, n } => {
                let nv = self.op(st, n)?;
                let k = self.conc(st, &nv, 64)?;
                let o = Obj::new(ty.size() * k);
                let r = 3 + 2 * st.cur;
                let a = st.mem.alloc(r, o);
                st.set(*dst, V::I(a));
                st.next();
            }
            Inst::Load { dst, ty, ptr, ord } => {
                let p = self.op(st, ptr)?;
                let a = self.conc(st, &p, 64)?;
                if *ord != Ord::None {
                    self.visible(st)?;
                    self.chk(st, a, ty.store_size(), false)?;
                    self.access(st, a, ty.store_size(), false, true)?;
                    let v = mem::load_ty(st.mem.get(a).unwrap(), split(a).2, ty);
                    self.hb_load(st, a, *ord);
                    st.th[t].at_vis = false;
                    st.set(*dst, v);
                } else {
                    let v = self.load(st, a, ty)?;
                    st.set(*dst, v);
                }
                st.next();
            }
            Inst::Store { ty, val, ptr, ord } => {
                let p = self.op(st, ptr)?;
                let a = self.conc(st, &p, 64)?;
                let v = self.op(st, val)?;
                if *ord != Ord::None {
                    self.visible(st)?;
                    self.chk(st, a, ty.store_size(), true)?;
                    self.access(st, a, ty.store_size(), true, true)?;
                    mem::store_ty(st.mem.get_mut(a).unwrap(), split(a).2, ty, &v);
                    self.hb_store(st, a, *ord, false);
                    st.th[t].at_vis = false;
                    self.wrote(st);
                } else {
                    self.store(st, a, ty, &v)?;
                }
                st.next();
            }
            Inst::Gep { dst, base, off, idx } => {
                let b = self.op(st, base)?;
                let mut v = self.addk(&b, *off as u64);
                for (o, w, scale) in idx {
                    let i = self.op(st, o)?;
                    let i = match i {
                        V::I(x) => V::I((s64(x, *w)).wrapping_mul(*scale) as u64),
                        V::S(e) => {
                            let e = expr::sext_e(e, 64);
                            vof(expr::bin(BinOpK::Mul, e, expr::kon(*scale as u64 as u128, 64)))
                        }
                        _ => return err("gep index"),
                    };
                    v = self.bin(BinOp::Add, 64, &v, &i)?;
                }
                st.set(*dst, v);
                st.next();
            }
            Inst::Bin { dst, op, ty, a, b } => {
                let (x, y) = (self.op(st, a)?, self.op(st, b)?);
                let v = self.bin_ty(*op, ty, &x, &y)?;
                st.set(*dst, v);
                st.next();
            }
            Inst::Icmp { dst, p, ty, a, b } => {
                let (x, y) = (self.op(st, a)?, self.op(st, b)?);
                let v = self.icmp_ty(*p, ty, &x, &y)?;
                st.set(*dst, v);
                st.next();
            }
            Inst::Cast { dst, k, from, to, a } => {
                let x = self.op(st, a)?;
                let v = self.cast(*k, from, to, &x)?;
                st.set(*dst, v);
                st.next();
            }
            Inst::Select { dst, cty, c, ty, a, b } => {
                let cv = self.op(st, c)?;
                if cty.is_agg() {
                    return err("vector select");
                }
                let (x, y) = (self.op(st, a)?, self.op(st, b)?);
                let v = match cv {
                    V::I(k) => {
                        if k & 1 != 0 {
                            x
                        } else {
                            y
                        }
                    }
                    V::S(e) => {
                        if ty.is_agg() || *ty == Ty::Ptr {
                            if self.decide(st, e)? {
                                x
                            } else {
                                y
                            }
                        } else {
                            let w = w_of(ty);
                            vof(expr::ite(e, eof(&x, w), eof(&y, w)))
                        }
                    }
                    _ => return err("select"),
                };
                st.set(*dst, v);
                st.next();
            }
            Inst::Extract { dst, a, idx, .. } => {
                let mut v = self.op(st, a)?;
                for i in idx {
                    v = match &v {
                        V::Agg(l) => l[*i as usize].clone(),
                        _ => return err("extractvalue"),
                    };
                }
                st.set(*dst, v);
                st.next();
            }
            Inst::Insert { dst, a, v, idx, .. } => {
                let base = self.op(st, a)?;
                let x = self.op(st, v)?;
                fn ins(b: &V, idx: &[u32], x: V) -> Option<V> {
                    if idx.is_empty() {
                        return Some(x);
                    }
                    match b {
                        V::Agg(l) => {
                            let mut n: Vec<V> = (**l).clone();
                            let i = idx[0] as usize;
                            n[i] = ins(&n[i].clone(), &idx[1..], x)?;
                            Some(V::Agg(Rc::new(n)))
                        }
                        _ => None,
                    }
                }
                let r = match ins(&base, idx, x) {
                    Some(r) => r,
                    None => return err("insertvalue"),
                };
                st.set(*dst, r);
                st.next();
            }
            Inst::ExtractEl { dst, a, i, .. } => {
                let v = self.op(st, a)?;
                let iv = self.op(st, i)?;
                let k = self.conc(st, &iv, 64)?;
                let r = match &v {
                    V::Agg(l) if (k as usize) < l.len() => l[k as usize].clone(),
                    _ => return err("extractelement"),
                };
                st.set(*dst, r);
                st.next();
            }
            Inst::InsertEl { dst, a, v, i, .. } => {
                let b = self.op(st, a)?;
                let x = self.op(st, v)?;
                let iv = self.op(st, i)?;
                let k = self.conc(st, &iv, 64)?;
                let r = match &b {
                    V::Agg(l) => {
                        let mut n = (**l).clone();
                        n[k as usize] = x;
                        V::Agg(Rc::new(n))
                    }
                    _ => return err("insertelement"),
                };
                st.set(*dst, r);
                st.next();
            }
            Inst::Shuffle { dst, a, b, mask, .. } => {
                let (x, y) = (self.op(st, a)?, self.op(st, b)?);
                let r = match (&x, &y) {
                    (V::Agg(p), V::Agg(q)) => {
                        let n = p.len() as i64;
                        V::Agg(Rc::new(
                            mask.iter()
                                .map(|&k| {
                                    if k < 0 {
                                        V::I(0)
                                    } else if k < n {
                                        p[k as usize].clone()
                                    } else {
                                        q[(k - n) as usize].clone()
                                    }
                                })
                                .collect(),
                        ))
                    }
                    _ => return err("shufflevector"),
                };
                st.set(*dst, r);
                st.next();
            }
            Inst::Br { t } => {
                let t = *t;
                self.jump(st, t)?
            }
            Inst::CondBr { c, t, f } => {
                let (t, f) = (*t, *f);
                let v = self.op(st, c)?;
                let b = match v {
                    V::I(k) => k & 1 != 0,
                    V::S(e) => self.decide(st, e)?,
                    _ => return err("br"),
                };
                self.jump(st, if b { t } else { f })?
            }
            Inst::Switch { ty, v, def, cases } => {
                let x = self.op(st, v)?;
                let to = match x {
                    V::I(k) => cases.iter().find(|c| c.0 == k as u128).map(|c| c.1).unwrap_or(*def),
                    V::W(k) => cases.iter().find(|c| c.0 == *k).map(|c| c.1).unwrap_or(*def),
                    V::S(e) => {
                        let w = w_of(ty);
                        let mut to = *def;
                        // group by target is not needed: decide case by case, model value first
                        let mv = self.eval(st, e);
                        let mut order: Vec<&(u128, u32)> = cases.iter().collect();
                        order.sort_by_key(|c| (c.0 != mv) as u8);
                        for (k, b) in order {
                            let c = expr::cmp(Pred::Eq, e, expr::kon(*k, w));
                            if self.decide(st, c)? {
                                to = *b;
                                break;
                            }
                        }
                        to
                    }
                    _ => return err("switch"),
                };
                self.jump(st, to)?
            }
            Inst::Ret { v } => {
                let r = match v {
                    Some((_, o)) => self.op(st, o)?,
                    None => V::I(0),
                };
                self.pop_frame(st);
                if st.th[t].frames.is_empty() {
                    return Ok(());
                }
                self.ret_to(st, r)?
            }
            Inst::Unreachable => return viol("ub", "unreachable code reached"),
            Inst::Resume { v } => {
                let x = self.op(st, v)?;
                let e = match &x {
                    V::Agg(l) => match l[0] {
                        V::I(a) => a,
                        _ => return err("resume"),
                    },
                    _ => return err("resume"),
                };
                self.pop_frame(st);
                self.unwind(st, e)?
            }
            Inst::LandingPad { dst } => {
                let e = st.th[t].exc;
                st.set(*dst, V::Agg(Rc::new(vec![V::I(e), V::I(1)])));
                st.next();
            }
            Inst::Rmw { dst, op, ty, ptr, v, ord } => {
                let p = self.op(st, ptr)?;
                let a = self.conc(st, &p, 64)?;
                let x = self.op(st, v)?;
                self.visible(st)?;
                self.chk(st, a, ty.size(), true)?;
                self.access(st, a, ty.size(), true, true)?;
                let w = w_of(ty);
                let old = mem::load_scalar(st.mem.get(a).unwrap(), split(a).2, w);
                let new = match op {
                    Rmw::Xchg => x,
                    Rmw::Add => self.bin(BinOp::Add, w, &old, &x)?,
                    Rmw::Sub => self.bin(BinOp::Sub, w, &old, &x)?,
                    Rmw::And => self.bin(BinOp::And, w, &old, &x)?,
                    Rmw::Or => self.bin(BinOp::Or, w, &old, &x)?,
                    Rmw::Xor => self.bin(BinOp::Xor, w, &old, &x)?,
                    Rmw::Nand => {
                        let y = self.bin(BinOp::And, w, &old, &x)?;
                        self.bin(BinOp::Xor, w, &y, &V::I(m64(u64::MAX, w)))?
                    }
                    Rmw::Max | Rmw::Min | Rmw::UMax | Rmw::UMin => {
                        let pr = match op {
                            Rmw::Max => Pred::Sgt,
                            Rmw::Min => Pred::Slt,
                            Rmw::UMax => Pred::Ugt,
                            _ => Pred::Ult,
                        };
                        let c = self.icmp(pr, w, &old, &x);
                        vof(expr::ite(eof(&c, 1), eof(&old, w), eof(&x, w)))
                    }
                };
                mem::store_scalar(st.mem.get_mut(a).unwrap(), split(a).2, w, &new);
                self.hb_load(st, a, *ord);
                self.hb_store(st, a, *ord, true);
                st.th[t].at_vis = false;
                self.wrote(st);
                st.set(*dst, old);
                st.next();
            }
            Inst::CmpXchg { dst, ty, ptr, cmp, new, succ, fail, .. } => {
                let p = self.op(st, ptr)?;
                let a = self.conc(st, &p, 64)?;
                let c = self.op(st, cmp)?;
                let n = self.op(st, new)?;
                self.visible(st)?;
                self.chk(st, a, ty.size(), true)?;
                let w = w_of(ty);
                let old = mem::load_scalar(st.mem.get(a).unwrap(), split(a).2, w);
                let eq = self.icmp(Pred::Eq, w, &old, &c);
                let ok = match eq {
                    V::I(k) => k != 0,
                    V::S(e) => self.decide(st, e)?,
                    _ => return err("cmpxchg"),
                };
                self.access(st, a, ty.size(), ok, true)?;
                if ok {
                    mem::store_scalar(st.mem.get_mut(a).unwrap(), split(a).2, w, &n);
                    self.hb_load(st, a, *succ);
                    self.hb_store(st, a, *succ, true);
                    self.wrote(st);
                } else {
                    self.hb_load(st, a, *fail);
                }
                st.th[t].at_vis = false;
                st.set(*dst, V::Agg(Rc::new(vec![old, V::I(ok as u64)])));
                st.next();
            }
            Inst::Fence { ord } => {
                self.visible(st)?;
                let th = &mut st.th[t];
                th.at_vis = false;
                if ord.acq() {
                    let a = th.acq;
                    vjoin(&mut th.vc, &a);
                }
                if ord.rel() {
                    th.rel = th.vc;
                    th.vc[t] += 1;
                }
                st.next();
            }
            Inst::Call(c) | Inst::Invoke(c) => return self.call(st, c),
            Inst::Unsupported(s) => return err(format!("unsupported instruction: {}", s)),
        }
        Ok(())
    }

    fn addk(&self, b: &V, k: u64) -> V {
        match b {
            V::I(x) => V::I(x.wrapping_add(k)),
            V::S(e) => vof(expr::bin(BinOpK::Add, *e, expr::kon(k as u128, 64))),
            v => v.clone(),
        }
    }
    fn bin_ty(&self, op: BinOp, ty: &Ty, a: &V, b: &V) -> R<V> {
        if let Ty::Vec(_, t) = ty {
            if let (V::Agg(x), V::Agg(y)) = (a, b) {
                let mut o = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    o.push(self.bin(op, w_of(t), p, q)?);
                }
                return Ok(V::Agg(Rc::new(o)));
            }
        }
        self.bin(op, w_of(ty), a, b)
    }
    fn icmp_ty(&self, p: Pred, ty: &Ty, a: &V, b: &V) -> R<V> {
        if let Ty::Vec(_, t) = ty {
            if let (V::Agg(x), V::Agg(y)) = (a, b) {
                return Ok(V::Agg(Rc::new(x.iter().zip(y.iter()).map(|(s, q)| self.icmp(p, w_of(t), s, q)).collect())));
            }
        }
        Ok(self.icmp(p, w_of(ty), a, b))
    }
    fn bin(&self, op: BinOp, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let r = match op {
                    BinOp::Add => x.wrapping_add(y),
                    BinOp::Sub => x.wrapping_sub(y),
                    BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => return viol("ub", "division by zero"),
                    BinOp::UDiv => x / y,
                    BinOp::URem => x % y,
                    BinOp::SDiv => s64(x, w).wrapping_div(s64(y, w)) as u64,
                    BinOp::SRem => s64(x, w).wrapping_rem(s64(y, w)) as u64,
                    BinOp::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinOp::AShr => (s64(x, w) >> y.min(63)) as u64,
                };
                return Ok(V::I(m64(r, w)));
            }
        }
        Ok(vof(expr::bin(op.into(), eof(a, w), eof(b, w))))
    }
    fn icmp(&self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => s64(x, w) < s64(y, w),
                Pred::Sle => s64(x, w) <= s64(y, w),
                Pred::Sgt => s64(x, w) > s64(y, w),
                Pred::Sge => s64(x, w) >= s64(y, w),
            };
            return V::I(r as u64);
        }
        vof(expr::cmp(p, eof(a, w), eof(b, w)))
    }
    fn cast(&self, k: Cast, from: &Ty, to: &Ty, x: &V) -> R<V> {
        if let (Ty::Vec(_, f), Ty::Vec(_, t)) = (from, to) {
            if let V::Agg(l) = x {
                let mut o = vec![];
                for v in l.iter() {
                    o.push(self.cast(k, f, t, v)?);
                }
                return Ok(V::Agg(Rc::new(o)));
            }
        }
        if from.is_agg() != to.is_agg() {
            // bitcast between a vector and an integer
            if let (Ty::Vec(n, t), V::Agg(l)) = (from, x) {
                let w = w_of(t);
                let mut e = eof(&l[0], w);
                for i in 1..*n as usize {
                    e = expr::concat(eof(&l[i], w), e);
                }
                return Ok(vof(e));
            }
            if let Ty::Vec(n, t) = to {
                let w = w_of(t);
                let e = eof(x, w_of(from));
                return Ok(V::Agg(Rc::new((0..*n as u32).map(|i| vof(expr::extract(e, i * w, w))).collect())));
            }
            return err("aggregate cast");
        }
        if from.is_agg() {
            return Ok(x.clone());
        }
        let (fw, tw) = (w_of(from), w_of(to));
        match k {
            Cast::Move => Ok(x.clone()),
            Cast::ZExt | Cast::Trunc | Cast::SExt => {
                if let V::I(v) = x {
                    if tw <= 64 {
                        return Ok(V::I(match k {
                            Cast::SExt => m64(s64(*v, fw) as u64, tw),
                            _ => m64(*v, tw),
                        }));
                    }
                }
                let e = eof(x, fw);
                Ok(vof(match k {
                    Cast::ZExt => expr::zext(e, tw),
                    Cast::SExt => expr::sext_e(e, tw),
                    _ => expr::extract(e, 0, tw),
                }))
            }
        }
    }

    // ---------- calls ----------
    fn fn_of(&mut self, st: &State, a: u64) -> R<u32> {
        let (r, i, o) = split(a);
        if r != 1 || o != 0 || i == 0 || i > self.m.fnames.len() {
            return viol("memory", format!("call through an invalid function pointer {:#x} {}", a, self.describe(st, a)));
        }
        Ok(i as u32 - 1)
    }
    fn target(&mut self, id: u32) -> R<Tgt> {
        if let Some(t) = self.tg[id as usize] {
            return Ok(t);
        }
        let name = self.m.fnames[id as usize].clone();
        let t = match builtin(&name) {
            Some(b) => Tgt::B(b),
            None => {
                if self.m.fbody[id as usize].is_none() {
                    return err(format!("call of unmodelled external function {}", name));
                }
                Tgt::F(self.func(id).map_err(Stop::Error)?)
            }
        };
        self.tg[id as usize] = Some(t);
        Ok(t)
    }
    fn call(&mut self, st: &mut State, c: &Rc<CallI>) -> R<()> {
        let id = match &c.callee {
            Callee::Name(n) => {
                let k = c.tgt.get();
                if k != u32::MAX {
                    k
                } else {
                    let n2: Rc<str> = self.m.aliases.get(n).cloned().unwrap_or_else(|| n.clone());
                    let k = match self.m.fmap.get(&n2) {
                        Some(k) => *k,
                        None => return err(format!("call of unknown function {}", n)),
                    };
                    c.tgt.set(k);
                    k
                }
            }
            Callee::Ptr(o) => {
                let v = self.op(st, o)?;
                let a = self.conc(st, &v, 64)?;
                self.fn_of(st, a)?
            }
            Callee::Asm => {
                // empty asm used as an optimisation barrier (black_box)
                return self.ret_to(st, V::I(0));
            }
        };
        let mut args = Vec::with_capacity(c.args.len());
        for (_, o) in &c.args {
            args.push(self.op(st, o)?);
        }
        match self.target(id)? {
            Tgt::F(f) => self.push_call(st, f, args),
            Tgt::B(b) => self.builtin(st, b, args, c),
        }
    }
    fn push_call(&mut self, st: &mut State, f: &'static Func, mut args: Vec<V>) -> R<()> {
        self.executed[f.id as usize] = true;
        args.truncate(f.nparams as usize);
        let t = st.cur;
        if st.th[t].frames.len() > 400 {
            return viol("stack", "call depth exceeds 400");
        }
        let fr = self.frame(st, t, f, args);
        if self.o.trace {
            eprintln!("{}{}> {}", " ".repeat(st.th[t].frames.len()), t, crate::demangle(&f.name));
        }
        st.th[t].frames.push(Rc::new(fr));
        Ok(())
    }

    fn builtin(&mut self, st: &mut State, b: B, args: Vec<V>, c: &Rc<CallI>) -> R<()> {
        let t = st.cur;
        let aw = |i: usize| w_of(&c.args[i].0);
        macro_rules! conc {
            ($i:expr) => {{
                let v = args[$i].clone();
                self.conc(st, &v, 64)?
            }};
        }
        let r: V = match b {
            B::VpSym => {
                let w = conc!(0) as u32;
                let e = self.fresh(st, w);
                vof(expr::zext(e, 64))
            }
            B::VpAssume => {
                let w = aw(0);
                let e = expr::cmp(Pred::Ne, eof(&args[0], w), expr::kon(0, w));
                self.assume(st, e)?;
                V::I(0)
            }
            B::VpCheck => {
                let w = aw(0);
                let e = expr::cmp(Pred::Ne, eof(&args[0], w), expr::kon(0, w));
                let p = conc!(1);
                let n = conc!(2);
                let msg = String::from_utf8_lossy(&self.read_bytes(st, p, n)?).into_owned();
                self.must(st, e, &msg)?;
                V::I(0)
            }
            B::VpCover => {
                let k = conc!(0);
                self.covers.insert(k);
                V::I(0)
            }
            B::VpChoose | B::GenIndex => {
                let n = conc!(0);
                if n == 0 {
                    return viol("panic", "choice from an empty range");
                }
                let fix = self.o.race as u64 * 0;
                let _ = fix;
                if n == 1 {
                    V::I(0)
                } else {
                    // a symbolic variable ranging over 0..n; every feasible value is explored
                    let e = self.fresh(st, 8);
                    let lt = expr::cmp(Pred::Ult, e, expr::kon(n as u128, 8));
                    self.assume(st, lt)?;
                    // explore by forking now: the variable is fixed in each copy
                    for k in (1..n).rev() {
                        let cnd = expr::cmp(Pred::Eq, e, expr::kon(k as u128, 8));
                        if let Some(m) = self.feasible(st, cnd)? {
                            let mut o = st.clone();
                            for (i, v) in m.iter() {
                                o.model[*i as usize] = *v;
                            }
                            o.pc.push(cnd);
                            self.ret_to(&mut o, V::I(k))?;
                            self.forks += 1;
                            self.work.push_back(o);
                        }
                    }
                    let cnd = expr::cmp(Pred::Eq, e, expr::kon(0, 8));
                    self.assume(st, cnd)?;
                    V::I(0)
                }
            }
            B::VpConc => {
                let v = conc!(0);
                V::I(v)
            }
            B::VpSpawn => {
                let fa = conc!(0);
                let id = self.fn_of(st, fa)?;
                let f = self.func(id).map_err(Stop::Error)?;
                if st.th.len() >= MAXT {
                    return err("too many threads");
                }
                let a = args[1].clone();
                let u = self.new_thread(st, f, vec![a]);
                V::I(u as u64)
            }
            B::VpJoin => {
                let u = conc!(0) as usize;
                self.visible(st)?;
                if st.th[u].status != Status::Done {
                    st.th[t].status = Status::Join(u);
                    return self.switch_away(st, 'b');
                }
                st.th[t].at_vis = false;
                let v = st.th[u].vc;
                vjoin(&mut st.th[t].vc, &v);
                V::I(0)
            }
            B::VpYield => {
                self.visible(st)?;
                st.th[t].at_vis = false;
                V::I(0)
            }
            B::VpGGet => {
                let i = conc!(0) as usize;
                st.ghost[i].clone()
            }
            B::VpGSet => {
                let i = conc!(0) as usize;
                Rc::make_mut(&mut st.ghost)[i] = args[1].clone();
                V::I(0)
            }
            B::VpGAdd => {
                let i = conc!(0) as usize;
                let v = self.bin(BinOp::Add, 64, &st.ghost[i], &args[1])?;
                Rc::make_mut(&mut st.ghost)[i] = v.clone();
                v
            }
            B::VpWake => {
                let i = conc!(0) as usize;
                Rc::make_mut(&mut st.ghost)[i] = V::I(1);
                self.hb_store(st, i as u64 | 1 << 63, Ord::Release, true);
                for u in 0..st.th.len() {
                    if st.th[u].status == Status::Ghost(i) {
                        st.th[u].status = Status::Run;
                    }
                }
                V::I(0)
            }
            B::VpWait => {
                let i = conc!(0) as usize;
                self.visible(st)?;
                if matches!(st.ghost[i], V::I(0)) {
                    st.th[t].status = Status::Ghost(i);
                    return self.switch_away(st, 'b');
                }
                st.th[t].at_vis = false;
                Rc::make_mut(&mut st.ghost)[i] = V::I(0);
                self.hb_load(st, i as u64 | 1 << 63, Ord::Acquire);
                V::I(0)
            }
            B::VpLog => {
                st.log = Some(Rc::new(Link { v: args[0].clone(), p: st.log.take() }));
                V::I(0)
            }
            B::VpTrace => {
                if self.o.trace {
                    eprintln!("trace {:?}", args[0]);
                }
                V::I(0)
            }
            B::VpParam => {
                let i = conc!(0) as usize;
                V::I(self.o.params.get(i).copied().unwrap_or(0))
            }
            B::VpLive => V::I(st.mem.live as u64),
            B::VpTid => V::I(t as u64),
            B::Alloc | B::AllocZ => {
                let n = conc!(0);
                V::I(self.alloc(st, n, false)?)
            }
            B::Malloc => {
                let n = conc!(0);
                V::I(self.alloc(st, n, false)?)
            }
            B::Calloc => {
                let n = conc!(0);
                let k = conc!(1);
                V::I(self.alloc(st, n * k, false)?)
            }
            B::PosixMemalign => {
                let p = conc!(0);
                let n = conc!(2);
                let a = self.alloc(st, n, false)?;
                self.store(st, p, &Ty::Ptr, &V::I(a))?;
                V::I(0)
            }
            B::Dealloc => {
                let a = conc!(0);
                let n = conc!(1);
                if let Some(o) = st.mem.get(a) {
                    if o.size as u64 != n {
                        return viol("memory", format!("dealloc with size {} of an object of size {}", n, o.size));
                    }
                }
                self.free(st, a)?;
                V::I(0)
            }
            B::Free => {
                let a = conc!(0);
                if a != 0 {
                    self.free(st, a)?;
                }
                V::I(0)
            }
            B::Realloc | B::CRealloc => {
                let a = conc!(0);
                let n = if b == B::Realloc { conc!(3) } else { conc!(1) };
                if st.mem.get(a).is_none() {
                    if b == B::CRealloc && a == 0 {
                        let r = self.alloc(st, n, false)?;
                        return self.ret_to(st, V::I(r));
                    }
                    return viol("memory", format!("realloc of an invalid pointer: {}", self.describe(st, a)));
                }
                let old = st.mem.get(a).unwrap().size as u64;
                let d = self.alloc(st, n, false)?;
                self.copy(st, d, a, old.min(n))?;
                self.free(st, a)?;
                V::I(d)
            }
            B::Memcpy => {
                let d = conc!(0);
                let s = conc!(1);
                let n = conc!(2);
                self.copy(st, d, s, n)?;
                args[0].clone()
            }
            B::Memset => {
                let d = conc!(0);
                let n = conc!(2);
                if n > 0 {
                    self.chk(st, d, n, true)?;
                    self.access(st, d, n, true, false)?;
                    let v = match &args[1] {
                        V::S(e) => vof(expr::extract(*e, 0, 8)),
                        V::I(x) => V::I(x & 255),
                        _ => return err("memset"),
                    };
                    let o = st.mem.get_mut(d).unwrap();
                    let off = split(d).2;
                    if let V::I(x) = v {
                        o.data[off as usize..(off as u64 + n) as usize].fill(x as u8);
                        mem::clear_sym(o, off, n as u32);
                    } else {
                        for k in 0..n as u32 {
                            mem::store_scalar(o, off + k, 8, &v);
                        }
                    }
                }
                args[0].clone()
            }
            B::Memcmp | B::Bcmp => {
                let p = conc!(0);
                let q = conc!(1);
                let n = conc!(2);
                if n == 0 {
                    V::I(0)
                } else {
                    self.chk(st, p, n, false)?;
                    self.chk(st, q, n, false)?;
                    self.access(st, p, n, false, false)?;
                    self.access(st, q, n, false, false)?;
                    let (po, qo) = (split(p).2, split(q).2);
                    let mut r = expr::kon(0, 32);
                    for k in (0..n as u32).rev() {
                        let x = eof(&mem::load_scalar(st.mem.get(p).unwrap(), po + k, 8), 8);
                        let y = eof(&mem::load_scalar(st.mem.get(q).unwrap(), qo + k, 8), 8);
                        let ne = expr::cmp(Pred::Ne, x, y);
                        let val = if b == B::Bcmp {
                            expr::kon(1, 32)
                        } else {
                            let lt = expr::cmp(Pred::Ult, x, y);
                            expr::ite(lt, expr::kon(u32::MAX as u128, 32), expr::kon(1, 32))
                        };
                        r = expr::ite(ne, val, r);
                    }
                    vof(r)
                }
            }
            B::Strlen => {
                let p = conc!(0);
                let mut k = 0;
                loop {
                    let v = self.load(st, p + k, &Ty::Int(8))?;
                    if self.conc(st, &v, 8)? == 0 {
                        break;
                    }
                    k += 1;
                }
                V::I(k)
            }
            B::UMax | B::UMin | B::SMax | B::SMin => {
                let w = w_of(&c.ret);
                let p = match b {
                    B::UMax => Pred::Ugt,
                    B::UMin => Pred::Ult,
                    B::SMax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                match self.icmp(p, w, &args[0], &args[1]) {
                    V::I(k) => args[1 - k as usize].clone(),
                    V::S(e) => vof(expr::ite(e, eof(&args[0], w), eof(&args[1], w))),
                    _ => return err("minmax"),
                }
            }
            B::USubSat | B::UAddSat => {
                let w = w_of(&c.ret);
                let (x, y) = (&args[0], &args[1]);
                if b == B::USubSat {
                    let lt = self.icmp(Pred::Ult, w, x, y);
                    let d = self.bin(BinOp::Sub, w, x, y)?;
                    vof(expr::ite(eof(&lt, 1), expr::kon(0, w), eof(&d, w)))
                } else {
                    let s = self.bin(BinOp::Add, w, x, y)?;
                    let ov = self.icmp(Pred::Ult, w, &s, x);
                    vof(expr::ite(eof(&ov, 1), expr::kon(u128::MAX, w), eof(&s, w)))
                }
            }
            B::SSubSat | B::SAddSat => {
                let w = w_of(&c.ret);
                let (x, y) = (&args[0], &args[1]);
                let zero = V::I(0);
                let sub = b == B::SSubSat;
                let s = self.bin(if sub { BinOp::Sub } else { BinOp::Add }, w, x, y)?;
                // overflow: the operands' signs (differ for sub, agree for add) and the result's sign is not x's
                let xs = self.bin(BinOp::Xor, w, x, &s)?;
                let xy = self.bin(BinOp::Xor, w, if sub { x } else { &s }, y)?;
                let ov = self.bin(BinOp::And, w, &xs, &xy)?;
                let ov = self.icmp(Pred::Slt, w, &ov, &zero);
                let neg = self.icmp(Pred::Slt, w, x, &zero);
                let sat = expr::ite(eof(&neg, 1), expr::kon(1u128 << (w - 1), w), expr::kon((1u128 << (w - 1)) - 1, w));
                vof(expr::ite(eof(&ov, 1), sat, eof(&s, w)))
            }
            B::Getrandom => {
                let p = conc!(0);
                let l = conc!(1);
                for k in 0..l {
                    self.store(st, p + k, &Ty::Int(8), &V::I(0x5a))?;
                }
                V::I(l)
            }
            B::OvUAdd | B::OvUSub | B::OvUMul | B::OvSAdd | B::OvSSub | B::OvSMul => {
                let w = aw(0);
                let (x, y) = (&args[0], &args[1]);
                let op = match b {
                    B::OvUAdd | B::OvSAdd => BinOp::Add,
                    B::OvUSub | B::OvSSub => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let s = self.bin(op, w, x, y)?;
                let ov = match b {
                    B::OvUAdd => self.icmp(Pred::Ult, w, &s, x),
                    B::OvUSub => self.icmp(Pred::Ult, w, x, y),
                    _ => {
                        let word = |v: &V| match v {
                            V::I(_) => true,
                            V::W(x) => **x >> 64 == 0,
                            V::S(e) => matches!(expr::node(*e).k, expr::K::ZExt(x) if expr::width(x) <= 64),
                            _ => false,
                        };
                        if w > 64 && matches!(b, B::OvSAdd | B::OvSSub) {
                            // by the signs
                            let xs = self.bin(BinOp::Xor, w, x, &s)?;
                            let xy = self.bin(BinOp::Xor, w, if b == B::OvSSub { x } else { &s }, y)?;
                            let ov = self.bin(BinOp::And, w, &xs, &xy)?;
                            self.icmp(Pred::Slt, w, &ov, &V::I(0))
                        } else if w > 64 {
                            // products of widened words
                            if b != B::OvUMul || !word(x) || !word(y) {
                                return err("wide overflow op");
                            }
                            V::I(0)
                        } else {
                            let signed = b != B::OvUMul;
                            let ext = |v: &V| {
                                let e = eof(v, w);
                                if signed {
                                    expr::sext_e(e, 2 * w)
                                } else {
                                    expr::zext(e, 2 * w)
                                }
                            };
                            let full = expr::bin(op.into(), ext(x), ext(y));
                            vof(expr::cmp(Pred::Ne, full, ext(&s)))
                        }
                    }
                };
                V::Agg(Rc::new(vec![s, ov]))
            }
            B::Ctlz | B::Cttz | B::Ctpop | B::Bswap | B::Bitreverse => {
                let w = w_of(&c.ret);
                let e = eof(&args[0], w);
                let bit = |i: u32| expr::extract(e, i, 1);
                match b {
                    B::Ctlz => {
                        let mut r = expr::kon(w as u128, w);
                        for i in 0..w {
                            r = expr::ite(bit(i), expr::kon((w - 1 - i) as u128, w), r);
                        }
                        vof(r)
                    }
                    B::Cttz => {
                        let mut r = expr::kon(w as u128, w);
                        for i in (0..w).rev() {
                            r = expr::ite(bit(i), expr::kon(i as u128, w), r);
                        }
                        vof(r)
                    }
                    B::Ctpop => {
                        let mut r = expr::kon(0, w);
                        for i in 0..w {
                            r = expr::bin(BinOpK::Add, r, expr::zext(bit(i), w));
                        }
                        vof(r)
                    }
                    B::Bswap => {
                        let mut r = expr::extract(e, 0, 8);
                        for i in 1..w / 8 {
                            r = expr::concat(r, expr::extract(e, i * 8, 8));
                        }
                        vof(r)
                    }
                    _ => {
                        let mut r = bit(0);
                        for i in 1..w {
                            r = expr::concat(r, bit(i));
                        }
                        vof(r)
                    }
                }
            }
            B::Abs => {
                let w = w_of(&c.ret);
                let neg = self.icmp(Pred::Slt, w, &args[0], &V::I(0));
                let n = self.bin(BinOp::Sub, w, &V::I(0), &args[0])?;
                vof(expr::ite(eof(&neg, 1), eof(&n, w), eof(&args[0], w)))
            }
            B::Fshl | B::Fshr => {
                let w = w_of(&c.ret);
                let s = (conc!(2) % w as u64) as u32;
                let (h, l) = (eof(&args[0], w), eof(&args[1], w));
                if w > 64 {
                    return err("wide funnel shift");
                }
                let cat = expr::concat(h, l);
                vof(if b == B::Fshl { expr::extract(cat, w - s, w) } else { expr::extract(cat, s, w) })
            }
            B::Ucmp | B::Scmp => {
                let w = aw(0);
                let rw = w_of(&c.ret);
                let (lt, gt) = if b == B::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, w, &args[0], &args[1]);
                let g = self.icmp(gt, w, &args[0], &args[1]);
                vof(expr::ite(eof(&l, 1), expr::kon(u128::MAX, rw), expr::zext(eof(&g, 1), rw)))
            }
            B::IsConstant => V::I(0),
            B::Nop0 | B::Void => V::I(0),
            B::Ret1 => V::I(1),
            B::RetM1 => V::I(m64(u64::MAX, w_of(&c.ret))),
            B::Expect => args[0].clone(),
            B::Enoent => {
                let e = self.errno(st)?;
                self.store(st, e, &Ty::Int(32), &V::I(2))?;
                V::I(m64(u64::MAX, w_of(&c.ret)))
            }
            B::ThreadLocalAddr => {
                let g = conc!(0);
                let (_, gi, _) = split(g);
                let key = gi as u32;
                if let Some(x) = st.th[t].tls.iter().find(|x| x.0 == key) {
                    V::I(x.1)
                } else {
                    let gd = &self.m.globals[gi - 1];
                    let a = self.alloc(st, gd.ty.size(), true)?;
                    if let Some(i) = &gd.init {
                        let o = st.mem.get_mut(a).unwrap();
                        self.m.init_bytes(&gd.ty, i, &mut o.data).map_err(Stop::Error)?;
                    }
                    st.th[t].tls.push((key, a));
                    V::I(a)
                }
            }
            B::Pause | B::Yield => {
                self.visible(st)?;
                st.th[t].at_vis = false;
                self.ret_to(st, V::I(0))?;
                return self.do_yield(st);
            }
            B::Trap => return viol("abort", "process abort"),
            B::AbortPanic => return viol("abort", "non-unwinding panic (abort)"),
            B::RustPanic => {
                let id = match self.panic_fn {
                    Some(i) => i,
                    None => return viol("panic", "panic"),
                };
                let f = self.func(id).map_err(Stop::Error)?;
                st.pstack = Some(Rc::new(st.th[t].frames.iter().rev().map(|f| f.f.id).collect()));
                return self.push_call(st, f, vec![]);
            }
            B::Raise => {
                let e = conc!(0);
                return self.unwind(st, e);
            }
            B::DeleteExc => V::I(0),
            B::Syscall => {
                let n = conc!(0);
                match n {
                    202 => return self.futex(st, args),
                    318 => {
                        let p = conc!(1);
                        let l = conc!(2);
                        for k in 0..l {
                            self.store(st, p + k, &Ty::Int(8), &V::I(0x5a))?;
                        }
                        V::I(l)
                    }
                    _ => return err(format!("syscall {}", n)),
                }
            }
            B::Errno => V::I(self.errno(st)?),
            B::PthreadCreate => {
                let p = conc!(0);
                let fa = conc!(2);
                let id = self.fn_of(st, fa)?;
                let f = self.func(id).map_err(Stop::Error)?;
                if st.th.len() >= MAXT {
                    return err("too many threads");
                }
                let a = args[3].clone();
                self.chk(st, p, 8, true)?;
                let u = self.new_thread(st, f, vec![a]);
                self.store(st, p, &Ty::Ptr, &V::I(u as u64 + 1))?;
                V::I(0)
            }
            B::PthreadJoin => {
                let u = conc!(0) as usize - 1;
                self.visible(st)?;
                if st.th[u].status != Status::Done {
                    st.th[t].status = Status::Join(u);
                    return self.switch_away(st, 'b');
                }
                st.th[t].at_vis = false;
                let v = st.th[u].vc;
                vjoin(&mut st.th[t].vc, &v);
                V::I(0)
            }
            B::PthreadDetach => V::I(0),
            B::PthreadSelf => V::I(t as u64 + 1),
            B::KeyCreate => {
                let p = conc!(0);
                let k = st.nkeys;
                self.store(st, p, &Ty::Int(32), &V::I(k))?;
                st.nkeys += 1;
                V::I(0)
            }
            B::KeyGet => {
                let k = conc!(0);
                V::I(st.th[t].keys.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(0))
            }
            B::KeySet => {
                let k = conc!(0);
                let v = conc!(1);
                st.th[t].keys.retain(|x| x.0 != k);
                st.th[t].keys.push((k, v));
                V::I(0)
            }
            B::AtExit => {
                let f = conc!(0);
                let a = conc!(1);
                st.th[t].dtors.push((f, a));
                V::I(0)
            }
            B::Getenv => V::I(0),
            B::Write => {
                let n = conc!(2);
                V::I(n)
            }
            B::Sysconf => {
                let k = conc!(0);
                V::I(match k {
                    30 => 4096,
                    84 => 2,
                    _ => m64(u64::MAX, 64),
                })
            }
            B::ClockGettime => {
                let p = conc!(1);
                st.clock += 1;
                let k = st.clock;
                self.store(st, p, &Ty::Int(64), &V::I(k))?;
                self.store(st, p + 8, &Ty::Int(64), &V::I(0))?;
                V::I(0)
            }
        };
        self.ret_to(st, r)
    }
    fn errno(&mut self, st: &mut State) -> R<u64> {
        let t = st.cur;
        let key = u32::MAX;
        if let Some(x) = st.th[t].tls.iter().find(|x| x.0 == key) {
            return Ok(x.1);
        }
        let a = self.alloc(st, 4, true)?;
        st.th[t].tls.push((key, a));
        Ok(a)
    }
    fn futex(&mut self, st: &mut State, args: Vec<V>) -> R<()> {
        let t = st.cur;
        let a = self.conc(st, &args[1], 64)?;
        let op = self.conc(st, &args[2], 64)? & 0x7f;
        match op {
            0 | 9 => {
                let val = self.conc(st, &args[3], 32)? as u32;
                self.visible(st)?;
                self.chk(st, a, 4, false)?;
                let cur = mem::load_scalar(st.mem.get(a).unwrap(), split(a).2, 32);
                let cur = self.conc(st, &cur, 32)? as u32;
                if cur != val {
                    let e = self.errno(st)?;
                    self.store(st, e, &Ty::Int(32), &V::I(11))?;
                    st.th[t].at_vis = false;
                    return self.ret_to(st, V::I(u64::MAX));
                }
                st.th[t].at_vis = false;
                self.ret_to(st, V::I(0))?;
                st.th[t].status = Status::Futex(a);
                self.switch_away(st, 'b')
            }
            1 | 10 => {
                let n = self.conc(st, &args[3], 32)? as u32 as u64;
                self.visible(st)?;
                let waiters: Vec<usize> = (0..st.th.len()).filter(|&u| st.th[u].status == Status::Futex(a)).collect();
                st.th[t].at_vis = false;
                let k = (n as i32).max(0) as usize;
                if waiters.len() > k && k == 1 {
                    // which waiter is woken is a scheduling choice, recorded as an input
                    let e = self.fresh(st, 8);
                    let lt = expr::cmp(Pred::Ult, e, expr::kon(waiters.len() as u128, 8));
                    self.assume(st, lt)?;
                    for (j, u) in waiters.iter().enumerate().skip(1) {
                        let cnd = expr::cmp(Pred::Eq, e, expr::kon(j as u128, 8));
                        let mut o = st.clone();
                        let vi = o.model.len() - 1;
                        o.model[vi] = j as u128;
                        o.pc.push(cnd);
                        o.th[*u].status = Status::Run;
                        self.ret_to(&mut o, V::I(1))?;
                        self.forks += 1;
                        self.work.push_back(o);
                    }
                    let cnd = expr::cmp(Pred::Eq, e, expr::kon(0, 8));
                    self.assume(st, cnd)?;
                    st.th[waiters[0]].status = Status::Run;
                    return self.ret_to(st, V::I(1));
                }
                let m = waiters.len().min(k);
                for u in &waiters[..m] {
                    st.th[*u].status = Status::Run;
                }
                self.ret_to(st, V::I(m as u64))
            }
            _ => err(format!("futex op {}", op)),
        }
    }
}

#[allow(non_upper_case_globals)]
const Sh0: mem::Sh = mem::Sh { wt: 0, wc: 0, r: [0; MAXT], aw: [0; MAXT], ar: [0; MAXT] };

fn vjoin(a: &mut Vc, b: &Vc) {
    for i in 0..MAXT {
        if b[i] > a[i] {
            a[i] = b[i];
        }
    }
}

/// functions with modelled semantics, by symbol name
fn builtin(n: &str) -> Option<B> {
    Some(match n {
        "vp_sym" => B::VpSym,
        "vp_assume" => B::VpAssume,
        "vp_check" => B::VpCheck,
        "vp_cover" => B::VpCover,
        "vp_choose" => B::VpChoose,
        "vp_spawn" => B::VpSpawn,
        "vp_join" => B::VpJoin,
        "vp_yield" => B::VpYield,
        "vp_gget" => B::VpGGet,
        "vp_gset" => B::VpGSet,
        "vp_gadd" => B::VpGAdd,
        "vp_log" => B::VpLog,
        "vp_param" => B::VpParam,
        "vp_live" => B::VpLive,
        "vp_conc" => B::VpConc,
        "vp_tid" => B::VpTid,
        "vp_wake" => B::VpWake,
        "vp_wait" => B::VpWait,
        "vp_trace" => B::VpTrace,
        "malloc" => B::Malloc,
        "calloc" => B::Calloc,
        "realloc" => B::CRealloc,
        "free" => B::Free,
        "posix_memalign" => B::PosixMemalign,
        "memcmp" => B::Memcmp,
        "bcmp" => B::Bcmp,
        "memcpy" | "memmove" => B::Memcpy,
        "memset" => B::Memset,
        "strlen" => B::Strlen,
        "sched_yield" | "nanosleep" | "clock_nanosleep" => B::Yield,
        "abort" | "exit" | "_exit" => B::Trap,
        "_Unwind_RaiseException" => B::Raise,
        "_Unwind_DeleteException" => B::DeleteExc,
        "syscall" => B::Syscall,
        "__errno_location" => B::Errno,
        "pthread_create" => B::PthreadCreate,
        "pthread_join" => B::PthreadJoin,
        "pthread_detach" => B::PthreadDetach,
        "pthread_self" => B::PthreadSelf,
        "pthread_attr_init" | "pthread_attr_setstacksize" | "pthread_attr_destroy" | "pthread_setname_np" | "prctl" | "pthread_key_delete" | "sigaltstack" | "mprotect" | "munmap" => B::Nop0,
        "pthread_key_create" => B::KeyCreate,
        "pthread_getspecific" => B::KeyGet,
        "pthread_setspecific" => B::KeySet,
        "__cxa_thread_atexit_impl" => B::AtExit,
        "getrandom" => B::Getrandom,
        "getenv" | "dlsym" | "getauxval" => B::Getenv,
        "open64" | "open" | "statx" | "stat64" | "fstat64" | "readlink" | "sched_getaffinity" => B::Enoent,
        "gettid" => B::PthreadSelf,
        "write" => B::Write,
        "sysconf" => B::Sysconf,
        "clock_gettime" => B::ClockGettime,
        "llvm.trap" | "llvm.debugtrap" | "llvm.ubsantrap" => B::Trap,
        "llvm.x86.sse2.pause" => B::Pause,
        "llvm.assume" => B::Void,
        _ => {
            if let Some(r) = n.strip_prefix("llvm.") {
                let p = |s: &str| r.starts_with(s);
                return Some(if p("memcpy.") || p("memmove.") {
                    B::Memcpy
                } else if p("memset.") {
                    B::Memset
                } else if p("umax.") {
                    B::UMax
                } else if p("umin.") {
                    B::UMin
                } else if p("smax.") {
                    B::SMax
                } else if p("smin.") {
                    B::SMin
                } else if p("usub.sat") {
                    B::USubSat
                } else if p("uadd.sat") {
                    B::UAddSat
                } else if p("ssub.sat") {
                    B::SSubSat
                } else if p("sadd.sat") {
                    B::SAddSat
                } else if p("uadd.with") {
                    B::OvUAdd
                } else if p("usub.with") {
                    B::OvUSub
                } else if p("umul.with") {
                    B::OvUMul
                } else if p("sadd.with") {
                    B::OvSAdd
                } else if p("ssub.with") {
                    B::OvSSub
                } else if p("smul.with") {
                    B::OvSMul
                } else if p("ctlz.") {
                    B::Ctlz
                } else if p("cttz.") {
                    B::Cttz
                } else if p("ctpop.") {
                    B::Ctpop
                } else if p("bswap.") {
                    B::Bswap
                } else if p("bitreverse.") {
                    B::Bitreverse
                } else if p("abs.") {
                    B::Abs
                } else if p("fshl.") {
                    B::Fshl
                } else if p("fshr.") {
                    B::Fshr
                } else if p("ucmp.") {
                    B::Ucmp
                } else if p("scmp.") {
                    B::Scmp
                } else if p("is.constant") {
                    B::IsConstant
                } else if p("threadlocal.address") {
                    B::ThreadLocalAddr
                } else if p("expect") {
                    B::Expect
                } else if p("lifetime") || p("experimental.noalias") || p("dbg") || p("donothing") || p("invariant") || p("prefetch") {
                    B::Void
                } else {
                    return None;
                });
            }
            let e = |s: &str| n.ends_with(s);
            if e("7___rustc12___rust_alloc") || n == "__rust_alloc" {
                B::Alloc
            } else if e("7___rustc14___rust_dealloc") || n == "__rust_dealloc" {
                B::Dealloc
            } else if e("7___rustc14___rust_realloc") || n == "__rust_realloc" {
                B::Realloc
            } else if e("7___rustc19___rust_alloc_zeroed") || n == "__rust_alloc_zeroed" {
                B::AllocZ
            } else if e("17rust_begin_unwind") {
                B::RustPanic
            } else if e("4core9panicking14panic_nounwind") || e("4core9panicking18panic_nounwind_fmt") || e("4core9panicking30panic_nounwind_nobacktrace") || e("4core9panicking19panic_cannot_unwind") || e("4core9panicking16panic_in_cleanup") {
                B::AbortPanic
            } else if n.contains("12futures_util") && e("9gen_index") {
                B::GenIndex
            } else {
                return None;
            }
        }
    })
}
#[allow(unused)]
fn unused(_: ir::Ord) {}
