//! Executors: block_on, LocalPool, ThreadPool, enter.
use crate::harness;
use crate::rt::*;
use futures::channel::oneshot;
use futures::executor::{self, block_on, enter, LocalPool, LocalSpawner, ThreadPool};
use futures::future::{FutureObj, LocalFutureObj};
use futures::stream::Stream;
use futures::task::{AtomicWaker, LocalSpawn, LocalSpawnExt, Spawn, SpawnExt};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

// ---- model of a pool's tasks
const MAXT: usize = 3;
#[derive(Default)]
struct T0 {
    spawned: bool,
    done: bool,
    gone: bool,
    /// must be polled before the pool may call itself stalled
    due: bool,
    polling: bool,
    wk: Option<Waker>,
}
struct M {
    t: [T0; MAXT],
    n: usize,
    completed: usize,
    budget: usize,
    ext: bool,
    sp: Option<LocalSpawner>,
    main: Option<Waker>,
    main_due: bool,
    waiting: u32,
}
type Mr = Rc<RefCell<M>>;
struct Tsk {
    i: usize,
    m: Mr,
}
impl Drop for Tsk {
    fn drop(&mut self) {
        let mut m = self.m.borrow_mut();
        check(!m.t[self.i].gone, "task dropped twice");
        m.t[self.i].gone = true;
        m.t[self.i].due = false;
    }
}
fn new_task(m: &Mr) -> Option<Tsk> {
    let mut b = m.borrow_mut();
    if b.n == MAXT {
        return None;
    }
    let i = b.n;
    b.n += 1;
    b.t[i].spawned = true;
    b.t[i].due = true;
    Some(Tsk { i, m: m.clone() })
}
fn wake_task(m: &Mr, i: usize) {
    let w = {
        let mut b = m.borrow_mut();
        let t = &mut b.t[i];
        if t.wk.is_none() {
            return;
        }
        if !t.done && !t.gone {
            t.due = true
        }
        t.wk.clone()
    };
    if let Some(w) = w {
        w.wake()
    }
}
fn sub_spawn(m: &Mr, ok: bool) {
    let sp = m.borrow().sp.clone();
    if let (Some(sp), Some(t)) = (sp, new_task(m)) {
        let i = t.i;
        check(sp.status().is_ok() == ok && sp.status_local().is_ok() == ok, "spawner status");
        // the Send form goes the same way
        let r = if flip() { if i & 1 == 1 { sp.spawn_obj(unsafe { LocalFutureObj::new(Box::new(t)).into_future_obj() }) } else { sp.spawn_local_obj(Box::pin(t).into()) } } else { sp.spawn_local(t) };
        check(r.is_ok() == ok, "spawn result");
        if !ok {
            check(m.borrow().t[i].gone, "refused task not dropped")
        }
    }
}
impl Future for Tsk {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let m = &self.m;
        let i = self.i;
        {
            let mut b = m.borrow_mut();
            check(!b.t[i].done, "task polled after completion");
            check(!b.t[i].polling, "task polled reentrantly");
            b.t[i].polling = true;
            b.t[i].due = false;
            b.t[i].wk = Some(cx.waker().clone());
        }
        check(enter().is_err(), "executor not marked as entered while a task runs");
        let can = m.borrow().budget > 0;
        let r = match if can { choose(if m.borrow().ext { 5 } else { 4 }) } else { 0 } {
            0 => true,
            k => {
                m.borrow_mut().budget -= 1;
                match k {
                    1 => {
                        // wakes itself
                        m.borrow_mut().t[i].due = true;
                        cx.waker().wake_by_ref();
                        cover(1);
                        false
                    }
                    2 => {
                        // spawns, and completes or yields
                        let n = m.borrow().n;
                        sub_spawn(m, true);
                        cover(2);
                        match choose(if m.borrow().n > n { 3 } else { 2 }) {
                            0 => true,
                            1 => {
                                m.borrow_mut().t[i].due = true;
                                cx.waker().wake_by_ref();
                                false
                            }
                            _ => {
                                // waits until another task has completed
                                m.borrow_mut().waiting |= 1 << i;
                                cover(5);
                                false
                            }
                        }
                    }
                    3 => {
                        // wakes another task and the main future, completes
                        let j = choose(MAXT);
                        if j != i {
                            wake_task(m, j);
                        }
                        let w = m.borrow().main.clone();
                        if let Some(w) = w {
                            m.borrow_mut().main_due = true;
                            w.wake();
                            cover(3);
                        }
                        true
                    }
                    _ => {
                        cover(4);
                        false
                    } // waits for an event from outside
                }
            }
        };
        let mut b = m.borrow_mut();
        b.t[i].polling = false;
        if r {
            b.t[i].done = true;
            b.t[i].due = false;
            b.completed += 1;
            let w = std::mem::take(&mut b.waiting);
            drop(b);
            for j in 0..MAXT { if w >> j & 1 == 1 { wake_task(m, j) } }
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}
fn due(m: &Mr) -> bool {
    m.borrow().t.iter().any(|t| t.spawned && !t.done && !t.gone && t.due)
}
fn left(m: &Mr) -> usize {
    m.borrow().t.iter().filter(|t| t.spawned && !t.done && !t.gone).count()
}
struct Main {
    m: Mr,
    want: usize,
    k: usize,
}
impl Future for Main {
    type Output = u8;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u8> {
        let m = self.m.clone();
        m.borrow_mut().main_due = false;
        check(enter().is_err(), "executor not marked as entered while a task runs");
        if m.borrow().completed >= self.want || self.k == 0 {
            m.borrow_mut().main = None;
            return Poll::Ready(42);
        }
        m.borrow_mut().main = Some(cx.waker().clone());
        self.k -= 1;
        // yields to the pool
        m.borrow_mut().main_due = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
fn pool_model(nops: usize, ext: bool) {
    let mut pool = Some(LocalPool::new());
    let m: Mr = Rc::new(RefCell::new(M { t: Default::default(), n: 0, completed: 0, budget: param(1), ext, sp: None, main: None, main_due: false, waiting: 0 }));
    m.borrow_mut().sp = pool.as_ref().map(|p| p.spawner());
    for _ in 0..nops {
        let before = m.borrow().completed;
        match choose(7) {
            0 => sub_spawn(&m, pool.is_some()),
            1 => wake_task(&m, choose(MAXT)),
            2 => {
                if let Some(p) = &mut pool {
                    p.run_until_stalled();
                    check(!due(&m), "stalled while a task could run");
                    cover(10)
                }
            }
            3 => {
                if let Some(p) = &mut pool {
                    let r = p.try_run_one();
                    let d = m.borrow().completed - before;
                    if r {
                        check(d == 1, "try_run_one did not complete exactly one task");
                        cover(11)
                    } else {
                        check(d == 0, "try_run_one completed a task but reported none");
                        check(!due(&m), "try_run_one stopped while a task could run");
                        cover(12)
                    }
                }
            }
            4 => {
                if let Some(p) = &mut pool {
                    let want = choose(3);
                    let k = 1 + choose(2);
                    let r = p.run_until(Main { m: m.clone(), want, k });
                    check(r == 42, "wrong output");
                    cover(13)
                }
            }
            5 => {
                if let Some(p) = &mut pool {
                    if !ext {
                        p.run();
                        check(left(&m) == 0, "run returned with tasks left");
                        cover(14)
                    }
                }
            }
            _ => {
                if let Some(p) = pool.take() {
                    drop(p);
                    check(left(&m) == 0, "task outlives its pool");
                    let b = m.borrow();
                    let sp = b.sp.as_ref().unwrap();
                    check(sp.status().is_err() && sp.status_local().is_err() && sp.status().unwrap_err().is_shutdown(), "status after the pool is gone");
                    cover(15)
                }
            }
        }
        if pool.is_some() {
            check({ let b = m.borrow(); let sp = b.sp.as_ref().unwrap(); sp.status().is_ok() && sp.status_local().is_ok() }, "status");
        }
        check(enter().is_ok(), "still marked as entered after the run");
    }
    drop(pool);
    for t in m.borrow_mut().t.iter_mut() {
        check(!t.spawned || t.gone, "task leaked");
        t.wk = None;
    }
    m.borrow_mut().sp = None;
    check(Rc::strong_count(&m) == 1, "task leaked");
}

/// event set by another thread
#[derive(Clone)]
struct Ev(Arc<(AtomicUsize, AtomicWaker)>);
impl Ev {
    fn new() -> Self {
        Ev(Arc::new((AtomicUsize::new(0), AtomicWaker::new())))
    }
    fn set(&self, k: usize) {
        self.0 .0.store(k, Ordering::SeqCst);
        self.0 .1.wake();
    }
    fn get(&self, cx: &mut Context<'_>) -> usize {
        self.0 .1.register(cx.waker());
        self.0 .0.load(Ordering::SeqCst)
    }
}
struct Wt {
    ev: Ev,
    k: usize,
    meddle: usize,
    out: u8,
}
impl Future for Wt {
    type Output = u8;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u8> {
        let n = self.ev.get(cx);
        if n >= self.k {
            return Poll::Ready(self.out);
        }
        if self.meddle > 0 {
            self.meddle -= 1;
            match choose(3) {
                // code under the executor using park/unpark of its own
                0 => {
                    std::thread::current().unpark();
                    std::thread::park();
                }
                1 => std::thread::current().unpark(),
                _ => cx.waker().wake_by_ref(),
            }
        }
        Poll::Pending
    }
}
struct SelfStream(u8, u8, u8);
impl Stream for SelfStream {
    type Item = u8;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u8>> {
        check(self.0 <= self.1, "stream polled after its end");
        if self.2 > 0 && flip() {
            self.2 -= 1;
            cx.waker().wake_by_ref();
            if flip() {
                return Poll::Pending;
            }
        }
        self.0 += 1;
        Poll::Ready(if self.0 <= self.1 { Some(self.0) } else { None })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        ((self.1 - self.0.min(self.1)) as usize, Some(7))
    }
}

// ---- thread pool
struct PTask {
    i: usize,
    polls: usize,
    ev: Ev,
    need: usize,
    busy: Arc<AtomicBool>,
    selfwake: usize,
}
impl Future for PTask {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let g = 200 + self.i as u64 * 4;
        check(!self.busy.swap(true, Ordering::Relaxed), "task polled by two threads at once");
        check(gget(g) == 0, "task polled after completion");
        check(enter().is_err(), "worker not marked as an executor");
        self.polls += 1;
        let n = self.ev.get(cx);
        let r = n >= self.need;
        if !r && self.selfwake > 0 {
            self.selfwake -= 1;
            cx.waker().wake_by_ref();
        }
        if r {
            gset(g, 1);
        }
        self.busy.store(false, Ordering::Relaxed);
        if r { Poll::Ready(()) } else { Poll::Pending }
    }
}
impl Drop for PTask {
    fn drop(&mut self) {
        let g = 200 + self.i as u64 * 4;
        check(gget(g + 1) == 0, "task dropped twice");
        check(gget(g) == 1, "task dropped before completion");
        gset(g + 1, 1);
        unsafe { crate::rt::wake_ghost(20 + self.i) }
    }
}
struct Once(u64);
impl Drop for Once {
    fn drop(&mut self) { check(gadd(self.0, 1) == 1, "dropped twice") }
}
fn pool(workers: usize) -> ThreadPool {
    ThreadPool::builder()
        .pool_size(workers)
        .after_start(|i| {
            check(gadd(230 + i as u64, 1) == 1, "after_start ran twice");
        })
        .before_stop(|i| {
            check(gget(230 + i as u64) == 1, "before_stop without after_start");
            check(gadd(234 + i as u64, 1) == 1, "before_stop ran twice");
        })
        .create()
        .unwrap()
}
/// workers are threads 1..=n when the pool is made first; all of them end once the pool is idle and dropped
fn join_workers(n: usize) {
    for i in 0..n {
        crate::rt::join_id(1 + i as u64);
        check(gget(230 + i as u64) == 1 && gget(234 + i as u64) == 1, "worker hooks");
    }
}

harness! {
fn h_lp_model() { pool_model(param(0), true) }
fn h_lp_run() { pool_model(param(0), false) }
fn h_bo() {
    // another thread sets the event in one or two steps; a second event follows
    let (a, b) = (Ev::new(), Ev::new());
    let (a2, b2) = (a.clone(), b.clone());
    let steps = param(0);
    let t = spawn(move || { for k in 0..steps { a2.set(k + 1) } b2.set(1) });
    let v = sym8();
    check(block_on(Wt { ev: a, k: steps, meddle: param(1), out: v }) == v, "wrong output");
    check(enter().is_ok(), "still marked as entered");
    check(block_on(Wt { ev: b, k: 1, meddle: 0, out: !v }) == !v, "wrong output");
    t.join();
    cover(0);
}
fn h_lp_conc() {
    let mut p = LocalPool::new();
    let s = p.spawner();
    let (t0, r0) = oneshot::channel::<u8>();
    let (t1, r1) = oneshot::channel::<u8>();
    let got = Rc::new(RefCell::new(0u8));
    let (g0, g1) = (got.clone(), got.clone());
    s.spawn_local(async move { if r0.await == Ok(1) { *g0.borrow_mut() |= 1 } }).unwrap();
    let until = param(0) == 1;
    if !until {
        s.spawn_local(async move { if r1.await == Ok(2) { *g1.borrow_mut() |= 2 } }).unwrap();
        let h0 = spawn(move || { let _ = t0.send(1); });
        let h1 = spawn(move || { let _ = t1.send(2); });
        p.run();
        h0.join();
        h1.join();
        check(*got.borrow() == 3, "run returned before the tasks finished");
    } else {
        let h0 = spawn(move || { let _ = t0.send(1); let _ = t1.send(2); });
        let r = p.run_until(r1);
        check(r == Ok(2), "wrong output");
        h0.join();
        p.run();
        check(*got.borrow() == 1, "run returned before the tasks finished");
    }
    cover(0);
}
fn h_lp_stall() {
    // a task woken from another thread before run_until_stalled is run by it
    let mut p = LocalPool::new();
    let s = p.spawner();
    let ev = Ev::new();
    let e2 = ev.clone();
    let got = Rc::new(RefCell::new(false));
    let g = got.clone();
    s.spawn_local(async move { Wt { ev, k: 2, meddle: 0, out: 1 }.await; *g.borrow_mut() = true }).unwrap();
    let t = spawn(move || { e2.set(1); e2.set(2) });
    if flip() { p.run_until_stalled() } else { p.try_run_one(); }
    t.join();
    let was = *got.borrow();
    if flip() { p.run_until_stalled() } else { check(p.try_run_one() == !was, "completion missed or invented") }
    check(*got.borrow(), "stalled while a task could run");
    cover(was as u64);
}
fn h_bstream() {
    let n = choose(param(0) + 1) as u8;
    let mut it = executor::block_on_stream(SelfStream(0, n, 3));
    for k in 0..n {
        check(it.size_hint() == ((n - k) as usize, Some(7)), "size hint");
        check(it.next() == Some(k + 1), "wrong item");
        check(enter().is_ok(), "still marked as entered");
    }
    check(it.0 == n, "deref");
    check(it.next().is_none(), "not ended");
    let s = it.into_inner();
    check(s.0 == n + 1, "into_inner");
    cover(0);
}
fn h_enter() {
    // nested executors are refused; leaving, also by panic, clears the mark
    let k = choose(5);
    match k {
        0 => {
            let e = enter().unwrap();
            check(enter().is_err(), "entered twice");
            check(catch(|| block_on(async { 1 })).is_err(), "block_on inside an executor");
            check(enter().is_err(), "mark lost by the refused executor");
            drop(e);
        }
        1 => { let r = catch(|| block_on(async { if flip() { panic!() } })); cover(10 + r.is_err() as u64) }
        2 => { check(block_on(async { catch(|| LocalPool::new().run()).is_err() && catch(|| LocalPool::new().try_run_one()).is_err() && catch(|| LocalPool::new().run_until_stalled()).is_err() && catch(|| LocalPool::new().run_until(async {})).is_err() && enter().is_err() }), "executor inside an executor") }
        3 => {
            let mut p = LocalPool::new();
            let s = p.spawner();
            let at = choose(2);
            for i in 0..2 { s.spawn_local(async move { if i == at { panic!() } }).unwrap() }
            check(catch(|| p.run()).is_err(), "panic swallowed");
            check(enter().is_ok(), "still marked after a panic");
            p.run();
        }
        _ => { check(catch(|| { let _e = enter().unwrap(); panic!() }).is_err(), "x") }
    }
    check(enter().is_ok(), "still marked as entered");
    check(block_on(async { 3 }) == 3, "executor unusable");
    cover(k as u64);
}
fn h_tp() {
    // params: workers, tasks, steps, selfwake
    let (nw, nt, steps, sw) = (param(0), param(1), param(2), param(3));
    let p = pool(nw);
    let evs: Vec<Ev> = (0..nt).map(|_| Ev::new()).collect();
    for i in 0..nt {
        let f = PTask { i, polls: 0, ev: evs[i].clone(), need: steps, busy: Arc::new(AtomicBool::new(false)), selfwake: sw };
        if i == 0 { p.spawn_ok(f) } else { check(p.spawn_obj(FutureObj::new(Box::new(f))).is_ok(), "spawn refused") }
    }
    if nt > 0 { drop(p.clone()); }
    drop(p);
    for k in 0..steps { for e in &evs { e.set(k + 1) } }
    drop(evs);
    // tasks spawned before the pool handle was dropped still run to completion
    for i in 0..nt { wait(20 + i); }
    join_workers(nw);
    for i in 0..nt { check(gget(201 + i as u64 * 4) == 1, "task lost") }
    cover(0);
}
// tasks spawned one after the other, each after the one before has run and a clone of the handle is gone
fn h_tp_later() {
    let p = pool(param(0));
    for i in 0..2 {
        let q = if flip() { Some(p.clone()) } else { None };
        let d = Once(240 + i as u64);
        p.spawn_ok(async move { check(gget(d.0) == 0, "task dropped"); drop(d); unsafe { crate::rt::wake_ghost(20 + i) } });
        drop(q);
        wait(20 + i);
    }
    drop(p);
    join_workers(param(0));
    for i in 0..2 { check(gget(240 + i as u64) == 1, "task lost") }
    cover(0);
}
// one worker: a task that wakes itself and then waits for another task lets that one run
fn h_tp_turn() {
    let p = pool(1);
    let ev = Ev::new();
    let (e, mut n) = (ev.clone(), 0);
    p.spawn_ok(std::future::poll_fn(move |cx| {
        n += 1;
        check(n < 12, "a waiting task is polled over and over");
        if n <= 2 { cx.waker().wake_by_ref(); return Poll::Pending }
        if e.get(cx) >= 1 { unsafe { crate::rt::wake_ghost(20) } Poll::Ready(()) } else { Poll::Pending }
    }));
    p.spawn_ok(async move { ev.set(1) });
    drop(p);
    wait(20);
    join_workers(1);
    cover(0);
}
fn h_tp_handle() {
    let p = pool(param(0));
    let v = sym8();
    let h = p.spawn_with_handle(async move { v }).unwrap();
    drop(p);
    check(block_on(h) == v, "wrong output");
    join_workers(param(0));
    cover(0);
}
}
