//! Task handles: Arc-based wakers, waker references, no-op wakers, future objects, spawner forwarding.
use crate::ctl::*;
use crate::harness;
use crate::rt::*;
use futures::future::{FutureExt, FutureObj, LocalFutureObj};
use futures::task::{noop_waker, noop_waker_ref, waker as arc_waker, waker_ref, ArcWake, LocalSpawn, LocalSpawnExt, Spawn, SpawnError, SpawnExt, WakerRef};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

// ghost: 100+id wakes by reference, 104+id wakes by value, 108+id drops
struct W(usize, bool);
impl ArcWake for W {
    fn wake(self: Arc<Self>) {
        if self.1 {
            gadd(104 + self.0 as u64, 1);
        } else {
            Self::wake_by_ref(&self)
        }
    }
    fn wake_by_ref(s: &Arc<Self>) {
        gadd(100 + s.0 as u64, 1);
    }
}
impl Drop for W {
    fn drop(&mut self) {
        check(gadd(108 + self.0 as u64, 1) == 1, "task handle dropped twice");
    }
}
/// uses the default `wake`
struct W2(usize);
impl ArcWake for W2 {
    fn wake_by_ref(s: &Arc<Self>) {
        gadd(100 + s.0 as u64, 1);
    }
}
impl Drop for W2 {
    fn drop(&mut self) {
        check(gadd(108 + self.0 as u64, 1) == 1, "task handle dropped twice");
    }
}
fn arc_model<T: ArcWake + 'static>(a: Arc<T>, by_val: bool, nops: usize) {
    let base = live();
    let mut own = Some(a);
    let weak = Arc::downgrade(own.as_ref().unwrap());
    let mut ws: Vec<Waker> = Vec::with_capacity(8);
    let (mut r, mut v) = (0u64, 0u64);
    for _ in 0..nops {
        let n = ws.len();
        match choose(8) {
            0 => {
                if let (Some(a), true) = (&own, n < 4) {
                    ws.push(arc_waker(a.clone()))
                }
            }
            1 => {
                if n > 0 && n < 4 {
                    let w = ws[choose(n)].clone();
                    check(w.will_wake(&ws[0]), "clone wakes a different task");
                    ws.push(w)
                }
            }
            2 => {
                if n > 0 {
                    ws[choose(n)].wake_by_ref();
                    r += 1
                }
            }
            3 => {
                if n > 0 {
                    ws.swap_remove(choose(n)).wake();
                    if by_val { v += 1 } else { r += 1 }
                }
            }
            4 => {
                if n > 0 {
                    drop(ws.swap_remove(choose(n)))
                }
            }
            5 => {
                if let Some(a) = &own {
                    // borrowed waker: no count of its own, clones have one
                    let w = waker_ref(a);
                    check(Arc::strong_count(a) == n + 1, "borrowed waker counted");
                    w.wake_by_ref();
                    r += 1;
                    if n > 0 {
                        check(w.will_wake(&ws[0]), "reference wakes a different task")
                    }
                    if n < 4 && flip() {
                        ws.push(w.clone())
                    }
                    cover(5);
                }
            }
            6 => {
                if n > 0 {
                    let k = choose(n);
                    let w = WakerRef::new(&ws[k]);
                    w.wake_by_ref();
                    r += 1;
                    if n < 4 && flip() {
                        let c = (*w).clone();
                        ws.push(c)
                    }
                    cover(6);
                }
            }
            _ => own = None,
        }
        let want = ws.len() + own.is_some() as usize;
        check(weak.strong_count() == want, "reference count of the task handle");
        check(gget(100) == r && gget(104) == v, "wakes lost or invented");
        check((gget(108) == 0) == (want > 0), "task handle freed too early or too late");
    }
    drop(ws);
    drop(own);
    check(gget(108) == 1, "task handle leaked");
    check(weak.strong_count() == 0, "task handle leaked");
    drop(weak);
    check(live() < base, "memory leaked");
    cover(0);
}

// ---- future objects
fn objs(kind: usize) {
    scene(param(0), || {
        let v = sym8();
        let cancel = param(2) != 0;
        let mut own = fut(0, tk(v, 0));
        let mut pinned = Box::pin(fut(2, tk(v, 2)));
        let boxed = matches!(kind, 2 | 3 | 4 | 5 | 6 | 7 | 12 | 13);
        let me = if boxed { 1 } else if matches!(kind, 1 | 9 | 11) { 2 } else { 0 };
        {
            let o: LocalFutureObj<'_, Tk> = match kind {
                0 => LocalFutureObj::new(&mut own),
                1 => LocalFutureObj::new(pinned.as_mut()),
                2 => LocalFutureObj::new(Box::new(fut(1, tk(v, 1)))),
                3 => LocalFutureObj::new(Box::pin(fut(1, tk(v, 1)))),
                4 => LocalFutureObj::new(Box::new(fut(1, tk(v, 1))) as Box<dyn Future<Output = Tk>>),
                5 => LocalFutureObj::new(Box::pin(fut(1, tk(v, 1))) as Pin<Box<dyn Future<Output = Tk>>>),
                6 => FutureObj::new(Box::new(fut(1, tk(v, 1)))).into(),
                7 => FutureObj::new(Box::pin(fut(1, tk(v, 1))) as Pin<Box<dyn Future<Output = Tk> + Send>>).into(),
                8 => LocalFutureObj::new(&mut own as &mut (dyn Future<Output = Tk> + Unpin)),
                9 => LocalFutureObj::new(pinned.as_mut() as Pin<&mut dyn Future<Output = Tk>>),
                10 => FutureObj::new(&mut own).into(),
                11 => FutureObj::new(pinned.as_mut()).into(),
                12 => FutureObj::new(Box::new(fut(1, tk(v, 1))) as Box<dyn Future<Output = Tk> + Send>).into(),
                _ => unsafe { LocalFutureObj::new(Box::new(fut(1, tk(v, 1)))).into_future_obj().into() },
            };
            let mut o = Box::pin(o);
            match Drv::new(param(1)).strict(Strict::All).fut_or_cancel(&mut o, cancel, || ()) {
                None => cover(40),
                Some(t) => check(t.0 == v && t.1 == me, "wrong output"),
            }
            if boxed {
                check(!src_dropped(1), "future dropped early")
            } else {
                check(!src_dropped(me), "borrowed future dropped by its object")
            }
            drop(o);
        }
        if boxed {
            check(src_dropped(1), "boxed future leaked");
            check(!alive(1), "value leaked")
        } else {
            check(!src_dropped(me), "borrowed future dropped by its object")
        }
        // the borrowed future stays usable by its owner
        if cancel && matches!(kind, 0 | 8 | 10) && !done(0) {
            check(go(0, &mut own).0 == v, "wrong output");
            cover(41);
        }
        cover(kind as u64);
    })
}

// ---- spawners
#[derive(Clone)]
struct Sp {
    q: Rc<RefCell<Vec<LocalFutureObj<'static, ()>>>>,
    open: Rc<std::cell::Cell<bool>>,
    which: Rc<std::cell::Cell<u8>>,
}
impl Spawn for Sp {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        self.which.set(1);
        if !self.open.get() { return Err(SpawnError::shutdown()) }
        self.q.borrow_mut().push(f.into());
        Ok(())
    }
    fn status(&self) -> Result<(), SpawnError> {
        self.which.set(2);
        if self.open.get() { Ok(()) } else { Err(SpawnError::shutdown()) }
    }
}
impl LocalSpawn for Sp {
    fn spawn_local_obj(&self, f: LocalFutureObj<'static, ()>) -> Result<(), SpawnError> {
        self.which.set(3);
        if !self.open.get() { return Err(SpawnError::shutdown()) }
        self.q.borrow_mut().push(f);
        Ok(())
    }
    fn status_local(&self) -> Result<(), SpawnError> {
        self.which.set(4);
        if self.open.get() { Ok(()) } else { Err(SpawnError::shutdown()) }
    }
}
fn use_spawner<S: Spawn + LocalSpawn>(s: S, sp: &Sp, open: bool) {
    let c = choose(6);
    let v = sym8();
    match c {
        0 => { check(s.status().is_ok() == open && sp.which.get() == 2, "status not forwarded") }
        1 => { check(s.status_local().is_ok() == open && sp.which.get() == 4, "status not forwarded") }
        2 => {
            let r = s.spawn(fut(0, tk(v, 0)).map(drop));
            check(r.is_ok() == open && sp.which.get() == 1, "spawn not forwarded")
        }
        3 => {
            let r = s.spawn_local(fut(0, tk(v, 0)).map(drop));
            check(r.is_ok() == open && sp.which.get() == 3, "spawn not forwarded")
        }
        _ => {
            let r = if c == 4 { s.spawn_with_handle(fut(0, tk(v, 0))) } else { s.spawn_local_with_handle(fut(0, tk(v, 0))) };
            check(r.is_ok() == open && sp.which.get() == if c == 4 { 1 } else { 3 }, "spawn not forwarded");
            if let Ok(mut h) = r {
                let mut d = Drv::new(0);
                let o = loop {
                    if let Poll::Ready(t) = d.poll(|cx| Pin::new(&mut h).poll(cx)) { break t }
                    // drive the task
                    let mut q = sp.q.borrow_mut();
                    if q.len() == 0 { check(false, "handle pending after its task finished"); return }
                    let w = waker(2);
                    let r = Pin::new(&mut q[0]).poll(&mut Context::from_waker(&w));
                    match r {
                        Poll::Ready(()) => { q.pop(); check(woken(d.base + d.k), "handle not woken") }
                        Poll::Pending => { if let Some(i) = pick() { fire(i); check(woken(2), "task not woken"); clear_woken(2) } else { check(false, "task stuck"); return } }
                    }
                };
                check(o.0 == v && o.1 == 0, "wrong output");
            }
        }
    }
    if c >= 2 && c < 4 && open {
        let mut f = sp.q.borrow_mut().pop().unwrap();
        go(0, &mut f);
    }
    sp.q.borrow_mut().clear();
    check(!alive(0), "task leaked");
    cover(10 + c as u64);
}

harness! {
fn h_arc() {
    if param(1) == 0 { arc_model(Arc::new(W(0, true)), true, param(0)) }
    else if param(1) == 1 { arc_model(Arc::new(W(0, false)), false, param(0)) }
    else { arc_model(Arc::new(W2(0)), false, param(0)) }
}
fn h_arc_conc() {
    let a = Arc::new(W(0, true));
    let w = arc_waker(a.clone());
    let w2 = w.clone();
    let k = choose(3);
    let t = spawn(move || { let w3 = w2.clone(); if k == 0 { w2.wake() } else { w2.wake_by_ref(); drop(w2) } drop(w3) });
    let b = { let r = waker_ref(&a); r.wake_by_ref(); if k == 2 { Some(r.clone()) } else { None } };
    drop(a);
    w.wake_by_ref();
    drop(w);
    drop(b);
    t.join();
    check(gget(108) == 1, "task handle leaked");
    check(gget(100) + gget(104) == 3, "wakes lost");
    cover(k as u64);
}
fn h_noop() {
    let a = noop_waker();
    let b = noop_waker_ref();
    check(a.will_wake(b) && b.clone().will_wake(&a), "different no-op wakers");
    a.wake_by_ref();
    b.wake_by_ref();
    a.clone().wake();
    let t = spawn(|| { let w = noop_waker_ref(); w.wake_by_ref(); drop(w.clone()) });
    t.join();
    drop(a);
    let mut f = Box::pin(async { 3 });
    check(f.as_mut().poll(&mut Context::from_waker(b)) == Poll::Ready(3), "no-op context");
    cover(0);
}
fn h_obj() { objs(param(3)) }
fn h_spawner() {
    scene(param(0), || {
        let sp = Sp { q: Default::default(), open: Rc::new(std::cell::Cell::new(true)), which: Default::default() };
        let open = flip();
        sp.open.set(open);
        match choose(6) {
            0 => use_spawner(&sp, &sp, open),
            1 => { let mut s = sp.clone(); use_spawner(&mut s, &sp, open) }
            2 => use_spawner(Box::new(sp.clone()), &sp, open),
            3 => use_spawner(Rc::new(sp.clone()), &sp, open),
            #[allow(clippy::arc_with_non_send_sync)]
            4 => use_spawner(Arc::new(sp.clone()), &sp, open),
            _ => { use_spawner(sp.clone(), &sp, open); check(SpawnError::shutdown().is_shutdown(), "is_shutdown") }
        }
        cover(open as u64);
    })
}
}
