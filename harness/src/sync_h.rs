use crate::ctl::*;
use crate::rt::*;
use futures::channel::oneshot;
use futures::future::{poll_fn, AbortHandle, Abortable, Aborted, FusedFuture, FutureExt};
use futures::lock::{BiLock, Mutex, MutexGuard, MutexLockFuture, OwnedMutexGuard, OwnedMutexLockFuture};
use futures::stream::StreamExt;
use futures::task::AtomicWaker;
use std::cell::UnsafeCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::Arc;
use std::task::{Context, Poll};

fn cx<R>(k: usize, f: impl FnOnce(&mut Context<'_>) -> R) -> R {
    let w = waker(k);
    clear_woken(k);
    f(&mut Context::from_waker(&w))
}
struct Cell(UnsafeCell<u64>);
unsafe impl Sync for Cell {}
unsafe impl Send for Cell {}
impl Cell {
    fn new(v: u64) -> Self {
        Cell(UnsafeCell::new(v))
    }
    fn get(&self) -> u64 {
        unsafe { *self.0.get() }
    }
    fn set(&self, v: u64) {
        unsafe { *self.0.get() = v }
    }
}

crate::harness! {
// ---------------------------------------------------------------- AtomicWaker
// every sequence of register/wake/take
fn h_aw_model() {
    let base = live();
    {
        let aw = AtomicWaker::new();
        let mut cur: Option<usize> = None;
        for _ in 0..param(0) {
            let n = [wakes(0), wakes(1), wakes(2)];
            let mut exp = n;
            match choose(5) {
                0 | 1 | 2 if false => {}
                k @ (0 | 1 | 2) => { let w = waker(k); aw.register(&w); cur = Some(k); }
                3 => { aw.wake(); if let Some(k) = cur.take() { exp[k] += 1; cover(1); } }
                _ => match aw.take() {
                    Some(w) => { match cur.take() { None => check(false, "waker out of nowhere"), Some(k) => { w.wake(); exp[k] += 1; cover(2) } } }
                    None => check(cur.is_none(), "registered waker not returned"),
                },
            }
            check([wakes(0), wakes(1), wakes(2)] == exp, "exactly the latest registered waker is woken");
            for k in 0..3 { check(clones(k) == (cur == Some(k)) as u64, "waker kept or lost"); }
        }
    }
    no_wakers_held();
    check(live() == base, "memory leaked");
    cover(0);
}
// flag + wake on p0 producer threads, consumer waits for all flags
fn h_aw_flag() {
    let base = live();
    let n = param(0);
    let st = Arc::new((AtomicWaker::new(), AtomicUsize::new(0)));
    let mut ts = Vec::new();
    for _ in 0..n { let s = st.clone(); ts.push(spawn(move || { s.1.fetch_add(1, SeqCst); s.0.wake(); })); }
    let mut first = choose(2) == 1;
    if first {
        // an earlier registration by another waker
        let w = waker(1);
        st.0.register(&w);
        first = false;
    }
    let _ = first;
    run(0, poll_fn(|c| { if st.1.load(SeqCst) == n { return Poll::Ready(()); } st.0.register(c.waker()); if st.1.load(SeqCst) == n { Poll::Ready(()) } else { Poll::Pending } }));
    cover(0);
    for t in ts { t.join(); }
    drop(st);
    no_wakers_held();
    check(live() == base, "memory leaked");
}
// take() on one thread, wake() on another: the taken waker stands for the wake-up
fn h_aw_take() {
    let base = live();
    let st = Arc::new((AtomicWaker::new(), AtomicUsize::new(0)));
    let (a, b) = (st.clone(), st.clone());
    let t1 = spawn(move || { a.1.fetch_add(1, SeqCst); if let Some(w) = a.0.take() { w.wake() } });
    let t2 = spawn(move || { b.1.fetch_add(1, SeqCst); b.0.wake() });
    run(0, poll_fn(|c| { st.0.register(c.waker()); if st.1.load(SeqCst) == 2 { Poll::Ready(()) } else { Poll::Pending } }));
    t1.join();
    t2.join();
    drop(st);
    no_wakers_held();
    check(live() == base, "memory leaked");
    cover(0);
}
// a wake-up published by wake() makes plain data written before it visible to the woken consumer's register
fn h_aw_change() {
    let base = live();
    let st = Arc::new((AtomicWaker::new(), AtomicBool::new(false)));
    let s = st.clone();
    let t = spawn(move || { s.1.store(true, SeqCst); s.0.wake(); });
    for k in 1..3 { let w = waker(k); st.0.register(&w); }
    run(3, poll_fn(|c| { st.0.register(c.waker()); if st.1.load(SeqCst) { Poll::Ready(()) } else { Poll::Pending } }));
    t.join();
    drop(st);
    no_wakers_held();
    check(live() == base, "memory leaked");
    cover(0);
}

// ---------------------------------------------------------------- Mutex
// every sequence of lock/poll/cancel/unlock by 3 parties, borrowed futures
fn h_mx_model() {
    let base = live();
    {
        let m = Mutex::new(0u64);
        let mut f: [Option<MutexLockFuture<'_, u64>>; 3] = [None, None, None];
        let mut wait: [Option<usize>; 3] = [None; 3];
        let mut guard: Option<MutexGuard<'_, u64>> = None;
        let mut count = 0;
        for _ in 0..param(0) {
            match choose(5) {
                0 => {
                    let i = choose(3);
                    if f[i].is_none() { f[i] = Some(m.lock()); }
                    let k = 2 * i + choose(2);
                    match cx(k, |c| f[i].as_mut().unwrap().poll_unpin(c)) {
                        Poll::Ready(mut g) => {
                            check(guard.is_none(), "two guards at once");
                            check(f[i].as_ref().unwrap().is_terminated(), "is_terminated");
                            check(*g == count, "protected value changed");
                            count += 1; *g = count;
                            guard = Some(g); f[i] = None; wait[i] = None; cover(1);
                        }
                        Poll::Pending => { check(guard.is_some(), "pending although free"); wait[i] = Some(k); cover(2) }
                    }
                }
                1 => { let i = choose(3); if f[i].take().is_some() && wait[i].take().is_some() { cover(3) } }
                2 => { if guard.take().is_some() { cover(4) } }
                3 => match m.try_lock() {
                    Some(g) => { check(guard.is_none(), "try_lock succeeded while locked"); guard = Some(g); }
                    None => check(guard.is_some(), "try_lock failed while free"),
                },
                _ => if let Some(g) = guard.take() {
                    // a mapped guard still holds the lock
                    let mut mg = MutexGuard::map(g, |x| x);
                    check(m.try_lock().is_none(), "mapped guard does not hold the lock");
                    count += 1; *mg = count;
                    drop(mg);
                }
            }
            if guard.is_none() {
                let waiting = wait.iter().any(|w| w.is_some());
                if waiting { check(wait.iter().any(|w| w.map_or(false, woken)), "lock free, waiters asleep"); }
            }
        }
        drop(guard);
        drop(f);
        let mut m = m;
        check(*m.get_mut() == count, "value");
        check(m.into_inner() == count, "value");
    }
    for i in 0..6 { check(clones(i) == 0, "waker leaked"); }
    check(live() == base, "memory leaked");
    cover(0);
}
fn h_mx_owned() {
    let base = live();
    {
        let m = Arc::new(Mutex::new(0u64));
        let mut f: [Option<OwnedMutexLockFuture<u64>>; 2] = [None, None];
        let mut wait: [Option<usize>; 2] = [None; 2];
        let mut guard: Option<OwnedMutexGuard<u64>> = None;
        for _ in 0..param(0) {
            match choose(5) {
                0 => {
                    let i = choose(2);
                    if f[i].is_none() { f[i] = Some(m.clone().lock_owned()); }
                    let k = 2 * i + choose(2);
                    match cx(k, |c| f[i].as_mut().unwrap().poll_unpin(c)) {
                        Poll::Ready(mut g) => { check(guard.is_none(), "two guards at once"); *g += 1; guard = Some(g); f[i] = None; wait[i] = None; cover(1) }
                        Poll::Pending => { check(guard.is_some(), "pending although free"); wait[i] = Some(k); cover(2) }
                    }
                }
                1 => { let i = choose(2); f[i] = None; wait[i] = None; }
                2 => { guard = None; }
                3 => match m.try_lock_owned() { Some(g) => { check(guard.is_none(), "try_lock succeeded while locked"); guard = Some(g) } None => check(guard.is_some(), "try_lock failed while free") },
                _ => match m.try_lock() { Some(_g) => check(guard.is_none(), "exclusion"), None => check(guard.is_some(), "try_lock failed while free") },
            }
            if guard.is_none() && wait.iter().any(|w| w.is_some()) { check(wait.iter().any(|w| w.map_or(false, woken)), "lock free, waiters asleep"); cover(3) }
        }
    }
    no_wakers_held();
    check(live() == base, "memory leaked");
    cover(0);
}
// p1 waiters queue up behind a guard, p0 of them are given up or start again in any order, then the lock goes round all that are left
fn h_mx_long() {
    let base = live();
    macro_rules! go {
        ($lock:expr, $try:expr) => {{
            let n = param(1);
            let mut guard = $try;
            check(guard.is_some(), "try_lock failed while free");
            let mut f: Vec<_> = (0..n).map(|_| None).collect();
            let mut wait = [false; 4];
            for i in 0..n { let x = $lock; f[i] = Some(x); check(cx(i, |c| f[i].as_mut().unwrap().poll_unpin(c)).is_pending(), "two guards at once"); wait[i] = true; }
            for _ in 0..param(0) {
                let i = choose(n);
                if wait[i] { f[i] = None; wait[i] = false; cover(1) }
                else { f[i] = Some($lock); check(cx(i, |c| f[i].as_mut().unwrap().poll_unpin(c)).is_pending(), "two guards at once"); wait[i] = true; cover(2) }
            }
            while wait.iter().any(|w| *w) {
                guard = None;
                let i = (0..n).find(|i| wait[*i] && woken(*i));
                check(i.is_some(), "lock free, waiters asleep");
                let Some(i) = i else { break };
                match cx(i, |c| f[i].as_mut().unwrap().poll_unpin(c)) { Poll::Ready(mut g) => { *g += 1; guard = Some(g) } Poll::Pending => check(false, "pending although free") }
                f[i] = None;
                wait[i] = false;
                cover(3);
            }
            drop(guard);
        }};
    }
    {
        let m = Arc::new(Mutex::new(0u64));
        if choose(2) == 0 { go!(m.lock(), m.try_lock()) } else { go!(m.clone().lock_owned(), m.try_lock_owned()) }
    }
    no_wakers_held();
    check(live() == base, "memory leaked");
    cover(0);
}
// p0 threads lock and update plain data; p1 = 1: one more thread gives up after its first poll
fn h_mx_conc() {
    let base = live();
    let n = param(0);
    let m = Arc::new((Mutex::new(0u64), Cell::new(0)));
    let mut ts = Vec::new();
    for p in 0..n {
        let m = m.clone();
        ts.push(spawn(move || {
            let f = async { let mut g = m.0.lock().await; check(gadd(180, 1) == 1, "two holders"); *g += 1; m.1.set(m.1.get() + 1); pause(); gadd(180, u64::MAX); };
            run(4 + p, f);
        }));
    }
    if param(1) == 1 {
        let mut f = m.0.lock();
        match cx(0, |c| f.poll_unpin(c)) { Poll::Ready(mut g) => { check(gadd(180, 1) == 1, "two holders"); *g += 1; m.1.set(m.1.get() + 1); gadd(180, u64::MAX); gset(181, 1); } Poll::Pending => cover(1) }
        drop(f);
    }
    for t in ts { t.join(); }
    check(m.1.get() == n as u64 + gget(181), "update lost");
    check(m.0.try_lock().map(|g| *g) == Some(n as u64 + gget(181)), "update lost");
    drop(m);
    check(live() == base, "memory leaked");
    cover(0);
}
// owned guards handed between threads, plus try_lock contention
fn h_mx_oconc() {
    let base = live();
    let m = Arc::new(Mutex::new(0u64));
    let (a, b) = (m.clone(), m.clone());
    let t1 = spawn(move || { let mut g = run(4, a.lock_owned()); check(gadd(180, 1) == 1, "two holders"); *g += 1; gadd(180, u64::MAX); });
    let t2 = spawn(move || { if let Some(mut g) = b.try_lock_owned() { check(gadd(180, 1) == 1, "two holders"); *g += 1; gadd(180, u64::MAX); gset(181, 1); } });
    { let mut g = run(0, m.clone().lock_owned()); check(gadd(180, 1) == 1, "two holders"); *g += 1; gadd(180, u64::MAX); }
    t1.join();
    t2.join();
    check(*m.try_lock().unwrap() == 2 + gget(181), "update lost");
    drop(m);
    check(live() == base, "memory leaked");
    cover(0);
}

// ---------------------------------------------------------------- BiLock and split
fn h_bl_model() {
    let base = live();
    {
        let (a, b) = BiLock::new(0u64);
        check(a.is_pair_of(&b), "pair");
        {
        let l = [&a, &b];
        let mut g: Option<(usize, futures::lock::BiLockGuard<'_, u64>)> = None;
        let mut wait: Option<usize> = None;
        let mut wi = 0;
        for _ in 0..param(0) {
            match choose(3) {
                0 | 1 => {
                    // the half that does not hold the lock
                    let i = match &g { Some((h, _)) => 1 - *h, None => choose(2) };
                    let k = choose(2) + 2 * i;
                    let by_lock = choose(2) == 1;
                    match cx(k, |c| if by_lock { l[i].lock().poll_unpin(c) } else { l[i].poll_lock(c) }) {
                        Poll::Ready(mut gd) => { check(g.is_none(), "two guards at once"); *gd += 1; if wi == i { wait = None; } g = Some((i, gd)); cover(1) }
                        Poll::Pending => { check(g.is_some(), "pending although free"); wait = Some(k); wi = i; cover(2) }
                    }
                }
                _ => if g.take().is_some() { if let Some(k) = wait.take() { check(woken(k), "waiter not woken by unlock"); cover(3) } },
            }
        }
        }
        let c = BiLock::new(1u64);
        let (a, b) = if choose(2) == 1 { match a.reunite(c.0) { Ok(_) => { check(false, "reunited a stranger"); return } Err(e) => { drop(e.1); (e.0, b) } } } else { (a, b) };
        check(a.reunite(b).is_ok(), "reunite failed");
    }
    no_wakers_held();
    check(live() == base, "memory leaked");
    cover(0);
}
fn h_bl_conc() {
    let base = live();
    let (a, b) = BiLock::new(Cell::new(0));
    let n = param(0);
    let t = spawn(move || { for _ in 0..n { let g = run(4, a.lock()); check(gadd(180, 1) == 1, "two holders"); g.set(g.get() + 1); pause(); gadd(180, u64::MAX); } gset(182, Box::into_raw(Box::new(a)) as u64); });
    for _ in 0..n { let g = run(0, b.lock()); check(gadd(180, 1) == 1, "two holders"); g.set(g.get() + 1); pause(); gadd(180, u64::MAX); }
    t.join();
    let a = *unsafe { Box::from_raw(gget(182) as *mut BiLock<Cell>) };
    check(a.reunite(b).ok().map(|c| c.get()) == Some(2 * n as u64), "update lost");
    check(live() == base, "memory leaked");
    cover(0);
}
// stream/sink split: both halves reach the one underlying object, alternating, and reunite
fn h_bl_split() {
    use futures::channel::mpsc;
    use futures::sink::SinkExt;
    use futures::stream::Stream;
    use futures::sink::Sink;
    struct Both(mpsc::UnboundedSender<u8>, mpsc::UnboundedReceiver<u8>, Cell);
    impl Stream for Both { type Item = u8; fn poll_next(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Option<u8>> { check(gadd(180, 1) == 1, "two users"); self.2.set(self.2.get() + 1); let r = self.1.poll_next_unpin(c); gadd(180, u64::MAX); r } }
    impl Sink<u8> for Both { type Error = mpsc::SendError;
        fn poll_ready(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Result<(), mpsc::SendError>> { check(gadd(180, 1) == 1, "two users"); self.2.set(self.2.get() + 1); let r = self.0.poll_ready(c); gadd(180, u64::MAX); r }
        fn start_send(mut self: Pin<&mut Self>, x: u8) -> Result<(), mpsc::SendError> { check(gadd(180, 1) == 1, "two users"); self.2.set(self.2.get() + 1); let r = self.0.start_send(x); gadd(180, u64::MAX); r }
        fn poll_flush(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Result<(), mpsc::SendError>> { check(gadd(180, 1) == 1, "two users"); let r = Pin::new(&mut self.0).poll_flush(c); gadd(180, u64::MAX); r }
        fn poll_close(self: Pin<&mut Self>, _c: &mut Context<'_>) -> Poll<Result<(), mpsc::SendError>> { self.0.close_channel(); Poll::Ready(Ok(())) } }
    let base = live();
    let (tx, rx) = mpsc::unbounded();
    let (mut si, mut st) = Both(tx, rx, Cell::new(0)).split::<u8>();
    check(si.is_pair_of(&st) && st.is_pair_of(&si), "pair");
    let v = sym8();
    let t = spawn(move || { run(4, async { si.send(v).await.unwrap(); si.send(v ^ 1).await.unwrap(); si.close().await.unwrap(); }); gset(182, Box::into_raw(Box::new(si)) as u64); });
    check(run(0, st.next()) == Some(v), "first item through the split halves");
    check(run(0, st.next()) == Some(v ^ 1), "second item through the split halves");
    check(run(0, st.next()) == None, "end");
    t.join();
    let si = *unsafe { Box::from_raw(gget(182) as *mut futures::stream::SplitSink<Both, u8>) };
    check(si.reunite(st).is_ok(), "reunite");
    check(live() == base, "memory leaked");
    cover(0);
}
// io split
fn h_bl_io() {
    use futures::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
    struct Dev(Cell, Vec<u8>, bool);
    impl AsyncRead for Dev { fn poll_read(mut self: Pin<&mut Self>, _c: &mut Context<'_>, b: &mut [u8]) -> Poll<std::io::Result<usize>> { check(gadd(180, 1) == 1, "two users"); self.0.set(self.0.get() + 1); pause(); b[0] = 7; gadd(180, u64::MAX); let _ = &mut self.1; Poll::Ready(Ok(1)) } }
    impl AsyncWrite for Dev {
        fn poll_write(mut self: Pin<&mut Self>, _c: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> { check(gadd(180, 1) == 1, "two users"); self.0.set(self.0.get() + 1); pause(); self.1.push(b[0]); gadd(180, u64::MAX); Poll::Ready(Ok(1)) }
        fn poll_flush(self: Pin<&mut Self>, _c: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
        fn poll_close(mut self: Pin<&mut Self>, _c: &mut Context<'_>) -> Poll<std::io::Result<()>> { self.2 = true; Poll::Ready(Ok(())) } }
    let base = live();
    let (mut r, mut w) = Dev(Cell::new(0), Vec::new(), false).split();
    check(r.is_pair_of(&w), "pair");
    let t = spawn(move || { run(4, async { w.write_all(&[1, 2]).await.unwrap(); w.close().await.unwrap(); }); gset(182, Box::into_raw(Box::new(w)) as u64); });
    let mut b = [0u8; 2];
    run(0, r.read_exact(&mut b)).unwrap();
    check(b == [7, 7], "read through the half");
    t.join();
    let w = *unsafe { Box::from_raw(gget(182) as *mut futures::io::WriteHalf<Dev>) };
    match r.reunite(w) { Ok(d) => { check(d.0.get() == 4, "update lost"); check(d.1 == [1, 2] && d.2, "bytes written"); } Err(_) => check(false, "reunite") }
    check(live() == base, "memory leaked");
    cover(0);
}

// ---------------------------------------------------------------- Shared
fn h_sh_model() {
    let base = live();
    init(param(1));
    {
        let v = sym8();
        let s = fut(0, std::rc::Rc::new(tk(v, 0))).shared();
        let mut h: Vec<Option<futures::future::Shared<Fut<std::rc::Rc<Tk>>>>> = vec![Some(s), None, None];
        let mut weak = None;
        let mut wait: [Option<usize>; 3] = [None; 3];
        let mut done = false;
        for _ in 0..param(0) {
            match choose(5) {
                0 => {
                    let i = choose(3);
                    if let Some(f) = h[i].as_mut() {
                        let k = 2 * i + choose(2);
                        let p = polls(0);
                        let was = done;
                        match cx(k, |c| f.poll_unpin(c)) {
                            Poll::Ready(x) => {
                                check(x.0 == v, "output differs");
                                check(f.is_terminated(), "is_terminated");
                                check(!was || polls(0) == p, "inner future polled again after completion");
                                done = true; h[i] = None; wait[i] = None; cover(1);
                                for j in 0..3 { if let Some(w) = wait[j] { check(woken(w), "clone not woken by completion"); cover(2) } }
                            }
                            Poll::Pending => { check(!done, "pending after completion"); wait[i] = Some(k); check(blocked(0), "pending although the future can run") }
                        }
                    }
                }
                1 => { let i = choose(3); h[i] = None; wait[i] = None; }
                2 => { if let Some(j) = (0..3).find(|j| h[*j].is_none()) { if let Some(f) = h.iter().flatten().next() { let c = f.clone(); check(c.ptr_eq(f), "ptr_eq"); h[j] = Some(c); } else if let Some(w) = &weak { let w: &futures::future::WeakShared<_> = w; check(w.upgrade().is_none(), "upgraded a dead future"); cover(5) } } }
                3 => { if blocked(0) { fire(0); for j in 0..3 { if let Some(w) = wait[j] { check(woken(w), "clone not woken by the inner wake-up"); cover(3) } } } }
                _ => if let Some(f) = h.iter().flatten().next() {
                    match f.peek() { Some(x) => check(done && x.0 == v, "peek"), None => check(!done, "peek misses the output") }
                    if weak.is_none() { weak = f.downgrade(); }
                    let n = h.iter().flatten().count();
                    check(f.strong_count() == Some(n), "strong_count");
                    cover(4);
                },
            }
        }
    }
    check(dropped(0), "output leaked");
    fini();
    for i in 0..6 { check(clones(i) == 0, "waker leaked"); }
    check(live() == base, "memory leaked");
    cover(0);
}
// a panic of the inner future reaches every clone, never a value or a second poll
fn h_sh_panic() {
    init(param(1));
    let s = { let mut gone = false; poll_fn(move |c| -> Poll<u8> { check(!gone, "polled again after panic"); if pend(0, c) { return Poll::Pending; } gone = true; panic!("x") }).shared() };
    let mut a = s.clone();
    let mut b = s;
    for i in 0..4 {
        check(i < 3, "panic swallowed");
        if cxr(0, &mut a).is_err() { break; }
        if blocked(0) { fire(0); }
    }
    check(cxr(1, &mut b).is_err(), "clone of a panicked future did not panic");
    check(catch(|| b.peek().is_some()).is_err() || b.is_terminated(), "peek of a panicked future");
    cover(0);
}
// clones awaited on different threads
fn h_sh_conc() {
    let base = live();
    let (tx, rx) = oneshot::channel::<Arc<Tk>>();
    let s = rx.shared();
    let v = sym8();
    let n = param(0);
    let mut ts = Vec::new();
    for p in 0..n {
        let c = s.clone();
        ts.push(spawn(move || { let r = run(4 + p, c); check(r.unwrap().0 == v, "output differs"); }));
    }
    let mut c = s.clone();
    drop(s);
    match param(1) {
        1 => { // a clone that polls once and goes away
            match cx(0, |x| c.poll_unpin(x)) { Poll::Ready(r) => check(r.unwrap().0 == v, "output differs"), Poll::Pending => cover(1) }
            drop(c);
            let _ = tx.send(Arc::new(tk(v, 0)));
        }
        2 => { // a clone that only looks
            let _ = tx.send(Arc::new(tk(v, 0)));
            for _ in 0..2 { if let Some(r) = c.peek() { check(r.as_ref().unwrap().0 == v, "output differs"); cover(1) } }
            drop(c);
        }
        _ => { let _ = tx.send(Arc::new(tk(v, 0))); check(run(0, c).unwrap().0 == v, "output differs"); }
    }
    for t in ts { t.join(); }
    check(dropped(0), "output leaked");
    check(live() == base, "memory leaked");
    cover(0);
}

// the future panics on one thread while other clones wait on others
fn h_sh_pconc() {
    let mut gone = false;
    let s = poll_fn(move |_| -> Poll<u8> { check(!gone, "polled again after panic"); gone = true; pause(); vp_rt_panic() }).shared();
    let mut ts = Vec::new();
    for p in 0..param(0) {
        let c = s.clone();
        ts.push(spawn(move || check(catch(|| run(4 + p, c)).is_err(), "clone of a panicked future completed")));
    }
    check(catch(|| run(0, s)).is_err(), "clone of a panicked future completed");
    for t in ts { t.join(); }
    cover(0);
}

// ---------------------------------------------------------------- Abortable, RemoteHandle
fn h_ab_model() {
    let base = live();
    init(param(1));
    {
        let (h, reg) = AbortHandle::new_pair();
        let h2 = reg.handle();
        let v = sym8();
        let mut f = Some(Abortable::new(fut(0, tk(v, 0)), reg));
        let mut aborted = false;
        let mut wait: Option<usize> = None;
        for _ in 0..param(0) {
            match choose(4) {
                0 => if let Some(g) = f.as_mut() {
                    let k = choose(2);
                    let p = polls(0);
                    match cx(k, |c| g.poll_unpin(c)) {
                        Poll::Pending => { check(!aborted, "pending although aborted"); wait = Some(k) }
                        Poll::Ready(Ok(x)) => { check(!aborted, "completed after abort"); check(x.0 == v, "value"); f = None; wait = None; cover(1) }
                        Poll::Ready(Err(Aborted)) => { check(aborted, "aborted without abort"); check(polls(0) == p, "task polled after abort"); f = None; wait = None; cover(2) }
                    }
                },
                1 => { if choose(2) == 0 { h.abort() } else { h2.abort() } aborted = true; if let Some(k) = wait { check(woken(k), "task not woken by abort"); cover(3) } }
                2 => if blocked(0) { fire(0); if let Some(k) = wait { check(woken(k), "task not woken by its event") } },
                _ => { check(h.is_aborted() == aborted && h2.is_aborted() == aborted, "is_aborted"); if let Some(g) = &f { check(g.is_aborted() == aborted, "is_aborted") } }
            }
        }
    }
    check(dropped(0), "value leaked");
    fini();
    no_wakers_held();
    check(live() == base, "memory leaked");
    cover(0);
}
fn h_ab_stream() {
    init(param(0));
    let (s, h) = futures::stream::abortable(src(0, [1u8, 2, 3]));
    let mut s = Box::pin(s);
    let at = choose(5);
    let mut d = Drv::new(param(1));
    for i in 0..5 {
        if i == at { h.abort(); }
        let n = pulled(0);
        let r = d.next(&mut s);
        if i >= at { check(r == None && pulled(0) == n, "item after abort"); cover(1); break; }
        check(r == if i < 3 { Some(i as u8 + 1) } else { None }, "items before abort");
        if r.is_none() { break; }
    }
    cover(0);
}
fn h_ab_conc() {
    let base = live();
    let (h, reg) = AbortHandle::new_pair();
    let kind = choose(2);
    let t = spawn(move || { h.abort(); check(h.is_aborted(), "is_aborted"); });
    if kind == 0 {
        check(run(0, Abortable::new(futures::future::pending::<()>(), reg)) == Err(Aborted), "aborted");
    } else {
        // an earlier poll by another task
        let mut f = Abortable::new(futures::future::pending::<()>(), reg);
        let _ = cx(1, |c| f.poll_unpin(c)).is_pending() || { t.join(); return };
        check(run(0, f) == Err(Aborted), "aborted");
    }
    t.join();
    no_wakers_held();
    check(live() == base, "memory leaked");
    cover(0);
}
fn h_rh_model() {
    let base = live();
    init(param(1));
    {
        let v = sym8();
        let (r, h) = fut(0, tk(v, 0)).remote_handle();
        let (mut r, mut h) = (Some(Box::pin(r)), Some(h));
        let (mut forgot, mut gone, mut finished) = (false, false, false);
        let (mut rw, mut hw): (Option<usize>, Option<usize>) = (None, None);
        for _ in 0..param(0) {
            match choose(6) {
                0 => if let Some(f) = r.as_mut() {
                    let k = choose(2);
                    let p = polls(0);
                    match cx(k, |c| f.as_mut().poll(c)) {
                        Poll::Pending => { rw = Some(k); check(!(gone && !forgot), "remote task keeps running after its handle was dropped"); }
                        Poll::Ready(()) => {
                            r = None; rw = None;
                            if gone && !forgot { check(polls(0) == p, "task polled after its handle was dropped"); cover(1) } else { finished = true; if let Some(w) = hw { check(woken(w), "handle not woken"); cover(2) } }
                        }
                    }
                },
                1 => if let Some(g) = h.as_mut() {
                    let k = 2 + choose(2);
                    match cx(k, |c| g.poll_unpin(c)) {
                        Poll::Ready(x) => { check(finished && x.0 == v, "output"); h = None; hw = None; gone = true; forgot = true; cover(3) }
                        Poll::Pending => { check(!finished, "pending although finished"); hw = Some(k) }
                    }
                    if r.is_none() && !finished { check(false, "unreachable") }
                },
                2 => if h.take().is_some() { gone = true; hw = None; if let Some(w) = rw { check(woken(w), "remote task not woken by handle drop"); cover(4) } },
                3 => if let Some(g) = h.take() { g.forget(); gone = true; forgot = true; hw = None; cover(5) },
                4 => if blocked(0) { fire(0); if let Some(w) = rw { check(woken(w), "wake-up lost") } },
                _ => if h.is_none() && r.take().is_some() { rw = None; },
            }
        }
    }
    check(dropped(0), "value leaked");
    fini();
    no_wakers_held();
    check(live() == base, "memory leaked");
    cover(0);
}
fn h_rh_panic() {
    let (r, h) = futures::future::lazy(|_| -> u8 { panic!("x") }).remote_handle();
    check(catch(|| run(0, r)).is_ok(), "panic escapes on the remote side");
    check(catch(|| run(1, h)).is_err(), "panic lost");
    let (r, h) = futures::future::ready(1u8).remote_handle();
    drop(r);
    check(catch(|| run(1, h)).is_err(), "handle of a dropped task hangs or completes");
    cover(0);
}
fn h_rh_conc() {
    let base = live();
    let (tx, rx) = oneshot::channel::<u8>();
    let (r, h) = rx.remote_handle();
    let v = sym8();
    let act = choose(3);
    let t = spawn(move || run(4, r));
    match act {
        0 => { let _ = tx.send(v); check(run(0, h) == Ok(v), "output"); }
        1 => { drop(h); t.join(); drop(tx); check(live() == base, "memory leaked"); cover(1); return }
        _ => { h.forget(); check(!tx.is_canceled(), "forgotten task stopped"); check(tx.send(v).is_ok(), "forgotten task stopped"); }
    }
    t.join();
    check(live() == base, "memory leaked");
    cover(0);
}
}
fn cxr<F: Future + Unpin>(k: usize, f: &mut F) -> Result<Poll<F::Output>, ()> {
    catch(|| cx(k, |c| f.poll_unpin(c)))
}
