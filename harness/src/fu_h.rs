//! FuturesUnordered, FuturesOrdered, concurrency-limited adapters.
use crate::ctl::*;
use crate::harness;
use crate::rt::*;
use futures::future::{FusedFuture, FutureExt};
use futures::stream::{FusedStream, FuturesOrdered, FuturesUnordered, Stream, StreamExt, TryStreamExt};
use futures::task::AtomicWaker;
use std::cell::Cell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

static mut STALE: [Option<Waker>; 8] = [const { None }; 8];
fn stale(i: usize) -> &'static mut Option<Waker> {
    unsafe { &mut (*std::ptr::addr_of_mut!(STALE))[i] }
}
/// member that leaves a clone of its waker behind
struct M(Fut<Tk>);
impl Future for M {
    type Output = Tk;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Tk> {
        *stale(self.0.id) = Some(cx.waker().clone());
        self.0.poll_unpin(cx)
    }
}
fn m(v: u8, i: usize) -> M {
    M(fut(i, tk(v, i)))
}
fn poll_next<S: Stream + Unpin>(s: &mut S, k: usize) -> Poll<Option<S::Item>> {
    let w = waker(k);
    clear_woken(k);
    Pin::new(s).poll_next(&mut Context::from_waker(&w))
}
/// the set under test: unordered or ordered
trait Set: Stream<Item = Tk> + FusedStream + Unpin {
    fn mk() -> Self;
    fn add(&mut self, m: M, front: bool);
    fn n(&self) -> usize;
    fn empty(&self) -> bool;
    fn clr(&mut self);
    const ORD: bool;
}
impl Set for FuturesUnordered<M> {
    fn mk() -> Self { FuturesUnordered::new() }
    fn add(&mut self, m: M, front: bool) { if front { self.extend([m]) } else { self.push(m) } }
    fn n(&self) -> usize { self.len() }
    fn empty(&self) -> bool { self.is_empty() }
    fn clr(&mut self) { self.clear() }
    const ORD: bool = false;
}
impl Set for FuturesOrdered<M> {
    fn mk() -> Self { FuturesOrdered::new() }
    fn add(&mut self, m: M, front: bool) { if front { self.push_front(m) } else if m.0.id & 1 == 1 { self.extend([m]) } else { self.push_back(m) } }
    fn n(&self) -> usize { self.len() }
    fn empty(&self) -> bool { self.is_empty() }
    fn clr(&mut self) { self.clear() }
    const ORD: bool = true;
}
fn set_model<S: Set>() {
    let (steps, budget, selfw, maxm) = (param(0), param(1), param(2) != 0, param(3));
    scene(budget, || {
        self_waking(selfw);
        let mut s = S::mk();
        let mut v = [0u8; 6];
        let mut q: VecDeque<usize> = VecDeque::new();
        let mut next = 0;
        let mut term = false;
        let mut lastk = None; // waker of a last poll that was pending
        let mut notified = [true; 6];
        for _ in 0..steps {
            match choose(6) {
                0 => if next < maxm {
                    v[next] = sym8();
                    let front = flip();
                    s.add(m(v[next], next), front);
                    if front { q.push_front(next) } else { q.push_back(next) }
                    term = false;
                    next += 1;
                },
                1 | 2 => {
                    let k = match lastk { None => 0, Some(_) => choose(2) };
                    let before: Vec<u32> = (0..next).map(polls).collect();
                    let r = poll_next(&mut s, k);
                    for &i in &q {
                        if !selfw && !notified[i] { check(polls(i) == before[i], "a member that was not woken was polled") }
                        if polls(i) > before[i] { notified[i] = false }
                    }
                    match r {
                        Poll::Ready(None) => { cover(0); check(q.is_empty(), "end reported while futures remain"); term = true; lastk = None }
                        Poll::Ready(Some(t)) => {
                            cover(1);
                            let i = t.1;
                            check(q.contains(&i), "output of an unknown or already finished future");
                            check(done(i) && t.0 == v[i], "wrong output");
                            check(src_dropped(i), "finished future kept");
                            if S::ORD {
                                check(q.front() == Some(&i), "output out of order");
                            }
                            q.retain(|x| *x != i);
                            lastk = None;
                        }
                        Poll::Pending => {
                            cover(2);
                            check(!q.is_empty(), "pending although empty");
                            if !woken(k) {
                                for &i in &q { check(polls(i) > 0 && (blocked(i) || S::ORD && done(i)), "pending although a member can make progress") }
                                if S::ORD { check(!done(q[0]), "next output held back") }
                            }
                            lastk = Some(k);
                        }
                    }
                }
                3 => if let Some(i) = pick() {
                    cover(3);
                    notified[i] = true;
                    fire(i);
                    if let Some(k) = lastk { check(woken(k), "wake-up of a member did not wake the set's latest waker") }
                },
                4 => { // a waker left over from an earlier poll, maybe of a finished member
                    let n = next;
                    if n > 0 {
                        let i = choose(n);
                        if let Some(w) = stale(i) { if flip() { w.wake_by_ref() } else { stale(i).take().unwrap().wake() } notified[i] = true; if done(i) { cover(4) } }
                    }
                }
                _ => if flip() { s.clr(); for i in 0..next { check(src_dropped(i), "clear left a future alive") } q.clear(); term = false; lastk = None; } else { break },
            }
            check(s.n() == q.len() && s.empty() == q.is_empty(), "wrong length");
            check(s.is_terminated() == term, "termination flag wrong");
            let (lo, hi) = s.size_hint();
            check(lo <= q.len() && hi.map_or(true, |h| h >= q.len()), "size_hint disagrees with the members");
        }
        let late = next > 0 && flip();
        drop(s);
        for i in 0..next {
            check(src_dropped(i) && dropped(i), "future or output leaked");
            if late { if let Some(w) = stale(i) { w.wake_by_ref() } }
            *stale(i) = None;
        }
    })
}

/// event set by another thread
struct Ev { set: AtomicBool, w: AtomicWaker }
fn ev() -> Arc<Ev> { Arc::new(Ev { set: AtomicBool::new(false), w: AtomicWaker::new() }) }
impl Ev { fn fire(&self) { self.set.store(true, SeqCst); self.w.wake() } }
struct Wait(Arc<Ev>, usize);
impl Future for Wait {
    type Output = usize;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<usize> {
        if self.0.set.load(SeqCst) { return Poll::Ready(self.1) }
        self.0.w.register(cx.waker());
        if self.0.set.load(SeqCst) { Poll::Ready(self.1) } else { Poll::Pending }
    }
}

fn limited(kind: usize, n: usize, m: usize) {
    // source 0 gives futures 1..=m
    scene(param(0), || {
        let v: Vec<u8> = (0..=m).map(|_| sym8()).collect();
        let lim = if n == 0 { if flip() { None } else { Some(0) } } else { Some(n) };
        let out = Cell::new(0usize);
        let fin = |k: usize| (1..=k).filter(|i| done(*i)).count();
        let each = kind == 2;
        let inv = |w: bool| {
            let p = pulled(0);
            let active = if each { p - fin(p) } else { p - out.get() };
            check(n == 0 || active <= n, "more futures in flight than the limit");
            if !w {
                check(done(0) || blocked(0) || (n != 0 && active == n), "source not polled although there is room");
                for i in 1..=p { check(done(i) || (polls(i) > 0 && blocked(i)), "a future in flight is not being driven") }
                if kind == 1 { check(fin(p) == out.get(), "a finished output is held back") }
                if kind == 0 { check(out.get() == p || !done(out.get() + 1), "the next output is held back") }
            }
        };
        let s = src(0, (1..=m).map(|i| fut(i, tk(v[i], i))).collect::<Vec<_>>());
        let mut d = Drv::new(param(1)).must(!1);
        let mut seen = 0u32;
        macro_rules! drain { ($b:expr) => {{
            let mut b = Box::pin($b);
            loop {
                let hint = b.size_hint();
                check(hint.0 <= m - out.get() && hint.1.map_or(true, |u| u >= m - out.get()), "size hint wrong");
                check(!b.is_terminated(), "terminated early");
                let x = d.next_inv(&mut b, &inv);
                inv(true);
                match x {
                    None => break,
                    Some(t) => {
                        out.set(out.get() + 1);
                        check(t.1 >= 1 && t.1 <= m && seen >> t.1 & 1 == 0 && t.0 == v[t.1], "wrong or duplicate output");
                        if kind == 0 { check(t.1 == out.get(), "outputs out of order") }
                        if t.1 != out.get() { cover(1) }
                        seen |= 1 << t.1;
                    }
                }
            }
            check(out.get() == m, "outputs lost");
            check(b.is_terminated(), "not terminated");
        }}; }
        match kind {
            0 => drain!(s.buffered(lim)),
            1 => drain!(s.buffer_unordered(lim)),
            _ => {
                let started = Cell::new(0);
                let mut f = Box::pin(s.for_each_concurrent(lim, |f| { started.set(started.get() + 1); f.map(|t| drop(t)) }));
                loop {
                    check(!f.is_terminated(), "terminated early");
                    match d.poll(|cx| f.as_mut().poll(cx)) {
                        Poll::Ready(()) => { check(f.is_terminated(), "not terminated"); break }
                        Poll::Pending => { inv(woken(d.k)); check(started.get() == pulled(0), "callback not run for an item"); d.settle() }
                    }
                }
                check(fin(m) == m && done(0) && started.get() == m, "finished before every item was processed");
                if polls(1) > 1 { cover(1) }
            }
        }
        for i in 1..=m { check(dropped(i) && src_dropped(i), "leak") }
        cover(0);
    })
}
fn try_limited(kind: usize, n: usize, m: usize) {
    // source 0 gives Ok(future i) or Err; futures give Ok or Err
    scene(param(0), || {
        let e_src = if kind == 2 { m + 1 } else { choose(m + 2) }; // item with this number is an error (0: none... m+1: none)
        let e_fut = choose(m + 2);
        let v: Vec<u8> = (0..=m).map(|_| sym8()).collect();
        let lim = if n == 0 { None } else { Some(n) };
        let out = Cell::new(0usize);
        let mk = |i: usize| -> Result<Fut<Result<Tk, Tk>>, Tk> { if i == e_src { Err(tk(v[i], i)) } else { Ok(fut(i, if i == e_fut { Err(tk(v[i], i)) } else { Ok(tk(v[i], i)) })) } };
        let fin = |k: usize| (1..=k).filter(|i| *i != e_src && done(*i)).count();
        let each = kind == 2;
        let srcerr = Cell::new(0usize);
        let inv = |w: bool| {
            let p = pulled(0) - srcerr.get();
            let active = if each { p - fin(pulled(0)) } else { p - out.get() };
            check(n == 0 || active <= n, "more futures in flight than the limit");
            if !w {
                check(done(0) || blocked(0) || (n != 0 && active == n), "source not polled although there is room");
                for i in 1..=pulled(0) { if i != e_src { check(done(i) || (polls(i) > 0 && blocked(i)), "a future in flight is not being driven") } }
            }
        };
        let s = src(0, (1..=m).map(mk).collect::<Vec<_>>());
        let mut d = Drv::new(param(1)).must(!1);
        let mut seen = 0u32;
        let mut last = 0;
        macro_rules! drain { ($b:expr) => {{
            let mut b = Box::pin($b);
            loop {
                match d.next_inv(&mut b, &inv) {
                    None => break,
                    Some(r) => {
                        let err = r.is_err();
                        let t = r.unwrap_or_else(|t| t);
                        check(t.1 >= 1 && t.1 <= m && seen >> t.1 & 1 == 0 && t.0 == v[t.1], "wrong or duplicate output");
                        seen |= 1 << t.1;
                        check(err == (t.1 == e_src || t.1 == e_fut), "success and error confused");
                        if t.1 == e_src { srcerr.set(1); cover(2); continue }
                        out.set(out.get() + 1);
                        if kind == 0 { check(t.1 > last, "outputs out of order"); last = t.1; }
                        if err { cover(1) }
                    }
                }
            }
            check(seen.count_ones() as usize == m, "outputs lost");
        }}; }
        match kind {
            0 => drain!(s.try_buffered(lim)),
            1 => drain!(s.try_buffer_unordered(lim)),
            _ => {
                let mut f = Box::pin(s.map(|x| x.ok().unwrap()).try_for_each_concurrent(lim, |f| async move { f.await.map(drop) }));
                let r = loop {
                    check(!f.is_terminated(), "terminated early");
                    match d.poll(|cx| f.as_mut().poll(cx)) {
                        Poll::Ready(r) => { check(f.is_terminated(), "not terminated"); break r }
                        Poll::Pending => { inv(woken(d.k)); for i in 1..=m { check(i != e_fut || i > pulled(0) || !done(i), "an error is held back") } d.settle() }
                    }
                };
                match r {
                    Ok(()) => check(fin(m) == m && done(0) && (e_fut == 0 || e_fut > m), "success although an item failed or is unfinished"),
                    Err(t) => { check(t.1 == e_fut && t.0 == v[e_fut], "wrong error"); cover(1); cover(2) }
                }
            }
        }
        for i in 1..=m { check(dropped(i), "leak") }
        cover(0);
    })
}

harness! {
fn h_fu_model() { set_model::<FuturesUnordered<M>>() }
fn h_fo_model() { set_model::<FuturesOrdered<M>>() }
fn h_fu_yield() {
    // members that wake themselves in every poll do not keep the set from returning, nor starve others
    fn go<S: Stream<Item = u8> + Unpin>(n: usize, mk: impl FnOnce(Vec<Box<dyn Future<Output = u8> + Unpin>>) -> S) {
        init(0);
        let ready_at: Vec<u32> = (0..n).map(|_| 1 + choose(4) as u32).collect(); // 4: never
        let f = |i: usize| -> Box<dyn Future<Output = u8> + Unpin> {
            let r = ready_at[i];
            let mut k = 0;
            Box::new(futures::future::poll_fn(move |cx: &mut Context<'_>| {
                check(k < 64, "a member that wakes itself is polled without end");
                k += 1;
                gadd(120 + i as u64, 1);
                if r < 4 && k > r { return Poll::Ready(i as u8) }
                cx.waker().wake_by_ref();
                Poll::Pending
            }))
        };
        for i in 0..n { gset(120 + i as u64, 0) }
        let mut s = mk((0..n).map(f).collect());
        let w = waker(0);
        let mut got = 0;
        for _ in 0..14 {
            clear_woken(0);
            match Pin::new(&mut s).poll_next(&mut Context::from_waker(&w)) {
                Poll::Pending => check(woken(0), "woken members are left behind"),
                Poll::Ready(Some(i)) => { check(ready_at[i as usize] < 4 && got >> i & 1 == 0, "wrong output"); got |= 1 << i }
                Poll::Ready(None) => break,
            }
        }
        for i in 0..n { check(ready_at[i] == 4 || got >> i & 1 != 0, "a member is starved by others that wake themselves") }
        if got != 0 && ready_at.contains(&4) { cover(1) }
        cover(0);
        drop(s);
        drop(w);
        fini();
        no_wakers_held();
    }
    let n = 1 + choose(param(0));
    match choose(3) {
        0 => go(n, |v| v.into_iter().collect::<FuturesUnordered<_>>()),
        1 => go(n, |v| futures::stream::iter(v).buffer_unordered(None)),
        _ => go(n, |v| futures::stream::select_all(v.into_iter().map(|f| f.into_stream()))),
    }
}
fn h_fu_spawn() {
    // a set of futures as a spawner
    use futures::task::{LocalSpawnExt, SpawnExt};
    let base = live();
    {
        let s: FuturesUnordered<futures::task::FutureObj<'static, ()>> = FuturesUnordered::new();
        let l: FuturesUnordered<futures::task::LocalFutureObj<'static, ()>> = FuturesUnordered::new();
        for i in 0..3 { gset(120 + i, 0) }
        check(s.spawn(async { gset(120, 1) }).is_ok(), "spawn refused");
        check(l.spawn_local(async { gset(121, 1) }).is_ok(), "spawn refused");
        check(l.spawn_local(async { gset(122, 1) }).is_ok(), "spawn refused");
        check(s.len() == 1 && l.len() == 2, "spawned future lost");
        let (mut s, mut l) = (s, l);
        check(poll_next(&mut s, 0) == Poll::Ready(Some(())) && poll_next(&mut s, 0) == Poll::Ready(None), "spawned future not run");
        check(poll_next(&mut l, 0) == Poll::Ready(Some(())) && poll_next(&mut l, 0) == Poll::Ready(Some(())) && poll_next(&mut l, 0) == Poll::Ready(None), "spawned future not run");
        for i in 0..3 { check(gget(120 + i) == 1, "spawned future not run") }
    }
    check(live() == base, "memory leaked");
    cover(0);
}
fn h_fu_iter() {
    scene(param(0), || {
        let n = choose(4);
        let v = [sym8(), sym8(), sym8(), sym8()];
        let mut s: FuturesUnordered<M> = (0..n).map(|i| m(v[i], i)).collect();
        let mut left: u32 = (1 << n) - 1;
        if flip() { if let Poll::Ready(Some(t)) = poll_next(&mut s, 0) { left &= !(1 << t.1) } }
        if flip() { if let Poll::Ready(Some(t)) = poll_next(&mut s, 0) { left &= !(1 << t.1) } }
        let cnt = left.count_ones() as usize;
        check(s.len() == cnt, "len");
        macro_rules! visit { ($it:expr, $x:ident => $id:expr) => {{
            let mut it = $it;
            let (mut seen, mut k) = (0u32, cnt);
            loop {
                check(it.size_hint() == (k, Some(k)), "iterator length wrong");
                match it.next() { Some($x) => { seen |= 1 << $id; k -= 1 } None => break }
                if k == 99 { break }
            }
            check(k == 0 && seen == left, "iterator misses or repeats a future");
        }}; }
        match choose(5) {
            0 => visit!(s.iter(), x => x.0.id),
            1 => visit!(Pin::new(&s).iter_pin_ref(), x => x.0.id),
            2 => visit!(s.iter_mut(), x => { x.0.v.as_mut().unwrap().0 ^= 0xff; x.0.id }),
            3 => visit!(Pin::new(&mut s).iter_pin_mut(), x => x.0.id),
            _ => {
                let mut seen = 0;
                let mut it = s.into_iter();
                let mut k = cnt;
                let stop = choose(5);
                loop {
                    check(it.len() == k, "iterator length wrong");
                    if cnt - k == stop { break }
                    match it.next() {
                        Some(M(mut f)) => { check(!done(f.id), "finished future returned"); seen |= 1 << f.id; k -= 1; while let Poll::Pending = poll(&mut f, &waker(1)) { fire(f.id); } }
                        None => break,
                    }
                }
                check(seen & !left == 0 && (stop < cnt || seen == left), "iterator misses or repeats a future");
                drop(it);
                for i in 0..n { *stale(i) = None; check(dropped(i), "leak") }
                cover(0);
                return;
            }
        }
        drop(s);
        for i in 0..n { *stale(i) = None; check(dropped(i), "leak") }
        cover(1);
    })
}
fn h_fu_panic() {
    scene(param(0), || {
        let n = 3;
        let bad = choose(n);
        let mut s = FuturesUnordered::new();
        for i in 0..n {
            s.push(async move { let t = fut(i, tk(i as u8, i)).await; if i == bad { drop(t); vp_rt_panic() } t });
        }
        let mut got = 0u32;
        let mut panics = 0;
        let mut d = Drv::new(param(1)).strict(Strict::All);
        loop {
            let len = s.len();
            match d.poll(|cx| match catch(|| Pin::new(&mut s).poll_next(cx)) { Ok(p) => p.map(Ok), Err(()) => Poll::Ready(Err(())) }) {
                Poll::Pending => d.settle(),
                Poll::Ready(Err(())) => { panics += 1; check(s.len() < len, "panicked future kept"); check(src_dropped(bad), "panicked future not dropped") }
                Poll::Ready(Ok(None)) => break,
                Poll::Ready(Ok(Some(t))) => { check(got >> t.1 & 1 == 0, "duplicate"); got |= 1 << t.1 }
            }
        }
        check(panics == 1 && got == 7 & !(1 << bad), "panic swallowed or other outputs lost");
        drop(s);
        for i in 0..n { check(dropped(i), "leak") }
        cover(0);
    })
}
// a member whose destructor panics: while the set is dropped or cleared, or when the member has just finished
fn h_fu_dpanic() {
    init(param(1));
    let n = param(0);
    let bad = choose(n);
    let early = flip();
    let noisy = flip();
    struct D(Fut<Tk>, bool, bool);
    impl Future for D {
        type Output = Tk;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Tk> {
            *stale(self.0.id) = Some(cx.waker().clone());
            if self.2 { cx.waker().wake_by_ref() }
            self.0.poll_unpin(cx)
        }
    }
    impl Drop for D { fn drop(&mut self) { if self.1 { cover(0); vp_rt_panic() } } }
    let mut s = FuturesUnordered::new();
    for i in 0..n { s.push(D(fut(i, tk(i as u8, i)), i == bad, noisy && i == bad)) }
    let mut got = 0u32;
    let mut boom = false;
    let mut k = if early { choose(2) } else { 8 };
    while k > 0 {
        k -= 1;
        match catch(|| poll_next(&mut s, 0)) {
            Err(()) => { cover(1); check(!boom, "panics twice"); boom = true; check(s.len() + got.count_ones() as usize == n - 1, "length") }
            Ok(Poll::Ready(Some(t))) => { check(t.1 != bad && got >> t.1 & 1 == 0, "wrong output"); got |= 1 << t.1 }
            Ok(Poll::Ready(None)) => { check(boom && got.count_ones() as usize == n - 1, "output lost"); k = 0 }
            Ok(Poll::Pending) => while let Some(i) = pick() { fire(i); },
        }
    }
    if flip() { for i in 0..n { if let Some(w) = stale(i) { w.wake_by_ref() } } }
    let clr = flip();
    let r = catch(|| if clr { s.clear(); drop(s) } else { drop(s) });
    check(r.is_err() != boom, "the panic of a destructor was swallowed");
    cover(2);
    for i in 0..n { if let Some(w) = stale(i).take() { w.wake_by_ref(); drop(w) } }
    for i in 0..n { check(dropped(i) || r.is_err() || i == bad, "leak") }
    fini();
}
// members completed by other threads
fn h_fu_conc() {
    let base = live();
    let n = param(0);
    let ord = param(1) != 0;
    {
        let evs: Vec<_> = (0..n).map(|_| ev()).collect();
        let mut ts = Vec::new();
        for e in &evs { let e = e.clone(); ts.push(spawn(move || e.fire())); }
        let got: Vec<usize> = if ord {
            let s: FuturesOrdered<Wait> = evs.iter().enumerate().map(|(i, e)| Wait(e.clone(), i)).collect();
            run(0, s.collect())
        } else {
            let s: FuturesUnordered<Wait> = evs.iter().enumerate().map(|(i, e)| Wait(e.clone(), i)).collect();
            run(0, s.collect())
        };
        let mut seen = 0u32;
        for (k, i) in got.iter().enumerate() { seen |= 1 << i; if ord { check(*i == k, "out of order") } }
        check(got.len() == n && seen == (1 << n) - 1, "output lost or duplicated");
        for t in ts { t.join(); }
    }
    cover(0);
    check(live() == base, "memory leaked");
}
// the set goes away while other threads wake its members
fn h_fu_drop() {
    let base = live();
    let n = param(0);
    {
        let evs: Vec<_> = (0..n).map(|_| ev()).collect();
        let mut s: FuturesUnordered<Wait> = evs.iter().enumerate().map(|(i, e)| Wait(e.clone(), i)).collect();
        let mut ts = Vec::new();
        for e in &evs { let e = e.clone(); ts.push(spawn(move || e.fire())); }
        let mut got = 0;
        for _ in 0..param(1) { match poll_next(&mut s, 0) { Poll::Ready(Some(_)) => got += 1, Poll::Ready(None) => break, Poll::Pending => cover(1) } }
        check(s.len() == n - got, "length");
        if param(2) != 0 { s.clear(); check(s.is_empty(), "clear") }
        drop(s);
        drop(evs);
        for t in ts { t.join(); }
    }
    cover(0);
    check(live() == base, "memory leaked");
    check(clones(0) == 0, "waker leaked");
}
// pushes through a shared reference from several threads, with a concurrent iteration
fn h_fu_push() {
    let base = live();
    {
        let s = Arc::new(FuturesUnordered::<Wait>::new());
        let e = [ev(), ev(), ev()];
        let (s1, e0, e1) = (s.clone(), e[0].clone(), e[1].clone());
        let t1 = spawn(move || { s1.push(Wait(e0, 0)); s1.push(Wait(e1, 1)); });
        let (s2, e2) = (s.clone(), e[2].clone());
        let t2 = spawn(move || {
            s2.push(Wait(e2, 2));
            let mut k = 0;
            for x in s2.iter() { k += 1; check(x.1 < 3, "garbage") }
            check(k >= 1 && k <= 3, "iteration misses a pushed future");
        });
        let l = s.len();
        check(l <= 3, "length");
        t1.join();
        t2.join();
        let mut s = Arc::try_unwrap(s).ok().unwrap();
        check(s.len() == 3, "length");
        check(matches!(poll_next(&mut s, 0), Poll::Pending), "not ready yet");
        for e in &e { e.fire() }
        let mut got: Vec<usize> = run(0, s.collect());
        got.sort();
        check(got == [0, 1, 2], "output lost");
    }
    cover(0);
    check(live() == base, "memory leaked");
}
fn h_lim() { limited(param(2), param(3), param(4)) }
fn h_tlim() { try_limited(param(2), param(3), param(4)) }
}
