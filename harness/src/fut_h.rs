//! Future combinators: join*, select*, FutureExt, TryFutureExt.
use crate::ctl::*;
use crate::harness;
use crate::rt::*;
use futures::future::{self, Either, FusedFuture, FutureExt, TryFutureExt};
use futures::stream::{FusedStream, Stream, StreamExt};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;

/// iterator that does not say how long it is
struct NoHint<I>(I);
impl<I: Iterator> Iterator for NoHint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}
type V = [u8; 6];
fn vals() -> V {
    [sym8(), sym8(), sym8(), sym8(), sym8(), sym8()]
}
fn f(v: &V, i: usize) -> Fut<Tk> {
    fut(i, tk(v[i], i))
}
fn rf(v: &V, e: u8, i: usize) -> Fut<Result<Tk, Tk>> {
    fut(i, if e >> i & 1 != 0 { Err(tk(v[i], i)) } else { Ok(tk(v[i], i)) })
}
fn all_dropped(n: usize) {
    for i in 0..n {
        check(dropped(i), "output or unfinished future leaked");
        check(src_dropped(i), "child future leaked");
    }
}
fn drv() -> Drv {
    Drv::new(param(1)).strict(Strict::All)
}
/// join-like: every child is polled on every round, the output has every child's value in order
fn joinlike<F: Future>(n: usize, mk: impl FnOnce(&V) -> F, out: impl FnOnce(F::Output, &V)) {
    scene(param(0), || {
        let v = vals();
        let mut j = Box::pin(mk(&v));
        let r = drv().fut_or_cancel(&mut j, param(2) != 0, || {
            for i in 0..n {
                check(polls(i) > 0, "join did not start every future");
            }
            check((0..n).any(|i| !done(i)), "join pending although every future is done");
        });
        match r {
            Some(o) => {
                for i in 0..n {
                    check(done(i), "join finished before all of its futures");
                    check(alive(i), "output lost");
                }
                out(o, &v);
                cover(0);
            }
            None => cover(1),
        }
        drop(j);
        all_dropped(n);
    })
}
fn eq(t: &Tk, v: &V, i: usize) {
    check(t.0 == v[i] && t.1 == i, "join output has the wrong value or position");
}
/// try_join-like over children failing by mask e
fn tryjoinlike<F: Future<Output = Result<O, Tk>>, O>(n: usize, mk: impl FnOnce(&V, u8) -> F, out: impl FnOnce(O, &V)) {
    scene(param(0), || {
        let v = vals();
        let e = choose(1 << n) as u8;
        let mut j = Box::pin(mk(&v, e));
        let r = drv().fut_or_cancel(&mut j, false, || {
            for i in 0..n {
                check(polls(i) > 0, "try_join did not start every future");
                check(!(done(i) && e >> i & 1 != 0), "an error is held back while other futures are pending");
            }
            check((0..n).any(|i| !done(i)), "try_join pending although every future is done");
        });
        match r.unwrap() {
            Ok(o) => {
                check(e == 0, "error swallowed");
                for i in 0..n {
                    check(done(i), "try_join finished before all of its futures");
                }
                out(o, &v);
                cover(0);
            }
            Err(t) => {
                check(t.1 < n && e >> t.1 & 1 != 0, "error does not come from a failed future");
                check(done(t.1) && v[t.1] == t.0, "wrong error value");
                if (0..n).any(|i| !done(i)) {
                    cover(1)
                }
            }
        }
        drop(j);
        all_dropped(n);
    })
}

/// select-like results: winner index, value, and the losers to be driven further
fn finish_losers(n: usize, won: usize, v: &V, rest: Vec<Fut<Tk>>) {
    check(rest.len() == n - 1, "wrong number of remaining futures");
    let mut seen = 1u32 << won;
    for mut r in rest {
        let i = r.id;
        check(seen >> i & 1 == 0, "future returned twice");
        seen |= 1 << i;
        check(!done(i) && alive(i), "remaining future has lost its value");
        let x = drv().strict(Strict::Last).fut(&mut r);
        check(x.0 == v[i] && x.1 == i, "remaining future gives the wrong value");
    }
}

harness! {
fn h_join2() { joinlike(2, |v| future::join(f(v, 0), f(v, 1)), |o, v| { eq(&o.0, v, 0); eq(&o.1, v, 1) }) }
fn h_join5() { joinlike(5, |v| { let (a, b, c, d, e) = (f(v, 0), f(v, 1), f(v, 2), f(v, 3), f(v, 4)); async move { futures::join!(a, b, c, d, e) } }, |o, v| { eq(&o.0, v, 0); eq(&o.1, v, 1); eq(&o.2, v, 2); eq(&o.3, v, 3); eq(&o.4, v, 4) }) }
fn h_join_mac() { joinlike(3, |v| { let (a, b, c) = (f(v, 0), f(v, 1), f(v, 2)); async move { futures::join!(a, b, async { c.await }) } }, |o, v| { eq(&o.0, v, 0); eq(&o.1, v, 1); eq(&o.2, v, 2) }) }
fn h_join_all() {
    let n = param(3);
    joinlike(n, |v| future::join_all((0..n).map(|i| f(v, i)).collect::<Vec<_>>()), |o, v| { check(o.len() == n, "wrong number of outputs"); for i in 0..n { eq(&o[i], v, i) } })
}
fn h_join_all_big() {
    let n = param(3);
    joinlike(n, |v| future::join_all(NoHint((0..n).map(|i| f(v, i)).collect::<Vec<_>>().into_iter())), |o, v| { check(o.len() == n, "wrong number of outputs"); for i in 0..n { eq(&o[i], v, i) } })
}
fn h_tjoin2() { tryjoinlike(2, |v, e| future::try_join(rf(v, e, 0), rf(v, e, 1)), |o, v| { eq(&o.0, v, 0); eq(&o.1, v, 1) }) }
fn h_tjoin5() { tryjoinlike(5, |v, m| { let (a, b, c, d, e) = (rf(v, m, 0), rf(v, m, 1), rf(v, m, 2), rf(v, m, 3), rf(v, m, 4)); async move { futures::try_join!(a, b, c, d, e) } }, |o, v| { eq(&o.0, v, 0); eq(&o.1, v, 1); eq(&o.2, v, 2); eq(&o.3, v, 3); eq(&o.4, v, 4) }) }
fn h_tjoin_mac() { tryjoinlike(3, |v, e| { let (a, b, c) = (rf(v, e, 0), rf(v, e, 1), rf(v, e, 2)); async move { futures::try_join!(a, b, c) } }, |o, v| { eq(&o.0, v, 0); eq(&o.1, v, 1); eq(&o.2, v, 2) }) }
fn h_tjoin_all() {
    let n = param(3);
    tryjoinlike(n, |v, e| future::try_join_all((0..n).map(|i| rf(v, e, i)).collect::<Vec<_>>()), |o, v| { check(o.len() == n, "wrong number of outputs"); for i in 0..n { eq(&o[i], v, i) } })
}
fn h_join_thr() {
    // collections around the size at which the implementation changes
    scene(param(0), || {
        let n = [29, 30, 31, 32][choose(4)];
        let at = [0, n / 2, n - 1][choose(3)];
        let x = sym8();
        let r = if flip() {
            let it = (0..n).map(|i| if i == at { fut(0, x).boxed_local() } else { future::ready(i as u8).boxed_local() }).collect::<Vec<_>>();
            let mut s = Box::pin(future::join_all(it));
            let o = drv().fut(&mut s);
            cover(0);
            o
        } else {
            let bad = flip();
            let it = (0..n).map(|i| if i == at { fut(0, if bad { Err(x) } else { Ok(x) }).boxed_local() } else { future::ready(Ok(i as u8)).boxed_local() }).collect::<Vec<_>>();
            let mut s = Box::pin(future::try_join_all(it));
            let o = drv().fut(&mut s);
            cover(1);
            match o {
                Ok(o) => { check(!bad, "error lost"); cover(2); o }
                Err(e) => { check(bad && e == x, "wrong error"); cover(3); return }
            }
        };
        check(r.len() == n, "wrong number of outputs");
        for i in 0..n { check(r[i] == if i == at { x } else { i as u8 }, "wrong output") }
        if n > 30 { cover(4) }
    })
}
fn h_tjoin_all_big() {
    let n = param(3);
    tryjoinlike(n, |v, e| future::try_join_all(NoHint((0..n).map(|i| rf(v, e, i)).collect::<Vec<_>>().into_iter())), |o, v| { check(o.len() == n, "wrong number of outputs"); for i in 0..n { eq(&o[i], v, i) } })
}

fn h_fut_misc() {
    scene(param(0), || {
        let v = vals();
        let mut d = drv();
        let k = choose(9);
        macro_rules! term { ($f:expr) => {{
            let mut x = Box::pin($f);
            check(!x.is_terminated(), "terminated too early");
            let o = loop {
                match d.poll(|cx| x.as_mut().poll(cx)) {
                    Poll::Ready(o) => break o,
                    Poll::Pending => { check(!x.is_terminated(), "terminated too early"); d.settle() }
                }
            };
            check(x.is_terminated(), "not terminated after completion");
            drop(x);
            o
        }}; }
        match k {
            0 => {
                // poll!: one poll of the future, whatever it says
                let mut g = f(&v, 0);
                let mut x = Box::pin(async { let a = futures::poll!(&mut g); let n = polls(0); (a, n) });
                match d.poll(|cx| x.as_mut().poll(cx)) {
                    Poll::Ready((Poll::Ready(t), n)) => { check(n == 1 && done(0) && t.0 == v[0], "poll!"); cover(10) }
                    Poll::Ready((Poll::Pending, n)) => { check(n == 1 && !done(0) && blocked(0), "poll!"); cover(11) }
                    Poll::Pending => check(false, "poll! is never pending"),
                }
            }
            1 => {
                // pending!: gives up control once
                let c = Cell::new(0);
                let mut x = Box::pin(async { c.set(1); futures::pending!(); c.set(2); futures::pending!(); c.set(3); 7u8 });
                for i in 1..3 { check(d.poll(|cx| x.as_mut().poll(cx)).is_pending() && c.get() == i, "pending!") }
                check(d.poll(|cx| x.as_mut().poll(cx)) == Poll::Ready(7) && c.get() == 3, "pending!");
            }
            2 => { let o = term!(future::join(f(&v, 0).fuse(), f(&v, 1).fuse())); eq(&o.0, &v, 0); eq(&o.1, &v, 1) }
            3 => {
                let c = Cell::new(0);
                let mut a = future::always_ready(|| { c.set(c.get() + 1); v[0] });
                for i in 1..3 { check(!a.is_terminated() && d.poll(|cx| Pin::new(&mut a).poll(cx)) == Poll::Ready(v[0]) && c.get() == i, "always_ready") }
            }
            4 => { let o = term!(future::OptionFuture::from(Some(f(&v, 0).fuse()))); eq(&o.unwrap(), &v, 0); let mut n = future::OptionFuture::<Fut<Tk>>::from(None); check(matches!(d.poll(|cx| Pin::new(&mut n).poll(cx)), Poll::Ready(None)), "OptionFuture of None") }
            5 => {
                let m = std::sync::Arc::new(futures::lock::Mutex::new(v[0]));
                let o = term!(m.clone().lock_owned());
                check(*o == v[0] && m.try_lock().is_none(), "lock_owned");
                drop(o);
                let o = term!(m.lock());
                check(*o == v[0] && m.try_lock_owned().is_none(), "lock");
            }
            6 => {
                let (mut tx, mut rx) = futures::channel::mpsc::channel::<u8>(1);
                check(tx.try_send(v[0]).is_ok(), "send refused");
                drop(tx);
                let mut r = rx.recv();
                check(!r.is_terminated(), "terminated too early");
                check(d.poll(|cx| Pin::new(&mut r).poll(cx)) == Poll::Ready(Ok(v[0])), "recv");
                drop(r);
                let mut r = rx.recv();
                check(matches!(d.poll(|cx| Pin::new(&mut r).poll(cx)), Poll::Ready(Err(_))), "recv after the end");
                check(r.is_terminated(), "not terminated after the end");
            }
            7 => {
                let mut s = Box::pin(src(0, (0..2).map(|i| tk(v[i], i)).collect::<Vec<_>>()).peekable());
                let o = term!(s.as_mut().peek()).map(|t| (t.0, t.1));
                check(o == Some((v[0], 0)), "peek");
                if let Some(t) = term!(s.as_mut().peek_mut()) { check(t.0 == v[0] && t.1 == 0, "peek_mut"); t.0 = v[3] } else { check(false, "peek_mut") }
                let o = term!(s.as_mut().next_if(|t: &Tk| t.0 != v[3])); check(o.is_none(), "next_if");
                let o = term!(s.as_mut().next_if(|t: &Tk| t.0 == v[3])); check(o.map(|t| t.1) == Some(0), "next_if");
                let o = term!(s.as_mut().peek()).map(|t| (t.0, t.1)); check(o == Some((v[1], 1)), "peek");
                check(d.next(&mut s).map(|t| t.1) == Some(1), "next");
                check(term!(s.as_mut().peek()).is_none() && term!(s.as_mut().peek_mut()).is_none(), "peek at the end");
            }
            _ => {
                // collected forms
                match choose(4) {
                    0 => { let o = d.fut(&mut Box::pin((0..2).map(|i| f(&v, i)).collect::<future::JoinAll<_>>())); check(o.len() == 2, "wrong number of outputs"); for i in 0..2 { eq(&o[i], &v, i) } }
                    1 => { let o = d.fut(&mut Box::pin((0..2).map(|i| rf(&v, 0, i)).collect::<future::TryJoinAll<_>>())); match o { Ok(o) => { check(o.len() == 2, "wrong number of outputs"); for i in 0..2 { eq(&o[i], &v, i) } } Err(_) => check(false, "error out of nowhere") } }
                    2 => { let (o, i, rest) = d.fut(&mut Box::pin((0..2).map(|i| f(&v, i)).collect::<future::SelectAll<_>>())); eq(&o, &v, i); check(rest.len() == 1 && rest[0].id == 1 - i, "rest") }
                    _ => { let o = d.fut(&mut Box::pin((0..2).map(|i| rf(&v, 0, i)).collect::<future::SelectOk<_>>())); match o { Ok((o, rest)) => { eq(&o, &v, o.1); check(rest.len() == 1, "rest") } Err(_) => check(false, "error out of nowhere") } }
                }
            }
        }
        cover(k as u64);
    })
}
fn h_select2() {
    scene(param(0), || {
        let v = vals();
        let mut s = Box::pin(future::select(f(&v, 0), f(&v, 1)));
        check(!s.is_terminated(), "select terminated before it is polled");
        let r = drv().fut_or_cancel(&mut s, param(2) != 0, || {
            check(polls(0) > 0 && polls(1) > 0, "select did not poll both futures");
            check(!done(0) && !done(1), "select pending although a future is done");
        });
        match r {
            Some(Either::Left((x, rest))) => {
                cover(0);
                check(x.0 == v[0] && x.1 == 0 && done(0), "wrong value");
                check(s.is_terminated(), "finished select not terminated");
                finish_losers(2, 0, &v, vec![rest]);
            }
            Some(Either::Right((x, rest))) => {
                cover(1);
                check(x.0 == v[1] && x.1 == 1 && done(1), "wrong value");
                finish_losers(2, 1, &v, vec![rest]);
            }
            None => cover(2),
        }
        drop(s);
        all_dropped(2);
    })
}
fn h_try_select() {
    scene(param(0), || {
        let v = vals();
        let e = choose(4) as u8;
        let mut s = Box::pin(future::try_select(rf(&v, e, 0), rf(&v, e, 1)));
        let r = drv().fut_or_cancel(&mut s, false, || {
            check(polls(0) > 0 && polls(1) > 0, "try_select did not poll both futures");
            check(!done(0) && !done(1), "try_select pending although a future is done");
        });
        let (won, x, mut rest, err) = match r.unwrap() {
            Ok(Either::Left((x, r))) => (0, x, r, false),
            Ok(Either::Right((x, r))) => (1, x, r, false),
            Err(Either::Left((x, r))) => (0, x, r, true),
            Err(Either::Right((x, r))) => (1, x, r, true),
        };
        cover(won as u64 + 2 * err as u64);
        check(err == (e >> won & 1 != 0), "success and failure swapped");
        check(x.0 == v[won] && x.1 == won && done(won), "wrong value");
        check(rest.id == 1 - won && !done(1 - won), "wrong remaining future");
        let y = drv().strict(Strict::Last).fut(&mut rest);
        let y = match y { Ok(y) => { check(e >> (1 - won) & 1 == 0, "remaining future changed"); y } Err(y) => { check(e >> (1 - won) & 1 != 0, "remaining future changed"); y } };
        check(y.1 == 1 - won && y.0 == v[1 - won], "remaining future gives the wrong value");
        drop((x, y, rest, s));
        all_dropped(2);
    })
}
fn h_select_all() {
    let n = param(3);
    scene(param(0), || {
        let v = vals();
        let mut s = Box::pin(future::select_all((0..n).map(|i| f(&v, i))));
        let r = drv().fut_or_cancel(&mut s, param(2) != 0, || {
            for i in 0..n {
                check(polls(i) > 0, "select_all did not poll every future");
                check(!done(i), "select_all pending although a future is done");
            }
        });
        if let Some((x, idx, rest)) = r {
            check(x.1 == idx && idx < n && x.0 == v[idx] && done(idx), "wrong value or index");
            if idx == n - 1 { cover(0) }
            if idx == 0 { cover(1) }
            finish_losers(n, idx, &v, rest);
        } else {
            if flip() {
                let rest = Pin::into_inner(s).into_inner();
                check(rest.len() == n, "future lost");
                for (i, r) in rest.iter().enumerate() { check(r.id == i && !done(i), "future lost or reordered") }
                drop(rest);
                all_dropped(n);
                return;
            }
        }
        drop(s);
        all_dropped(n);
    })
}
fn h_select_empty() {
    // an empty select is refused at once instead of hanging for ever
    check(catch(|| future::select_all(Vec::<Fut<Tk>>::new())).is_err(), "select_all of nothing accepted");
    check(catch(|| future::select_ok(Vec::<future::Ready<Result<Tk, u8>>>::new())).is_err(), "select_ok of nothing accepted");
    cover(0);
}
fn h_select_ok() {
    let n = param(3);
    scene(param(0), || {
        let v = vals();
        let e = choose(1 << n) as u8;
        let mut s = Box::pin(future::select_ok((0..n).map(|i| rf(&v, e, i))));
        let r = drv().fut_or_cancel(&mut s, false, || {
            for i in 0..n {
                check(polls(i) > 0, "select_ok did not poll every future");
                check(!done(i) || e >> i & 1 != 0, "select_ok pending although a future succeeded");
            }
            check((0..n).any(|i| !done(i)), "select_ok pending although all futures are done");
        });
        match r.unwrap() {
            Ok((x, rest)) => {
                cover(0);
                check(x.1 < n && e >> x.1 & 1 == 0 && x.0 == v[x.1] && done(x.1), "wrong value");
                let mut seen = 1 << x.1;
                for mut r in rest {
                    let i = r.id;
                    check(seen >> i & 1 == 0 && !done(i), "finished future returned");
                    seen |= 1 << i;
                    let y = drv().strict(Strict::Last).fut(&mut r);
                    check(y.is_err() == (e >> i & 1 != 0), "remaining future changed");
                    let y = match y { Ok(y) => y, Err(y) => y };
                    check(y.0 == v[i] && y.1 == i, "remaining future gives the wrong value");
                }
                for i in 0..n { check(seen >> i & 1 != 0 || (done(i) && e >> i & 1 != 0), "an unfinished future was lost") }
            }
            Err(x) => {
                cover(1);
                check(e == (1 << n) - 1, "failed although a future succeeds");
                check(x.1 < n && x.0 == v[x.1], "wrong error");
                for i in 0..n { check(done(i), "failed before every future failed") }
            }
        }
        drop(s);
        all_dropped(n);
    })
}
fn h_select_mac() {
    // select! in a loop over two fused futures and a stream until everything is complete
    let biased = param(3) != 0;
    scene(param(0), || {
        let v = vals();
        let (mut a, mut b) = (f(&v, 0), f(&v, 1));
        let mut s = src(2, [tk(v[2], 2)]);
        let got = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
        let g2 = got.clone();
        let task = async move {
            loop {
                let r = if biased {
                    futures::select_biased! {
                        x = a => Some(x),
                        x = b => { if !done(0) { check(blocked(0), "a ready future of higher priority was passed over") } Some(x) }
                        x = s.next() => { if !done(0) { check(blocked(0), "passed over") } if !done(1) { check(blocked(1), "passed over") } x }
                        complete => break,
                    }
                } else {
                    futures::select! {
                        x = a => Some(x),
                        x = b => Some(x),
                        x = s.next() => x,
                        complete => break,
                    }
                };
                g2.borrow_mut().push(r);
            }
            check(done(0) && done(1) && done(2), "complete branch ran before everything was complete");
        };
        let mut t = Box::pin(task);
        drv().fut(&mut t);
        let got = got.take();
        check(got.len() == 4, "wrong number of branches ran");
        let mut seen = [0u8; 4];
        for x in &got {
            match x { Some(t) => { seen[t.1] += 1; check(t.0 == v[t.1], "wrong value") } None => seen[3] += 1 }
        }
        check(seen == [1, 1, 1, 1], "a result was lost or duplicated");
        if matches!(&got[0], Some(t) if t.1 == 2) { cover(0) }
        if matches!(&got[0], Some(t) if t.1 == 0) { cover(1) }
        drop(got);
        drop(t);
        all_dropped(2);
    })
}
fn h_select_default() {
    scene(param(0), || {
        let v = vals();
        let mut a = f(&v, 0);
        let mut b = f(&v, 1);
        let biased = flip();
        let mut t = Box::pin(async {
            let r = if biased {
                futures::select_biased! { x = a => 1 + (x.1 as u32), x = b => 1 + (x.1 as u32), default => 9, complete => 10 }
            } else {
                futures::select! { x = a => 1 + (x.1 as u32), x = b => 1 + (x.1 as u32), default => 9, complete => 10 }
            };
            r
        });
        let r = drv().poll(|cx| t.as_mut().poll(cx));
        drop(t);
        match r {
            Poll::Pending => check(false, "select! with a default branch must not wait"),
            Poll::Ready(9) => { cover(0); check(blocked(0) && blocked(1), "default ran although a future was ready"); }
            Poll::Ready(k) => { cover(k as u64); check(k == 1 || k == 2, "wrong branch"); check(done(k as usize - 1), "wrong branch"); check(!done(2 - k as usize), "result of a future discarded") }
        }
        drop((a, b));
        all_dropped(2);
    })
}
fn h_select_fair() {
    // any branch that is ready may be the one that runs
    let mut seen = [false; 3];
    for _ in 0..param(0) {
        let (mut a, mut b, mut c) = (future::ready(0usize), future::ready(1usize), future::ready(2usize));
        let mut t = Box::pin(async { futures::select! { x = a => x, x = b => x, x = c => x } });
        let w = futures::task::noop_waker();
        match t.as_mut().poll(&mut std::task::Context::from_waker(&w)) {
            Poll::Ready(x) => { cover(x as u64); seen[x] = true }
            Poll::Pending => check(false, "select! waits although everything is ready"),
        }
    }
    if param(0) > 1 { check(seen[0] && seen[1] && seen[2], "select! never runs one of the ready branches") }
}
fn h_select_dead() {
    // terminated futures are not polled; with nothing left and no complete branch: panic
    scene(param(0), || {
        let v = vals();
        let mut a = f(&v, 0).fuse();
        let mut b: future::Fuse<Fut<Tk>> = future::Fuse::terminated();
        let mut t = Box::pin(async {
            let x = futures::select! { x = a => x, x = b => x };
            check(x.1 == 0, "terminated future selected");
        });
        drv().fut(&mut t);
        drop(t);
        check(a.is_terminated(), "finished fused future not terminated");
        let r = catch(|| { let mut t = Box::pin(async { let _x = futures::select! { x = a => x, x = b => x }; }); let w = waker(0); poll(&mut t, &w).is_pending() });
        check(r.is_err(), "select! over completed futures neither panicked nor completed");
        cover(0);
        drop((a, b));
        all_dropped(1);
    })
}
fn h_either() {
    scene(param(0), || {
        let v = vals();
        let left = flip();
        // Either as a future
        let e: Either<Fut<Tk>, Fut<Tk>> = if left { f(&v, 0).left_future() } else { f(&v, 0).right_future() };
        check(!e.is_terminated(), "terminated too early");
        let mut e = Box::pin(e);
        let x = drv().fut(&mut e);
        check(e.is_terminated(), "not terminated after the end");
        check(x.0 == v[0], "wrong value");
        drop((x, e));
        all_dropped(1);
        // Either as a stream
        let s = src(1, [tk(v[1], 1), tk(v[2], 2)]);
        let s: Either<Src<Tk>, Src<Tk>> = if left { s.left_stream() } else { s.right_stream() };
        let mut s = Box::pin(s);
        check(futures::Stream::size_hint(&s) == (2, Some(2)), "size hint");
        let o = drv().all(&mut s);
        check(s.is_terminated(), "not terminated after the end");
        check(o.len() == 2 && o[0].0 == v[1] && o[1].0 == v[2], "wrong items");
        drop((o, s));
        // helpers
        let h: Either<(u8, u8), (u8, u16)> = if left { Either::Left((v[0], v[1])) } else { Either::Right((v[0], v[2] as u16)) };
        let (k, r) = h.factor_first();
        check(k == v[0] && match r { Either::Left(x) => left && x == v[1], Either::Right(x) => !left && x == v[2] as u16 }, "factor_first");
        let h: Either<(u8, u8), (u16, u8)> = if left { Either::Left((v[1], v[0])) } else { Either::Right((v[2] as u16, v[0])) };
        let (r, k) = h.factor_second();
        check(k == v[0] && match r { Either::Left(x) => left && x == v[1], Either::Right(x) => !left && x == v[2] as u16 }, "factor_second");
        let h: Either<u8, u8> = if left { Either::Left(v[3]) } else { Either::Right(v[3]) };
        check(h.into_inner() == v[3], "into_inner");
        cover(0);
    })
}

fn h_fut_ext() {
    let k = choose(22);
    cover(k as u64);
    scene(param(0), || {
        let v = vals();
        let calls = Cell::new(0u32);
        let called = || { boom(); calls.set(calls.get() + 1) };
        let mut d = drv();
        // runs the adapter, checking the callback count before and after
        macro_rules! run { ($f:expr, $n:expr) => {{
            let mut x = Box::pin($f);
            check(calls.get() == 0, "callback ran before the future was polled");
            let o = crate::fin!(&mut d, x.as_mut(), false, || check(calls.get() == 0 || $n > 1, "callback ran before the future completed")).unwrap();
            check(calls.get() == $n, "callback not run exactly once");
            drop(x);
            o
        }}; }
        macro_rules! fused { ($f:expr) => {{
            let mut x = Box::pin($f);
            check(!x.is_terminated(), "terminated too early");
            let o = d.fut_or_cancel(&mut x, false, || ()).unwrap();
            check(x.is_terminated(), "not terminated after completion");
            drop(x);
            o
        }}; }
        let mut n = 1;
        if k == 7 || k == 8 { calm() }
        match k {
            0 => { let o = run!(f(&v, 0).map(|x| { called(); (x, 7) }), 1); check(o.0.0 == v[0] && o.1 == 7, "map") }
            1 => { n = 2; let o = { let mut x = Box::pin(f(&v, 0).then(|x| { called(); fut(1, (x, tk(v[1], 1))) })); check(!x.is_terminated(), "terminated early"); let o = d.fut_or_cancel(&mut x, false, || check((calls.get() == 1) == done(0), "then starts its second future exactly when the first is done")).unwrap(); check(x.is_terminated(), "not terminated"); o }; check(o.0.0 == v[0] && o.1.0 == v[1] && calls.get() == 1, "then") }
            2 => { n = 2; let g = f(&v, 1); let o = fused!(fut(0, (g, tk(v[0], 0))).map(|(g, t)| { drop(t); g }).flatten()); check(o.0 == v[1], "flatten") }
            3 => {
                let s = src(1, [tk(v[1], 1), tk(v[2], 2)]);
                let o = { let mut x = Box::pin(fut(0, (s, tk(v[0], 0))).map(|(s, t)| { drop(t); s }).flatten_stream()); check(!x.is_terminated(), "terminated early"); let o = d.all(&mut x); check(x.is_terminated(), "not terminated"); o };
                check(o.len() == 2 && o[0].0 == v[1] && o[1].0 == v[2], "flatten_stream");
            }
            4 => {
                let mut x = Box::pin(f(&v, 0).into_stream());
                check(x.size_hint() == (1, Some(1)), "size hint of into_stream");
                let o = d.next(&mut x);
                check(o.unwrap().0 == v[0], "into_stream");
                check(x.size_hint() == (0, Some(0)) && x.is_terminated(), "into_stream not over");
                check(d.next(&mut x).is_none() && d.next(&mut x).is_none(), "into_stream yields twice");
            }
            5 => {
                let mut x = Box::pin(f(&v, 0).fuse());
                check(!x.is_terminated(), "fuse terminated early");
                let o = d.fut_or_cancel(&mut x, false, || ()).unwrap();
                check(o.0 == v[0], "fuse");
                check(x.is_terminated() && src_dropped(0), "fuse keeps the finished future");
                for _ in 0..2 { check(d.poll(|cx| x.as_mut().poll(cx)).is_pending(), "fused future ready again") }
                
            }
            6 => { let seen = Cell::new(0); let o = run!(f(&v, 0).inspect(|x| { called(); seen.set(x.0) }), 1); check(o.0 == v[0] && seen.get() == v[0], "inspect") }
            7 => { let o = run!(std::panic::AssertUnwindSafe(f(&v, 0)).catch_unwind(), 0); check(o.unwrap().0 == v[0], "catch_unwind") }
            8 => {
                let g = f(&v, 0);
                let p = async move { let x = g.await; if x.0 < 100 { vp_rt_panic() } x };
                let o = run!(std::panic::AssertUnwindSafe(p).catch_unwind(), 0);
                match o { Ok(x) => check(x.0 == v[0] && v[0] >= 100, "catch_unwind"), Err(_) => check(v[0] < 100, "catch_unwind invents a panic") }
            }
            9 => { let b: future::BoxFuture<'_, Tk> = FutureExt::boxed(f(&v, 0)); let o = run!(b, 0); check(o.0 == v[0], "boxed") }
            10 => { let b = FutureExt::boxed_local(f(&v, 0)); let o = run!(b, 0); check(o.0 == v[0], "boxed_local") }
            11 => { let o: Result<Tk, ()> = fused!(f(&v, 0).unit_error()); check(o.unwrap().0 == v[0], "unit_error") }
            12 => { let o: Result<Tk, std::convert::Infallible> = fused!(f(&v, 0).never_error()); check(o.unwrap().0 == v[0], "never_error") }
            13 => {
                let o = f(&v, 0).now_or_never();
                check(polls(0) == 1, "now_or_never polls exactly once");
                match o { Some(x) => check(done(0) && x.0 == v[0], "now_or_never"), None => check(!done(0), "now_or_never lost the value") }
            }
            14 => {
                let mut m = Box::pin(future::maybe_done(f(&v, 0)));
                check(m.as_mut().output_mut().is_none() && m.as_mut().take_output().is_none(), "maybe_done has an output too early");
                check(!m.is_terminated(), "terminated early");
                d.fut_or_cancel(&mut m, false, || ());
                check(m.is_terminated(), "not terminated");
                check(m.as_mut().output_mut().map(|t| t.0) == Some(v[0]), "maybe_done");
                if flip() { d.fut_or_cancel(&mut m, false, || ()); }
                check(m.as_mut().take_output().map(|t| t.0) == Some(v[0]), "maybe_done");
                check(m.as_mut().take_output().is_none() && dropped(0), "output taken twice");
            }
            15 => {
                let some = flip();
                let mut o = Box::pin(future::OptionFuture::from(if some { Some(f(&v, 0)) } else { None }));
                let r = d.fut_or_cancel(&mut o, false, || check(some, "OptionFuture of None pending")).unwrap();
                check(r.map(|t| t.0) == if some { Some(v[0]) } else { None }, "OptionFuture");
                n = some as usize;
            }
            16 => {
                let mut p = Box::pin(future::poll_immediate(f(&v, 0)));
                let r = d.poll(|cx| p.as_mut().poll(cx));
                match r {
                    Poll::Pending => check(false, "poll_immediate pending"),
                    Poll::Ready(Some(t)) => check(t.0 == v[0] && p.is_terminated(), "poll_immediate"),
                    Poll::Ready(None) => {
                        check(!done(0) && !p.is_terminated(), "poll_immediate lost the value");
                        fire(0);
                        loop {
                            match d.poll(|cx| futures::Stream::poll_next(p.as_mut(), cx)) {
                                Poll::Ready(Some(Poll::Ready(t))) => { check(t.0 == v[0], "poll_immediate"); break }
                                Poll::Ready(Some(Poll::Pending)) => { check(blocked(0), "value held back"); fire(0); }
                                _ => check(false, "poll_immediate stream ended early"),
                            }
                        }
                        check(matches!(d.poll(|cx| futures::Stream::poll_next(p.as_mut(), cx)), Poll::Ready(None)), "poll_immediate stream does not end");
                    }
                }
            }
            17 => {
                n = 0;
                let z = v[0];
                let mut l = Box::pin(future::lazy(|_| { called(); z }));
                check(calls.get() == 0 && !l.is_terminated(), "lazy ran too early");
                let o = d.fut_or_cancel(&mut l, false, || ()).unwrap();
                check(o == v[0] && calls.get() == 1 && l.is_terminated(), "lazy");
                drop(l);
                let mut r = Box::pin(future::always_ready(|| z));
                check(d.fut(&mut r) == z && d.fut(&mut r) == z, "always_ready");
            }
            18 => {
                n = 0;
                let mut r = future::ready(v[0]);
                check(!r.is_terminated(), "ready terminated early");
                check(d.fut(&mut r) == v[0] && r.is_terminated(), "ready");
                check(future::ready(v[1]).into_inner() == v[1], "ready");
                check(d.fut(&mut future::ok::<u8, u8>(v[0])) == Ok(v[0]) && d.fut(&mut future::err::<u8, u8>(v[0])) == Err(v[0]), "ok/err");
                let mut p = future::pending::<u8>();
                check(p.is_terminated() && d.poll(|cx| Pin::new(&mut p).poll(cx)).is_pending() && !woken(d.k), "pending");
                let mut c = 0;
                let mut p = future::poll_fn(|cx| { c += 1; if c < 2 { cx.waker().wake_by_ref(); Poll::Pending } else { Poll::Ready(c) } });
                check(d.fut(&mut p) == 2, "poll_fn");
            }
            19 => { let o: u16 = { let z = v[0]; let mut x = Box::pin(f(&v, 0).map(move |_| z).map_into::<u16>()); check(!x.is_terminated(), "terminated early"); let o = d.fut(&mut x); check(x.is_terminated(), "not terminated"); o }; check(o == v[0] as u16, "map_into") }
            20 => {
                // map drops its closure and the future once it is done
                let t = tk(v[1], 9);
                let mut x = Box::pin(f(&v, 0).map(move |x| { let _t = &t; x }));
                let o = d.fut_or_cancel(&mut x, true, || check(alive(9), "closure dropped early"));
                if o.is_some() { check(dropped(9) && src_dropped(0) && x.is_terminated(), "map keeps its parts after completion"); }
                drop((o, x));
                check(dropped(9), "closure leaked");
            }
            _ => {
                // AbortHandle-free cancellation: dropping `then` mid-way drops the stage that is alive
                let mut x = Box::pin(f(&v, 0).then(|x| { drop(x); f(&v, 1) }));
                n = 1;
                let o = d.fut_or_cancel(&mut x, true, || check(!done(0) || polls(1) > 0, "second stage not started"));
                if o.is_some() { check(done(0) && done(1), "then"); }
                if done(0) { n = 2; check(dropped(0), "value leaked") }
                drop((o, x));
            }
        }
        all_dropped(n);
    })
}
fn h_try_fut_ext() {
    let k = choose(15);
    cover(k as u64);
    scene(param(0), || {
        let v = vals();
        let e = flip() as u8;
        let calls = Cell::new(0u32);
        let called = || { boom(); calls.set(calls.get() + 1) };
        let mut d = drv();
        let g = rf(&v, e, 0);
        macro_rules! run { ($f:expr, $n:expr) => {{
            let mut x = Box::pin($f);
            check(calls.get() == 0, "callback ran before the future was polled");
            let o = crate::fin!(&mut d, x.as_mut(), false, || check(calls.get() == 0 || done(0), "callback ran before the future completed")).unwrap();
            check(calls.get() == $n, "callback must run exactly when the result matches");
            drop(x);
            o
        }}; }
        let ok = e == 0;
        let oks = ok as u32;
        let errs = !ok as u32;
        let mut n = 1;
        match k {
            0 => match run!(g.map_ok(|x| { called(); (x, 3) }), oks) { Ok((x, 3)) => check(ok && x.0 == v[0], "map_ok"), Ok(_) => check(false, "map_ok"), Err(x) => check(!ok && x.0 == v[0], "map_ok") },
            1 => match run!(g.map_err(|x| { called(); (x, 3) }), errs) { Ok(x) => check(ok && x.0 == v[0], "map_err"), Err((x, 3)) => check(!ok && x.0 == v[0], "map_err"), Err(_) => check(false, "map_err") },
            2 => { let o = run!(g.map_ok_or_else(|x| { called(); (x, 1) }, |x| { called(); (x, 2) }), 1); check(o.0.0 == v[0] && o.1 == if ok { 2 } else { 1 }, "map_ok_or_else") }
            3 => {
                let o = run!(g.and_then(|x| { called(); n = 2; fut(1, if x.0 < 9 { Err(x) } else { Ok((x, tk(v[1], 1))) }) }), oks);
                match o { Ok((x, y)) => check(ok && v[0] >= 9 && x.0 == v[0] && y.0 == v[1], "and_then"), Err(x) => { check((!ok || v[0] < 9) && x.0 == v[0] && x.1 == 0, "and_then") } }
                if n == 2 { check(src_dropped(1), "leak"); n = 1 }
            }
            4 => {
                let o = run!(g.or_else(|x| { called(); fut(1, if x.0 < 9 { Err(x) } else { Ok(x) }) }), errs);
                match o { Ok(x) => check((ok || v[0] >= 9) && x.0 == v[0], "or_else"), Err(x) => check(!ok && v[0] < 9 && x.0 == v[0], "or_else") }
            }
            5 => { let seen = Cell::new(0); let o = run!(g.inspect_ok(|x| { called(); seen.set(x.0) }), oks); check(!ok || seen.get() == v[0], "inspect_ok"); check(o.is_ok() == ok && o.unwrap_or_else(|x| x).0 == v[0], "inspect_ok") }
            6 => { let seen = Cell::new(0); let o = run!(g.inspect_err(|x| { called(); seen.set(x.0) }), errs); check(ok || seen.get() == v[0], "inspect_err"); check(o.is_ok() == ok && o.unwrap_or_else(|x| x).0 == v[0], "inspect_err") }
            7 => {
                let o = run!(g.map_ok(|x| { called(); let y = x.0; drop(x); fut(1, if y < 9 { Err(tk(y, 1)) } else { Ok(y) }) }).try_flatten(), oks);
                match o { Ok(y) => check(ok && y == v[0] && y >= 9, "try_flatten"), Err(x) => check(x.0 == v[0] && (x.1 == 0 && !ok || x.1 == 1 && ok && v[0] < 9), "try_flatten") }
            }
            8 => {
                let mut x = Box::pin(g.map_ok(|t| { drop(t); src(1, [Ok(5u8), Err(tk(v[1], 1))]) }).try_flatten_stream());
                check(!x.is_terminated(), "terminated early");
                let mut o = d.all(&mut x);
                check(x.is_terminated(), "not terminated");
                if ok { check(o.len() == 2 && matches!(o[0], Ok(5)) && matches!(&o[1], Err(t) if t.0 == v[1]), "try_flatten_stream") }
                else { check(o.len() == 1 && matches!(o.pop(), Some(Err(t)) if t.0 == v[0]), "try_flatten_stream") }
                drop(o);
                drop(x);
            }
            9 => { let o = run!(g.unwrap_or_else(|x| { called(); x }), errs); check(o.0 == v[0], "unwrap_or_else") }
            10 => { let o = run!(g.into_future(), 0); check(o.is_ok() == ok && o.unwrap_or_else(|x| x).0 == v[0], "into_future") }
            11 => { let z = v[0]; let o: Result<u16, Tk> = run!(g.map_ok(|_| z).ok_into(), 0); match o { Ok(x) => check(ok && x == z as u16, "ok_into"), Err(x) => check(!ok && x.0 == z, "ok_into") } }
            12 => { let z = v[0]; let o: Result<Tk, u16> = run!(g.map_err(|_| z).err_into(), 0); match o { Ok(x) => check(ok && x.0 == z, "err_into"), Err(x) => check(!ok && x == z as u16, "err_into") } }
            13 => {
                let mut m = Box::pin(future::try_maybe_done(g));
                check(!m.is_terminated() && m.as_mut().output_mut().is_none() && m.as_mut().take_output().is_none(), "try_maybe_done too early");
                let r = d.fut_or_cancel(&mut m, false, || ()).unwrap();
                check(m.is_terminated(), "not terminated");
                match r {
                    Ok(()) => { check(ok && m.as_mut().output_mut().map(|t| t.0) == Some(v[0]), "try_maybe_done"); check(m.as_mut().take_output().map(|t| t.0) == Some(v[0]) && m.as_mut().take_output().is_none(), "try_maybe_done") }
                    Err(x) => check(!ok && x.0 == v[0] && m.as_mut().take_output().is_none(), "try_maybe_done"),
                }
            }
            _ => {
                // flatten_sink: items wait for the sink's future; its error is reported once
                let (s, log) = snk::<u8>(1);
                use futures::sink::SinkExt;
                let mut x = Box::pin(fut(2, if ok { Ok((s, tk(v[0], 2))) } else { drop(s); Err(v[0]) }).map_ok(|(s, t)| { drop(t); s }).flatten_sink());
                drop(g);
                let r = { let mut op = Box::pin(x.send(v[3])); d.fut(&mut op) };
                if ok {
                    check(r == Ok(()) && log.borrow().items == [v[3]] && log.borrow().unflushed == 0, "flatten_sink");
                    let r = { let mut op = Box::pin(x.close()); d.fut(&mut op) };
                    check(r == Ok(()) && log.borrow().closed, "flatten_sink close");
                } else { check(r == Err(v[0]), "flatten_sink error") }
                drop((x, log));
            }
        }
        all_dropped(n);
    })
}
}
