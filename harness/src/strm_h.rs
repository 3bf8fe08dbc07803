//! Stream adapters: reference lists of items, size hints, termination flags.
use crate::ctl::*;
use crate::drain::*;
use crate::harness;
use crate::rt::*;
use futures::future::{self, FutureExt};
use futures::sink::SinkExt;
use futures::stream::{self, FusedStream, Stream, StreamExt};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

const FID: usize = 4;

fn adapters(kind: usize) {
    let hk = if mode(HINT) { choose(5) as u8 } else if mode(TERM) || param(2) == CANCEL { 0 } else { 4 * choose(2) as u8 };
    let early = mode(TERM) && flip();
    scene(param(0), || {
        let maxn = param(3);
        let n = choose(maxn + 1);
        let v: Vec<u8> = (0..n).map(|_| sym8()).collect();
        let p: Vec<bool> = (0..n).map(|_| flip()).collect();
        let s = || src(0, (0..n).map(|i| tk(v[i], i)).collect::<Vec<_>>()).hint(hk).early(early);
        let one = |i: usize| -> Ob { vec![(i, v[i])] };
        let calls = Cell::new(0usize);
        // callbacks see the items in order, each once
        let call = |i: usize| { boom(); check(calls.get() == i, "callback out of order or repeated"); calls.set(i + 1) };
        let none = |_: usize| ();
        let lazy = |f: &dyn Fn(usize) -> usize| { let f: Vec<usize> = (0..=n).map(|k| f(k)).collect(); move |k: usize| check(pulled(0) <= f[k.min(f.len() - 1)], "source read ahead") };
        match kind {
            0 => {
                let exp: Vec<Ob> = (0..n).map(|i| vec![(i, v[i].wrapping_add(1))]).collect();
                drain(s().map(|mut t: Tk| { call(t.1); t.0 = t.0.wrapping_add(1); t }), &exp, lazy(&|k| k));
                if !mode(CANCEL) { check(calls.get() == n, "callback not run for every item") }
            }
            1 => {
                let exp: Vec<Ob> = (0..n).map(one).collect();
                drain(s().inspect(|t: &Tk| call(t.1)), &exp, lazy(&|k| k));
                if !mode(CANCEL) { check(calls.get() == n, "callback not run for every item") }
            }
            2 => {
                let exp: Vec<Ob> = (0..n).map(|i| vec![(i, v[i] ^ 0x55)]).collect();
                drain(s().then(|mut t: Tk| { call(t.1); t.0 ^= 0x55; fut(FID, t) }), &exp, lazy(&|k| k + 1));
                if !mode(CANCEL) { check(calls.get() == n, "callback not run for every item") }
            }
            3 => {
                let exp: Vec<Ob> = (0..n).filter(|i| p[*i]).map(one).collect();
                drain(s().filter(|t: &Tk| { call(t.1); fut(FID, p[t.1]) }), &exp, none);
                if !mode(CANCEL) { check(calls.get() == n, "callback not run for every item") }
            }
            4 => {
                let exp: Vec<Ob> = (0..n).filter(|i| p[*i]).map(|i| vec![(i, !v[i])]).collect();
                drain(s().filter_map(|mut t: Tk| { call(t.1); let k = p[t.1]; t.0 = !t.0; fut(FID, if k { Some(t) } else { None }) }), &exp, none);
                if !mode(CANCEL) { check(calls.get() == n, "callback not run for every item") }
            }
            5 => {
                let exp: Vec<Ob> = (0..n).map(|i| vec![(100 + i, 0), (i, v[i])]).collect();
                drain(s().enumerate(), &exp, lazy(&|k| k));
            }
            6 => {
                let first = (0..n).find(|i| !p[*i]).unwrap_or(n);
                let exp: Vec<Ob> = (first..n).map(one).collect();
                drain(s().skip_while(|t: &Tk| { call(t.1); fut(FID, p[t.1]) }), &exp, none);
                if !mode(CANCEL) { check(calls.get() == n.min(first + 1), "predicate called after it was false") }
            }
            7 => {
                let first = (0..n).find(|i| !p[*i]).unwrap_or(n);
                let exp: Vec<Ob> = (0..first).map(one).collect();
                drain(s().take_while(|t: &Tk| { call(t.1); fut(FID, p[t.1]) }), &exp, lazy(&|k| k + 1));
                if !mode(CANCEL) { check(calls.get() == n.min(first + 1), "predicate called after it was false") }
            }
            8 => {
                let first = (0..n).find(|i| !p[*i]).unwrap_or(n);
                let mut acc = 7u8;
                let exp: Vec<Ob> = (0..first).map(|i| { acc = acc.wrapping_mul(3).wrapping_add(v[i]); vec![(i, acc)] }).collect();
                drain(s().scan(7u8, |st: u8, mut t: Tk| { call(t.1); let st = st.wrapping_mul(3).wrapping_add(t.0); let k = p[t.1]; t.0 = st; fut(FID, if k { Some((st, t)) } else { None }) }), &exp, lazy(&|k| k + 1));
                if !mode(CANCEL) { check(calls.get() == n.min(first + 1), "callback called after the end") }
            }
            9 => {
                let k = choose(maxn + 2);
                let exp: Vec<Ob> = (k.min(n)..n).map(one).collect();
                drain(s().skip(k), &exp, |x| check(pulled(0) <= x + k, "source read ahead"));
            }
            10 => {
                let k = choose(maxn + 2);
                let exp: Vec<Ob> = (0..k.min(n)).map(one).collect();
                drain(s().take(k), &exp, |x| { check(pulled(0) <= x, "source read ahead"); if x == k { check(!blocked(0), "source polled after the last item") } });
            }
            11 => {
                let exp: Vec<Ob> = (0..n).map(one).collect();
                let mut f = Box::pin(s().fuse());
                drain(f.as_mut(), &exp, lazy(&|k| k));
                if !mode(CANCEL) {
                    // polling again after the end is allowed
                    for _ in 0..2 {
                        let w = waker(3);
                        check(matches!(f.as_mut().poll_next(&mut Context::from_waker(&w)), Poll::Ready(None)), "item after the end");
                        check(f.is_terminated() && f.is_done() && f.size_hint() == (0, Some(0)), "fuse state");
                    }
                }
            }
            12 => {
                // the same value unchanged through the delegating wrappers
                let exp: Vec<Ob> = (0..n).map(one).collect();
                match choose(6) {
                    0 => drain_inv(s().boxed_local(), &exp, |_| None, none_term),
                    1 => drain(s().left_stream::<Src<Tk>>(), &exp, none),
                    2 => drain(s().right_stream::<Src<Tk>>(), &exp, none),
                    3 => { let mut x = s(); drain(&mut x, &exp, none) }
                    4 => drain(Box::pin(s()), &exp, none),
                    _ => drain(Box::new(s()), &exp, none),
                }
            }
            13 => {
                let mut exp: Vec<Ob> = (0..n).map(one).collect();
                let m = choose(3);
                let u: Vec<u8> = (0..m).map(|_| sym8()).collect();
                for i in 0..m { exp.push(vec![(8 + i, u[i])]) }
                let s2 = src(1, (0..m).map(|i| tk(u[i], 8 + i)).collect::<Vec<_>>()).hint(hk).early(early);
                drain(s().chain(s2), &exp, |_| if !done(0) { check(polls(1) == 0, "second stream polled before the first ended") });
            }
            14 => {
                let m = choose(maxn + 1);
                let u: Vec<u8> = (0..m).map(|_| sym8()).collect();
                let l = n.min(m);
                let exp: Vec<Ob> = (0..l).map(|i| vec![(i, v[i]), (8 + i, u[i])]).collect();
                let s2 = src(1, (0..m).map(|i| tk(u[i], 8 + i)).collect::<Vec<_>>()).hint(hk).early(early);
                drain(s().zip(s2), &exp, |k| {
                    check(pulled(0) <= k + 1 && pulled(1) <= k + 1, "source read ahead");
                });
            }
            15 => {
                let c = 1 + choose(3);
                let mut exp: Vec<Ob> = vec![];
                for i in 0..n { if i % c == 0 { exp.push(vec![]) } exp.last_mut().unwrap().push((i, v[i])) }
                drain(s().chunks(c), &exp, |k| check(pulled(0) <= (k + 1) * c, "source read ahead"));
            }
            16 => {
                // flatten: inner streams one after the other; item ids 4*i+k
                let m: Vec<usize> = (0..n).map(|_| choose(3)).collect();
                let mut exp: Vec<Ob> = vec![];
                for i in 0..n { for k in 0..m[i] { exp.push(vec![(20 + 4 * i + k, v[i] ^ k as u8)]) } }
                let inner = |i: usize| src(1 + i, (0..m[i]).map(|k| tk(v[i] ^ k as u8, 20 + 4 * i + k)).collect::<Vec<_>>());
                let inv = |_: usize| for i in 1..n { check(polls(1 + i) == 0 || done(i), "inner stream polled before the previous one ended") };
                if flip() { drain(src(0, (0..n).map(inner).collect::<Vec<_>>()).flatten(), &exp, inv) }
                else { drain(src(0, 0..n).flat_map(|i| { call(i); inner(i) }), &exp, inv) }
            }
            17 => {
                // stops when the future resolves
                let mut t = Box::pin(s().take_until(fut(FID, 9u8)));
                let mut d = Drv::new(param(1)).strict(Strict::All);
                let mut k = 0;
                let free = choose(3); // take the future out after so many items (2: never)
                let mut out = false;
                loop {
                    if k == free && !out && free < 2 {
                        out = true;
                        let f = t.as_mut().get_mut().take_future();
                        check(f.is_some() == !done(FID), "take_future");
                        if f.is_none() { out = false } else { cover(41) }
                        drop(f);
                    }
                    if !(out && done(0)) { check(t.is_stopped() == (done(FID) || done(0)), "is_stopped"); }
                    if mode(TERM) { check(t.is_terminated() == t.is_stopped(), "termination flag") }
                    if mode(HINT) { let (lo, hi) = t.size_hint(); if t.is_stopped() { check((lo, hi) == (0, Some(0)), "hint after stop") } else { check(hi.map_or(true, |h| h >= n - k), "size_hint upper bound below the items that follow") } }
                    match d.poll(|cx| t.as_mut().poll_next(cx)) {
                        Poll::Pending => { check(blocked(0), "stream not polled"); check(out || blocked(FID), "stopping future not polled"); d.settle() }
                        Poll::Ready(Some(x)) => { check(!done(FID), "item after the stopping future resolved"); check(x.1 == k && x.0 == v[k], "wrong item"); k += 1 }
                        Poll::Ready(None) => break,
                    }
                }
                check(done(0) || done(FID), "stopped for no reason");
                if done(0) { check(k == n, "items lost") }
                let r = t.as_mut().get_mut().take_result();
                check(r == if done(FID) { Some(9) } else { None }, "result of the stopping future");
                if done(FID) { cover(42) }
                if mode(TERM) { check(t.is_terminated(), "is_terminated not set after the end") }
            }
            18 => {
                // ready_chunks: whatever is ready, at most c
                let c = 1 + choose(3);
                let mut s = Box::pin(s().ready_chunks(c));
                let mut d = Drv::new(param(1)).strict(Strict::All);
                let mut k = 0;
                loop {
                    let rest = n - k;
                    if mode(HINT) { let (lo, hi) = s.size_hint(); check(lo <= (rest + c - 1) / c && hi.map_or(true, |h| h >= rest), "size_hint") }
                    if mode(TERM) && rest > 0 { check(!s.is_terminated(), "is_terminated although items follow") }
                    match d.poll(|cx| s.as_mut().poll_next(cx)) {
                        Poll::Pending => { check(pulled(0) == k, "ready items held back"); d.settle() }
                        Poll::Ready(Some(x)) => {
                            check(x.len() >= 1 && x.len() <= c, "chunk size");
                            if x.len() < c { check(blocked(0) || done(0), "chunk not filled although items are ready") }
                            for t in &x { check(t.1 == k && t.0 == v[k], "wrong item"); k += 1 }
                            check(pulled(0) == k, "ready items held back");
                            if x.len() > 1 { cover(43) }
                        }
                        Poll::Ready(None) => break,
                    }
                }
                check(k == n, "items lost");
                if mode(TERM) { check(s.is_terminated(), "is_terminated not set after the end") }
            }
            19 => {
                // peekable: every mix of peek, peek_mut, next_if, next_if_eq, next
                let mut s = Box::pin(s().peekable());
                let mut d = Drv::new(param(1)).strict(Strict::All);
                let mut k = 0;
                let mut w: Vec<u8> = v.clone();
                for _ in 0..param(4) {
                    hints(&*s, n - k);
                    if mode(TERM) && k < n { check(!s.is_terminated(), "is_terminated although items follow") }
                    match choose(5) {
                        0 => { let r = d.drive(|cx| s.as_mut().poll_peek(cx).map(|o| o.map(|t| (t.1, t.0)))); check(r == w.get(k).map(|x| (k, *x)), "peek"); }
                        1 => { let r = d.drive(|cx| s.as_mut().poll_peek_mut(cx).map(|o| o.map(|t| { let r = (t.1, t.0); t.0 = !t.0; r }))); check(r == w.get(k).map(|x| (k, *x)), "peek_mut"); if k < n { w[k] = !w[k] } }
                        2 => {
                            let take = flip();
                            let seen = Cell::new(false);
                            let r = { let mut f = Box::pin(s.as_mut().next_if(|t: &Tk| { check(t.1 == k && t.0 == w[k], "next_if sees a wrong item"); check(!seen.get(), "predicate called twice"); seen.set(true); take })); d.drive(|cx| f.as_mut().poll(cx)) };
                            check(seen.get() == (k < n), "predicate not called");
                            match r { Some(t) => { check(take && t.1 == k && t.0 == w[k], "next_if"); k += 1; cover(44) } None => check(k == n || !take, "next_if refused") }
                        }
                        3 => {
                            let r = { let want = if k < n && flip() { Tk2(k, w[k]) } else { Tk2(99, 0) }; let mut f = Box::pin(s.as_mut().next_if_eq(&want)); let r = d.drive(|cx| f.as_mut().poll(cx)); check(r.is_some() == (want.0 == k), "next_if_eq"); r };
                            if let Some(t) = r { check(t.1 == k && t.0 == w[k], "next_if_eq item"); k += 1 }
                        }
                        _ => { let r = d.drive(|cx| s.as_mut().poll_next(cx)); match r { Some(t) => { check(k < n && t.1 == k && t.0 == w[k], "wrong item"); k += 1 } None => { check(k == n, "ended early"); if mode(TERM) { check(s.is_terminated(), "is_terminated not set after the end") } break } } }
                    }
                    check(pulled(0) <= k + 1, "source read ahead");
                }
            }
            20 => {
                // cycle: the items again and again
                #[derive(Clone)]
                struct Cl(usize, usize, Vec<u8>);
                impl Stream for Cl {
                    type Item = u8;
                    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u8>> {
                        if pend(0, cx) { return Poll::Pending }
                        let k = self.1;
                        self.1 += 1;
                        Poll::Ready(self.2.get(k).copied())
                    }
                    fn size_hint(&self) -> (usize, Option<usize>) { let l = self.2.len() - self.1.min(self.2.len()); if self.0 == 0 { (l, Some(l)) } else { (0, Some(l)) } }
                }
                let ex = choose(2);
                let mut s = Box::pin(Cl(ex, 0, v.clone()).cycle());
                if mode(TERM) && n == 0 && ex == 0 { check(s.is_terminated(), "cycle over nothing not terminated") }
                let mut d = Drv::new(param(1)).strict(Strict::All);
                for k in 0..(2 * n + 2) {
                    if mode(HINT) { let (lo, hi) = s.size_hint(); if n == 0 { check(lo == 0, "size_hint of an empty cycle") } else { check(hi.is_none(), "size_hint of an endless cycle") } }
                    if mode(TERM) && n > 0 { check(!s.is_terminated(), "is_terminated although items follow") }
                    match d.drive(|cx| s.as_mut().poll_next(cx)) {
                        None => { check(n == 0, "cycle ended"); break }
                        Some(x) => check(x == v[k % n], "wrong item"),
                    }
                }
                retire(0);
            }
            21 => {
                // a panic becomes an error item and ends the stream (a source that panics breaks its own hint)
                let bad = if mode(HINT) { maxn } else { choose(maxn + 1) };
                let mut exp: Vec<Ob> = (0..n.min(bad)).map(one).collect();
                if bad < n { exp.push(vec![(200, 0)]); cover(45) }
                drain(Us(s().map(|t: Tk| { if t.1 == bad { drop(t); vp_rt_panic() } t })).catch_unwind(), &exp, none);
            }
            22 => {
                let exp: Vec<Ob> = (0..n).map(one).collect();
                drain_inv(stream::iter((0..n).map(|i| tk(v[i], i)).collect::<Vec<_>>()), &exp, |_| None, none_term);
                cover(46);
            }
            23 => {
                let x = sym8();
                drain(stream::once(fut(FID, tk(x, 1))), &[vec![(1, x)]], none);
                drain(stream::empty::<Tk>(), &[], none);
            }
            24 => {
                // unfold: state handed on
                let mut acc = 1u8;
                let exp: Vec<Ob> = (0..n).map(|i| { acc = acc.wrapping_add(v[i]); vec![(i, acc)] }).collect();
                let v2 = v.clone();
                drain(stream::unfold((0usize, 1u8), move |(i, a)| { check(i <= v2.len(), "state"); if i == v2.len() { fut(FID, None) } else { let a = a.wrapping_add(v2[i]); fut(FID, Some((tk(a, i), (i + 1, a)))) } }), &exp, none);
            }
            25 => {
                // try_unfold: ends after an error
                let bad = choose(maxn + 1);
                let mut exp: Vec<Ob> = (0..n.min(bad)).map(one).collect();
                if bad < n { exp.push(vec![(200, 0)]); cover(45) }
                let v2 = v.clone();
                drain_inv(stream::try_unfold(0usize, move |i| { if i == bad && i < v2.len() { fut(FID, Err(())) } else if i == v2.len() { fut(FID, Ok(None)) } else { fut(FID, Ok(Some((tk(v2[i], i), i + 1)))) } }), &exp, |_| None, none_term);
            }
            26 => {
                // poll_immediate: pending shows up as an item
                let mut s = Box::pin(stream::poll_immediate(s()));
                let mut k = 0;
                let w = waker(0);
                for _ in 0..16 {
                    if mode(HINT) { let (lo, hi) = s.size_hint(); check(lo <= n - k && hi.map_or(true, |h| h >= n - k + blocked(0) as usize), "size_hint") }
                    if mode(TERM) { check(!s.is_terminated(), "is_terminated although items follow") }
                    match s.as_mut().poll_next(&mut Context::from_waker(&w)) {
                        Poll::Pending => check(false, "poll_immediate is never pending"),
                        Poll::Ready(Some(Poll::Pending)) => { check(blocked(0), "pending although ready"); if flip() { fire(0); } else if flip() { break } }
                        Poll::Ready(Some(Poll::Ready(t))) => { check(t.1 == k && t.0 == v[k], "wrong item"); k += 1 }
                        Poll::Ready(None) => { check(k == n && done(0), "ended early"); if mode(TERM) { check(s.is_terminated(), "is_terminated not set after the end") } check(matches!(s.as_mut().poll_next(&mut Context::from_waker(&w)), Poll::Ready(None)), "item after the end"); if mode(HINT) { check(s.size_hint().0 == 0, "size_hint after the end") } break }
                    }
                }
            }
            27 => {
                let x = sym8();
                let mut r = stream::repeat(x);
                let mut c = 0u8;
                let mut rw = stream::repeat_with(|| { c += 1; c });
                let w = waker(0);
                let mut cx = Context::from_waker(&w);
                for k in 1..4u8 {
                    check(r.poll_next_unpin(&mut cx) == Poll::Ready(Some(x)) && !r.is_terminated() && r.size_hint() == (usize::MAX, None), "repeat");
                    check(rw.poll_next_unpin(&mut cx) == Poll::Ready(Some(k)) && !rw.is_terminated() && rw.size_hint() == (usize::MAX, None), "repeat_with");
                }
                let mut pd = stream::pending::<u8>();
                check(pd.poll_next_unpin(&mut cx).is_pending(), "pending");
                let mut pf = stream::poll_fn(|cx: &mut Context<'_>| if pend(FID, cx) { Poll::Pending } else { Poll::Ready(Some(x)) });
                check(Drv::new(1).next(&mut pf) == Some(x), "poll_fn");
                retire(FID);
            }
            28 => {
                // sink adapters pass the stream side of what they wrap through
                let exp: Vec<Ob> = (0..n).map(one).collect();
                let duo = Duo(s());
                match choose(5) {
                    0 => drain(duo.buffer(2), &exp, lazy(&|k| k)),
                    1 => drain(duo.with(|x: u8| future::ready(Ok::<u8, u8>(x))), &exp, lazy(&|k| k)),
                    2 => drain(duo.with_flat_map(|x: u8| stream::iter([Ok::<u8, u8>(x)])), &exp, lazy(&|k| k)),
                    3 => drain(duo.sink_map_err(|e: u8| e), &exp, lazy(&|k| k)),
                    _ => drain(duo.sink_err_into::<u16>(), &exp, lazy(&|k| k)),
                }
                cover(47);
            }
            _ => unreachable!(),
        }
        for i in 0..n { check(!alive(i), "item leaked") }
        cover(kind as u64);
    })
}
struct Us<S>(S);
impl<S> std::panic::UnwindSafe for Us<S> {}
impl<S: Stream + Unpin> Stream for Us<S> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> { self.0.poll_next_unpin(cx) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}
impl<S: FusedStream + Unpin> FusedStream for Us<S> { fn is_terminated(&self) -> bool { self.0.is_terminated() } }
fn none_term(_: usize) {}
struct Tk2(usize, u8);
impl PartialEq<Tk2> for Tk {
    fn eq(&self, o: &Tk2) -> bool { self.1 == o.0 && self.0 == o.1 }
}

// ---- size hints as functions of the inner hint (any values)
struct Hs { lo: usize, hi: Option<usize>, ready: usize }
impl Stream for Hs {
    type Item = u8;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<u8>> {
        if self.ready == 0 { return Poll::Pending }
        self.ready -= 1;
        Poll::Ready(Some(1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.lo, self.hi) }
}
impl FusedStream for Hs { fn is_terminated(&self) -> bool { false } }
struct Duo<S>(S);
impl<S: Stream + Unpin> Stream for Duo<S> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> { Pin::new(&mut self.0).poll_next(cx) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}
impl<S: FusedStream + Unpin> FusedStream for Duo<S> { fn is_terminated(&self) -> bool { self.0.is_terminated() } }
impl<S: Unpin> futures::Sink<u8> for Duo<S> {
    type Error = u8;
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), u8>> { Poll::Ready(Ok(())) }
    fn start_send(self: Pin<&mut Self>, _: u8) -> Result<(), u8> { Ok(()) }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), u8>> { Poll::Ready(Ok(())) }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), u8>> { Poll::Ready(Ok(())) }
}
fn hs(ready: usize) -> (Hs, u128) {
    // a stream with n more items to come and any truthful hint
    let lo = sym64() as usize;
    let n = sym64() as usize;
    assume(lo <= n);
    let hi = if flip() { let h = sym64() as usize; assume(n <= h); Some(h) } else { None };
    (Hs { lo, hi, ready }, n as u128)
}
fn ok(h: (usize, Option<usize>), min: u128, max: u128) {
    check(h.0 as u128 <= min, "size_hint lower bound exceeds the items that follow");
    if let Some(u) = h.1 { check(u as u128 >= max, "size_hint upper bound below the items that follow") }
}
/// lo <= ceil(n / c) and hi >= ceil(m / d)
fn okd(h: (usize, Option<usize>), n: u128, c: usize, m: u128, d: usize) {
    check((h.0 as u128).wrapping_mul(c as u128) < n + c as u128, "size_hint lower bound exceeds the items that follow");
    if let Some(u) = h.1 { check((u as u128).wrapping_mul(d as u128) >= m, "size_hint upper bound below the items that follow") }
}
fn nudge<S: Stream>(s: &mut Pin<Box<S>>) -> Poll<Option<S::Item>> {
    let w = waker(0);
    s.as_mut().poll_next(&mut Context::from_waker(&w))
}
fn hint_fn(kind: usize) {
    let held = choose(2); // items taken from the source and not delivered yet
    let (s, n) = hs(held);
    let h = held as u128;
    let w = waker(0);
    let mut cx = Context::from_waker(&w);
    match kind {
        0 => { let s = Box::pin(s.map(|x| x)); ok(s.size_hint(), n, n) }
        1 => { let s = Box::pin(s.enumerate()); ok(s.size_hint(), n, n) }
        2 => { let mut s = Box::pin(s.then(|_| future::pending::<u8>())); let _ = nudge(&mut s); ok(s.size_hint(), n + h, n + h) }
        3 => { let mut s = Box::pin(s.filter(|_| future::pending::<bool>())); let _ = nudge(&mut s); ok(s.size_hint(), 0, n + h) }
        4 => { let mut s = Box::pin(s.filter_map(|_| future::pending::<Option<u8>>())); let _ = nudge(&mut s); ok(s.size_hint(), 0, n + h) }
        5 => { let k = sym64() as usize; let s = Box::pin(s.skip(k)); let r = n.saturating_sub(k as u128); ok(s.size_hint(), r, r) }
        6 => { let k = sym64() as usize; let s = Box::pin(s.take(k)); let r = n.min(k as u128); ok(s.size_hint(), r, r) }
        7 => { let mut s = Box::pin(s.skip_while(|_| future::pending::<bool>())); let _ = nudge(&mut s); ok(s.size_hint(), 0, n + h) }
        8 => { let mut s = Box::pin(s.take_while(|_| future::pending::<bool>())); let _ = nudge(&mut s); ok(s.size_hint(), 0, n + h) }
        9 => { let mut s = Box::pin(s.scan(0u8, |_, _| future::pending::<Option<(u8, u8)>>())); let _ = nudge(&mut s); ok(s.size_hint(), 0, n + h) }
        10 => { let s = Box::pin(s.fuse()); ok(s.size_hint(), n, n) }
        11 => { let mut s = Box::pin(s.peekable()); let _ = s.as_mut().poll_peek(&mut cx); ok(s.size_hint(), n + h, n + h) }
        12 => { let (t, m) = hs(0); let s = Box::pin(s.chain(t)); ok(s.size_hint(), n + m, n + m) }
        13 => {
            let held2 = choose(2);
            if held == 1 && held2 == 1 { return }
            let (t, m) = hs(held2);
            let mut s = Box::pin(s.zip(t));
            let _ = nudge(&mut s);
            let r = (n + h).min(m + held2 as u128);
            ok(s.size_hint(), r, r)
        }
        14 => {
            // a chunk size of any power of two or a few others: ceil((n + held) / c)
            let c = [2usize, 3, 64][choose(3)];
            let mut s = Box::pin(s.chunks(c));
            let _ = nudge(&mut s);
            okd(s.size_hint(), n + h, c, n + h, c)
        }
        15 => { let c = [1usize, 2, 3, 64][choose(4)]; let s = Box::pin(s.ready_chunks(c)); okd(s.size_hint(), n, c, n, 1) }
        16 => { let s = Box::pin(s.inspect(|_| ())); ok(s.size_hint(), n, n) }
        17 => { let s = Box::pin(s.take_until(future::pending::<()>())); ok(s.size_hint(), n, n); }
        18 => {
            if held == 0 { let s = Box::pin(std::panic::AssertUnwindSafe(s).catch_unwind()); ok(s.size_hint(), n, n); return cover(18) }
            // nothing follows a panic that was caught
            let mut s = Box::pin(std::panic::AssertUnwindSafe(s.map(|_: u8| -> u8 { vp_rt_panic() })).catch_unwind());
            match nudge(&mut s) { Poll::Ready(Some(Err(_))) => {} _ => check(false, "panic lost") }
            ok(s.size_hint(), 0, 0)
        }
        19 => { let (t, m) = hs(0); let s = futures::stream_select!(s, t); ok(s.size_hint(), n + m, n + m) }
        20 => {
            // futures taken from the source and in flight
            let mut s = Box::pin(s.map(|_| future::pending::<u8>()).buffered(2)); let _ = nudge(&mut s); ok(s.size_hint(), n + h, n + h)
        }
        21 => { let mut s = Box::pin(s.map(|_| future::pending::<u8>()).buffer_unordered(2)); let _ = nudge(&mut s); ok(s.size_hint(), n + h, n + h) }
        22 => { let s = Box::pin(stream::poll_immediate(s)); ok(s.size_hint(), n, n + 1) }
        23 => { let s = Box::pin(s.left_stream::<Hs>()); ok(s.size_hint(), n, n) }
        24 => { let s = s.boxed(); ok(s.size_hint(), n, n) }
        25 => { let mut s = s; let s: &mut Hs = &mut s; ok(s.size_hint(), n, n) }
        26 => { let s = futures::stream::abortable(s).0; ok(s.size_hint(), 0, n) }
        27 => { let s = s.map(|x| future::ready(x).into_stream()).flatten(); ok(s.size_hint(), n, n) }
        28 => { let s = stream::select(s, hs(0).0); let _ = s.size_hint(); }
        _ => unreachable!(),
    }
    cover(kind as u64)
}

harness! {
fn h_ad() { adapters(param(5)) }
fn h_hint() { hint_fn(param(0)) }
}
