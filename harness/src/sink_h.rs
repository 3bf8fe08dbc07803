//! Sinks: the adapters deliver every accepted item, in order, exactly once; flush and close reach
//! the sink below; errors are reported by the call they happen in.
use crate::ctl::*;
use crate::harness;
use crate::rt::*;
use futures::future::{self, Either, FutureExt, TryFutureExt};
use futures::TryStreamExt;
use futures::sink::{self, Sink, SinkExt};
use futures::stream::StreamExt;
use std::cell::Cell;
use std::pin::Pin;
use std::task::Poll;

const FID: usize = 4;
type E1 = u8;

struct Spec<'a> {
    log: &'a [Log<Tk>],
    /// ids below item i
    exp: &'a dyn Fn(usize) -> Vec<usize>,
    val: &'a [u8],
    own: &'a Cell<Option<u8>>,
    cap: usize,
    errmap: u8,
    /// the sink below comes out of a future
    lazy: bool,
}
impl Spec<'_> {
    fn fault(&self) -> Option<u8> {
        if let Some(e) = self.own.get() { return Some(e) }
        for l in self.log { let l = l.borrow(); if l.failed { return Some(l.err ^ self.errmap) } }
        None
    }
    fn below(&self, acc: usize) -> usize {
        let mut want = Vec::new();
        for i in 0..acc { for id in (self.exp)(i) { want.push((id, self.val[i])) } }
        let l = self.log[0].borrow();
        check(l.items.len() <= want.len(), "sink received items never sent");
        for k in 0..l.items.len() { check(l.items[k].1 == want[k].0 && l.items[k].0 == want[k].1, "sink received a wrong item") }
        want.len() - l.items.len()
    }
}
fn judge(sp: &Spec<'_>, r: Result<(), u8>) -> bool {
    match (r, sp.fault()) {
        (Ok(()), None) => true,
        (Ok(()), Some(_)) => { check(false, "error swallowed"); false }
        (Err(_), None) => { check(false, "error out of nowhere"); false }
        (Err(e), Some(f)) => { check(e == f, "wrong error"); cover(41); false }
    }
}
/// closing after an error still completes, with or without another error, and polls nothing that is over
fn after<S: Sink<Tk, Error = E1>>(mut s: Pin<Box<S>>, sp: &Spec<'_>, mut d: Drv) {
    if param(2) & 1 == 0 { return }
    for l in sp.log { l.borrow_mut().after = true }
    cover(44);
    loop {
        match d.poll(|cx| s.as_mut().poll_close(cx)) {
            Poll::Ready(_) => break,
            Poll::Pending => d.settle(),
        }
    }
}
/// any sequence of up to `nops` sends and flushes, then possibly a close
fn script<S: Sink<Tk, Error = E1>>(s: S, sp: &Spec<'_>, nops: usize) {
    let mut s = Box::pin(s);
    let mut d = Drv::new(param(1));
    let mut acc = 0;
    let cancel = param(2) & 4 != 0;
    for _ in 0..nops {
        match choose(3) {
            0 => {
                let r = loop {
                    match d.poll(|cx| s.as_mut().poll_ready(cx)) {
                        Poll::Ready(r) => break r,
                        Poll::Pending => {
                            sp.below(acc);
                            check(sp.fault().is_none(), "pending although the sink failed");
                            if cancel && flip() { cover(40); return }
                            d.settle();
                        }
                    }
                };
                if !judge(sp, r) { after(s, sp, d); return }
                let r = s.as_mut().start_send(tk(sp.val[acc], acc));
                acc += 1;
                if !judge(sp, r) { after(s, sp, d); return }
                let left = sp.below(acc);
                if sp.cap != usize::MAX { check(left <= sp.cap, "more items held back than the capacity") }
                cover(42);
            }
            1 => {
                let r = loop {
                    match d.poll(|cx| s.as_mut().poll_flush(cx)) {
                        Poll::Ready(r) => break r,
                        Poll::Pending => {
                            check(sp.fault().is_none(), "pending although the sink failed");
                            if cancel && flip() { cover(40); return }
                            d.settle();
                        }
                    }
                };
                if !judge(sp, r) { after(s, sp, d); return }
                check(sp.below(acc) == 0, "flushed with items held back");
                for l in sp.log { check(l.borrow().unflushed == 0, "flush did not reach the sink below") }
            }
            _ => break,
        }
    }
    if flip() {
        let r = loop {
            match d.poll(|cx| s.as_mut().poll_close(cx)) {
                Poll::Ready(r) => break r,
                Poll::Pending => {
                    check(sp.fault().is_none(), "pending although the sink failed");
                    if cancel && flip() { cover(40); return }
                    d.settle();
                }
            }
        };
        if !judge(sp, r) { after(s, sp, d); return }
        check(sp.below(acc) == 0, "closed with items held back");
        for l in sp.log { check(l.borrow().closed || sp.lazy && !done(FID), "close did not reach the sink below") }
        cover(43);
    }
}
fn faulty(l: &Log<Tk>) {
    let k = choose(param(3) + 1);
    let mut l = l.borrow_mut();
    if k > 0 { l.fail_at = (k - 1) as u32; l.err = sym8() }
}
/// clonable item whose clones are counted as items of their own
struct Ct(Tk);
impl Clone for Ct { fn clone(&self) -> Ct { Ct(tk(self.0 .0, self.0 .1 + 8)) } }
struct Wr(u8);
impl From<u8> for Wr { fn from(x: u8) -> Wr { Wr(x ^ 0x5a) } }

/// a stream and a sink in one
struct Duo(Snk<Tk>);
impl futures::Stream for Duo {
    type Item = Result<u8, u8>;
    fn poll_next(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<Option<Result<u8, u8>>> { Poll::Ready(Some(Ok(0))) }
}
impl Sink<Tk> for Duo {
    type Error = u8;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Result<(), u8>> { Pin::new(&mut self.0).poll_ready(cx) }
    fn start_send(mut self: Pin<&mut Self>, t: Tk) -> Result<(), u8> { Pin::new(&mut self.0).start_send(t) }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Result<(), u8>> { Pin::new(&mut self.0).poll_flush(cx) }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Result<(), u8>> { Pin::new(&mut self.0).poll_close(cx) }
}
fn adapters(kind: usize) {
    scene(param(0), || {
        let nops = param(4);
        let val: Vec<u8> = (0..nops).map(|_| sym8()).collect();
        let (k, l) = snk::<Tk>(0);
        faulty(&l);
        let own = Cell::new(None);
        let same = |i: usize| vec![i];
        let logs = [l.clone()];
        let mut sp = Spec { log: &logs, exp: &same, val: &val, own: &own, cap: 0, errmap: 0, lazy: false };
        match kind {
            0 => {
                sp.cap = choose(3);
                let c = sp.cap;
                script(k.buffer(c), &sp, nops)
            }
            1 => { sp.errmap = 0x21; script(k.sink_map_err(|e| e ^ 0x21), &sp, nops) }
            2 => {
                sp.errmap = 0x5a;
                let s = k.sink_err_into::<Wr>().sink_map_err(|w: Wr| w.0);
                script(s, &sp, nops)
            }
            3 => {
                sp.cap = 1;
                // the closure may fail for one item
                let bad = choose(nops + 1);
                let be = sym8();
                let n = Cell::new(0);
                let own = &own;
                let n = &n;
                let s = k.with(move |t: Tk| {
                    check(t.1 == n.get(), "closure called out of order");
                    n.set(t.1 + 1);
                    fut(FID, t).map(move |t| if t.1 + 1 == bad { own.set(Some(be)); Err(be) } else { Ok(t) })
                });
                script(s, &sp, nops)
            }
            4 => {
                sp.cap = usize::MAX;
                let m: Vec<usize> = (0..nops).map(|_| choose(3)).collect();
                let m2 = m.clone();
                let bad = choose(nops + 1);
                let be = sym8();
                let n = Cell::new(0);
                let own = &own;
                let n = &n;
                let ex = |i: usize| (0..m[i]).map(|j| if j == 0 { i } else { 10 + i }).collect::<Vec<_>>();
                let s = k.with_flat_map(move |t: Tk| {
                    check(t.1 == n.get(), "closure called out of order");
                    n.set(t.1 + 1);
                    let i = t.1;
                    let v = t.0;
                    let mut p = Vec::new();
                    if m2[i] > 1 { p.push(tk(v, 10 + i)) }
                    if m2[i] > 0 { p.insert(0, t) } else { drop(t) }
                    src(FID, p).map(Ok).chain(futures::stream::iter(if i + 1 == bad { vec![()] } else { vec![] }).map(move |()| { own.set(Some(be)); Err(be) }))
                });
                let sp = Spec { exp: &ex, ..sp };
                script(s, &sp, nops)
            }
            5 => {
                // unfold over an accumulator
                sp.cap = 1;
                drop(k);
                let bad = choose(nops + 1);
                let be = sym8();
                let own = &own;
                let l2 = l.clone();
                let s = sink::unfold((l2, 0usize), move |(l, c): (Log<Tk>, usize), t: Tk| {
                    check(t.1 == c, "state lost");
                    fut(FID, t).map(move |t| {
                        if t.1 + 1 == bad { own.set(Some(be)); return Err(be) }
                        l.borrow_mut().items.push(t);
                        Ok((l, c + 1))
                    })
                });
                l.borrow_mut().fail_at = u32::MAX;
                // there is no sink below to be closed
                l.borrow_mut().closed = true;
                script(s, &sp, nops)
            }
            6 => {
                let (k2, l2) = snk::<Tk>(1);
                let s: Either<_, _> = if flip() { sp.log = &[]; drop(l2); drop(k2); Either::Left(k) } else { drop(k); let _ = l2; Either::Right(k2) };
                match s {
                    Either::Left(k) => { sp.log = &logs; script(Either::<_, sink::Buffer<Snk<Tk>, Tk>>::Left(k), &sp, nops) }
                    Either::Right(k2) => { let g = [k2.got.clone()]; sp.log = &g; script(Either::<Snk<Tk>, _>::Right(k2), &sp, nops) }
                }
            }
            7 => {
                let b: Box<dyn Sink<Tk, Error = u8> + Unpin> = Box::new(k);
                script(b, &sp, nops)
            }
            8 => {
                let mut k = k;
                script(Pin::new(&mut &mut k), &sp, nops)
            }
            9 => {
                // a future of a sink
                let bad = flip();
                let be = sym8();
                let own = &own;
                let f = fut(FID, ()).map(move |()| if bad { own.set(Some(be)); drop(k); Err(be) } else { Ok(k) });
                sp.lazy = true;
                script(f.flatten_sink(), &sp, nops)
            }
            10 => {
                // write half of a split
                sp.cap = 1;
                let (w, mut r) = Duo(k).split();
                script(w, &sp, nops);
                check(Drv::new(0).next(&mut r) == Some(Ok(0)), "read half broken");
            }
            11 => {
                // fanout
                let (k2, l2) = snk::<Tk>(1);
                faulty(&l2);
                let n2 = l2.clone();
                let a = k.with(|c: Ct| { future::ready(Ok::<Tk, u8>(c.0)) });
                let b = k2.with(|c: Ct| { future::ready(Ok::<Tk, u8>(c.0)) });
                // the clone goes to the first
                let s = a.fanout(b);
                let mut s = Box::pin(s);
                let mut d = Drv::new(param(1));
                let mut acc = 0;
                let fault = || { let a = logs[0].borrow(); let b = n2.borrow(); (a.failed, a.err, b.failed, b.err) };
                let jd = |r: Result<(), u8>| -> bool {
                    let (fa, ea, fb, eb) = fault();
                    match r {
                        Ok(()) => { check(!fa && !fb, "error swallowed"); true }
                        Err(e) => { check(fa && e == ea || fb && e == eb, "error out of nowhere"); cover(41); false }
                    }
                };
                let pre = |acc: usize| {
                    let a = logs[0].borrow();
                    let b = n2.borrow();
                    check(a.items.len() <= acc && b.items.len() <= acc, "too many items");
                    check(a.items.len() + 1 >= acc && b.items.len() + 1 >= acc, "items held back");
                    for j in 0..a.items.len() { check(a.items[j].1 % 8 == j && a.items[j].0 == val[j], "wrong item") }
                    for j in 0..b.items.len() { check(b.items[j].1 % 8 == j && b.items[j].0 == val[j], "wrong item") }
                };
                let mut ok = true;
                for _ in 0..nops {
                    match choose(3) {
                        0 => {
                            if !jd(d.drive(|cx| s.as_mut().poll_ready(cx))) { ok = false; break }
                            let r = s.as_mut().start_send(Ct(tk(val[acc], acc)));
                            acc += 1;
                            if !jd(r) { ok = false; break }
                            pre(acc);
                            cover(42);
                        }
                        1 => {
                            if !jd(d.drive(|cx| s.as_mut().poll_flush(cx))) { ok = false; break }
                            pre(acc);
                            for l in [&logs[0], &n2] { check(l.borrow().items.len() == acc && l.borrow().unflushed == 0, "not flushed") }
                        }
                        _ => break,
                    }
                }
                if ok && flip() {
                    if jd(d.drive(|cx| s.as_mut().poll_close(cx))) {
                        pre(acc);
                        for l in [&logs[0], &n2] { check(l.borrow().items.len() == acc && l.borrow().closed, "not closed") }
                        cover(43);
                    }
                }
                drop(s);
                n2.borrow_mut().items.clear();
            }
            12 => {
                // a future of something that is a stream and a sink
                sp.lazy = true;
                script(fut(FID, ()).map(move |()| Duo(k)).flatten_stream(), &sp, nops)
            }
            13 => {
                // the sink side of the stream adapters
                type B<'a> = Pin<Box<dyn Sink<Tk, Error = u8> + 'a>>;
                let d = Duo(k);
                let dd = |d: Duo| d.map_ok(|_| future::ok::<u8, u8>(0));
                let s: B<'_> = match choose(28) {
                    0 => Box::pin(d.map(|x| x)),
                    1 => Box::pin(d.filter(|_| future::ready(true))),
                    2 => Box::pin(d.filter_map(|x| future::ready(Some(x)))),
                    3 => Box::pin(d.then(future::ready)),
                    4 => Box::pin(d.enumerate()),
                    5 => Box::pin(d.fuse()),
                    6 => Box::pin(d.skip(1)),
                    7 => Box::pin(d.skip_while(|_| future::ready(true))),
                    8 => Box::pin(d.take(1)),
                    9 => Box::pin(d.take_while(|_| future::ready(true))),
                    10 => Box::pin(d.take_until(future::pending::<()>())),
                    11 => Box::pin(d.peekable()),
                    12 => Box::pin(d.chunks(2)),
                    13 => Box::pin(d.ready_chunks(2)),
                    14 => Box::pin(d.scan(0, |s: u8, x| future::ready(Some((s, x))))),
                    15 => Box::pin(d.map(future::ready).buffered(1)),
                    16 => Box::pin(d.map(future::ready).buffer_unordered(1)),
                    17 => Box::pin(d.inspect(|_| ()).map_err(|e| e).inspect_ok(|_| ()).inspect_err(|_| ()).into_stream().err_into::<u8>()),
                    18 => Box::pin(d.and_then(future::ok)),
                    19 => Box::pin(d.or_else(future::err::<u8, u8>)),
                    20 => Box::pin(d.try_filter(|_| future::ready(true)).try_filter_map(|x| future::ok(Some(x)))),
                    21 => Box::pin(d.try_skip_while(|_| future::ok(true)).try_take_while(|_| future::ok(true))),
                    22 => Box::pin(d.try_chunks(2)),
                    23 => Box::pin(d.try_ready_chunks(2)),
                    24 => Box::pin(dd(d).try_buffered(1)),
                    25 => Box::pin(dd(d).try_buffer_unordered(1)),
                    26 => Box::pin(d.map(|x| futures::stream::iter([x])).flatten_unordered(1)),
                    _ => Box::pin(d.map(|x| futures::stream::iter([x])).flatten()),
                };
                script(s, &sp, nops)
            }
            _ => unreachable!(),
        }
        l.borrow_mut().items.clear();
        drop(l);
        drop(logs);
    });
    all_dropped(30);
    cover(kind as u64);
}
/// the futures of SinkExt
fn sends(kind: usize) {
    scene(param(0), || {
        let n = param(4);
        let val: Vec<u8> = (0..n + 1).map(|_| sym8()).collect();
        let (mut k, l) = snk::<Tk>(0);
        faulty(&l);
        let cancel = param(2) & 4 != 0;
        let err = || { let l = l.borrow(); if l.failed { Some(l.err) } else { None } };
        let is = |i: usize, j: usize| l.borrow().items[i].1 == j && l.borrow().items[i].0 == val[j];
        let mut d = Drv::new(param(1));
        match kind {
            0 | 1 => {
                // n sends (or feeds) in a row
                for i in 0..n {
                    let r = if kind == 0 {
                        let mut f = Box::pin(k.send(tk(val[i], i)));
                        d.fut_or_cancel(&mut f, cancel, || check(alive(i) && l.borrow().items.len() <= i + 1, "item lost while pending"))
                    } else {
                        let mut f = Box::pin(k.feed(tk(val[i], i)));
                        d.fut_or_cancel(&mut f, cancel, || check(l.borrow().items.len() == i, "feed pending after the item was taken"))
                    };
                    match r {
                        None => { cover(40); break }
                        Some(r) => {
                            check(r.err() == err(), "wrong result");
                            if r.is_err() { cover(41); break }
                            check(l.borrow().items.len() == i + 1 && is(i, i), "item not delivered once");
                            if kind == 0 { check(l.borrow().unflushed == 0, "send resolved before the flush") } else { check(l.borrow().flushes == 0, "feed must not flush") }
                            cover(42);
                        }
                    }
                }
            }
            2 => {
                // feed all, then flush, then close
                let mut bad = false;
                for i in 0..n { if d.fut(&mut Box::pin(k.feed(tk(val[i], i)))).is_err() { bad = true; break } }
                if !bad {
                    let mut f = Box::pin(futures::sink::SinkExt::<Tk>::flush(&mut k));
                    let r = d.fut(&mut f);
                    drop(f);
                    check(r.err() == err(), "wrong result");
                    if r.is_ok() {
                        check(l.borrow().unflushed == 0 && l.borrow().items.len() == n, "flush incomplete");
                        let mut f = Box::pin(futures::sink::SinkExt::<Tk>::close(&mut k));
                        let r = d.fut(&mut f);
                        check(r.err() == err(), "wrong result");
                        if r.is_ok() { check(l.borrow().closed, "close incomplete"); cover(43) }
                    } else { cover(41) }
                }
            }
            3 => {
                // send_all
                let m = choose(n + 1);
                let bad = choose(m + 2); // item bad-1 of the stream is an error; 0: none
                let be = sym8();
                let mut items: Vec<Result<Tk, u8>> = (0..m).map(|i| Ok(tk(val[i], i))).collect();
                if bad > 0 { items.insert(bad - 1, Err(be)) }
                let mut s = src(1, items);
                let lr = &l;
                let mut f = Box::pin(k.send_all(&mut s));
                let r = d.fut_or_cancel(&mut f, cancel, || {
                    let l = lr.borrow();
                    // waiting for the stream: everything received is flushed (or being flushed)
                    if blocked(1) { check(l.unflushed == 0 || blocked(0), "waiting for items with an unflushed sink") }
                });
                drop(f);
                let q = pulled(1);
                for i in 0..l.borrow().items.len() { check(is(i, i), "wrong item or order") }
                match r {
                    None => { cover(40) }
                    Some(Ok(())) => {
                        check(err().is_none(), "error swallowed");
                        check(bad == 0, "stream error swallowed");
                        check(l.borrow().items.len() == m && l.borrow().unflushed == 0, "resolved before everything was sent and flushed");
                        check(!l.borrow().closed, "send_all must not close");
                        cover(42);
                    }
                    Some(Err(e)) => {
                        match err() {
                            Some(x) => check(e == x, "wrong error"),
                            None => { check(bad > 0 && e == be && q == bad, "wrong error"); check(l.borrow().items.len() == bad - 1, "items before the error lost") }
                        }
                        cover(41);
                    }
                }
            }
            4 => {
                // drain and the collections
                let mut k2 = sink::drain::<Tk>();
                for i in 0..n {
                    check(d.fut(&mut Box::pin(k2.send(tk(val[i], i)))).is_ok(), "drain failed");
                    check(!alive(i), "drain keeps items");
                }
                let mut v: Vec<Tk> = Vec::new();
                let mut q: std::collections::VecDeque<Tk> = Default::default();
                for i in 0..n {
                    check(d.fut(&mut Box::pin(v.send(tk(val[i], i)))).is_ok(), "failed");
                    check(d.fut(&mut Box::pin(q.send(tk(val[i], 8 + i)))).is_ok(), "failed");
                }
                check(v.len() == n && q.len() == n, "items lost");
                for i in 0..n { check(v[i].1 == i && v[i].0 == val[i] && q[i].1 == 8 + i && q[i].0 == val[i], "wrong item") }
            }
            _ => unreachable!(),
        }
        drop(k);
        l.borrow_mut().items.clear();
    });
    all_dropped(30);
    cover(kind as u64);
}
harness! {
    fn h_sink() { adapters(param(5)) }
    fn h_sends() { sends(param(5)) }
}
