//! Operations that consume a stream and resolve to a value.
use crate::ctl::*;
use crate::harness;
use crate::rt::*;
use futures::future::{FusedFuture, FutureExt};
use futures::stream::{StreamExt, TryStreamExt};
use std::cell::Cell;
use std::task::Poll;

const FID: usize = 4;
const SID: usize = 5;

/// run to the result; None if cancelled
macro_rules! fin {
    ($f:expr, $c:expr, $inv:expr) => {{ let r = crate::fin!(Drv::new(param(1)).strict(Strict::All), $f, $c, $inv); if r.is_none() { cover(40) } r }};
}
fn consumers(kind: usize) {
    scene(param(0), || {
        let cancel = param(2) & 4 != 0;
        let maxn = param(3);
        let n = choose(maxn + 1);
        let v: Vec<u8> = (0..n).map(|_| sym8()).collect();
        let s = || src(0, (0..n).map(|i| tk(v[i], i)).collect::<Vec<_>>());
        let calls = Cell::new(0usize);
        let call = |i: usize| { boom(); check(calls.get() == i, "callback out of order or repeated"); calls.set(i + 1) };
        let is = |t: &Tk, i: usize| t.1 == i && t.0 == v[i];
        let lazy = || check(pulled(0) <= calls.get(), "source read ahead");
        match kind {
            0 => {
                if let Some(r) = fin!(s().collect::<Vec<Tk>>(), cancel, || ()) {
                    check(r.len() == n, "items lost");
                    for i in 0..n { check(is(&r[i], i), "wrong item") }
                }
            }
            1 => { if let Some(r) = fin!(s().count(), cancel, || ()) { check(r == n, "wrong count") } }
            2 => {
                let s = src(0, (0..n).map(|i| (tk(v[i], i), tk(!v[i], 8 + i))).collect::<Vec<_>>());
                if let Some((a, b)) = fin!(s.unzip::<Tk, Tk, Vec<Tk>, Vec<Tk>>(), cancel, || ()) {
                    check(a.len() == n && b.len() == n, "items lost");
                    for i in 0..n { check(is(&a[i], i) && b[i].1 == 8 + i && b[i].0 == !v[i], "wrong item") }
                }
                for i in 0..n { check(!alive(8 + i), "item leaked") }
            }
            3 => {
                // parts of 0..2 elements
                let m: Vec<usize> = (0..n).map(|_| choose(3)).collect();
                let s = src(0, (0..n).map(|i| (0..m[i]).map(|k| tk(v[i], 8 + 4 * i + k)).collect::<Vec<_>>()).collect::<Vec<_>>());
                if let Some(r) = fin!(s.concat(), cancel, || ()) {
                    let mut k = 0;
                    for i in 0..n { for j in 0..m[i] { check(k < r.len() && r[k].1 == 8 + 4 * i + j && r[k].0 == v[i], "wrong item"); k += 1 } }
                    check(k == r.len(), "too many items");
                }
                for i in 0..n { for k in 0..m[i] { check(!alive(8 + 4 * i + k), "item leaked") } }
            }
            4 => {
                let f = s().fold(tk(7, 20), |mut a: Tk, t: Tk| { call(t.1); check(is(&t, t.1), "wrong item"); a.0 = a.0.wrapping_mul(3).wrapping_add(t.0); fut(FID, a) });
                if let Some(r) = fin!(f, cancel, lazy) {
                    let mut e = 7u8;
                    for i in 0..n { e = e.wrapping_mul(3).wrapping_add(v[i]) }
                    check(r.1 == 20 && r.0 == e, "wrong result");
                    check(calls.get() == n, "callback not run for every item");
                }
                check(!alive(20), "accumulator leaked");
            }
            5 | 6 => {
                let stop = kind == 6; // any stops at true, all at false
                let p: Vec<bool> = (0..n).map(|_| flip()).collect();
                let first = (0..n).find(|i| p[*i] == stop);
                let f = |t: Tk| { call(t.1); check(is(&t, t.1), "wrong item"); fut(FID, p[t.1]) };
                let r = if stop { fin!(s().any(f), cancel, lazy) } else { fin!(s().all(f), cancel, lazy) };
                if let Some(r) = r {
                    check(r == if first.is_some() { stop } else { !stop }, "wrong result");
                    check(calls.get() == first.map_or(n, |i| i + 1), "predicate not called up to the deciding item");
                    if let Some(i) = first { check(pulled(0) == i + 1, "items taken after the result was known"); cover(41) }
                }
            }
            7 => {
                if fin!(s().for_each(|t: Tk| { call(t.1); check(is(&t, t.1), "wrong item"); check(!blocked(FID), "next item before the last was handled"); fut(FID, ()) }), cancel, lazy).is_some() {
                    check(calls.get() == n, "callback not run for every item");
                }
            }
            8 => {
                // next: dropping it while pending loses nothing
                let mut s = s();
                let mut k = 0;
                let mut steps = 0;
                loop {
                    steps += 1;
                    if steps > 8 { break }
                    let r = { let mut f = s.next(); check(!FusedFuture::is_terminated(&f) , "terminated before the end"); Drv::new(param(1)).strict(Strict::All).fut_or_cancel(&mut Box::pin(&mut f), true, || ()) };
                    match r {
                        None => { cover(40); continue }
                        Some(Some(t)) => { check(k < n && is(&t, k), "wrong item"); k += 1; check(pulled(0) == k, "more than one item taken") }
                        Some(None) => { check(k == n, "ended early"); check(FusedFuture::is_terminated(&s.next()), "not terminated after the end"); break }
                    }
                }
            }
            9 => {
                let mut s = s().into_future();
                let mut k = 0;
                loop {
                    let r = Drv::new(param(1)).strict(Strict::All).fut(&mut s);
                    check(s.is_terminated(), "is_terminated not set");
                    match r {
                        (Some(t), rest) => { check(k < n && is(&t, k), "wrong item"); k += 1; check(pulled(0) == k, "more than one item taken"); if cancel && flip() { drop(rest); break } s = rest.into_future(); check(s.get_ref().is_some() && !s.is_terminated(), "get_ref") }
                        (None, _rest) => { check(k == n, "ended early"); break }
                    }
                }
            }
            10 => {
                let mut s = s();
                let mut k = 0;
                loop {
                    let mut f = s.select_next_some();
                    check(!f.is_terminated(), "terminated before the end");
                    let mut d = Drv::new(param(1)).strict(Strict::All);
                    let r = loop {
                        match d.poll(|cx| f.poll_unpin(cx)) {
                            Poll::Ready(t) => break Some(t),
                            Poll::Pending => { if done(0) { check(f.is_terminated() && woken(d.base + d.k), "end not reported"); break None } d.settle() }
                        }
                    };
                    match r { Some(t) => { check(k < n && is(&t, k), "wrong item"); k += 1 } None => { check(k == n, "ended early"); break } }
                }
            }
            11 => {
                let bad = choose(maxn + 1);
                let f = s().try_fold(tk(7, 20), |mut a: Tk, t: Tk| { call(t.1); let i = t.1; check(is(&t, i), "wrong item"); a.0 = a.0.wrapping_mul(3).wrapping_add(t.0); fut(FID, if i == bad { Err(t) } else { Ok(a) }) });
                if let Some(r) = fin!(f, cancel, lazy) {
                    match r {
                        Ok(a) => { let mut e = 7u8; for i in 0..n { e = e.wrapping_mul(3).wrapping_add(v[i]) } check(bad >= n && a.1 == 20 && a.0 == e, "wrong result") }
                        Err(t) => { check(bad < n && is(&t, bad) && pulled(0) == bad + 1, "wrong error"); cover(41) }
                    }
                    check(calls.get() == n.min(bad + 1), "callback calls");
                }
                check(!alive(20), "accumulator leaked");
            }
            12 => {
                let bad = choose(maxn + 1);
                let f = s().try_for_each(|t: Tk| { call(t.1); let i = t.1; check(is(&t, i), "wrong item"); check(!blocked(FID), "next item before the last was handled"); fut(FID, if i == bad { Err(t) } else { Ok(()) }) });
                if let Some(r) = fin!(f, cancel, lazy) {
                    match r {
                        Ok(()) => check(bad >= n, "error lost"),
                        Err(t) => { check(bad < n && is(&t, bad) && pulled(0) == bad + 1, "wrong error"); cover(41) }
                    }
                    check(calls.get() == n.min(bad + 1), "callback calls");
                }
            }
            13 | 14 => {
                // forward into a sink
                let (k, log) = snk::<Tk>(SID);
                let fail = choose(8);
                log.borrow_mut().fail_at = if fail == 7 { u32::MAX } else { fail as u32 };
                let e = sym8();
                log.borrow_mut().err = e;
                let bad = if kind == 14 { choose(maxn + 1) } else { maxn };
                let inv = || {
                    let l = log.borrow();
                    check(pulled(0) <= l.items.len() + 1, "items read ahead of the sink");
                    if l.unflushed > 0 { check(blocked(SID), "pending with items not flushed") }
                };
                let r: Option<Result<(), u8>> = if kind == 13 {
                    crate::fin!(Drv::new(param(1)), s().forward(k), cancel, inv, |r| r.is_ok())
                } else {
                    let mut it: Vec<Result<Tk, u8>> = (0..n).map(|i| Ok(tk(v[i], i))).collect();
                    if bad < n { it[bad] = Err(77) }
                    crate::fin!(Drv::new(param(1)), src(0, it).try_forward(k), cancel, inv, |r| r.is_ok())
                };
                let l = log.borrow();
                for i in 0..l.items.len() { check(l.items[i].1 == i && l.items[i].0 == v[i], "wrong item") }
                match r {
                    None => cover(40),
                    Some(Ok(())) => { check(bad >= n && l.items.len() == n && l.closed && l.unflushed == 0 && !l.failed, "finished early"); cover(42) }
                    Some(Err(x)) => {
                        if l.failed { check(x == e, "wrong error"); cover(41) } else { check(bad < n && x == 77 && l.items.len() == bad, "wrong error"); cover(43) }
                        check(!l.closed, "closed after an error");
                    }
                }
            }
            _ => unreachable!(),
        }
        for i in 0..n { check(!alive(i), "item leaked") }
        cover(kind as u64);
    })
}

harness! {
fn h_cons() { consumers(param(4)) }
}
