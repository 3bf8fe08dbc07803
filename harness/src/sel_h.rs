//! Merging streams: flatten_unordered and friends, select, select_all, stream_select!.
use crate::ctl::*;
use crate::harness;
use crate::rt::*;
use futures::stream::{self, FusedStream, PollNext, SelectAll, Stream, StreamExt, TryStreamExt};
use futures::task::AtomicWaker;
use std::cell::Cell;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::Arc;
use std::task::{Context, Poll};

/// item k of inner stream i
fn item(i: usize, k: usize, v: u8) -> (usize, usize, Tk) {
    (i, k, tk(v, i * 4 + k))
}
fn inner(i: usize, n: usize, v: u8) -> Src<(usize, usize, Tk)> {
    src(i, (0..n).map(|k| item(i, k, v ^ k as u8)).collect::<Vec<_>>())
}
fn flat(kind: usize, lim: usize, m: usize) {
    // outer source 0 gives inner streams 1..=m (or errors, kind 1)
    scene(param(0), || {
        let v = sym8();
        let n: Vec<usize> = (0..=m).map(|_| choose(3)).collect();
        // kind 1: this outer item is an error; this inner stream's first item is an error
        let (eo, ei) = if kind == 1 { (1 + choose(m + 1), 1 + choose(m + 1)) } else { (99, 99) };
        let limo = if lim == 0 { if flip() { None } else { Some(0) } } else { Some(lim) };
        let nerr = Cell::new(0usize);
        let next = Cell::new([0usize; 8]);
        let inv = |w: bool| {
            let p = pulled(0);
            let act: Vec<usize> = (1..=p).filter(|i| *i != eo && !done(*i)).collect();
            check(lim == 0 || act.len() <= lim, "more inner streams than the limit");
            for &i in &act { check(!src_dropped(i), "active inner stream dropped") }
            if !w {
                check(done(0) || blocked(0) || (lim != 0 && act.len() == lim), "outer stream not polled although there is room");
                for &i in &act { check(polls(i) > 0 && blocked(i), "inner stream not driven") }
                check(!(done(0) && act.is_empty()), "pending at the end");
            }
        };
        let mut d = Drv::new(param(1)).must(!0);
        macro_rules! drain { ($b:expr, $r:ident => $get:expr) => {{
            let mut b = Box::pin($b);
            loop {
                check(!b.is_terminated(), "terminated early");
                let x = d.next_inv(&mut b, &inv);
                inv(true);
                match x {
                    None => break,
                    Some($r) => {
                        let (err, (i, k, t)): (bool, (usize, usize, Tk)) = $get;
                        if i == eo { check(err && nerr.get() == 0 && t.0 == v, "wrong outer error"); nerr.set(1); cover(2); continue }
                        check(i >= 1 && i <= pulled(0) && k < n[i] && t.0 == v ^ k as u8 && t.1 == i * 4 + k, "wrong item");
                        let mut nx = next.get();
                        check(nx[i] == k, "items of one inner stream lost, repeated or out of order");
                        nx[i] += 1;
                        next.set(nx);
                        check(err == (i == ei && k == 0), "success and error confused");
                        if err { cover(3) }
                        if (1..i).any(|j| nx[j] < n[j] && j != eo) { cover(1) }
                    }
                }
            }
            for i in 1..=m { check(i == eo || next.get()[i] == n[i], "items lost") }
            check(done(0) && (eo > m || nerr.get() == 1), "ended early");
            check(b.is_terminated(), "not terminated");
        }}; }
        match kind {
            0 => drain!(src(0, (1..=m).map(|i| inner(i, n[i], v)).collect::<Vec<_>>()).flatten_unordered(limo), r => (false, r)),
            2 => drain!(src(0, 1..=m).flat_map_unordered(limo, |i| inner(i, n[i], v)), r => (false, r)),
            _ => {
                let s = src(0, (1..=m).map(|i| if i == eo { Err(item(i, 0, v)) } else {
                    Ok(src(i, (0..n[i]).map(|k| if i == ei && k == 0 { Err(item(i, k, v ^ k as u8)) } else { Ok(item(i, k, v ^ k as u8)) }).collect::<Vec<_>>()))
                }).collect::<Vec<_>>());
                drain!(s.try_flatten_unordered(limo), r => match r { Ok(x) => (false, x), Err(x) => (true, x) })
            }
        }
        for i in 1..=m { for k in 0..n[i] { check(dropped(i * 4 + k) || i == eo, "leak") } }
        cover(0);
    })
}

/// counter raised by another thread; a stream of its increments, ending after `n`
struct Ctr { c: AtomicUsize, w: AtomicWaker }
fn ctr() -> Arc<Ctr> { Arc::new(Ctr { c: AtomicUsize::new(0), w: AtomicWaker::new() }) }
impl Ctr { fn bump(&self) { self.c.fetch_add(1, SeqCst); self.w.wake() } }
struct Ticks { c: Arc<Ctr>, at: usize, n: usize, id: usize }
impl Stream for Ticks {
    type Item = (usize, usize);
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<(usize, usize)>> {
        if self.at == self.n { return Poll::Ready(None) }
        if self.c.c.load(SeqCst) <= self.at {
            self.c.w.register(cx.waker());
            if self.c.c.load(SeqCst) <= self.at { return Poll::Pending }
        }
        self.at += 1;
        Poll::Ready(Some((self.id, self.at)))
    }
}

fn side_model(strat: usize) {
    // streams 0 and 1
    scene(param(0), || {
        let v = [sym8(), sym8()];
        let n = [choose(3), choose(3)];
        let mk = |i: usize| src(i, (0..n[i]).map(|k| (i, k, tk(v[i] ^ k as u8, i * 4 + k))).collect::<Vec<_>>());
        let quiet = param(0) == 0;
        let pref = Cell::new(None);
        let clos = |st: &mut PollNext| -> PollNext {
            let r = match strat { 1 => PollNext::Left, 2 => PollNext::Right, 3 => { let mut o = *st; let r = o.toggle(); *st = o; check(r != *st, "toggle"); r } _ => if flip() { PollNext::Left } else { PollNext::Right } };
            pref.set(Some(if r == PollNext::Left { 0 } else { 1 }));
            r
        };
        let mut d = Drv::new(param(1)).strict(Strict::All);
        let mut got = [0usize; 2];
        let mut recent: [(Option<usize>, u32, u32); 2] = [(None, 0, 0); 2];
        let mut order = Vec::new();
        macro_rules! drain { ($b:expr) => {{
            let mut b = Box::pin($b);
            loop {
                pref.set(None);
                check(b.is_terminated() == false, "terminated early");
                let p0 = (polls(0), polls(1));
                let r = d.poll(|cx| b.as_mut().poll_next(cx));
                let dn = [done(0), done(1)];
                match r {
                    Poll::Ready(None) => { check(dn[0] && dn[1], "ended early"); break }
                    Poll::Pending => {
                        recent = [(None, 0, 0); 2];
                        for i in 0..2 { check(dn[i] || blocked(i), "pending although a stream was not polled") }
                        check(!(dn[0] && dn[1]), "pending at the end");
                        d.settle();
                    }
                    Poll::Ready(Some((i, k, t))) => {
                        check(i < 2 && k == got[i] && k < n[i] && t.0 == v[i] ^ k as u8, "item lost, repeated or out of order");
                        got[i] += 1;
                        let o = 1 - i;
                        if let Some(p) = pref.get() {
                            if strat != 0 && p == o { check(dn[o] || blocked(o), "strategy not followed"); cover(1) }
                        }
                        if strat == 0 {
                            // round robin: of two consecutive polls, one looks at the other side first
                            recent = [recent[1], (Some(i), p0.0, p0.1)];
                            if let (Some(a), Some(b2)) = (recent[0].0, recent[1].0) {
                                if a == i && b2 == i {
                                    let before = if o == 0 { recent[0].1 } else { recent[0].2 };
                                    check(dn[o] || polls(o) > before, "one side starves the other");
                                }
                            }
                        }
                        order.push(i);
                    }
                }
            }
            check(b.is_terminated(), "not terminated");
            check(matches!(d.poll(|cx| b.as_mut().poll_next(cx)), Poll::Ready(None)), "item after the end");
        }}; }
        if strat == 0 { drain!(stream::select(mk(0), mk(1))) } else { drain!(stream::select_with_strategy(mk(0), mk(1), clos)) }
        check(got == n, "items lost");
        if quiet && (strat == 0 || strat == 3) {
            let m = n[0].min(n[1]);
            for k in 0..m { check(order[2 * k] == 0 && order[2 * k + 1] == 1, "not alternating") }
        }
        if quiet && strat == 1 { for k in 0..n[0] { check(order[k] == 0, "priority not respected") } }
        for i in 0..2 { for k in 0..n[i] { check(dropped(i * 4 + k), "leak") } }
        cover(0);
    })
}

harness! {
fn h_flat() { flat(param(2), param(3), param(4)) }
// inner streams and the outer stream are fed by other threads
fn h_flat_conc() {
    let base = live();
    {
        let (m, n, lim) = (param(0), param(1), param(2));
        let cs: Vec<_> = (0..=m).map(|_| ctr()).collect();
        let outer_ready = param(3) == 0;
        if outer_ready { for _ in 0..m { cs[0].bump() } }
        let mut ts = Vec::new();
        for (i, c) in cs.iter().enumerate() {
            if i == 0 && outer_ready { continue }
            let c = c.clone();
            let k = if i == 0 { m } else { n };
            ts.push(spawn(move || for _ in 0..k { c.bump() }));
        }
        let c2 = cs.clone();
        let s = Ticks { c: cs[0].clone(), at: 0, n: m, id: 0 }
            .map(move |(_, i)| Ticks { c: c2[i].clone(), at: 0, n, id: i })
            .flatten_unordered(if lim == 0 { None } else { Some(lim) });
        let got: Vec<(usize, usize)> = run(0, s.collect());
        check(got.len() == m * n, "items lost");
        let mut nx = [0; 4];
        for (i, k) in got { nx[i] += 1; check(k == nx[i], "order") }
        for t in ts { t.join(); }
    }
    cover(0);
    check(live() == base, "memory leaked");
}
// dropped while being woken
fn h_flat_drop() {
    let base = live();
    {
        let cs: Vec<_> = (0..3).map(|_| ctr()).collect();
        cs[0].bump();
        let (a, b) = (cs[0].clone(), cs[1].clone());
        let t1 = spawn(move || a.bump());
        let t2 = spawn(move || b.bump());
        let c2 = cs.clone();
        let mut s = Box::pin(Ticks { c: cs[0].clone(), at: 0, n: 2, id: 0 }.map(move |(_, i)| Ticks { c: c2[i].clone(), at: 0, n: 1, id: i }).flatten_unordered(None));
        for k in 0..param(0) {
            let w = waker(k);
            let _ = s.as_mut().poll_next(&mut Context::from_waker(&w));
        }
        drop(s);
        t1.join();
        t2.join();
    }
    cover(0);
    check(live() == base, "memory leaked");
    no_wakers_held();
}
// a panic inside an inner stream leaves the adapter usable
fn h_flat_panic() {
    scene(param(0), || {
        let bad = choose(3);
        let mut b = Box::pin(src(0, 1..=3usize).flat_map_unordered(None, |i| {
            Box::pin(stream::once(async move { let t = fut(i, tk(0, i)).await; if i == bad + 1 { drop(t); vp_rt_panic() } t }))
        }));
        let mut d = Drv::new(0).strict(Strict::Fresh);
        let mut got = 0u32;
        let mut panics = 0;
        loop {
            match d.poll(|cx| match catch(|| b.as_mut().poll_next(cx)) { Ok(p) => p.map(Ok), Err(()) => Poll::Ready(Err(())) }) {
                Poll::Pending => d.settle(),
                Poll::Ready(Err(())) => panics += 1,
                Poll::Ready(Ok(None)) => break,
                Poll::Ready(Ok(Some(t))) => { check(got >> t.1 & 1 == 0, "duplicate"); got |= 1 << t.1 }
            }
        }
        check(panics == 1 && got == 0b1110 & !(2 << bad), "other inner streams lost");
        drop(b);
        cover(0);
    })
}
fn h_sel2() { side_model(param(2)) }
fn h_sel_all() {
    scene(param(0), || {
        let v = sym8();
        let m = param(2);
        let n: Vec<usize> = (0..m).map(|_| choose(param(3))).collect();
        let mk = |i: usize| src(i, (0..n[i]).map(|k| (i, k, tk(v ^ k as u8, i * 4 + k))).collect::<Vec<_>>());
        let itm = flip();
        let mut late = choose(m + 1); // streams pushed later
        let first = m - late;
        let mut s: SelectAll<_> = if itm { stream::select_all((0..first).map(mk)) } else { let mut s = SelectAll::new(); s.extend((0..first).map(mk)); s };
        let mut d = Drv::new(param(1)).strict(Strict::All);
        let mut got = vec![0usize; m];
        let mut inn = first;
        loop {
            let act = |i: usize, inn: usize| i < inn && !done(i);
            let cnt = (0..m).filter(|i| act(*i, inn)).count();
            check(s.len() == cnt && s.is_empty() == (cnt == 0), "wrong length");
            let mut seen = 0u32;
            if itm { for x in s.iter() { seen |= 1 << x.id } } else { for x in s.iter_mut() { seen |= 1 << x.id } }
            for i in 0..m { check((seen >> i & 1 == 1) == act(i, inn), "iterator misses a stream") }
            match d.poll(|cx| Pin::new(&mut s).poll_next(cx)) {
                Poll::Ready(None) => {
                    for i in 0..inn { check(done(i), "ended early") }
                    check(s.is_terminated(), "not terminated");
                    if late == 0 { break }
                    s.push(mk(inn)); inn += 1; late -= 1;
                    check(!s.is_terminated(), "terminated after push");
                    cover(2);
                }
                Poll::Ready(Some((i, k, t))) => {
                    check(i < inn && k == got[i] && t.0 == v ^ k as u8, "item lost, repeated or out of order");
                    check(!s.is_terminated(), "terminated early");
                    got[i] += 1;
                    if late > 0 && flip() { s.push(mk(inn)); inn += 1; late -= 1; cover(1) }
                }
                Poll::Pending => {
                    if !woken(d.k) { for i in 0..inn { check(done(i) || blocked(i), "pending although a stream can make progress") } }
                    check((0..inn).any(|i| !done(i)), "pending at the end");
                    check(!s.is_terminated(), "terminated early");
                    d.settle();
                }
            }
        }
        check((0..m).all(|i| got[i] == n[i]), "items lost");
        for i in 0..m { for k in 0..n[i] { check(dropped(i * 4 + k), "leak") } check(src_dropped(i), "finished stream kept") }
        cover(0);
    })
}
fn h_sel_clear() {
    scene(param(0), || {
        let v = sym8();
        let mk = |i: usize| src(i, (0..2).map(|k| (i, k, tk(v, i * 4 + k))).collect::<Vec<_>>());
        let mut s: SelectAll<_> = (0..2).map(mk).collect();
        let mut d = Drv::new(param(1));
        check(s.len() == 2, "wrong length");
        if flip() { let _ = d.poll(|cx| Pin::new(&mut s).poll_next(cx)); }
        if flip() {
            s.clear();
            check(s.is_empty() && src_dropped(0) && src_dropped(1), "clear left a stream");
            for i in 0..2 { for k in 0..2 { check(dropped(i * 4 + k), "clear left an item") } }
            s.push(mk(2));
            check(s.len() == 1 && !s.is_terminated(), "wrong length");
            for k in 0..2 { match d.next(&mut s) { Some((i, j, _)) => check(i == 2 && j == k, "wrong item"), None => check(false, "ended early") } }
            check(d.next(&mut s).is_none() && s.is_terminated(), "not ended");
            cover(1);
        } else {
            let n = s.len();
            let mut seen = 0u32;
            let it = s.into_iter();
            check(it.size_hint() == (n, Some(n)), "iterator length");
            for x in it { check(seen >> x.id & 1 == 0 && !src_dropped(x.id), "stream twice or dropped"); seen |= 1 << x.id }
            for i in 0..2 { check(seen >> i & 1 == (!done(i)) as u32, "iterator misses a stream"); check(src_dropped(i), "stream leaked") }
            cover(2);
        }
    })
}
fn h_sel_mac() {
    scene(param(0), || {
        let v = sym8();
        let n = [choose(3), choose(2), choose(2)];
        let mk = |i: usize| src(i, (0..n[i]).map(|k| (i, k, tk(v ^ k as u8, i * 4 + k))).collect::<Vec<_>>());
        let (a, b, c) = (mk(0), mk(1), mk(2));
        let m = param(2);
        let mut d = Drv::new(param(1)).strict(Strict::All);
        let mut got = [0usize; 3];
        macro_rules! drain { ($s:expr) => {{
            let mut s = $s;
            loop {
                let left: usize = (0..m).map(|i| n[i] - got[i]).sum();
                let h = s.size_hint();
                check(h.0 <= left && h.1.map_or(true, |u| u >= left), "size hint wrong");
                match d.poll(|cx| Pin::new(&mut s).poll_next(cx)) {
                    Poll::Ready(None) => { for i in 0..m { check(done(i), "ended early") } break }
                    Poll::Ready(Some((i, k, t))) => { check(k == got[i] && t.0 == v ^ k as u8, "item lost, repeated or out of order"); got[i] += 1 }
                    Poll::Pending => { for i in 0..m { check(done(i) || blocked(i), "pending although a stream was not polled") } d.settle() }
                }
            }
            for i in 0..m { check(got[i] == n[i], "items lost") }
        }}; }
        if m == 2 { drain!(futures::stream_select!(a, b)) } else { drain!(futures::stream_select!(a, b, c)) }
        cover(0);
    })
}
fn h_sel_conc() {
    let base = live();
    {
        let kind = param(0);
        let cs: Vec<_> = (0..2).map(|_| ctr()).collect();
        let mut ts = Vec::new();
        for c in &cs { let c = c.clone(); ts.push(spawn(move || { c.bump(); c.bump() })); }
        let t = |i: usize| Ticks { c: cs[i].clone(), at: 0, n: 2, id: i };
        let got: Vec<(usize, usize)> = match kind { 0 => run(0, stream::select(t(0), t(1)).collect()), _ => run(0, stream::select_all([t(0), t(1)]).collect()) };
        check(got.len() == 4, "items lost");
        let mut nx = [0; 2];
        for (i, k) in got { nx[i] += 1; check(k == nx[i], "order") }
        for t in ts { t.join(); }
    }
    cover(0);
    check(live() == base, "memory leaked");
}
}
