//! Adapters and consumers of fallible streams.
use crate::ctl::*;
use crate::drain::*;
use crate::harness;
use crate::rt::*;
use futures::future::FusedFuture;
use futures::stream::{FusedStream, Stream, StreamExt, TryStreamExt};
use std::cell::Cell;
use std::task::Poll;

const FID: usize = 4;
type R = Result<Tk, Tk>;
struct Ec(Tk);
impl From<Tk> for Ec { fn from(t: Tk) -> Ec { Ec(t) } }
impl Obs for Ec { fn ob(&self) -> Ob { let mut r = vec![(210, 0)]; r.extend(self.0.ob()); r } }

fn try_adapters(kind: usize) {
    let hk = if mode(HINT) { choose(5) as u8 } else if mode(TERM) || param(2) == CANCEL { 0 } else { 4 * choose(2) as u8 };
    let early = mode(TERM) && flip();
    scene(param(0), || {
        let maxn = param(3);
        let n = choose(maxn + 1);
        let v: Vec<u8> = (0..n).map(|_| sym8()).collect();
        // which items are errors
        let er: Vec<bool> = (0..n).map(|_| flip()).collect();
        // outcome of callbacks: 0 error, 1 false, 2 true
        let out: Vec<usize> = (0..n).map(|i| if er[i] { 2 } else { match kind { 6 | 9 | 10 | 11 => choose(3), 8 | 18 | 19 => 1 + choose(2), _ => 2 } }).collect();
        let mk = |i: usize| -> R { if er[i] { Err(tk(v[i], i)) } else { Ok(tk(v[i], i)) } };
        let s = || src(0, (0..n).map(mk).collect::<Vec<R>>()).hint(hk).early(early);
        let okb = |i: usize, x: u8| -> Ob { vec![(i, x)] };
        let erb = |i: usize, x: u8| -> Ob { vec![(200, 0), (i, x)] };
        let one = |i: usize| -> Ob { if er[i] { erb(i, v[i]) } else { okb(i, v[i]) } };
        let last = Cell::new(usize::MAX);
        let ncalls = Cell::new(0usize);
        let call = |i: usize, want_err: bool| { boom(); check(last.get() == usize::MAX || last.get() < i, "callback out of order or repeated"); check(er[i] == want_err, "callback called for the wrong kind of item"); last.set(i); ncalls.set(ncalls.get() + 1) };
        let none = |_: usize| ();
        let lazy = |k: usize| check(pulled(0) <= k, "source read ahead");
        let lazy1 = |k: usize| check(pulled(0) <= k + 1, "source read ahead");
        let oks = (0..n).filter(|i| !er[*i]).count();
        let all_calls = |c: usize| if !mode(CANCEL) { check(ncalls.get() == c, "callback not run for every item it is meant for") };
        let first_err = (0..n).find(|i| er[*i]);
        match kind {
            0 => {
                let exp: Vec<Ob> = (0..n).map(|i| if er[i] { one(i) } else { okb(i, !v[i]) }).collect();
                drain(s().map_ok(|mut t: Tk| { call(t.1, false); t.0 = !t.0; t }), &exp, lazy);
                all_calls(oks)
            }
            1 => {
                let exp: Vec<Ob> = (0..n).map(|i| if er[i] { erb(i, !v[i]) } else { one(i) }).collect();
                drain(s().map_err(|mut t: Tk| { call(t.1, true); t.0 = !t.0; t }), &exp, lazy);
                all_calls(n - oks)
            }
            2 => {
                let exp: Vec<Ob> = (0..n).map(|i| if er[i] { vec![(200, 0), (210, 0), (i, v[i])] } else { one(i) }).collect();
                drain(s().err_into::<Ec>(), &exp, lazy);
            }
            3 => { let exp: Vec<Ob> = (0..n).map(one).collect(); drain(s().inspect_ok(|t: &Tk| { call(t.1, false); check(t.0 == v[t.1], "wrong item") }), &exp, lazy); all_calls(oks) }
            4 => { let exp: Vec<Ob> = (0..n).map(one).collect(); drain(s().inspect_err(|t: &Tk| { call(t.1, true); check(t.0 == v[t.1], "wrong item") }), &exp, lazy); all_calls(n - oks) }
            5 => { let exp: Vec<Ob> = (0..n).map(one).collect(); drain(s().into_stream(), &exp, lazy); }
            6 => {
                let exp: Vec<Ob> = (0..n).map(|i| if er[i] { one(i) } else if out[i] > 0 { okb(i, !v[i]) } else { erb(i, v[i] ^ 1) }).collect();
                drain(s().and_then(|mut t: Tk| { call(t.1, false); let i = t.1; if out[i] > 0 { t.0 = !t.0; fut(FID, Ok(t)) } else { t.0 ^= 1; fut(FID, Err(t)) } }), &exp, lazy1);
                all_calls(oks)
            }
            7 => {
                let p: Vec<bool> = (0..n).map(|i| er[i] && flip()).collect();
                let exp: Vec<Ob> = (0..n).map(|i| if !er[i] { one(i) } else if p[i] { okb(i, !v[i]) } else { erb(i, v[i] ^ 1) }).collect();
                drain(s().or_else(|mut t: Tk| { call(t.1, true); let i = t.1; if p[i] { t.0 = !t.0; fut(FID, Ok(t)) } else { t.0 ^= 1; fut(FID, Err(t)) } }), &exp, lazy1);
                all_calls(n - oks)
            }
            8 => {
                let exp: Vec<Ob> = (0..n).filter(|i| er[*i] || out[*i] == 2).map(one).collect();
                drain(s().try_filter(|t: &Tk| { call(t.1, false); fut(FID, out[t.1] == 2) }), &exp, none);
                all_calls(oks)
            }
            9 => {
                let exp: Vec<Ob> = (0..n).filter(|i| er[*i] || out[*i] != 1).map(|i| if er[i] { one(i) } else if out[i] == 2 { okb(i, !v[i]) } else { erb(i, v[i] ^ 1) }).collect();
                drain(s().try_filter_map(|mut t: Tk| { call(t.1, false); let o = out[t.1]; fut(FID, if o == 2 { t.0 = !t.0; Ok(Some(t)) } else if o == 1 { Ok(None) } else { t.0 ^= 1; Err(t) }) }), &exp, none);
                all_calls(oks)
            }
            10 => {
                // true: skip on; false: stop skipping and yield; error of the predicate: yields the error
                let mut exp: Vec<Ob> = vec![];
                let mut skipping = true;
                let mut c = 0;
                for i in 0..n {
                    if er[i] || !skipping { exp.push(one(i)); continue }
                    c += 1;
                    match out[i] { 2 => {} 1 => { skipping = false; exp.push(one(i)) } _ => exp.push(erb(30 + i, v[i])) }
                }
                drain(s().try_skip_while(|t: &Tk| { call(t.1, false); fut(FID, if out[t.1] == 0 { Err(tk(t.0, 30 + t.1)) } else { Ok(out[t.1] == 2) }) }), &exp, none);
                all_calls(c)
            }
            11 => {
                let mut exp: Vec<Ob> = vec![];
                let mut c = 0;
                for i in 0..n {
                    if er[i] { exp.push(one(i)); continue }
                    c += 1;
                    match out[i] { 2 => exp.push(one(i)), 1 => break, _ => exp.push(erb(30 + i, v[i])) }
                }
                drain(s().try_take_while(|t: &Tk| { call(t.1, false); fut(FID, if out[t.1] == 0 { Err(tk(t.0, 30 + t.1)) } else { Ok(out[t.1] == 2) }) }), &exp, lazy1);
                all_calls(c)
            }
            12 => {
                let c = 1 + choose(3);
                let mut exp: Vec<Ob> = vec![];
                let mut cur: Ob = vec![];
                for i in 0..n {
                    if er[i] { let mut o = vec![(200, 0)]; o.append(&mut cur); o.push((i, v[i])); exp.push(o) } else { cur.push((i, v[i])); if cur.len() == c { exp.push(std::mem::take(&mut cur)) } }
                }
                if !cur.is_empty() { exp.push(cur) }
                drain(s().try_chunks(c), &exp, |k| check(pulled(0) <= (k + 1) * c, "source read ahead"));
            }
            13 => {
                let c = 1 + choose(3);
                let mut s = Box::pin(s().try_ready_chunks(c));
                let mut d = Drv::new(param(1)).strict(Strict::All);
                let mut k = 0;
                loop {
                    let rest = n - k;
                    if mode(HINT) { let (lo, hi) = s.size_hint(); check(lo <= (rest + c - 1) / c && hi.map_or(true, |h| h >= rest), "size_hint") }
                    if mode(TERM) && rest > 0 { check(!s.is_terminated(), "is_terminated although items follow") }
                    match d.poll(|cx| s.as_mut().poll_next_unpin(cx)) {
                        Poll::Pending => { check(pulled(0) == k, "ready items held back"); d.settle() }
                        Poll::Ready(Some(Ok(x))) => {
                            check(x.len() >= 1 && x.len() <= c, "chunk size");
                            if x.len() < c { check(blocked(0) || done(0), "chunk not filled although items are ready") }
                            for t in &x { check(k < n && !er[k] && t.1 == k && t.0 == v[k], "wrong item"); k += 1 }
                        }
                        Poll::Ready(Some(Err(e))) => {
                            check(e.0.len() < c, "chunk size");
                            for t in &e.0 { check(k < n && !er[k] && t.1 == k && t.0 == v[k], "wrong item"); k += 1 }
                            check(k < n && er[k] && e.1 .1 == k && e.1 .0 == v[k], "wrong error");
                            k += 1;
                            if e.0.len() > 0 { cover(41) }
                        }
                        Poll::Ready(None) => break,
                    }
                    check(pulled(0) == k, "ready items held back");
                }
                check(k == n, "items lost");
                if mode(TERM) { check(s.is_terminated(), "is_terminated not set after the end") }
            }
            14 => {
                // inner streams of fallible items; outer errors pass
                let m: Vec<usize> = (0..n).map(|i| if er[i] { 0 } else { choose(3) }).collect();
                let ib: Vec<bool> = (0..n).map(|i| m[i] > 0 && flip()).collect(); // first inner item is an error
                let mut exp: Vec<Ob> = vec![];
                for i in 0..n { if er[i] { exp.push(one(i)) } for k in 0..m[i] { let o = vec![(20 + 4 * i + k, v[i] ^ k as u8)]; exp.push(if k == 0 && ib[i] { let mut e = vec![(200, 0)]; e.extend(o); e } else { o }) } }
                let inner = |i: usize| src(1 + i, (0..m[i]).map(|k| { let t = tk(v[i] ^ k as u8, 20 + 4 * i + k); if k == 0 && ib[i] { Err(t) } else { Ok(t) } }).collect::<Vec<R>>());
                let o = src(0, (0..n).map(|i| if er[i] { Err(tk(v[i], i)) } else { Ok(inner(i)) }).collect::<Vec<_>>()).hint(hk).early(early);
                drain(o.try_flatten(), &exp, none);
            }
            15 => {
                let mut s = s();
                for i in 0..n {
                    let r = { let mut f = Box::pin(s.try_next()); check(!f.is_terminated(), "terminated before the end"); Drv::new(param(1)).strict(Strict::All).fut_or_cancel(&mut f, mode(CANCEL), || ()) };
                    match r {
                        None => { cover(40); return }
                        Some(Ok(Some(t))) => check(!er[i] && t.1 == i && t.0 == v[i], "wrong item"),
                        Some(Err(t)) => check(er[i] && t.1 == i && t.0 == v[i], "wrong error"),
                        Some(Ok(None)) => check(false, "ended early"),
                    }
                }
                let mut f = Box::pin(s.try_next());
                check(matches!(Drv::new(0).fut_or_cancel(&mut f, mode(CANCEL), || ()), None | Some(Ok(None))), "item after the end");
                if done(0) { check(f.is_terminated(), "not terminated") }
            }
            16 => {
                let r = crate::fin!(Drv::new(param(1)).strict(Strict::All), s().try_collect::<Vec<Tk>>(), mode(CANCEL), || (), |r| r.is_ok());
                match r {
                    None => cover(40),
                    Some(Ok(x)) => { check(first_err.is_none() && x.len() == n, "error lost"); for i in 0..n { check(x[i].1 == i && x[i].0 == v[i], "wrong item") } }
                    Some(Err(t)) => check(Some(t.1) == first_err && t.0 == v[t.1] && pulled(0) == t.1 + 1, "wrong error"),
                }
            }
            17 => {
                let m: Vec<usize> = (0..n).map(|_| choose(3)).collect();
                let o = src(0, (0..n).map(|i| if er[i] { Err(tk(v[i], i)) } else { Ok((0..m[i]).map(|k| tk(v[i], 8 + 4 * i + k)).collect::<Vec<_>>()) }).collect::<Vec<_>>());
                let r = crate::fin!(Drv::new(param(1)).strict(Strict::All), o.try_concat(), mode(CANCEL), || ());
                match r {
                    None => cover(40),
                    Some(Ok(x)) => {
                        check(first_err.is_none(), "error lost");
                        let mut k = 0;
                        for i in 0..n { for j in 0..m[i] { check(k < x.len() && x[k].1 == 8 + 4 * i + j && x[k].0 == v[i], "wrong item"); k += 1 } }
                        check(k == x.len(), "too many items");
                    }
                    Some(Err(t)) => check(Some(t.1) == first_err && t.0 == v[t.1], "wrong error"),
                }
                for i in 0..n { for k in 0..3 { check(!alive(8 + 4 * i + k), "item leaked") } }
            }
            18 | 19 => {
                let stop = kind == 19;
                let p = |i: usize| out[i] == 2;
                let first = (0..n).find(|i| er[*i] || p(*i) == stop);
                let f = |t: Tk| { call(t.1, false); fut(FID, p(t.1)) };
                let inv = || check(pulled(0) <= ncalls.get() + 1, "source read ahead");
                let d = Drv::new(param(1)).strict(Strict::All);
                let r = if stop { crate::fin!(d, s().try_any(f), mode(CANCEL), inv) } else { crate::fin!(d, s().try_all(f), mode(CANCEL), inv) };
                match r {
                    None => cover(40),
                    Some(Ok(b)) => { check(first.map_or(b != stop, |i| !er[i] && b == stop), "wrong result"); check(pulled(0) == first.map_or(n, |i| i + 1), "items taken after the result was known") }
                    Some(Err(t)) => check(Some(t.1) == first && er[t.1] && t.0 == v[t.1], "wrong error"),
                }
            }
            _ => unreachable!(),
        }
        for i in 0..48 { check(!alive(i), "item leaked") }
        cover(kind as u64);
    })
}

harness! {
fn h_tad() { try_adapters(param(5)) }
}
