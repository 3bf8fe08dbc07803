//! Driving a stream to its end against a reference list of items.
use crate::ctl::*;
use crate::rt::*;
use futures::stream::{FusedStream, Stream};
use std::task::Poll;

/// what an item looks like: ids and values of its parts
pub type Ob = Vec<(usize, u8)>;
pub trait Obs {
    fn ob(&self) -> Ob;
}
impl Obs for Tk {
    fn ob(&self) -> Ob { vec![(self.1, self.0)] }
}
impl Obs for (usize, Tk) {
    fn ob(&self) -> Ob { vec![(100 + self.0, 0), (self.1 .1, self.1 .0)] }
}
impl Obs for (Tk, Tk) {
    fn ob(&self) -> Ob { vec![(self.0 .1, self.0 .0), (self.1 .1, self.1 .0)] }
}
impl Obs for Vec<Tk> {
    fn ob(&self) -> Ob { self.iter().map(|t| (t.1, t.0)).collect() }
}
impl Obs for () {
    fn ob(&self) -> Ob { vec![] }
}
impl Obs for Box<dyn std::any::Any + Send> {
    fn ob(&self) -> Ob { vec![] }
}
impl<T: Obs, E: Obs> Obs for Result<T, E> {
    fn ob(&self) -> Ob { match self { Ok(t) => t.ob(), Err(e) => { let mut r = vec![(200, 0)]; r.extend(e.ob()); r } } }
}
impl Obs for futures::stream::TryChunksError<Tk, Tk> {
    fn ob(&self) -> Ob { let mut r = self.0.ob(); r.extend(self.1.ob()); r }
}
pub fn same(a: &Ob, b: &Ob) -> bool {
    if a.len() != b.len() { return false }
    let mut r = true;
    for (x, y) in a.iter().zip(b) { r = r & (x.0 == y.0) & (x.1 == y.1) }
    r
}

pub const HINT: usize = 1;
pub const TERM: usize = 2;
pub const CANCEL: usize = 4;
pub fn mode(b: usize) -> bool { param(2) & b != 0 }

pub fn hints<S: Stream + ?Sized>(s: &S, left: usize) {
    if mode(HINT) {
        let (lo, hi) = s.size_hint();
        check(lo <= left, "size_hint lower bound exceeds the items that follow");
        check(hi.map_or(true, |h| h >= left), "size_hint upper bound below the items that follow");
    }
}
/// drive the stream to its end, comparing with the expected items
pub fn drain_inv<S>(s: S, exp: &[Ob], term: impl Fn(&S) -> Option<bool>, inv: impl Fn(usize)) where S: Stream, S::Item: Obs {
    let mut s = Box::pin(s);
    let mut d = Drv::new(param(1)).strict(Strict::All);
    let mut k = 0;
    loop {
        hints(&*s, exp.len() - k);
        if mode(TERM) { if k < exp.len() { check(term(&s) != Some(true), "is_terminated although items follow") } }
        match d.poll(|cx| s.as_mut().poll_next(cx)) {
            Poll::Pending => {
                inv(k);
                hints(&*s, exp.len() - k);
                if mode(TERM) { check(term(&s) != Some(true), "is_terminated although pending") }
                if mode(CANCEL) && flip() { cover(40); return }
                d.settle()
            }
            Poll::Ready(Some(x)) => {
                check(k < exp.len(), "more items than expected");
                check(same(&x.ob(), &exp[k]), "wrong item");
                k += 1;
                drop(x);
                inv(k);
            }
            Poll::Ready(None) => break,
        }
    }
    check(k == exp.len(), "ended early: items lost");
    inv(k);
    if mode(HINT) { check(s.size_hint().0 == 0, "size_hint lower bound after the end") }
    if mode(TERM) { check(term(&s) != Some(false), "is_terminated not set after the end") }
    if world().used & 1 != 0 && !done(0) && !mode(HINT) {
        // the adapter itself ended: it stays at its end
        for _ in 0..2 { check(matches!(d.poll(|cx| s.as_mut().poll_next(cx)), Poll::Ready(None)), "an item or a pending after the end"); }
        inv(k);
        if mode(TERM) { check(term(&s) != Some(false), "is_terminated not set after the end") }
    }
}
pub fn drain<S>(s: S, exp: &[Ob], inv: impl Fn(usize)) where S: Stream + FusedStream, S::Item: Obs {
    drain_inv(s, exp, |s| Some(s.is_terminated()), inv)
}
