//! Symbolic environment for single-threaded harnesses: event sources that stay pending for a
//! solver-chosen number of polls, values whose drops are counted, and drive loops that check
//! that a pending operation always has somebody who will wake its latest waker.
use crate::rt::*;
use futures::sink::Sink;
use futures::stream::{FusedStream, Stream};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

pub const NS: usize = 16;
pub struct Sl {
    wk: Option<Waker>,
    blocked: bool,
    epoch: u32,
    polls: u32,
}
pub struct World {
    s: [Sl; NS],
    budget: u32,
    epoch: u32,
    selfwake: bool,
    pub used: u32,
    /// a source or callback may still panic
    boom: bool,
    /// polls of sources in this poll of the operation
    spin: u32,
}
static mut WORLD: Option<World> = None;
pub fn world() -> &'static mut World {
    unsafe { (*std::ptr::addr_of_mut!(WORLD)).as_mut().unwrap() }
}
/// `budget`: how many times sources may become pending in this run
pub fn init(budget: usize) {
    unsafe {
        *std::ptr::addr_of_mut!(WORLD) = Some(World {
            s: [const { Sl { wk: None, blocked: false, epoch: 0, polls: 0 } }; NS],
            budget: budget as u32,
            epoch: 1,
            selfwake: false,
            used: 0,
            boom: param(12) & 1 != 0,
            spin: 0,
        })
    }
}
/// sources may also wake from inside their own poll
pub fn self_waking(on: bool) {
    world().selfwake = on;
}
pub fn fini() {
    unsafe { *std::ptr::addr_of_mut!(WORLD) = None }
}
/// in panic mode: one poll or callback of the environment, chosen by the solver, panics
pub fn boom() {
    let w = world();
    if w.boom && flip() {
        w.boom = false;
        cover(60);
        std::panic::resume_unwind(Box::new(VpPanic))
    }
}
/// no panic in this run: the adapter itself catches them
pub fn calm() {
    world().boom = false
}
pub fn panicky() -> bool {
    param(12) & 1 != 0
}
/// is source i pending now?
pub fn pend(i: usize, cx: &mut Context<'_>) -> bool {
    boom();
    let w = world();
    w.spin += 1;
    check(w.spin < 500, "sources are polled without end in one poll");
    let e = w.epoch;
    let s = &mut w.s[i];
    s.polls += 1;
    if s.blocked {
        s.epoch = e;
        s.wk = Some(cx.waker().clone());
        return true;
    }
    if w.budget > 0 && flip() {
        w.budget -= 1;
        if w.selfwake && flip() {
            cx.waker().wake_by_ref();
            return true;
        }
        s.blocked = true;
        s.epoch = e;
        s.wk = Some(cx.waker().clone());
        return true;
    }
    false
}
/// like pend, but always pending on the first poll
pub fn block(i: usize, cx: &mut Context<'_>) {
    let w = world();
    let e = w.epoch;
    let s = &mut w.s[i];
    s.polls += 1;
    s.blocked = true;
    s.epoch = e;
    s.wk = Some(cx.waker().clone());
}
pub fn blocked(i: usize) -> bool {
    world().s[i].blocked
}
pub fn any_blocked() -> bool {
    world().s.iter().any(|s| s.blocked)
}
pub fn polls(i: usize) -> u32 {
    world().s[i].polls
}
pub fn retire(i: usize) {
    let s = unsafe { (*std::ptr::addr_of_mut!(WORLD)).as_mut() };
    if let Some(w) = s {
        w.s[i].blocked = false;
        w.s[i].wk = None;
    }
}
/// the event of source i happens; true if it was registered in the last drive poll
pub fn fire(i: usize) -> bool {
    let w = world();
    let s = &mut w.s[i];
    s.blocked = false;
    let fresh = s.epoch == w.epoch;
    if let Some(k) = s.wk.take() {
        k.wake()
    }
    fresh
}
/// solver-chosen pending source
pub fn pick() -> Option<usize> {
    let w = world();
    let n = w.s.iter().filter(|s| s.blocked).count();
    if n == 0 {
        return None;
    }
    let mut k = choose(n);
    for i in 0..NS {
        if w.s[i].blocked {
            if k == 0 {
                return Some(i);
            }
            k -= 1;
        }
    }
    None
}

#[derive(Clone, Copy, PartialEq)]
pub enum Strict {
    /// a source registered in the last poll must wake the task
    Fresh,
    /// any pending source must wake the task
    All,
    /// the last pending source must have woken the task
    Last,
}
pub struct Drv {
    pub k: usize,
    pub switches: u32,
    pub strict: Strict,
    pub npolls: u32,
    pub base: usize,
    /// sources whose events must always wake the task
    pub must: u32,
}
impl Drv {
    pub fn new(switches: usize) -> Self {
        Drv { k: 0, switches: switches as u32, strict: Strict::Fresh, npolls: 0, base: 0, must: 0 }
    }
    pub fn must(mut self, m: u32) -> Self {
        self.must = m;
        self
    }
    pub fn strict(mut self, s: Strict) -> Self {
        self.strict = s;
        self
    }
    pub fn poll<T>(&mut self, f: impl FnOnce(&mut Context<'_>) -> Poll<T>) -> Poll<T> {
        let w = waker(self.base + self.k);
        clear_woken(self.base + self.k);
        world().epoch += 1;
        world().spin = 0;
        self.npolls += 1;
        check(self.npolls < 64, "operation makes no progress");
        f(&mut Context::from_waker(&w))
    }
    /// called after Pending: let the environment act until the task is woken
    pub fn settle(&mut self) {
        let id = self.base + self.k;
        if woken(id) {
            return;
        }
        check(any_blocked(), "pending with nothing left to wake the task");
        if self.switches > 0 && flip() {
            self.switches -= 1;
            self.k ^= 1;
            return;
        }
        loop {
            match pick() {
                None => {
                    check(false, "task never woken: wake-up lost");
                    return;
                }
                Some(i) => {
                    let fresh = fire(i);
                    if woken(id) {
                        return;
                    }
                    check(self.must >> i & 1 == 0, "event did not wake the latest waker");
                    match self.strict {
                        Strict::All => check(false, "event did not wake the latest waker"),
                        Strict::Fresh => check(!fresh, "event registered by the last poll did not wake the latest waker"),
                        Strict::Last => {}
                    }
                }
            }
        }
    }
    pub fn drive<T>(&mut self, mut f: impl FnMut(&mut Context<'_>) -> Poll<T>) -> T {
        loop {
            match self.poll(&mut f) {
                Poll::Ready(v) => return v,
                Poll::Pending => self.settle(),
            }
        }
    }
    /// drive a future; after every Pending run `inv`, then possibly cancel (None)
    pub fn fut_or_cancel<F: Future + ?Sized>(&mut self, f: &mut Pin<Box<F>>, cancel: bool, mut inv: impl FnMut()) -> Option<F::Output> {
        loop {
            match self.poll(|cx| f.as_mut().poll(cx)) {
                Poll::Ready(v) => return Some(v),
                Poll::Pending => {
                    inv();
                    if cancel && flip() {
                        return None;
                    }
                    self.settle()
                }
            }
        }
    }
    pub fn fut<F: Future + Unpin>(&mut self, f: &mut F) -> F::Output {
        self.drive(|cx| Pin::new(&mut *f).poll(cx))
    }
    /// next item; `inv(waker id)` after every Pending; None = cancelled
    pub fn next_inv<S: Stream + ?Sized>(&mut self, s: &mut Pin<Box<S>>, mut inv: impl FnMut(bool)) -> Option<S::Item> {
        loop {
            match self.poll(|cx| s.as_mut().poll_next(cx)) {
                Poll::Ready(v) => return v,
                Poll::Pending => {
                    inv(woken(self.base + self.k));
                    self.settle()
                }
            }
        }
    }
    pub fn next<S: Stream + Unpin>(&mut self, s: &mut S) -> Option<S::Item> {
        self.drive(|cx| Pin::new(&mut *s).poll_next(cx))
    }
    pub fn all<S: Stream + Unpin>(&mut self, s: &mut S) -> Vec<S::Item> {
        let mut v = Vec::new();
        while let Some(x) = self.next(s) {
            v.push(x);
            check(v.len() < 32, "stream yields too many items");
        }
        v
    }
}
/// run a future in the symbolic environment
pub fn go<F: Future>(sw: usize, f: F) -> F::Output {
    let mut f = Box::pin(f);
    Drv::new(sw).fut(&mut f)
}
pub fn go_all<S: Stream>(sw: usize, s: S) -> Vec<S::Item> {
    let mut s = Box::pin(s);
    Drv::new(sw).all(&mut s)
}
/// run a scenario: nothing it allocates and no waker outlives it
pub fn scene(budget: usize, f: impl FnOnce()) {
    let base = live();
    init(budget);
    if panicky() {
        for i in 0..50 {
            gset(200 + i, 0)
        }
        let r = catch(f);
        check(r.is_ok() || !world().boom, "panic out of nowhere");
        all_dropped(50);
    } else {
        f();
    }
    fini();
    no_wakers_held();
    check(live() == base, "memory leaked");
}
/// no waker of the harness is still held by anybody
pub fn no_wakers_held() {
    for i in 0..4 {
        check(clones(i) == 0, "waker leaked");
    }
}

// ---- drop-counted values (ids < 50)
#[derive(Debug)]
pub struct Tk(pub u8, pub usize);
pub fn tk(v: u8, id: usize) -> Tk {
    gset(200 + id as u64, 1);
    Tk(v, id)
}
impl Drop for Tk {
    fn drop(&mut self) {
        let n = gget(200 + self.1 as u64);
        check(n == 1, "value dropped twice");
        gset(200 + self.1 as u64, 2);
    }
}
pub fn alive(id: usize) -> bool {
    gget(200 + id as u64) == 1
}
pub fn dropped(id: usize) -> bool {
    gget(200 + id as u64) == 2
}
impl PartialEq for Tk {
    fn eq(&self, o: &Tk) -> bool {
        self.0 == o.0 && self.1 == o.1
    }
}

// ---- scripted future
pub struct Fut<T> {
    pub id: usize,
    pub v: Option<T>,
}
pub fn fut<T>(id: usize, v: T) -> Fut<T> {
    gset(120 + id as u64, 0);
    gset(160 + id as u64, 0);
    Fut { id, v: Some(v) }
}
impl<T> Unpin for Fut<T> {}
impl<T> Future for Fut<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        check(self.v.is_some(), "future polled after completion");
        if pend(self.id, cx) {
            return Poll::Pending;
        }
        gset(120 + self.id as u64, 1);
        Poll::Ready(self.v.take().unwrap())
    }
}
impl<T> futures::future::FusedFuture for Fut<T> {
    fn is_terminated(&self) -> bool {
        self.v.is_none()
    }
}
impl<T> Drop for Fut<T> {
    fn drop(&mut self) {
        gset(160 + self.id as u64, 1);
        retire(self.id)
    }
}
/// polls seen and done flag, visible from outside
pub fn done(id: usize) -> bool {
    gget(120 + id as u64) & 1 != 0
}
/// items source id has handed out
pub fn pulled(id: usize) -> usize {
    gget(140 + id as u64) as usize
}
pub fn src_dropped(id: usize) -> bool {
    gget(160 + id as u64) != 0
}

// ---- scripted stream
pub struct Src<T> {
    pub id: usize,
    pub q: VecDeque<T>,
    pub done: bool,
    pub hint: u8,
    /// reports termination as soon as nothing is left
    pub early: bool,
}
impl<T> Unpin for Src<T> {}
pub fn src<T>(id: usize, v: impl IntoIterator<Item = T>) -> Src<T> {
    world().used |= 1 << id;
    gset(120 + id as u64, 0);
    gset(140 + id as u64, 0);
    gset(160 + id as u64, 0);
    Src { id, q: v.into_iter().collect(), done: false, hint: 0, early: false }
}
impl<T> Src<T> {
    pub fn early(mut self, e: bool) -> Self {
        self.early = e;
        self
    }
    pub fn hint(mut self, h: u8) -> Self {
        self.hint = h;
        self
    }
}
impl<T> Stream for Src<T> {
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        check(!self.done, "stream polled after its end");
        if !(self.early && self.q.is_empty()) && pend(self.id, cx) {
            return Poll::Pending;
        }
        match self.q.pop_front() {
            Some(x) => {
                gadd(140 + self.id as u64, 1);
                Poll::Ready(Some(x))
            }
            None => {
                self.done = true;
                gset(120 + self.id as u64, 1);
                Poll::Ready(None)
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.q.len();
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, Some(n + 1)),
            2 => (n, None),
            3 => (n / 2, Some(usize::MAX)),
            _ => (0, None),
        }
    }
}
impl<T> FusedStream for Src<T> {
    fn is_terminated(&self) -> bool {
        self.done || self.early && self.q.is_empty()
    }
}
impl<T> Drop for Src<T> {
    fn drop(&mut self) {
        gset(160 + self.id as u64, 1);
        retire(self.id)
    }
}

// ---- scripted sink: events go to a shared log
pub struct Snk<T> {
    pub id: usize,
    pub got: std::rc::Rc<std::cell::RefCell<SinkLog<T>>>,
    pub ready: bool,
}
pub struct SinkLog<T> {
    pub items: Vec<T>,
    /// items accepted and not flushed yet
    pub unflushed: usize,
    pub flushes: u32,
    pub closed: bool,
    /// poll_close has been called; nothing else may follow if `final_close`
    pub closing: bool,
    pub final_close: bool,
    pub cap: usize,
    /// number of calls after which an error is returned (u32::MAX: never)
    pub fail_at: u32,
    pub calls: u32,
    pub failed: bool,
    /// calls after an error are allowed, and succeed
    pub after: bool,
    pub err: u8,
}
pub type Log<T> = std::rc::Rc<std::cell::RefCell<SinkLog<T>>>;
impl<T> Unpin for Snk<T> {}
impl<T> std::fmt::Debug for Snk<T> {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
pub fn snk<T>(id: usize) -> (Snk<T>, Log<T>) {
    let l = std::rc::Rc::new(std::cell::RefCell::new(SinkLog {
        items: Vec::new(),
        unflushed: 0,
        flushes: 0,
        closed: false,
        closing: false,
        final_close: false,
        cap: 8,
        fail_at: u32::MAX,
        calls: 0,
        failed: false,
        after: false,
        err: 0,
    }));
    (Snk { id, got: l.clone(), ready: false }, l)
}
impl<T> Snk<T> {
    fn fault(&self) -> Result<(), u8> {
        let mut l = self.got.borrow_mut();
        l.calls += 1;
        if l.calls > l.fail_at && !l.after {
            l.failed = true;
            return Err(l.err);
        }
        Ok(())
    }
}
impl<T> Sink<T> for Snk<T> {
    type Error = u8;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u8>> {
        check(!self.got.borrow().closed, "sink used after close");
        { let l = self.got.borrow(); check(!l.closing || !l.final_close, "sink used after its close began"); }
        { let l = self.got.borrow(); check(!l.failed || l.after, "sink used after its error"); }
        if pend(self.id, cx) {
            return Poll::Pending;
        }
        self.fault()?;
        self.ready = true;
        Poll::Ready(Ok(()))
    }
    fn start_send(mut self: Pin<&mut Self>, x: T) -> Result<(), u8> {
        check(self.ready, "start_send without poll_ready");
        self.ready = false;
        self.fault()?;
        let mut l = self.got.borrow_mut();
        l.items.push(x);
        l.unflushed += 1;
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u8>> {
        { let l = self.got.borrow(); check(!l.failed || l.after, "sink used after its error"); }
        check(!self.got.borrow().closed, "sink flushed after close");
        { let l = self.got.borrow(); check(!l.closing || !l.final_close, "sink flushed after its close began"); }
        if pend(self.id, cx) {
            return Poll::Pending;
        }
        self.fault()?;
        let mut l = self.got.borrow_mut();
        l.unflushed = 0;
        l.flushes += 1;
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), u8>> {
        if self.got.borrow().closed {
            return Poll::Ready(Ok(()));
        }
        self.got.borrow_mut().closing = true;
        if pend(self.id, cx) {
            return Poll::Pending;
        }
        self.fault()?;
        let mut l = self.got.borrow_mut();
        l.unflushed = 0;
        l.closed = true;
        Poll::Ready(Ok(()))
    }
}
impl<T> Drop for Snk<T> {
    fn drop(&mut self) {
        retire(self.id)
    }
}
/// every value with id < n has been dropped
pub fn all_dropped(n: usize) {
    for i in 0..n {
        check(!alive(i), "value leaked");
    }
}

// ---- is_terminated of a value of concrete type, if it has one: `(&W(&x)).term()`
pub struct W<'a, T: ?Sized>(pub &'a T);
pub trait TermYes {
    fn term(&self) -> Option<bool>;
}
impl<T: futures::future::FusedFuture + ?Sized> TermYes for W<'_, T> {
    fn term(&self) -> Option<bool> {
        Some(self.0.is_terminated())
    }
}
pub trait TermNo {
    fn term(&self) -> Option<bool>;
}
impl<T: ?Sized> TermNo for &W<'_, T> {
    fn term(&self) -> Option<bool> {
        None
    }
}
/// sources that report their end as soon as they are drained
pub fn early() -> bool {
    param(2) & 2 != 0
}
pub fn on<T>(v: &T, f: impl FnOnce(&T) -> bool) -> bool {
    f(v)
}
/// drive to completion (None: cancelled); the termination flag is set exactly at the end
#[macro_export]
macro_rules! fin {
    ($d:expr, $f:expr, $cancel:expr, $inv:expr) => { $crate::fin!($d, $f, $cancel, $inv, |_| true) };
    // the last argument tells for which results the flag must be set
    ($d:expr, $f:expr, $cancel:expr, $inv:expr, $must:expr) => {{
        #[allow(unused_imports)]
        use $crate::ctl::{TermNo, TermYes};
        let mut x = Box::pin($f);
        let mut d = $d;
        let mut inv = $inv;
        // a source that ends as soon as it is drained may be passed on as such
        let fwd = $crate::ctl::early();
        $crate::rt::check(fwd || (&$crate::ctl::W(&*x)).term() != Some(true), "is_terminated before the end");
        loop {
            match d.poll(|cx| std::future::Future::poll(x.as_mut(), cx)) {
                std::task::Poll::Ready(v) => {
                    let must = $crate::ctl::on(&v, $must);
                    $crate::rt::check(!must || (&$crate::ctl::W(&*x)).term() != Some(false), "is_terminated not set at the end");
                    break Some(v);
                }
                std::task::Poll::Pending => {
                    $crate::rt::check(fwd || (&$crate::ctl::W(&*x)).term() != Some(true), "is_terminated while pending");
                    inv();
                    if $cancel && $crate::rt::flip() { break None }
                    d.settle()
                }
            }
        }
    }};
}
