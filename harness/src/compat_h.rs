//! The 0.1 compatibility layer, as round trips 0.3 -> 0.1 -> 0.3.
use crate::ctl::*;
use crate::harness;
use crate::rt::*;
use futures::compat::*;
use futures::future::{FutureExt, TryFutureExt};
use futures::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use futures::sink::{Sink, SinkExt};
use futures::stream::{Stream, TryStreamExt};
use futures::task::{Spawn, SpawnExt};
use std::cell::RefCell;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

struct Rw {
    d: Vec<u8>,
    out: Rc<RefCell<(Vec<u8>, bool, bool)>>,
    fail: usize,
}
impl AsyncRead for Rw {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        if pend(0, cx) { return Poll::Pending }
        if self.fail == 1 { self.fail = 0; return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())) }
        let n = b.len().min(self.d.len());
        for i in 0..n { b[i] = self.d.remove(0) }
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Rw {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        if pend(0, cx) { return Poll::Pending }
        if self.fail == 2 { self.fail = 0; return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())) }
        let n = 1 + choose(b.len());
        self.out.borrow_mut().0.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if pend(0, cx) { return Poll::Pending }
        if self.fail == 3 { self.fail = 0; return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())) }
        self.out.borrow_mut().1 = true;
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if pend(0, cx) { return Poll::Pending }
        if self.fail == 4 { self.fail = 0; return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())) }
        self.out.borrow_mut().2 = true;
        Poll::Ready(Ok(()))
    }
}
impl Drop for Rw { fn drop(&mut self) { retire(0) } }

fn trip(kind: usize) {
    scene(param(0), || {
        let n = choose(param(3) + 1);
        let v = [sym8(), sym8(), sym8()];
        let cancel = param(2) != 0;
        self_waking(true);
        let mut d = Drv::new(param(1)).strict(Strict::All);
        match kind {
            0 => {
                let bad = flip();
                let r = if bad { Err(tk(v[0], 0)) } else { Ok(tk(v[0], 0)) };
                let mut f = Box::pin(fut(0, r).compat().compat());
                match d.fut_or_cancel(&mut f, cancel, || ()) {
                    None => cover(40),
                    Some(Ok(t)) => check(!bad && t.0 == v[0] && t.1 == 0, "wrong output"),
                    Some(Err(t)) => { check(bad && t.0 == v[0] && t.1 == 0, "wrong error"); cover(41) }
                }
            }
            1 => {
                let bad = choose(4);
                let it: Vec<Result<Tk, Tk>> = (0..n).map(|i| if i == bad { Err(tk(v[i], i)) } else { Ok(tk(v[i], i)) }).collect();
                let mut s = Box::pin(Stream01CompatExt::compat(TryStreamExt::compat(src(0, it))));
                let mut i = 0;
                loop {
                    match d.next(&mut s) {
                        Some(Ok(t)) => check(i != bad && i < n && t.0 == v[i] && t.1 == i, "wrong item"),
                        Some(Err(t)) => { check(i == bad && i < n && t.0 == v[i] && t.1 == i, "wrong error"); cover(41) }
                        None => { check(i == n, "ended early"); break }
                    }
                    i += 1;
                    if cancel && flip() { cover(40); break }
                }
            }
            2 => {
                let (k, log) = snk::<Tk>(0);
                let fail = choose(7);
                let e = sym8();
                { let mut l = log.borrow_mut(); l.fail_at = if fail == 6 { u32::MAX } else { fail as u32 }; l.err = e; l.final_close = true }
                let mut s = Box::pin(SinkExt::compat(k).sink_compat());
                let mut sent = 0;
                let mut over = false;
                let ok = |r: Result<(), u8>| { if let Err(x) = r { check(x == e && log.borrow().failed, "wrong error"); cover(41) } else { check(!log.borrow().failed, "error swallowed") } r.is_ok() };
                for _ in 0..n {
                    let r = d.drive(|cx| s.as_mut().poll_ready(cx));
                    if !ok(r) { over = true; break }
                    let r = s.as_mut().start_send(tk(v[sent], sent));
                    if !ok(r) { over = true; break }
                    sent += 1;
                    check(log.borrow().items.len() + 1 >= sent, "more than one item held back");
                    if flip() {
                        let r = d.drive(|cx| s.as_mut().poll_flush(cx));
                        if !ok(r) { over = true; break }
                        check(log.borrow().items.len() == sent && log.borrow().unflushed == 0, "flushed with items left");
                        cover(42);
                    }
                    if cancel && flip() { over = true; cover(40); break }
                }
                if !over {
                    let r = d.drive(|cx| s.as_mut().poll_close(cx));
                    if ok(r) { let l = log.borrow(); check(l.closed && l.items.len() == sent && l.unflushed == 0, "closed with items left"); cover(43) }
                }
                {
                    let l = log.borrow();
                    for (i, t) in l.items.iter().enumerate() { check(t.0 == v[i] && t.1 == i, "wrong item") }
                }
                drop(s);
                log.borrow_mut().items.clear();
            }
            3 => {
                // io objects
                let fail = choose(5);
                let out = Rc::new(RefCell::new((Vec::new(), false, false)));
                let io = Rw { d: v[..n].to_vec(), out: out.clone(), fail };
                let mut s = AsyncRead01CompatExt::compat(AsyncReadExt::compat(io));
                let mut got = Vec::new();
                loop {
                    let mut b = [0u8; 2];
                    let l = 1 + choose(2);
                    match d.drive(|cx| Pin::new(&mut s).poll_read(cx, &mut b[..l])) {
                        Ok(0) => break,
                        Ok(k) => got.extend_from_slice(&b[..k]),
                        Err(e) => { check(fail == 1 && e.kind() == io::ErrorKind::BrokenPipe, "wrong error"); cover(41); return }
                    }
                }
                check(fail != 1 && got == v[..n], "bytes lost");
                let r = d.drive(|cx| Pin::new(&mut s).poll_write(cx, &v[..2]));
                match r { Ok(k) => check(fail != 2 && k >= 1 && out.borrow().0 == v[..k], "bytes lost"), Err(e) => { check(fail == 2 && e.kind() == io::ErrorKind::BrokenPipe, "wrong error"); return } }
                match d.drive(|cx| Pin::new(&mut s).poll_flush(cx)) { Ok(()) => check(fail != 3 && out.borrow().1, "not flushed"), Err(_) => { check(fail == 3, "wrong error"); return } }
                match d.drive(|cx| Pin::new(&mut s).poll_close(cx)) { Ok(()) => check(fail != 4 && out.borrow().2, "not closed"), Err(_) => { check(fail == 4, "wrong error"); return } }
                cover(42);
            }
            _ => {
                // executors: a 0.3 spawner as a 0.1 executor as a 0.3 spawner
                let sp = Q::default();
                let ex = SpawnExt::compat(sp.clone());
                let ex = Ex(Rc::new(ex));
                let f = fut(0, tk(v[0], 0)).map(drop);
                let s2 = Executor01CompatExt::compat(SendEx(std::mem::ManuallyDrop::new(ex.0.clone())));
                check(s2.spawn_obj(futures::future::FutureObj::new(Box::new(f))).is_ok(), "spawn refused");
                let mut t = sp.0.borrow_mut().pop().unwrap();
                check(sp.0.borrow().is_empty(), "spawned twice");
                d.fut(&mut t);
                check(!alive(0), "task not run");
                drop(t);
                drop(s2);
                unsafe { Rc::decrement_strong_count(Rc::as_ptr(&ex.0)) }
            }
        }
        for i in 0..4 { check(!alive(i), "value leaked") }
        cover(kind as u64);
    })
}
#[derive(Default, Clone)]
struct Q(Rc<RefCell<Vec<futures::future::FutureObj<'static, ()>>>>);
impl Spawn for Q {
    fn spawn_obj(&self, f: futures::future::FutureObj<'static, ()>) -> Result<(), futures::task::SpawnError> {
        self.0.borrow_mut().push(f);
        Ok(())
    }
}
struct Ex(Rc<Compat<Q>>);
/// single-threaded here, the trait wants Send
struct SendEx(std::mem::ManuallyDrop<Rc<Compat<Q>>>);
unsafe impl Send for SendEx {}
impl Clone for SendEx { fn clone(&self) -> Self { SendEx(self.0.clone()) } }
impl futures_01::future::Executor<futures::compat::Executor01Future> for SendEx {
    fn execute(&self, f: futures::compat::Executor01Future) -> Result<(), futures_01::future::ExecuteError<futures::compat::Executor01Future>> {
        (**self.0).execute(f)
    }
}
harness! {
fn h_compat() { trip(param(4)) }
}
