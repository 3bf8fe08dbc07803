//! The test utilities of futures-test.
use crate::ctl::*;
use crate::harness;
use crate::rt::*;
use futures::future::{FusedFuture, FutureExt, FutureObj};
use futures::io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite, IoSlice, IoSliceMut, SeekFrom};
use futures::sink::Sink;
use futures::stream::{FusedStream, Stream};
use futures::task::{Spawn, SpawnExt};
use futures_test::future::FutureTestExt;
use futures_test::io::{AsyncReadTestExt, AsyncWriteTestExt};
use futures_test::sink::SinkTestExt;
use futures_test::stream::StreamTestExt;
use futures_test::task::*;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll};

/// reader and writer over 3 symbolic bytes that stays pending now and then
struct Io {
    d: [u8; 3],
    pos: usize,
    out: Vec<u8>,
    vec: u8,
    flushed: bool,
    closed: bool,
    calls: u32,
    closes_fail: bool,
}
impl Io {
    fn new(d: [u8; 3]) -> Self {
        Io { d, pos: 0, out: Vec::new(), vec: 0, flushed: false, closed: false, calls: 0, closes_fail: false }
    }
}
impl AsyncRead for Io {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        self.calls += 1;
        if pend(0, cx) { return Poll::Pending }
        let n = b.len().min(3 - self.pos);
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Poll::Ready(Ok(n))
    }
    fn poll_read_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [IoSliceMut<'_>]) -> Poll<io::Result<usize>> {
        self.vec = b.len() as u8;
        let mut n = 0;
        if b.len() > 0 { match self.poll_read(cx, &mut b[0]) { Poll::Ready(Ok(k)) => n = k, x => return x } }
        Poll::Ready(Ok(n))
    }
}
impl AsyncBufRead for Io {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let s = self.get_mut();
        s.calls += 1;
        if pend(0, cx) { return Poll::Pending }
        Poll::Ready(Ok(&s.d[s.pos..]))
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) { self.pos += n }
}
impl AsyncWrite for Io {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        self.calls += 1;
        if pend(0, cx) { return Poll::Pending }
        self.out.extend_from_slice(b);
        Poll::Ready(Ok(b.len()))
    }
    fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
        self.vec = b.len() as u8;
        let mut n = 0;
        if b.len() > 0 { match self.poll_write(cx, &b[0]) { Poll::Ready(Ok(k)) => n = k, x => return x } }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.calls += 1;
        if pend(0, cx) { return Poll::Pending }
        self.flushed = true;
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.calls += 1;
        if pend(0, cx) { return Poll::Pending }
        if self.closes_fail { self.closes_fail = false; return Poll::Ready(Err(io::ErrorKind::Other.into())) }
        self.closed = true;
        Poll::Ready(Ok(()))
    }
}
impl AsyncSeek for Io {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, p: SeekFrom) -> Poll<io::Result<u64>> {
        self.calls += 1;
        if pend(0, cx) { return Poll::Pending }
        if let SeekFrom::Start(n) = p { self.pos = n as usize }
        Poll::Ready(Ok(self.pos as u64))
    }
}
impl Drop for Io { fn drop(&mut self) { retire(0) } }

/// one operation on an io object; the result as a number
fn io_op<T: AsyncRead + AsyncBufRead + AsyncWrite + AsyncSeek>(s: &mut Pin<Box<T>>, op: usize, len: usize, cx: &mut Context<'_>) -> Poll<usize> {
    let mut b = [0u8; 3];
    let s = s.as_mut();
    match op {
        0 => s.poll_read(cx, &mut b[..len]).map(|r| r.unwrap() + 16 * b[0] as usize),
        1 => { let (x, y) = b.split_at_mut(len); s.poll_read_vectored(cx, &mut [IoSliceMut::new(x), IoSliceMut::new(y)]).map(|r| r.unwrap() + 16 * b[0] as usize) }
        2 => s.poll_write(cx, &[1, 2, 3][..len]).map(|r| r.unwrap()),
        3 => s.poll_write_vectored(cx, &[IoSlice::new(&[1, 2, 3][..len]), IoSlice::new(&[4])]).map(|r| r.unwrap()),
        4 => s.poll_flush(cx).map(|r| { r.unwrap(); 0 }),
        5 => s.poll_close(cx).map(|r| { r.unwrap(); 0 }),
        6 => s.poll_seek(cx, SeekFrom::Start(len as u64)).map(|r| r.unwrap() as usize),
        _ => s.poll_fill_buf(cx).map(|r| { let r = r.unwrap(); r.len() + 16 * r.first().copied().unwrap_or(0) as usize }),
    }
}
/// the object without wrapper gives the same results
fn io_expect(m: &mut Io, op: usize, len: usize) -> usize {
    match op {
        0 | 1 => { let n = len.min(3 - m.pos); let r = n + if n > 0 { 16 * m.d[m.pos] as usize } else { 0 }; m.pos += n; r }
        2 | 3 => { m.out.extend_from_slice(&[1, 2, 3][..len]); len }
        4 => { m.flushed = true; 0 }
        5 => { m.closed = true; 0 }
        6 => { m.pos = len; len }
        _ => 3 - m.pos + if m.pos < 3 { 16 * m.d[m.pos] as usize } else { 0 },
    }
}
fn same(a: &Io, b: &Io) {
    check(a.pos == b.pos && a.out == b.out && a.flushed == b.flushed && a.closed == b.closed, "operation not forwarded");
}

fn utils(kind: usize) {
    scene(param(0), || {
        let v = [sym8(), sym8(), sym8()];
        let n = choose(3);
        match kind {
            0 => {
                // interleave_pending on a future
                let mut f = Box::pin(fut(0, tk(v[0], 0)).interleave_pending());
                let mut d = Drv::new(param(1));
                check(d.poll(|cx| f.as_mut().poll(cx)).is_pending() && woken(d.base + d.k) && polls(0) == 0, "first poll reaches the future or does not wake");
                check(!f.is_terminated(), "terminated early");
                let t = d.fut(&mut f);
                check(t.0 == v[0] && t.1 == 0, "wrong output");
                check(f.is_terminated(), "is_terminated not forwarded");
            }
            1 => {
                // interleave_pending on a stream: one extra pending before every item and the end
                let h = choose(5) as u8;
                let mut s = Box::pin(src(0, (0..n).map(|i| tk(v[i], i)).collect::<Vec<_>>()).hint(h).interleave_pending());
                let mut d = Drv::new(param(1));
                for i in 0..=n {
                    check(s.size_hint() == s.get_ref().size_hint() && s.is_terminated() == s.get_ref().is_terminated(), "size_hint or is_terminated not forwarded");
                    let p = polls(0);
                    check(d.poll(|cx| s.as_mut().poll_next(cx)).is_pending() && woken(d.base + d.k) && polls(0) == p, "no pending between items");
                    // from here on each poll goes to the source
                    let r = loop {
                        let p = polls(0);
                        let r = d.poll(|cx| s.as_mut().poll_next(cx));
                        check(polls(0) == p + 1, "second artificial pending");
                        match r { Poll::Ready(x) => break x, Poll::Pending => d.settle() }
                    };
                    match r { Some(t) => check(i < n && t.0 == v[i] && t.1 == i, "wrong item"), None => check(i == n, "ended early") }
                }
            }
            2 => {
                // sinks
                let (k, log) = snk::<Tk>(0);
                let mut s = Box::pin(k.interleave_pending_sink());
                let mut d = Drv::new(param(1));
                for i in 0..n {
                    let p = polls(0);
                    check(d.poll(|cx| s.as_mut().poll_ready(cx)).is_pending() && woken(d.base + d.k) && polls(0) == p, "no pending");
                    check(d.drive(|cx| s.as_mut().poll_ready(cx)) == Ok(()), "error");
                    check(s.as_mut().start_send(tk(v[i], i)).is_ok(), "error");
                    check(log.borrow().items.len() == i + 1, "item not forwarded at once");
                    if flip() { check(d.drive(|cx| s.as_mut().poll_flush(cx)) == Ok(()) && log.borrow().unflushed == 0, "flush") }
                }
                let p = polls(0);
                check(d.poll(|cx| s.as_mut().poll_close(cx)).is_pending() && polls(0) == p, "no pending");
                check(d.drive(|cx| s.as_mut().poll_close(cx)) == Ok(()) && log.borrow().closed, "close");
                log.borrow_mut().items.clear();
            }
            3 => {
                // io objects: one artificial pending per operation, everything forwarded
                let mut s = Box::pin(AsyncReadTestExt::interleave_pending(Io::new(v)));
                let mut m = Io::new(v);
                let mut d = Drv::new(param(1));
                for _ in 0..2 {
                    let (op, len) = (choose(8), 1 + choose(2));
                    let c = s.get_ref().calls;
                    check(d.poll(|cx| io_op(&mut s, op, len, cx)).is_pending() && woken(d.base + d.k) && s.get_ref().calls == c, "no pending");
                    let r = d.drive(|cx| io_op(&mut s, op, len, cx));
                    check(r == io_expect(&mut m, op, len), "wrong result");
                    if op == 1 || op == 3 { check(s.get_ref().vec == 2, "vectored call not forwarded") }
                    if op == 7 && m.pos < 3 && flip() { s.as_mut().consume(1); m.pos += 1 }
                    same(s.get_ref(), &m);
                }
                cover(50);
            }
            4 => {
                // limited: at most `limit` bytes per call
                let limit = sym8() as usize % 4;
                let limit = conc(limit as u64) as usize;
                let mut s = Box::pin(AsyncReadTestExt::limited(Io::new(v), limit));
                let mut m = Io::new(v);
                let mut d = Drv::new(param(1)).strict(Strict::All);
                for _ in 0..2 {
                    let (op, len) = (choose(5), choose(4));
                    let mut b = [0u8; 3];
                    match op {
                        0 => { let k = d.drive(|cx| s.as_mut().poll_read(cx, &mut b[..len])).unwrap(); let e = len.min(limit).min(3 - m.pos); check(k == e && b[..k] == m.d[m.pos..m.pos + k], "limited read"); m.pos += k }
                        1 => { let k = d.drive(|cx| s.as_mut().poll_write(cx, &[1, 2, 3][..len])).unwrap(); check(k == len.min(limit), "limited write"); m.out.extend_from_slice(&[1, 2, 3][..k]) }
                        2 => { check(d.drive(|cx| s.as_mut().poll_flush(cx)).is_ok(), "flush"); m.flushed = true }
                        3 => { check(d.drive(|cx| s.as_mut().poll_close(cx)).is_ok(), "close"); m.closed = true }
                        _ => {
                            let b = d.drive(|cx| s.as_mut().poll_fill_buf(cx).map(|r| r.map(|b| b.to_vec()))).unwrap();
                            check(b == m.d[m.pos..], "limited fill_buf");
                            let k = len.min(b.len());
                            s.as_mut().consume(k);
                            m.pos += k;
                        }
                    }
                    same(s.get_ref(), &m);
                }
            }
            5 => {
                // assert_unmoved: panics exactly when the object was polled, moved, and used again
                let mut a = Some(fut(0, tk(v[0], 0)).assert_unmoved());
                let mut d = Drv::new(0);
                let (p1, mv) = (flip(), flip());
                let mut x = Box::new(a.take().unwrap());
                if p1 { let r = d.poll(|cx| unsafe { Pin::new_unchecked(&mut *x) }.poll(cx)); if r.is_ready() { return } }
                let mut y = if mv { Box::new(*x) } else { x };
                let r = catch(|| { let _ = d.poll(|cx| unsafe { Pin::new_unchecked(&mut *y) }.poll(cx)); });
                check(r.is_err() == (p1 && mv), "a move is reported exactly when it happened after the first poll");
                cover(50 + (p1 && mv) as u64);
                // dropping a moved object panics too
                let r = catch(move || drop(y));
                check(r.is_err() == (p1 && mv), "moved before drop");
            }
            6 => {
                // assert_unmoved forwards
                let mut s = Box::pin(AsyncReadTestExt::assert_unmoved(Io::new(v)));
                let mut m = Io::new(v);
                let mut d = Drv::new(param(1)).strict(Strict::All);
                for _ in 0..2 {
                    let (op, len) = (choose(8), 1 + choose(2));
                    let r = d.drive(|cx| io_op(&mut s, op, len, cx));
                    check(r == io_expect(&mut m, op, len), "wrong result");
                    if op == 7 && m.pos < 3 { s.as_mut().consume(1); m.pos += 1 }
                }
                let mut s = Box::pin(src(1, (0..n).map(|i| tk(v[i], i)).collect::<Vec<_>>()).assert_unmoved());
                for i in 0..n { let t = d.next(&mut s).unwrap(); check(t.0 == v[i] && t.1 == i, "wrong item") }
                check(d.next(&mut s).is_none() && s.is_terminated(), "end");
                let (k, log) = snk::<Tk>(2);
                let mut s = Box::pin(k.assert_unmoved_sink());
                check(d.drive(|cx| s.as_mut().poll_ready(cx)) == Ok(()) && s.as_mut().start_send(tk(v[0], 9)).is_ok() && d.drive(|cx| s.as_mut().poll_flush(cx)) == Ok(()) && log.borrow().unflushed == 0, "sink");
                check(d.drive(|cx| s.as_mut().poll_close(cx)) == Ok(()) && log.borrow().closed, "close");
                log.borrow_mut().items.clear();
            }
            7 => {
                // track_closed on a writer: closed exactly after a successful close; nothing passes afterwards
                let mut io = Io::new(v);
                let bad = flip();
                io.closes_fail = bad;
                let mut s = Box::pin(AsyncWriteTestExt::track_closed(io));
                let mut d = Drv::new(param(1)).strict(Strict::All);
                for _ in 0..3 {
                    let was = s.get_ref().closed;
                    check(s.is_closed() == was, "is_closed");
                    let c = s.get_ref().calls;
                    let ok = match choose(4) {
                        0 => d.drive(|cx| s.as_mut().poll_write(cx, &[7])).is_ok(),
                        1 => d.drive(|cx| s.as_mut().poll_write_vectored(cx, &[IoSlice::new(&[7])])).is_ok(),
                        2 => d.drive(|cx| s.as_mut().poll_flush(cx)).is_ok(),
                        _ => { let r = d.drive(|cx| s.as_mut().poll_close(cx)).is_ok(); if !was { check(s.is_closed() == r, "is_closed after close") } r }
                    };
                    if was { check(!ok && s.get_ref().calls == c, "used after close"); cover(50) }
                    else { check(s.get_ref().calls > c && (ok || bad && !s.get_ref().closes_fail), "open writer refused") }
                    check(s.is_closed() == s.get_ref().closed, "is_closed");
                }
            }
            8 => {
                let (k, log) = snk::<Tk>(0);
                log.borrow_mut().fail_at = choose(4) as u32;
                let mut s = Box::pin(SinkTestExt::<Tk>::track_closed(k));
                let mut d = Drv::new(param(1)).strict(Strict::All);
                if d.drive(|cx| s.as_mut().poll_ready(cx)).is_err() { return }
                if s.as_mut().start_send(tk(v[0], 0)).is_err() { return }
                check(!s.is_closed(), "is_closed");
                if flip() { let r = d.drive(|cx| s.as_mut().poll_flush(cx)); check(r.is_err() == log.borrow().failed && (r.is_err() || log.borrow().unflushed == 0), "flush"); if r.is_err() { return } }
                let r = d.drive(|cx| s.as_mut().poll_close(cx));
                check(r.is_ok() == log.borrow().closed && s.is_closed() == r.is_ok(), "is_closed");
                if r.is_ok() {
                    let w = waker(2);
                    check(catch(|| { let _ = s.as_mut().poll_ready(&mut Context::from_waker(&w)); }).is_err(), "poll_ready after close");
                    check(catch(|| { let _ = Sink::<Tk>::poll_flush(s.as_mut(), &mut Context::from_waker(&w)); }).is_err(), "poll_flush after close");
                    check(catch(|| { let _ = Sink::<Tk>::poll_close(s.as_mut(), &mut Context::from_waker(&w)); }).is_err(), "poll_close after close");
                    cover(50);
                }
                log.borrow_mut().items.clear();
            }
            9 => {
                let mut f = Box::pin(fut(0, tk(v[0], 0)).pending_once());
                let mut d = Drv::new(param(1));
                check(!f.is_terminated(), "terminated early");
                check(d.poll(|cx| f.as_mut().poll(cx)).is_pending() && woken(d.base + d.k) && polls(0) == 0, "first poll");
                check(!f.is_terminated(), "terminated early");
                let mut d = d.strict(Strict::All);
                let t = d.fut(&mut f);
                check(t.0 == v[0] && f.is_terminated(), "wrong output");
            }
            10 => {
                // counting wakers
                let (w, c) = new_count_waker();
                let w2 = w.clone();
                let mut k = 0;
                for _ in 0..3 { if flip() { w.wake_by_ref(); k += 1 } if flip() { w2.wake_by_ref(); k += 1 } check(c == k && c.get() == k, "wakes counted") }
                w.wake();
                check(c.get() == k + 1, "wakes counted");
                drop(c);
                w2.wake();
                // panicking ones
                let p = panic_waker();
                check(p.will_wake(panic_waker_ref()), "panic waker");
                check(catch(|| p.wake_by_ref()).is_err() && catch(|| panic_waker_ref().clone().wake()).is_err(), "should panic");
                drop(p);
                // but not while the thread is unwinding already
                struct G;
                impl Drop for G { fn drop(&mut self) { panic_waker_ref().wake_by_ref() } }
                check(catch(|| { let _g = G; panic!("first") }).is_err(), "panic swallowed");
            }
            12 => {
                // the stream assertions panic exactly when they do not hold
                let (a, b) = (choose(3), choose(3));
                let (x, y) = (sym8(), sym8());
                let mut k = 0;
                let mut s = futures::stream::poll_fn(|_| { k += 1; match a { 0 => Poll::Pending, 1 => Poll::Ready(Some(x)), _ => Poll::Ready(None) } });
                let r = match b {
                    0 => catch(|| { futures_test::assert_stream_pending!(s); }),
                    1 => catch(|| futures_test::assert_stream_next!(s, y)),
                    _ => catch(|| futures_test::assert_stream_done!(s)),
                };
                check(r.is_ok() == (a == b && (a != 1 || x == y)), "assertion");
                drop(s);
                check(k == 1, "stream polled once");
            }
            _ => {
                let r = RecordSpawner::new();
                for i in 0..n { check(r.spawn(fut(0, tk(v[i], i)).map(drop)).is_ok(), "record") }
                check(r.spawned().len() == n, "spawned tasks recorded");
                for i in 0..n { check(alive(i), "recorded task dropped") }
                drop(r);
                check(NoopSpawner::new().spawn(fut(0, tk(v[0], 5)).map(drop)).is_ok() && !alive(5), "noop spawner");
                check(catch(|| { let _ = PanicSpawner::new().spawn_obj(FutureObj::new(Box::new(async {}))); }).is_err(), "panic spawner");
            }
        }
        for i in 0..10 { check(!alive(i), "value leaked") }
        cover(kind as u64);
    })
}
harness! {
fn h_tu() { utils(param(2)) }
}
