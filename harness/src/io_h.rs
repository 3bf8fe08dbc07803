//! Byte streams: readers and writers over a source and a destination that stall, give and take
//! fewer bytes than asked, and fail.
use crate::ctl::*;
use crate::harness;
use crate::rt::*;
use futures::io::{self as fio, AsyncBufRead, AsyncBufReadExt, AsyncRead, AsyncReadExt, AsyncSeek, AsyncSeekExt, AsyncWrite, AsyncWriteExt, BufReader, BufWriter, Cursor, LineWriter, SeekFrom};
use futures::sink::Sink;
use futures::stream::{StreamExt, TryStreamExt};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::io::{self, ErrorKind, IoSlice, IoSliceMut};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

const EK: ErrorKind = ErrorKind::ConnectionReset;
type R<T> = io::Result<T>;

// ---- source
struct Rd {
    id: usize,
    d: Vec<u8>,
    pos: usize,
    chunk: usize,
    /// an error is reported once when this position is reached
    fail: Option<usize>,
    failed: Rc<Cell<bool>>,
    at: Rc<Cell<usize>>,
}
fn rd(id: usize, d: &[u8], fail: Option<usize>) -> Rd {
    Rd { id, d: d.to_vec(), pos: 0, chunk: 0, fail, failed: Rc::new(Cell::new(false)), at: Rc::new(Cell::new(0)) }
}
impl Rd {
    fn gate(&mut self, cx: &mut Context<'_>) -> Poll<R<usize>> {
        if pend(self.id, cx) { return Poll::Pending }
        if let Some(f) = self.fail {
            if self.pos >= f { self.fail = None; self.failed.set(true); return Poll::Ready(Err(EK.into())) }
        }
        let end = match self.fail { Some(f) if f < self.d.len() => f, _ => self.d.len() };
        Poll::Ready(Ok(if self.pos < end { end - self.pos } else { 0 }))
    }
}
impl AsyncRead for Rd {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<R<usize>> {
        if self.chunk > 0 {
            let n = self.chunk.min(b.len());
            let p = self.pos;
            b[..n].copy_from_slice(&self.d[p..p + n]);
            Pin::new(&mut *self).consume(n);
            return Poll::Ready(Ok(n));
        }
        match self.gate(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok(m)) => {
                let m = m.min(b.len());
                if m == 0 { return Poll::Ready(Ok(0)) }
                let n = m - choose(m);
                let p = self.pos;
                for i in 0..n { b[i] = self.d[p + i] }
                self.pos += n;
                self.at.set(self.pos);
                Poll::Ready(Ok(n))
            }
        }
    }
}
impl AsyncBufRead for Rd {
    fn poll_fill_buf(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<R<&[u8]>> {
        if self.chunk == 0 {
            match self.gate(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(m)) => if m > 0 { self.chunk = m - choose(m) },
            }
        }
        let Rd { d, pos, chunk, .. } = self.get_mut();
        if *pos >= d.len() { return Poll::Ready(Ok(&[])) }
        Poll::Ready(Ok(&d[*pos..*pos + *chunk]))
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) {
        check(n <= self.chunk, "consume beyond the buffer");
        self.chunk -= n;
        self.pos += n;
        self.at.set(self.pos);
    }
}
impl AsyncSeek for Rd {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, to: SeekFrom) -> Poll<R<u64>> {
        if pend(self.id, cx) { return Poll::Pending }
        let n = match to {
            SeekFrom::Start(x) => x as i64,
            SeekFrom::End(o) => match (self.d.len() as i64).checked_add(o) { Some(x) => x, None => -1 },
            SeekFrom::Current(o) => match (self.pos as i64).checked_add(o) { Some(x) => x, None => -1 },
        };
        if n < 0 { return Poll::Ready(Err(ErrorKind::InvalidInput.into())) }
        self.pos = n as usize;
        Poll::Ready(Ok(n as u64))
    }
}
impl Drop for Rd {
    fn drop(&mut self) { retire(self.id) }
}

// ---- destination
#[derive(Default)]
struct WLog {
    d: Vec<u8>,
    flushed: usize,
    closed: bool,
    short: bool,
    zero: bool,
    failed: bool,
    vec: bool,
}
struct Wt {
    id: usize,
    l: Rc<RefCell<WLog>>,
    /// fails once after this many bytes
    fail: Option<usize>,
    zeros: usize,
}
fn wt(id: usize, fail: Option<usize>, zeros: usize) -> (Wt, Rc<RefCell<WLog>>) {
    let l = Rc::new(RefCell::new(WLog::default()));
    (Wt { id, l: l.clone(), fail, zeros }, l)
}
impl Wt {
    fn gate(&mut self, cx: &mut Context<'_>) -> Poll<R<()>> {
        check(!self.l.borrow().closed, "writer used after close");
        if pend(self.id, cx) { return Poll::Pending }
        if let Some(f) = self.fail {
            if self.l.borrow().d.len() >= f { self.fail = None; self.l.borrow_mut().failed = true; return Poll::Ready(Err(EK.into())) }
        }
        Poll::Ready(Ok(()))
    }
    fn take(&mut self, m: usize) -> usize {
        if m == 0 { return 0 }
        let mut l = self.l.borrow_mut();
        if self.zeros > 0 && flip() { self.zeros -= 1; l.zero = true; return 0 }
        let n = m - choose(m);
        if n < m { l.short = true }
        n
    }
}
impl AsyncWrite for Wt {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<R<usize>> {
        match self.gate(cx) { Poll::Pending => return Poll::Pending, Poll::Ready(Err(e)) => return Poll::Ready(Err(e)), _ => {} }
        let n = self.take(b.len());
        self.l.borrow_mut().d.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bs: &[IoSlice<'_>]) -> Poll<R<usize>> {
        match self.gate(cx) { Poll::Pending => return Poll::Pending, Poll::Ready(Err(e)) => return Poll::Ready(Err(e)), _ => {} }
        let m: usize = bs.iter().map(|b| b.len()).sum();
        let n = self.take(m);
        let mut left = n;
        let mut l = self.l.borrow_mut();
        l.vec = true;
        for b in bs {
            let k = left.min(b.len());
            l.d.extend_from_slice(&b[..k]);
            left -= k;
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<R<()>> {
        match self.gate(cx) { Poll::Pending => return Poll::Pending, Poll::Ready(Err(e)) => return Poll::Ready(Err(e)), _ => {} }
        let mut l = self.l.borrow_mut();
        l.flushed = l.d.len();
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<R<()>> {
        match self.gate(cx) { Poll::Pending => return Poll::Pending, Poll::Ready(Err(e)) => return Poll::Ready(Err(e)), _ => {} }
        let mut l = self.l.borrow_mut();
        l.flushed = l.d.len();
        l.closed = true;
        Poll::Ready(Ok(()))
    }
}
impl AsyncSeek for Wt {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, _: SeekFrom) -> Poll<R<u64>> {
        match self.gate(cx) { Poll::Pending => return Poll::Pending, Poll::Ready(Err(e)) => return Poll::Ready(Err(e)), _ => {} }
        Poll::Ready(Ok(self.l.borrow().d.len() as u64))
    }
}
impl Drop for Wt {
    fn drop(&mut self) { retire(self.id) }
}

fn bytes(n: usize) -> Vec<u8> { (0..n).map(|_| sym8()).collect() }
fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false }
    let mut r = true;
    for i in 0..a.len() { r = r & (a[i] == b[i]) }
    r
}
/// p is a prefix of d
fn pre(p: &[u8], d: &[u8]) -> bool { p.len() <= d.len() && eq(p, &d[..p.len()]) }
fn fault(n: usize) -> Option<usize> {
    if param(3) == 0 { return None }
    let k = choose(n + 2);
    if k == 0 { None } else { Some(k - 1) }
}
fn ek<T>(r: &R<T>, k: ErrorKind) -> bool { match r { Err(e) => e.kind() == k, Ok(_) => false } }

/// read through `s` by any sequence of calls: the bytes of `d` come out in order; end of file only
/// at the end; every failure below is reported by the call it happened in
fn reading<S: AsyncRead>(s: S, d: &[u8], failed: &dyn Fn() -> bool, buf: Option<&dyn Fn(Pin<&mut S>, &mut Context<'_>, usize) -> Poll<R<(Vec<u8>, usize)>>>) {
    let mut s = Box::pin(s);
    let mut dr = Drv::new(param(1));
    let mut got: usize = 0;
    let mut told = false;
    for _ in 0..param(4) {
        let was = failed();
        let kinds = if buf.is_some() { 3 } else { 2 };
        match choose(kinds) {
            0 => {
                let n = choose(param(2) + 1);
                let mut b = vec![0xAAu8; n];
                let r = dr.drive(|cx| s.as_mut().poll_read(cx, &mut b));
                match r {
                    Ok(k) => {
                        check(!(failed() && !was), "read error swallowed");
                        check(k <= n, "read more than the buffer");
                        check(got + k <= d.len(), "more bytes than the source");
                        check(eq(&b[..k], &d[got..got + k]), "wrong bytes");
                        if k == 0 && n > 0 { check(got == d.len(), "end of file before the end"); cover(41) }
                        got += k;
                    }
                    Err(e) => { check(e.kind() == EK && failed() && !told, "error out of nowhere"); told = true; cover(42) }
                }
            }
            1 => {
                let (n, m) = [(1, 1), (0, 1), (2, 1)][choose(3)];
                let mut b = vec![0u8; n];
                let mut c = vec![0u8; m];
                let r = dr.drive(|cx| s.as_mut().poll_read_vectored(cx, &mut [IoSliceMut::new(&mut b), IoSliceMut::new(&mut c)]));
                match r {
                    Ok(k) => {
                        check(!(failed() && !was), "read error swallowed");
                        check(k <= n + m && got + k <= d.len(), "more bytes than the source");
                        b.extend_from_slice(&c);
                        check(eq(&b[..k], &d[got..got + k]), "wrong bytes");
                        if k == 0 && n + m > 0 { check(got == d.len(), "end of file before the end") }
                        got += k;
                    }
                    Err(e) => { check(e.kind() == EK && failed() && !told, "error out of nowhere"); told = true }
                }
            }
            _ => {
                // fill_buf, then consume some of it
                let f = buf.unwrap();
                let c = choose(3);
                match dr.drive(|cx| f(s.as_mut(), cx, c)) {
                    Ok((v, used)) => {
                        check(!(failed() && !was), "read error swallowed");
                        check(got + v.len() <= d.len(), "more bytes than the source");
                        check(eq(&v, &d[got..got + v.len()]), "wrong bytes in the buffer");
                        if v.is_empty() { check(got == d.len(), "end of file before the end") }
                        got += used;
                        cover(43);
                    }
                    Err(e) => { check(e.kind() == EK && failed() && !told, "error out of nowhere"); told = true }
                }
            }
        }
    }
    // the rest
    let mut rest = Vec::new();
    loop {
        let mut b = [0u8; 2];
        match dr.drive(|cx| s.as_mut().poll_read(cx, &mut b)) {
            Ok(0) => break,
            Ok(k) => rest.extend_from_slice(&b[..k]),
            Err(e) => { check(e.kind() == EK && failed() && !told, "error out of nowhere"); told = true }
        }
        check(rest.len() <= d.len(), "reads never end");
    }
    check(told == failed(), "read error swallowed");
    check(eq(&rest, &d[got..]), "bytes lost");
}
fn fb<S: AsyncBufRead>(mut s: Pin<&mut S>, cx: &mut Context<'_>, c: usize) -> Poll<R<(Vec<u8>, usize)>> {
    match s.as_mut().poll_fill_buf(cx) {
        Poll::Pending => Poll::Pending,
        Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
        Poll::Ready(Ok(b)) => {
            let v = b.to_vec();
            let k = c.min(v.len());
            s.as_mut().consume(k);
            Poll::Ready(Ok((v, k)))
        }
    }
}
struct Rw(Rd, Wt);
impl AsyncRead for Rw {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<R<usize>> { Pin::new(&mut self.0).poll_read(cx, b) }
}
impl AsyncWrite for Rw {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<R<usize>> { Pin::new(&mut self.1).poll_write(cx, b) }
    fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[IoSlice<'_>]) -> Poll<R<usize>> { Pin::new(&mut self.1).poll_write_vectored(cx, b) }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<R<()>> { Pin::new(&mut self.1).poll_flush(cx) }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<R<()>> { Pin::new(&mut self.1).poll_close(cx) }
}
fn readers(kind: usize) {
    scene(param(0), || {
        let n = choose(param(2) + 1);
        let d = bytes(n);
        let r = rd(0, &d, fault(n));
        let f = r.failed.clone();
        let failed = || f.get();
        match kind {
            0 => reading(BufReader::with_capacity(1 + choose(3), r), &d, &failed, Some(&fb)),
            1 => {
                let k = choose(n + 1);
                let a = rd(0, &d[..k], None);
                let mut b = rd(1, &d[k..], r.fail.map(|x| if x > k { x - k } else { 0 }));
                b.failed = r.failed.clone();
                drop(r);
                reading(a.chain(b), &d, &failed, Some(&fb))
            }
            2 => {
                // a limit of any size
                let lim = sym64();
                let m = { let mut m = n; for i in 0..n { if lim == i as u64 { m = i; break } } m };
                let mut r = r;
                if r.fail.map_or(false, |x| x >= m) { r.fail = None }
                reading(r.take(lim), &d[..m], &failed, Some(&fb))
            }
            3 => {
                // chunks of a stream
                let (a, b) = (choose(n + 1), choose(n + 1));
                if a > b { return }
                let mut items: Vec<R<Vec<u8>>> = vec![Ok(d[..a].to_vec()), Ok(d[a..b].to_vec()), Ok(d[b..].to_vec())];
                let fl = f.clone();
                let mut m = n;
                if param(3) > 0 {
                    match choose(4) {
                        0 => {}
                        k => { items.insert(k - 1, Err(EK.into())); m = [0, a, b][k - 1] }
                    }
                }
                drop(r);
                let s = src(0, items).inspect(move |r| if r.is_err() { fl.set(true) });
                reading(s.into_async_read(), &d[..m], &failed, Some(&fb))
            }
            4 => {
                let (w, l) = wt(1, None, 0);
                let (h, mut g) = Rw(r, w).split();
                reading(h, &d, &failed, None);
                let r = go(0, g.write(&[7]));
                check(r.is_ok() && eq(&l.borrow().d, &[7]), "write half broken");
            }
            5 => { drop(r); reading(Cursor::new(d.clone()), &d, &failed, Some(&fb)) }
            6 => { drop(r); reading(&d[..], &d, &failed, Some(&fb)) }
            7 => reading(Box::new(r) as Box<dyn AsyncRead + Unpin>, &d, &failed, None),
            8 => { let mut r = r; reading(Pin::new(&mut r), &d, &failed, Some(&fb)) }
            9 => reading(BufWriter::new(Rw(r, wt(1, None, 0).0)), &d, &failed, None),
            10 => { drop(r); reading(fio::AllowStdIo::new(std::io::Cursor::new(d.clone())), &d, &failed, Some(&fb)) }
            11 => reading(if flip() { futures::future::Either::Left(r) } else { futures::future::Either::Right(BufReader::with_capacity(2, r)) }, &d, &failed, Some(&fb)),
            12 => {
                // once the limit is reached, the reader below is left alone
                let lim = choose(n + 1);
                let mut r = r;
                r.fail = None;
                let mut t = Box::pin(r.take(lim as u64));
                let mut dr = Drv::new(param(1));
                let mut got = 0;
                while got < lim {
                    check(t.limit() == (lim - got) as u64, "wrong limit");
                    let mut b = [0u8; 2];
                    match dr.drive(|cx| t.as_mut().poll_read(cx, &mut b)) { Ok(k) => { check(k > 0 && got + k <= lim && eq(&b[..k], &d[got..got + k]), "wrong bytes"); got += k } Err(_) => check(false, "failed") }
                }
                let before = polls(0);
                let mut b = [0u8; 2];
                match dr.poll(|cx| t.as_mut().poll_read(cx, &mut b)) { Poll::Ready(Ok(0)) => {} _ => check(false, "limit reached: not the end") }
                match dr.poll(|cx| t.as_mut().poll_fill_buf(cx).map(|r| r.map(|b| b.len()))) { Poll::Ready(Ok(0)) => {} _ => check(false, "limit reached: not the end") }
                check(polls(0) == before, "limit reached: reader below polled again");
                // a raised limit counts from here
                t.as_mut().set_limit(1);
                match dr.drive(|cx| t.as_mut().poll_read(cx, &mut b)) { Ok(k) => check(if got < n { k == 1 && b[0] == d[got] } else { k == 0 }, "wrong bytes"), Err(_) => check(false, "failed") }
            }
            _ => unreachable!(),
        }
        cover(kind as u64);
    })
}

/// the reading futures
fn rfuts(kind: usize) {
    scene(param(0), || {
        let n = choose(param(2) + 1);
        let d = bytes(n);
        let mut r = rd(0, &d, fault(n));
        let f = r.failed.clone();
        let at = r.at.clone();
        let cancel = param(5) & 4 != 0;
        let mut dr = Drv::new(param(1));
        macro_rules! run { ($e:expr) => {{ let mut f = Box::pin($e); let x = dr.fut_or_cancel(&mut f, cancel, || ()); drop(f); if x.is_none() { cover(40) } x }} }
        // where the data ends or fails
        let end = match r.fail { Some(x) => x, None => n };
        let bad = r.fail.is_some();
        match kind {
            0 => {
                let m = choose(param(2) + 2);
                let mut b = vec![0x55u8; m];
                let x = run!(r.read_exact(&mut b));
                match x {
                    None => check(at.get() <= m, "read beyond the request"),
                    Some(x) => {
                        if m <= end { check(x.is_ok() && eq(&b, &d[..m]), "read_exact: wrong bytes"); check(at.get() == m, "read beyond the request"); cover(41) }
                        else if bad { check(ek(&x, EK), "error swallowed"); cover(42) }
                        else { check(ek(&x, ErrorKind::UnexpectedEof), "short read not reported"); cover(43) }
                    }
                }
            }
            1 => {
                let mut v = vec![1u8; choose(2)];
                let p = v.len();
                let x = run!(r.read_to_end(&mut v));
                check(v.len() == p + at.get() && eq(&v[p..], &d[..at.get()]), "read_to_end: wrong bytes");
                for i in 0..p { check(v[i] == 1, "earlier contents changed") }
                match x {
                    None => {}
                    Some(Ok(k)) => { check(!bad, "error swallowed"); check(k == n && at.get() == n, "wrong length"); cover(41) }
                    Some(e) => { check(bad && ek(&e, EK) && at.get() == end, "wrong error"); cover(42) }
                }
            }
            2 => {
                let mut s = String::from(if flip() { "x" } else { "" });
                let p = s.len();
                let x = run!(r.read_to_string(&mut s));
                let ok = std::str::from_utf8(&d).is_ok();
                check(std::str::from_utf8(s.as_bytes()).is_ok(), "String holds invalid UTF-8");
                check(s.len() >= p && (p == 0 || s.as_bytes()[0] == b'x'), "earlier contents lost");
                match x {
                    None => check(pre(&s.as_bytes()[p..], &d), "wrong bytes"),
                    Some(Ok(k)) => { check(!bad && ok && k == n && eq(&s.as_bytes()[p..], &d), "read_to_string: wrong result"); cover(41) }
                    Some(Err(e)) => {
                        check(pre(&s.as_bytes()[p..], &d), "wrong bytes");
                        if bad { check(e.kind() == EK, "wrong error"); cover(42) }
                        else { check(!ok && e.kind() == ErrorKind::InvalidData && s.len() == p, "wrong error"); cover(43) }
                    }
                }
            }
            3 => {
                let del = sym8();
                let mut v = vec![1u8; choose(2)];
                let p = v.len();
                let x = run!(r.read_until(del, &mut v));
                // first delimiter
                let mut e = end;
                let mut hit = false;
                for i in 0..end.min(n) { if d[i] == del { e = i + 1; hit = true; break } }
                check(v.len() == p + at.get() && eq(&v[p..], &d[..at.get()]), "read_until: wrong bytes");
                match x {
                    None => check(at.get() <= e, "read past the delimiter"),
                    Some(Ok(k)) => { check(hit || !bad, "error swallowed"); check(k == e && at.get() == e, "read_until: wrong length"); cover(41) }
                    Some(y) => { check(!hit && bad && ek(&y, EK), "wrong error"); cover(42) }
                }
            }
            4 => {
                let mut s = String::from(if flip() { "x" } else { "" });
                let p = s.len();
                let x = run!(r.read_line(&mut s));
                let mut e = end.min(n);
                let mut hit = false;
                for i in 0..end.min(n) { if d[i] == b'\n' { e = i + 1; hit = true; break } }
                let ok = std::str::from_utf8(&d[..e]).is_ok();
                check(std::str::from_utf8(s.as_bytes()).is_ok(), "String holds invalid UTF-8");
                check(s.len() >= p && (p == 0 || s.as_bytes()[0] == b'x'), "earlier contents lost");
                match x {
                    None => check(s.len() == p && at.get() <= e, "cancelled read_line changed the string"),
                    Some(Ok(k)) => { check(hit || !bad, "error swallowed"); check(ok && k == e && eq(&s.as_bytes()[p..], &d[..e]), "read_line: wrong line"); check(at.get() == e, "read past the line"); cover(41) }
                    Some(Err(y)) => {
                        if !hit && bad { check(y.kind() == EK && pre(&s.as_bytes()[p..], &d[..e]), "wrong error"); cover(42) }
                        else { check(!ok && y.kind() == ErrorKind::InvalidData && s.len() == p, "wrong error"); cover(43) }
                    }
                }
            }
            5 => {
                // lines: ASCII data
                for i in 0..n { assume(d[i] < 0x80) }
                let mut s = Box::pin(r.lines());
                let mut p = 0;
                let mut told = false;
                loop {
                    let x = dr.next_inv(&mut s, |_| ());
                    match x {
                        None => { check(p == n, "lines ended early"); break }
                        Some(Err(e)) => { check(bad && !told && e.kind() == EK, "wrong error"); told = true; p = end; cover(42) }
                        Some(Ok(l)) => {
                            check(p < n, "too many lines");
                            if p >= n { return }
                            let stop = if bad && !told { end } else { n };
                            let mut e = stop;
                            let mut t = stop;
                            for i in p..stop { if d[i] == b'\n' { t = i; e = i + 1; break } }
                            if e > t && t > p && d[t - 1] == b'\r' { t -= 1; cover(43) }
                            check(eq(l.as_bytes(), &d[p..t]), "wrong line");
                            p = e;
                            cover(41);
                        }
                    }
                }
                check(told == bad, "error swallowed");
            }
            6 | 7 => {
                // copy, copy_buf
                let (mut w, l) = wt(1, fault(n), param(6));
                let wbad = w.fail;
                let x = if kind == 6 { run!(fio::copy(r, &mut w)) } else { run!(fio::copy_buf(r, &mut w)) };
                let l = l.borrow();
                check(pre(&l.d, &d), "copied bytes differ");
                match x {
                    None => {}
                    Some(Ok(k)) => { check(!bad && !l.failed && !l.zero, "error swallowed"); check(l.d.len() == n && k == n as u64, "wrong amount"); check(l.flushed == n, "copy does not flush"); check(!l.closed, "copy must not close"); cover(41) }
                    Some(Err(e)) => { check(if l.zero { e.kind() == ErrorKind::WriteZero } else { e.kind() == EK && (f.get() || l.failed) }, "wrong error"); let _ = wbad; cover(42) }
                }
            }
            8 => {
                let (mut w, l) = wt(1, fault(n), param(6));
                let (c, h) = fio::copy_buf_abortable(r, &mut w);
                let mut c = Box::pin(c);
                let mut aborted = false;
                let x = loop {
                    match dr.poll(|cx| c.as_mut().poll(cx)) {
                        Poll::Ready(x) => break x,
                        Poll::Pending => {
                            check(!aborted, "pending although aborted");
                            if flip() {
                                h.abort();
                                aborted = true;
                                check(woken(dr.base + dr.k), "abort did not wake the task");
                            }
                            dr.settle();
                        }
                    }
                };
                drop(c);
                let l = l.borrow();
                check(pre(&l.d, &d), "copied bytes differ");
                match x {
                    Ok(Ok(k)) => { check(!bad && !l.failed && !aborted && !l.zero, "wrong result"); check(l.d.len() == n && k == n as u64 && l.flushed == n, "wrong amount"); cover(41) }
                    Ok(Err(_)) => { check(aborted, "aborted out of nowhere"); cover(43) }
                    Err(e) => { check(if l.zero { e.kind() == ErrorKind::WriteZero } else { e.kind() == EK && (f.get() || l.failed) }, "wrong error"); cover(42) }
                }
            }
            9 => {
                // read, read_vectored, fill_buf as futures
                let m = choose(3);
                let mut b = vec![0u8; m];
                match choose(3) {
                    0 => if let Some(x) = run!(r.read(&mut b)) {
                        match x { Ok(k) => { check(k <= m && eq(&b[..k], &d[..k]) && at.get() == k, "wrong bytes"); if k == 0 && m > 0 { check(n == 0, "end of file before the end") } cover(41) } Err(e) => { check(e.kind() == EK && f.get(), "wrong error"); cover(42) } }
                    },
                    1 => {
                        let mut c = [0u8; 1];
                        let x = { let mut bs = [IoSliceMut::new(&mut b), IoSliceMut::new(&mut c)]; run!(r.read_vectored(&mut bs)) };
                        if let Some(x) = x {
                            match x { Ok(k) => { b.extend_from_slice(&c); check(k <= m + 1 && eq(&b[..k], &d[..k]) && at.get() == k, "wrong bytes") } Err(e) => check(e.kind() == EK && f.get(), "wrong error") }
                        }
                    }
                    _ => {
                        let mut fu = Box::pin(r.fill_buf());
                        let x = dr.fut(&mut fu).map(|b| b.to_vec());
                        drop(fu);
                        match x {
                            Ok(b) => {
                                check(pre(&b, &d) && (n == 0 || !b.is_empty()), "wrong bytes");
                                let k = choose(b.len() + 1);
                                r.consume_unpin(k);
                                check(at.get() == k, "consume");
                            }
                            Err(e) => check(e.kind() == EK && f.get(), "wrong error"),
                        }
                    }
                }
            }
            _ => unreachable!(),
        }
        cover(kind as u64);
    })
}

/// any sequence of writes, flushes and a close through `s`
fn writing<S: AsyncWrite>(s: S, l: &Rc<RefCell<WLog>>, cap: usize, lines: bool, vdirect: bool) {
    let mut s = Box::pin(s);
    let mut dr = Drv::new(param(1));
    let mut acc: Vec<u8> = Vec::new();
    let cancel = param(5) & 4 != 0;
    macro_rules! go { ($f:expr) => { loop { match dr.poll($f) { Poll::Ready(x) => break Some(x), Poll::Pending => { check(pre(&l.borrow().d, &acc) || true, "order"); if cancel && flip() { cover(40); break None } dr.settle() } } } } }
    let ok = |acc: &Vec<u8>| { let l = l.borrow(); check(pre(&l.d, acc), "writer received other bytes than were accepted"); check(l.d.len() + cap >= acc.len(), "more bytes held back than the capacity") };
    let mut told = false;
    for _ in 0..param(4) {
        let (was, zwas) = { let l = l.borrow(); (l.failed, l.zero) };
        let r: R<()> = match choose(4) {
            0 => {
                let m = choose(param(2) + 1);
                let b = bytes(m);
                match go!(|cx| s.as_mut().poll_write(cx, &b)) {
                    // a cancelled write has accepted nothing
                    None => Ok(()),
                    Some(Ok(k)) => {
                        check(k <= m, "accepted more than offered");
                        if k == 0 && m > 0 { check(l.borrow().zero, "nothing accepted") }
                        acc.extend_from_slice(&b[..k]);
                        ok(&acc);
                        if lines && !l.borrow().short && !l.borrow().zero {
                            let mut p = 0;
                            for i in 0..acc.len() { if acc[i] == b'\n' { p = i + 1 } }
                            check(l.borrow().d.len() >= p, "complete line held back");
                            if p > 0 { cover(44) }
                        }
                        cover(41);
                        Ok(())
                    }
                    Some(Err(e)) => Err(e),
                }
            }
            1 => {
                let (p, q) = [(1, 1), (0, 2), (2, 1), (1, 0)][choose(4)];
                let b = bytes(p);
                let c = bytes(q);
                let m = b.len() + c.len();
                match go!(|cx| s.as_mut().poll_write_vectored(cx, &[IoSlice::new(&b), IoSlice::new(&c)])) {
                    None => Ok(()),
                    Some(Ok(k)) => {
                        check(k <= m, "accepted more than offered");
                        if k == 0 && m > 0 && vdirect { check(l.borrow().zero, "nothing accepted") }
                        let mut t = b.clone();
                        t.extend_from_slice(&c);
                        acc.extend_from_slice(&t[..k]);
                        ok(&acc);
                        Ok(())
                    }
                    Some(Err(e)) => Err(e),
                }
            }
            2 => {
                match go!(|cx| s.as_mut().poll_flush(cx)) {
                    None => Ok(()),
                    Some(Ok(())) => { let l = l.borrow(); check(eq(&l.d, &acc) && l.flushed == acc.len(), "flush left bytes behind"); cover(42); Ok(()) }
                    Some(Err(e)) => Err(e),
                }
            }
            _ => break,
        };
        match r {
            Ok(()) => check(cancel || l.borrow().failed == was, "write error swallowed"),
            Err(e) => {
                ok(&acc);
                let l = l.borrow();
                if l.failed && !told { check(e.kind() == EK, "wrong error"); told = true } else { check(l.zero && !zwas && e.kind() == ErrorKind::WriteZero, "error out of nowhere") }
                cover(43);
            }
        }
    }
    match go!(|cx| s.as_mut().poll_close(cx)) {
        Some(Ok(())) => { let l = l.borrow(); check(eq(&l.d, &acc) && l.closed, "close left bytes behind") }
        _ => ok(&acc),
    }
}
/// a writer that leaves vectored writes to the trait's own default
struct Plain(Wt);
impl AsyncWrite for Plain {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<R<usize>> { Pin::new(&mut self.0).poll_write(cx, b) }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<R<()>> { Pin::new(&mut self.0).poll_flush(cx) }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<R<()>> { Pin::new(&mut self.0).poll_close(cx) }
}
fn writers(kind: usize) {
    scene(param(0), || {
        let (w, l) = wt(0, fault(param(2)), param(6));
        let cap = if kind < 2 { choose(4) } else { 2 };
        match kind {
            0 => writing(BufWriter::with_capacity(cap, w), &l, cap, false, true),
            1 => writing(LineWriter::with_capacity(cap, w), &l, cap, true, true),
            2 => {
                let (r, w) = Rw(rd(1, &[9], None), w).split();
                writing(w, &l, 0, false, true);
                drop(r);
            }
            3 => writing(Box::new(w) as Box<dyn AsyncWrite + Unpin>, &l, 0, false, true),
            4 => writing(BufReader::new(Rw(rd(1, &[], None), w)), &l, 0, false, true),
            5 => {
                let mut w = w;
                writing(Pin::new(&mut w), &l, 0, false, true)
            }
            7 => writing(Plain(w), &l, 0, false, true),
            6 => writing(if flip() { futures::future::Either::Left(w) } else { futures::future::Either::Right(BufWriter::with_capacity(cap, w)) }, &l, cap, false, true),
            _ => unreachable!(),
        }
        cover(kind as u64);
    })
}
/// the writing futures
fn wfuts(kind: usize) {
    scene(param(0), || {
        let n = choose(param(2) + 1);
        let d = bytes(n);
        let (mut w, l) = wt(0, fault(n), param(6));
        let cancel = param(5) & 4 != 0;
        let mut dr = Drv::new(param(1));
        macro_rules! run { ($e:expr) => {{ let mut f = Box::pin($e); let x = dr.fut_or_cancel(&mut f, cancel, || ()); drop(f); if x.is_none() { cover(40) } x }} }
        let judge = |x: Option<R<()>>, all: bool| {
            let l = l.borrow();
            check(pre(&l.d, &d), "wrong bytes written");
            match x {
                None => {}
                Some(Ok(())) => { check(!l.failed && !l.zero, "write error swallowed"); if all { check(l.d.len() == n, "write incomplete") } cover(41) }
                Some(Err(e)) => { check(if l.zero { e.kind() == ErrorKind::WriteZero } else { e.kind() == EK && l.failed }, "wrong error"); cover(42) }
            }
        };
        match kind {
            0 => { let x = run!(w.write_all(&d)); judge(x, true) }
            1 => {
                let (a, b) = (choose(n + 1), choose(n + 1));
                if a > b { return }
                let mut v = [IoSlice::new(&d[..a]), IoSlice::new(&d[a..b]), IoSlice::new(&d[b..])];
                let x = run!(w.write_all_vectored(&mut v));
                judge(x, true)
            }
            2 => {
                let x = run!(w.write_all(&d));
                if let Some(Ok(())) = x {
                    if flip() { let x = run!(w.flush()); if let Some(Ok(())) = x { check(l.borrow().flushed == n, "flush incomplete") } judge(x, true) }
                    else { let x = run!(w.close()); if let Some(Ok(())) = x { check(l.borrow().closed, "close incomplete") } judge(x, true) }
                }
            }
            3 => {
                // one write
                match run!(w.write(&d)) {
                    None => {}
                    Some(Ok(k)) => { check(k == l.borrow().d.len() && pre(&l.borrow().d, &d), "wrong count"); cover(41) }
                    Some(Err(e)) => { check(e.kind() == EK && l.borrow().failed, "wrong error"); cover(42) }
                }
            }
            4 => {
                // into_sink: blocks of bytes
                let (a, b) = (choose(n + 1), choose(n + 1));
                if a > b { return }
                let bl = [d[..a].to_vec(), d[a..b].to_vec(), d[b..].to_vec()];
                let mut s = Box::pin(w.into_sink::<Vec<u8>>());
                let mut acc = 0;
                let mut x = Ok(());
                for i in 0..3 {
                    x = dr.drive(|cx| s.as_mut().poll_ready(cx));
                    if x.is_err() { break }
                    check(l.borrow().d.len() == acc, "ready with bytes left");
                    let _ = s.as_mut().start_send(bl[i].clone());
                    acc += bl[i].len();
                    if flip() {
                        x = dr.drive(|cx| s.as_mut().poll_flush(cx));
                        if x.is_err() { break }
                        check(l.borrow().d.len() == acc && l.borrow().flushed == acc, "flush left bytes behind");
                    }
                }
                if x.is_ok() {
                    x = dr.drive(|cx| s.as_mut().poll_close(cx));
                    if x.is_ok() { check(l.borrow().closed, "close did not reach the writer") }
                    judge(Some(x), true);
                } else { judge(Some(x), false) }
            }
            _ => unreachable!(),
        }
        cover(kind as u64);
    })
}
/// seeking under a buffered reader: the position is that of an unbuffered one
fn seeks() {
    scene(param(0), || {
        let n = param(2);
        let d = bytes(n);
        let mut s = Box::pin(BufReader::with_capacity(1 + choose(3), rd(0, &d, None)));
        let mut pos: u64 = 0;
        let mut dr = Drv::new(param(1));
        for _ in 0..param(4) {
            match choose(4) {
                0 => {
                    let m = 1 + choose(2);
                    let mut b = vec![0u8; m];
                    match dr.drive(|cx| s.as_mut().poll_read(cx, &mut b)) {
                        Ok(k) => {
                            if pos >= n as u64 { check(k == 0, "bytes beyond the end") }
                            else { let p = pos as usize; check(k > 0 && p + k <= n && eq(&b[..k], &d[p..p + k]), "wrong bytes after a seek"); cover(41) }
                            pos += k as u64;
                        }
                        Err(_) => check(false, "read failed"),
                    }
                }
                1 => {
                    let (to, exp) = match choose(3) {
                        0 => { let x = choose(n + 2); (SeekFrom::Start(x as u64), x as i64) }
                        1 => { let o = choose(2 * n + 1) as i64 - n as i64; (SeekFrom::Current(o), pos as i64 + o) }
                        _ => { let o = choose(n + 2) as i64 - n as i64; (SeekFrom::End(o), n as i64 + o) }
                    };
                    let r = dr.drive(|cx| s.as_mut().poll_seek(cx, to));
                    if exp < 0 { check(r.is_err(), "seek before the start"); cover(42) } else {
                        check(match r { Ok(x) => x == exp as u64, Err(_) => false }, "seek: wrong position");
                        pos = exp as u64;
                        cover(43);
                    }
                }
                2 => {
                    let o = choose(2 * n + 1) as i64 - n as i64;
                    let was = s.buffer().to_vec();
                    let r = dr.fut(&mut Box::pin(s.as_mut().seek_relative(o)));
                    if o >= 0 && o <= was.len() as i64 && !was.is_empty() { check(eq(s.buffer(), &was[o as usize..]), "seek within the buffer discards it"); cover(45) }
                    if pos as i64 + o < 0 { check(r.is_err(), "seek before the start") } else {
                        check(r.is_ok(), "seek_relative failed");
                        pos = (pos as i64 + o) as u64;
                        cover(44);
                    }
                }
                _ => {
                    // far away
                    let o = if flip() { i64::MIN } else { i64::MIN + 1 };
                    if flip() {
                        check(dr.drive(|cx| s.as_mut().poll_seek(cx, SeekFrom::Current(o))).is_err(), "seek before the start");
                    } else {
                        let r = dr.fut(&mut Box::pin(s.as_mut().seek_relative(o))).is_err();
                        check(r, "seek before the start");
                    }
                }
            }
        }
    })
}
/// seeking under a buffered writer writes the buffer out first
fn wseek() {
    scene(param(0), || {
        let (w, l) = wt(0, fault(2), 0);
        let cap = 1 + choose(3);
        let mut s = Box::pin(BufWriter::with_capacity(cap, w));
        let mut dr = Drv::new(param(1));
        let d = bytes(choose(4));
        let mut a = 0;
        let mut bad = false;
        while a < d.len() {
            match dr.drive(|cx| s.as_mut().poll_write(cx, &d[a..])) { Ok(k) => a += k, Err(_) => { bad = true; break } }
        }
        if !bad {
            match dr.drive(|cx| s.as_mut().poll_seek(cx, SeekFrom::Start(0))) {
                Ok(_) => { check(eq(&l.borrow().d, &d), "seek before the buffered bytes were written"); cover(1) }
                Err(_) => { check(l.borrow().failed, "error out of nowhere"); cover(2) }
            }
        }
        check(pre(&l.borrow().d, &d), "wrong bytes written");
    });
}
/// Cursor<Vec<u8>> against a model
fn cursor() {
    scene(0, || {
        let mut c = Cursor::new(Vec::new());
        let mut m: Vec<u8> = Vec::new();
        let mut pos = 0usize;
        for _ in 0..param(4) {
            match choose(3) {
                0 => {
                    let b = bytes(1 + choose(2));
                    let k = match go(0, c.write(&b)) { Ok(k) => k, Err(_) => { check(false, "failed"); 0 } };
                    check(k == b.len(), "short write to memory");
                    if !b.is_empty() && m.len() < pos { m.resize(pos, 0) }
                    for i in 0..b.len() { if pos + i < m.len() { m[pos + i] = b[i] } else { m.push(b[i]) } }
                    pos += k;
                }
                1 => {
                    let o = choose(5) as i64 - 2;
                    let (to, e) = match choose(3) { 0 => (SeekFrom::Start((o + 2) as u64), o + 2), 1 => (SeekFrom::Current(o), pos as i64 + o), _ => (SeekFrom::End(o), m.len() as i64 + o) };
                    let r = go(0, c.seek(to));
                    if e < 0 { check(r.is_err(), "seek before the start") } else { check(match r { Ok(x) => x == e as u64, Err(_) => false } && c.position() == e as u64, "wrong position"); pos = e as usize }
                }
                _ => {
                    let mut b = vec![0u8; 1 + choose(2)];
                    let k = match go(0, c.read(&mut b)) { Ok(k) => k, Err(_) => { check(false, "failed"); 0 } };
                    let e = if pos < m.len() { (m.len() - pos).min(b.len()) } else { 0 };
                    check(k == e && (e == 0 || eq(&b[..k], &m[pos..pos + k])), "wrong bytes");
                    pos += k;
                }
            }
        }
        check(eq(c.get_ref(), &m), "wrong contents");
    });
}
/// Window: any 64-bit bounds of any kind
fn window() {
    use std::ops::Bound;
    let n = choose(param(0) + 1);
    let d: Vec<u8> = (0..n).map(|_| sym8()).collect();
    let mut w = futures::io::Window::new(d.clone());
    check(w.start() == 0 && w.end() == n && eq(w.as_ref(), &d), "new window");
    let (mut s, mut e) = (0u128, n as u128);
    for _ in 0..param(1) {
        let (x, y) = (sym64() as usize, sym64() as usize);
        let (lo, a) = match choose(3) { 0 => (Bound::Included(x), x as u128), 1 => (Bound::Excluded(x), x as u128 + 1), _ => (Bound::Unbounded, 0) };
        let (hi, b) = match choose(3) { 0 => (Bound::Included(y), y as u128 + 1), 1 => (Bound::Excluded(y), y as u128), _ => (Bound::Unbounded, n as u128) };
        let fits = b <= n as u128 && a <= b;
        let r = catch(|| w.set((lo, hi)));
        check(r.is_ok() == fits, "a range is accepted exactly when it lies within the buffer");
        if fits { s = a; e = b; cover(1) } else { cover(2) }
        check(w.start() as u128 == s && w.end() as u128 == e, "wrong window");
    }
    let (s, e) = (s as usize, e as usize);
    check(w.as_ref().len() == e - s && eq(w.as_ref(), &d[s..e]) && eq(w.get_ref(), &d), "wrong bytes");
    let z = sym8();
    for b in w.as_mut() { *b = z }
    let v = w.into_inner();
    for i in 0..n { check(v[i] == if i >= s && i < e { z } else { d[i] }, "byte outside of the window changed") }
}
/// empty, repeat and sink
fn constant() {
    scene(0, || {
        use std::io::IoSliceMut;
        let (n, m) = (choose(3), choose(3));
        let b = sym8();
        let z = sym8();
        let (mut x, mut y) = (vec![z; n], vec![z; m]);
        let vec = flip();
        let mut d = Drv::new(0);
        if flip() {
            let mut r = futures::io::repeat(b);
            let k = if vec { d.drive(|cx| Pin::new(&mut r).poll_read_vectored(cx, &mut [IoSliceMut::new(&mut x), IoSliceMut::new(&mut y)])) } else { y.clear(); d.drive(|cx| Pin::new(&mut r).poll_read(cx, &mut x)) };
            check(matches!(k, Ok(k) if k == x.len() + y.len()), "repeat fills what it is given");
            check(x.iter().all(|c| *c == b) && y.iter().all(|c| *c == b), "wrong byte");
            cover(1);
        } else {
            let mut r = futures::io::empty();
            let k = if vec { d.drive(|cx| Pin::new(&mut r).poll_read_vectored(cx, &mut [IoSliceMut::new(&mut x), IoSliceMut::new(&mut y)])) } else { d.drive(|cx| Pin::new(&mut r).poll_read(cx, &mut x)) };
            check(matches!(k, Ok(0)), "empty gives bytes");
            check(matches!(d.drive(|cx| Pin::new(&mut r).poll_fill_buf(cx).map_ok(|b| b.len())), Ok(0)), "empty gives bytes");
            check(x.iter().all(|c| *c == z) && y.iter().all(|c| *c == z), "buffer changed");
            let mut w = futures::io::sink();
            let k = if vec { d.drive(|cx| Pin::new(&mut w).poll_write_vectored(cx, &[IoSlice::new(&x), IoSlice::new(&y)])) } else { y.clear(); d.drive(|cx| Pin::new(&mut w).poll_write(cx, &x)) };
            check(matches!(k, Ok(k) if k == x.len() + y.len()), "sink takes everything");
            check(d.drive(|cx| Pin::new(&mut w).poll_flush(cx)).is_ok() && d.drive(|cx| Pin::new(&mut w).poll_close(cx)).is_ok(), "sink failed");
            cover(2);
        }
    })
}
/// LineWriter: one long write (several lines, longer than the buffer) over a writer that takes any part, then a flush
fn longline() {
    scene(param(0), || {
        let cap = choose(param(4)) + 1;
        let n = choose(param(2) + 1);
        let d = bytes(n);
        let (w, l) = wt(0, None, 0);
        let mut s = Box::pin(LineWriter::with_capacity(cap, w));
        let mut dr = Drv::new(param(1));
        let pre_n = choose(2);
        let head = bytes(pre_n);
        let mut acc: Vec<u8> = Vec::new();
        if pre_n > 0 {
            match dr.drive(|cx| s.as_mut().poll_write(cx, &head)) { Ok(k) => { check(k == 1, "nothing accepted"); acc.extend_from_slice(&head) } Err(_) => check(false, "failed") }
        }
        match dr.drive(|cx| s.as_mut().poll_write(cx, &d)) {
            Ok(k) => {
                check(k <= n && (k > 0 || n == 0), "wrong count");
                acc.extend_from_slice(&d[..k]);
                if l.borrow().short { cover(1) }
                if k < n { cover(2) }
            }
            Err(_) => check(false, "failed"),
        }
        check(pre(&l.borrow().d, &acc), "writer received other bytes than were accepted");
        check(l.borrow().d.len() + cap >= acc.len(), "more bytes held back than the capacity");
        if !l.borrow().short {
            let mut p = 0;
            for i in 0..acc.len() { if acc[i] == b'\n' { p = i + 1 } }
            check(l.borrow().d.len() >= p, "complete line held back");
        }
        check(dr.drive(|cx| s.as_mut().poll_flush(cx)).is_ok() && eq(&l.borrow().d, &acc), "flush left bytes behind");
    })
}

/// a blocking reader and writer that may be interrupted, fail, and transfer less than asked
struct Std { d: Vec<u8>, pos: usize, out: Vec<u8>, intr: usize, fail: usize, failed: bool, flushes: usize, seeks: usize }
impl Std {
    fn gate(&mut self) -> R<()> {
        if self.intr > 0 && flip() { self.intr -= 1; return Err(ErrorKind::Interrupted.into()) }
        if self.fail > 0 && flip() { self.fail -= 1; self.failed = true; return Err(EK.into()) }
        Ok(())
    }
}
impl io::Read for Std {
    fn read(&mut self, b: &mut [u8]) -> R<usize> {
        self.gate()?;
        let m = b.len().min(self.d.len() - self.pos);
        let k = if m == 0 { 0 } else { m - choose(m) };
        for i in 0..k { b[i] = self.d[self.pos + i] }
        self.pos += k;
        Ok(k)
    }
}
impl io::BufRead for Std {
    fn fill_buf(&mut self) -> R<&[u8]> { self.gate()?; Ok(&self.d[self.pos..]) }
    fn consume(&mut self, n: usize) { self.pos += n }
}
impl io::Write for Std {
    fn write(&mut self, b: &[u8]) -> R<usize> {
        self.gate()?;
        let k = if b.is_empty() { 0 } else { b.len() - choose(b.len()) };
        self.out.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> R<()> { self.gate()?; self.flushes += 1; Ok(()) }
}
impl io::Seek for Std {
    fn seek(&mut self, _: SeekFrom) -> R<u64> { self.gate()?; self.seeks += 1; Ok(self.pos as u64) }
}
fn allow_std() {
    let n = choose(3);
    let d = bytes(n);
    let mut s = fio::AllowStdIo::new(Std { d: d.clone(), pos: 0, out: vec![], intr: param(0), fail: 1, failed: false, flushes: 0, seeks: 0 });
    let w = waker(0);
    let mut cx = Context::from_waker(&w);
    let mut out: Vec<u8> = Vec::new();
    let mut told = false;
    for _ in 0..param(1) {
        let p = s.get_ref().pos;
        let op = choose(7);
        // every call is answered at once
        let r: R<()> = match op {
            0 => {
                let mut b = [0u8; 2];
                let m = choose(3);
                match Pin::new(&mut s).poll_read(&mut cx, &mut b[..m]) {
                    Poll::Ready(Ok(k)) => { check(s.get_ref().pos == p + k && eq(&b[..k], &d[p..p + k]) && (k > 0 || m == 0 || p == n), "wrong bytes"); Ok(()) }
                    Poll::Ready(Err(e)) => { check(s.get_ref().pos == p, "bytes lost"); Err(e) }
                    Poll::Pending => return check(false, "pending"),
                }
            }
            1 => {
                let (mut b, mut c) = ([0u8; 1], [0u8; 1]);
                let x = { let mut bs = [IoSliceMut::new(&mut b), IoSliceMut::new(&mut c)]; Pin::new(&mut s).poll_read_vectored(&mut cx, &mut bs) };
                match x {
                    Poll::Ready(Ok(k)) => { check(s.get_ref().pos == p + k && eq(&[b[0], c[0]][..k], &d[p..p + k]) && (k > 0 || p == n), "wrong bytes"); Ok(()) }
                    Poll::Ready(Err(e)) => { check(s.get_ref().pos == p, "bytes lost"); Err(e) }
                    Poll::Pending => return check(false, "pending"),
                }
            }
            2 => match Pin::new(&mut s).poll_fill_buf(&mut cx).map(|r| r.map(|b| b.to_vec())) {
                Poll::Ready(Ok(b)) => {
                    check(eq(&b, &d[p..]), "wrong bytes");
                    let k = choose(b.len() + 1);
                    Pin::new(&mut s).consume(k);
                    check(s.get_ref().pos == p + k, "consume");
                    Ok(())
                }
                Poll::Ready(Err(e)) => Err(e),
                Poll::Pending => return check(false, "pending"),
            },
            3 | 4 => {
                let m = choose(3);
                let b = bytes(m);
                let x = if op == 3 { Pin::new(&mut s).poll_write(&mut cx, &b) } else { Pin::new(&mut s).poll_write_vectored(&mut cx, &[IoSlice::new(&[]), IoSlice::new(&b)]) };
                match x {
                    Poll::Ready(Ok(k)) => { check(k <= m && (k > 0 || m == 0), "wrong count"); out.extend_from_slice(&b[..k]); Ok(()) }
                    Poll::Ready(Err(e)) => Err(e),
                    Poll::Pending => return check(false, "pending"),
                }
            }
            5 => {
                let f = s.get_ref().flushes;
                let x = if flip() { Pin::new(&mut s).poll_flush(&mut cx) } else { Pin::new(&mut s).poll_close(&mut cx) };
                match x {
                    Poll::Ready(Ok(())) => { check(s.get_ref().flushes > f, "not flushed"); Ok(()) }
                    Poll::Ready(Err(e)) => Err(e),
                    Poll::Pending => return check(false, "pending"),
                }
            }
            _ => match Pin::new(&mut s).poll_seek(&mut cx, SeekFrom::Start(0)) {
                Poll::Ready(Ok(k)) => { check(k == p as u64 && s.get_ref().seeks > 0, "seek"); Ok(()) }
                Poll::Ready(Err(e)) => Err(e),
                Poll::Pending => return check(false, "pending"),
            },
        };
        check(eq(&s.get_ref().out, &out), "writer received other bytes than were accepted");
        match r {
            Ok(()) => check(told == s.get_ref().failed, "error swallowed"),
            Err(e) => { check(e.kind() == EK && !told && s.get_ref().failed, "wrong error"); told = true; cover(2) }
        }
        if s.get_ref().intr < param(0) { cover(1) }
        cover(10 + op as u64);
    }
}

harness! {
    fn h_window() { window() }
    fn h_lline() { longline() }
    fn h_std() { allow_std() }
    fn h_const() { constant() }
    fn h_rd() { readers(param(7)) }
    fn h_rf() { rfuts(param(7)) }
    fn h_wr() { writers(param(7)) }
    fn h_wf() { wfuts(param(7)) }
    fn h_seek() { seeks() }
    fn h_wseek() { wseek() }
    fn h_cur() { cursor() }
}

// ---- long transfers: sizes around the internal thresholds (32 bytes of growth, 1 KiB and 8 KiB buffers)
struct Lr { id: usize, d: Vec<u8>, pos: usize, step: usize }
impl AsyncRead for Lr {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<R<usize>> {
        if pend(self.id, cx) { return Poll::Pending }
        let k = b.len().min(self.step).min(self.d.len() - self.pos);
        let p = self.pos;
        b[..k].copy_from_slice(&self.d[p..p + k]);
        self.pos += k;
        Poll::Ready(Ok(k))
    }
}
impl Drop for Lr { fn drop(&mut self) { retire(self.id) } }
struct Lw { id: usize, l: Rc<RefCell<(Vec<u8>, usize)>>, step: usize }
impl AsyncWrite for Lw {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<R<usize>> {
        if pend(self.id, cx) { return Poll::Pending }
        let k = b.len().min(self.step);
        self.l.borrow_mut().0.extend_from_slice(&b[..k]);
        Poll::Ready(Ok(k))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<R<()>> { if pend(self.id, cx) { return Poll::Pending } let mut l = self.l.borrow_mut(); l.1 = l.0.len(); Poll::Ready(Ok(())) }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<R<()>> { self.poll_flush(cx) }
}
impl Drop for Lw { fn drop(&mut self) { retire(self.id) } }
fn long(kind: usize) {
    scene(param(0), || {
        let mut dr = Drv::new(param(1));
        let big = kind >= 2;
        let n = if big { [1023, 1024, 1025, 8191, 8192, 8193, 10000][choose(7)] } else { [31, 32, 33, 63, 64, 65, 100][choose(7)] };
        let mut d: Vec<u8> = (0..n).map(|i| (i * 7 % 120) as u8 + 1).collect();
        let step = if big { [1000, 8192, 20000][choose(3)] } else { [1, 31, 32, 100][choose(4)] };
        let l = Rc::new(RefCell::new((Vec::new(), 0usize)));
        match kind {
            0 => {
                let mut v = match choose(3) { 0 => Vec::new(), 1 => vec![7u8; 1], _ => { let mut v = Vec::with_capacity(33); v.push(7); v } };
                let p = v.len();
                let mut r = Lr { id: 0, d: d.clone(), pos: 0, step };
                let mut f = Box::pin(r.read_to_end(&mut v));
                let x = dr.fut(&mut f);
                drop(f);
                match x { Ok(k) => check(k == n, "wrong length"), Err(_) => check(false, "failed") }
                check(v.len() == p + n && v[p..] == d[..] && (p == 0 || v[0] == 7), "read_to_end: wrong bytes");
            }
            1 => {
                let bad = flip();
                if bad { d[n - 1] = 0xff }
                let mut s = String::from(if flip() { "x" } else { "" });
                let p = s.len();
                let mut r = Lr { id: 0, d: d.clone(), pos: 0, step };
                let mut f = Box::pin(r.read_to_string(&mut s));
                let x = dr.fut(&mut f);
                drop(f);
                match x {
                    Ok(k) => check(!bad && k == n && s.as_bytes()[p..] == d[..], "read_to_string: wrong result"),
                    Err(e) => check(bad && e.kind() == ErrorKind::InvalidData && s.len() == p, "wrong error"),
                }
            }
            2 => {
                let r = Lr { id: 0, d: d.clone(), pos: 0, step };
                let mut w = Lw { id: 1, l: l.clone(), step: [1000, 8192, 20000][choose(3)] };
                let mut f = Box::pin(fio::copy(r, &mut w));
                let x = dr.fut(&mut f);
                drop(f);
                match x { Ok(k) => check(k == n as u64, "wrong amount"), Err(_) => check(false, "failed") }
                let l = l.borrow();
                check(l.0 == d && l.1 == n, "copied bytes differ");
            }
            3 => {
                let mut r = BufReader::new(Lr { id: 0, d: d.clone(), pos: 0, step });
                let want = [500, 8192, 9000][choose(3)];
                let mut got = 0;
                let mut b = vec![0u8; want];
                loop {
                    let mut f = Box::pin(r.read(&mut b));
                    let x = dr.fut(&mut f);
                    drop(f);
                    match x {
                        Ok(0) => break,
                        Ok(k) => { check(k <= want && got + k <= n && b[..k] == d[got..got + k], "wrong bytes"); got += k }
                        Err(_) => check(false, "failed"),
                    }
                }
                check(got == n, "end of file before the end");
            }
            _ => {
                let piece = [500, 1024, 5000, 20000][choose(4)];
                let w = Lw { id: 1, l: l.clone(), step };
                let lines = kind == 5;
                if lines { let m = n - 1; d[m / 2] = b'\n' }
                macro_rules! go { ($w:expr) => {{
                    let mut w = $w;
                    for c in d.chunks(piece) {
                        let mut f = Box::pin(w.write_all(c));
                        check(dr.fut(&mut f).is_ok(), "failed");
                    }
                    check(d.starts_with(&l.borrow().0), "wrong bytes written");
                    if lines { check(l.borrow().0.len() > (n - 1) / 2, "complete line held back") }
                    let mut f = Box::pin(w.flush());
                    check(dr.fut(&mut f).is_ok(), "failed");
                    drop(f);
                    check(l.borrow().0 == d && l.borrow().1 == n, "flush left bytes behind");
                }} }
                if lines { go!(LineWriter::new(w)) } else { go!(BufWriter::new(w)) }
            }
        }
        cover(kind as u64);
    })
}
harness! { fn h_long() { long(param(4)) } }

/// Cursor over each kind of storage: any 64-bit seek, vectored writes, fixed-size storage is filled and not exceeded
fn cursor2() {
    let n = choose(3);
    let init = bytes(n);
    macro_rules! go { ($c:expr, $grow:expr) => {{
        let mut c = $c;
        let mut m = init.clone();
        let mut pos = 0u64;
        let w = waker(0);
        let mut cx = Context::from_waker(&w);
        for _ in 0..param(0) {
            check(c.position() == pos, "position");
            match choose(5) {
                0 | 1 if pos <= 4 => {
                    let (p, q) = [(0, 1), (1, 1), (2, 0)][choose(3)];
                    let (b, e) = (bytes(p), bytes(q));
                    let all: Vec<u8> = b.iter().chain(e.iter()).copied().collect();
                    let vec = flip();
                    let r = if vec { Pin::new(&mut c).poll_write_vectored(&mut cx, &[IoSlice::new(&b), IoSlice::new(&e)]) } else { Pin::new(&mut c).poll_write(&mut cx, &all) };
                    let at = pos as usize;
                    let k = match r { Poll::Ready(Ok(k)) => k, _ => return check(false, "write to memory failed") };
                    let room = if $grow { all.len() } else { (m.len() - at.min(m.len())).min(all.len()) };
                    check(k == room, "wrong count");
                    if $grow && m.len() < at { m.resize(at, 0) }
                    for i in 0..k { if at + i < m.len() { m[at + i] = all[i] } else { m.push(all[i]) } }
                    pos += k as u64;
                    if !$grow && k < all.len() { cover(1) }
                }
                2 => {
                    let o = sym64() as i64;
                    let (to, e) = match choose(3) { 0 => (SeekFrom::Start(o as u64), o as u64 as i128), 1 => (SeekFrom::Current(o), pos as i128 + o as i128), _ => (SeekFrom::End(o), m.len() as i128 + o as i128) };
                    match Pin::new(&mut c).poll_seek(&mut cx, to) {
                        Poll::Ready(Ok(x)) => { check(e >= 0 && x as i128 == e, "wrong position"); pos = x }
                        Poll::Ready(Err(x)) => { check((e < 0 || e > u64::MAX as i128) && x.kind() == ErrorKind::InvalidInput, "seek refused"); cover(2) }
                        _ => check(false, "seek pending"),
                    }
                }
                3 => {
                    let mut b = vec![0u8; 2];
                    let e = if pos < m.len() as u64 { (m.len() - pos as usize).min(2) } else { 0 };
                    match Pin::new(&mut c).poll_read(&mut cx, &mut b) {
                        Poll::Ready(Ok(k)) => { check(k == e && (e == 0 || eq(&b[..k], &m[pos as usize..pos as usize + k])), "wrong bytes"); pos += k as u64 }
                        _ => check(false, "read from memory failed"),
                    }
                }
                _ => {
                    match Pin::new(&mut c).poll_flush(&mut cx) { Poll::Ready(Ok(())) => {} _ => check(false, "flush") }
                    match Pin::new(&mut c).poll_close(&mut cx) { Poll::Ready(Ok(())) => {} _ => check(false, "close") }
                    let x = choose(4) as u64;
                    c.set_position(x);
                    pos = x;
                }
            }
            let g: &[u8] = c.get_ref().as_ref();
            check(eq(g, &m), "wrong contents");
        }
    }} }
    match choose(4) {
        0 => go!(Cursor::new(init.clone()), true),
        1 => { let mut v = init.clone(); go!(Cursor::new(&mut v), true) }
        2 => { let mut v = init.clone(); go!(Cursor::new(&mut v[..]), false) }
        _ => go!(Cursor::new(init.clone().into_boxed_slice()), false),
    }
    cover(0);
}
/// seeks through Either and forwarding pointers, write_vectored and stream_position as futures
/// an abort from another thread stops a copy that waits for its reader or writer
fn cba() {
    let base = live();
    struct Never;
    impl AsyncRead for Never {
        fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut [u8]) -> Poll<R<usize>> { Poll::Pending }
    }
    impl AsyncBufRead for Never {
        fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<R<&[u8]>> { Poll::Pending }
        fn consume(self: Pin<&mut Self>, _: usize) { check(false, "consumed bytes that were never there") }
    }
    struct Full(bool);
    impl AsyncWrite for Full {
        fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<R<usize>> { check(!b.is_empty(), "empty write"); if self.0 { Poll::Pending } else { self.0 = true; Poll::Ready(Ok(1)) } }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<R<()>> { Poll::Pending }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<R<()>> { Poll::Pending }
    }
    let mut w = Full(choose(2) == 0);
    if choose(2) == 0 {
        let (c, h) = fio::copy_buf_abortable(Never, &mut w);
        let t = spawn(move || { h.abort(); check(h.is_aborted(), "is_aborted") });
        check(matches!(run(0, c), Ok(Err(_))), "not aborted");
        t.join();
    } else {
        let (c, h) = fio::copy_buf_abortable(&[1u8, 2][..], &mut w);
        let t = spawn(move || h.abort());
        check(matches!(run(0, c), Ok(Err(_))), "not aborted");
        t.join();
    }
    check(live() == base, "memory leaked");
    cover(0);
}
fn iomisc() {
    scene(param(0), || {
        let d = [1u8, 2, 3];
        let mut dr = Drv::new(param(1));
        match choose(4) {
            0 => {
                let o = choose(4) as u64;
                let mut e: futures::future::Either<Rd, Cursor<Vec<u8>>> = if flip() { futures::future::Either::Left(rd(0, &d, None)) } else { futures::future::Either::Right(Cursor::new(d.to_vec())) };
                match dr.drive(|cx| Pin::new(&mut e).poll_seek(cx, SeekFrom::Start(o))) { Ok(k) => check(k == o, "wrong position"), Err(_) => check(false, "failed") }
                let mut b = [0u8; 1];
                match dr.drive(|cx| Pin::new(&mut e).poll_read(cx, &mut b)) { Ok(k) => check(k == (o < 3) as usize && (k == 0 || b[0] == d[o as usize]), "wrong bytes"), Err(_) => check(false, "failed") }
                cover(1);
            }
            1 => {
                let mut r: Box<dyn AsyncSeek + Unpin> = Box::new(rd(0, &d, None));
                let o = choose(4) as u64;
                let mut p = Pin::new(&mut r);
                match dr.drive(|cx| p.as_mut().poll_seek(cx, SeekFrom::Start(o))) { Ok(k) => check(k == o, "wrong position"), Err(_) => check(false, "failed") }
                let mut f = Box::pin(r.stream_position());
                match dr.fut(&mut f) { Ok(k) => check(k == o, "stream_position"), Err(_) => check(false, "failed") }
                cover(2);
            }
            2 => {
                let (mut w, l) = wt(0, fault(3), 0);
                let (p, q) = [(0, 1), (1, 1), (2, 1)][choose(3)];
                let b = bytes(p + q);
                let v = [IoSlice::new(&b[..p]), IoSlice::new(&b[p..])];
                let mut f = Box::pin(w.write_vectored(&v));
                let x = dr.fut(&mut f);
                drop(f);
                let l = l.borrow();
                match x { Ok(k) => check(k > 0 && eq(&l.d, &b[..k]) && l.vec, "write_vectored"), Err(_) => check(l.failed && l.d.is_empty(), "error out of nowhere") }
                cover(3);
            }
            _ => {
                // every write of a sink writer is taken; what LineWriter holds is what has not been passed on
                let (w, l) = wt(0, None, 0);
                let mut s = Box::pin(LineWriter::with_capacity(4, w));
                let b = bytes(2);
                match dr.drive(|cx| s.as_mut().poll_write(cx, &b)) {
                    Ok(k) => { let l = l.borrow(); let mut t = l.d.clone(); t.extend_from_slice(s.buffer()); check(eq(&t, &b[..k]), "buffer") }
                    Err(_) => check(false, "failed"),
                }
                cover(4);
            }
        }
        cover(0);
    })
}
harness! {
    fn h_cur2() { cursor2() }
    fn h_iom() { iomisc() }
    fn h_cba() { cba() }
}
