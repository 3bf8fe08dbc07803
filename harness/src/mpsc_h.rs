use crate::ctl::*;
use crate::rt::*;
use futures::channel::mpsc;
use futures::future::poll_fn;
use futures::sink::{Sink, SinkExt};
use futures::stream::{FusedStream, Stream, StreamExt};
use std::collections::VecDeque;
use std::pin::Pin;
use std::task::{Context, Poll};

fn nop_cx<R>(k: usize, f: impl FnOnce(&mut Context<'_>) -> R) -> R {
    let w = waker(k);
    clear_woken(k);
    f(&mut Context::from_waker(&w))
}

fn poll_ready_err(tx: &mut mpsc::Sender<Tk>) -> bool {
    nop_cx(4, |cx| matches!(tx.poll_ready(cx), Poll::Ready(Err(_))))
}
/// reference model of the bounded channel
struct M {
    buffer: usize,
    q: VecDeque<u8>,
    open: bool,
    parked: [bool; 3],
    order: VecDeque<usize>, // parked senders (3 = a sender that is gone)
    live: [bool; 3],
    conn: [bool; 3],
    s_wait: [Option<usize>; 3],
    r_wait: Option<usize>,
    term: bool,
}
impl M {
    fn wake_rx(&mut self) {
        if let Some(w) = self.r_wait.take() {
            check(woken(w), "receiver not woken");
            cover(20);
        }
    }
    fn close(&mut self) {
        if self.open {
            self.open = false;
        }
        self.wake_rx();
    }
    fn unpark(&mut self) {
        if let Some(s) = self.order.pop_front() {
            if s < 3 {
                self.parked[s] = false;
                if let Some(w) = self.s_wait[s].take() {
                    check(woken(w), "parked sender not woken when space became available");
                    cover(21);
                }
            }
        }
    }
    fn gone(&mut self, s: usize) {
        // sender s no longer refers to the channel
        self.conn[s] = false;
        self.parked[s] = false;
        self.s_wait[s] = None;
        for o in self.order.iter_mut() {
            if *o == s {
                *o = 3
            }
        }
        if !self.conn[0] && !self.conn[1] && !self.conn[2] {
            self.close()
        }
    }
}
fn bounded_model(n: usize, ops: &[usize], maxs: usize) {
    let base = live();
    {
        let buffer = sym64() as usize;
        assume(buffer < (usize::MAX >> 2));
        let (tx, rx) = mpsc::channel::<u8>(buffer);
        check(tx.is_connected_to(&rx), "connected");
        let mut tx: [Option<mpsc::Sender<u8>>; 3] = [Some(tx), None, None];
        let mut rx = Some(rx);
        let mut m = M { buffer, q: VecDeque::new(), open: true, parked: [false; 3], order: VecDeque::new(), live: [true, false, false], conn: [true, false, false], s_wait: [None; 3], r_wait: None, term: false };
        for _ in 0..n {
            let op = ops[choose(ops.len())];
            let s = if op < 8 && m.live.iter().any(|x| *x) {
                // an existing sender
                let c = m.live.iter().filter(|x| **x).count();
                let mut k = choose(c);
                let mut r = 0;
                for i in 0..3 {
                    if m.live[i] {
                        if k == 0 {
                            r = i;
                            break;
                        }
                        k -= 1;
                    }
                }
                r
            } else {
                0
            };
            if op < 8 && tx[s].is_none() {
                continue;
            }
            log((op * 4 + s) as u64);
            match op {
                0 | 1 => {
                    let v = sym8();
                    let t = tx[s].as_mut().unwrap();
                    let r = if op == 0 { t.try_send(v) } else { t.start_send(v).map_err(|e| { let f = e.is_full(); check(f != e.is_disconnected(), "error kind"); return mk_err(f, v) }) };
                    match r {
                        Ok(()) => {
                            check(m.conn[s] && m.open, "send accepted on a closed channel");
                            check(!m.parked[s], "send accepted beyond the sender's capacity");
                            m.q.push_back(v);
                            if m.q.len() > m.buffer {
                                m.parked[s] = true;
                                m.order.push_back(s);
                                m.s_wait[s] = None;
                                cover(1);
                            }
                            m.wake_rx();
                        }
                        Err(e) => {
                            if e.is_full() {
                                check(m.conn[s] && m.parked[s], "full although there is room for this sender");
                                cover(2);
                            } else {
                                check(e.is_disconnected(), "error kind");
                                check(!m.conn[s] || !m.open, "disconnected although open");
                                cover(3);
                            }
                            check(e.into_inner() == v, "rejected value differs");
                        }
                    }
                }
                2 | 3 => {
                    let k = 4 + 2 * s + choose(2);
                    let t = tx[s].as_mut().unwrap();
                    let r = nop_cx(k, |cx| if op == 2 { t.poll_ready(cx) } else { Pin::new(&mut *t).poll_flush(cx) });
                    match r {
                        Poll::Pending => {
                            check(m.conn[s] && m.open && m.parked[s], "sender pending although it has room");
                            m.s_wait[s] = Some(k);
                            cover(4);
                        }
                        Poll::Ready(Ok(())) => {
                            check(if op == 3 { !m.conn[s] || !m.open || !m.parked[s] } else { m.conn[s] && m.open && !m.parked[s] }, "ready although full or closed");
                        }
                        Poll::Ready(Err(e)) => {
                            check(op == 2 && e.is_disconnected() && (!m.conn[s] || !m.open), "poll_ready error");
                        }
                    }
                }
                4 => {
                    // clone
                    let f = (0..3).find(|i| !m.live[*i]);
                    if let Some(f) = f {
                        if f < maxs {
                            let c = tx[s].as_ref().unwrap().clone();
                            if m.conn[s] {
                                check(c.same_receiver(tx[s].as_ref().unwrap()), "same_receiver");
                            }
                            m.live[f] = true;
                            m.conn[f] = m.conn[s];
                            m.parked[f] = false;
                            tx[f] = Some(c);
                            cover(5);
                        }
                    }
                }
                5 => {
                    tx[s] = None;
                    m.live[s] = false;
                    if m.conn[s] {
                        m.gone(s);
                    }
                }
                6 => {
                    let t = tx[s].as_mut().unwrap();
                    if choose(2) == 0 {
                        t.disconnect()
                    } else {
                        check(nop_cx(3, |cx| Pin::new(&mut *t).poll_close(cx)) == Poll::Ready(Ok(())), "poll_close");
                    }
                    check(t.is_closed(), "disconnected sender not closed");
                    match t.try_send(9) { Err(e) => check(e.is_disconnected() && e.into_inner() == 9, "error of a disconnected sender"), Ok(()) => check(false, "message accepted by a disconnected sender") }
                    if m.conn[s] {
                        m.gone(s);
                    }
                }
                7 => {
                    let t = tx[s].as_mut().unwrap();
                    t.close_channel();
                    if m.conn[s] {
                        m.close();
                        cover(6);
                    }
                }
                8 | 9 | 10 => {
                    if let Some(r) = rx.as_mut() {
                        let k = if op == 8 { choose(2) } else { 2 };
                        let out = match op {
                            8 => nop_cx(k, |cx| r.poll_next_unpin(cx)),
                            9 => match r.try_recv() {
                                Ok(v) => Poll::Ready(Some(v)),
                                Err(mpsc::TryRecvError::Empty) => Poll::Pending,
                                Err(mpsc::TryRecvError::Closed) => Poll::Ready(None),
                            },
                            _ => nop_cx(k, |cx| Pin::new(&mut r.recv()).poll(cx)).map(|x| x.ok()),
                        };
                        match out {
                            Poll::Ready(Some(v)) => {
                                match m.q.pop_front() {
                                    Some(x) => check(v == x, "messages reordered or corrupted"),
                                    None => check(false, "message out of nowhere"),
                                }
                                m.unpark();
                                cover(7);
                            }
                            Poll::Ready(None) => {
                                check(m.term || (!m.open && m.q.is_empty()), "end of stream although open or messages remain");
                                m.term = true;
                                cover(8);
                            }
                            Poll::Pending => {
                                check(m.q.is_empty(), "pending although a message is queued");
                                check(m.open, "pending although closed");
                                if op != 9 {
                                    m.r_wait = Some(k);
                                }
                            }
                        }
                    }
                }
                11 => {
                    if let Some(r) = rx.as_mut() {
                        r.close();
                        if !m.term {
                            m.open = false;
                            while !m.order.is_empty() {
                                m.unpark()
                            }
                        }
                        cover(9);
                    }
                }
                _ => {
                    if rx.is_some() {
                        rx = None;
                        m.r_wait = None;
                        m.open = false;
                        m.q.clear();
                        while !m.order.is_empty() {
                            m.unpark()
                        }
                        cover(10);
                    }
                }
            }
            for i in 0..3 {
                if let Some(t) = tx[i].as_ref() {
                    check(t.is_closed() == (!m.conn[i] || !m.open), "is_closed");
                }
            }
            if let Some(r) = rx.as_ref() {
                check(r.is_terminated() == m.term, "is_terminated");
                let h = r.size_hint();
                if m.term {
                    check(h == (0, Some(0)), "size_hint at the end");
                } else {
                    check(h.0 == m.q.len() && h.1 == if m.open { None } else { Some(m.q.len()) }, "size_hint");
                }
            }
        }
    }
    no_wakers_held();
    for i in 4..10 {
        check(clones(i) == 0, "waker leaked");
    }
    check(live() == base, "memory leaked");
    cover(0);
}
fn mk_err(full: bool, v: u8) -> mpsc::TrySendError<u8> {
    // an error of the wanted kind, made by a throw-away channel
    let (mut t, r) = mpsc::channel::<u8>(0);
    if full {
        let _ = t.try_send(0);
        let e = t.try_send(v).unwrap_err();
        drop(r);
        e
    } else {
        drop(r);
        t.try_send(v).unwrap_err()
    }
}
use std::future::Future;

crate::harness! {
fn h_mp_closeall() { close_wakes_all(param(0)) }
// all calls on one sender and the receiver
fn h_mp_model1() { bounded_model(param(0), &[0, 2, 5, 8, 9, 11, 12, 7], 1) }
// two senders, message traffic and parking
fn h_mp_model2() { bounded_model(param(0), &[0, 2, 4, 5, 8], 2) }
// the remaining entry points
fn h_mp_model3() { bounded_model(param(0), &[0, 1, 3, 4, 6, 7, 10, 9, 11], 2) }
// three senders, parking order
fn h_mp_model4() { bounded_model(param(0), &[0, 4, 9], 3) }

// unbounded channel against its model
fn h_mu_model() {
    let n = param(0);
    let base = live();
    {
        let (tx, rx) = mpsc::unbounded::<u8>();
        let mut tx = [Some(tx), None];
        let mut conn = [true, false];
        let mut rx = Some(rx);
        let mut q: VecDeque<u8> = VecDeque::new();
        let mut open = true;
        let mut term = false;
        let mut r_wait: Option<usize> = None;
        for _ in 0..n {
            let op = choose(11);
            let s = if op < 7 && tx[0].is_some() && tx[1].is_some() { choose(2) } else if tx[0].is_some() { 0 } else { 1 };
            if op < 7 && tx[s].is_none() { continue; }
            log((op * 2 + s) as u64);
            let mut wake = false;
            match op {
                0 | 1 => {
                    let v = sym8();
                    let t = tx[s].as_mut().unwrap();
                    let r = if op == 0 { t.unbounded_send(v).map_err(|e| { check(e.is_disconnected() && !e.is_full(), "error kind"); check(e.into_inner() == v, "rejected value differs"); }) } else { match choose(2) { 0 => t.start_send(v).map_err(|_| ()), _ => { let mut tr: &mpsc::UnboundedSender<u8> = t; Pin::new(&mut tr).start_send(v).map_err(|_| ()) } } };
                    check(r.is_ok() == (conn[s] && open), "send result disagrees with the channel state");
                    if r.is_ok() { q.push_back(v); wake = true; cover(1); } else { cover(2); }
                }
                2 => {
                    let f = (0..2).find(|i| tx[*i].is_none());
                    if let Some(f) = f { let c = tx[s].as_ref().unwrap().clone(); tx[f] = Some(c); conn[f] = conn[s]; }
                }
                3 => { tx[s] = None; if conn[s] { conn[s] = false; if !conn[1 - s] { open = false; wake = true; } } }
                4 => {
                    let t = tx[s].as_mut().unwrap();
                    match choose(3) {
                        0 => { t.disconnect(); if conn[s] { conn[s] = false; if !conn[1 - s] { open = false; wake = true; } } }
                        1 => { check(nop_cx(3, |cx| Pin::new(&mut *t).poll_close(cx)).is_ready(), "poll_close"); if conn[s] { conn[s] = false; if !conn[1 - s] { open = false; wake = true; } } }
                        _ => { let mut tr: &mpsc::UnboundedSender<u8> = t; check(nop_cx(3, |cx| Pin::new(&mut tr).poll_close(cx)).is_ready(), "poll_close"); if conn[s] { open = false; wake = true; } }
                    }
                }
                5 => { tx[s].as_ref().unwrap().close_channel(); if conn[s] { open = false; wake = true; } }
                6 => {
                    let t = tx[s].as_mut().unwrap();
                    let r = nop_cx(3, |cx| t.poll_ready(cx));
                    match r { Poll::Ready(Ok(())) => check(conn[s] && open, "ready although closed"), Poll::Ready(Err(_)) => check(!(conn[s] && open), "closed although open"), _ => check(false, "unbounded sender pending") }
                    check(nop_cx(3, |cx| Pin::new(&mut *t).poll_flush(cx)) == Poll::Ready(Ok(())), "flush");
                }
                7 | 8 => if let Some(r) = rx.as_mut() {
                    let k = if op == 7 { choose(2) } else { 2 };
                    let mut reg = op == 7;
                    let out = match op { 7 => nop_cx(k, |cx| r.poll_next_unpin(cx)), _ => if choose(2) == 0 { match r.try_recv() { Ok(v) => Poll::Ready(Some(v)), Err(mpsc::TryRecvError::Empty) => Poll::Pending, Err(mpsc::TryRecvError::Closed) => Poll::Ready(None) } } else { reg = true; nop_cx(k, |cx| Pin::new(&mut r.recv()).poll(cx)).map(|x| x.ok()) } };
                    match out {
                        Poll::Ready(Some(v)) => { match q.pop_front() { Some(x) => check(x == v, "messages reordered or corrupted"), None => check(false, "message out of nowhere") } cover(3) }
                        Poll::Ready(None) => { check(term || (!open && q.is_empty()), "end of stream although open or messages remain"); term = true; cover(4) }
                        Poll::Pending => { check(q.is_empty() && open, "pending although a message is queued or the channel is closed"); if reg { r_wait = Some(k) } }
                    }
                },
                9 => if let Some(r) = rx.as_mut() { r.close(); if !term { open = false; } },
                _ => if rx.is_some() { rx = None; open = false; q.clear(); r_wait = None; },
            }
            if wake { if let Some(w) = r_wait.take() { check(woken(w), "receiver not woken"); cover(5) } }
            for i in 0..2 { if let Some(t) = tx[i].as_ref() { check(t.is_closed() == !(conn[i] && open), "is_closed"); if conn[i] { check(t.len() == q.len() && t.is_empty() == q.is_empty(), "len"); } } }
            if let Some(r) = rx.as_ref() { check(r.is_terminated() == term, "is_terminated"); let h = r.size_hint(); if term { check(h == (0, Some(0)), "size_hint at the end") } else { check(h == (q.len(), if open { None } else { Some(q.len()) }), "size_hint") } }
        }
    }
    no_wakers_held();
    check(live() == base, "memory leaked");
    cover(0);
}

// p0 producers x p1 messages on threads, receiver drains to the end (buffer p2); flavour p3
fn h_mp_conc() {
    let base = live();
    let (np, nm, buffer) = (param(0), param(1), param(2));
    let (tx, mut rx) = mpsc::channel::<Tk>(buffer);
    let v = [sym8(), sym8(), sym8(), sym8()];
    let mut ts = Vec::new();
    for p in 0..np {
        let mut t = tx.clone();
        let vals = v;
        ts.push(spawn(move || {
            for i in 0..nm {
                run(4 + p, poll_fn(|cx| t.poll_ready(cx))).unwrap();
                check(t.try_send(tk(vals[p * nm + i], p * nm + i)).is_ok(), "ready sender refused");
            }
        }));
    }
    drop(tx);
    let mut next = [0usize; 4];
    let mut total = 0;
    while let Some(x) = run(0, rx.next()) {
        let p = x.1 / nm;
        check(x.1 % nm == next[p], "per-sender order broken");
        check(x.0 == v[x.1], "message corrupted");
        next[p] += 1;
        total += 1;
    }
    check(total == np * nm, "messages lost");
    check(rx.is_terminated(), "terminated");
    for t in ts { t.join(); }
    drop(rx);
    for i in 0..np * nm { check(dropped(i), "message leaked"); }
    check(live() == base, "memory leaked");
    cover(0);
}
fn h_mu_conc() {
    let base = live();
    let (np, nm) = (param(0), param(1));
    let (tx, mut rx) = mpsc::unbounded::<Tk>();
    let v = [sym8(), sym8(), sym8(), sym8()];
    let mut ts = Vec::new();
    for p in 0..np {
        let t = tx.clone();
        let vals = v;
        ts.push(spawn(move || {
            for i in 0..nm { check(t.unbounded_send(tk(vals[p * nm + i], p * nm + i)).is_ok(), "send refused"); }
        }));
    }
    drop(tx);
    let mut next = [0usize; 4];
    let mut total = 0;
    while let Some(x) = run(0, rx.next()) {
        let p = x.1 / nm;
        check(x.1 % nm == next[p], "per-sender order broken");
        check(x.0 == v[x.1], "message corrupted");
        next[p] += 1;
        total += 1;
    }
    check(total == np * nm, "messages lost");
    for t in ts { t.join(); }
    drop(rx);
    for i in 0..np * nm { check(dropped(i), "message leaked"); }
    check(live() == base, "memory leaked");
    cover(0);
}
// close or drop of the receiver against a sender that keeps sending: every accepted message is
// received by a draining receiver, a blocked sender is released
fn h_mp_close() {
    let base = live();
    let nm = param(0);
    let (mut tx, mut rx) = mpsc::channel::<Tk>(param(1));
    let t = spawn(move || {
        for i in 0..nm {
            match run(4, poll_fn(|cx| tx.poll_ready(cx))) {
                Err(e) => { check(e.is_disconnected(), "kind"); gset(180, 1); break }
                Ok(()) => match tx.try_send(tk(i as u8, i)) {
                    Ok(()) => { gadd(181, 1); }
                    Err(e) => { check(e.is_disconnected(), "ready sender found the channel full"); check(e.into_inner().1 == i, "value"); gset(180, 1); break }
                },
            }
        }
    });
    let pre = choose(2);
    let mut got = 0;
    if pre == 1 { match run(0, rx.next()) { Some(x) => { check(x.1 == 0, "first message"); got = 1 } None => check(false, "end before any message") } }
    if choose(2) == 0 {
        rx.close();
        while let Some(x) = run(0, rx.next()) { check(x.1 == got, "order after close"); got += 1; }
        cover(1);
        t.join();
        check(gget(181) as usize == got, "accepted message lost by close");
        if gget(180) == 0 { check(got == nm, "sender finished without sending"); cover(3) }
    } else {
        drop(rx);
        t.join();
        cover(2);
    }
    for i in 0..nm { check(!alive(i), "message leaked"); }
    check(live() == base, "memory leaked");
}
fn h_mu_close() {
    let base = live();
    let nm = param(0);
    let (tx, mut rx) = mpsc::unbounded::<Tk>();
    let t = spawn(move || {
        for i in 0..nm {
            match tx.unbounded_send(tk(i as u8, i)) {
                Ok(()) => { gadd(181, 1); }
                Err(e) => { check(e.into_inner().1 == i, "value"); gset(180, 1); break }
            }
        }
    });
    let pre = choose(2);
    let mut got = 0;
    if pre == 1 { match run(0, rx.next()) { Some(x) => { check(x.1 == 0, "first message"); got = 1 } None => check(false, "end before any message") } }
    if choose(2) == 0 {
        rx.close();
        while let Some(x) = run(0, rx.next()) { check(x.1 == got, "order after close"); got += 1; }
        cover(1);
        t.join();
        check(gget(181) as usize == got, "accepted message lost by close");
    } else {
        drop(rx);
        t.join();
        cover(2);
    }
    for i in 0..nm { check(!alive(i), "message leaked"); }
    check(live() == base, "memory leaked");
}
// the receiver closes or goes away while a sender is in the middle of a send: afterwards the sender sees a
// disconnected channel (not a full one), and nothing it sent is kept
fn h_mp_tclose() {
    let base = live();
    let unb = param(1) != 0;
    let gone = choose(2) == 1;
    if unb {
        let (tx, rx) = mpsc::unbounded::<Tk>();
        let slot = std::sync::Arc::new(std::sync::Mutex::new(None));
        let s2 = slot.clone();
        let t = spawn(move || { let mut rx = rx; if gone { drop(rx) } else { rx.close(); *s2.lock().unwrap() = Some(rx) } });
        let mut n = 0;
        for i in 0..param(0) { match tx.unbounded_send(tk(i as u8, i)) { Ok(()) => n += 1, Err(e) => { check(e.into_inner().1 == i, "value"); break } } }
        t.join();
        check(tx.is_closed() && tx.unbounded_send(tk(9, 9)).is_err(), "open after close");
        if gone { for i in 0..n { check(dropped(i), "message kept although the receiver is gone") } cover(1) }
        else { let mut rx = slot.lock().unwrap().take().unwrap(); for i in 0..n { check(rx.try_recv().map(|t| t.1) == Ok(i), "accepted message lost") } check(rx.try_recv().is_err(), "more messages than sent"); cover(0) }
    } else {
        let (mut tx, rx) = mpsc::channel::<Tk>(0);
        let slot = std::sync::Arc::new(std::sync::Mutex::new(None));
        let s2 = slot.clone();
        let t = spawn(move || { let mut rx = rx; if gone { drop(rx) } else { rx.close(); *s2.lock().unwrap() = Some(rx) } });
        let mut n = 0;
        for i in 0..param(0) { match tx.try_send(tk(i as u8, i)) { Ok(()) => n += 1, Err(e) => { check(e.into_inner().1 == i, "value"); break } } }
        t.join();
        match tx.try_send(tk(9, 9)) { Ok(()) => check(false, "accepted after close"), Err(e) => check(e.is_disconnected(), "a closed channel is reported as full") }
        check(tx.is_closed() && poll_ready_err(&mut tx), "open after close");
        if gone { for i in 0..n { check(dropped(i), "message kept although the receiver is gone") } cover(1) }
        else { let mut rx = slot.lock().unwrap().take().unwrap(); for i in 0..n { check(rx.try_recv().map(|t| t.1) == Ok(i), "accepted message lost") } check(rx.try_recv().is_err(), "more messages than sent"); cover(0) }
    }
    check(live() == base, "memory leaked");
}
// two senders, one closes the channel / both go away while the receiver waits
fn h_mp_sclose() {
    let base = live();
    let (mut tx, mut rx) = mpsc::channel::<Tk>(0);
    let mut tx2 = tx.clone();
    let a = choose(3);
    let t = spawn(move || { match a { 0 => drop(tx), 1 => { tx.close_channel(); drop(tx) } _ => { let _ = tx.try_send(tk(1, 0)); drop(tx) } } });
    let b = choose(2);
    let t2 = spawn(move || { if b == 0 { if tx2.try_send(tk(2, 1)).is_ok() { gset(180, 1) } } drop(tx2) });
    let mut got = 0;
    while let Some(x) = run(0, rx.next()) { if x.1 == 1 { got += 1 } }
    t.join();
    t2.join();
    if b == 0 { check(gget(180) == got, "accepted message lost"); cover(1) }
    drop(rx);
    check(live() == base, "memory leaked");
    cover(0);
}
// capacity: with the receiver idle, two threads cannot queue more than buffer + senders messages
fn h_mp_cap() {
    let buffer = param(0);
    let (tx, mut rx) = mpsc::channel::<u8>(buffer);
    let mut ts = Vec::new();
    for p in 0..2usize {
        let mut t = tx.clone();
        ts.push(spawn(move || {
            let mut n = 0;
            while n < 4 { match t.try_send(p as u8) { Ok(()) => n += 1, Err(e) => { check(e.is_full(), "kind"); break } } }
            gset(180 + p as u64, n as u64);
            check(n >= 1, "a sender's own slot was not available");
        }));
    }
    for t in ts { t.join(); }
    let n = (gget(180) + gget(181)) as usize;
    check(n >= buffer + 1, "shared buffer not usable");
    check(n <= buffer + 2, "more messages queued than buffer + senders");
    let mut k = 0;
    while rx.try_recv().is_ok() { k += 1; }
    check(k == n, "messages lost");
    drop(tx);
    cover(0);
}
// async send() of two messages against a slow receiver, two senders: back-pressure never deadlocks
fn h_mp_sink() {
    let base = live();
    let (tx, mut rx) = mpsc::channel::<u8>(param(0));
    let n = param(1);
    let mut ts = Vec::new();
    for p in 0..param(2) {
        let mut t = tx.clone();
        ts.push(spawn(move || run(4 + p, async { for i in 0..n { t.send((p * n + i) as u8).await.unwrap(); } })));
    }
    drop(tx);
    let mut k = 0;
    while let Some(_) = run(0, rx.next()) { k += 1; }
    check(k == n * param(2), "messages lost");
    for t in ts { t.join(); }
    drop(rx);
    check(live() == base, "memory leaked");
    cover(0);
}
}
/// up to three senders in any state when the receiver closes the channel or goes away: every
/// parked one is woken and learns that the channel is closed
fn close_wakes_all(ns: usize) {
    let base = live();
    {
        let buffer = choose(2);
        let (tx, mut rx) = mpsc::channel::<u8>(buffer);
        let mut txs = Vec::new();
        for _ in 1..ns { txs.push(tx.clone()) }
        txs.push(tx);
        let mut parked = [false; 3];
        for s in 0..ns {
            // as many messages as it takes, up to three
            for _ in 0..choose(4) {
                if txs[s].try_send(1).is_err() { break }
            }
            if flip() {
                let r = nop_cx(s, |cx| txs[s].poll_ready(cx));
                parked[s] = r.is_pending();
            }
        }
        if flip() { let _ = nop_cx(3, |cx| Pin::new(&mut rx).poll_next(cx)); }
        let mut n = 0;
        for s in 0..ns { if parked[s] && !woken(s) { n += 1 } }
        cover(n);
        if flip() { rx.close() } else { drop(rx) }
        for s in 0..ns {
            if parked[s] { check(woken(s), "sender not woken when the channel was closed") }
            check(txs[s].is_closed(), "channel not closed");
            check(match nop_cx(s, |cx| txs[s].poll_ready(cx)) { Poll::Ready(Err(e)) => e.is_disconnected(), _ => false }, "sender does not learn that the channel is closed");
            check(match txs[s].try_send(2) { Err(e) => e.is_disconnected(), Ok(()) => false }, "message accepted by a closed channel");
        }
    }
    check(live() == base, "memory leaked");
    no_wakers_held();
}

// dropping the receiver drops everything queued at once, however many senders are left
#[no_mangle]
pub extern "C-unwind" fn h_mp_rxdrop() {
    let base = live();
    {
        let unb = flip();
        let (a, mut ra) = mpsc::channel::<Tk>(choose(3));
        let (b, mut rb) = mpsc::unbounded::<Tk>();
        let mut ta = [a.clone(), a];
        let tb = [b.clone(), b];
        let mut n = 0;
        let mut sent = [false; 4];
        for _ in 0..param(0) {
            let k = choose(2);
            let t = tk(n as u8, n);
            let r = if unb { tb[k].unbounded_send(t).is_ok() } else { ta[k].try_send(t).is_ok() };
            sent[n] = r;
            if !r { check(dropped(n), "refused message kept") }
            n += 1;
        }
        let acc = (0..n).filter(|i| sent[*i]).count();
        let got = choose(acc + 1);
        for _ in 0..got {
            let r = if unb { rb.try_recv() } else { ra.try_recv() };
            check(r.is_ok(), "message missing");
        }
        let shut = choose(3);
        if shut == 1 { ra.close(); rb.close() }
        if shut == 2 { ta[0].close_channel(); tb[0].close_channel() }
        drop(ra);
        drop(rb);
        for i in 0..n { check(dropped(i), "message kept after the receiver was dropped") }
        if acc > got { cover(unb as u64) }
        check(ta[1].is_closed() && tb[1].is_closed(), "not closed");
        check(ta[1].try_send(tk(9, 9)).is_err() && tb[1].unbounded_send(tk(9, 10)).is_err(), "sent to nobody");
        check(dropped(9) && dropped(10), "refused message kept");
    }
    check(live() == base, "memory leaked");
}
