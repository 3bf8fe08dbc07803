use crate::ctl::*;
use crate::rt::*;
use futures::channel::oneshot;
use futures::future::FusedFuture;
use futures::FutureExt;
use std::task::{Context, Poll};

crate::harness! {
// every sequence of API calls against a reference model of the channel
fn h_os_model() {
    let base = live();
    let n = param(0);
    {
    let (tx, rx) = oneshot::channel::<Tk>();
    check(tx.is_connected_to(&rx), "connected");
    let (mut tx, mut rx) = (Some(tx), Some(rx));
    let v = sym8();
    let mut complete = false;
    let mut slot = false;      // a value is in the channel
    let mut rx_wait: Option<usize> = None; // waker of the last pending receive
    let mut tx_wait: Option<usize> = None;
    for _ in 0..n {
        let op = choose(8);
        log(op as u64);
        match op {
            0 => if let Some(t) = tx.take() {
                let r = t.send(tk(v, 0));
                match r {
                    Ok(()) => { check(!complete, "send succeeded on a closed channel"); slot = true; check(alive(0), "sent value dropped"); cover(1); }
                    Err(x) => { check(complete, "send failed on an open channel"); check(x.0 == v, "returned value differs"); cover(2); }
                }
                complete = true;
                if let Some(w) = rx_wait.take() { check(woken(w), "receiver not woken by send"); cover(3); }
                tx_wait = None;
            },
            1 => if tx.take().is_some() {
                complete = true;
                if let Some(w) = rx_wait.take() { check(woken(w), "receiver not woken by sender drop"); }
                tx_wait = None;
            },
            2 | 3 => if let Some(r) = rx.as_mut() {
                let k = op - 2;
                let w = waker(k);
                clear_woken(k);
                match r.poll_unpin(&mut Context::from_waker(&w)) {
                    Poll::Pending => { check(!complete, "pending although the sender is gone"); rx_wait = Some(k); }
                    Poll::Ready(Ok(x)) => { check(slot, "value out of nowhere"); check(x.0 == v, "wrong value"); slot = false; cover(4); }
                    Poll::Ready(Err(_)) => { check(complete && !slot, "canceled although a value is there"); cover(5); }
                }
            },
            4 => if let Some(r) = rx.as_mut() {
                match r.try_recv() {
                    Ok(None) => check(!complete, "try_recv: empty although complete"),
                    Ok(Some(x)) => { check(slot && x.0 == v, "try_recv: wrong value"); slot = false; }
                    Err(_) => check(complete && !slot, "try_recv: canceled although a value is there"),
                }
            },
            5 => if let Some(r) = rx.as_mut() {
                r.close();
                complete = true;
                if let Some(w) = tx_wait.take() { check(woken(w), "sender not woken by close"); cover(6); }
            },
            6 => if let Some(r) = rx.take() {
                drop(r);
                complete = true;
                rx_wait = None;
                if let Some(w) = tx_wait.take() { check(woken(w), "sender not woken by receiver drop"); }
            },
            _ => if let Some(t) = tx.as_mut() {
                let k = 2 + choose(2);
                let w = waker(k);
                clear_woken(k);
                let mut cx = Context::from_waker(&w);
                let r = if choose(2) == 0 { t.poll_canceled(&mut cx) } else { t.cancellation().poll_unpin(&mut cx) };
                check(r.is_ready() == complete, "poll_canceled disagrees with the channel state");
                if r.is_pending() { tx_wait = Some(k); cover(7); }
            },
        }
        if let Some(t) = tx.as_ref() { check(t.is_canceled() == complete, "is_canceled"); }
        if let Some(r) = rx.as_ref() { check(r.is_terminated() == (complete && !slot), "is_terminated"); }
    }
    }
    check(!alive(0), "value leaked");
    no_wakers_held();
    check(live() == base, "memory leaked");
    cover(0);
}
// sender and receiver on two threads
fn h_os_send() {
    let base = live();
    let v = sym8();
    let (tx, mut rx) = oneshot::channel::<Tk>();
    let act = choose(2);
    let t = spawn(move || { if act == 0 { check(tx.send(tk(v, 0)).is_ok(), "send to a live receiver failed"); } else { drop(tx); } });
    if choose(2) == 1 {
        // an earlier poll with another waker
        let w = waker(1);
        match rx.poll_unpin(&mut Context::from_waker(&w)) {
            Poll::Ready(r) => { check(r.is_ok() == (act == 0), "early result"); if let Ok(x) = r { check(x.0 == v, "value"); } drop(rx); t.join(); check(live() == base, "memory leaked"); return; }
            Poll::Pending => cover(2),
        }
    }
    let r = run(0, rx);
    match r {
        Ok(x) => { check(act == 0, "value without send"); check(x.0 == v, "value differs"); }
        Err(_) => check(act == 1, "canceled although sent"),
    }
    cover(1);
    t.join();
    check(!alive(0), "value leaked");
    no_wakers_held();
    check(live() == base, "memory leaked");
}
// cancellation seen by the sender
fn h_os_cancel() {
    let base = live();
    let (mut tx, mut rx) = oneshot::channel::<Tk>();
    let act = choose(3);
    let t = spawn(move || { match act {
        0 => drop(rx),
        1 => { rx.close(); drop(rx) }
        _ => { let w = waker(1); check(rx.poll_unpin(&mut Context::from_waker(&w)).is_pending(), "nothing sent"); drop(rx) }
    } });
    if choose(2) == 1 {
        let w = waker(2);
        let _ = tx.poll_canceled(&mut Context::from_waker(&w));
    }
    run(0, tx.cancellation());
    check(tx.is_canceled(), "is_canceled after cancellation");
    match tx.send(tk(1, 0)) { Ok(_) => check(false, "send after cancellation succeeded"), Err(x) => check(x.0 == 1, "value") }
    cover(1);
    t.join();
    no_wakers_held();
    check(live() == base, "memory leaked");
}
// send against close/receive: the value ends up in exactly one place
fn h_os_close() {
    let base = live();
    let (tx, mut rx) = oneshot::channel::<Tk>();
    let v = sym8();
    let act = choose(4);
    let t = spawn(move || { match tx.send(tk(v, 0)) { Ok(()) => gset(190, 1), Err(x) => { check(x.0 == v, "returned value"); gset(190, 2) } } });
    let mut got = false;
    let mut dead = false;
    let mut last = false;
    match act {
        0 => { let w = waker(0); match rx.poll_unpin(&mut Context::from_waker(&w)) { Poll::Ready(Ok(_)) => got = true, Poll::Ready(Err(_)) => dead = true, _ => {} } }
        1 => match rx.try_recv() { Ok(Some(_)) => got = true, Err(_) => dead = true, _ => {} },
        2 => { rx.close(); let w = waker(0); match rx.poll_unpin(&mut Context::from_waker(&w)) { Poll::Ready(Ok(_)) => got = true, Poll::Ready(Err(_)) => dead = true, _ => check(false, "pending after close") } }
        _ => { rx.close(); match rx.try_recv() { Ok(Some(_)) => got = true, Err(_) => dead = true, _ => check(false, "empty after close") } }
    }
    if choose(2) == 1 {
        t.join();
        if !got { last = true; match rx.try_recv() { Ok(Some(x)) => { check(!dead, "value after cancellation was reported"); check(x.0 == v, "value"); got = true } _ => {} } }
        let s = gget(190);
        if s == 1 { check(got || !last, "accepted value lost") }
        if s == 2 { check(!got, "value both returned and received") }
        if got { check(s == 1, "received value reported as not sent"); cover(1) } else { cover(2) }
        drop(rx);
    } else {
        drop(rx);
        t.join();
        let s = gget(190);
        if got { check(s == 1, "received value reported as not sent") }
        if dead { check(s == 2, "send accepted although cancellation was reported"); cover(3) }
    }
    check(!alive(0), "value leaked");
    no_wakers_held();
    check(live() == base, "memory leaked");
}
}
