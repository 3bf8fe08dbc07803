//! Interface of the harnesses to the symbolic executor (and to the native replay runtime).
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

extern "C" {
    fn vp_sym(width: u32) -> u64;
    fn vp_assume(c: u64);
    fn vp_check(c: u64, p: *const u8, n: usize);
    fn vp_cover(id: u64);
    fn vp_choose(n: u64) -> u64;
    fn vp_spawn(f: extern "C-unwind" fn(*mut ()), a: *mut ()) -> u64;
    fn vp_join(t: u64);
    fn vp_yield();
    fn vp_gget(i: u64) -> u64;
    fn vp_gset(i: u64, v: u64);
    fn vp_gadd(i: u64, v: u64) -> u64;
    fn vp_log(v: u64);
    fn vp_param(i: u64) -> u64;
    fn vp_live() -> u64;
    fn vp_conc(v: u64) -> u64;
    fn vp_tid() -> u64;
    fn vp_wake(i: u64);
    fn vp_wait(i: u64);
}

pub struct VpPanic;

#[no_mangle]
pub extern "C-unwind" fn vp_rt_panic() -> ! {
    std::panic::resume_unwind(Box::new(VpPanic))
}

/// symbolic values
pub fn sym8() -> u8 {
    unsafe { vp_sym(8) as u8 }
}
pub fn sym32() -> u32 {
    unsafe { vp_sym(32) as u32 }
}
pub fn sym64() -> u64 {
    unsafe { vp_sym(64) }
}
pub fn flip() -> bool {
    unsafe { vp_sym(1) != 0 }
}
/// symbolic value in 0..n, explored value by value
pub fn choose(n: usize) -> usize {
    unsafe { vp_choose(n as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { vp_assume(c as u64) }
}
#[track_caller]
pub fn check(c: bool, m: &'static str) {
    unsafe { vp_check(c as u64, m.as_ptr(), m.len()) }
}
pub fn cover(id: u64) {
    unsafe { vp_cover(id) }
}
pub fn log(v: u64) {
    unsafe { vp_log(v) }
}
/// concrete bound given on the command line of the executor
pub fn param(i: u64) -> usize {
    unsafe { vp_param(i) as usize }
}
/// number of live heap allocations
pub fn live() -> u64 {
    unsafe { vp_live() }
}
/// fork over the feasible values
pub fn conc(v: u64) -> u64 {
    unsafe { vp_conc(v) }
}
pub fn gget(i: u64) -> u64 {
    unsafe { vp_gget(i) }
}
pub fn gset(i: u64, v: u64) {
    unsafe { vp_gset(i, v) }
}
pub fn gadd(i: u64, v: u64) -> u64 {
    unsafe { vp_gadd(i, v) }
}
pub fn tid() -> u64 {
    unsafe { vp_tid() }
}
/// scheduling point
pub fn pause() {
    unsafe { vp_yield() }
}

extern "C-unwind" fn tramp(a: *mut ()) {
    let f: Box<Box<dyn FnOnce()>> = unsafe { Box::from_raw(a as *mut Box<dyn FnOnce()>) };
    f()
}
pub struct Thr(u64);
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) -> Thr {
    let b: Box<Box<dyn FnOnce()>> = Box::new(Box::new(f));
    Thr(unsafe { vp_spawn(tramp, Box::into_raw(b) as *mut ()) })
}
impl Thr {
    pub fn join(self) {
        unsafe { vp_join(self.0) }
    }
}

/// wait for the end of thread number t
pub fn join_id(t: u64) {
    unsafe { vp_join(t) }
}
/// wake waiter i (see `wait`) without a waker
pub unsafe fn wake_ghost(i: usize) {
    unsafe { vp_wake(g(i, 0)) }
}

// ---- wakers: ghost slot 8*i = pending wake flag, 8*i+1 = wake count (up to 15), +2 = live clones
fn g(i: usize, k: u64) -> u64 {
    i as u64 * 8 + k
}
const VT: RawWakerVTable = RawWakerVTable::new(
    |p| {
        let i = p as usize - 1;
        gadd(g(i, 2), 1);
        RawWaker::new(p, &VT)
    },
    |p| {
        let i = p as usize - 1;
        do_wake(i);
        gadd(g(i, 2), u64::MAX);
    },
    |p| do_wake(p as usize - 1),
    |p| {
        gadd(g(p as usize - 1, 2), u64::MAX);
    },
);
fn do_wake(i: usize) {
    if gget(g(i, 1)) < 15 {
        gadd(g(i, 1), 1);
    }
    unsafe { vp_wake(g(i, 0)) }
}
/// waker number i (i < 24)
pub fn waker(i: usize) -> Waker {
    gadd(g(i, 2), 1);
    unsafe { Waker::from_raw(RawWaker::new((i + 1) as *const (), &VT)) }
}
pub fn woken(i: usize) -> bool {
    gget(g(i, 0)) != 0
}
pub fn clear_woken(i: usize) {
    gset(g(i, 0), 0)
}
pub fn wakes(i: usize) -> u64 {
    gget(g(i, 1))
}
/// clones of the waker alive (the original included)
pub fn clones(i: usize) -> u64 {
    gget(g(i, 2))
}
/// block this thread until waker i has been woken since the last wait; a lost wake-up is a deadlock
pub fn wait(i: usize) {
    unsafe { vp_wait(g(i, 0)) }
}
pub fn poll<F: Future + Unpin + ?Sized>(f: &mut F, w: &Waker) -> Poll<F::Output> {
    Pin::new(f).poll(&mut Context::from_waker(w))
}
/// run a future to completion on this thread, parking between polls
pub fn run<F: Future>(i: usize, f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = waker(i);
    let mut spin = 0;
    loop {
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(v) => return v,
            Poll::Pending => {
                // woken from inside the poll again and again: let the others run
                spin = if woken(i) { spin + 1 } else { 0 };
                if spin >= 2 {
                    std::thread::yield_now()
                }
                wait(i)
            }
        }
    }
}
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ())
}
#[macro_export]
macro_rules! harness {
    ($(fn $n:ident() $b:block)*) => { $( #[no_mangle] pub extern "C-unwind" fn $n() $b )* };
}
