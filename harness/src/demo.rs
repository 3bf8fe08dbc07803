//! Not a property: what the executor understands of std (run by selftest.sh)
use crate::rt::*;
use std::collections::*;
use std::sync::*;
use std::sync::atomic::*;
crate::harness! {
fn h_d_int() {
    let a = [0, 7, 1u64 << 63, u64::MAX - 1, 0x1234_5678_9abc_def0][choose(5)];
    let b = sym8();
    let k = b as u32 & 7;
    log(a.rotate_left(k) ^ a.rotate_right(3));
    log(a.leading_zeros() as u64 + a.trailing_zeros() as u64 + a.count_ones() as u64);
    log(a.swap_bytes() ^ a.reverse_bits() ^ u64::from_be(a));
    log(a.saturating_add(b as u64).saturating_sub(9).wrapping_mul(77));
    log((a as i64).saturating_add(b as i64) as u64);
    log((a as i64).checked_neg().map_or(5, |x| x as u64));
    log((a as u128 * a as u128 >> 64) as u64);
    log((a as usize).checked_mul(3).map_or(1, |x| x as u64));
    log(a.abs_diff(44).wrapping_add((a & 0xff).pow(2)));
    log((a as i64).unsigned_abs());
    log((a & 0xff).is_power_of_two() as u64 + ((a & 0xff).next_power_of_two()));
    log((a & 0xff).div_ceil(3) + (a & 0xff).isqrt() + a.min(9).max(3).clamp(1, 5));
    log((a as i64).rem_euclid(7) as u64);
    log((a as i32 >> 3) as u64 ^ (a as i8 as i64) as u64);
    log((b as i8).signum() as u64);
    cover(0);
}
fn h_d_vec() {
    let mut v: Vec<u8> = (0..4).map(|_| sym8() & 3).collect();
    v.sort();
    check(v.windows(2).all(|w| w[0] <= w[1]), "sorted");
    v.dedup();
    v.retain(|x| *x != 2);
    v.extend_from_slice(&[7, 8, 9]);
    v.splice(0..1, [5, 6]);
    v.rotate_left(1);
    v.reverse();
    v.insert(1, 3);
    v.swap_remove(0);
    v.truncate(5);
    let d: Vec<u8> = v.drain(1..3).collect();
    let mut q: VecDeque<u8> = v.into_iter().chain(d).collect();
    q.push_front(1);
    q.rotate_left(1);
    q.make_contiguous().sort_unstable_by(|a, b| b.cmp(a));
    log(q.iter().rev().skip(1).step_by(2).map(|x| *x as u64).sum());
    log(q.iter().position(|x| *x == 7).map_or(99, |x| x as u64));
    log(q.binary_search(&3).unwrap_or(8) as u64);
    let mut h: BinaryHeap<u8> = q.iter().copied().collect();
    log(h.pop().unwrap() as u64);
    let m: BTreeMap<u8, usize> = q.iter().copied().zip(0..).collect();
    for (k, v) in &m { log(*k as u64 * 10 + *v as u64) }
    let mut s = BTreeSet::new();
    for x in h.into_sorted_vec() { s.insert(x); }
    log(s.range(2..).count() as u64);
    let mut l = LinkedList::new();
    l.push_back(1u64);
    l.push_front(2);
    log(l.iter().fold(0, |a, b| a * 10 + b));
    let c: Vec<Vec<u8>> = q.iter().copied().collect::<Vec<_>>().chunks(2).map(|c| c.to_vec()).collect();
    log(c.concat().len() as u64 + c.iter().flatten().max().map_or(0, |x| *x as u64));
    let (a, b): (Vec<u8>, Vec<u8>) = q.iter().partition(|x| **x > 4);
    log(a.len() as u64 * 100 + b.len() as u64);
    let mut arr = [3u8, 1, 2];
    arr.sort_by_key(|x| std::cmp::Reverse(*x));
    check(arr == [3, 2, 1], "array");
    let r: Result<Vec<u8>, u8> = arr.iter().map(|x| if *x < 9 { Ok(*x) } else { Err(*x) }).collect();
    log(r.unwrap().split(|x| *x == 2).count() as u64);
    cover(0);
}
fn h_d_str() {
    let n = choose(300);
    let s = format!("{}-{:?}-{:>5}-{:x}", n, Some(n), "ab", n);
    for b in s.bytes() { log(b as u64) }
    log(s.split('-').filter_map(|x| x.parse::<u64>().ok()).sum());
    let mut t = String::from("héé");
    t.push('x');
    t.insert_str(0, "q");
    log(t.chars().count() as u64 + t.char_indices().nth(2).unwrap().0 as u64);
    log(t.find("éx").map_or(0, |x| x as u64) + t.trim_end_matches('x').len() as u64);
    log(String::from_utf8_lossy(&[0xff, 65]).len() as u64);
    log(t.to_uppercase().len() as u64 + t.replace('x', "yy").len() as u64);
    log("a\r\nb\n".lines().map(|x| x.len() as u64).sum());
    cover(0);
}
fn h_d_map() {
    let mut m: HashMap<u8, u8> = HashMap::new();
    for i in 0..5 { m.insert(i, i * 2); }
    *m.entry(3).or_insert(0) += 1;
    m.retain(|k, _| *k != 1);
    log(m.get(&3).copied().unwrap_or(0) as u64 + m.len() as u64);
    let s: HashSet<u8> = m.keys().copied().collect();
    log(s.contains(&1) as u64);
    let x = sym8();
    let t: HashSet<u8> = [x & 1].into_iter().collect();
    log(t.contains(&1) as u64);
    cover(0);
}
fn h_d_sync() {
    static O: OnceLock<u64> = OnceLock::new();
    let m = Arc::new((std::sync::Mutex::new(0u64), Condvar::new(), RwLock::new(1u64), AtomicUsize::new(0)));
    let m2 = m.clone();
    let t = spawn(move || {
        *m2.2.write().unwrap() += 1;
        log(*O.get_or_init(|| 4));
        m2.3.fetch_max(3, Ordering::SeqCst);
        *m2.0.lock().unwrap() = 1;
        m2.1.notify_all();
    });
    let mut g = m.0.lock().unwrap();
    while *g == 0 { g = m.1.wait(g).unwrap() }
    drop(g);
    t.join();
    check(*m.2.read().unwrap() == 2 && m.0.try_lock().is_ok() && *O.get_or_init(|| 5) == 4, "sync");
    check(m.3.fetch_xor(1, Ordering::AcqRel) == 3 && m.3.fetch_nand(1, Ordering::Relaxed) == 2, "rmw");
    let l = LazyLock::new(|| 3);
    check(*l == 3, "lazy");
    let p = AtomicPtr::new(Box::into_raw(Box::new(1u8)));
    drop(unsafe { Box::from_raw(p.swap(std::ptr::null_mut(), Ordering::AcqRel)) });
    fence(Ordering::SeqCst);
    cover(0);
}
fn h_d_chan() {
    let (tx, rx) = std::sync::mpsc::channel();
    let tx2 = tx.clone();
    let t = spawn(move || { tx2.send(1u8).unwrap(); });
    tx.send(2).unwrap();
    drop(tx);
    let s: u64 = rx.iter().map(|x| x as u64).sum();
    check(s == 3, "std channel");
    t.join();
    cover(0);
}
fn h_d_panic() {
    let r = catch(|| { let v: Vec<u8> = vec![1]; let i = sym8() as usize; v[i] });
    if r.is_err() { cover(1) } else { cover(2) }
    let r = std::panic::catch_unwind(|| { std::panic::panic_any(5u8) });
    check(r.unwrap_err().downcast_ref::<u8>() == Some(&5), "payload");
    let r = std::panic::catch_unwind(|| -> u8 { let x: Result<u8, u8> = Err(3); x.expect("boom") });
    check(r.unwrap_err().downcast_ref::<String>().is_none_or(|s| s == "boom: 3"), "message");
    check(std::panic::catch_unwind(|| { assert_eq!(sym8() | 1, 0, "x {}", 1) }).is_err(), "assert_eq");
}
fn h_d_float() {
    let x = choose(5) as f64;
    log((x * 1.5 + 0.5) as u64);
    log((x / 2.0).ceil() as u64 + x.sqrt() as u64);
    log((x as f32 > 1.5) as u64);
    cover(0);
}
fn h_d_time() {
    let a = std::time::Instant::now();
    let b = a + std::time::Duration::from_millis(3);
    check(b > a && a.elapsed() < std::time::Duration::from_secs(1 << 40), "time");
    std::thread::yield_now();
    log(std::thread::panicking() as u64);
    let _ = std::thread::current().id();
    cover(0);
}
fn h_d_any() {
    use std::any::Any;
    let v: Vec<Box<dyn Any>> = vec![Box::new(1u8), Box::new("x"), Box::new(String::from("y"))];
    log(v.iter().filter(|x| x.is::<u8>() || x.downcast_ref::<String>().is_some()).count() as u64);
    let f: [Box<dyn Fn(u64) -> u64>; 2] = [Box::new(|x| x + 1), Box::new(|x| x * 2)];
    log(f[choose(2)](sym8() as u64));
    let r = std::rc::Rc::new(std::cell::RefCell::new(3u8));
    let w = std::rc::Rc::downgrade(&r);
    *r.borrow_mut() += 1;
    log(w.upgrade().map_or(0, |x| *x.borrow() as u64));
    drop(r);
    check(w.upgrade().is_none(), "weak");
    let a: std::sync::Arc<str> = "abc".into();
    let c: std::borrow::Cow<'_, str> = "x".into();
    log(a.len() as u64 + c.into_owned().len() as u64);
    let mut o = Some(3);
    log(o.take_if(|x| *x == 3).unwrap_or(0) + o.replace(4).map_or(1, |x| x) + std::mem::take(&mut o).unwrap());
    let mut mu = std::mem::MaybeUninit::<[u8; 4]>::uninit();
    let b = unsafe { mu.as_mut_ptr().write([1, 2, 3, 4]); mu.assume_init() };
    log(u32::from_le_bytes(b) as u64);
    cover(0);
}
}
