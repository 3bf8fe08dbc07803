//! Stand-in for the memchr crate: the documented behaviour, scalar.
pub fn memchr(n: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == n {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn memrchr(n: u8, h: &[u8]) -> Option<usize> {
    let mut i = h.len();
    while i > 0 {
        i -= 1;
        if h[i] == n {
            return Some(i);
        }
    }
    None
}
pub fn memchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> {
    h.iter().position(|x| *x == a || *x == b)
}
pub fn memchr3(a: u8, b: u8, c: u8, h: &[u8]) -> Option<usize> {
    h.iter().position(|x| *x == a || *x == b || *x == c)
}
pub fn memrchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> {
    h.iter().rposition(|x| *x == a || *x == b)
}
pub fn memrchr3(a: u8, b: u8, c: u8, h: &[u8]) -> Option<usize> {
    h.iter().rposition(|x| *x == a || *x == b || *x == c)
}
pub fn memchr_iter<'h>(n: u8, h: &'h [u8]) -> impl Iterator<Item = usize> + 'h {
    h.iter().enumerate().filter(move |x| *x.1 == n).map(|x| x.0)
}
pub fn memrchr_iter<'h>(n: u8, h: &'h [u8]) -> impl Iterator<Item = usize> + 'h {
    h.iter().enumerate().rev().filter(move |x| *x.1 == n).map(|x| x.0)
}
