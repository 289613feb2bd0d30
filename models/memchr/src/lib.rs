//! memchr, by its documentation: the positions it finds, without the vector code. Used only in the symbolic
//! build (the native replay runs the real crate); every sampled path is compared with the real crate.
#[inline(always)]
fn at(h: &[u8], i: usize, n: &[u8]) -> bool {
    if n.len() > h.len() || i > h.len() - n.len() { return false }
    let mut k = 0;
    let mut r = true;
    while k < n.len() { r &= h[i + k] == n[k]; k += 1; }
    r
}
extern "C" { // bytes from the start, from the end, known to differ from the given one (a shortcut over concrete bytes)
    fn sx_skip(p: *const u8, n: usize, c: u8) -> usize;
    fn sx_rskip(p: *const u8, n: usize, c: u8) -> usize;
}
fn first(h: &[u8], from: usize, n: &[u8]) -> Option<usize> {
    let mut i = from;
    while i + n.len() <= h.len() {
        if n.len() > 0 && h.len() - i > 64 { let k = unsafe { sx_skip(h.as_ptr().add(i), h.len() - i, n[0]) }; if k > 0 { i += k; continue } }
        if at(h, i, n) { return Some(i) }
        i += 1;
    }
    None
}
fn last(h: &[u8], to: usize, n: &[u8]) -> Option<usize> {
    if n.len() > to { return None }
    let mut i = to - n.len() + 1;
    while i > 0 {
        if n.len() > 0 && i > 64 { let k = unsafe { sx_rskip(h.as_ptr(), i, n[0]) }; if k > 0 { i -= k; continue } }
        i -= 1;
        if at(h, i, n) { return Some(i) }
    }
    None
}
pub fn memchr(a: u8, h: &[u8]) -> Option<usize> { first(h, 0, &[a]) }
pub fn memrchr(a: u8, h: &[u8]) -> Option<usize> { last(h, h.len(), &[a]) }
pub fn memchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> { let mut i = 0; while i < h.len() { if (h[i] == a) | (h[i] == b) { return Some(i) } i += 1; } None }
pub fn memchr3(a: u8, b: u8, c: u8, h: &[u8]) -> Option<usize> { let mut i = 0; while i < h.len() { if (h[i] == a) | (h[i] == b) | (h[i] == c) { return Some(i) } i += 1; } None }
pub struct Memchr<'h> { a: u8, h: &'h [u8], pos: usize }
pub fn memchr_iter(a: u8, h: &[u8]) -> Memchr<'_> { Memchr { a, h, pos: 0 } }
impl<'h> Iterator for Memchr<'h> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> { let r = first(self.h, self.pos, &[self.a])?; self.pos = r + 1; Some(r) }
}
pub mod memmem {
    use std::borrow::Cow;
    pub fn find(h: &[u8], n: &[u8]) -> Option<usize> { super::first(h, 0, n) }
    pub fn rfind(h: &[u8], n: &[u8]) -> Option<usize> { super::last(h, h.len(), n) }
    pub fn find_iter<'h, 'n, N: 'n + ?Sized + AsRef<[u8]>>(h: &'h [u8], n: &'n N) -> FindIter<'h, 'n> { FindIter { h, n: Cow::Borrowed(n.as_ref()), pos: 0 } }
    pub fn rfind_iter<'h, 'n, N: 'n + ?Sized + AsRef<[u8]>>(h: &'h [u8], n: &'n N) -> FindRevIter<'h, 'n> { FindRevIter { h, n: Cow::Borrowed(n.as_ref()), pos: Some(h.len()) } }
    #[derive(Debug, Clone)]
    pub struct Finder<'n>(Cow<'n, [u8]>);
    impl<'n> Finder<'n> {
        pub fn new<B: ?Sized + AsRef<[u8]>>(n: &'n B) -> Finder<'n> { Finder(Cow::Borrowed(n.as_ref())) }
        pub fn find(&self, h: &[u8]) -> Option<usize> { super::first(h, 0, &self.0) }
        pub fn find_iter<'a, 'h>(&'a self, h: &'h [u8]) -> FindIter<'h, 'a> { FindIter { h, n: Cow::Borrowed(&self.0), pos: 0 } }
        pub fn into_owned(self) -> Finder<'static> { Finder(Cow::Owned(self.0.into_owned())) }
        pub fn as_ref(&self) -> Finder<'_> { Finder(Cow::Borrowed(&self.0)) }
        pub fn needle(&self) -> &[u8] { &self.0 }
    }
    #[derive(Debug, Clone)]
    pub struct FindIter<'h, 'n> { h: &'h [u8], n: Cow<'n, [u8]>, pos: usize }
    impl<'h, 'n> Iterator for FindIter<'h, 'n> {
        type Item = usize;
        fn next(&mut self) -> Option<usize> {
            let r = super::first(self.h, self.pos, &self.n)?;
            self.pos = r + self.n.len().max(1);
            Some(r)
        }
    }
    #[derive(Debug, Clone)]
    pub struct FinderRev<'n>(Cow<'n, [u8]>);
    impl<'n> FinderRev<'n> {
        pub fn new<B: ?Sized + AsRef<[u8]>>(n: &'n B) -> FinderRev<'n> { FinderRev(Cow::Borrowed(n.as_ref())) }
        pub fn rfind<B: AsRef<[u8]>>(&self, h: B) -> Option<usize> { let h = h.as_ref(); super::last(h, h.len(), &self.0) }
        pub fn rfind_iter<'a, 'h>(&'a self, h: &'h [u8]) -> FindRevIter<'h, 'a> { FindRevIter { h, n: Cow::Borrowed(&self.0), pos: Some(h.len()) } }
        pub fn into_owned(self) -> FinderRev<'static> { FinderRev(Cow::Owned(self.0.into_owned())) }
        pub fn as_ref(&self) -> FinderRev<'_> { FinderRev(Cow::Borrowed(&self.0)) }
        pub fn needle(&self) -> &[u8] { &self.0 }
    }
    #[derive(Debug, Clone)]
    pub struct FindRevIter<'h, 'n> { h: &'h [u8], n: Cow<'n, [u8]>, pos: Option<usize> }
    impl<'h, 'n> Iterator for FindRevIter<'h, 'n> {
        type Item = usize;
        fn next(&mut self) -> Option<usize> {
            let pos = self.pos?;
            match super::last(self.h, pos, &self.n) {
                None => { self.pos = None; None }
                Some(i) => { self.pos = if i == pos { pos.checked_sub(1) } else { Some(i) }; Some(i) }
            }
        }
    }
}
