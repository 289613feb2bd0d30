//! C09 to C11: containers and partitions.
use crate::mini::*;
use crate::reference::*;
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::searchable::SearchableMarkerTrait;
use matchit::{partition_from, ContainedBySearch, FromBytesReadableTrait};
use rapiddlt::dlt_v1::*;
use rapiddlt::dltbuffer::DltBuffer;
use sxrt::*;

/// the messages whose marker is not inside another of them, in order
fn outermost<F: Format>(b: &[u8], to: usize) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = vec![];
    let mut next = 0;
    while next < to {
        let p = F::hop(b, next, to);
        next = p + 1;
        if p == to || !F::marker_at(b, p) { continue }
        let l = fixed(F::msg_len(b, p));
        if l == 0 { continue }
        let mut inside = false;
        for (q, m) in &v { inside |= q + m >= p + F::MLEN }
        if !inside { v.push((p, l)) }
    }
    v
}
fn c09_at<'b, F: Format, T: SearchableMarkerTrait<'b>>(b: &'b [u8], s: usize, e: usize, c: u32) {
    let got = ContainedBySearch::<T>::new().contained_by(b, (s, e));
    let mut want = None;
    if s < e && e <= b.len() {
        for (p, l) in outermost::<F>(b, s) { if want.is_none() && p + l >= e { want = Some((p, l)) } }
    }
    match (got, want) {
        (None, None) => cover(c),
        (Some((p, t)), Some((q, l))) => { cover(c + 1); check(p == q, "another container"); check(t.len() == l, "length of the container"); observe(p as u64); if q + l == b.len() && e == b.len() { cover(c + 2) } }
        (None, Some(_)) => check(false, "no container is found though there is one"),
        (Some(_), None) => check(false, "a container is found though there is none"),
    }
}
fn c09<'b, F: Format, T: SearchableMarkerTrait<'b>>(b: &'b [u8], c: u32) {
    let s = pick(b.len() + 2);
    let e = s + pick(4);
    c09_at::<F, T>(b, s, e, c)
}
fn c09_few<'b, F: Format, T: SearchableMarkerTrait<'b>>(b: &'b [u8], c: u32) {
    let s = b.len() - [0, 1, 2, 4, 9][pick(5)];
    c09_at::<F, T>(b, s, s + pick(3), c)
}
/// a payload of 1 to 4 bytes near the end of a message of any length up to the longest
fn c09_long(c: u32) {
    let mut b = vec![0u8; 66000];
    let at = [0, 37][pick(2)];
    b[at..at + 4].copy_from_slice(&MARK);
    b[at + 18] = [0, 1, 0xff][pick(3)];
    b[at + 19] = u8();
    let end = at + 16 + be16(&b, at + 18) as usize;
    let end = fixed(end);
    let e = end + 1 - [0, 1, 2, 17, 18][pick(5)].min(end);
    let s = e - [1, 4][pick(2)].min(e);
    c09_at::<Dlt, DltStorageEntry>(&b, s, e, c)
}
fn tiles(b: &[u8], parts: &[&[u8]]) {
    let mut o = 0;
    for p in parts {
        check(p.as_ptr() as usize == b.as_ptr() as usize + o, "a partition does not begin where the one before it ends");
        check(!p.is_empty(), "an empty partition");
        o += p.len();
    }
    check(o == b.len(), "the partitions end before the buffer does");
}
/// the parts, of the buffer and of its bytes alike
fn parts_of<'b, T: SearchableMarkerTrait<'b>>(d: &'b DltBuffer, num: usize) -> Vec<&'b [u8]> {
    let parts = partition_from::<T>(d.as_slice(), num);
    tiles(d.as_slice(), &parts);
    let same = d.partition::<T>(num);
    check(same.len() == parts.len(), "DltBuffer::partition gives other parts than partition_from");
    for (p, q) in parts.iter().zip(&same) { check(p.as_ptr() == q.as_ptr() && p.len() == q.len(), "DltBuffer::partition gives other parts than partition_from") }
    parts
}
fn c10<'b, F: Format, T: SearchableMarkerTrait<'b>>(d: &'b DltBuffer, c: u32) {
    let num = 1 + pick(d.len() + 2);
    let parts = parts_of::<T>(d, num);
    cover(c + (parts.len() as u32).min(4));
    for p in &parts { observe(p.len() as u64) }
}
fn c10_few<'b, F: Format, T: SearchableMarkerTrait<'b>>(d: &'b DltBuffer, c: u32) {
    let parts = parts_of::<T>(d, [1, 2, 3, 8][pick(4)]);
    cover(c + (parts.len() as u32).min(4));
    for p in &parts { observe(p.len() as u64) }
}
fn c10_long(c: u32) {
    let mut b = vec![0u8; 1500];
    let at = [20, 300][pick(2)];
    for (o, hi) in [(0, [0, 1, 2, 4][pick(4)]), (at, [0, 2, 5][pick(3)])] { b[o..o + 4].copy_from_slice(&MARK); b[o + 18] = hi; b[o + 19] = [4, 40, 200][pick(3)]; }
    let num = [1, 2, 3, 5, 16, 100, 1500, 3000][pick(8)];
    let d = DltBuffer::Read(b);
    let parts = parts_of::<DltStorageEntry>(&d, num);
    cover(c + (parts.len() as u32).min(4));
    for p in &parts { observe(p.len() as u64) }
}
fn c11_at<'b, F: Format, T: SearchableMarkerTrait<'b>>(d: &'b DltBuffer, num: usize, c: u32) {
    let b = d.as_slice();
    let want = sequential::<F>(b, 0);
    // every marker begins one of these messages or is inside one; a last, incomplete message is allowed
    let end = want.last().map_or(0, |x| x.0 + x.1);
    let mut tail = 0;
    let mut next = 0;
    while next < b.len() {
        let p = F::hop(b, next, b.len());
        next = p + 1;
        let mut inside = false;
        for (o, l) in &want { inside |= *o <= p && p + F::MLEN <= o + l }
        if !inside && F::marker_at(b, p) { assume(p >= end && tail == 0); tail += 1 }
    }
    let parts = parts_of::<T>(d, num);
    let mut k = 0;
    let mut base = 0;
    for p in &parts {
        for (o, t) in ReadFallbackIterator::<T>::new(p, 0) {
            check(k < want.len(), "the partitions yield messages the whole does not");
            check(base + o == want[k].0, "offset of a message of a partition");
            check(t.len() == want[k].1, "length of a message of a partition");
            k += 1;
        }
        base += p.len();
    }
    check(k == want.len(), "the partitions yield fewer messages than the whole");
    cover(c + (k as u32).min(4));
    if tail > 0 { cover(c + 5) }
    if parts.len() > 2 && k > 1 { cover(c + 6) }
    observe(k as u64);
    observe(parts.len() as u64);
}
fn c11<'b, F: Format, T: SearchableMarkerTrait<'b>>(d: &'b DltBuffer, c: u32) { c11_at::<F, T>(d, 1 + pick(d.len() + 2), c) }
fn c11_few<'b, F: Format, T: SearchableMarkerTrait<'b>>(d: &'b DltBuffer, c: u32) { c11_at::<F, T>(d, [2, 3, 4, 9][pick(4)], c) }
/// a split that falls near the end of a message of the greatest length
fn c11_long(c: u32) {
    let n = 131080 + 2 * pick(24);
    let mut b = vec![0u8; n];
    b[..4].copy_from_slice(&MARK);
    b[18] = 0xff;
    b[19] = 0xe0 + below(32);
    c11_at::<Dlt, DltStorageEntry>(&DltBuffer::Read(b), 2, c)
}
macro_rules! mini { ($f:ident, $n:expr, $c:expr) => {{ let b = array::<$n>(); let n = pick($n + 1); $f::<MiniF<8>, Mini<8>>(&b[..n], $c) }}; }
macro_rules! dlt { ($f:ident, $n:expr, $c:expr) => {{ let b = array::<$n>(); let n = pick(4); $f::<Dlt, DltStorageEntry>(&b[..$n - [0, 1, 4, 17][n]], $c) }}; }
macro_rules! each { ($f:ident, $n:expr, $c:expr) => {{ let b = array::<$n>(); let n = pick(4); $f::<Dlt, Each>(&b[..$n - [0, 1, 4, 17][n]], $c) }}; }
macro_rules! pmini { ($f:ident, $n:expr, $c:expr) => {{ let b = array::<$n>(); let n = pick($n + 1); $f::<MiniF<8>, Mini<8>>(&DltBuffer::Read(b[..n].to_vec()), $c) }}; }
macro_rules! peach { ($f:ident, $n:expr, $c:expr) => {{ let b = array::<$n>(); let n = pick(4); $f::<Dlt, Each>(&DltBuffer::Read(b[..$n - [0, 1, 4, 17][n]].to_vec()), $c) }}; }
macro_rules! long { ($f:ident, $n:expr, $hi:expr, $at:expr, $c:expr) => {{
    let mut b = vec![0u8; $n];
    let hdr = |b: &mut [u8], o: usize, hi: u8, lo: u8| { b[o..o + 4].copy_from_slice(&MARK); b[o + 18] = hi; b[o + 19] = lo; };
    hdr(&mut b, 0, $hi[pick($hi.len())], u8());
    let at = $at[pick($at.len())];
    hdr(&mut b, at, $hi[pick($hi.len())], [4, 24, 255][pick(3)]);
    hdr(&mut b, $n - 24, 0, 4 + (u8() & 7));
    $f::<Dlt, DltStorageEntry>(&DltBuffer::Read(b), $c)
}}; }
crate::entries! {
    h_c09_mini_q => mini!(c09, 11, 200), h_c09_mini_t => mini!(c09, 17, 200),
    h_c09_dlt_q => each!(c09_few, 30, 205), h_c09_dlt_t => dlt!(c09, 31, 205),
    h_c09_long => c09_long(210),
    h_c10_mini_q => pmini!(c10, 13, 220), h_c10_mini_t => pmini!(c10, 16, 220),
    h_c10_dlt_q => peach!(c10_few, 30, 230), h_c10_dlt_t => peach!(c10, 30, 230),
    h_c10_long => c10_long(235),
    h_c11_mini_q => pmini!(c11, 14, 240), h_c11_mini_t => pmini!(c11, 16, 240),
    h_c11_dlt_q => peach!(c11_few, 32, 250), h_c11_dlt_t => peach!(c11_few, 42, 250),
    h_c11_long_q => long!(c11_few, 620, [0, 1, 2], [277, 20], 260), h_c11_long_t => long!(c11_few, 1620, [0, 1, 2, 4], [277, 20], 260),
    h_c11_max => c11_long(270),
}
