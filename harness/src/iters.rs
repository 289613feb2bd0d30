//! C05 to C08: the four iterators.
use crate::mini::*;
use crate::reference::*;
use matchit::readit::ReadIterator;
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::searchable::searchit::{RevSearchIterator, SearchIterator};
use matchit::searchable::SearchableMarkerTrait;
use matchit::{FromBytesReadableTrait, NoOffsetIterator, TIterator};
use rapiddlt::dlt_v1::*;
use sxrt::*;

/// the messages an iterator yields, against those expected, in order; then it stays exhausted
fn expect<'b, T: FromBytesReadableTrait<'b>>(mut it: impl Iterator<Item = (usize, T)>, want: &[(usize, usize)], c: u32) {
    for (i, (o, l)) in want.iter().enumerate() {
        match it.next() {
            None => { check(false, "a message is missing"); return }
            Some((p, t)) => {
                check(p == *o, "offset of a message");
                check(t.len() == *l, "length of a message");
                observe(p as u64);
                cover(c + 1 + (i as u32).min(4));
            }
        }
    }
    check(it.next().is_none(), "a message too many");
    check(it.next().is_none(), "a message after the end");
    cover(c);
}
fn c05<'b, F: Format, T: SearchableMarkerTrait<'b>>(b: &'b [u8], c: u32) {
    let want = sequential::<F>(b, 0);
    expect(<ReadFallbackIterator<T> as TIterator>::new(b, 0), &want, c);
    let mut k = 0;
    for t in NoOffsetIterator::new(ReadFallbackIterator::<T>::new(b, 0)) { check(k < want.len() && t.len() == want[k].1, "NoOffsetIterator yields other messages"); k += 1; }
    check(k == want.len(), "NoOffsetIterator yields fewer messages");
}
/// from any starting offset
fn c05_from<'b, F: Format, T: SearchableMarkerTrait<'b>>(b: &'b [u8], c: u32) {
    let from = pick(b.len() + 3);
    expect(ReadFallbackIterator::<T>::new(b, from), &sequential::<F>(b, from), c);
}
fn c06<'b, F: Format, T: SearchableMarkerTrait<'b>>(b: &'b [u8], c: u32) {
    let mut want = vec![];
    let mut o = 0;
    while o < b.len() && F::marker_at(b, o) { let l = fixed(F::msg_len(b, o)); if l == 0 { break } want.push((o, l)); o += l; }
    expect(<ReadIterator<T> as TIterator>::new(b, 0), &want, c);
}
fn c06_std(b: &[u8], c: u32) {
    let mut want = vec![];
    let mut o = 0;
    while o < b.len() { let l = fixed(std_len(b, o)); if l == 0 { break } want.push((o, l)); o += l; }
    expect(ReadIterator::<DltEntry>::new(b, 0), &want, c);
}
fn c07<'b, F: Format, T: SearchableMarkerTrait<'b>>(b: &'b [u8], c: u32) { c07_at::<F, T>(b, pick(b.len() + 1), c) }
fn c07_all<'b, F: Format, T: SearchableMarkerTrait<'b>>(b: &'b [u8], c: u32) { c07_at::<F, T>(b, 0, c) }
fn c07_at<'b, F: Format, T: SearchableMarkerTrait<'b>>(b: &'b [u8], from: usize, c: u32) {
    let mut want = vec![];
    let mut o = from;
    while o + F::MLEN <= b.len() {
        if !F::marker_at(b, o) { o = F::hop(b, o + 1, b.len()); continue }
        let l = fixed(F::msg_len(b, o));
        if l == 0 { o += F::MLEN } else { want.push((o, l)); o += l }
    }
    expect(<SearchIterator<T> as TIterator>::new(b, from), &want, c);
}
fn c08<'b, F: Format, T: SearchableMarkerTrait<'b>>(b: &'b [u8], c: u32) { c08_at::<F, T>(b, pick(b.len() + 1), c) }
fn c08_all<'b, F: Format, T: SearchableMarkerTrait<'b>>(b: &'b [u8], c: u32) { c08_at::<F, T>(b, b.len(), c) }
fn c08_at<'b, F: Format, T: SearchableMarkerTrait<'b>>(b: &'b [u8], from: usize, c: u32) {
    let mut want = vec![];
    let mut o = from;
    while o > 0 {
        if o > 64 { let k = sxrt::rskip(&b[..o], F::FIRST); if k > 0 { o -= k; continue } }
        o -= 1;
        if o + F::MLEN > from || !F::marker_at(b, o) { continue }
        let l = fixed(F::msg_len(b, o));
        if l != 0 { want.push((o, l)) }
    }
    expect(<RevSearchIterator<T> as TIterator>::new(b, from), &want, c);
}
macro_rules! mini { ($f:ident, $n:expr, $c:expr) => {{ let b = array::<$n>(); let n = pick($n + 1); $f::<MiniF<8>, Mini<8>>(&b[..n], $c) }}; }
macro_rules! dlt { ($f:ident, $n:expr, $c:expr) => {{ let b = array::<$n>(); let n = pick(5); $f::<Dlt, DltStorageEntry>(&b[..$n - [0, 1, 3, 4, 17][n]], $c) }}; }
/// messages of many lengths: a message at the start, of any length whose high byte is in the list, one at a chosen
/// place, and one behind; zeros between
macro_rules! long { ($f:ident, $n:expr, $hi:expr, $at:expr, $c:expr) => {{
    let mut b = vec![0u8; $n];
    let hdr = |b: &mut [u8], o: usize, hi: u8, lo: u8| { b[o..o + 4].copy_from_slice(&MARK); b[o + 18] = hi; b[o + 19] = lo; };
    hdr(&mut b, 0, $hi[pick($hi.len())], u8());
    let at = $at[pick($at.len())];
    hdr(&mut b, at, $hi[pick($hi.len())], [4, 5, 24, 255][pick(4)]);
    hdr(&mut b, $n - 24, 0, u8() & 15);
    $f::<Dlt, DltStorageEntry>(&b, $c)
}}; }
crate::entries! {
    h_c05_mini_q => mini!(c05, 18, 100), h_c05_mini_t => mini!(c05, 28, 100),
    h_c05_from_q => mini!(c05_from, 14, 110), h_c05_from_t => mini!(c05_from, 26, 110),
    h_c05_dlt_q => dlt!(c05, 46, 120), h_c05_dlt_t => dlt!(c05, 72, 120),
    h_c05_long_q => long!(c05, 620, [0, 1, 2], [277, 20], 125), h_c05_long_t => long!(c05, 70000, [0, 0x7f, 0xff], [20, 273, 65551], 125),
    h_c06_mini_q => mini!(c06, 20, 130), h_c06_mini_t => mini!(c06, 40, 130),
    h_c06_dlt_q => dlt!(c06, 80, 140), h_c06_dlt_t => dlt!(c06, 110, 140),
    h_c06_long_q => long!(c06, 620, [0, 1, 2], [277, 20], 145), h_c06_long_t => long!(c06, 70000, [0, 1, 0x7f, 0x80, 0xfe, 0xff], [20, 273, 300, 40000, 65551], 145),
    h_c06_std_q => {{ let b = array::<24>(); c06_std(&b, 150) }}, h_c06_std_t => {{ let b = array::<40>(); c06_std(&b, 150) }},
    h_c07_mini_q => mini!(c07, 14, 160), h_c07_mini_t => mini!(c07, 24, 160),
    h_c07_dlt_q => dlt!(c07, 32, 170), h_c07_dlt_t => dlt!(c07, 40, 170),
    h_c08_mini_q => mini!(c08, 12, 180), h_c08_mini_t => mini!(c08, 16, 180),
    h_c08_dlt_q => dlt!(c08_all, 27, 190), h_c08_dlt_t => dlt!(c08, 30, 190),
    h_c07_long_q => long!(c07_all, 620, [0, 1, 2], [277, 20], 175), h_c07_long_t => long!(c07_all, 2100, [0, 1, 4, 0xff], [20, 273, 1100], 175),
    h_c08_long_q => long!(c08_all, 620, [0, 1, 2], [277, 20], 195), h_c08_long_t => long!(c08_all, 2100, [0, 1, 4, 0xff], [20, 273, 1100], 195),
}
