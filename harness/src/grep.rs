//! C12 to C14: pattern search over messages.
use crate::mini::*;
use crate::reference::*;
use matchit::searchable::grepit::{GrepIterator, RegExMatcherIterator};
use matchit::searchable::SearchableMarkerTrait;
use regex::bytes::Regex;
use rapiddlt::dlt_v1::*;
use sxrt::*;

/// patterns none of whose matches contains the first byte of a marker, or is a part of a longer one
const PLAIN: &[&str] = &["a", "ab", "aba", "a+b", "a|bc", "(?-u)[a-c]x", "Ab", "é", "a.b", "x{2}y", "(?i)k"];
/// with group 1
const GROUPS: &[&str] = &["(a)", "x(a+)y", "(a)|b", "a(b)?c", "(a*)b", "a(b|c)a", "x(.)y", "(?i)A(b)"];
/// matches that are empty, span messages or contain markers
const WILD: &[&str] = &["a*", "", "a|$", "(?s-u).", "(?s-u)a.*", "(?-u)\\xd1", "(?s-u)z.?", "(?-u)\\x7a\\x03", "^a", "(?s-u)a..", "ab?", "a.", "(?m)^a"];
const WILD_GROUPS: &[&str] = &["(a*)", "()", "(a)?", "(?s-u)(.)", "(?s-u)a(.*)", "(?-u)(\\xd1)", "(?s-u)z(.?)", "(?s-u)(a)|.", "a(b)?", "a(.)", "(?m)a($)"];

fn is_message<F: Format>(b: &[u8], o: usize, l: usize) { check(o < b.len() && F::marker_at(b, o) && F::msg_len(b, o) == l, "what is found is not a complete message") }
/// is there a match inside the message, behind its marker?
fn matched<F: Format>(re: &Regex, b: &[u8], o: usize, l: usize) -> bool {
    for at in o + F::MLEN..o + l {
        if let Some(m) = re.find_at(b, at) { if m.start() < o + l && m.end() <= o + l { return true } }
    }
    false
}
fn c12_at<'b, F: Format, T: SearchableMarkerTrait<'b>>(b: &'b [u8], p: &str, from: usize, c: u32) {
    let re = Regex::new(p).unwrap();
    let mut next = 0;
    let mut k = 0;
    for (o, t) in GrepIterator::<T>::new(p, b, from) {
        let l = fixed(t.len());
        is_message::<F>(b, o, l);
        check(o >= next && o + l > from, "messages out of order, or one twice");
        check(matched::<F>(&re, b, o, l), "no match in the message");
        next = o + 1;
        k += 1;
        observe(o as u64);
    }
    cover(c + k.min(3));
}
fn c12<'b, F: Format, T: SearchableMarkerTrait<'b>>(b: &'b [u8], c: u32) {
    let k = pick(WILD.len() + PLAIN.len());
    let p = if k < WILD.len() { WILD[k] } else { PLAIN[k - WILD.len()] };
    if heavy(p, b, 9) { return }
    c12_at::<F, T>(b, p, [0, 1, 4, b.len()][pick(4)].min(b.len()), c)
}
/// the messages of a stream in which every marker begins a message; one last incomplete message is allowed
fn stream<F: Format>(b: &[u8]) -> Vec<(usize, usize)> {
    let want = sequential::<F>(b, 0);
    let end = want.last().map_or(0, |x| x.0 + x.1);
    let mut k = 0;
    let mut tail = 0;
    for p in 0..b.len() {
        if k < want.len() && p == want[k].0 { k += 1; continue }
        if F::marker_at(b, p) { assume(p >= end && tail == 0); tail = 1; }
    }
    want
}
fn c13_at<'b, F: Format, T: SearchableMarkerTrait<'b>>(b: &'b [u8], p: &str, c: u32) {
    let msgs = stream::<F>(b);
    let re = Regex::new(p).unwrap();
    let mut it = GrepIterator::<T>::new(p, b, 0);
    let mut k = 0;
    for (o, l) in &msgs {
        if !re.is_match(&b[o + F::MLEN..o + l]) { continue }
        match it.next() {
            None => { check(false, "a message with a match is missing"); return }
            Some((q, t)) => { check(q == *o, "another message than the next one with a match"); check(t.len() == *l, "length of the message"); }
        }
        k += 1;
        observe(*o as u64);
    }
    check(it.next().is_none(), "a message too many");
    check(it.next().is_none(), "a message after the end");
    cover(c + k.min(3));
    if k < msgs.len() as u32 { cover(c + 4) }
}
fn c13<'b, F: Format, T: SearchableMarkerTrait<'b>>(b: &'b [u8], c: u32) { let p = PLAIN[pick(PLAIN.len())]; if heavy(p, b, 7) { return } c13_at::<F, T>(b, p, c) }
/// characters of several bytes split into many cases: shorter buffers
fn heavy(p: &str, b: &[u8], most: usize) -> bool { (p.contains('.') && !p.contains("-u") || p.contains("(?i)")) && b.len() > most }
/// group 1 of the first match in the slice in which it takes part
fn group(re: &Regex, b: &[u8]) -> Option<(usize, usize)> {
    let mut at = 0;
    while at <= b.len() {
        let m = re.captures_at(b, at)?;
        let all = m.get(0)?;
        if let Some(g) = m.get(1) { return Some((g.start(), g.end())) }
        at = all.end().max(all.start() + 1);
    }
    None
}
fn c14_at<'b, F: Format, T: SearchableMarkerTrait<'b>>(b: &'b [u8], p: &str, c: u32) {
    let msgs = stream::<F>(b);
    let re = Regex::new(p).unwrap();
    let mut it = RegExMatcherIterator::<T>::new(p, b, 0);
    let mut k = 0;
    for (o, l) in &msgs {
        let (s, e) = match group(&re, &b[o + F::MLEN..o + l]) { None => continue, Some(g) => g };
        match it.next() {
            None => { check(false, "a message with a capture is missing"); return }
            Some((q, g)) => { check(q == *o, "another message than the next one with a capture"); check(g == (s + o + F::MLEN, e + o + F::MLEN), "another place of the capture"); }
        }
        k += 1;
        observe(*o as u64);
    }
    check(it.next().is_none(), "a capture too many");
    check(it.next().is_none(), "a capture after the end");
    cover(c + k.min(3));
    if k < msgs.len() as u32 { cover(c + 4) }
}
fn c14<'b, F: Format, T: SearchableMarkerTrait<'b>>(b: &'b [u8], c: u32) { let p = GROUPS[pick(GROUPS.len())]; if heavy(p, b, 7) { return } c14_at::<F, T>(b, p, c) }
/// any bytes, any of the patterns: soundness and termination
fn c14_wild<'b, F: Format, T: SearchableMarkerTrait<'b>>(b: &'b [u8], c: u32) {
    let k = pick(WILD_GROUPS.len() + GROUPS.len());
    let p = if k < WILD_GROUPS.len() { WILD_GROUPS[k] } else { GROUPS[k - WILD_GROUPS.len()] };
    if heavy(p, b, 9) { return }
    let from = [0, 1, 4, b.len()][pick(4)].min(b.len());
    let re = Regex::new(p).unwrap();
    let mut next = 0;
    let mut n = 0;
    for (o, (s, e)) in RegExMatcherIterator::<T>::new(p, b, from) {
        check(o < b.len() && F::marker_at(b, o), "what is found is not a complete message");
        let l = fixed(F::msg_len(b, o));
        check(l > 0, "what is found is not a complete message");
        check(o >= next && o + l > from, "messages out of order, or one twice");
        check(o + F::MLEN <= s && s <= e && e <= o + l, "the capture is not inside the message");
        let mut some = false;
        for at in o + F::MLEN..s + 1 { if let Some(m) = re.captures_at(b, at) { if let Some(g) = m.get(1) { some |= (g.start(), g.end()) == (s, e) } } }
        check(some, "the pattern captures no such place");
        next = o + 1;
        n += 1;
        observe(o as u64);
        observe(s as u64);
    }
    cover(c + n.min(3));
}
/// two or three messages of the real format; their payloads are free, long ones around them
fn dlt_stream(n: usize, m: usize, c: u32, which: usize) {
    let mut b = vec![b'.'; 26 + n];
    let gap = pick(2);
    let mut o = gap;
    for lo in [6 + pick(m), 5 + pick(m)] {
        if o + 16 + lo > b.len() { break }
        b[o..o + 4].copy_from_slice(&MARK);
        b[o + 18] = 0;
        b[o + 19] = lo as u8;
        for x in o + 20..o + 16 + lo { b[x] = u8() }
        o += 16 + lo + pick(2);
    }
    match which { 0 => c13_at::<Dlt, DltStorageEntry>(&b, ["ab", "aba", "a|bc"][pick(3)], c), _ => c14_at::<Dlt, DltStorageEntry>(&b, ["x(a+)y", "(a)|b", "a(b)?c"][pick(3)], c) }
}
macro_rules! mini { ($f:ident, $n:expr, $c:expr) => {{ let b = array::<$n>(); let n = pick($n + 1); $f::<MiniF<8>, Mini<8>>(&b[..n], $c) }}; }
crate::entries! {
    h_c12_q => mini!(c12, 8, 300), h_c12_t => mini!(c12, 12, 300),
    h_c13_q => mini!(c13, 9, 310), h_c13_t => mini!(c13, 11, 310),
    h_c13_dlt_q => dlt_stream(30, 2, 320, 0), h_c13_dlt_t => dlt_stream(36, 4, 320, 0),
    h_c14_q => mini!(c14, 9, 330), h_c14_t => mini!(c14, 11, 330),
    h_c14_wild_q => mini!(c14_wild, 8, 340), h_c14_wild_t => mini!(c14_wild, 11, 340),
    h_c14_dlt_q => dlt_stream(30, 2, 350, 1), h_c14_dlt_t => dlt_stream(36, 4, 350, 1),
}
