//! Long inputs of one shape with a few free bytes: more messages and items than small counters hold, more of them
//! to pass over than a stack is deep.
use crate::reference::*;
use crate::ripdlt::*;
use crate::world::*;
use matchit::fromgenerator::FromAdaptFnCall;
use matchit::generator::adapter::*;
use matchit::generator::generator::Generator;
use matchit::generator::reducer::*;
use matchit::readit::ReadIterator;
use matchit::searchable::grepit::{GrepIterator, RegExMatcherIterator};
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::searchable::searchit::{RevSearchIterator, SearchIterator};
use matchit::{partition_from, ContainedBySearch, FromBytesReadableTrait, NoOffsetIterator, TIterator};
use rapiddlt::dlt_v1::*;
use rapiddlt::dltbuffer::DltBuffer;
use sxrt::*;

/// n messages of the given text
fn stream(n: usize, text: &[u8]) -> Vec<u8> {
    let mut m = b"DLT\x01\0\0\0\0\0\0\0\0ECU1\x20\0\0".to_vec();
    m.push(4 + text.len() as u8); m.extend(text);
    let mut b = vec![];
    for _ in 0..n { b.extend_from_slice(&m) }
    b
}
/// the messages that are found are at the places k, k + 1, ... of l bytes each
fn all<'b, T: FromBytesReadableTrait<'b>>(it: impl Iterator<Item = (usize, T)>, mut at: impl FnMut(usize) -> usize, n: usize, l: usize) {
    let mut k = 0;
    for (o, t) in it { check(k < n, "a message too many"); check(o == at(k), "offset of a message"); check(t.len() == l, "length of a message"); k += 1 }
    check(k == n, "a message is missing");
    observe(k as u64);
}
/// a payload byte anywhere is free; junk of any of two kinds in front
fn forward(n: usize, c: u32) {
    let mut b = vec![b"D"[0]; pick(2) * n];
    let start = b.len();
    b.extend(stream(n, b"."));
    let at = [0, n / 2, n - 1][pick(3)];
    b[start + at * 21 + 20] = u8();
    cover(c);
    match pick(3) {
        0 => all(ReadFallbackIterator::<DltStorageEntry>::new(&b, 0), |k| start + k * 21, n, 21),
        1 => all(SearchIterator::<DltStorageEntry>::new(&b, 0), |k| start + k * 21, n, 21),
        _ => { let k = NoOffsetIterator::new(ReadFallbackIterator::<DltStorageEntry>::new(&b, 0)).count(); check(k == n, "NoOffsetIterator yields other messages"); observe(k as u64) }
    }
}
/// markers that begin no message, and then one that does
fn search_past(n: usize, c: u32) {
    let mut b = vec![];
    for _ in 0..n { b.extend_from_slice(b"DLT\x01\0\0\0\0\0\0\0\0ECU1\x20\0\0\x03") }
    b.extend(stream(1, b"."));
    b[n / 2 * 20 + 17] = u8();
    cover(c);
    if pick(2) == 0 { all(SearchIterator::<DltStorageEntry>::new(&b, 0), |_| n * 20, 1, 21) }
    else { let e = b.len(); b.extend(stream(1, b".")); b.extend(std::vec![b'D'; n]); all(RevSearchIterator::<DltStorageEntry>::new(&b, b.len()), |k| if k == 0 { e } else { e - 21 }, 2, 21) }
}
fn backward(n: usize, c: u32) {
    let mut b = stream(n, b".");
    b[n / 2 * 21 + 20] = u8();
    cover(c);
    all(RevSearchIterator::<DltStorageEntry>::new(&b, b.len()), |k| (n - 1 - k) * 21, n, 21)
}
fn strict(n: usize, c: u32) {
    let mut b = stream(n, b".");
    b[n / 2 * 21 + 20] = u8();
    let cut = pick(2);
    cover(c + cut as u32);
    if cut == 1 { b[(n - 10) * 21] = b'x'; all(ReadIterator::<DltStorageEntry>::new(&b, 0), |k| k * 21, n - 10, 21); return }
    all(ReadIterator::<DltStorageEntry>::new(&b, 0), |k| k * 21, n, 21);
    let mut e = vec![];
    for _ in 0..n { e.extend_from_slice(b"\x20\0\0\x05.") }
    e[n / 2 * 5 + 1] = u8();
    all(ReadIterator::<DltEntry>::new(&e, 0), |k| k * 5, n, 5)
}
fn parts(n: usize, nums: &[usize], c: u32) {
    let mut b = stream(n, b".");
    b[n / 2 * 21 + 20] = u8();
    let d = DltBuffer::Read(b);
    let num = nums[pick(nums.len())];
    let p = d.partition::<DltStorageEntry>(num);
    let mut at = 0;
    for x in &p { check(x.as_ptr() as usize == d.as_slice().as_ptr() as usize + at, "a partition does not begin where the one before it ends"); check(!x.is_empty(), "an empty partition"); check(x.len() % 21 == 0, "a message is cut"); at += x.len() }
    check(at == d.len(), "the partitions end before the buffer does");
    cover(c);
    observe(p.len() as u64);
}
fn grep(n: usize, kind: u8, c: u32) {
    // matches outside of messages, then messages with one, every third without
    let mut b = std::vec![b'a'; n];
    for k in 0..n { b.extend(stream(1, if k % 3 == 0 { b"x." } else { b"xa" })) }
    let at = n + 22 * (n / 6 * 3) + 21;
    b[at] = [b'.', b'a'][pick(2)];
    let more = (b[at] == b'a') as usize;
    let mut v = vec![];
    for k in 0..n { if b[n + 22 * k + 21] == b'a' { v.push(n + 22 * k) } }
    cover(c + more as u32);
    if kind == 0 {
        // whether any are missed is another question
        let mut at = None;
        for (o, t) in GrepIterator::<DltStorageEntry>::new("a", &b, 0) { check(t.len() == 22 && v.binary_search(&o).is_ok(), "not a message with a match"); check(at < Some(o), "offsets do not rise"); at = Some(o) }
    }
    else if kind == 1 { all(GrepIterator::<DltStorageEntry>::new("a", &b, 0), |k| v[k], v.len(), 22) }
    else {
        let mut k = 0;
        for (o, (s, e)) in RegExMatcherIterator::<DltStorageEntry>::new("x(a)", &b, 0) { check(k < v.len() && o == v[k], "another message"); check(s == o + 21 && e == o + 22, "another place of the capture"); k += 1 }
        check(k == v.len(), "a message with a capture is missing");
    }
    observe(v.len() as u64);
}
fn push<T, R: ReducerTrait<Input = T>>(mut r: R, v: impl Iterator<Item = T>) -> R::Reduced { for x in v { r.next(x) } r.finalize() }
/// items 0, 1, 2, ...: related up to multiples of the step
fn groups(n: u32, c: u32) {
    let step = [1u32, 2, 1000, u32::MAX][pick(4)];
    let rel = |a: &u32, b: &u32| a / step == b / step;
    let k = push(Generator::groupby(rel).count(), 0..n);
    let want = (n as u64 + step as u64 - 1) / step as u64;
    check(k as u64 == want, "number of groups");
    let mut g = (0..n).groupby(rel);
    let mut at = 0u64;
    for _ in 0..want { let to = (at + step as u64).min(n as u64); check(g.next() == Some((at as u32, to as u32 - 1)), "a group"); at = to }
    check(g.next().is_none(), "a group too many");
    cover(c);
    observe(k as u64);
}
fn pipelines(n: u32, c: u32) {
    let m = [1u32, 3][pick(2)];
    let want = (0..n).filter(|x| x % m == 0).count();
    check(push(Generator::filter(|x: &u32| x % m == 0).count(), 0..n) == want, "filter and count");
    check(push(Generator::map(|x: &u32| *x as usize).sum(), 0..n) == n as usize * (n as usize - 1) / 2, "map and sum");
    let v: Vec<u32> = push(Generator::filter(|x: &u32| x % m == 0).collect(), 0..n);
    check(v.len() == want && v.iter().enumerate().all(|(i, x)| *x == i as u32 * m), "filter and collect");
    let v: Vec<(u32, u32)> = push(Generator::map(|x: &u32| *x).groupby(|a: &u32, b: &u32| a / 5 == b / 5).filter(|g: &(u32, u32)| g.0 % m == 0).collect(), 0..n);
    check(v.iter().enumerate().all(|(i, g)| g.0 == i as u32 * 5 * m && g.1 == (g.0 + 4).min(n - 1)) && v.len() as u32 == (n - 1) / (5 * m) + 1, "group, filter and collect");
    cover(c);
    observe(want as u64);
}
fn branches(n: u32, c: u32) {
    let r = u8() as u32 % 4;
    let s = push(Generator::split(|x: &u32| x % 4, |_| Generator::count()), 0..n);
    check(s.len() == 4 && (0..4).all(|k| s[&k] == (n as usize + 3 - k as usize) / 4), "split and count");
    let keys = push(Generator::split(|x: &u32| *x, |_| Generator::count()), 0..n);
    check(keys.len() == n as usize && keys.iter().enumerate().all(|(i, (k, c))| *k == i as u32 && *c == 1), "split by many keys");
    let sums = push(Generator::split(|x: &u32| *x % 1000, |_| Generator::map(|x: &u32| *x as usize).sum()), 0..n);
    check(sums.len() == 1000 && sums.iter().all(|(k, c)| { let m = (n - 1 - k) as usize / 1000 + 1; *c == m * *k as usize + 1000 * (m * (m - 1) / 2) }), "split by a thousand keys and sum");
    check(keys[&r] == 1, "split by many keys");
    let (a, b) = push(Generator::fork(Generator::count(), Generator::map(|x: &u32| x % 2 == 0).filter(|x: &bool| *x).count()), 0..n);
    check(a == n as usize && b == (n as usize + 1) / 2, "fork");
    cover(c);
    observe(keys.len() as u64);
}
fn merged(n: u32, c: u32) {
    let gap = [n, 1, 2, 300][pick(4)];
    // neighbours are joined, but for every gap-th
    let v: Vec<(u32, u32)> = push(Generator::map(|x: &u32| (*x, *x)).merge(|a: &(u32, u32), b: &(u32, u32)| if a.1 + 1 == b.0 && b.0 % gap != 0 { Some((a.0, b.1)) } else { None }, |a: &(u32, u32)| *a).collect(), 0..n);
    check(v.len() as u32 == (n - 1) / gap + 1, "number of merged items");
    check(v.iter().enumerate().all(|(i, g)| g.0 == i as u32 * gap && g.1 == (g.0 + gap - 1).min(n - 1)), "merge of neighbours");
    cover(c);
    observe(v.len() as u64);
}
/// the tools on a file of many messages
fn tools(n: usize, which: &[usize], c: u32) {
    let mut b = vec![];
    for k in 0..n { b.extend_from_slice(b"DLT\x01"); b.extend((k as u32 % 7).to_le_bytes()); b.extend(b"\0\0\0\0ECU1\x31\0\0\x1d"); b.extend((k as u32 * 100).to_be_bytes()); b.extend(b"\x41\0APP1CTX1Hello World"); }
    b[n / 2 * 45 + 34] = u8() & 1 | b'H' & 0xfe;
    // 'H' is 0x48: an I otherwise
    let hits = n as u64 - (b[n / 2 * 45 + 34] != b'H') as u64;
    let n = n as u64;
    let k = which[pick(which.len())];
    let mut w = World { file: b, cpus: 2, ..Default::default() };
    cover(c + k as u32);
    match k {
        0 => ripdlt("count", &mut w, |t| sum_line(t, n, " messages\n")),
        1 => ripdlt("count_hello_world", &mut w, |t| sum_line(t, hits, " hello world messages\n")),
        2 => ripdlt("histogram_message_size", &mut w, |t| { t.lit(b"Distribution of DLT message length:\n45b: ", "the line printed"); t.is(n, "the number of messages of a size"); t.lit(b", overall: ", "the line printed"); t.is(n * 45 / 1024, "a product"); t.lit(b" kB\nDLT messages in total: ", "the line printed"); t.is(n * 45 / 1024, "the total"); t.lit(b" kB\n", "the line printed") }),
        3 => ripdlt("iter", &mut w, |t| sum_line(t, ((n - 1) * 100 >= 18000000) as u64, " lifecycles >= 1800s\n")),
        4 => ripdlt("histogram_lifecycles", &mut w, |t| { t.lit(b"Distribution of lifecycle durations:\n", "the heading"); let d = (n - 1) * 100 / 10000; t.is(d, "a duration"); t.lit(b"-", "the line printed"); t.is(d + 1, "a duration's end"); t.lit(b" secs: 1\n", "the line printed") }),
        5 => ripdlt("histogram_message_type", &mut w, |t| { t.lit(b"(verbose, message type): # dlt messages\n", "the heading"); t.lit(&type_name(0x41), "the type"); t.is(n, "the number of messages of a type"); t.lit(b"\n", "the line printed") }),
        _ => ripdlt("split_timestamp", &mut w, |t| { t.lit(b"Durations of periods where DLT storage header timestamps are continuous:\nECU1 #lifecycles: ({6: 1}, ", "the line printed"); t.is(n, "the number of messages of an ECU"); t.lit(b")\n", "the line printed") }),
    }
    observe(n);
}
/// the longest messages there are: bytes in front, a message, one behind it or none or only a part of it
fn longest(which: u32, c: u32) {
    let gap = [0, 3, 65536][pick(3)];
    let l = [65551, 65550, 65537, 65536, 65535, 65534, 32784, 32783][pick(8)];
    let end = pick(3);
    let mut b = std::vec![b'.'; gap];
    b.extend_from_slice(b"DLT\x01\0\0\0\0\0\0\0\0ECU1\x20\0");
    b.extend(((l - 16) as u16).to_be_bytes());
    b.resize(gap + l, b'.');
    b[gap + 40000 % l] = u8();
    b[gap + l - 1] = b'a';
    let mut v = vec![];
    if end < 2 { v.push(gap) }
    if end == 0 { b.extend(stream(1, b".a")); v.push(gap + l) }
    if end == 2 { b.truncate(gap + l - 1) }
    let len = |o: usize| if o == gap { l } else { 22 };
    let same = |it: &mut dyn Iterator<Item = (usize, usize)>, back: bool| {
        for k in 0..v.len() { let o = v[if back { v.len() - 1 - k } else { k }]; check(it.next() == Some((o, len(o))), "a message of the greatest length") }
        check(it.next().is_none(), "a message too many");
    };
    cover(c + v.len() as u32);
    match which {
        5 => same(&mut ReadFallbackIterator::<DltStorageEntry>::new(&b, 0).map(|(o, t)| (o, t.len())), false),
        6 => { let s = &b[gap..]; let mut it = ReadIterator::<DltStorageEntry>::new(s, 0).map(|(o, t)| (o + gap, t.len())); same(&mut it, false) }
        7 => same(&mut SearchIterator::<DltStorageEntry>::new(&b, 0).map(|(o, t)| (o, t.len())), false),
        8 => { let n = b.len(); same(&mut RevSearchIterator::<DltStorageEntry>::new(&b, n).map(|(o, t)| (o, t.len())), true) }
        13 => same(&mut GrepIterator::<DltStorageEntry>::new("a", &b, 0).map(|(o, t)| (o, t.len())), false),
        _ => same(&mut RegExMatcherIterator::<DltStorageEntry>::new("(a)", &b, 0).map(|(o, (s, e))| { check(s + 1 == e && b[s] == b'a' && o <= s && e <= o + len(o), "place of the capture"); (o, len(o)) }), false),
    }
    observe(v.len() as u64);
}
/// messages on both sides of the place 2^32 in a buffer of zeros, read from there; or of 2^24, read from the front
fn far(which: u32, c: u32) {
    let whole = pick(2) == 1 && which != 6 && which != 9;
    let start = (1usize << if whole { 24 } else { 32 }) - [0, 1, 20, 21, 40, 70][pick(6)];
    let m = stream(1, b"a");
    let gap = [0, 5][pick(2)];
    let at = [start, start + 21, start + 42 + gap];
    let n = start + 63 + gap + if whole { [0, 40, 1 << 24][pick(3)] } else { [0, 40][pick(2)] };
    let from = if whole { 0 } else { start };
    let all = |it: &mut dyn Iterator<Item = (usize, usize)>, v: &[usize], end: bool| {
        for o in v { check(it.next() == Some((*o, 21)), "a message far behind the start") }
        check(!end || it.next().is_none(), "a message too many");
    };
    cover(c + whole as u32);
    let mut b = std::vec![0u8; n];
    for o in at { b[o..o + 21].copy_from_slice(&m) }
    match which {
        5 => all(&mut ReadFallbackIterator::<DltStorageEntry>::new(&b, if whole { 0 } else { start - pick(2) }).map(|(o, t)| (o, t.len())), &at, true),
        6 => all(&mut ReadIterator::<DltStorageEntry>::new(&b, start).map(|(o, t)| (o, t.len())), &at[..if gap == 0 { 3 } else { 2 }], true),
        7 => all(&mut SearchIterator::<DltStorageEntry>::new(&b, if whole { 0 } else { start - pick(2) }).map(|(o, t)| (o, t.len())), &at, true),
        8 => all(&mut RevSearchIterator::<DltStorageEntry>::new(&b, n).map(|(o, t)| (o, t.len())), &[at[2], at[1], at[0]], whole),
        9 => {
            let k = start + pick(68);
            let want = at.iter().find(|o| (**o < k) & (k < **o + 21)).copied();
            let r = ContainedBySearch::<DltStorageEntry>::new().contained_by(&b, (k, k + 1));
            check(r.as_ref().map(|x| x.0) == if k < n { want } else { None }, "the container of a byte far behind the start");
        }
        13 => all(&mut GrepIterator::<DltStorageEntry>::new("a", &b, from).map(|(o, t)| (o, t.len())), &at, true),
        _ => all(&mut RegExMatcherIterator::<DltStorageEntry>::new("(a)", &b, from).map(|(o, (s, e))| { check(s == o + 20 && e == o + 21, "place of the capture"); (o, 21) }), &at, true),
    }
    observe(b.len() as u64);
}
/// the last of five cuts falls near the place 2^32, on or between three messages; the others on the start of one
fn far_parts(c: u32) {
    let size = (1usize << 30) + [0, 1, 5][pick(3)] - [0, 6][pick(2)];
    let cut = 4 * size;
    let m = stream(1, b"a");
    let start = cut - [0, 1, 20, 21, 30, 62, 63][pick(7)];
    cover(c);
    let mut b = std::vec![0u8; 5 * size];
    let at = [start, start + 21, start + 42];
    for o in at.iter().chain(&[size, 2 * size, 3 * size]) { b[*o..*o + 21].copy_from_slice(&m) }
    let want = [0, size, 2 * size, 3 * size, at.iter().find(|o| (**o < cut) & (cut < **o + 21)).copied().unwrap_or(cut), 5 * size];
    let v = partition_from::<DltStorageEntry>(&b, 5);
    check(v.len() == 5, "number of parts of a large buffer");
    for k in 0..5 { check(v[k].as_ptr() == b[want[k]..].as_ptr() && v[k].len() == want[k + 1] - want[k], "a part of a large buffer") }
    observe(want[4] as u64);
}
/// places of matches on both sides of the place 10^8
fn buckets(c: u32) {
    let o = 100_000_000 - [1, 0, 20, 32][pick(4)];
    let m = stream(1, b"Hello World\n");
    let first = pick(2);
    cover(c + first as u32);
    let mut b = std::vec![0u8; o];
    if first == 1 { b[..32].copy_from_slice(&m) }
    b.extend(&m);
    b.extend(&m);
    let low = first + [o, o + 32].iter().filter(|x| **x < 100_000_000).count();
    let mut w = World { file: b, ..Default::default() };
    ripdlt("histogram_hello_world", &mut w, |t| {
        t.lit(b"Distribution of 'Hello World' matches:\n", "the line printed");
        for (k, n) in [low, first + 2 - low].iter().enumerate() {
            if *n > 0 { t.lit([&b"Offset 0M-100M: "[..], b"Offset 100M-200M: "][k], "the line printed"); t.is(*n as u64, "the number of matches of a range"); t.lit(b"\n", "the line printed") }
        }
    });
    observe(low as u64);
}
crate::entries! {
    h_cr_c20_range_many => buckets(850),
    h_c05_far => far(5, 840), h_c06_far => far(6, 840), h_c07_far => far(7, 840), h_c08_far => far(8, 840), h_c09_far => far(9, 840), h_c10_far => far_parts(840), h_c13_far => far(13, 840), h_c14_far => far(14, 840),
    h_c05_longest_many => longest(5, 830), h_c06_longest_many => longest(6, 830), h_c07_longest_many => longest(7, 830), h_c08_longest_many => longest(8, 830), h_c13_longest_many => longest(13, 830), h_c14_longest_many => longest(14, 830),
    h_c05_many => forward(66000, 800), h_c06_many => strict(66000, 802), h_c07_many => search_past(66000, 804), h_c08_many => backward(66000, 805),
    h_c10_many => parts(20000, &[2, 255, 256, 300], 806), h_c12_many => grep(66000, 0, 808), h_c13_many => grep(66000, 1, 808), h_c14_many => grep(66000, 2, 808), h_c15_many => groups(66000, 810), h_c16_many => pipelines(66000, 812), h_c17_many => branches(66000, 813), h_c18_many => merged(3000, 814),
    h_cr_c20_many => tools(66000, &[0, 1], 820), h_cr_c21_many => tools(66000, &[2, 5], 820), h_cr_c22_many => tools(66000, &[3, 4, 6], 820),
}
