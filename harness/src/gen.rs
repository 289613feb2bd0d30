//! C15 to C18: the generators. Functions given to them are free: tables of free bits over a few classes of items.
use matchit::fromgenerator::FromAdaptFnCall;
use matchit::generator::adapter::*;
use matchit::generator::generator::Generator;
use matchit::generator::reducer::*;
use std::collections::BTreeMap;
use sxrt::*;

/// an item: its place in the input and its class
type It = (u8, u8);
type Runs = Vec<(It, It)>;
fn items(max: usize, classes: usize) -> Vec<It> {
    let n = pick(max + 1);
    (0..n).map(|i| (i as u8, pick(classes) as u8)).collect()
}
fn bits<const N: usize>() -> [bool; N] { array::<N>().map(|x| x & 1 == 1) }
fn rel<const N: usize>(t: &[bool], a: It, b: It) -> bool { t[a.1 as usize * N + b.1 as usize] }
/// the maximal runs in which every item is related to the one before; one item alone is a run if related to itself
fn runs<T: Copy>(v: &[T], rel: impl Fn(T, T) -> bool) -> Vec<(T, T)> {
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j + 1 < v.len() && rel(v[j], v[j + 1]) { j += 1 }
        if j > i || rel(v[i], v[i]) { out.push((v[i], v[j])) }
        i = j + 1;
    }
    out
}
fn same<T: PartialEq>(got: &[T], want: &[T], m: &'static str) {
    check(got.len() == want.len(), m);
    for (a, b) in got.iter().zip(want) { check(a == b, m) }
}
fn push<R: ReducerTrait<Input = It>>(mut r: R, v: &[It]) -> R::Reduced { for x in v { r.next(*x) } r.finalize() }

fn c15<const K: usize, const KK: usize>(max: usize, c: u32) {
    let t = bits::<KK>();
    let v = items(max, K);
    let want: Runs = runs(&v, |a, b| rel::<K>(&t, a, b));
    let got: Runs = push(Generator::groupby(|a: &It, b: &It| rel::<K>(&t, *a, *b)).collect(), &v);
    same(&got, &want, "groups of the push generator");
    let mut it = v.iter().copied().groupby(|a: &It, b: &It| rel::<K>(&t, *a, *b));
    for w in &want { let g = it.next(); check(g == Some(*w), "groups of the pull iterator") }
    check(it.next().is_none(), "a group too many");
    check(it.next().is_none(), "a group after the end");
    let n = push(Generator::map(|a: &It| *a).groupby(|a: &It, b: &It| rel::<K>(&t, *a, *b)).count(), &v);
    check(n == want.len(), "count of groups");
    cover(c + (want.len() as u32).min(3));
    observe(want.len() as u64);
}
/// map, filter, fold, count, sum and collect in several orders
fn c16_simple(max: usize, c: u32) {
    let f = bits::<3>();
    let g = array::<3>();
    let v = items(max, 3);
    let kept: Vec<It> = v.iter().copied().filter(|x| f[x.1 as usize]).collect();
    let got: Vec<It> = push(Generator::filter(|x: &It| f[x.1 as usize]).collect(), &v);
    same(&got, &kept, "filter");
    check(push(Generator::filter(|x: &It| f[x.1 as usize]).count(), &v) == kept.len(), "filter and count");
    check(push(Generator::<It>::count(), &v) == v.len(), "count");
    let m: Vec<u8> = push(Generator::map(|x: &It| g[x.1 as usize]).collect(), &v);
    let mut all = 0usize;
    check(m.len() == v.len(), "map");
    for (i, x) in v.iter().enumerate() { check(m[i] == g[x.1 as usize], "map"); all += g[x.1 as usize] as usize }
    check(push(Generator::map(|x: &It| g[x.1 as usize] as usize).sum(), &v) == all, "map and sum");
    // a filter behind a map sees the mapped item, and the other way round
    let big: Vec<u8> = push(Generator::map(|x: &It| g[x.1 as usize]).filter(|y: &u8| *y >= 128).collect(), &v);
    let want: Vec<u8> = v.iter().map(|x| g[x.1 as usize]).filter(|y| *y >= 128).collect();
    same(&big, &want, "map and filter");
    let fm: Vec<u8> = push(Generator::filter(|x: &It| f[x.1 as usize]).map(|x: &It| g[x.1 as usize]).collect(), &v);
    check(fm.len() == kept.len(), "filter and map");
    for (i, x) in kept.iter().enumerate() { check(fm[i] == g[x.1 as usize], "filter and map") }
    // a fold that depends on the order
    let h = push(Generator::fold(7u64, |acc, x: It| acc * 31 + x.0 as u64 * 3 + x.1 as u64), &v);
    let mut w = 7u64;
    for x in &v { w = w * 31 + x.0 as u64 * 3 + x.1 as u64 }
    check(h == w, "fold");
    let h = push(Generator::filter(|x: &It| f[x.1 as usize]).fold(7u64, |acc, x: It| acc * 31 + x.0 as u64 * 3 + x.1 as u64), &v);
    let mut w = 7u64;
    for x in &kept { w = w * 31 + x.0 as u64 * 3 + x.1 as u64 }
    check(h == w, "filter and fold");
    cover(c + (kept.len() as u32).min(3));
    if kept.len() < v.len() { cover(c + 4) }
    observe(h);
}
/// what a stage still holds at the end goes through the stages behind it
fn c16_flush(max: usize, c: u32) {
    let t = bits::<4>();
    let f = bits::<2>();
    let k = bits::<4>();
    let v = items(max, 2);
    let r = |a: &It, b: &It| rel::<2>(&t, *a, *b);
    let keep = |x: &(It, It)| k[x.0 .1 as usize * 2 + x.1 .1 as usize];
    let kept: Vec<It> = v.iter().copied().filter(|x| f[x.1 as usize]).collect();
    let w1: Runs = runs(&kept, |a, b| r(&a, &b));
    let w2: Vec<u8> = w1.iter().filter(|x| keep(x)).map(|x| x.1 .0 - x.0 .0).collect();
    let got: Vec<u8> = push(Generator::filter(|x: &It| f[x.1 as usize]).groupby(r).filter(keep).map(|x: &(It, It)| x.1 .0 - x.0 .0).collect(), &v);
    same(&got, &w2, "filter, groupby, filter and map");
    let pulled: Vec<u8> = v.iter().copied().filter(|x| f[x.1 as usize]).groupby(r).filter(keep).map(|x: (It, It)| x.1 .0 - x.0 .0).collect();
    same(&pulled, &w2, "the same, pulled");
    cover(c + (w2.len() as u32).min(3));
    if w2.len() < w1.len() { cover(c + 4) }
    observe(w2.len() as u64);
}
/// groups of groups
fn c16_nested(max: usize, c: u32) {
    let t = bits::<4>();
    let k = bits::<4>();
    let v = items(max, 2);
    let r = |a: &It, b: &It| rel::<2>(&t, *a, *b);
    // groups are related by the classes of the ends that meet
    let q = |a: &(It, It), b: &(It, It)| k[a.1 .1 as usize * 2 + b.0 .1 as usize];
    let w1: Runs = runs(&v, |a, b| r(&a, &b));
    let w2 = runs(&w1, |a, b| q(&a, &b));
    let got: Vec<((It, It), (It, It))> = push(Generator::groupby(r).groupby(q).collect(), &v);
    same(&got, &w2, "groups of groups");
    let pulled: Vec<((It, It), (It, It))> = v.iter().copied().groupby(r).groupby(q).collect();
    same(&pulled, &w2, "groups of groups, pulled");
    let n = push(Generator::groupby(r).groupby(q).map(|x: &((It, It), (It, It))| x.0 .0 .0).filter(|x: &u8| *x > 0).count(), &v);
    check(n == w2.iter().filter(|x| x.0 .0 .0 > 0).count(), "groups of groups, mapped, filtered and counted");
    cover(c + (w2.len() as u32).min(3));
    if w2.len() < w1.len() { cover(c + 4) }
    observe(w2.len() as u64);
}
fn by_key<T>(v: &[It], f: impl Fn(&[It]) -> T) -> BTreeMap<u8, T> {
    let mut m: BTreeMap<u8, Vec<It>> = BTreeMap::new();
    for x in v { m.entry(x.1).or_default().push(*x) }
    m.into_iter().map(|(k, v)| (k, f(&v))).collect()
}
fn same_map<T: PartialEq>(got: &BTreeMap<u8, T>, want: &BTreeMap<u8, T>, m: &'static str) {
    check(got.len() == want.len(), m);
    for ((a, b), (c, d)) in got.iter().zip(want) { check(a == c && b == d, m) }
}
fn c17(max: usize, c: u32) {
    let t = bits::<2>(); // is the next item related if its place is odd (even)
    let f = bits::<3>();
    let v = items(max, 3);
    let key = |x: &It| x.1;
    let r = |a: &It, b: &It| a.0 == b.0 || t[(b.0 & 1) as usize];
    let want = by_key(&v, |x| x.to_vec());
    same_map(&push(Generator::split(key, |_| Generator::map(|x: &It| *x).collect()), &v), &want, "split and collect");
    same_map(&v.iter().copied().split(key, |_| Generator::map(|x: &It| *x).collect()), &want, "split and collect, pulled");
    let want = by_key(&v, |x| runs(x, |a, b| r(&a, &b)));
    same_map(&push(Generator::split(key, |_| Generator::groupby(r).collect()), &v), &want, "split and groupby");
    same_map(&v.iter().copied().split(key, |_| Generator::groupby(r).collect()), &want, "split and groupby, pulled");
    // the reducer may depend on the key
    let want = by_key(&v, |x| x.iter().filter(|y| y.0 >= y.1).count());
    same_map(&push(Generator::split(key, |k| { let k = *k; Generator::filter(move |x: &It| x.0 >= k).count() }), &v), &want, "split with a reducer by key");
    // behind a filter, and inside a fork
    let kept: Vec<It> = v.iter().copied().filter(|x| f[x.1 as usize]).collect();
    let want = by_key(&kept, |x| x.len());
    same_map(&push(Generator::filter(|x: &It| f[x.1 as usize]).split(key, |_| Generator::<It>::count()), &v), &want, "filter and split");
    let (a, (b, d)) = push(Generator::fork(Generator::filter(|x: &It| f[x.1 as usize]).split(key, |_| Generator::<It>::count()), Generator::fork(Generator::<It>::count(), Generator::groupby(r).collect())), &v);
    same_map(&a, &want, "split in a fork");
    check(b == v.len(), "count in a fork");
    same(&d, &runs(&v, |a, b| r(&a, &b)), "groupby in a fork");
    let (a, b) = push(Generator::filter(|x: &It| f[x.1 as usize]).fork(Generator::map(|x: &It| *x).collect(), Generator::groupby(r).count()), &v);
    same(&a, &kept, "filter and fork");
    check(b == runs(&kept, |a, b| r(&a, &b)).len(), "filter and fork: groups");
    cover(c + (want.len() as u32).min(3));
    observe(want.len() as u64);
}
/// any merge function: what comes out is the items that went in, each exactly once
fn c18_any<const N: usize, const NN: usize>(c: u32) {
    let t = bits::<NN>();
    let n = pick(N + 1);
    let low = |m: u8| m.trailing_zeros() as usize;
    let join = |a: &u8, b: &u8| if t[low(*a) * N + low(*b)] { Some(*a | *b) } else { None };
    let descending = pick(2) == 1;
    let key = |a: &u8| if descending { 255 - *a } else { *a };
    let mut m = Generator::merge(join, key).collect();
    for i in 0..n { m.next(1u8 << i) }
    let out: Vec<u8> = m.finalize();
    let mut seen = 0u8;
    for x in &out { check(*x != 0 && seen & x == 0, "an item comes out twice"); seen |= x; }
    check(seen as u32 + 1 == 1 << n, "an item is lost");
    for w in out.windows(2) { check(key(&w[0]) < key(&w[1]), "not in the order of the keys") }
    // two of a kind that are merged with everything are one
    if t.iter().all(|x| *x) { check(out.len() == n.min(1), "not merged"); cover(c + 5) }
    if t.iter().all(|x| !*x) { check(out.len() == n, "merged"); cover(c + 6) }
    cover(c + (out.len() as u32).min(4));
    observe(out.len() as u64);
    // what the merge still holds goes through the stages behind it
    let mut k = Generator::map(|x: &u8| *x).merge(join, key).filter(|x: &u8| x & 1 == 1).count();
    for i in 0..n { k.next(1u8 << i) }
    check(k.finalize() == n.min(1), "merge, filter and count");
    let mut g = Generator::merge(join, key).groupby(|_: &u8, _: &u8| true).collect();
    for i in 0..n { g.next(1u8 << i) }
    let g: Vec<(u8, u8)> = g.finalize();
    if out.is_empty() { check(g.is_empty(), "merge and groupby") } else { check(g.len() == 1 && g[0] == (out[0], out[out.len() - 1]), "merge and groupby") }
}
/// intervals, merged when they overlap: coverage and counts are kept
fn c18_intervals(max: usize, top: usize, c: u32) {
    type Iv = (u8, u8, u8);
    let n = pick(max + 1);
    let v: Vec<Iv> = (0..n).map(|_| { let a = below(top as u8); let l = below(3); (a, a + l, 1) }).collect();
    let join = |a: &Iv, b: &Iv| if (a.0 <= b.1) & (b.0 <= a.1) { Some((a.0.min(b.0), a.1.max(b.1), a.2 + b.2)) } else { None };
    let mut m = Generator::merge(join, |a: &Iv| (a.0, a.1)).collect();
    for x in &v { m.next(*x) }
    let out: Vec<Iv> = m.finalize();
    let mask = |v: &[Iv]| v.iter().fold(0u32, |acc, x| acc | (((2u32 << x.1) - 1) & !((1u32 << x.0) - 1)));
    check(mask(&out) == mask(&v), "the intervals cover something else");
    check(out.iter().fold(0u8, |a, x| a + x.2) == n as u8, "intervals lost or counted twice");
    for w in out.windows(2) { check((w[0].0, w[0].1) < (w[1].0, w[1].1), "not in the order of the keys") }
    for x in &out { let mut lo = false; let mut hi = false; for y in &v { lo |= y.0 == x.0; hi |= y.1 == x.1 } check(lo & hi, "the ends of an interval are not ends of what went in") }
    cover(c + (out.len() as u32).min(4));
    observe(out.len() as u64);
}
/// merging what has the same class: one per class, with the total
fn c18_classes(max: usize, c: u32) {
    let v = items(max, 3);
    let w = array::<3>();
    let item = |x: &It| (x.1, w[x.1 as usize] as usize);
    let mut m = Generator::map(item).merge(|a: &(u8, usize), b: &(u8, usize)| if a.0 == b.0 { Some((a.0, a.1 + b.1)) } else { None }, |a: &(u8, usize)| a.0).collect();
    for x in &v { m.next(*x) }
    let out: Vec<(u8, usize)> = m.finalize();
    let want: Vec<(u8, usize)> = by_key(&v, |x| x.iter().map(|y| item(y).1).sum()).into_iter().collect();
    same(&out, &want, "totals by class");
    cover(c + out.len() as u32);
}
crate::entries! {
    h_c15_q => c15::<3, 9>(7, 400), h_c15_t => c15::<3, 9>(9, 400),
    h_c15_four_t => c15::<4, 16>(6, 405),
    h_c16_simple_q => c16_simple(5, 410), h_c16_simple_t => c16_simple(8, 410),
    h_c16_flush_q => c16_flush(7, 420), h_c16_flush_t => c16_flush(11, 420),
    h_c16_nested_q => c16_nested(7, 430), h_c16_nested_t => c16_nested(11, 430),
    h_c17_q => c17(5, 440), h_c17_t => c17(8, 440),
    h_c18_any_q => c18_any::<5, 25>(450), h_c18_any_t => c18_any::<7, 49>(450),
    h_c18_intervals_q => c18_intervals(3, 3, 460), h_c18_intervals_t => c18_intervals(5, 4, 460),
    h_c18_classes_q => c18_classes(5, 470), h_c18_classes_t => c18_classes(8, 470),
}
