//! rayon's parallel iterators as far as their documentation constrains results: the items are split into contiguous
//! pieces; each piece is processed in order, pieces in any order, one of them possibly interrupted by another before an
//! atomic access (sxrt::sched); `reduce`, `sum` and `fold` combine neighbours in any order, with the identity mixed in
//! once per piece. All of that are free (symbolic) choices, so a check over them covers every schedule.
use sxrt::sched;
fn choose(n: usize) -> usize { if n < 2 { 0 } else { sxrt::pick(n) } }
/// every piece is consumed on a thread of its own, in an order of choice; results in place
fn run<S, B>(v: Vec<S>, f: impl Fn(S) -> B) -> Vec<B> {
    let n = v.len();
    let mut src: Vec<Option<S>> = v.into_iter().map(Some).collect();
    let mut dst: Vec<Option<B>> = (0..n).map(|_| None).collect();
    let mut todo: Vec<Box<dyn FnMut() + '_>> = src.iter_mut().zip(dst.iter_mut()).map(|(s, d)| { let f = &f; Box::new(move || *d = Some(f(s.take().unwrap()))) as Box<dyn FnMut() + '_> }).collect();
    let ids: Vec<usize> = todo.iter_mut().map(|t| sched::add(&mut **t)).collect();
    loop {
        let w: Vec<usize> = ids.iter().copied().filter(|k| sched::is_waiting(*k)).collect();
        if w.is_empty() { break }
        // the first or the last of those that wait
        sched::start(if w.len() > 1 && choose(2) == 1 { w[w.len() - 1] } else { w[0] });
    }
    for k in ids { sched::join(k) }
    drop(todo);
    dst.into_iter().map(|x| x.unwrap()).collect()
}
/// where n items are cut
fn cuts(n: usize) -> Vec<usize> {
    let mut c = vec![];
    let mut at = 0;
    while at < n { at += if n - at == 1 { 1 } else { 1 + choose(n - at) }; c.push(at) }
    c
}
/// combine neighbours in a free order
fn tree<T>(mut v: Vec<T>, mut op: impl FnMut(T, T) -> T) -> Option<T> {
    while v.len() > 1 {
        let i = choose(v.len() - 1);
        let b = v.remove(i + 1); let a = v.remove(i);
        v.insert(i, op(a, b));
    }
    v.pop()
}
pub mod iter {
    use super::{choose, cuts, run, tree};
    use std::cmp::Ordering;
    use std::iter::{Product, Sum};
    use std::rc::Rc;
    pub trait ParallelIterator: Sized {
        type Item: Send;
        type Seq: Iterator<Item = Self::Item>;
        /// its pieces, in order
        fn split(self) -> Vec<Self::Seq>;
        fn map<F, R: Send>(self, f: F) -> Map<Self, F> where F: Fn(Self::Item) -> R + Sync + Send { Map { i: self, f } }
        fn map_with<T: Send + Clone, F, R: Send>(self, t: T, f: F) -> Pieces<Stage<Self::Seq, T, F>> where F: Fn(&mut T, Self::Item) -> R + Sync + Send { let f = Rc::new(f); Pieces { v: self.split().into_iter().map(|s| Stage { s, t: t.clone(), f: f.clone() }).collect() } }
        fn map_init<T, G, F, R: Send>(self, g: G, f: F) -> Pieces<Lazily<Self::Seq, T, G, F>> where G: Fn() -> T + Sync + Send, F: Fn(&mut T, Self::Item) -> R + Sync + Send { let (f, g) = (Rc::new(f), Rc::new(g)); Pieces { v: self.split().into_iter().map(|s| Lazily { s, t: None, g: g.clone(), f: f.clone() }).collect() } }
        fn filter<F>(self, f: F) -> Filter<Self, F> where F: Fn(&Self::Item) -> bool + Sync + Send { Filter { i: self, f } }
        fn filter_map<F, R: Send>(self, f: F) -> FilterMap<Self, F> where F: Fn(Self::Item) -> Option<R> + Sync + Send { FilterMap { i: self, f } }
        fn inspect<F>(self, f: F) -> Pieces<Inspected<Self::Seq, F>> where F: Fn(&Self::Item) + Sync + Send { let f = Rc::new(f); Pieces { v: self.split().into_iter().map(|s| Inspected { s, f: f.clone() }).collect() } }
        fn update<F>(self, f: F) -> Pieces<Updated<Self::Seq, F>> where F: Fn(&mut Self::Item) + Sync + Send { let f = Rc::new(f); Pieces { v: self.split().into_iter().map(|s| Updated { s, f: f.clone() }).collect() } }
        fn cloned<'a, T: 'a + Clone + Send + Sync>(self) -> Pieces<std::iter::Cloned<Self::Seq>> where Self: ParallelIterator<Item = &'a T> { Pieces { v: self.split().into_iter().map(|s| s.cloned()).collect() } }
        fn copied<'a, T: 'a + Copy + Send + Sync>(self) -> Pieces<std::iter::Copied<Self::Seq>> where Self: ParallelIterator<Item = &'a T> { Pieces { v: self.split().into_iter().map(|s| s.copied()).collect() } }
        fn flat_map_iter<U: IntoIterator, F>(self, f: F) -> Pieces<Flat<Self::Seq, F, U>> where F: Fn(Self::Item) -> U + Sync + Send, U::Item: Send { let f = Rc::new(f); Pieces { v: self.split().into_iter().map(|s| Flat { s, f: f.clone(), now: None }).collect() } }
        fn flat_map<U: IntoParallelIterator, F>(self, f: F) -> Pieces<FlatPar<Self::Seq, F, U>> where F: Fn(Self::Item) -> U + Sync + Send { let f = Rc::new(f); Pieces { v: self.split().into_iter().map(|s| FlatPar { s, f: f.clone(), now: vec![] }).collect() } }
        fn flatten_iter(self) -> Pieces<std::iter::Flatten<Self::Seq>> where Self::Item: IntoIterator, <Self::Item as IntoIterator>::Item: Send { Pieces { v: self.split().into_iter().map(|s| s.flatten()).collect() } }
        fn flatten(self) -> Pieces<FlatPar<Self::Seq, fn(Self::Item) -> Self::Item, Self::Item>> where Self::Item: IntoParallelIterator { fn id<T>(t: T) -> T { t } self.flat_map(id as fn(Self::Item) -> Self::Item) }
        fn for_each<F>(self, f: F) where F: Fn(Self::Item) + Sync + Send { run(self.split(), |s| s.for_each(|x| f(x))); }
        fn for_each_with<T: Send + Clone, F>(self, t: T, f: F) where F: Fn(&mut T, Self::Item) + Sync + Send { self.map_with(t, f).for_each(|_| ()) }
        fn for_each_init<T, G, F>(self, g: G, f: F) where G: Fn() -> T + Sync + Send, F: Fn(&mut T, Self::Item) + Sync + Send { self.map_init(g, f).for_each(|_| ()) }
        fn try_for_each<F, E: Send>(self, f: F) -> Result<(), E> where F: Fn(Self::Item) -> Result<(), E> + Sync + Send { run(self.split(), |mut s| s.try_for_each(|x| f(x))).into_iter().collect() }
        fn count(self) -> usize { run(self.split(), |s| s.count()).into_iter().sum() }
        fn sum<S>(self) -> S where S: Send + Sum<Self::Item> + Sum<S> { run(self.split(), |s| s.sum::<S>()).into_iter().sum() }
        fn product<S>(self) -> S where S: Send + Product<Self::Item> + Product<S> { run(self.split(), |s| s.product::<S>()).into_iter().product() }
        fn reduce<OP, ID>(self, id: ID, op: OP) -> Self::Item where OP: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send, ID: Fn() -> Self::Item + Sync + Send {
            tree(run(self.split(), |s| s.fold(id(), |a, b| op(a, b))), |a, b| op(a, b)).unwrap_or_else(|| id())
        }
        fn reduce_with<OP>(self, op: OP) -> Option<Self::Item> where OP: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send {
            tree(run(self.split(), |s| s.reduce(|a, b| op(a, b))).into_iter().flatten().collect(), |a, b| op(a, b))
        }
        fn try_reduce<T: Send, E: Send, OP, ID>(self, id: ID, op: OP) -> Result<T, E> where Self: ParallelIterator<Item = Result<T, E>>, OP: Fn(T, T) -> Result<T, E> + Sync + Send, ID: Fn() -> T + Sync + Send {
            let p: Result<Vec<T>, E> = run(self.split(), |mut s| s.try_fold(id(), |a, b| op(a, b?))).into_iter().collect();
            tree(p?.into_iter().map(Ok).collect(), |a, b| op(a?, b?)).unwrap_or_else(|| Ok(id()))
        }
        fn fold<T: Send, ID, F>(self, id: ID, f: F) -> Pieces<Folded<Self::Seq, ID, F>> where F: Fn(T, Self::Item) -> T + Sync + Send, ID: Fn() -> T + Sync + Send { let (id, f) = (Rc::new(id), Rc::new(f)); Pieces { v: self.split().into_iter().map(|s| Folded { s: Some(s), id: id.clone(), f: f.clone() }).collect() } }
        fn fold_with<T: Send + Clone, F>(self, t: T, f: F) -> Given<T> where F: Fn(T, Self::Item) -> T + Sync + Send { Given { v: run(self.split(), |s| s.fold(t.clone(), |a, b| f(a, b))) } }
        fn max(self) -> Option<Self::Item> where Self::Item: Ord { self.max_by(|a, b| a.cmp(b)) }
        fn min(self) -> Option<Self::Item> where Self::Item: Ord { self.min_by(|a, b| a.cmp(b)) }
        fn max_by<F>(self, f: F) -> Option<Self::Item> where F: Fn(&Self::Item, &Self::Item) -> Ordering + Sync + Send { run(self.split(), |s| s.max_by(|a, b| f(a, b))).into_iter().flatten().max_by(|a, b| f(a, b)) }
        fn min_by<F>(self, f: F) -> Option<Self::Item> where F: Fn(&Self::Item, &Self::Item) -> Ordering + Sync + Send { run(self.split(), |s| s.min_by(|a, b| f(a, b))).into_iter().flatten().min_by(|a, b| f(a, b)) }
        fn max_by_key<K: Ord + Send, F>(self, f: F) -> Option<Self::Item> where F: Fn(&Self::Item) -> K + Sync + Send { self.max_by(|a, b| f(a).cmp(&f(b))) }
        fn min_by_key<K: Ord + Send, F>(self, f: F) -> Option<Self::Item> where F: Fn(&Self::Item) -> K + Sync + Send { self.min_by(|a, b| f(a).cmp(&f(b))) }
        fn any<F>(self, f: F) -> bool where F: Fn(Self::Item) -> bool + Sync + Send { run(self.split(), |mut s| s.any(|x| f(x))).into_iter().any(|x| x) }
        fn all<F>(self, f: F) -> bool where F: Fn(Self::Item) -> bool + Sync + Send { run(self.split(), |mut s| s.all(|x| f(x))).into_iter().all(|x| x) }
        fn find_any<F>(self, f: F) -> Option<Self::Item> where F: Fn(&Self::Item) -> bool + Sync + Send { let mut v: Vec<_> = run(self.split(), |mut s| s.find(|x| f(x))).into_iter().flatten().collect(); if v.is_empty() { None } else { let k = choose(v.len()); Some(v.swap_remove(k)) } }
        fn find_first<F>(self, f: F) -> Option<Self::Item> where F: Fn(&Self::Item) -> bool + Sync + Send { run(self.split(), |mut s| s.find(|x| f(x))).into_iter().flatten().next() }
        fn find_last<F>(self, f: F) -> Option<Self::Item> where F: Fn(&Self::Item) -> bool + Sync + Send { run(self.split(), |s| s.filter(|x| f(x)).last()).into_iter().flatten().last() }
        fn find_map_any<F, R: Send>(self, f: F) -> Option<R> where F: Fn(Self::Item) -> Option<R> + Sync + Send { self.filter_map(f).find_any(|_| true) }
        fn find_map_first<F, R: Send>(self, f: F) -> Option<R> where F: Fn(Self::Item) -> Option<R> + Sync + Send { self.filter_map(f).find_first(|_| true) }
        fn collect<C: FromIterator<Self::Item>>(self) -> C { run(self.split(), |s| s.collect::<Vec<_>>()).into_iter().flatten().collect() }
        fn collect_vec_list(self) -> std::collections::LinkedList<Vec<Self::Item>> { run(self.split(), |s| s.collect::<Vec<_>>()).into_iter().collect() }
        fn unzip<A: Send, B: Send, FA: Default + Extend<A>, FB: Default + Extend<B>>(self) -> (FA, FB) where Self: ParallelIterator<Item = (A, B)> { run(self.split(), |s| s.collect::<Vec<_>>()).into_iter().flatten().unzip() }
        fn partition<A: Default + Extend<Self::Item>, F>(self, f: F) -> (A, A) where F: Fn(&Self::Item) -> bool + Sync + Send { let (mut a, mut b) = (A::default(), A::default()); for (k, x) in self.map(|x| (f(&x), x)).collect::<Vec<_>>() { if k { a.extend([x]) } else { b.extend([x]) } } (a, b) }
        fn chain<C: IntoParallelIterator<Item = Self::Item>>(self, c: C) -> Pieces<Either<Self::Seq, <C::Iter as ParallelIterator>::Seq>> { let mut v: Vec<_> = self.split().into_iter().map(Either::A).collect(); v.extend(c.into_par_iter().split().into_iter().map(Either::B)); Pieces { v } }
        fn while_some<T: Send>(self) -> Given<T> where Self: ParallelIterator<Item = Option<T>> { Given { v: run(self.split(), |s| s.collect::<Vec<_>>()).into_iter().flatten().map_while(|x| x).collect() } }
        fn panic_fuse(self) -> Self { self }
        fn opt_len(&self) -> Option<usize> { None }
    }
    pub trait IndexedParallelIterator: ParallelIterator {
        fn len(&self) -> usize;
        /// pieces that end at the given places
        fn split_at(self, at: &[usize]) -> Vec<Self::Seq>;
        fn enumerate(self) -> Enumerate<Self> { Enumerate { i: self } }
        fn zip<Z: IntoParallelIterator>(self, z: Z) -> Zip<Self, Z::Iter> where Z::Iter: IndexedParallelIterator { Zip { a: self, b: z.into_par_iter() } }
        fn zip_eq<Z: IntoParallelIterator>(self, z: Z) -> Zip<Self, Z::Iter> where Z::Iter: IndexedParallelIterator { Zip { a: self, b: z.into_par_iter() } }
        fn rev(self) -> Pieces<std::iter::Rev<Self::Seq>> where Self::Seq: DoubleEndedIterator { let c = cuts(self.len()); let mut v: Vec<_> = self.split_at(&c).into_iter().map(|s| s.rev()).collect(); v.reverse(); Pieces { v } }
        fn take(self, n: usize) -> Pieces<Self::Seq> { let l = self.len(); let n = n.min(l); let mut c = cuts(n); let k = c.len(); c.push(l); let mut v = self.split_at(&c); v.truncate(k); Pieces { v } }
        fn skip(self, n: usize) -> Pieces<Self::Seq> { let l = self.len(); let n = n.min(l); let mut c = vec![n]; c.extend(cuts(l - n).into_iter().map(|x| x + n)); let mut v = self.split_at(&c); v.remove(0); Pieces { v } }
        fn step_by(self, n: usize) -> Given<Self::Item> { Given { v: run(self.split(), |s| s.collect::<Vec<_>>()).into_iter().flatten().step_by(n).collect() } }
        fn chunks(self, n: usize) -> Given<Vec<Self::Item>> { let mut v = vec![]; for x in run(self.split(), |s| s.collect::<Vec<_>>()).into_iter().flatten() { if v.last().map_or(true, |l: &Vec<_>| l.len() == n) { v.push(vec![]) } v.last_mut().unwrap().push(x) } Given { v } }
        fn fold_chunks<T: Send, ID, F>(self, n: usize, id: ID, f: F) -> Given<T> where F: Fn(T, Self::Item) -> T + Sync + Send, ID: Fn() -> T + Sync + Send { Given { v: run(self.chunks(n).v, |c| c.into_iter().fold(id(), |a, b| f(a, b))) } }
        fn collect_into_vec(self, t: &mut Vec<Self::Item>) { *t = self.collect() }
        fn position_any<F>(self, f: F) -> Option<usize> where F: Fn(Self::Item) -> bool + Sync + Send { self.enumerate().filter_map(|(i, x)| if f(x) { Some(i) } else { None }).find_any(|_| true) }
        fn position_first<F>(self, f: F) -> Option<usize> where F: Fn(Self::Item) -> bool + Sync + Send { self.enumerate().filter_map(|(i, x)| if f(x) { Some(i) } else { None }).find_first(|_| true) }
        fn with_min_len(self, _: usize) -> Self { self }
        fn with_max_len(self, _: usize) -> Self { self }
        fn by_exponential_blocks(self) -> Self { self }
        fn by_uniform_blocks(self, _: usize) -> Self { self }
    }
    pub struct Given<T> { pub(crate) v: Vec<T> }
    impl<T: Send> ParallelIterator for Given<T> { type Item = T; type Seq = std::vec::IntoIter<T>; fn split(self) -> Vec<Self::Seq> { let c = cuts(self.v.len()); self.split_at(&c) } }
    impl<T: Send> IndexedParallelIterator for Given<T> {
        fn len(&self) -> usize { self.v.len() }
        fn split_at(self, at: &[usize]) -> Vec<Self::Seq> { let mut r = self.v.into_iter(); let mut p = 0; at.iter().map(|e| { let x: Vec<T> = r.by_ref().take(*e - p).collect(); p = *e; x.into_iter() }).collect() }
    }
    pub struct Pieces<S> { v: Vec<S> }
    impl<S: Iterator> ParallelIterator for Pieces<S> where S::Item: Send { type Item = S::Item; type Seq = S; fn split(self) -> Vec<S> { self.v } }
    impl<S: ExactSizeIterator> IndexedParallelIterator for Pieces<S> where S::Item: Send {
        fn len(&self) -> usize { self.v.iter().map(|s| s.len()).sum() }
        /// (only the cuts it has itself)
        fn split_at(self, at: &[usize]) -> Vec<S> { let mut e = 0; let mine: Vec<usize> = self.v.iter().map(|s| { e += s.len(); e }).collect(); if at != mine { sxrt::dead() } self.v }
    }
    macro_rules! adaptor { ($n:ident, $s:ident, $b:ident, $($w:tt)*) => {
        pub struct $n<I, F> { i: I, f: F }
        pub struct $s<S, F> { s: S, f: Rc<F> }
        fn $b<S, F>(v: Vec<S>, f: F) -> Vec<$s<S, F>> { let f = Rc::new(f); v.into_iter().map(|s| $s { s, f: f.clone() }).collect() }
    }; }
    adaptor!(Map, Mapped, mapped,);
    impl<S: Iterator, R, F: Fn(S::Item) -> R> Iterator for Mapped<S, F> { type Item = R; fn next(&mut self) -> Option<R> { Some((self.f)(self.s.next()?)) } fn size_hint(&self) -> (usize, Option<usize>) { self.s.size_hint() } }
    impl<S: ExactSizeIterator, R, F: Fn(S::Item) -> R> ExactSizeIterator for Mapped<S, F> {}
    impl<S: DoubleEndedIterator, R, F: Fn(S::Item) -> R> DoubleEndedIterator for Mapped<S, F> { fn next_back(&mut self) -> Option<R> { Some((self.f)(self.s.next_back()?)) } }
    impl<I: ParallelIterator, R: Send, F: Fn(I::Item) -> R + Sync + Send> ParallelIterator for Map<I, F> { type Item = R; type Seq = Mapped<I::Seq, F>; fn split(self) -> Vec<Self::Seq> { mapped(self.i.split(), self.f) } }
    impl<I: IndexedParallelIterator, R: Send, F: Fn(I::Item) -> R + Sync + Send> IndexedParallelIterator for Map<I, F> { fn len(&self) -> usize { self.i.len() } fn split_at(self, at: &[usize]) -> Vec<Self::Seq> { mapped(self.i.split_at(at), self.f) } }
    adaptor!(Filter, Filtered, filtered,);
    impl<S: Iterator, F: Fn(&S::Item) -> bool> Iterator for Filtered<S, F> { type Item = S::Item; fn next(&mut self) -> Option<S::Item> { loop { let x = self.s.next()?; if (self.f)(&x) { return Some(x) } } } }
    impl<I: ParallelIterator, F: Fn(&I::Item) -> bool + Sync + Send> ParallelIterator for Filter<I, F> { type Item = I::Item; type Seq = Filtered<I::Seq, F>; fn split(self) -> Vec<Self::Seq> { filtered(self.i.split(), self.f) } }
    adaptor!(FilterMap, FilterMapped, filter_mapped,);
    impl<S: Iterator, R, F: Fn(S::Item) -> Option<R>> Iterator for FilterMapped<S, F> { type Item = R; fn next(&mut self) -> Option<R> { loop { if let Some(x) = (self.f)(self.s.next()?) { return Some(x) } } } }
    impl<I: ParallelIterator, R: Send, F: Fn(I::Item) -> Option<R> + Sync + Send> ParallelIterator for FilterMap<I, F> { type Item = R; type Seq = FilterMapped<I::Seq, F>; fn split(self) -> Vec<Self::Seq> { filter_mapped(self.i.split(), self.f) } }
    pub struct Inspected<S, F> { s: S, f: Rc<F> }
    impl<S: Iterator, F: Fn(&S::Item)> Iterator for Inspected<S, F> { type Item = S::Item; fn next(&mut self) -> Option<S::Item> { let x = self.s.next()?; (self.f)(&x); Some(x) } }
    pub struct Updated<S, F> { s: S, f: Rc<F> }
    impl<S: Iterator, F: Fn(&mut S::Item)> Iterator for Updated<S, F> { type Item = S::Item; fn next(&mut self) -> Option<S::Item> { let mut x = self.s.next()?; (self.f)(&mut x); Some(x) } }
    pub struct Stage<S, T, F> { s: S, t: T, f: Rc<F> }
    impl<S: Iterator, T, R, F: Fn(&mut T, S::Item) -> R> Iterator for Stage<S, T, F> { type Item = R; fn next(&mut self) -> Option<R> { let x = self.s.next()?; Some((self.f)(&mut self.t, x)) } }
    pub struct Lazily<S, T, G, F> { s: S, t: Option<T>, g: Rc<G>, f: Rc<F> }
    impl<S: Iterator, T, R, G: Fn() -> T, F: Fn(&mut T, S::Item) -> R> Iterator for Lazily<S, T, G, F> { type Item = R; fn next(&mut self) -> Option<R> { let x = self.s.next()?; let g = &self.g; Some((self.f)(self.t.get_or_insert_with(|| g()), x)) } }
    pub struct Flat<S, F, U: IntoIterator> { s: S, f: Rc<F>, now: Option<U::IntoIter> }
    impl<S: Iterator, U: IntoIterator, F: Fn(S::Item) -> U> Iterator for Flat<S, F, U> { type Item = U::Item; fn next(&mut self) -> Option<U::Item> { loop { if let Some(n) = &mut self.now { if let Some(x) = n.next() { return Some(x) } } self.now = Some((self.f)(self.s.next()?).into_iter()) } } }
    pub struct FlatPar<S, F, U: IntoParallelIterator> { s: S, f: Rc<F>, now: Vec<<U::Iter as ParallelIterator>::Seq> }
    impl<S: Iterator, U: IntoParallelIterator, F: Fn(S::Item) -> U> Iterator for FlatPar<S, F, U> { type Item = U::Item; fn next(&mut self) -> Option<U::Item> { loop { while !self.now.is_empty() { if let Some(x) = self.now[0].next() { return Some(x) } self.now.remove(0); } let x = self.s.next()?; self.now = (self.f)(x).into_par_iter().split() } } }
    pub struct Folded<S, ID, F> { s: Option<S>, id: Rc<ID>, f: Rc<F> }
    impl<S: Iterator, T, ID: Fn() -> T, F: Fn(T, S::Item) -> T> Iterator for Folded<S, ID, F> { type Item = T; fn next(&mut self) -> Option<T> { let s = self.s.take()?; Some(s.fold((self.id)(), |a, b| (self.f)(a, b))) } }
    pub enum Either<A, B> { A(A), B(B) }
    impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Either<A, B> { type Item = A::Item; fn next(&mut self) -> Option<A::Item> { match self { Either::A(a) => a.next(), Either::B(b) => b.next() } } fn size_hint(&self) -> (usize, Option<usize>) { match self { Either::A(a) => a.size_hint(), Either::B(b) => b.size_hint() } } }
    impl<A: ExactSizeIterator, B: ExactSizeIterator<Item = A::Item>> ExactSizeIterator for Either<A, B> {}
    pub struct Enumerate<I> { i: I }
    pub struct Numbered<S> { s: S, k: usize }
    impl<S: Iterator> Iterator for Numbered<S> { type Item = (usize, S::Item); fn next(&mut self) -> Option<Self::Item> { let x = self.s.next()?; self.k += 1; Some((self.k - 1, x)) } fn size_hint(&self) -> (usize, Option<usize>) { self.s.size_hint() } }
    impl<S: ExactSizeIterator> ExactSizeIterator for Numbered<S> {}
    impl<S: DoubleEndedIterator + ExactSizeIterator> DoubleEndedIterator for Numbered<S> { fn next_back(&mut self) -> Option<Self::Item> { let l = self.s.len(); Some((self.k + l - 1, self.s.next_back()?)) } }
    impl<I: IndexedParallelIterator> ParallelIterator for Enumerate<I> { type Item = (usize, I::Item); type Seq = Numbered<I::Seq>; fn split(self) -> Vec<Self::Seq> { let c = cuts(self.i.len()); self.split_at(&c) } }
    impl<I: IndexedParallelIterator> IndexedParallelIterator for Enumerate<I> { fn len(&self) -> usize { self.i.len() } fn split_at(self, at: &[usize]) -> Vec<Self::Seq> { let mut k = 0; self.i.split_at(at).into_iter().zip(at).map(|(s, e)| { let n = Numbered { s, k }; k = *e; n }).collect() } }
    pub struct Zip<A, B> { a: A, b: B }
    impl<A: IndexedParallelIterator, B: IndexedParallelIterator> ParallelIterator for Zip<A, B> { type Item = (A::Item, B::Item); type Seq = std::iter::Zip<A::Seq, B::Seq>; fn split(self) -> Vec<Self::Seq> { let c = cuts(IndexedParallelIterator::len(&self)); self.split_at(&c) } }
    impl<A: IndexedParallelIterator, B: IndexedParallelIterator> IndexedParallelIterator for Zip<A, B> { fn len(&self) -> usize { self.a.len().min(self.b.len()) } fn split_at(self, at: &[usize]) -> Vec<Self::Seq> { self.a.split_at(at).into_iter().zip(self.b.split_at(at)).map(|(x, y)| x.zip(y)).collect() } }

    pub trait IntoParallelIterator { type Item: Send; type Iter: ParallelIterator<Item = Self::Item>; fn into_par_iter(self) -> Self::Iter; }
    impl<I: ParallelIterator> IntoParallelIterator for I { type Item = I::Item; type Iter = I; fn into_par_iter(self) -> I { self } }
    macro_rules! given { ($([$($g:tt)*] $t:ty => $i:ty;)*) => { $(impl<$($g)*> IntoParallelIterator for $t { type Item = $i; type Iter = Given<$i>; fn into_par_iter(self) -> Given<$i> { Given { v: self.into_iter().collect() } } })* }; }
    use std::collections::*;
    given! {
        [T: Send] Vec<T> => T; [T: Send, const N: usize] [T; N] => T; [T: Send] Option<T> => T; [T: Send] VecDeque<T> => T; [T: Send] LinkedList<T> => T; [T: Send + Ord] BTreeSet<T> => T; [T: Send + Ord] BinaryHeap<T> => T; [K: Ord + Send, V: Send] BTreeMap<K, V> => (K, V);
        [K: Send, V: Send, S] HashMap<K, V, S> => (K, V); [K: Send, S] HashSet<K, S> => K;
        ['a, T: Sync] &'a [T] => &'a T; ['a, T: Sync] &'a Vec<T> => &'a T; ['a, T: Sync] &'a VecDeque<T> => &'a T; ['a, T: Sync] &'a BTreeSet<T> => &'a T; ['a, T: Sync, const N: usize] &'a [T; N] => &'a T; ['a, K: Sync, V: Sync] &'a BTreeMap<K, V> => (&'a K, &'a V); ['a, K: Sync, V: Sync, S] &'a HashMap<K, V, S> => (&'a K, &'a V);
        ['a, T: Send] &'a mut [T] => &'a mut T; ['a, T: Send] &'a mut Vec<T> => &'a mut T; ['a, K: Sync, V: Send] &'a mut BTreeMap<K, V> => (&'a K, &'a mut V);
        [] std::ops::Range<usize> => usize; [] std::ops::Range<u64> => u64; [] std::ops::Range<u32> => u32; [] std::ops::Range<u16> => u16; [] std::ops::Range<u8> => u8; [] std::ops::Range<i32> => i32; [] std::ops::Range<i64> => i64;
        [] std::ops::RangeInclusive<usize> => usize; [] std::ops::RangeInclusive<u32> => u32; [] std::ops::RangeInclusive<u8> => u8; [] std::ops::RangeInclusive<i32> => i32;
    }
    pub trait IntoParallelRefIterator<'a> { type Item: Send + 'a; type Iter: ParallelIterator<Item = Self::Item>; fn par_iter(&'a self) -> Self::Iter; }
    impl<'a, I: 'a + ?Sized> IntoParallelRefIterator<'a> for I where &'a I: IntoParallelIterator, <&'a I as IntoParallelIterator>::Item: 'a { type Item = <&'a I as IntoParallelIterator>::Item; type Iter = <&'a I as IntoParallelIterator>::Iter; fn par_iter(&'a self) -> Self::Iter { self.into_par_iter() } }
    pub trait IntoParallelRefMutIterator<'a> { type Item: Send + 'a; type Iter: ParallelIterator<Item = Self::Item>; fn par_iter_mut(&'a mut self) -> Self::Iter; }
    impl<'a, I: 'a + ?Sized> IntoParallelRefMutIterator<'a> for I where &'a mut I: IntoParallelIterator, <&'a mut I as IntoParallelIterator>::Item: 'a { type Item = <&'a mut I as IntoParallelIterator>::Item; type Iter = <&'a mut I as IntoParallelIterator>::Iter; fn par_iter_mut(&'a mut self) -> Self::Iter { self.into_par_iter() } }
    /// items of an iterator, in no particular order
    pub trait ParallelBridge: Sized { type Item: Send; fn par_bridge(self) -> Given<Self::Item>; }
    impl<I: Iterator + Send> ParallelBridge for I where I::Item: Send { type Item = I::Item; fn par_bridge(self) -> Given<I::Item> { let mut v: Vec<_> = self.collect(); if v.len() > 1 && choose(2) == 1 { v.reverse() } Given { v } } }
    pub trait ParallelExtend<T: Send> { fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I); }
    impl<T: Send, C: Extend<T>> ParallelExtend<T> for C { fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I) { self.extend(i.into_par_iter().collect::<Vec<T>>()) } }
    pub trait FromParallelIterator<T: Send>: FromIterator<T> { fn from_par_iter<I: IntoParallelIterator<Item = T>>(i: I) -> Self { i.into_par_iter().collect() } }
    impl<T: Send, C: FromIterator<T>> FromParallelIterator<T> for C {}
    pub fn once<T: Send>(t: T) -> Given<T> { Given { v: vec![t] } }
    pub fn empty<T: Send>() -> Given<T> { Given { v: vec![] } }
    pub fn repeatn<T: Send + Clone>(t: T, n: usize) -> Given<T> { Given { v: vec![t; n] } }
    pub fn repeat_n<T: Send + Clone>(t: T, n: usize) -> Given<T> { Given { v: vec![t; n] } }
}
pub mod slice {
    use super::iter::Given;
    pub trait ParallelSlice<T: Sync> {
        fn as_slice_(&self) -> &[T];
        fn par_chunks(&self, n: usize) -> Given<&[T]> { Given { v: self.as_slice_().chunks(n).collect() } }
        fn par_chunks_exact(&self, n: usize) -> Given<&[T]> { Given { v: self.as_slice_().chunks_exact(n).collect() } }
        fn par_windows(&self, n: usize) -> Given<&[T]> { Given { v: self.as_slice_().windows(n).collect() } }
        fn par_split<P: Fn(&T) -> bool + Sync + Send>(&self, p: P) -> Given<&[T]> { Given { v: self.as_slice_().split(|x| p(x)).collect() } }
    }
    impl<T: Sync> ParallelSlice<T> for [T] { fn as_slice_(&self) -> &[T] { self } }
    pub trait ParallelSliceMut<T: Send> {
        fn as_mut_(&mut self) -> &mut [T];
        fn par_chunks_mut(&mut self, n: usize) -> Given<&mut [T]> { Given { v: self.as_mut_().chunks_mut(n).collect() } }
        fn par_sort(&mut self) where T: Ord { self.as_mut_().sort() }
        fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering + Sync>(&mut self, f: F) { self.as_mut_().sort_by(|a, b| f(a, b)) }
        fn par_sort_by_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F) { self.as_mut_().sort_by_key(|a| f(a)) }
        fn par_sort_unstable(&mut self) where T: Ord { self.as_mut_().sort() }
        fn par_sort_unstable_by<F: Fn(&T, &T) -> std::cmp::Ordering + Sync>(&mut self, f: F) { self.as_mut_().sort_by(|a, b| f(a, b)) }
        fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F) { self.as_mut_().sort_by_key(|a| f(a)) }
    }
    impl<T: Send> ParallelSliceMut<T> for [T] { fn as_mut_(&mut self) -> &mut [T] { self } }
}
pub mod prelude {
    pub use crate::iter::{FromParallelIterator, IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge, ParallelExtend, ParallelIterator};
    pub use crate::slice::{ParallelSlice, ParallelSliceMut};
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send {
    enum E<A, B> { A(A), B(B) }
    let mut r = run(vec![E::A(a), E::B(b)], |e| match e { E::A(a) => E::A(a()), E::B(b) => E::B(b()) }).into_iter();
    match (r.next(), r.next()) { (Some(E::A(x)), Some(E::B(y))) => (x, y), _ => unreachable!() }
}
/// what is spawned runs at once, or after what follows, at the latest at the end of the scope
pub struct Scope<'s> { todo: std::cell::RefCell<Vec<(usize, Box<dyn FnMut() + 's>)>> }
unsafe impl Sync for Scope<'_> {}
unsafe impl Send for Scope<'_> {}
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        let me = self as *const Scope<'s>;
        let mut f = Some(f);
        let mut b: Box<dyn FnMut() + 's> = Box::new(move || (f.take().unwrap())(unsafe { &*me }));
        let k = sched::add(&mut *b);
        self.todo.borrow_mut().push((k, b));
        if choose(2) == 1 { sched::start(k) }
    }
    fn finish(&self) {
        loop {
            let w: Vec<usize> = self.todo.borrow().iter().map(|t| t.0).filter(|k| sched::is_waiting(*k)).collect();
            if w.is_empty() { break }
            sched::start(if w.len() > 1 && choose(2) == 1 { w[w.len() - 1] } else { w[0] });
        }
        for t in self.todo.borrow().iter() { sched::join(t.0) }
    }
}
pub fn scope<'s, R, F: FnOnce(&Scope<'s>) -> R>(f: F) -> R { let s = Scope { todo: Default::default() }; let r = f(&s); s.finish(); r }
pub fn in_place_scope<'s, R, F: FnOnce(&Scope<'s>) -> R>(f: F) -> R { scope(f) }
pub fn current_num_threads() -> usize { 1 + sxrt::pick(4) }
pub fn max_num_threads() -> usize { 65535 }
pub fn current_thread_index() -> Option<usize> { let k = sched::current(); if k == 0 { None } else { Some(k - 1) } }
#[derive(Debug)] pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("thread pool") } }
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Default)] pub struct ThreadPoolBuilder { n: usize }
impl ThreadPoolBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn num_threads(mut self, n: usize) -> Self { self.n = n; self }
    pub fn stack_size(self, _: usize) -> Self { self }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self { self }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> { Ok(ThreadPool { n: self.n }) }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> { Ok(()) }
}
pub struct ThreadPool { n: usize }
impl ThreadPool {
    pub fn install<R: Send, F: FnOnce() -> R + Send>(&self, f: F) -> R { f() }
    pub fn current_num_threads(&self) -> usize { if self.n == 0 { current_num_threads() } else { self.n } }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send { join(a, b) }
    pub fn scope<'s, R, F: FnOnce(&Scope<'s>) -> R>(&self, f: F) -> R { scope(f) }
}
