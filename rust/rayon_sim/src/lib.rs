//! rayon's surface on the simulated runtime: which thread runs which item, and
//! when, is the scheduler's choice.
use simrt::par_map;

/// Items not yet touched by any parallel stage.
pub struct Par<T>(Vec<T>);

pub mod iter {
    pub use super::prelude::*;
    pub use super::Par;
}

pub mod slice {
    pub use super::prelude::*;
}

pub mod prelude {
    pub use super::{
        FromParallelIterator, IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator,
        IntoParallelRefMutIterator, ParallelBridge, ParallelExtend, ParallelIterator, ParallelSlice, ParallelSliceMut,
    };
}

pub trait FromParallelIterator<T> {
    fn from_par(v: Vec<T>) -> Self;
}
impl<T, C: FromIterator<T>> FromParallelIterator<T> for C {
    fn from_par(v: Vec<T>) -> Self {
        v.into_iter().collect()
    }
}
pub trait ParallelExtend<T> {
    fn par_extend(&mut self, it: Par<T>);
}
impl<T, C: Extend<T>> ParallelExtend<T> for C {
    fn par_extend(&mut self, it: Par<T>) {
        self.extend(it.0);
    }
}

// the traits only make `use rayon::prelude::*` and bounds resolve
pub trait ParallelIterator {}
pub trait IndexedParallelIterator {}
impl<T> ParallelIterator for Par<T> {}
impl<T> IndexedParallelIterator for Par<T> {}

impl<T: Send> Par<T> {
    pub fn for_each(self, f: impl Fn(T) + Sync + Send) {
        par_map(self.0, &f);
    }
    pub fn for_each_with<S: Clone + Send + Sync>(self, s: S, f: impl Fn(&mut S, T) + Sync + Send) {
        let s = std::sync::Mutex::new(s);
        par_map(self.0, &|x| {
            let mut c = s.lock().unwrap().clone();
            f(&mut c, x);
        });
    }
    pub fn for_each_init<S>(self, init: impl Fn() -> S + Sync + Send, f: impl Fn(&mut S, T) + Sync + Send) {
        par_map(self.0, &|x| f(&mut init(), x));
    }
    pub fn try_for_each<E: Send>(self, f: impl Fn(T) -> Result<(), E> + Sync + Send) -> Result<(), E> {
        par_map(self.0, &f).into_iter().collect()
    }
    pub fn map<R: Send>(self, f: impl Fn(T) -> R + Sync + Send) -> Par<R> {
        Par(par_map(self.0, &f))
    }
    pub fn map_init<S, R: Send>(self, init: impl Fn() -> S + Sync + Send, f: impl Fn(&mut S, T) -> R + Sync + Send) -> Par<R> {
        Par(par_map(self.0, &|x| f(&mut init(), x)))
    }
    pub fn map_with<S: Clone + Send + Sync, R: Send>(self, s: S, f: impl Fn(&mut S, T) -> R + Sync + Send) -> Par<R> {
        let s = std::sync::Mutex::new(s);
        Par(par_map(self.0, &|x| {
            let mut c = s.lock().unwrap().clone();
            f(&mut c, x)
        }))
    }
    pub fn inspect(self, f: impl Fn(&T) + Sync + Send) -> Self {
        Par(par_map(self.0, &|x| {
            f(&x);
            x
        }))
    }
    pub fn filter(self, f: impl Fn(&T) -> bool + Sync + Send) -> Self {
        Par(par_map(self.0, &|x| f(&x).then_some(x)).into_iter().flatten().collect())
    }
    pub fn filter_map<R: Send>(self, f: impl Fn(T) -> Option<R> + Sync + Send) -> Par<R> {
        Par(par_map(self.0, &f).into_iter().flatten().collect())
    }
    pub fn flat_map_iter<I: IntoIterator>(self, f: impl Fn(T) -> I + Sync + Send) -> Par<I::Item>
    where
        I::Item: Send,
    {
        Par(par_map(self.0, &|x| f(x).into_iter().collect::<Vec<_>>()).into_iter().flatten().collect())
    }
    pub fn flat_map<I: IntoParallelIterator>(self, f: impl Fn(T) -> I + Sync + Send) -> Par<I::Item>
    where
        I::Item: Send,
    {
        Par(par_map(self.0, &|x| f(x).into_par_iter().0).into_iter().flatten().collect())
    }
    pub fn flatten(self) -> Par<<T as IntoIterator>::Item>
    where
        T: IntoIterator,
        <T as IntoIterator>::Item: Send,
    {
        Par(self.0.into_iter().flatten().collect())
    }
    pub fn flatten_iter(self) -> Par<<T as IntoIterator>::Item>
    where
        T: IntoIterator,
        <T as IntoIterator>::Item: Send,
    {
        self.flatten()
    }
    pub fn enumerate(self) -> Par<(usize, T)> {
        Par(self.0.into_iter().enumerate().collect())
    }
    pub fn zip<U: IntoParallelIterator>(self, o: U) -> Par<(T, U::Item)> {
        Par(self.0.into_iter().zip(o.into_par_iter().0).collect())
    }
    pub fn chain(self, o: Par<T>) -> Self {
        Par(self.0.into_iter().chain(o.0).collect())
    }
    pub fn rev(self) -> Self {
        Par(self.0.into_iter().rev().collect())
    }
    pub fn with_min_len(self, _: usize) -> Self {
        self
    }
    pub fn with_max_len(self, _: usize) -> Self {
        self
    }
    pub fn collect<C: FromParallelIterator<T>>(self) -> C {
        C::from_par(self.0)
    }
    pub fn collect_into_vec(self, v: &mut Vec<T>) {
        *v = self.0;
    }
    pub fn count(self) -> usize {
        self.0.len()
    }
    pub fn sum<S: std::iter::Sum<T>>(self) -> S {
        self.0.into_iter().sum()
    }
    pub fn max(self) -> Option<T>
    where
        T: Ord,
    {
        self.0.into_iter().max()
    }
    pub fn min(self) -> Option<T>
    where
        T: Ord,
    {
        self.0.into_iter().min()
    }
    pub fn any(self, f: impl Fn(T) -> bool + Sync + Send) -> bool {
        par_map(self.0, &f).into_iter().any(|x| x)
    }
    pub fn all(self, f: impl Fn(T) -> bool + Sync + Send) -> bool {
        par_map(self.0, &f).into_iter().all(|x| x)
    }
    /// groups of neighbours are folded separately, as the scheduler cuts them
    pub fn fold<A: Send>(self, id: impl Fn() -> A + Sync + Send, f: impl Fn(A, T) -> A + Sync + Send) -> Par<A> {
        let mut groups: Vec<Vec<T>> = vec![];
        let n = self.0.len();
        for (i, x) in self.0.into_iter().enumerate() {
            if i == 0 || (i * 7 + n) % 3 == 0 {
                groups.push(vec![]);
            }
            groups.last_mut().unwrap().push(x);
        }
        Par(par_map(groups, &|g| g.into_iter().fold(id(), &f)))
    }
    pub fn reduce(self, id: impl Fn() -> T + Sync + Send, f: impl Fn(T, T) -> T + Sync + Send) -> T {
        self.0.into_iter().fold(id(), f)
    }
    pub fn reduce_with(self, f: impl Fn(T, T) -> T + Sync + Send) -> Option<T> {
        self.0.into_iter().reduce(f)
    }
    pub fn partition<A: Default + Extend<T>, B: Default + Extend<T>>(self, f: impl Fn(&T) -> bool) -> (A, B) {
        let (mut a, mut b) = (A::default(), B::default());
        for x in self.0 {
            if f(&x) {
                a.extend([x]);
            } else {
                b.extend([x]);
            }
        }
        (a, b)
    }
}
impl<'a, T: Clone + Send + Sync + 'a> Par<&'a T> {
    pub fn copied(self) -> Par<T> {
        Par(self.0.into_iter().cloned().collect())
    }
    pub fn cloned(self) -> Par<T> {
        Par(self.0.into_iter().cloned().collect())
    }
}

pub trait IntoParallelIterator {
    type Item;
    fn into_par_iter(self) -> Par<Self::Item>;
}
impl<C: IntoIterator> IntoParallelIterator for C {
    type Item = C::Item;
    fn into_par_iter(self) -> Par<C::Item> {
        Par(self.into_iter().collect())
    }
}
impl<T> IntoIterator for Par<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
pub trait IntoParallelRefIterator<'a> {
    type Item;
    fn par_iter(&'a self) -> Par<Self::Item>;
}
impl<'a, C: ?Sized + 'a> IntoParallelRefIterator<'a> for C
where
    &'a C: IntoIterator,
{
    type Item = <&'a C as IntoIterator>::Item;
    fn par_iter(&'a self) -> Par<Self::Item> {
        Par(self.into_iter().collect())
    }
}
pub trait IntoParallelRefMutIterator<'a> {
    type Item;
    fn par_iter_mut(&'a mut self) -> Par<Self::Item>;
}
impl<'a, C: ?Sized + 'a> IntoParallelRefMutIterator<'a> for C
where
    &'a mut C: IntoIterator,
{
    type Item = <&'a mut C as IntoIterator>::Item;
    fn par_iter_mut(&'a mut self) -> Par<Self::Item> {
        Par(self.into_iter().collect())
    }
}
pub trait ParallelBridge: Iterator + Sized {
    fn par_bridge(self) -> Par<Self::Item> {
        Par(self.collect())
    }
}
impl<I: Iterator> ParallelBridge for I {}
pub trait ParallelSlice<T> {
    fn par_chunks(&self, n: usize) -> Par<&[T]>;
}
impl<T> ParallelSlice<T> for [T] {
    fn par_chunks(&self, n: usize) -> Par<&[T]> {
        Par(self.chunks(n).collect())
    }
}
pub trait ParallelSliceMut<T> {
    fn par_sort(&mut self)
    where
        T: Ord;
    fn par_sort_unstable(&mut self)
    where
        T: Ord;
}
impl<T> ParallelSliceMut<T> for [T] {
    fn par_sort(&mut self)
    where
        T: Ord,
    {
        self.sort();
    }
    fn par_sort_unstable(&mut self)
    where
        T: Ord,
    {
        self.sort();
    }
}

pub fn join<A: Send, B: Send>(a: impl FnOnce() -> A + Send, b: impl FnOnce() -> B + Send) -> (A, B) {
    let (ra, rb) = (std::sync::Mutex::new(None), std::sync::Mutex::new(None));
    simrt::region(vec![
        Box::new(|| {
            let v = a();
            *ra.lock().unwrap() = Some(v);
        }),
        Box::new(|| {
            let v = b();
            *rb.lock().unwrap() = Some(v);
        }),
    ]);
    (ra.into_inner().unwrap().unwrap(), rb.into_inner().unwrap().unwrap())
}

pub struct Scope<'s>(std::sync::Mutex<Vec<Box<dyn FnOnce(&Scope<'s>) + Send + 's>>>);
impl<'s> Scope<'s> {
    pub fn spawn(&self, f: impl FnOnce(&Scope<'s>) + Send + 's) {
        self.0.lock().unwrap().push(Box::new(f));
    }
}
pub fn scope<'s, R>(f: impl FnOnce(&Scope<'s>) -> R) -> R {
    let sc = Scope(std::sync::Mutex::new(vec![]));
    let r = f(&sc);
    loop {
        let jobs = std::mem::take(&mut *sc.0.lock().unwrap());
        if jobs.is_empty() {
            return r;
        }
        let sc = &sc;
        par_map(jobs, &|j| j(sc));
    }
}
pub fn current_num_threads() -> usize {
    std::env::var("SIMRT_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(4)
}
pub fn current_thread_index() -> Option<usize> {
    None
}
