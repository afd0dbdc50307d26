//! Parallel iterators: every item is a task of its own, so all orders in which rayon may process them are explored
//! (rayon runs neighbouring items together, in order, which is one of them).
use crate::in_place_scope;
use std::sync::{Arc, Mutex};

type Job<'a, T> = Box<dyn FnOnce() -> Option<T> + Send + 'a>;

pub struct Par<'a, T> {
    items: Vec<Job<'a, T>>,
}

impl<'a, T: Send + 'a> Par<'a, T> {
    pub fn of(it: impl Iterator<Item = T>) -> Self {
        Par {
            items: it.map(|x| Box::new(move || Some(x)) as Job<'a, T>).collect(),
        }
    }
    /// runs every item's closure, as a task
    fn run(self) -> Vec<Option<T>> {
        let n = self.items.len();
        let slots: Vec<Mutex<Option<T>>> = (0..n).map(|_| Mutex::new(None)).collect();
        crate::on_worker(|| {
            let slots = &slots;
            in_place_scope(move |s| {
                for (job, slot) in self.items.into_iter().zip(slots) {
                    s.spawn(move |_| {
                        let v = job();
                        *slot.lock().unwrap() = v;
                    });
                }
            })
        });
        slots.into_iter().map(|s| s.into_inner().unwrap()).collect()
    }
    fn values(self) -> impl Iterator<Item = T> {
        self.run().into_iter().flatten()
    }
    fn step<U: Send + 'a>(self, f: impl Fn(T) -> Option<U> + Send + Sync + 'a) -> Par<'a, U> {
        let f = Arc::new(f);
        Par {
            items: self
                .items
                .into_iter()
                .map(|j| {
                    let f = f.clone();
                    Box::new(move || j().and_then(|x| f(x))) as Job<'a, U>
                })
                .collect(),
        }
    }

    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    pub fn with_min_len(self, _: usize) -> Self {
        self
    }
    pub fn with_max_len(self, _: usize) -> Self {
        self
    }
    pub fn by_exponential_blocks(self) -> Self {
        self
    }
    pub fn map<U: Send + 'a, F: Fn(T) -> U + Send + Sync + 'a>(self, f: F) -> Par<'a, U> {
        self.step(move |x| Some(f(x)))
    }
    pub fn map_with<S: Clone + Send + Sync + 'a, U: Send + 'a, F: Fn(&mut S, T) -> U + Send + Sync + 'a>(self, s: S, f: F) -> Par<'a, U> {
        let s = Mutex::new(s);
        self.step(move |x| {
            let mut s2 = s.lock().unwrap().clone();
            Some(f(&mut s2, x))
        })
    }
    pub fn map_init<S, I: Fn() -> S + Send + Sync + 'a, U: Send + 'a, F: Fn(&mut S, T) -> U + Send + Sync + 'a>(self, init: I, f: F) -> Par<'a, U> {
        self.step(move |x| Some(f(&mut init(), x)))
    }
    pub fn inspect<F: Fn(&T) + Send + Sync + 'a>(self, f: F) -> Par<'a, T> {
        self.step(move |x| {
            f(&x);
            Some(x)
        })
    }
    pub fn filter<F: Fn(&T) -> bool + Send + Sync + 'a>(self, f: F) -> Par<'a, T> {
        self.step(move |x| f(&x).then_some(x))
    }
    pub fn filter_map<U: Send + 'a, F: Fn(T) -> Option<U> + Send + Sync + 'a>(self, f: F) -> Par<'a, U> {
        self.step(f)
    }
    pub fn flat_map_iter<I: IntoIterator, F: Fn(T) -> I + Send + Sync + 'a>(self, f: F) -> Par<'a, I::Item>
    where
        I::Item: Send + 'a,
    {
        let v: Vec<Vec<I::Item>> = self.step(move |x| Some(f(x).into_iter().collect::<Vec<_>>())).values().collect();
        Par::of(v.into_iter().flatten())
    }
    pub fn flat_map<I: IntoParallelIterator, F: Fn(T) -> I + Send + Sync + 'a>(self, f: F) -> Par<'a, I::Item>
    where
        I: Send + 'a,
        I::Item: Send + 'a,
    {
        let v: Vec<I> = self.step(move |x| Some(f(x))).values().collect();
        Par::of(v.into_iter().flat_map(|i| i.into_par_iter().values().collect::<Vec<_>>()))
    }
    pub fn enumerate(self) -> Par<'a, (usize, T)> {
        Par {
            items: self
                .items
                .into_iter()
                .enumerate()
                .map(|(k, j)| Box::new(move || j().map(|x| (k, x))) as Job<'a, (usize, T)>)
                .collect(),
        }
    }
    pub fn zip<J: IntoParallelIterator>(self, o: J) -> Par<'a, (T, J::Item)>
    where
        J: IntoParallelIteratorOn<'a>,
        J::Item: Send + 'a,
    {
        let o = o.on();
        Par {
            items: self
                .items
                .into_iter()
                .zip(o.items)
                .map(|(a, b)| Box::new(move || a().zip(b())) as Job<'a, (T, J::Item)>)
                .collect(),
        }
    }
    pub fn chain(mut self, o: Par<'a, T>) -> Par<'a, T> {
        self.items.extend(o.items);
        self
    }
    pub fn rev(mut self) -> Par<'a, T> {
        self.items.reverse();
        self
    }
    pub fn take(mut self, n: usize) -> Par<'a, T> {
        self.items.truncate(n);
        self
    }
    pub fn skip(mut self, n: usize) -> Par<'a, T> {
        self.items.drain(..n.min(self.items.len()));
        self
    }
    pub fn step_by(self, n: usize) -> Par<'a, T> {
        Par { items: self.items.into_iter().step_by(n).collect() }
    }
    pub fn for_each<F: Fn(T) + Send + Sync + 'a>(self, f: F) {
        self.step(move |x| {
            f(x);
            Some(())
        })
        .run();
    }
    pub fn for_each_with<S: Clone + Send + Sync + 'a, F: Fn(&mut S, T) + Send + Sync + 'a>(self, s: S, f: F) {
        self.map_with(s, f).run();
    }
    pub fn try_for_each<E: Send + 'a, F: Fn(T) -> Result<(), E> + Send + Sync + 'a>(self, f: F) -> Result<(), E> {
        self.map(f).values().collect()
    }
    pub fn collect<C: FromIterator<T>>(self) -> C {
        self.values().collect()
    }
    pub fn collect_into_vec(self, v: &mut Vec<T>) {
        v.clear();
        v.extend(self.values());
    }
    pub fn unzip<A, B, FA: Default + Extend<A>, FB: Default + Extend<B>>(self) -> (FA, FB)
    where
        T: Into<(A, B)>,
    {
        self.values().map(Into::into).unzip()
    }
    pub fn sum<S: std::iter::Sum<T>>(self) -> S {
        self.values().sum()
    }
    pub fn product<S: std::iter::Product<T>>(self) -> S {
        self.values().product()
    }
    pub fn count(self) -> usize {
        self.values().count()
    }
    pub fn all<F: Fn(T) -> bool + Send + Sync + 'a>(self, f: F) -> bool {
        self.map(f).values().fold(true, |a, b| a & b)
    }
    pub fn any<F: Fn(T) -> bool + Send + Sync + 'a>(self, f: F) -> bool {
        self.map(f).values().fold(false, |a, b| a | b)
    }
    pub fn max(self) -> Option<T>
    where
        T: Ord,
    {
        self.values().max()
    }
    pub fn min(self) -> Option<T>
    where
        T: Ord,
    {
        self.values().min()
    }
    pub fn reduce<I: Fn() -> T + Send + Sync, F: Fn(T, T) -> T + Send + Sync>(self, id: I, f: F) -> T {
        self.values().fold(id(), f)
    }
    pub fn reduce_with<F: Fn(T, T) -> T + Send + Sync>(self, f: F) -> Option<T> {
        self.values().reduce(f)
    }
    /// one partial result for each item, as if every item were a split of its own
    pub fn fold<U: Send + 'a, I: Fn() -> U + Send + Sync + 'a, F: Fn(U, T) -> U + Send + Sync + 'a>(self, id: I, f: F) -> Par<'a, U> {
        self.step(move |x| Some(f(id(), x)))
    }
}
impl<'a, T: Clone + Send + Sync + 'a> Par<'a, &'a T> {
    pub fn cloned(self) -> Par<'a, T> {
        self.map(|x| x.clone())
    }
    pub fn copied(self) -> Par<'a, T>
    where
        T: Copy,
    {
        self.map(|x| *x)
    }
}

pub trait IntoParallelIterator: Sized {
    type Item: Send;
    fn into_par_iter<'a>(self) -> Par<'a, Self::Item>
    where
        Self: 'a,
        Self::Item: 'a;
}
impl<I: IntoIterator> IntoParallelIterator for I
where
    I::Item: Send,
{
    type Item = I::Item;
    fn into_par_iter<'a>(self) -> Par<'a, I::Item>
    where
        Self: 'a,
        I::Item: 'a,
    {
        Par::of(self.into_iter())
    }
}
/// what may follow `zip`
pub trait IntoParallelIteratorOn<'a>: IntoParallelIterator {
    fn on(self) -> Par<'a, Self::Item>;
}
impl<'a, I: IntoParallelIterator + 'a> IntoParallelIteratorOn<'a> for I
where
    I::Item: 'a,
{
    fn on(self) -> Par<'a, I::Item> {
        self.into_par_iter()
    }
}
impl<'a, T: Send + 'a> IntoIterator for Par<'a, T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.values().collect::<Vec<_>>().into_iter()
    }
}

pub trait IntoParallelRefIterator<'a> {
    type Item: Send + 'a;
    fn par_iter(&'a self) -> Par<'a, Self::Item>;
}
impl<'a, C: ?Sized + 'a> IntoParallelRefIterator<'a> for C
where
    &'a C: IntoIterator,
    <&'a C as IntoIterator>::Item: Send + 'a,
{
    type Item = <&'a C as IntoIterator>::Item;
    fn par_iter(&'a self) -> Par<'a, Self::Item> {
        Par::of(self.into_iter())
    }
}
pub trait IntoParallelRefMutIterator<'a> {
    type Item: Send + 'a;
    fn par_iter_mut(&'a mut self) -> Par<'a, Self::Item>;
}
impl<'a, C: ?Sized + 'a> IntoParallelRefMutIterator<'a> for C
where
    &'a mut C: IntoIterator,
    <&'a mut C as IntoIterator>::Item: Send + 'a,
{
    type Item = <&'a mut C as IntoIterator>::Item;
    fn par_iter_mut(&'a mut self) -> Par<'a, Self::Item> {
        Par::of(self.into_iter())
    }
}
pub trait ParallelSlice<T: Sync> {
    fn slice(&self) -> &[T];
    fn par_chunks(&self, n: usize) -> Par<'_, &[T]> {
        Par::of(self.slice().chunks(n))
    }
    fn par_chunks_exact(&self, n: usize) -> Par<'_, &[T]> {
        Par::of(self.slice().chunks_exact(n))
    }
    fn par_windows(&self, n: usize) -> Par<'_, &[T]> {
        Par::of(self.slice().windows(n))
    }
}
impl<T: Sync> ParallelSlice<T> for [T] {
    fn slice(&self) -> &[T] {
        self
    }
}
pub trait ParallelSliceMut<T: Send> {
    fn slice_mut(&mut self) -> &mut [T];
    fn par_chunks_mut(&mut self, n: usize) -> Par<'_, &mut [T]> {
        Par::of(self.slice_mut().chunks_mut(n))
    }
    fn par_chunks_exact_mut(&mut self, n: usize) -> Par<'_, &mut [T]> {
        Par::of(self.slice_mut().chunks_exact_mut(n))
    }
}
impl<T: Send> ParallelSliceMut<T> for [T] {
    fn slice_mut(&mut self) -> &mut [T] {
        self
    }
}
pub trait ParallelBridge: Iterator + Sized
where
    Self::Item: Send,
{
    fn par_bridge<'a>(self) -> Par<'a, Self::Item>
    where
        Self::Item: 'a,
    {
        Par::of(self)
    }
}
impl<I: Iterator> ParallelBridge for I where I::Item: Send {}
pub trait ParallelIterator {}
pub trait IndexedParallelIterator {}
