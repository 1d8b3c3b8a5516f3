//! Verification stand-in for `rayon`: every parallel iterator runs sequentially, in order.
//! Assumption it stands for: rayon applies the closure exactly once per item and collects
//! in item order; the closures given to it do not race (they take disjoint `&mut` chunks).

pub struct Par<I>(pub I);

pub mod iter {
  pub use crate::Par;

  pub trait FromParallelIterator<T>: Sized {
    fn from_seq<I: Iterator<Item = T>>(it: I) -> Self;
  }
  impl<T, C: std::iter::FromIterator<T>> FromParallelIterator<T> for C {
    fn from_seq<I: Iterator<Item = T>>(it: I) -> Self { it.collect() }
  }

  pub trait ParallelIterator: Sized {
    type Item;
    type Seq: Iterator<Item = Self::Item>;
    fn seq(self) -> Self::Seq;

    fn for_each<F: Fn(Self::Item)>(self, f: F) { for x in self.seq() { f(x) } }
    fn for_each_with<T, F: Fn(&mut T, Self::Item)>(self, mut init: T, f: F) { for x in self.seq() { f(&mut init, x) } }
    fn for_each_init<T, N: Fn() -> T, F: Fn(&mut T, Self::Item)>(self, init: N, f: F) { let mut t = init(); for x in self.seq() { f(&mut t, x) } }
    fn try_for_each<E, F: Fn(Self::Item) -> Result<(), E>>(self, f: F) -> Result<(), E> {
      for x in self.seq() { f(x)? }
      Ok(())
    }
    fn map<R, F: Fn(Self::Item) -> R>(self, f: F) -> Par<std::iter::Map<Self::Seq, F>> { Par(self.seq().map(f)) }
    fn filter<F: Fn(&Self::Item) -> bool>(self, f: F) -> Par<std::iter::Filter<Self::Seq, F>> { Par(self.seq().filter(f)) }
    fn filter_map<R, F: Fn(Self::Item) -> Option<R>>(self, f: F) -> Par<std::iter::FilterMap<Self::Seq, F>> { Par(self.seq().filter_map(f)) }
    fn flat_map<U: IntoIterator, F: Fn(Self::Item) -> U>(self, f: F) -> Par<std::iter::FlatMap<Self::Seq, U, F>> { Par(self.seq().flat_map(f)) }
    fn flat_map_iter<U: IntoIterator, F: Fn(Self::Item) -> U>(self, f: F) -> Par<std::iter::FlatMap<Self::Seq, U, F>> { Par(self.seq().flat_map(f)) }
    fn flatten(self) -> Par<std::iter::Flatten<Self::Seq>> where Self::Item: IntoIterator { Par(self.seq().flatten()) }
    fn cloned<'a, T: 'a + Clone>(self) -> Par<std::iter::Cloned<Self::Seq>> where Self::Seq: Iterator<Item = &'a T> { Par(self.seq().cloned()) }
    fn copied<'a, T: 'a + Copy>(self) -> Par<std::iter::Copied<Self::Seq>> where Self::Seq: Iterator<Item = &'a T> { Par(self.seq().copied()) }
    fn chain<J: Iterator<Item = Self::Item>>(self, o: Par<J>) -> Par<std::iter::Chain<Self::Seq, J>> { Par(self.seq().chain(o.0)) }
    fn collect<C: FromParallelIterator<Self::Item>>(self) -> C { C::from_seq(self.seq()) }
    fn sum<S: std::iter::Sum<Self::Item>>(self) -> S { self.seq().sum() }
    fn count(self) -> usize { self.seq().count() }
    fn min(self) -> Option<Self::Item> where Self::Item: Ord { self.seq().min() }
    fn max(self) -> Option<Self::Item> where Self::Item: Ord { self.seq().max() }
    fn any<F: Fn(Self::Item) -> bool>(self, f: F) -> bool { let mut s = self.seq(); s.any(f) }
    fn all<F: Fn(Self::Item) -> bool>(self, f: F) -> bool { let mut s = self.seq(); s.all(f) }
    fn reduce<ID: Fn() -> Self::Item, F: Fn(Self::Item, Self::Item) -> Self::Item>(self, id: ID, f: F) -> Self::Item { self.seq().fold(id(), f) }
    fn fold<T, ID: Fn() -> T, F: Fn(T, Self::Item) -> T>(self, id: ID, f: F) -> Par<std::iter::Once<T>> { Par(std::iter::once(self.seq().fold(id(), f))) }
  }
  impl<I: Iterator> ParallelIterator for Par<I> {
    type Item = I::Item;
    type Seq = I;
    fn seq(self) -> I { self.0 }
  }

  pub trait IndexedParallelIterator: ParallelIterator {
    fn enumerate(self) -> Par<std::iter::Enumerate<Self::Seq>> { Par(self.seq().enumerate()) }
    fn skip(self, n: usize) -> Par<std::iter::Skip<Self::Seq>> { Par(self.seq().skip(n)) }
    fn take(self, n: usize) -> Par<std::iter::Take<Self::Seq>> { Par(self.seq().take(n)) }
    fn step_by(self, n: usize) -> Par<std::iter::StepBy<Self::Seq>> { Par(self.seq().step_by(n)) }
    fn rev(self) -> Par<std::iter::Rev<Self::Seq>> where Self::Seq: DoubleEndedIterator { Par(self.seq().rev()) }
    fn zip<Z: IntoParallelIterator>(self, z: Z) -> Par<std::iter::Zip<Self::Seq, <Z::Iter as ParallelIterator>::Seq>> { Par(self.seq().zip(z.into_par_iter().seq())) }
    fn with_min_len(self, _n: usize) -> Par<Self::Seq> { Par(self.seq()) }
    fn with_max_len(self, _n: usize) -> Par<Self::Seq> { Par(self.seq()) }
    fn collect_into_vec(self, v: &mut Vec<Self::Item>) { v.clear(); v.extend(self.seq()) }
  }
  impl<I: Iterator> IndexedParallelIterator for Par<I> {}

  pub trait IntoParallelIterator {
    type Item;
    type Iter: ParallelIterator<Item = Self::Item>;
    fn into_par_iter(self) -> Self::Iter;
  }
  impl<T: IntoIterator> IntoParallelIterator for T {
    type Item = T::Item;
    type Iter = Par<T::IntoIter>;
    fn into_par_iter(self) -> Par<T::IntoIter> { Par(self.into_iter()) }
  }
  impl<I: Iterator> IntoIterator for Par<I> {
    type Item = I::Item;
    type IntoIter = I;
    fn into_iter(self) -> I { self.0 }
  }

  pub trait IntoParallelRefIterator<'a> {
    type Item: 'a;
    type Iter: ParallelIterator<Item = Self::Item>;
    fn par_iter(&'a self) -> Self::Iter;
  }
  impl<'a, T: 'a + ?Sized> IntoParallelRefIterator<'a> for T where &'a T: IntoIterator {
    type Item = <&'a T as IntoIterator>::Item;
    type Iter = Par<<&'a T as IntoIterator>::IntoIter>;
    fn par_iter(&'a self) -> Self::Iter { Par(self.into_iter()) }
  }
  pub trait IntoParallelRefMutIterator<'a> {
    type Item: 'a;
    type Iter: ParallelIterator<Item = Self::Item>;
    fn par_iter_mut(&'a mut self) -> Self::Iter;
  }
  impl<'a, T: 'a + ?Sized> IntoParallelRefMutIterator<'a> for T where &'a mut T: IntoIterator {
    type Item = <&'a mut T as IntoIterator>::Item;
    type Iter = Par<<&'a mut T as IntoIterator>::IntoIter>;
    fn par_iter_mut(&'a mut self) -> Self::Iter { Par(self.into_iter()) }
  }
  pub trait ParallelBridge: Sized {
    fn par_bridge(self) -> Par<Self>;
  }
  impl<I: Iterator> ParallelBridge for I {
    fn par_bridge(self) -> Par<I> { Par(self) }
  }
  pub trait ParallelExtend<T> {
    fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, it: I);
  }
  impl<T, C: Extend<T>> ParallelExtend<T> for C {
    fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, it: I) { self.extend(it.into_par_iter().seq()) }
  }
}

pub mod slice {
  use crate::Par;
  pub type Chunks<'a, T> = Par<std::slice::Chunks<'a, T>>;
  pub type ChunksMut<'a, T> = Par<std::slice::ChunksMut<'a, T>>;
  pub type ChunksExact<'a, T> = Par<std::slice::ChunksExact<'a, T>>;
  pub type ChunksExactMut<'a, T> = Par<std::slice::ChunksExactMut<'a, T>>;
  pub type Windows<'a, T> = Par<std::slice::Windows<'a, T>>;
  pub trait ParallelSlice<T> {
    fn sl(&self) -> &[T];
    fn par_chunks(&self, n: usize) -> Chunks<'_, T> { Par(self.sl().chunks(n)) }
    fn par_chunks_exact(&self, n: usize) -> ChunksExact<'_, T> { Par(self.sl().chunks_exact(n)) }
    fn par_windows(&self, n: usize) -> Windows<'_, T> { Par(self.sl().windows(n)) }
  }
  impl<T> ParallelSlice<T> for [T] { fn sl(&self) -> &[T] { self } }
  pub trait ParallelSliceMut<T> {
    fn sl_mut(&mut self) -> &mut [T];
    fn par_chunks_mut(&mut self, n: usize) -> ChunksMut<'_, T> { Par(self.sl_mut().chunks_mut(n)) }
    fn par_chunks_exact_mut(&mut self, n: usize) -> ChunksExactMut<'_, T> { Par(self.sl_mut().chunks_exact_mut(n)) }
    fn par_sort(&mut self) where T: Ord { self.sl_mut().sort() }
    fn par_sort_unstable(&mut self) where T: Ord { self.sl_mut().sort_unstable() }
  }
  impl<T> ParallelSliceMut<T> for [T] { fn sl_mut(&mut self) -> &mut [T] { self } }
}

pub mod prelude {
  pub use crate::iter::{FromParallelIterator, IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge, ParallelExtend, ParallelIterator};
  pub use crate::slice::{ParallelSlice, ParallelSliceMut};
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA, B: FnOnce() -> RB { (a(), b()) }
pub fn current_num_threads() -> usize { 1 }
