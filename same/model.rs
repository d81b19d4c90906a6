//! Run-time stand-ins for the types and helpers of contracts/prelude.rs, over the real standard
//! library: with them the lifted text, its ghost code erased, is an ordinary program.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

pub trait RT: Clone + Ord + Debug {}
impl<X: Clone + Ord + Debug> RT for X {}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct BSet<T>(pub BTreeSet<T>);
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct BMap<K, V>(pub BTreeMap<K, V>);

impl<T: RT> BSet<T> {
    pub fn new() -> Self { BSet(BTreeSet::new()) }
    pub fn insert(&mut self, x: T) -> bool { self.0.insert(x) }
    pub fn remove(&mut self, x: &T) -> bool { self.0.remove(x) }
    pub fn v_contains(&self, x: &T) -> bool { self.0.contains(x) }
    pub fn v_get(&self, x: &T) -> Option<&T> { self.0.get(x) }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn clear(&mut self) { self.0.clear() }
    pub fn v_extend(&mut self, v: Vec<T>) { self.0.extend(v) }
    pub fn v_append(&mut self, v: &mut BSet<T>) { self.0.append(&mut v.0) }
    pub fn v_iter(&self) -> Vec<&T> { self.0.iter().collect() }
    pub fn v_first(&self) -> Option<&T> { self.0.first() }
    pub fn v_last(&self) -> Option<&T> { self.0.last() }
    pub fn v_is_subset(&self, o: &BSet<T>) -> bool { self.0.is_subset(&o.0) }
    pub fn v_is_superset(&self, o: &BSet<T>) -> bool { self.0.is_superset(&o.0) }
}
impl<K: RT, V> BMap<K, V> {
    pub fn new() -> Self { BMap(BTreeMap::new()) }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> { self.0.insert(k, v) }
    pub fn remove(&mut self, k: &K) -> Option<V> { self.0.remove(k) }
    pub fn contains_key(&self, k: &K) -> bool { self.0.contains_key(k) }
    pub fn v_get(&self, k: &K) -> Option<&V> { self.0.get(k) }
    pub fn get_mut(&mut self, k: &K) -> Option<&mut V> { self.0.get_mut(k) }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn clear(&mut self) { self.0.clear() }
    pub fn v_iter(&self) -> Vec<(&K, &V)> { self.0.iter().collect() }
    pub fn v_keys(&self) -> Vec<&K> { self.0.keys().collect() }
    pub fn v_values(&self) -> Vec<&V> { self.0.values().collect() }
    pub fn v_entry_or_insert(&mut self, k: K, v: V) -> &mut V { self.0.entry(k).or_insert(v) }
    pub fn v_extend(&mut self, v: Vec<(K, V)>) { self.0.extend(v) }
}
impl<K: RT, V: VDefault> BMap<K, V> {
    pub fn v_entry_or_default(&mut self, k: K) -> &mut V { self.0.entry(k).or_insert_with(V::vdefault) }
}
pub trait VDefault: Sized { fn vdefault() -> Self; }
impl<T> VDefault for BSet<T> { fn vdefault() -> Self { BSet(BTreeSet::new()) } }
impl<K, V> VDefault for BMap<K, V> { fn vdefault() -> Self { BMap(BTreeMap::new()) } }
impl<T> VDefault for Vec<T> { fn vdefault() -> Self { Vec::new() } }
pub trait VClone: Sized { fn vclone(&self) -> Self; }
impl<T: Clone> VClone for T { fn vclone(&self) -> Self { self.clone() } }
pub fn veq<T: PartialEq>(a: &T, b: &T) -> bool { a == b }
pub trait VInto<U>: Sized { fn v_into(self) -> U; }
impl<T> VInto<Box<T>> for T { fn v_into(self) -> Box<T> { Box::new(self) } }
pub fn vassert(c: bool) { assert!(c) }
pub fn vpanic<T>() -> T { panic!() }
pub fn v_mem_replace<T>(a: &mut T, b: T) -> T { std::mem::replace(a, b) }
pub fn v_mem_take<T: VDefault>(a: &mut T) -> T { std::mem::replace(a, T::vdefault()) }
pub fn v_min(a: usize, b: usize) -> usize { a.min(b) }
pub fn v_max(a: usize, b: usize) -> usize { a.max(b) }
pub fn v_item<T: Clone>(v: &Vec<T>, i: usize) -> T { v[i].clone() }
pub fn v_repeat<T: Clone>(x: T, n: usize) -> Vec<T> { vec![x; n] }
pub fn v_rev<T>(mut v: Vec<T>) -> Vec<T> { v.reverse(); v }
pub fn v_enumerate<T>(v: Vec<T>) -> Vec<(usize, T)> { v.into_iter().enumerate().collect() }
pub fn v_zip<A, B>(a: Vec<A>, b: Vec<B>) -> Vec<(A, B)> { a.into_iter().zip(b).collect() }
pub fn v_take<T>(mut v: Vec<T>, n: usize) -> Vec<T> { v.truncate(n); v }
pub fn v_skip<T>(v: Vec<T>, n: usize) -> Vec<T> { v.into_iter().skip(n).collect() }
pub fn v_chain<T>(mut a: Vec<T>, b: Vec<T>) -> Vec<T> { a.extend(b); a }
pub fn v_zip_from<A>(a: Vec<A>, n: usize) -> Vec<(A, usize)> { a.into_iter().zip(n..).collect() }
pub fn v_it_next<T>(a: Vec<T>) -> Option<T> { a.into_iter().next() }
pub fn v_it_last<T>(a: Vec<T>) -> Option<T> { a.into_iter().last() }
pub trait VCloned: Sized { type O; fn v_cloned(self) -> Self::O; }
impl<'a, T: Clone> VCloned for Option<&'a T> { type O = Option<T>; fn v_cloned(self) -> Option<T> { self.cloned() } }
impl<'a, T: Clone> VCloned for Vec<&'a T> { type O = Vec<T>; fn v_cloned(self) -> Vec<T> { self.into_iter().cloned().collect() } }
pub trait VIntoIter: Sized { type It; fn v_into_iter(self) -> Vec<Self::It>; }
impl<T> VIntoIter for Vec<T> { type It = T; fn v_into_iter(self) -> Vec<T> { self } }
pub fn v_refs<T>(a: &[T]) -> Vec<&T> { a.iter().collect() }
impl<'a, T> VIntoIter for &'a Vec<T> { type It = &'a T; fn v_into_iter(self) -> Vec<&'a T> { self.iter().collect() } }
impl<'a, T> VIntoIter for &'a [T] { type It = &'a T; fn v_into_iter(self) -> Vec<&'a T> { self.iter().collect() } }
impl<T> VIntoIter for BSet<T> { type It = T; fn v_into_iter(self) -> Vec<T> { self.0.into_iter().collect() } }
impl<'a, T> VIntoIter for &'a BSet<T> { type It = &'a T; fn v_into_iter(self) -> Vec<&'a T> { self.0.iter().collect() } }
impl<K, V> VIntoIter for BMap<K, V> { type It = (K, V); fn v_into_iter(self) -> Vec<(K, V)> { self.0.into_iter().collect() } }
impl<'a, K, V> VIntoIter for &'a BMap<K, V> { type It = (&'a K, &'a V); fn v_into_iter(self) -> Vec<(&'a K, &'a V)> { self.0.iter().collect() } }
impl<T> VIntoIter for Option<T> { type It = T; fn v_into_iter(self) -> Vec<T> { self.into_iter().collect() } }
pub trait VCollect<X>: Sized { fn vc(s: Vec<X>) -> Self; }
impl<X> VCollect<X> for Vec<X> { fn vc(s: Vec<X>) -> Self { s } }
impl<X: Ord> VCollect<X> for BSet<X> { fn vc(s: Vec<X>) -> Self { BSet(s.into_iter().collect()) } }
impl<K: Ord, V> VCollect<(K, V)> for BMap<K, V> { fn vc(s: Vec<(K, V)>) -> Self { BMap(s.into_iter().collect()) } }
pub fn v_collect<X, C: VCollect<X>>(s: Vec<X>) -> C { C::vc(s) }
pub trait VIndex<I> { type Output; fn vindex(&self, i: I) -> &Self::Output; }
impl<T> VIndex<usize> for Vec<T> { type Output = T; fn vindex(&self, i: usize) -> &T { &self[i] } }
impl<T> VIndex<usize> for [T] { type Output = T; fn vindex(&self, i: usize) -> &T { &self[i] } }
impl<'a, K: Ord, V> VIndex<&'a K> for BMap<K, V> { type Output = V; fn vindex(&self, i: &K) -> &V { &self.0[i] } }
pub trait VVec<T: RT> {
    fn vs(&self) -> &[T];
    fn v_iter(&self) -> Vec<&T> { self.vs().iter().collect() }
    fn v_get(&self, i: usize) -> Option<&T> { self.vs().get(i) }
    fn v_first(&self) -> Option<&T> { self.vs().first() }
    fn v_last(&self) -> Option<&T> { self.vs().last() }
    fn v_contains(&self, x: &T) -> bool { self.vs().contains(x) }
    fn v_to_vec(&self) -> Vec<T> { self.vs().to_vec() }
    fn v_split_at(&self, n: usize) -> (&[T], &[T]) { self.vs().split_at(n) }
    fn v_split_last(&self) -> Option<(&T, &[T])> { self.vs().split_last() }
    fn v_split_first(&self) -> Option<(&T, &[T])> { self.vs().split_first() }
}
impl<T: RT> VVec<T> for Vec<T> { fn vs(&self) -> &[T] { self } }
impl<T: RT> VVec<T> for [T] { fn vs(&self) -> &[T] { self } }
pub fn v_position_eq<I: PartialEq>(v: &Vec<I>, y: &I) -> Option<usize> { v.iter().position(|a| a == y) }
pub fn v_position_eq_ref<I: PartialEq>(v: &Vec<&I>, y: &I) -> Option<usize> { v.iter().position(|a| *a == y) }
pub fn v_any_eq<I: PartialEq>(v: &Vec<I>, y: &I) -> bool { v.iter().any(|a| a == y) }
pub fn v_any_eq_ref<I: PartialEq>(v: &Vec<&I>, y: &I) -> bool { v.iter().any(|a| *a == y) }
pub fn v_popn<T>(v: &mut Vec<T>, n: usize) { let k = v.len(); v.truncate(k.saturating_sub(n)) }
pub trait VVecExt<T> { fn v_extend(&mut self, v: Vec<T>); }
impl<T> VVecExt<T> for Vec<T> { fn v_extend(&mut self, v: Vec<T>) { self.extend(v) } }

#[derive(Debug)]
pub struct VFn<A, O>(pub Option<fn(&[A]) -> O>);
impl<A, O> Clone for VFn<A, O> { fn clone(&self) -> Self { *self } }
impl<A, O> Copy for VFn<A, O> {}
impl<A, O> PartialEq for VFn<A, O> { fn eq(&self, _: &Self) -> bool { true } }
impl<A, O> Eq for VFn<A, O> {}
impl<A, O> PartialOrd for VFn<A, O> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl<A, O> Ord for VFn<A, O> { fn cmp(&self, _: &Self) -> std::cmp::Ordering { std::cmp::Ordering::Equal } }
impl<A, O> VFn<A, O> {
    pub fn v_call(&self, a: &[A]) -> O {
        match self.0 {
            Some(f) => f(a),
            // A function of the crate that was not lifted: only its empty result is known.
            None if std::mem::size_of::<O>() == 0 => unsafe { std::mem::MaybeUninit::<O>::uninit().assume_init() },
            None => panic!("function value that was not lifted"),
        }
    }
}
pub fn v_fn_item<A, O>() -> VFn<A, O> { VFn(None) }

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct VPeek<X>(std::collections::VecDeque<X>);
impl<X> VPeek<X> {
    pub fn new(v: Vec<X>) -> Self { VPeek(v.into()) }
    pub fn peek(&self) -> Option<&X> { self.0.front() }
    pub fn next(&mut self) -> Option<X> { self.0.pop_front() }
}
