// Trusted models of the standard library types the lifted code uses (assumed contracts).
#![allow(unused_parens, unused_braces, unused_imports, unused_variables, unused_mut, dead_code, unreachable_code, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;
use std::rc::Rc;
verus! {
pub mod model {
use vstd::prelude::*;

// ---- BTreeSet / BTreeMap: a finite set / map; iteration yields every element exactly once, in an
// order that depends only on the set.
// The types are opaque: only the contracts of the operations below connect them with what the code does.
#[verifier::reject_recursive_types(T)]
pub struct BSet<T> { g: Ghost<Set<T>> }
impl<T> View for BSet<T> { type V = Set<T>; closed spec fn view(&self) -> Set<T> { self.g@ } }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BMap<K, V> { g: Ghost<Map<K, V>> }
impl<K, V> View for BMap<K, V> { type V = Map<K, V>; closed spec fn view(&self) -> Map<K, V> { self.g@ } }

// Extensionality: two containers with the same content are equal values (structural PartialEq/Eq).
pub closed spec fn bset<T>(s: Set<T>) -> BSet<T> { BSet { g: Ghost(s) } }
pub closed spec fn bmap<K, V>(s: Map<K, V>) -> BMap<K, V> { BMap { g: Ghost(s) } }
pub uninterp spec fn vecof<T>(s: Seq<T>) -> Vec<T>;
pub broadcast proof fn lemma_bset_ext<T>(b: BSet<T>) ensures bset(#[trigger] b@) == b {}
pub proof fn lemma_bset_view<T>(s: Set<T>) ensures bset(s)@ == s {}
pub broadcast proof fn lemma_bmap_ext<K, V>(b: BMap<K, V>) ensures bmap(#[trigger] b@) == b {}
/// Vectors with the same elements are the same value.
pub broadcast axiom fn axiom_vec_ext<T>(b: Vec<T>) ensures vecof(#[trigger] b@) == b;

/// No vector fills the address space.
pub broadcast axiom fn axiom_vec_len<T>(v: Vec<T>) ensures #[trigger] vstd::std_specs::vec::spec_vec_len(&v) < usize::MAX;

/// The order of iteration: fixed for a set, otherwise open.
pub closed spec fn set_seq<T>(s: Set<T>) -> Seq<T> { choose |q: Seq<T>| q.no_duplicates() && (forall|x: T| #[trigger] q.contains(x) <==> s.contains(x)) && q.len() == s.len() }
pub closed spec fn set_idx<T>(s: Set<T>, x: T) -> int { set_seq(s).index_of(x) }
proof fn lemma_seq_exists<T>(s: Set<T>) -> (q: Seq<T>)
    ensures q.no_duplicates(), (forall|x: T| #[trigger] q.contains(x) <==> s.contains(x)), q.len() == s.len()
    decreases s.len()
{
    if s.len() == 0 {
        assert(s =~= Set::empty());
        Seq::empty()
    } else {
        let x = s.choose();
        let r = lemma_seq_exists(s.remove(x));
        let q = r.push(x);
        assert(!r.contains(x));
        assert forall|y: T| #[trigger] q.contains(y) <==> s.contains(y) by {
            if s.contains(y) { if y == x { assert(q[r.len() as int] == x); } else { assert(r.contains(y)); let i = choose|i: int| 0 <= i < r.len() && r[i] == y; assert(q[i] == y); } }
            if q.contains(y) { let i = choose|i: int| 0 <= i < q.len() && q[i] == y; if i < r.len() { assert(r.contains(r[i])); } }
        }
        q
    }
}
proof fn lemma_set_seq<T>(s: Set<T>)
    ensures set_seq(s).no_duplicates(), (forall|x: T| #[trigger] set_seq(s).contains(x) <==> s.contains(x)), set_seq(s).len() == s.len()
{ let q = lemma_seq_exists(s); }
pub broadcast proof fn lemma_set_seq_in<T>(s: Set<T>, i: int)
    requires 0 <= i < set_seq(s).len()
    ensures s.contains(#[trigger] set_seq(s)[i]), set_idx(s, set_seq(s)[i]) == i
{ lemma_set_seq(s); assert(set_seq(s).contains(set_seq(s)[i])); }
pub broadcast proof fn lemma_set_seq_all<T>(s: Set<T>, x: T)
    requires #[trigger] s.contains(x)
    ensures 0 <= set_idx(s, x) < set_seq(s).len(), set_seq(s)[set_idx(s, x)] == x
{ lemma_set_seq(s); assert(set_seq(s).contains(x)); }
pub broadcast proof fn lemma_set_seq_len<T>(s: Set<T>)
    ensures #[trigger] set_seq(s).len() == s.len() { lemma_set_seq(s); }

pub broadcast group group_model {
    lemma_bset_ext, lemma_bmap_ext, axiom_vec_ext, axiom_vec_len,
    lemma_set_seq_in, lemma_set_seq_all, lemma_set_seq_len, lemma_map_of_push,
}

/// Left-to-right insertion of key-value pairs.
pub open spec fn map_of<K, V>(s: Seq<(K, V)>) -> Map<K, V> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0, s.last().1) }
}

/// What a loop gathers towards a map, as pairs or as the map itself.
pub trait VMapAcc<K, V>: Sized { spec fn as_map(self) -> Map<K, V>; }
impl<K, V> VMapAcc<K, V> for Seq<(K, V)> { open spec fn as_map(self) -> Map<K, V> { map_of(self) } }
impl<K, V> VMapAcc<K, V> for Map<K, V> { open spec fn as_map(self) -> Map<K, V> { self } }
pub broadcast proof fn lemma_map_of_push<K, V>(s: Seq<(K, V)>, x: (K, V))
    ensures #[trigger] map_of(s.push(x)) == map_of(s).insert(x.0, x.1)
{ assert(s.push(x).drop_last() =~= s); }

pub proof fn lemma_take_set<T>(s: Seq<T>, k: int)
    requires 0 <= k < s.len()
    ensures s.take(k + 1).to_set() == s.take(k).to_set().insert(s[k])
{
    let a = s.take(k); let b = s.take(k + 1);
    assert forall|x: T| #[trigger] b.to_set().contains(x) <==> a.to_set().insert(s[k]).contains(x) by {
        if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if i < k { assert(a[i] == x); } }
        if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); }
        assert(b[k] == s[k]);
    }
    assert(b.to_set() =~= a.to_set().insert(s[k]));
}
impl<T> BSet<T> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, x: &T) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(*x), r == old(self)@.contains(*x) { unimplemented!() }
    pub fn v_contains(&self, x: &T) -> (r: bool) ensures r == self@.contains(*x) { self.v_get(x).is_some() }
    pub fn v_get(&self, x: &T) -> (r: Option<&T>)
        ensures r is Some <==> self@.contains(*x), r is Some ==> *r->0 == *x { 
        let r = self.v_iter(); let mut k = 0;
        while k < r.len() invariant k <= r.len(), forall|i: int| 0 <= i < k ==> *r@[i] != *x, forall|y: T| #[trigger] r@.contains(&y) <==> self@.contains(y) decreases r.len() - k
        { if veq(r[k], x) { assert(r@.contains(r@[k as int])); return Some(r[k]); } k += 1; }
        proof { if self@.contains(*x) { assert(r@.contains(&*x)); let i = choose|i: int| 0 <= i < r@.len() && r@[i] == &*x; } }
        None }
    pub fn is_empty(&self) -> (r: bool)
        ensures r <==> self@ == Set::<T>::empty(), r <==> self@.len() == 0 { proof { if self@.len() == 0 { assert(self@ =~= Set::empty()); } } self.len() == 0 }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { let r = self.v_iter(); proof { lemma_set_seq_len(self@); } r.len() }
    pub fn clear(&mut self) ensures final(self)@ == Set::<T>::empty() { *self = BSet::new(); }
    pub fn v_extend(&mut self, v: Vec<T>)
        ensures final(self)@ == old(self)@.union(v@.to_set()) { 
        let ghost s = self@; let mut k = 0;
        proof { assert(v@.take(0).to_set() =~= Set::empty()); assert(s.union(Set::empty()) =~= s); }
        while k < v.len() invariant k <= v.len(), self@ == s.union(v@.take(k as int).to_set()) decreases v.len() - k
        { let x = v_item(&v, k); self.insert(x);
          proof { lemma_take_set(v@, k as int); assert(self@ =~= s.union(v@.take(k + 1).to_set())); }
          k += 1; }
        proof { assert(v@.take(k as int) =~= v@); } }
    pub fn v_append(&mut self, v: &mut BSet<T>)
        ensures final(self)@ == old(self)@.union(old(v)@), final(v)@ == Set::<T>::empty() { let w = v_mem_replace(v, BSet::new()); let w = w.v_into_iter(); self.v_extend(w); }
    #[verifier::external_body] pub fn v_iter(&self) -> (r: Vec<&T>)
        ensures r.len() == set_seq(self@).len(), forall|x: T| #[trigger] r@.contains(&x) <==> self@.contains(x), forall|i: int| 0 <= i < r.len() ==> *#[trigger] r@[i] == set_seq(self@)[i] { unimplemented!() }
    pub fn v_first(&self) -> (r: Option<&T>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r is Some && *r->0 == set_seq(self@)[0] { proof { broadcast use group_model; } let r = self.v_iter(); if r.len() == 0 { None } else { Some(r[0]) } }
    pub fn v_last(&self) -> (r: Option<&T>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r is Some && *r->0 == set_seq(self@).last() { proof { broadcast use group_model; } let r = self.v_iter(); let n = r.len(); if n == 0 { None } else { Some(r[n - 1]) } }
    pub fn v_is_subset(&self, o: &BSet<T>) -> (r: bool) ensures r == self@.subset_of(o@) { 
        let r = self.v_iter(); let mut k = 0;
        while k < r.len() invariant k <= r.len(), forall|i: int| 0 <= i < k ==> o@.contains(*#[trigger] r@[i]), forall|y: T| #[trigger] r@.contains(&y) <==> self@.contains(y) decreases r.len() - k
        { if !o.v_contains(r[k]) { assert(r@.contains(r@[k as int])); return false; } k += 1; }
        proof { assert forall|x: T| self@.contains(x) implies o@.contains(x) by { assert(r@.contains(&x)); let i = choose|i: int| 0 <= i < r@.len() && r@[i] == &x; } }
        true }
    pub fn v_is_superset(&self, o: &BSet<T>) -> (r: bool) ensures r == o@.subset_of(self@) { o.v_is_subset(self) }
}

impl<K, V> BMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r is Some <==> old(self)@.contains_key(k),
            r is Some ==> r->0 == old(self)@[k] { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), r is Some <==> old(self)@.contains_key(*k),
            r is Some ==> r->0 == old(self)@[*k] { unimplemented!() }
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { self.v_get(k).is_some() }
    pub fn v_get(&self, k: &K) -> (r: Option<&V>)
        ensures r is Some <==> self@.contains_key(*k), r is Some ==> *r->0 == self@[*k] { 
        proof { broadcast use group_model; }
        let r = self.v_iter(); let mut i = 0;
        while i < r.len() invariant i <= r.len(), r.len() == set_seq(self@.dom()).len(), forall|j: int| 0 <= j < r.len() ==> *(#[trigger] r@[j]).0 == set_seq(self@.dom())[j] && *r@[j].1 == self@[set_seq(self@.dom())[j]],
            forall|j: int| 0 <= j < i ==> *(#[trigger] r@[j]).0 != *k decreases r.len() - i
        { if veq(r[i].0, k) { proof { lemma_set_seq_in(self@.dom(), i as int); } return Some(r[i].1); } i += 1; }
        proof { if self@.dom().contains(*k) { lemma_set_seq_all(self@.dom(), *k); let j = set_idx(self@.dom(), *k); assert(*r@[j].0 == *k); } }
        None }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures r is Some <==> old(self)@.contains_key(*k),
            r is Some ==> *r->0 == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)),
            r is None ==> final(self)@ == old(self)@ { unimplemented!() }
    pub fn is_empty(&self) -> (r: bool)
        ensures r <==> self@ == Map::<K, V>::empty() { proof { if self@.dom().len() == 0 { assert(self@.dom() =~= Set::empty()); assert(self@ =~= Map::empty()); } } self.len() == 0 }
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { let r = self.v_iter(); proof { lemma_set_seq_len(self@.dom()); } r.len() }
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { *self = BMap::new(); }
    #[verifier::external_body] pub fn v_iter(&self) -> (r: Vec<(&K, &V)>)
        ensures r.len() == set_seq(self@.dom()).len(),
            forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r@[i]).0 == set_seq(self@.dom())[i] && *r@[i].1 == self@[set_seq(self@.dom())[i]] { unimplemented!() }
    pub fn v_keys(&self) -> (r: Vec<&K>)
        ensures r.len() == set_seq(self@.dom()).len(), forall|x: K| #[trigger] r@.contains(&x) <==> self@.contains_key(x), forall|i: int| 0 <= i < r.len() ==> *#[trigger] r@[i] == set_seq(self@.dom())[i] { 
        let s = self.v_iter(); let mut r: Vec<&K> = Vec::new();
        while r.len() < s.len() invariant r.len() <= s.len(), s.len() == set_seq(self@.dom()).len(), forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s@[i]).0 == set_seq(self@.dom())[i],
            forall|i: int| 0 <= i < r.len() ==> *#[trigger] r@[i] == set_seq(self@.dom())[i] decreases s.len() - r.len()
        { let k = r.len(); r.push(s[k].0); }
        proof { broadcast use group_model; assert forall|x: K| #[trigger] r@.contains(&x) <==> self@.contains_key(x) by {
            if self@.dom().contains(x) { let i = set_idx(self@.dom(), x); assert(*r@[i] == x); assert(r@[i] == &x); }
            if r@.contains(&x) { let i = choose|i: int| 0 <= i < r@.len() && r@[i] == &x; assert(self@.dom().contains(set_seq(self@.dom())[i])); } } }
        r }
    pub fn v_values(&self) -> (r: Vec<&V>)
        ensures r.len() == set_seq(self@.dom()).len(), forall|i: int| 0 <= i < r.len() ==> *#[trigger] r@[i] == self@[set_seq(self@.dom())[i]] { 
        let s = self.v_iter(); let mut r: Vec<&V> = Vec::new();
        while r.len() < s.len() invariant r.len() <= s.len(), s.len() == set_seq(self@.dom()).len(), forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s@[i]).1 == self@[set_seq(self@.dom())[i]],
            forall|i: int| 0 <= i < r.len() ==> *#[trigger] r@[i] == self@[set_seq(self@.dom())[i]] decreases s.len() - r.len()
        { let k = r.len(); r.push(s[k].1); }
        r }
    pub fn v_entry_or_insert(&mut self, k: K, v: V) -> (r: &mut V)
        ensures *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { v }),
            final(self)@ == old(self)@.insert(k, *final(r)) { let c = k.vclone(); let ghost m = self@; if !self.contains_key(&c) { self.insert(k, v); } proof { assert(m.insert(k, self@[k]) =~= self@); assert forall|w: V| #[trigger] m.insert(k, v).insert(k, w) == m.insert(k, w) by { assert(m.insert(k, v).insert(k, w) =~= m.insert(k, w)); } } self.get_mut(&c).unwrap() }
    pub fn v_extend(&mut self, v: Vec<(K, V)>)
        ensures final(self)@ == old(self)@.union_prefer_right(map_of(v@)) { 
        let ghost s = self@; let mut k = 0;
        proof { assert(map_of(v@.take(0)) =~= Map::empty()); assert(s.union_prefer_right(Map::empty()) =~= s); }
        while k < v.len() invariant k <= v.len(), self@ == s.union_prefer_right(map_of(v@.take(k as int))) decreases v.len() - k
        { let x = v_item(&v, k); self.insert(x.0, x.1);
          proof { assert(v@.take(k + 1) =~= v@.take(k as int).push(v@[k as int])); lemma_map_of_push(v@.take(k as int), v@[k as int]); assert(self@ =~= s.union_prefer_right(map_of(v@.take(k + 1)))); }
          k += 1; }
        proof { assert(v@.take(k as int) =~= v@); } }
}
impl<K, V: VDefault> BMap<K, V> {
    pub fn v_entry_or_default(&mut self, k: K) -> (r: &mut V)
        ensures old(self)@.contains_key(k) ==> *r == old(self)@[k], !old(self)@.contains_key(k) ==> V::is_dflt(*r),
            final(self)@ == old(self)@.insert(k, *final(r)) { self.v_entry_or_insert(k, V::vdefault()) }
}

pub trait VDefault: Sized { spec fn is_dflt(x: Self) -> bool; fn vdefault() -> (r: Self) ensures Self::is_dflt(r); }
impl<T> VDefault for BSet<T> { open spec fn is_dflt(x: Self) -> bool { x@ == Set::<T>::empty() }
    fn vdefault() -> (r: Self) { BSet::new() } }
impl<K, V> VDefault for BMap<K, V> { open spec fn is_dflt(x: Self) -> bool { x@ == Map::<K, V>::empty() }
    fn vdefault() -> (r: Self) { BMap::new() } }
impl<T> VDefault for Vec<T> { open spec fn is_dflt(x: Self) -> bool { x@ == Seq::<T>::empty() }
    fn vdefault() -> (r: Self) { Vec::new() } }
// ---- structural clone and equality
pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<T> VClone for T { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub fn veq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
pub trait VInto<U>: Sized { fn v_into(self) -> U; }
impl<T> VInto<Box<T>> for T { fn v_into(self) -> (r: Box<T>) ensures *r == self { Box::new(self) } }

// ---- assert!/panic!: a call is an obligation, so a verified function cannot panic here
pub fn vassert(c: bool) requires c {}
pub fn vpanic<T>() -> T requires false { vstd::pervasive::unreached() }
pub fn v_mem_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { let mut b = b; core::mem::swap(a, &mut b); b }
pub fn v_mem_take<T: VDefault>(a: &mut T) -> (r: T) ensures r == *old(a), T::is_dflt(*final(a)) { v_mem_replace(a, T::vdefault()) }

pub fn v_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn v_max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
// ---- sequences
pub fn v_item<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v.len() ensures r == v@[i as int] { v[i].vclone() }
pub fn v_repeat<T>(x: T, n: usize) -> (r: Vec<T>)
    ensures r.len() == n, forall|i: int| 0 <= i < r.len() ==> #[trigger] r@[i] == x
{ let mut r: Vec<T> = Vec::new(); while r.len() < n invariant r.len() <= n, forall|i: int| 0 <= i < r.len() ==> #[trigger] r@[i] == x decreases n - r.len() { r.push(x.vclone()); } r }
pub fn v_rev<T>(v: Vec<T>) -> (r: Vec<T>) ensures r@ == v@.reverse() {
    let ghost s = v@; let mut v = v; let mut r: Vec<T> = Vec::new();
    while v.len() > 0
        invariant v.len() <= s.len(), v@ == s.take(v.len() as int), r@ == s.skip(v.len() as int).reverse()
        decreases v.len()
    { let x = v.pop().unwrap(); r.push(x);
      assert(r@ =~= s.skip(v.len() as int).reverse()); assert(v@ =~= s.take(v.len() as int)); }
    assert(r@ =~= s.reverse());
    r
}
pub fn v_enumerate<T>(v: Vec<T>) -> (r: Vec<(usize, T)>)
    ensures r.len() == v.len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == v@[i] {
    let ghost s = v@; let mut w = v_rev(v); let mut r: Vec<(usize, T)> = Vec::new(); let n = w.len();
    while w.len() > 0
        invariant n == s.len(), w.len() + r.len() == n, w@ == s.skip(r.len() as int).reverse(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == s[i]
        decreases w.len()
    { let k = r.len(); let x = w.pop().unwrap(); assert(x == s[k as int]); r.push((k, x)); assert(w@ =~= s.skip(r.len() as int).reverse()); }
    r
}
pub fn v_zip<A, B>(a: Vec<A>, b: Vec<B>) -> (r: Vec<(A, B)>)
    ensures r.len() == (if a.len() <= b.len() { a.len() } else { b.len() }), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i]).0 == a@[i] && r@[i].1 == b@[i] {
    let ghost s = a@; let ghost t = b@; let mut w = v_rev(a); let mut z = v_rev(b); let mut r: Vec<(A, B)> = Vec::new();
    let n = w.len(); let m = z.len();
    while w.len() > 0 && z.len() > 0
        invariant n == s.len(), m == t.len(), w.len() + r.len() == n, z.len() + r.len() == m, w@ == s.skip(r.len() as int).reverse(), z@ == t.skip(r.len() as int).reverse(),
            forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i]).0 == s[i] && r@[i].1 == t[i]
        decreases w.len()
    { let ghost k = r.len() as int; let x = w.pop().unwrap(); let y = z.pop().unwrap(); assert(x == s[k]); assert(y == t[k]); r.push((x, y));
      assert(w@ =~= s.skip(r.len() as int).reverse()); assert(z@ =~= t.skip(r.len() as int).reverse()); }
    r
}
pub fn v_take<T>(v: Vec<T>, n: usize) -> (r: Vec<T>)
    ensures r@ == v@.take(if n <= v.len() { n as int } else { v.len() as int }) { let ghost s = v@; let mut v = v; v.truncate(n); assert(v@ =~= s.take(if n <= s.len() { n as int } else { s.len() as int })); v }
pub fn v_skip<T>(v: Vec<T>, n: usize) -> (r: Vec<T>)
    ensures r@ == v@.skip(if n <= v.len() { n as int } else { v.len() as int }) { let ghost s = v@; let mut v = v; if n <= v.len() { let r = v.split_off(n); assert(r@ =~= s.skip(n as int)); r } else { let r = Vec::new(); assert(r@ =~= s.skip(s.len() as int)); r } }
proof fn lemma_add_contains<T>(a: Seq<T>, b: Seq<T>)
    ensures forall|x: T| #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x)
{ assert forall|x: T| #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x) by {
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert((a + b)[i] == x); }
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert((a + b)[a.len() + i] == x); }
    if (a + b).contains(x) { let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
} }
pub fn v_chain<T>(a: Vec<T>, b: Vec<T>) -> (r: Vec<T>) ensures r@ == a@ + b@, forall|x: T| #[trigger] r@.contains(x) <==> a@.contains(x) || b@.contains(x) {
    let ghost s = a@; let ghost t = b@; let mut a = a; let mut b = b; a.append(&mut b); proof { lemma_add_contains(s, t); assert(a@ =~= s + t); } a }
pub fn v_zip_from<A>(a: Vec<A>, n: usize) -> (r: Vec<(A, usize)>)
    requires n + a.len() <= usize::MAX
    ensures r.len() == a.len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i]).0 == a@[i] && r@[i].1 == n + i
{
    let ghost s = a@;
    let mut r: Vec<(A, usize)> = Vec::new(); let mut k = 0; let m = a.len();
    while k < m invariant k <= m, m == a.len(), r.len() == k, a@ == s, n + m <= usize::MAX,
        forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i]).0 == s[i] && r@[i].1 == n + i decreases m - k
    { let x = v_item(&a, k); r.push((x, n + k)); k += 1; }
    r
}
pub fn v_it_next<T>(a: Vec<T>) -> (r: Option<T>)
    ensures a.len() == 0 ==> r is None, a.len() > 0 ==> r == Some(a@[0]) { let mut a = a; if a.len() == 0 { None } else { Some(a.remove(0)) } }
pub fn v_it_last<T>(a: Vec<T>) -> (r: Option<T>)
    ensures a.len() == 0 ==> r is None, a.len() > 0 ==> r == Some(a@.last()) { let mut a = a; a.pop() }
pub trait VCloned: Sized { type O; fn v_cloned(self) -> Self::O; }
impl<'a, T> VCloned for Option<&'a T> { type O = Option<T>;
    fn v_cloned(self) -> (r: Option<T>) ensures r is Some <==> self is Some, r is Some ==> r->0 == *self->0 { match self { Some(x) => Some(x.vclone()), None => None } } }
impl<'a, T> VCloned for Vec<&'a T> { type O = Vec<T>;
    fn v_cloned(self) -> (r: Vec<T>) ensures r.len() == self.len(), forall|i: int| 0 <= i < r.len() ==> #[trigger] r@[i] == *self@[i],
        forall|x: T| #[trigger] r@.contains(x) <==> self@.contains(&x) {
        let mut r: Vec<T> = Vec::new();
        while r.len() < self.len() invariant r.len() <= self.len(), forall|i: int| 0 <= i < r.len() ==> #[trigger] r@[i] == *self@[i] decreases self.len() - r.len()
        { r.push(self[r.len()].vclone()); }
        proof { assert forall|x: T| #[trigger] r@.contains(x) <==> self@.contains(&x) by {
            if self@.contains(&x) { let i = choose|i: int| 0 <= i < self@.len() && self@[i] == &x; assert(r@[i] == x); }
            if r@.contains(x) { let i = choose|i: int| 0 <= i < r@.len() && r@[i] == x; assert(self@[i] == &x); } } }
        r } }
pub trait VIntoIter: Sized { type It; fn v_into_iter(self) -> Vec<Self::It>; }
impl<T> VIntoIter for Vec<T> { type It = T;
    fn v_into_iter(self) -> (r: Vec<T>) ensures r@ == self@ { self } }
pub fn v_refs<T>(a: &[T]) -> (r: Vec<&T>)
        ensures r.len() == a@.len(), forall|i: int| 0 <= i < r.len() ==> *#[trigger] r@[i] == a@[i] {
        let mut r: Vec<&T> = Vec::new();
        while r.len() < a.len() invariant r.len() <= a@.len(), forall|i: int| 0 <= i < r.len() ==> *#[trigger] r@[i] == a@[i] decreases a@.len() - r.len()
        { let k = r.len(); r.push(&a[k]); }
        r }
impl<'a, T> VIntoIter for &'a Vec<T> { type It = &'a T;
    fn v_into_iter(self) -> (r: Vec<&'a T>)
        ensures r.len() == self.len(), forall|i: int| 0 <= i < r.len() ==> *#[trigger] r@[i] == self@[i] { v_refs(self.as_slice()) } }
impl<'a, T> VIntoIter for &'a [T] { type It = &'a T;
    fn v_into_iter(self) -> (r: Vec<&'a T>)
        ensures r.len() == self.len(), forall|i: int| 0 <= i < r.len() ==> *#[trigger] r@[i] == self@[i] { v_refs(self) } }
impl<T> VIntoIter for BSet<T> { type It = T;
    fn v_into_iter(self) -> (r: Vec<T>) ensures r@ == set_seq(self@), r@.to_set() == self@, forall|x: T| #[trigger] r@.contains(x) <==> self@.contains(x) { let r = self.v_iter().v_cloned(); proof { assert(r@ =~= set_seq(self@)); lemma_set_seq(self@); assert(r@.to_set() =~= self@); } r } }
impl<'a, T> VIntoIter for &'a BSet<T> { type It = &'a T;
    fn v_into_iter(self) -> (r: Vec<&'a T>)
        ensures r.len() == set_seq(self@).len(), forall|i: int| 0 <= i < r.len() ==> *#[trigger] r@[i] == set_seq(self@)[i] { self.v_iter() } }
impl<K, V> VIntoIter for BMap<K, V> { type It = (K, V);
    fn v_into_iter(self) -> (r: Vec<(K, V)>)
        ensures r.len() == set_seq(self@.dom()).len(),
            forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i]).0 == set_seq(self@.dom())[i] && r@[i].1 == self@[set_seq(self@.dom())[i]] { 
        let s = self.v_iter(); let mut r: Vec<(K, V)> = Vec::new();
        while r.len() < s.len() invariant r.len() <= s.len(), s.len() == set_seq(self@.dom()).len(), forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s@[i]).0 == set_seq(self@.dom())[i] && *s@[i].1 == self@[set_seq(self@.dom())[i]],
            forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i]).0 == set_seq(self@.dom())[i] && r@[i].1 == self@[set_seq(self@.dom())[i]] decreases s.len() - r.len()
        { let k = r.len(); r.push((s[k].0.vclone(), s[k].1.vclone())); }
        r } }
impl<'a, K, V> VIntoIter for &'a BMap<K, V> { type It = (&'a K, &'a V);
    fn v_into_iter(self) -> (r: Vec<(&'a K, &'a V)>)
        ensures r.len() == set_seq(self@.dom()).len(),
            forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r@[i]).0 == set_seq(self@.dom())[i] && *r@[i].1 == self@[set_seq(self@.dom())[i]] { self.v_iter() } }

impl<T> VIntoIter for Option<T> { type It = T;
    fn v_into_iter(self) -> (r: Vec<T>) ensures r.len() == (if self is Some { 1nat } else { 0nat }), self is Some ==> r@[0] == self->0,
        forall|x: T| #[trigger] r@.contains(x) <==> self == Some(x) {
        let mut r = Vec::new();
        match self { Some(x) => { r.push(x); assert(r@[0] == x); } None => {} }
        r } }

pub trait VCollect<X>: Sized { spec fn collected(s: Seq<X>, r: Self) -> bool; fn vc(s: Vec<X>) -> (r: Self) ensures Self::collected(s@, r); }
impl<X> VCollect<X> for Vec<X> { open spec fn collected(s: Seq<X>, r: Self) -> bool { r@ == s }
    fn vc(s: Vec<X>) -> Self { s } }
impl<X> VCollect<X> for BSet<X> { open spec fn collected(s: Seq<X>, r: Self) -> bool { r@ == s.to_set() }
    fn vc(s: Vec<X>) -> Self { let mut r = BSet::new(); r.v_extend(s); assert(Set::empty().union(s@.to_set()) =~= s@.to_set()); r } }
impl<K, V> VCollect<(K, V)> for BMap<K, V> { open spec fn collected(s: Seq<(K, V)>, r: Self) -> bool { r@ == map_of(s) }
    fn vc(s: Vec<(K, V)>) -> Self { let mut r = BMap::new(); r.v_extend(s); assert(Map::empty().union_prefer_right(map_of(s@)) =~= map_of(s@)); r } }
pub fn v_collect<X, C: VCollect<X>>(s: Vec<X>) -> (r: C) ensures C::collected(s@, r) { C::vc(s) }

pub trait VIndex<I> { type Output; spec fn idx_ok(&self, i: I) -> bool; spec fn idx_val(&self, i: I) -> Self::Output;
    fn vindex(&self, i: I) -> (r: &Self::Output) requires self.idx_ok(i) ensures *r == self.idx_val(i); }
impl<T> VIndex<usize> for Vec<T> { type Output = T;
    open spec fn idx_ok(&self, i: usize) -> bool { i < self@.len() }
    open spec fn idx_val(&self, i: usize) -> T { self@[i as int] }
    fn vindex(&self, i: usize) -> (r: &T) { &self[i] } }
impl<T> VIndex<usize> for [T] { type Output = T;
    open spec fn idx_ok(&self, i: usize) -> bool { i < self@.len() }
    open spec fn idx_val(&self, i: usize) -> T { self@[i as int] }
    fn vindex(&self, i: usize) -> (r: &T) { &self[i] } }
impl<'a, K, V> VIndex<&'a K> for BMap<K, V> { type Output = V;
    open spec fn idx_ok(&self, i: &K) -> bool { self@.contains_key(*i) }
    open spec fn idx_val(&self, i: &K) -> V { self@[*i] }
    fn vindex(&self, i: &K) -> (r: &V) { self.v_get(i).unwrap() } }

pub trait VVec<T> {
    spec fn vv(&self) -> Seq<T>;
    fn v_iter(&self) -> (r: Vec<&T>) ensures r.len() == self.vv().len(), forall|i: int| 0 <= i < r.len() ==> *#[trigger] r@[i] == self.vv()[i];
    fn v_get(&self, i: usize) -> (r: Option<&T>) ensures self.vv().len() <= usize::MAX, i < self.vv().len() ==> r is Some && *r->0 == self.vv()[i as int], i >= self.vv().len() ==> r is None;
    fn v_first(&self) -> (r: Option<&T>) ensures self.vv().len() > 0 ==> r is Some && *r->0 == self.vv()[0], self.vv().len() == 0 ==> r is None;
    fn v_last(&self) -> (r: Option<&T>) ensures self.vv().len() > 0 ==> r is Some && *r->0 == self.vv().last(), self.vv().len() == 0 ==> r is None;
    fn v_contains(&self, x: &T) -> (r: bool) ensures r == self.vv().contains(*x);
    fn v_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vv();
    fn v_split_at(&self, n: usize) -> (r: (&[T], &[T])) requires n <= self.vv().len() ensures r.0@ == self.vv().take(n as int), r.1@ == self.vv().skip(n as int);
    fn v_split_last(&self) -> (r: Option<(&T, &[T])>)
        ensures self.vv().len() > 0 ==> r is Some && *(r->0).0 == self.vv().last() && (r->0).1@ == self.vv().drop_last(), self.vv().len() == 0 ==> r is None;
    fn v_split_first(&self) -> (r: Option<(&T, &[T])>)
        ensures self.vv().len() > 0 ==> r is Some && *(r->0).0 == self.vv()[0] && (r->0).1@ == self.vv().skip(1), self.vv().len() == 0 ==> r is None;
}
impl<T> VVec<T> for Vec<T> { open spec fn vv(&self) -> Seq<T> { self@ }
    fn v_iter(&self) -> (r: Vec<&T>) { v_refs(self.as_slice()) }
    fn v_get(&self, i: usize) -> (r: Option<&T>) { let n = self.len(); if i < n { Some(&self[i]) } else { None } }
    fn v_first(&self) -> (r: Option<&T>) { let n = self.len(); if 0 < n { Some(&self[0]) } else { None } }
    fn v_last(&self) -> (r: Option<&T>) { let n = self.len(); if 0 < n { Some(&self[n - 1]) } else { None } }
    fn v_contains(&self, x: &T) -> (r: bool) { self.as_slice().v_contains(x) }
    fn v_to_vec(&self) -> (r: Vec<T>) { self.as_slice().v_to_vec() }
    fn v_split_at(&self, n: usize) -> (r: (&[T], &[T])) { self.as_slice().v_split_at(n) }
    fn v_split_last(&self) -> (r: Option<(&T, &[T])>) { self.as_slice().v_split_last() }
    fn v_split_first(&self) -> (r: Option<(&T, &[T])>) { self.as_slice().v_split_first() }
}
impl<T> VVec<T> for [T] { open spec fn vv(&self) -> Seq<T> { self@ }
    fn v_iter(&self) -> (r: Vec<&T>) { v_refs(self) }
    fn v_get(&self, i: usize) -> (r: Option<&T>) { let n = self.len(); if i < n { Some(&self[i]) } else { None } }
    fn v_first(&self) -> (r: Option<&T>) { let n = self.len(); if 0 < n { Some(&self[0]) } else { None } }
    fn v_last(&self) -> (r: Option<&T>) { let n = self.len(); if 0 < n { Some(&self[n - 1]) } else { None } }
    fn v_contains(&self, x: &T) -> (r: bool) {
        let mut k = 0;
        while k < self.len() invariant k <= self@.len(), forall|i: int| 0 <= i < k ==> self@[i] != *x decreases self@.len() - k
        { if veq(&self[k], x) { assert(self@[k as int] == *x); return true; } k += 1; }
        false }
    fn v_to_vec(&self) -> (r: Vec<T>) { let r = v_refs(self).v_cloned(); assert(r@ =~= self@); r }
    fn v_split_at(&self, n: usize) -> (r: (&[T], &[T])) {
        let a = vstd::slice::slice_subrange(self, 0, n); let b = vstd::slice::slice_subrange(self, n, self.len());
        assert(a@ =~= self@.take(n as int)); assert(b@ =~= self@.skip(n as int)); (a, b) }
    fn v_split_last(&self) -> (r: Option<(&T, &[T])>) {
        let n = self.len(); if n == 0 { return None; }
        let a = vstd::slice::slice_subrange(self, 0, n - 1); assert(a@ =~= self@.drop_last()); Some((&self[n - 1], a)) }
    fn v_split_first(&self) -> (r: Option<(&T, &[T])>) {
        let n = self.len(); if n == 0 { return None; }
        let a = vstd::slice::slice_subrange(self, 1, n); assert(a@ =~= self@.skip(1)); Some((&self[0], a)) }
}
pub fn v_position_eq<I>(v: &Vec<I>, y: &I) -> (r: Option<usize>)
    ensures r is Some ==> r->0 < v@.len() && v@[r->0 as int] == *y && !v@.take(r->0 as int).contains(*y), r is None ==> !v@.contains(*y)
{
    let n = v.len(); let mut k = 0;
    while k < n invariant k <= n, n == v@.len(), forall|i: int| 0 <= i < k ==> v@[i] != *y decreases n - k
    { if veq(&v[k], y) { return Some(k); } k += 1; }
    None
}
pub fn v_position_eq_ref<I>(v: &Vec<&I>, y: &I) -> (r: Option<usize>)
    ensures r is Some ==> r->0 < v@.len() && *v@[r->0 as int] == *y && !v@.take(r->0 as int).contains(y), r is None ==> !v@.contains(y)
{
    let n = v.len(); let mut k = 0;
    while k < n invariant k <= n, n == v@.len(), forall|i: int| 0 <= i < k ==> *v@[i] != *y decreases n - k
    { if veq(v[k], y) { return Some(k); } k += 1; }
    None
}
pub fn v_any_eq<I>(v: &Vec<I>, y: &I) -> (r: bool) ensures r == v@.contains(*y)
{ let r = v_position_eq(v, y); r.is_some() }
pub fn v_any_eq_ref<I>(v: &Vec<&I>, y: &I) -> (r: bool) ensures r == v@.contains(y)
{ let r = v_position_eq_ref(v, y); r.is_some() }
pub fn v_popn<T>(v: &mut Vec<T>, n: usize)
    ensures final(v)@ == old(v)@.take(if n <= old(v).len() { old(v).len() - n } else { 0int })
{ let k = v.len(); if n <= k { v.truncate(k - n); } else { v.truncate(0); } }
pub trait VVecExt<T> { fn v_extend(&mut self, v: Vec<T>); }
impl<T> VVecExt<T> for Vec<T> {
    fn v_extend(&mut self, v: Vec<T>) ensures final(self)@ == old(self)@ + v@,
        forall|x: T| #[trigger] final(self)@.contains(x) <==> old(self)@.contains(x) || v@.contains(x) { let mut v = v; proof { lemma_add_contains(self@, v@); } self.append(&mut v); }
}

// ---- fn pointers (reductors): an arbitrary relation between argument and result
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(O)]
pub struct VFn<A, O> { g: Ghost<spec_fn(Seq<A>, O) -> bool> }
impl<A, O> Clone for VFn<A, O> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<A, O> Copy for VFn<A, O> {}
impl<A, O> VFn<A, O> {
    pub closed spec fn rel(&self, a: Seq<A>, o: O) -> bool { (self.g@)(a, o) }
    #[verifier::external_body] pub fn v_call(&self, a: &[A]) -> (r: O) ensures self.rel(a@, r) { unimplemented!() }
}
pub fn v_fn_item<A, O>() -> VFn<A, O> { VFn { g: Ghost(arbitrary()) } }

// ---- Peekable<I> over a finite token stream: the sequence of tokens not yet taken
#[verifier::accept_recursive_types(X)]
pub struct VPeek<X> { x: Vec<X> }
impl<X> View for VPeek<X> { type V = Seq<X>; closed spec fn view(&self) -> Seq<X> { self.x@.reverse() } }
impl<X> VPeek<X> {
    pub fn new(v: Vec<X>) -> (r: Self) ensures r@ == v@ { let ghost s = v@; let x = v_rev(v); assert(x@.reverse() =~= s); VPeek { x } }
    pub fn peek(&self) -> (r: Option<&X>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r is Some && *r->0 == self@[0] { self.x.v_last() }
    pub fn next(&mut self) -> (r: Option<X>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) {
        let ghost s = self.x@;
        let r = self.x.pop();
        proof { if s.len() > 0 { assert(self.x@.reverse() =~= s.reverse().skip(1)); } else { assert(self.x@.reverse() =~= s.reverse()); } }
        r }
}

} // mod model
pub use model::*;
broadcast use {model::group_model, th_grammar::group_base};
