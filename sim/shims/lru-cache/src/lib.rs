//! Stand-in for lru-cache 0.1.2: same API and semantics (get_mut and insert refresh an entry,
//! inserting beyond the capacity evicts the least recently used one). The capacity passed to `new`
//! goes through `sim_cache_capacity`, so that a simulated run can meet eviction early.
use std::borrow::Borrow;
use std::collections::hash_map::RandomState;
use std::collections::HashMap;
use std::hash::{BuildHasher, Hash, Hasher};
use std::ptr;

extern "C" { fn sim_cache_capacity(requested: usize) -> usize; }

struct KeyRef<K> { k: *const K }
impl<K: Hash> Hash for KeyRef<K> { fn hash<H: Hasher>(&self, s: &mut H) { unsafe { (*self.k).hash(s) } } }
impl<K: PartialEq> PartialEq for KeyRef<K> { fn eq(&self, o: &Self) -> bool { unsafe { (*self.k).eq(&*o.k) } } }
impl<K: Eq> Eq for KeyRef<K> {}
#[derive(Hash, PartialEq, Eq)]
#[repr(transparent)]
struct Qey<Q: ?Sized>(Q);
impl<Q: ?Sized> Qey<Q> { fn from_ref(q: &Q) -> &Self { unsafe { &*(q as *const Q as *const Self) } } }
impl<K, Q: ?Sized> Borrow<Qey<Q>> for KeyRef<K> where K: Borrow<Q> {
    fn borrow(&self) -> &Qey<Q> { Qey::from_ref(unsafe { &*self.k }.borrow()) }
}

struct Node<K, V> { key: K, value: V, prev: *mut Node<K, V>, next: *mut Node<K, V> }

pub struct LruCache<K: Eq + Hash, V, S: BuildHasher = RandomState> {
    map: HashMap<KeyRef<K>, *mut Node<K, V>, S>,
    head: *mut Node<K, V>, // least recently used
    tail: *mut Node<K, V>,
    max_size: usize,
}
unsafe impl<K: Eq + Hash + Send, V: Send, S: BuildHasher + Send> Send for LruCache<K, V, S> {}
unsafe impl<K: Eq + Hash + Sync, V: Sync, S: BuildHasher + Sync> Sync for LruCache<K, V, S> {}

impl<K: Eq + Hash, V> LruCache<K, V> {
    pub fn new(capacity: usize) -> Self { Self::with_hasher(unsafe { sim_cache_capacity(capacity) }, RandomState::new()) }
}
impl<K: Eq + Hash, V, S: BuildHasher> LruCache<K, V, S> {
    pub fn with_hasher(capacity: usize, s: S) -> Self {
        LruCache { map: HashMap::with_hasher(s), head: ptr::null_mut(), tail: ptr::null_mut(), max_size: capacity }
    }
    unsafe fn detach(&mut self, n: *mut Node<K, V>) {
        let (p, x) = ((*n).prev, (*n).next);
        if p.is_null() { self.head = x } else { (*p).next = x }
        if x.is_null() { self.tail = p } else { (*x).prev = p }
    }
    unsafe fn push_back(&mut self, n: *mut Node<K, V>) {
        (*n).prev = self.tail; (*n).next = ptr::null_mut();
        if self.tail.is_null() { self.head = n } else { (*self.tail).next = n }
        self.tail = n;
    }
    pub fn contains_key<Q: ?Sized + Eq + Hash>(&mut self, key: &Q) -> bool where K: Borrow<Q> { self.get_mut(key).is_some() }
    pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, key: &Q) -> Option<&mut V> where K: Borrow<Q> {
        let n = *self.map.get(Qey::from_ref(key))?;
        unsafe { self.detach(n); self.push_back(n); Some(&mut (*n).value) }
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let existing = self.map.get(Qey::<K>::from_ref(&k)).cloned();
        if let Some(n) = existing {
            unsafe { self.detach(n); self.push_back(n); }
            return Some(std::mem::replace(unsafe { &mut (*n).value }, v));
        }
        let n = Box::into_raw(Box::new(Node { key: k, value: v, prev: ptr::null_mut(), next: ptr::null_mut() }));
        unsafe { self.push_back(n); self.map.insert(KeyRef { k: &(*n).key }, n); }
        if self.len() > self.capacity() { self.remove_lru(); }
        None
    }
    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, key: &Q) -> Option<V> where K: Borrow<Q> {
        let n = self.map.remove(Qey::from_ref(key))?;
        unsafe { self.detach(n); Some(Box::from_raw(n).value) }
    }
    pub fn capacity(&self) -> usize { self.max_size }
    pub fn set_capacity(&mut self, capacity: usize) { while self.len() > capacity { self.remove_lru(); } self.max_size = capacity; }
    pub fn remove_lru(&mut self) -> Option<(K, V)> {
        if self.head.is_null() { return None; }
        let n = self.head;
        unsafe {
            self.map.remove(&KeyRef { k: &(*n).key as *const K });
            self.detach(n);
            let b = Box::from_raw(n);
            let Node { key, value, .. } = *b;
            Some((key, value))
        }
    }
    pub fn len(&self) -> usize { self.map.len() }
    pub fn is_empty(&self) -> bool { self.map.is_empty() }
    pub fn clear(&mut self) { while self.remove_lru().is_some() {} }
    pub fn iter(&self) -> Iter<'_, K, V> { Iter { cur: self.head, _m: std::marker::PhantomData } }
}
impl<K: Eq + Hash, V, S: BuildHasher> Drop for LruCache<K, V, S> {
    fn drop(&mut self) {
        self.map.clear();
        let mut n = self.head;
        while !n.is_null() { unsafe { let b = Box::from_raw(n); n = b.next; } }
    }
}
pub struct Iter<'a, K: 'a, V: 'a> { cur: *mut Node<K, V>, _m: std::marker::PhantomData<&'a (K, V)> }
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> {
        if self.cur.is_null() { return None; }
        unsafe { let n = self.cur; self.cur = (*n).next; Some((&(*n).key, &(*n).value)) }
    }
}
