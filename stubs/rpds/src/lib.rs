//! Stand-in for the `rpds` crate, which is not available offline: the same
//! persistent-map interface, by copy-on-write over std's BTreeMap.
use std::borrow::Borrow;
use std::collections::{btree_map, BTreeMap};
use std::fmt;
use std::sync::Arc;

pub struct RedBlackTreeMap<K: Ord, V> {
    map: Arc<BTreeMap<K, Arc<V>>>,
}
pub type RedBlackTreeMapSync<K, V> = RedBlackTreeMap<K, V>;
pub type HashTrieMapSync<K, V> = RedBlackTreeMap<K, V>;

impl<K: Ord, V> Default for RedBlackTreeMap<K, V> {
    fn default() -> Self {
        Self { map: Arc::default() }
    }
}
impl<K: Ord, V> Clone for RedBlackTreeMap<K, V> {
    fn clone(&self) -> Self {
        Self { map: self.map.clone() }
    }
}
impl<K: Ord + fmt::Debug, V: fmt::Debug> fmt::Debug for RedBlackTreeMap<K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.iter()).finish()
    }
}
impl<K: Ord + PartialEq, V: PartialEq> PartialEq for RedBlackTreeMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.map == o.map
    }
}

impl<K: Ord, V> RedBlackTreeMap<K, V> {
    pub fn new_sync() -> Self {
        Self::default()
    }
    pub fn size(&self) -> usize {
        self.map.len()
    }
    pub fn is_empty(&self) -> bool {
        self.map.is_empty()
    }
    pub fn get<Q: Ord + ?Sized>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.map.get(k).map(|v| &**v)
    }
    pub fn get_key_value<Q: Ord + ?Sized>(&self, k: &Q) -> Option<(&K, &V)>
    where
        K: Borrow<Q>,
    {
        self.map.get_key_value(k).map(|(k, v)| (k, &**v))
    }
    pub fn contains_key<Q: Ord + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.map.contains_key(k)
    }
    pub fn first(&self) -> Option<(&K, &V)> {
        self.iter().next()
    }
    pub fn last(&self) -> Option<(&K, &V)> {
        self.iter().next_back()
    }
    pub fn iter(&self) -> Iter<'_, K, V> {
        Iter(self.map.iter())
    }
    pub fn keys(&self) -> btree_map::Keys<'_, K, Arc<V>> {
        self.map.keys()
    }
    pub fn values(&self) -> impl DoubleEndedIterator<Item = &V> {
        self.map.values().map(|v| &**v)
    }
}

impl<K: Ord + Clone, V> RedBlackTreeMap<K, V> {
    pub fn insert_mut(&mut self, k: K, v: V) {
        Arc::make_mut(&mut self.map).insert(k, Arc::new(v));
    }
    #[must_use]
    pub fn insert(&self, k: K, v: V) -> Self {
        let mut n = self.clone();
        n.insert_mut(k, v);
        n
    }
    pub fn remove_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        if !self.map.contains_key(k) {
            return false;
        }
        Arc::make_mut(&mut self.map).remove(k).is_some()
    }
    #[must_use]
    pub fn remove<Q: Ord + ?Sized>(&self, k: &Q) -> Self
    where
        K: Borrow<Q>,
    {
        let mut n = self.clone();
        n.remove_mut(k);
        n
    }
    pub fn get_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
        V: Clone,
    {
        if !self.map.contains_key(k) {
            return None;
        }
        Arc::make_mut(&mut self.map).get_mut(k).map(Arc::make_mut)
    }
}

pub struct Iter<'a, K, V>(btree_map::Iter<'a, K, Arc<V>>);
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(|(k, v)| (k, &**v))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<K, V> DoubleEndedIterator for Iter<'_, K, V> {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.0.next_back().map(|(k, v)| (k, &**v))
    }
}
impl<K, V> ExactSizeIterator for Iter<'_, K, V> {}
impl<'a, K: Ord, V> IntoIterator for &'a RedBlackTreeMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<K: Ord + Clone, V> FromIterator<(K, V)> for RedBlackTreeMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        Self { map: Arc::new(it.into_iter().map(|(k, v)| (k, Arc::new(v))).collect()) }
    }
}

impl<K: Ord + std::hash::Hash, V: std::hash::Hash> std::hash::Hash for RedBlackTreeMap<K, V> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_usize(self.map.len());
        self.iter().for_each(|e| e.hash(h));
    }
}
