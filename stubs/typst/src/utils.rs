use std::hash::{Hash, Hasher};
use std::ops::{Deref, DerefMut};

/// A value that hashes like its content. (The real one caches the hash.)
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct LazyHash<T: ?Sized>(T);
impl<T> LazyHash<T> {
    pub fn new(v: T) -> Self {
        Self(v)
    }
    pub fn into_inner(self) -> T {
        self.0
    }
}
impl<T: Hash> Hash for LazyHash<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<T> Deref for LazyHash<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T> DerefMut for LazyHash<T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}
impl<T> From<T> for LazyHash<T> {
    fn from(v: T) -> Self {
        Self(v)
    }
}

pub trait OptionExt<T> {
    fn map_or_default<U: Default, F: FnOnce(T) -> U>(self, f: F) -> U;
}
impl<T> OptionExt<T> for Option<T> {
    fn map_or_default<U: Default, F: FnOnce(T) -> U>(self, f: F) -> U {
        match self {
            Some(x) => f(x),
            None => U::default(),
        }
    }
}

pub fn hash128<T: Hash + ?Sized>(v: &T) -> u128 {
    use siphasher::sip128::{Hasher128, SipHasher13};
    let mut s = SipHasher13::new();
    v.hash(&mut s);
    s.finish128().as_u128()
}
