//! Stand-in for the `itertools` crate: pairs only.
pub struct Tuples<I>(I);
impl<I: Iterator> Iterator for Tuples<I> {
    type Item = (I::Item, I::Item);
    fn next(&mut self) -> Option<Self::Item> {
        let a = self.0.next()?;
        Some((a, self.0.next()?))
    }
}
pub trait Itertools: Iterator + Sized {
    /// Those that are left over are dropped.
    fn tuples(self) -> Tuples<Self> {
        Tuples(self)
    }
}
impl<I: Iterator> Itertools for I {}
