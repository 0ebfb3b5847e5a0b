/// asupersync's streams, `std::task::Poll`, owning iterators and `VecDeque` as the async entry points use them.
pub mod vasync {
use vstd::prelude::*;
verus! {
/// `std::vec::IntoIter`, and any other iterator over a finite sequence of items: the items still to come
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIntoIter<T> { v: std::vec::IntoIter<T> }
impl<T> View for VIntoIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VIntoIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@, Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
}
pub trait VVecExt<T>: Sized {
    spec fn vseq(&self) -> Seq<T>;
    fn v_into_iter(self) -> (r: VIntoIter<T>) ensures r@ == self.vseq();
}
impl<T> VVecExt<T> for Vec<T> {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> VIntoIter<T> { unimplemented!() }
}
/// `std::collections::VecDeque`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecDeque<T> { v: std::collections::VecDeque<T> }
impl<T> View for VecDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VecDeque<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@, Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_extend(&mut self, x: Vec<T>) ensures final(self)@ == old(self)@ + x@ { unimplemented!() }
}
/// `std::task::Poll`
pub enum Poll<T> { Ready(T), Pending }
pub assume_specification<T: Default> [std::mem::take::<T>] (x: &mut T) -> (r: T)
    ensures r == *old(x);
/// `asupersync::stream::iter(..)`: a stream over the items
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VStream<T> { v: Vec<T> }
#[verifier::external_body]
pub fn iter<T>(v: Vec<T>) -> VStream<T> { unimplemented!() }
impl<T> VStream<T> {
    /// consumes the stream; assumed to complete
    #[verifier::external_body]
    pub async fn v_count(self) -> usize { unimplemented!() }
}
} // verus!
}
