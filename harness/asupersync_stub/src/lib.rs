//! Stand-in for the part of asupersync that toon_rust uses, so that the harness builds in seconds (the crate
//! itself takes minutes). The thorough tier builds against the real crate. `Count` suspends after a number of items
//! that changes from poll to poll, where the real one suspends after 1024.
pub mod stream {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub trait Stream {
        type Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>;
        fn size_hint(&self) -> (usize, Option<usize>) { (0, None) }
    }
    #[derive(Debug)]
    pub struct Iter<I> { iter: I }
    impl<I> Unpin for Iter<I> {}
    impl<I: Iterator> Stream for Iter<I> {
        type Item = I::Item;
        fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Option<Self::Item>> { Poll::Ready(self.iter.next()) }
    }
    pub fn iter<I: IntoIterator>(i: I) -> Iter<I::IntoIter> { Iter { iter: i.into_iter() } }
    pub struct Next<'a, S: ?Sized> { stream: &'a mut S }
    impl<S: Stream + Unpin + ?Sized> Future for Next<'_, S> {
        type Output = Option<S::Item>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> { Pin::new(&mut *self.stream).poll_next(cx) }
    }
    pub struct Count<S> { stream: Pin<Box<S>>, total: usize, polls: usize }
    impl<S: Stream> Future for Count<S> {
        type Output = usize;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<usize> {
            self.polls += 1;
            for _ in 0..self.polls % 5 {
                match self.stream.as_mut().poll_next(cx) {
                    Poll::Ready(Some(_)) => self.total += 1,
                    Poll::Ready(None) => return Poll::Ready(self.total),
                    Poll::Pending => return Poll::Pending,
                }
            }
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
    pub struct Collect<S: Stream> { stream: Pin<Box<S>>, items: Option<Vec<S::Item>> }
    impl<S: Stream> Unpin for Collect<S> {}
    impl<S: Stream> Future for Collect<S> {
        type Output = Vec<S::Item>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Vec<S::Item>> {
            loop {
                match self.stream.as_mut().poll_next(cx) {
                    Poll::Ready(Some(x)) => self.items.as_mut().unwrap().push(x),
                    Poll::Ready(None) => return Poll::Ready(self.items.take().unwrap()),
                    Poll::Pending => return Poll::Pending,
                }
            }
        }
    }
    pub trait StreamExt: Stream {
        fn next(&mut self) -> Next<'_, Self> where Self: Unpin { Next { stream: self } }
        fn count(self) -> Count<Self> where Self: Sized { Count { stream: Box::pin(self), total: 0, polls: 0 } }
        fn collect_vec(self) -> Collect<Self> where Self: Sized { Collect { stream: Box::pin(self), items: Some(vec![]) } }
    }
    impl<S: Stream + ?Sized> StreamExt for S {}
}
