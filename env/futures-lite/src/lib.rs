//! Offline stand-in for `futures-lite` 2: the part of its API hyperbee (and small refactorings of
//! it) can use, with the same signatures and semantics.
pub use futures_core::ready;
pub use future::{Future, FutureExt};
pub use io::{AsyncBufRead, AsyncBufReadExt, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt};
pub use stream::{Stream, StreamExt};
pub use futures_util::pin_mut as pin;

pub mod io {
    pub use futures_io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite};
    pub use futures_util::io::{AsyncBufReadExt, AsyncReadExt, AsyncSeekExt, AsyncWriteExt};
    pub use std::io::{Error, ErrorKind, Result};
}

pub mod future {
    pub use std::future::{pending, poll_fn, ready, Future};
    use std::{pin::Pin, task::{Context, Poll}};
    pub type Boxed<T> = Pin<Box<dyn Future<Output = T> + Send + 'static>>;
    pub type BoxedLocal<T> = Pin<Box<dyn Future<Output = T> + 'static>>;

    pub trait FutureExt: Future {
        fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Self::Output> where Self: Unpin {
            Future::poll(Pin::new(self), cx)
        }
        fn boxed<'a>(self) -> Pin<Box<dyn Future<Output = Self::Output> + Send + 'a>> where Self: Sized + Send + 'a { Box::pin(self) }
        fn boxed_local<'a>(self) -> Pin<Box<dyn Future<Output = Self::Output> + 'a>> where Self: Sized + 'a { Box::pin(self) }
    }
    impl<F: Future + ?Sized> FutureExt for F {}

    pub async fn yield_now() {
        let mut done = false;
        poll_fn(move |cx| if done { Poll::Ready(()) } else { done = true; cx.waker().wake_by_ref(); Poll::Pending }).await
    }
    pub async fn poll_once<T>(f: impl Future<Output = T>) -> Option<T> {
        let mut f = std::pin::pin!(f);
        poll_fn(|cx| Poll::Ready(match f.as_mut().poll(cx) { Poll::Ready(v) => Some(v), Poll::Pending => None })).await
    }
    pub async fn zip<A: Future, B: Future>(a: A, b: B) -> (A::Output, B::Output) { futures_util::future::join(a, b).await }
    pub async fn try_zip<T1, T2, E>(a: impl Future<Output = Result<T1, E>>, b: impl Future<Output = Result<T2, E>>) -> Result<(T1, T2), E> { futures_util::future::try_join(a, b).await }
    pub async fn or<T>(a: impl Future<Output = T>, b: impl Future<Output = T>) -> T {
        let (mut a, mut b) = (std::pin::pin!(a), std::pin::pin!(b));
        poll_fn(|cx| if let Poll::Ready(v) = a.as_mut().poll(cx) { Poll::Ready(v) } else { b.as_mut().poll(cx) }).await
    }
    pub async fn race<T>(a: impl Future<Output = T>, b: impl Future<Output = T>) -> T { or(a, b).await }
    pub fn block_on<T>(f: impl Future<Output = T>) -> T {
        struct Thread(std::thread::Thread);
        impl std::task::Wake for Thread { fn wake(self: std::sync::Arc<Self>) { self.0.unpark() } }
        let waker = std::sync::Arc::new(Thread(std::thread::current())).into();
        let mut f = std::pin::pin!(f);
        loop {
            if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&waker)) { return v }
            std::thread::park();
        }
    }
}

pub mod stream {
    pub use futures_core::stream::Stream;
    pub use futures_util::stream::{empty, iter, once as once_future, pending, repeat};
    use pin_project_lite::pin_project;
    use std::{future::{poll_fn, Future}, pin::Pin, task::{ready, Context, Poll}};
    pub type Boxed<T> = Pin<Box<dyn Stream<Item = T> + Send + 'static>>;
    pub type BoxedLocal<T> = Pin<Box<dyn Stream<Item = T> + 'static>>;
    pub fn once<T>(t: T) -> impl Stream<Item = T> + Unpin { iter(Some(t)) }
    pub fn unfold<T, F, Fut, I>(s: T, f: F) -> impl Stream<Item = I> where F: FnMut(T) -> Fut, Fut: Future<Output = Option<(I, T)>> { futures_util::stream::unfold(s, f) }
    pub fn poll_fn_stream<T, F: FnMut(&mut Context<'_>) -> Poll<Option<T>>>(f: F) -> impl Stream<Item = T> { futures_util::stream::poll_fn(f) }

    macro_rules! adapter { ($name:ident { $($f:ident : $t:ident),* }) => {
        pin_project! { pub struct $name<S, $($t),*> { #[pin] stream: S, $($f: $t),* } }
    } }
    adapter!(Map { f: F });
    adapter!(Filter { f: F });
    adapter!(FilterMap { f: F });
    adapter!(TakeWhile { f: F });
    adapter!(MapWhile { f: F });
    adapter!(Inspect { f: F });
    pin_project! { pub struct SkipWhile<S, F> { #[pin] stream: S, f: Option<F> } }
    pin_project! { pub struct Take<S> { #[pin] stream: S, n: usize } }
    pin_project! { pub struct Skip<S> { #[pin] stream: S, n: usize } }
    pin_project! { pub struct Enumerate<S> { #[pin] stream: S, i: usize } }
    pin_project! { pub struct Chain<A, B> { #[pin] a: A, #[pin] b: B, first: bool } }
    pin_project! { pub struct Fuse<S> { #[pin] stream: S, done: bool } }

    impl<S: Stream, T, F: FnMut(S::Item) -> T> Stream for Map<S, F> {
        type Item = T;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
            let t = self.project(); Poll::Ready(ready!(t.stream.poll_next(cx)).map(t.f))
        }
        fn size_hint(&self) -> (usize, Option<usize>) { self.stream.size_hint() }
    }
    impl<S: Stream, F: FnMut(&S::Item) -> bool> Stream for Filter<S, F> {
        type Item = S::Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
            let mut t = self.project();
            loop { match ready!(t.stream.as_mut().poll_next(cx)) { None => return Poll::Ready(None), Some(v) => if (t.f)(&v) { return Poll::Ready(Some(v)) } } }
        }
    }
    impl<S: Stream, T, F: FnMut(S::Item) -> Option<T>> Stream for FilterMap<S, F> {
        type Item = T;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
            let mut t = self.project();
            loop { match ready!(t.stream.as_mut().poll_next(cx)) { None => return Poll::Ready(None), Some(v) => if let Some(x) = (t.f)(v) { return Poll::Ready(Some(x)) } } }
        }
    }
    impl<S: Stream, F: FnMut(&S::Item) -> bool> Stream for TakeWhile<S, F> {
        type Item = S::Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
            let t = self.project();
            Poll::Ready(match ready!(t.stream.poll_next(cx)) { Some(v) if (t.f)(&v) => Some(v), _ => None })
        }
    }
    impl<S: Stream, T, F: FnMut(S::Item) -> Option<T>> Stream for MapWhile<S, F> {
        type Item = T;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
            let t = self.project(); Poll::Ready(ready!(t.stream.poll_next(cx)).and_then(t.f))
        }
    }
    impl<S: Stream, F: FnMut(&S::Item)> Stream for Inspect<S, F> {
        type Item = S::Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
            let t = self.project(); let v = ready!(t.stream.poll_next(cx)); if let Some(v) = &v { (t.f)(v) } Poll::Ready(v)
        }
    }
    impl<S: Stream, F: FnMut(&S::Item) -> bool> Stream for SkipWhile<S, F> {
        type Item = S::Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
            let mut t = self.project();
            loop { match ready!(t.stream.as_mut().poll_next(cx)) {
                Some(v) => match t.f { Some(f) => if !f(&v) { *t.f = None; return Poll::Ready(Some(v)) }, None => return Poll::Ready(Some(v)) },
                None => return Poll::Ready(None) } }
        }
    }
    impl<S: Stream> Stream for Take<S> {
        type Item = S::Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
            let t = self.project();
            if *t.n == 0 { return Poll::Ready(None); }
            let v = ready!(t.stream.poll_next(cx)); match v { Some(_) => *t.n -= 1, None => *t.n = 0 } Poll::Ready(v)
        }
    }
    impl<S: Stream> Stream for Skip<S> {
        type Item = S::Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
            let mut t = self.project();
            loop { match ready!(t.stream.as_mut().poll_next(cx)) { Some(v) => { if *t.n == 0 { return Poll::Ready(Some(v)) } *t.n -= 1; } None => return Poll::Ready(None) } }
        }
    }
    impl<S: Stream> Stream for Enumerate<S> {
        type Item = (usize, S::Item);
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            let t = self.project();
            Poll::Ready(ready!(t.stream.poll_next(cx)).map(|v| { let i = *t.i; *t.i += 1; (i, v) }))
        }
    }
    impl<A: Stream, B: Stream<Item = A::Item>> Stream for Chain<A, B> {
        type Item = A::Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            let t = self.project();
            if *t.first { match ready!(t.a.poll_next(cx)) { Some(v) => return Poll::Ready(Some(v)), None => *t.first = false } }
            t.b.poll_next(cx)
        }
    }
    impl<S: Stream> Stream for Fuse<S> {
        type Item = S::Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
            let t = self.project();
            if *t.done { return Poll::Ready(None); }
            let v = ready!(t.stream.poll_next(cx)); if v.is_none() { *t.done = true; } Poll::Ready(v)
        }
    }

    #[allow(async_fn_in_trait)]
    pub trait StreamExt: Stream {
        fn poll_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> where Self: Unpin { Stream::poll_next(Pin::new(self), cx) }
        fn next(&mut self) -> impl Future<Output = Option<Self::Item>> where Self: Unpin { poll_fn(move |cx| Stream::poll_next(Pin::new(&mut *self), cx)) }
        fn try_next<T, E>(&mut self) -> impl Future<Output = Result<Option<T>, E>> where Self: Stream<Item = Result<T, E>> + Unpin { poll_fn(move |cx| Stream::poll_next(Pin::new(&mut *self), cx).map(|o| o.transpose())) }
        fn map<T, F: FnMut(Self::Item) -> T>(self, f: F) -> Map<Self, F> where Self: Sized { Map { stream: self, f } }
        fn filter<F: FnMut(&Self::Item) -> bool>(self, f: F) -> Filter<Self, F> where Self: Sized { Filter { stream: self, f } }
        fn filter_map<T, F: FnMut(Self::Item) -> Option<T>>(self, f: F) -> FilterMap<Self, F> where Self: Sized { FilterMap { stream: self, f } }
        fn take_while<F: FnMut(&Self::Item) -> bool>(self, f: F) -> TakeWhile<Self, F> where Self: Sized { TakeWhile { stream: self, f } }
        fn map_while<T, F: FnMut(Self::Item) -> Option<T>>(self, f: F) -> MapWhile<Self, F> where Self: Sized { MapWhile { stream: self, f } }
        fn inspect<F: FnMut(&Self::Item)>(self, f: F) -> Inspect<Self, F> where Self: Sized { Inspect { stream: self, f } }
        fn skip_while<F: FnMut(&Self::Item) -> bool>(self, f: F) -> SkipWhile<Self, F> where Self: Sized { SkipWhile { stream: self, f: Some(f) } }
        fn take(self, n: usize) -> Take<Self> where Self: Sized { Take { stream: self, n } }
        fn skip(self, n: usize) -> Skip<Self> where Self: Sized { Skip { stream: self, n } }
        fn enumerate(self) -> Enumerate<Self> where Self: Sized { Enumerate { stream: self, i: 0 } }
        fn chain<B: Stream<Item = Self::Item>>(self, b: B) -> Chain<Self, B> where Self: Sized { Chain { a: self, b, first: true } }
        fn fuse(self) -> Fuse<Self> where Self: Sized { Fuse { stream: self, done: false } }
        fn boxed<'a>(self) -> Pin<Box<dyn Stream<Item = Self::Item> + Send + 'a>> where Self: Sized + Send + 'a { Box::pin(self) }
        fn boxed_local<'a>(self) -> Pin<Box<dyn Stream<Item = Self::Item> + 'a>> where Self: Sized + 'a { Box::pin(self) }
        async fn collect<C: Default + Extend<Self::Item>>(self) -> C where Self: Sized { let mut s = std::pin::pin!(self); let mut c = C::default(); while let Some(v) = poll_fn(|cx| s.as_mut().poll_next(cx)).await { c.extend(Some(v)) } c }
        async fn try_collect<T, E, C: Default + Extend<T>>(self) -> Result<C, E> where Self: Sized + Stream<Item = Result<T, E>> { let mut s = std::pin::pin!(self); let mut c = C::default(); while let Some(v) = poll_fn(|cx| s.as_mut().poll_next(cx)).await { c.extend(Some(v?)) } Ok(c) }
        async fn fold<T, F: FnMut(T, Self::Item) -> T>(self, init: T, mut f: F) -> T where Self: Sized { let mut s = std::pin::pin!(self); let mut a = init; while let Some(v) = poll_fn(|cx| s.as_mut().poll_next(cx)).await { a = f(a, v) } a }
        async fn for_each<F: FnMut(Self::Item)>(self, mut f: F) where Self: Sized { let mut s = std::pin::pin!(self); while let Some(v) = poll_fn(|cx| s.as_mut().poll_next(cx)).await { f(v) } }
        async fn count(self) -> usize where Self: Sized { self.fold(0, |n, _| n + 1).await }
        async fn nth(&mut self, n: usize) -> Option<Self::Item> where Self: Unpin { for _ in 0..n { self.next().await?; } self.next().await }
        async fn any<F: FnMut(Self::Item) -> bool>(&mut self, mut f: F) -> bool where Self: Unpin { while let Some(v) = self.next().await { if f(v) { return true } } false }
        async fn all<F: FnMut(Self::Item) -> bool>(&mut self, mut f: F) -> bool where Self: Unpin { while let Some(v) = self.next().await { if !f(v) { return false } } true }
        async fn find<F: FnMut(&Self::Item) -> bool>(&mut self, mut f: F) -> Option<Self::Item> where Self: Unpin { while let Some(v) = self.next().await { if f(&v) { return Some(v) } } None }
        async fn find_map<T, F: FnMut(Self::Item) -> Option<T>>(&mut self, mut f: F) -> Option<T> where Self: Unpin { while let Some(v) = self.next().await { if let Some(x) = f(v) { return Some(x) } } None }
        async fn position<F: FnMut(Self::Item) -> bool>(&mut self, mut f: F) -> Option<usize> where Self: Unpin { let mut i = 0; while let Some(v) = self.next().await { if f(v) { return Some(i) } i += 1 } None }
        async fn try_fold<T, E, F: FnMut(B, T) -> Result<B, E>, B>(&mut self, init: B, mut f: F) -> Result<B, E> where Self: Stream<Item = Result<T, E>> + Unpin { let mut a = init; while let Some(v) = self.next().await { a = f(a, v?)? } Ok(a) }
        async fn try_for_each<F: FnMut(Self::Item) -> Result<(), E>, E>(&mut self, mut f: F) -> Result<(), E> where Self: Unpin { while let Some(v) = self.next().await { f(v)? } Ok(()) }
        fn then<F: FnMut(Self::Item) -> Fut, Fut: Future>(self, f: F) -> futures_util::stream::Then<Self, Fut, F> where Self: Sized { futures_util::StreamExt::then(self, f) }
        fn zip<U: Stream>(self, other: U) -> futures_util::stream::Zip<Self, U> where Self: Sized { futures_util::StreamExt::zip(self, other) }
        fn flatten(self) -> futures_util::stream::Flatten<Self> where Self: Sized, Self::Item: Stream { futures_util::StreamExt::flatten(self) }
        fn flat_map<U: Stream, F: FnMut(Self::Item) -> U>(self, f: F) -> futures_util::stream::FlatMap<Self, U, F> where Self: Sized { futures_util::StreamExt::flat_map(self, f) }
        fn cloned<'a, T: Clone + 'a>(self) -> Map<Self, fn(&'a T) -> T> where Self: Stream<Item = &'a T> + Sized { Map { stream: self, f: T::clone } }
        async fn partition<B: Default + Extend<Self::Item>, F: FnMut(&Self::Item) -> bool>(self, mut f: F) -> (B, B) where Self: Sized { let (mut a, mut b) = (B::default(), B::default()); self.for_each(|v| if f(&v) { a.extend(Some(v)) } else { b.extend(Some(v)) }).await; (a, b) }
        async fn last(self) -> Option<Self::Item> where Self: Sized { self.fold(None, |_, v| Some(v)).await }
    }
    impl<S: Stream + ?Sized> StreamExt for S {}
}
