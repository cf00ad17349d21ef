//! A pair of connected byte streams.
use futures_lite::{AsyncRead, AsyncWrite};
use std::{
    collections::VecDeque,
    io,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};

#[derive(Default)]
struct Half {
    data: VecDeque<u8>,
    closed: bool,
    reader: Option<Waker>,
    writer: Option<Waker>,
}

pub struct End {
    inp: Arc<Mutex<Half>>,
    out: Arc<Mutex<Half>>,
    room: usize,
}

/// Each direction holds up to `room` bytes.
pub fn pair(room: usize) -> (End, End) {
    let (x, y) = (Arc::<Mutex<Half>>::default(), Arc::<Mutex<Half>>::default());
    (End { inp: x.clone(), out: y.clone(), room }, End { inp: y, out: x, room })
}

impl AsyncRead for End {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut h = self.inp.lock().unwrap();
        if h.data.is_empty() {
            if h.closed {
                return Poll::Ready(Ok(0));
            }
            h.reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.len().min(h.data.len());
        for b in buf[..n].iter_mut() {
            *b = h.data.pop_front().unwrap();
        }
        if let Some(w) = h.writer.take() {
            w.wake()
        }
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for End {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut h = self.out.lock().unwrap();
        if h.closed {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let n = buf.len().min(self.room.saturating_sub(h.data.len()));
        if n == 0 && !buf.is_empty() {
            h.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        h.data.extend(&buf[..n]);
        if let Some(w) = h.reader.take() {
            w.wake()
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut h = self.out.lock().unwrap();
        h.closed = true;
        if let Some(w) = h.reader.take() {
            w.wake()
        }
        Poll::Ready(Ok(()))
    }
}
impl Drop for End {
    fn drop(&mut self) {
        for h in [&self.inp, &self.out] {
            if let Ok(mut h) = h.lock() {
                h.closed = true;
                for w in [h.reader.take(), h.writer.take()].into_iter().flatten() {
                    w.wake()
                }
            }
        }
    }
}
