//! A log that wants everything and formats it, as one in use would.
use std::{
    fmt::{Debug, Write},
    sync::atomic::{AtomicU64, AtomicUsize, Ordering},
};
use tracing::{field::Visit, span, Event, Metadata, Subscriber};

#[derive(Default)]
pub struct Everything {
    last: AtomicU64,
    seen: AtomicUsize,
}
struct Line(String);
impl Visit for Line {
    fn record_debug(&mut self, field: &tracing::field::Field, value: &dyn Debug) {
        let _ = write!(self.0, "{field}={value:?} ");
    }
}
impl Everything {
    fn line(&self, f: impl FnOnce(&mut Line)) {
        let mut l = Line(String::new());
        f(&mut l);
        self.seen.fetch_add(l.0.len(), Ordering::Relaxed);
    }
}
impl Subscriber for Everything {
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
        self.line(|l| a.record(l));
        span::Id::from_u64(self.last.fetch_add(1, Ordering::Relaxed) + 1)
    }
    fn record(&self, _: &span::Id, r: &span::Record<'_>) {
        self.line(|l| r.record(l));
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        self.line(|l| e.record(l));
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}
