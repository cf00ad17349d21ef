//! An allocator that notices memory given back with another layout than it was taken with, as happens when
//! a buffer crosses a language border with the wrong length.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    sync::atomic::{AtomicBool, Ordering},
};

pub struct Checked;
pub static WRONG: AtomicBool = AtomicBool::new(false);
const LIVE: usize = 0x6c69_7665;

/// The size, the alignment and a mark, in front of the memory.
fn room(l: Layout) -> usize {
    l.align().max(32)
}
unsafe fn outer(l: Layout) -> Layout {
    Layout::from_size_align_unchecked(l.size() + room(l), room(l))
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(outer(l));
        if p.is_null() {
            return p;
        }
        let q = p.add(room(l));
        let h = q as *mut usize;
        *h.sub(1) = LIVE;
        *h.sub(2) = l.size();
        *h.sub(3) = l.align();
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let h = q as *mut usize;
        if *h.sub(1) != LIVE || *h.sub(2) != l.size() || *h.sub(3) != l.align() {
            WRONG.store(true, Ordering::SeqCst);
            return; // it cannot be given back safely
        }
        *h.sub(1) = 0;
        System.dealloc(q.sub(room(l)), outer(l))
    }
}
