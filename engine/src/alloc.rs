//! The allocator of the engine (which has one thread): free lists by size.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

const CLASS: usize = 32;
const MAX: usize = 4096;
const BLOCK: usize = 1 << 20;

struct Lists {
    free: [*mut u8; MAX / CLASS + 1],
    next: usize,
    end: usize,
}
pub struct Alloc(UnsafeCell<Lists>);
// Safety: the engine never starts a thread.
unsafe impl Sync for Alloc {}

impl Alloc {
    pub const fn new() -> Alloc {
        Alloc(UnsafeCell::new(Lists { free: [std::ptr::null_mut(); MAX / CLASS + 1], next: 0, end: 0 }))
    }
}
#[cold]
unsafe fn refill(l: &mut Lists, size: usize) -> *mut u8 {
    if l.end - l.next < size {
        let p = System.alloc(Layout::from_size_align_unchecked(BLOCK, 4096));
        if p.is_null() {
            return p;
        }
        l.next = p as usize;
        l.end = l.next + BLOCK;
    }
    let p = l.next;
    l.next += size;
    p as *mut u8
}
unsafe impl GlobalAlloc for Alloc {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX || l.align() > CLASS {
            return System.alloc(l);
        }
        let ls = &mut *self.0.get();
        let c = (l.size() + CLASS - 1) / CLASS;
        let p = ls.free[c];
        if p.is_null() {
            return refill(ls, c * CLASS);
        }
        ls.free[c] = *(p as *mut *mut u8);
        p
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() > MAX || l.align() > CLASS {
            return System.dealloc(p, l);
        }
        let ls = &mut *self.0.get();
        let c = (l.size() + CLASS - 1) / CLASS;
        *(p as *mut *mut u8) = ls.free[c];
        ls.free[c] = p;
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if l.size() > MAX && n > MAX && l.align() <= CLASS {
            return System.realloc(p, l, n);
        }
        if n <= MAX && l.size() <= MAX && l.align() <= CLASS && (l.size() + CLASS - 1) / CLASS == (n + CLASS - 1) / CLASS {
            return p;
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
