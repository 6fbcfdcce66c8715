//! A model of `seize` 0.5 used by the checks: the same public API, with the
//! *earliest* reclamation that its contract allows.
//!
//! Contract (seize documentation): a retired object may be reclaimed as soon as
//! every guard that was active when it was retired has been dropped or refreshed.
//! (`Collector::retire` is not tied to a guard of the calling thread.)
//! The real collector reclaims no earlier than this model, usually much later.
//!
//! Memory ordering: the atomic accesses made through a guard are `SeqCst`, exactly
//! as in seize 0.5.1.  Dropping a guard releases to what it protected, and to whoever
//! retires something later; reclaiming acquires.  Entering creates no happens-before
//! edge (except from the previous owned guard in the same slot), but by then every
//! value that a thread which has retired something knew to be replaced is out of reach
//! (`vp_view_*`: what the fences of seize are for).
#![deny(unsafe_op_in_unsafe_fn)]

use std::cell::UnsafeCell;
use std::fmt;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicPtr, Ordering};

extern "C" {
    fn vp_atomic_begin();
    fn vp_atomic_end();
    fn vp_thread_id() -> u32;
    fn vp_hb_release(p: *const u8);
    fn vp_hb_acquire(p: *const u8);
    fn vp_fail(code: u32) -> !;
    fn vp_view_publish();
    fn vp_view_learn();
}

const MAX_THREADS: usize = 4;
const MAX_OWNED: usize = 8;
const SLOTS: usize = MAX_THREADS + MAX_OWNED;

/// A retired object.
struct Retired {
    ptr: *mut (),
    reclaim: unsafe fn(*mut (), &Collector),
    /// Guards that may still use it.
    blockers: u32,
}

struct Inner {
    /// Active guards: entry `t` is thread `t`, those from `MAX_THREADS` on are owned guards.
    active: [bool; SLOTS],
    depth: [u32; MAX_THREADS],
    /// What each thread retired while each guard was active.  (One list for each
    /// pair, so that retiring by different threads touches no common memory.)
    retired: [[Vec<*mut Retired>; SLOTS]; MAX_THREADS],
}

pub struct Collector {
    inner: Box<UnsafeCell<Inner>>,
}

unsafe impl Send for Collector {}
unsafe impl Sync for Collector {}

struct Region;
impl Region {
    #[inline(always)]
    fn enter() -> Region {
        unsafe { vp_atomic_begin() };
        Region
    }
}
impl Drop for Region {
    #[inline(always)]
    fn drop(&mut self) {
        unsafe { vp_atomic_end() }
    }
}

impl Default for Collector {
    fn default() -> Self {
        Self::new()
    }
}

impl Collector {
    pub fn new() -> Self {
        Collector {
            inner: Box::new(UnsafeCell::new(Inner {
                active: [false; SLOTS],
                depth: [0; MAX_THREADS],
                retired: [const { [const { Vec::new() }; SLOTS] }; MAX_THREADS],
            })),
        }
    }

    pub fn batch_size(self, _batch_size: usize) -> Self {
        self
    }

    #[inline]
    pub fn enter(&self) -> LocalGuard<'_> {
        LocalGuard::enter(self)
    }

    #[inline]
    pub fn enter_owned(&self) -> OwnedGuard<'_> {
        OwnedGuard::enter(self)
    }

    /// # Safety
    /// As in seize.
    #[inline]
    pub unsafe fn retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &Collector)) {
        self.add(ptr, reclaim, thread_id())
    }

    /// Retires an object; the guard `except` does not matter.
    #[inline(never)]
    fn add<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &Collector), except: usize) {
        if ptr.is_null() {
            unsafe { vp_fail(901) }
        }
        // Safety: `T` is sized, so both are thin pointers.
        let reclaim: unsafe fn(*mut (), &Collector) = unsafe { std::mem::transmute(reclaim) };
        let ptr = ptr as *mut ();
        let blockers = {
            let _region = Region::enter();
            // Guards entered from now on see what this thread sees.
            unsafe { vp_view_publish() };
            let inner = self.inner();
            let lists = &mut inner.retired[thread_id()];
            let mut item = std::ptr::null_mut::<Retired>();
            let mut blockers = 0;
            for slot in 0..SLOTS {
                if slot == except {
                    continue;
                }
                if !inner.active[slot] {
                    // What the guard did before it was dropped happened before.
                    unsafe { vp_hb_acquire(&inner.active[slot] as *const bool as *const u8) };
                    continue;
                }
                if blockers == 0 {
                    for old in &lists[slot] {
                        // (objects without a size have no address of their own)
                        if unsafe { (**old).ptr } == ptr && ptr as usize > 4096 {
                            // Retired twice.
                            unsafe { vp_fail(902) }
                        }
                    }
                    item = Box::into_raw(Box::new(Retired { ptr, reclaim, blockers: 0 }));
                }
                blockers += 1;
                lists[slot].push(item);
            }
            if blockers != 0 {
                unsafe {
                    (*item).blockers = blockers;
                    vp_hb_release(item as *const u8)
                };
            }
            blockers
        };
        if blockers == 0 {
            unsafe { (reclaim)(ptr, self) }
        }
    }

    /// # Safety
    /// As in seize.
    pub unsafe fn reclaim_all(&self) {
        self.release();
    }

    #[allow(clippy::mut_from_ref)]
    #[inline(always)]
    fn inner(&self) -> &mut Inner {
        unsafe { &mut *self.inner.get() }
    }

    /// Reclaims everything.
    fn release(&self) {
        loop {
            let mut ready = Vec::new();
            for slot in 0..SLOTS {
                self.take(slot, &mut ready);
            }
            if ready.is_empty() {
                return;
            }
            self.reclaim(ready);
        }
    }

    /// The guard no longer protects anything.
    #[inline(always)]
    fn take(&self, slot: usize, ready: &mut Vec<*mut Retired>) {
        let inner = self.inner();
        for thread in 0..MAX_THREADS {
            let list = &mut inner.retired[thread][slot];
            if list.is_empty() {
                continue;
            }
            for item in list.drain(..) {
                unsafe {
                    vp_hb_release(item as *const u8);
                    (*item).blockers -= 1;
                    if (*item).blockers == 0 {
                        ready.push(item);
                    }
                }
            }
        }
    }

    fn reclaim(&self, ready: Vec<*mut Retired>) {
        for item in ready {
            unsafe {
                vp_hb_acquire(item as *const u8);
                let item = *Box::from_raw(item);
                (item.reclaim)(item.ptr, self)
            };
        }
    }

    /// A guard stops protecting what was retired before.
    #[inline(never)]
    fn leave(&self, slot: usize, stay: bool) {
        // The objects that become reclaimable are taken out in one step; they are
        // reclaimed outside the region.
        let mut ready = Vec::new();
        {
            let _region = Region::enter();
            let inner = self.inner();
            unsafe { vp_hb_release(&inner.active[slot] as *const bool as *const u8) };
            if !stay {
                inner.active[slot] = false;
            } else {
                unsafe { vp_view_learn() };
            }
            self.take(slot, &mut ready);
        }
        self.reclaim(ready);
    }
}

impl Drop for Collector {
    fn drop(&mut self) {
        self.release();
    }
}

impl Eq for Collector {}

impl PartialEq for Collector {
    #[inline]
    fn eq(&self, other: &Self) -> bool {
        std::ptr::eq(&*self.inner, &*other.inner)
    }
}

impl fmt::Debug for Collector {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Collector")
    }
}

#[inline(always)]
fn thread_id() -> usize {
    unsafe { vp_thread_id() as usize }
}

pub trait Guard {
    fn refresh(&mut self);
    fn flush(&self);
    fn collector(&self) -> &Collector;
    fn thread_id(&self) -> usize;

    #[inline]
    fn protect<T>(&self, ptr: &AtomicPtr<T>, _order: Ordering) -> *mut T {
        ptr.load(Ordering::SeqCst)
    }

    #[inline]
    fn swap<T>(&self, ptr: &AtomicPtr<T>, value: *mut T, _order: Ordering) -> *mut T {
        ptr.swap(value, Ordering::SeqCst)
    }

    #[inline]
    fn compare_exchange<T>(
        &self,
        ptr: &AtomicPtr<T>,
        current: *mut T,
        new: *mut T,
        _success: Ordering,
        _failure: Ordering,
    ) -> Result<*mut T, *mut T> {
        ptr.compare_exchange(current, new, Ordering::SeqCst, Ordering::SeqCst)
    }

    #[inline]
    fn compare_exchange_weak<T>(
        &self,
        ptr: &AtomicPtr<T>,
        current: *mut T,
        new: *mut T,
        _success: Ordering,
        _failure: Ordering,
    ) -> Result<*mut T, *mut T> {
        ptr.compare_exchange_weak(current, new, Ordering::SeqCst, Ordering::SeqCst)
    }

    /// # Safety
    /// As in seize.
    unsafe fn defer_retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &Collector));
}

pub struct LocalGuard<'a> {
    collector: &'a Collector,
    thread: usize,
    _unsend: PhantomData<*mut ()>,
}

impl LocalGuard<'_> {
    #[inline(never)]
    fn enter(collector: &Collector) -> LocalGuard<'_> {
        let thread = thread_id();
        let _region = Region::enter();
        let inner = collector.inner();
        if inner.depth[thread] == 0 {
            unsafe { vp_view_learn() };
        }
        inner.depth[thread] += 1;
        inner.active[thread] = true;
        LocalGuard {
            collector,
            thread,
            _unsend: PhantomData,
        }
    }
}

impl Guard for LocalGuard<'_> {
    #[inline(never)]
    fn refresh(&mut self) {
        let outermost = self.collector.inner().depth[self.thread] == 1;
        if outermost {
            self.collector.leave(self.thread, true);
        }
    }

    #[inline]
    fn flush(&self) {}

    #[inline]
    fn collector(&self) -> &Collector {
        self.collector
    }

    #[inline]
    fn thread_id(&self) -> usize {
        self.thread
    }

    #[inline]
    unsafe fn defer_retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &Collector)) {
        self.collector.add(ptr, reclaim, usize::MAX)
    }
}

impl Drop for LocalGuard<'_> {
    #[inline(never)]
    fn drop(&mut self) {
        let inner = self.collector.inner();
        inner.depth[self.thread] -= 1;
        if inner.depth[self.thread] == 0 {
            self.collector.leave(self.thread, false);
        }
    }
}

impl fmt::Debug for LocalGuard<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("LocalGuard")
    }
}

pub struct OwnedGuard<'a> {
    collector: &'a Collector,
    slot: usize,
}

unsafe impl Sync for OwnedGuard<'_> {}
unsafe impl Send for OwnedGuard<'_> {}

impl OwnedGuard<'_> {
    #[inline(never)]
    fn enter(collector: &Collector) -> OwnedGuard<'_> {
        let _region = Region::enter();
        let inner = collector.inner();
        for slot in MAX_THREADS..SLOTS {
            if !inner.active[slot] {
                inner.active[slot] = true;
                unsafe { vp_view_learn() };
                // (the slots of owned guards are handed over under a lock)
                unsafe { vp_hb_acquire(&inner.active[slot] as *const bool as *const u8) };
                return OwnedGuard { collector, slot };
            }
        }
        unsafe { vp_fail(903) }
    }
}

impl Guard for OwnedGuard<'_> {
    #[inline(never)]
    fn refresh(&mut self) {
        self.collector.leave(self.slot, true);
    }

    #[inline]
    fn flush(&self) {}

    #[inline]
    fn collector(&self) -> &Collector {
        self.collector
    }

    #[inline]
    fn thread_id(&self) -> usize {
        thread_id()
    }

    #[inline]
    unsafe fn defer_retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &Collector)) {
        self.collector.add(ptr, reclaim, usize::MAX)
    }
}

impl Drop for OwnedGuard<'_> {
    #[inline(never)]
    fn drop(&mut self) {
        self.collector.leave(self.slot, false);
    }
}

impl fmt::Debug for OwnedGuard<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("OwnedGuard")
    }
}

pub mod reclaim {
    use crate::Collector;

    /// # Safety
    /// As in seize.
    #[inline(never)]
    pub unsafe fn boxed<T>(ptr: *mut T, _collector: &Collector) {
        unsafe { drop(Box::from_raw(ptr)) }
    }

    /// # Safety
    /// As in seize.
    pub unsafe fn in_place<T>(ptr: *mut T, _collector: &Collector) {
        unsafe { std::ptr::drop_in_place::<T>(ptr) }
    }
}
