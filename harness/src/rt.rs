//! Runtime of the harnesses: the interface to the symbolic executor (and to the
//! native replay runtime, which implements the same functions), key and value
//! types with symbolic hashes and drop accounting.
use std::alloc::{GlobalAlloc, Layout};
use std::cell::UnsafeCell;
use std::hash::{BuildHasher, Hash, Hasher};

pub mod ffi {
    extern "C" {
        /// A fresh symbolic value of `bits` bits.
        pub fn vp_sym(bits: u32) -> u64;
        /// The same value; each one is looked at separately.
        pub fn vp_concrete(x: u64) -> u64;
        /// Restricts the executions to those where `c` holds.
        pub fn vp_assume(c: bool);
        /// The property: `c` must hold on every execution.
        pub fn vp_assert(c: bool, code: u32);
        pub fn vp_fail(code: u32) -> !;
        pub fn vp_spawn(f: extern "C" fn(*mut u8), arg: *mut u8) -> u32;
        pub fn vp_join_all();
        pub fn vp_thread_id() -> u32;
        pub fn vp_atomic_begin();
        pub fn vp_atomic_end();
        /// Like `vp_atomic_begin`, without being a scheduling point.
        pub fn vp_raw_begin();
        pub fn vp_raw_end();
        /// Reports that the end of a scenario was reached (vacuity witness).
        pub fn vp_reach(code: u32);
        /// From here on, count live allocations.
        pub fn vp_leak_start();
        /// No allocation made since `vp_leak_start` may be live.
        pub fn vp_leak_check(code: u32);
        pub fn vp_alloc(size: usize, align: usize) -> *mut u8;
        pub fn vp_alloc_zeroed(size: usize, align: usize) -> *mut u8;
        pub fn vp_free(ptr: *mut u8, size: usize, align: usize);
        pub fn vp_realloc(ptr: *mut u8, size: usize, align: usize, new: usize) -> *mut u8;
        /// An operation is invoked: a scheduling point, together with the thread's
        /// first visible step after it.
        pub fn vp_invoke();
        /// A scheduling point.
        pub fn vp_point();
        /// A scheduling point; until the end the thread is not preempted unless it blocks.
        pub fn vp_serial_begin();
        pub fn vp_serial_end();
        /// Up to `n` of the calling thread's weak compare-and-exchange operations fail
        /// spuriously, any of them.
        pub fn vp_spurious(n: u32);
        pub fn vp_stale(n: u32);
        pub fn vp_clock() -> u32;
        pub fn vp_knows(t: u32, c: u32) -> bool;
        /// Whether ending the process because memory ran out is expected.
        pub fn vp_allow_abort(c: bool);
        /// Larger allocations fail.
        pub fn vp_alloc_limit(n: u64);
    }
}

/// How many allocations of zeroed memory there were (tables, in practice), and
/// the size of the latest one.
pub static ZEROED: Cell<u32> = Cell::new(0);
pub static ZEROED_SIZE: Cell<usize> = Cell::new(0);

struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ffi::vp_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        ffi::vp_free(p, l.size(), l.align())
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        raw(|| {
            *ZEROED.get() += 1;
            *ZEROED_SIZE.get() = l.size();
        });
        ffi::vp_alloc_zeroed(l.size(), l.align())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        ffi::vp_realloc(p, l.size(), l.align(), new)
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

#[inline(always)]
pub fn sym(bits: u32) -> u64 {
    unsafe { ffi::vp_sym(bits) }
}
#[inline(always)]
pub fn choose(n: u64) -> u64 {
    let bits = 64 - (n - 1).leading_zeros();
    if bits == 0 {
        return 0;
    }
    let x = sym(bits);
    assume(x < n);
    x
}
#[inline(always)]
pub fn concrete(x: u64) -> u64 {
    unsafe { ffi::vp_concrete(x) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { ffi::vp_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, code: u32) {
    unsafe { ffi::vp_assert(c, code) }
}
#[inline(always)]
pub fn fail(code: u32) -> ! {
    unsafe { ffi::vp_fail(code) }
}
#[inline(always)]
pub fn reach(code: u32) {
    unsafe { ffi::vp_reach(code) }
}

#[inline(always)]
pub fn point() {
    unsafe { ffi::vp_point() }
}
/// Runs `f` without scheduling points and outside of race detection.
#[inline(always)]
pub fn raw<T>(f: impl FnOnce() -> T) -> T {
    unsafe { ffi::vp_raw_begin() };
    let t = f();
    unsafe { ffi::vp_raw_end() };
    t
}
/// Runs `f` without preemption.
#[inline(always)]
pub fn serial(f: impl FnOnce()) {
    unsafe { ffi::vp_serial_begin() };
    f();
    unsafe { ffi::vp_serial_end() };
}
/// As `raw`, but the beginning is a scheduling point.
#[inline(always)]
pub fn atomic<T>(f: impl FnOnce() -> T) -> T {
    unsafe { ffi::vp_atomic_begin() };
    let t = f();
    unsafe { ffi::vp_atomic_end() };
    t
}

pub struct Cell<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Cell<T> {}
impl<T> Cell<T> {
    pub const fn new(t: T) -> Self {
        Cell(UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    #[inline(always)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

pub const NKEYS: usize = 64;
/// The hash of each key.
pub static HASHES: Cell<[u64; NKEYS]> = Cell::new([0; NKEYS]);
pub const NSERIAL: usize = 768;
/// How many times each key or value object was dropped / is alive.
pub static LIVE: Cell<[u8; NSERIAL]> = Cell::new([0; NSERIAL]);
pub static NEXT_SERIAL: Cell<[u32; 8]> = Cell::new([0; 8]);

/// The latest salt used (not in concurrent programs).
pub static SALTS: Cell<(u64, u64)> = Cell::new((0, 0));

/// The table of symbolic hashes, with a salt to tell hashers apart.
#[derive(Clone, Default)]
pub struct SymHasher(pub u64);
pub struct SymHash(u64, u64);
impl BuildHasher for SymHasher {
    type Hasher = SymHash;
    #[inline]
    fn build_hasher(&self) -> SymHash {
        if self.0 != 0 {
            *SALTS.get() = (self.0, 0);
        } else if SALTS.get().0 != 0 {
            // a hasher without the salt after one with it
            SALTS.get().1 = 1;
        }
        SymHash(0, self.0)
    }
}
impl Hasher for SymHash {
    #[inline]
    fn finish(&self) -> u64 {
        self.0 ^ self.1
    }
    fn write(&mut self, _: &[u8]) {
        fail(910)
    }
    #[inline]
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
    #[inline]
    fn write_u32(&mut self, x: u32) {
        self.0 = HASHES.get()[x as usize & (NKEYS - 1)];
    }
}

/// Accounting of one key or value object.
pub struct Token {
    pub serial: u32,
}
impl Token {
    #[inline(never)]
    pub fn new() -> Token {
        raw(|| {
            let t = unsafe { ffi::vp_thread_id() } as usize;
            let n = &mut NEXT_SERIAL.get()[t];
            if t > 3 || *n >= 128 && t != 0 {
                fail(911)
            }
            let serial = if t == 0 && *n >= 128 { *n + 128 * 3 } else { *n + 128 * t as u32 };
            *n += 1;
            if serial as usize >= NSERIAL {
                fail(911)
            }
            LIVE.get()[serial as usize] = 1;
            Token { serial }
        })
    }
    /// The object must not have been dropped.
    #[inline(never)]
    pub fn check(&self) {
        raw(|| {
            if LIVE.get()[self.serial as usize] != 1 {
                fail(401)
            }
        })
    }
}
impl Drop for Token {
    #[inline(never)]
    fn drop(&mut self) {
        raw(|| {
            let l = &mut LIVE.get()[self.serial as usize];
            // Dropped twice.
            if *l != 1 {
                fail(402)
            }
            *l = 2;
        })
    }
}
/// Every key and value object must have been dropped.
#[inline(never)]
pub fn check_all_dropped() {
    for i in 0..NSERIAL {
        if LIVE.get()[i] == 1 {
            fail(403)
        }
    }
}

/// Where user code panics: the place, and how many calls before.
pub static PANIC: Cell<[(u32, u32); 4]> = Cell::new([(0, 0); 4]);
/// That of the calling thread.
#[inline(always)]
pub fn armed() -> &'static mut (u32, u32) {
    &mut PANIC.get()[unsafe { ffi::vp_thread_id() } as usize & 3]
}
pub const P_CLOSURE: u32 = 1;
pub const P_CLOSURE2: u32 = 2;
pub const P_EQ: u32 = 3;
pub const P_HASH: u32 = 4;
pub const P_QHASH: u32 = 5;
pub const P_QEQ: u32 = 6;
pub const P_CLONE: u32 = 7;
/// Instead of a panic `NESTED` is called.
pub const P_NEST: u32 = 16;
pub static NESTED: Cell<fn()> = Cell::new(|| ());
#[inline(always)]
pub fn user_code(place: u32) {
    if armed().0 & 15 == place {
        hook_now()
    }
}
#[inline(never)]
fn hook_now() {
    let p = armed();
    if p.1 == 0 {
        let nest = p.0 & P_NEST != 0;
        p.0 = 0;
        if nest {
            return (NESTED.get())();
        }
        std::panic::resume_unwind(Box::new(7u32));
    }
    p.1 -= 1;
}

pub struct Key {
    pub id: u32,
    pub tok: Token,
}
pub struct Val {
    pub v: u32,
    pub tok: Token,
}
impl Key {
    #[inline(always)]
    pub fn new(id: u64) -> Key {
        Key { id: id as u32, tok: Token::new() }
    }
}
impl Val {
    #[inline(always)]
    pub fn new(v: u64) -> Val {
        Val { v: v as u32, tok: Token::new() }
    }
}
impl PartialEq for Key {
    #[inline]
    fn eq(&self, o: &Key) -> bool {
        user_code(P_EQ);
        self.id == o.id
    }
}
impl Eq for Key {}
impl Hash for Key {
    #[inline]
    fn hash<H: Hasher>(&self, h: &mut H) {
        user_code(P_HASH);
        h.write_u64(HASHES.get()[self.id as usize & (NKEYS - 1)])
    }
}
impl Clone for Key {
    fn clone(&self) -> Key {
        self.tok.check();
        user_code(P_CLONE);
        Key::new(self.id as u64)
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        self.tok.check();
        user_code(P_CLONE);
        Val::new(self.v as u64)
    }
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        self.tok.check();
        self.v == o.v
    }
}
/// A borrowed form of a key, for lookups.
#[derive(Clone, Copy)]
pub struct Q(pub u64);
impl Hash for Q {
    #[inline]
    fn hash<H: Hasher>(&self, h: &mut H) {
        user_code(P_QHASH);
        h.write_u64(HASHES.get()[self.0 as usize & (NKEYS - 1)])
    }
}
impl papaya::Equivalent<Key> for Q {
    #[inline]
    fn equivalent(&self, k: &Key) -> bool {
        user_code(P_QEQ);
        self.0 as u32 == k.id
    }
}
