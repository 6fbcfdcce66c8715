//! HashSet: programs of one thread and of several.
use crate::conc::{hashes, H};
use crate::rt::*;
use crate::seq::{pick, Acc, ALLACC};
use papaya::{Guard, HashSet, HashSetRef, ResizeMode};

pub type Set = HashSet<Key, SymHasher>;

#[derive(Clone, Copy, PartialEq)]
pub enum S {
    Nop,
    Ins(u8),
    Rem(u8),
    Has(u8),
    Get(u8),
    Clear,
    /// Remove this key.
    RetainNot(u8),
    Iter,
    IntoIter,
    Reserve(u8),
    Len,
    Fill(u8, u8),
    Drain(u8, u8),
}
use S::*;

fn new_set(chunk: usize, cap: usize) -> Set {
    let mode = if chunk == 0 { ResizeMode::Blocking } else { ResizeMode::Incremental(chunk) };
    let b = HashSet::builder().hasher(SymHasher(0)).resize_mode(mode);
    let b = if cap == 0 { b } else { b.capacity(cap) };
    b.build()
}

/// In the results of iterations: the keys seen again.
const TWICE: u64 = 1 << 32;

/// The result as a number; iterations return the set of keys seen.
macro_rules! set_body {
    ($s:ident, $op:ident, $iter:expr, $retain:expr $(, $gi:ident)?) => {
        match $op {
            Nop => 0,
            Ins(k) => $s.insert(Key::new(k as u64) $(, $gi)?) as u64,
            Rem(k) => $s.remove(&Q(k as u64) $(, $gi)?) as u64,
            Has(k) => $s.contains(&Q(k as u64) $(, $gi)?) as u64,
            Get(k) => $s.get(&Q(k as u64) $(, $gi)?).map_or(0, |x| {
                x.tok.check();
                check(x.id == k as u32, 10);
                1
            }),
            Clear => {
                $s.clear($($gi)?);
                0
            }
            RetainNot(k) => {
                #[allow(unused_mut)]
                let mut f = |x: &Key| {
                    x.tok.check();
                    x.id != k as u32
                };
                $retain(&mut f);
                0
            }
            Iter => {
                let mut seen = 0u64;
                for x in $s.iter($($gi)?) {
                    x.tok.check();
                    check(x.id < 32, 16);
                    seen |= TWICE * (seen >> x.id & 1) << x.id | 1 << x.id;
                }
                seen
            }
            IntoIter => {
                let mut seen = 0u64;
                for x in $iter {
                    x.tok.check();
                    check(x.id < 32, 16);
                    seen |= TWICE * (seen >> x.id & 1) << x.id | 1 << x.id;
                }
                seen
            }
            Reserve(n) => {
                $s.reserve(n as usize $(, $gi)?);
                0
            }
            Len => {
                let n = $s.len() as u64;
                check($s.is_empty() == (n == 0), 702);
                n
            }
            Fill(a, b) => {
                for k in a..=b {
                    $s.insert(Key::new(k as u64) $(, $gi)?);
                }
                0
            }
            Drain(a, b) => {
                for k in a..=b {
                    $s.remove(&Q(k as u64) $(, $gi)?);
                }
                0
            }
        }
    };
}

#[inline(never)]
pub fn exec_set<G: Guard>(s: &Set, g: &G, op: S) -> u64 {
    // HashSet::retain takes the set by mutable reference, which the guard excludes
    set_body!(s, op, s.iter(g), |f: &mut dyn FnMut(&Key) -> bool| s.pin().retain(f), g)
}
#[inline(never)]
fn exec_set_pin<'s, G: Guard>(s: &mut HashSetRef<'s, Key, SymHasher, G>, op: S) -> u64 {
    set_body!(s, op, &*s, |f: &mut dyn FnMut(&Key) -> bool| s.retain(f))
}

fn on(s: &Set, acc: Acc, op: S) -> u64 {
    match acc {
        Acc::Guard => exec_set(s, &s.guard(), op),
        Acc::Owned => exec_set(s, &s.owned_guard(), op),
        Acc::Pin => exec_set_pin(&mut s.pin(), op),
        Acc::PinOwned => exec_set_pin(&mut s.pin_owned(), op),
    }
}

/// The expected result and the next set; `None` for the result: not looked at.
pub fn model(op: S, m: u64) -> (u64, u64) {
    match op {
        Nop | Reserve(_) => (0, m),
        Ins(k) => ((m >> k & 1) ^ 1, m | 1 << k),
        Rem(k) => (m >> k & 1, m & !(1 << k)),
        Has(k) | Get(k) => (m >> k & 1, m),
        Clear => (0, 0),
        RetainNot(k) => (0, m & !(1 << k)),
        Iter | IntoIter => (m, m),
        Len => (m.count_ones() as u64, m),
        Fill(a, b) => (0, (a..=b).fold(m, |m, k| m | 1 << k)),
        Drain(a, b) => (0, (a..=b).fold(m, |m, k| m & !(1 << k))),
    }
}

fn code(op: S) -> u32 {
    match op {
        Len => 701,
        Iter | IntoIter => 801,
        _ => 501,
    }
}

#[inline(never)]
fn step(s: &Set, acc: Acc, op: S, m: &mut u64) {
    let x = on(s, acc, op);
    let (want, next) = model(op, *m);
    check(x == want, code(op));
    *m = next;
}

struct Prog {
    chunk: &'static [usize],
    cap: &'static [usize],
    h: &'static [H],
    setup: &'static [S],
    steps: &'static [&'static [S]],
    acc: &'static [Acc],
    keys: u8,
}

fn run_prog(p: &'static Prog) {
    hashes(p.h);
    unsafe { ffi::vp_leak_start() };
    let set = new_set(pick(p.chunk), pick(p.cap));
    let acc = pick(p.acc);
    let mut m = 0;
    for op in p.setup {
        step(&set, acc, *op, &mut m);
    }
    for s in p.steps {
        step(&set, acc, pick(s), &mut m);
    }
    for k in 1..=p.keys {
        step(&set, Acc::Guard, Has(k), &mut m);
        step(&set, Acc::Guard, Get(k), &mut m);
    }
    step(&set, Acc::Guard, Len, &mut m);
    step(&set, Acc::Guard, Iter, &mut m);
    drop(set);
    check_all_dropped();
    unsafe { ffi::vp_leak_check(404) };
    reach(1);
}

macro_rules! sprog {
    ($($name:ident { $($body:tt)* })*) => {
        $(#[no_mangle]
        pub extern "C" fn $name() {
            static P: Prog = Prog { $($body)* };
            run_prog(&P)
        })*
    };
}
const ALL: &[S] = &[
    Ins(1), Ins(2), Rem(1), Rem(2), Has(1), Get(1), Clear, RetainNot(1), Iter, IntoIter, Reserve(7), Len,
];
const HP: &[H] = &[H::Of(&[0, 1, 7]), H::Of(&[0, 1])];
const MID: &[S] = &[Ins(1), Ins(2), Fill(3, 8), Drain(3, 8), Ins(9)];
sprog! {
    s_any { chunk: &[0, 1], cap: &[4], h: &[H::Any, H::Any], setup: &[Ins(1)], steps: &[ALL, ALL], acc: &[Acc::Guard], keys: 2 }
    s_acc { chunk: &[1], cap: &[0, 4], h: HP, setup: &[], steps: &[ALL, ALL, &[Ins(1), Has(1), Iter, Len]], acc: ALLACC, keys: 2 }
    s_mid { chunk: &[1, 3], cap: &[4], h: &[H::Alt(&[0, 7], 100), H::Fix(1, 101)], setup: MID, steps: &[ALL, ALL, ALL], acc: &[Acc::Guard, Acc::Pin], keys: 9 }
    s_grow { chunk: &[0, 1, 64], cap: &[0, 3, 6], h: &[H::Of(&[0, 7])], setup: &[Fill(2, 9)], steps: &[&[Fill(1, 14)], &[Drain(1, 12), Drain(5, 14), Clear], ALL, &[Fill(3, 20)]], acc: &[Acc::Guard], keys: 20 }
}

// ---------------------------------------------------------------- concurrent

struct Scn {
    chunk: usize,
    cap: usize,
    h: &'static [H],
    setup: &'static [S],
    thr: &'static [&'static [&'static [S]]],
    keys: u8,
    pin: bool,
}
const PER: usize = 2;
const NREC: usize = 8;
#[derive(Clone, Copy)]
struct Rec {
    op: S,
    pre: u32,
    res: u64,
}
static HIST: Cell<[Rec; NREC]> = Cell::new([Rec { op: Nop, pre: 0, res: 0 }; NREC]);
static DONE: Cell<[bool; NREC]> = Cell::new([false; NREC]);
static SCN: Cell<Option<&'static Scn>> = Cell::new(None);
static SET: Cell<*const Set> = Cell::new(std::ptr::null());

extern "C" fn thread(arg: *mut u8) {
    let t = arg as usize;
    let scn = SCN.get().unwrap();
    let set: &Set = unsafe { &**SET.get() };
    for s in 0..scn.thr[t].len() {
        let i = t * PER + s;
        unsafe { ffi::vp_invoke() };
        let op = pick(scn.thr[t][s]);
        raw(|| {
            let mut pre = 0;
            for (k, d) in DONE.get().iter().enumerate() {
                pre |= (*d as u32) << k;
            }
            let h = &mut HIST.get()[i];
            h.op = op;
            h.pre = pre;
        });
        let x = on(set, if scn.pin { Acc::Pin } else { Acc::Guard }, op);
        raw(|| {
            HIST.get()[i].res = x;
            DONE.get()[i] = true;
        });
    }
}

/// Linearizability of one key.
fn lin(k: u8, todo: u32, s: u64, end: u64) -> bool {
    if todo == 0 {
        return s == end;
    }
    let h = HIST.get();
    let mut left = todo;
    while left != 0 {
        let i = left.trailing_zeros() as usize;
        left &= left - 1;
        if h[i].pre & todo != 0 {
            continue;
        }
        let bit = 1 << k;
        let (want, next) = match h[i].op {
            Iter | IntoIter => (h[i].res & bit, s),
            op => (h[i].res, model(op, s).1 & bit),
        };
        let ok = match h[i].op {
            Iter | IntoIter => want == s,
            op => want == model(op, s).0,
        };
        if ok && lin(k, todo & !(1 << i), next, end) {
            return true;
        }
        if matches!(h[i].op, Clear | RetainNot(_)) && next != s && lin(k, todo, next, end) {
            return true;
        }
    }
    false
}
fn touches(op: S, k: u8) -> bool {
    match op {
        Nop | Reserve(_) | Len => false,
        Clear | Iter | IntoIter => true,
        Ins(x) | Rem(x) | Has(x) | Get(x) | RetainNot(x) => x == k,
        Fill(a, b) | Drain(a, b) => a <= k && k <= b,
    }
}

fn run_conc(scn: &'static Scn) {
    *SCN.get() = Some(scn);
    hashes(scn.h);
    unsafe { ffi::vp_leak_start() };
    let set = new_set(scn.chunk, scn.cap);
    *SET.get() = &set;
    let mut m = 0;
    for op in scn.setup {
        step(&set, Acc::Guard, *op, &mut m);
    }
    for t in 0..scn.thr.len() {
        unsafe { ffi::vp_spawn(thread, t as *mut u8) };
    }
    unsafe { ffi::vp_join_all() };
    let mut now = 0;
    for k in 1..=scn.keys {
        now |= on(&set, Acc::Guard, Has(k)) << k;
    }
    check(on(&set, Acc::Guard, Len) == now.count_ones() as u64, 701);
    check(on(&set, Acc::Guard, Iter) == now, 801);
    for k in 1..=scn.keys {
        let mut todo = 0u32;
        let mut twice = false;
        let mut removed = false;
        for i in 0..NREC {
            let h = &HIST.get()[i];
            if touches(h.op, k) {
                todo |= 1 << i;
                removed |= matches!(h.op, Rem(_) | Clear | RetainNot(_) | Drain(..));
                twice |= matches!(h.op, Iter | IntoIter) && h.res & TWICE << k != 0;
            }
        }
        // An iteration may see a key again only if it was removed in between.
        check(!twice || removed, 17);
        check(lin(k, todo, m & 1 << k, now & 1 << k), 101);
    }
    drop(set);
    check_all_dropped();
    unsafe { ffi::vp_leak_check(404) };
    reach(1);
}

macro_rules! sscn {
    ($($name:ident { $($body:tt)* })*) => {
        $(#[no_mangle]
        pub extern "C" fn $name() {
            static S: Scn = Scn { $($body)* };
            run_conc(&S)
        })*
    };
}
const CO: &[S] = &[Ins(1), Rem(1), Has(1), Get(1), Clear, RetainNot(1), Iter];
const HH: &[H] = &[H::At(0), H::Of(&[0, 1])];
sscn! {
    sc_one { chunk: 0, cap: 4, h: HH, setup: &[Ins(1)], thr: &[&[CO], &[CO, &[Ins(1), Has(1), Rem(2), Ins(2)]]], keys: 2, pin: false }
    sc_pin { chunk: 1, cap: 0, h: HH, setup: &[], thr: &[&[CO], &[CO, &[Ins(1), Has(1), Rem(2), Ins(2)]]], keys: 2, pin: true }
    sc_mid { chunk: 1, cap: 4, h: &[H::Alt(&[0, 7], 100), H::Fix(1, 101)], setup: MID, thr: &[&[CO], &[&[Ins(1), Rem(1), Ins(10), Rem(2)]]], keys: 10, pin: false }
    sc_tb { chunk: 0, cap: 4, h: &[H::Alt(&[0, 7], 100), H::Fix(1, 101)], setup: &[Ins(1), Ins(2), Fill(3, 8), Drain(3, 8)], thr: &[&[&[Ins(9)]], &[CO]], keys: 9, pin: false }
}
