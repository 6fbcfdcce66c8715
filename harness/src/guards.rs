//! Which guards the operations accept.
use crate::conc::{Op::*, *};
use crate::rt::*;
use crate::seq::{pick, same, Model};
use crate::set::{exec_set, Set, S};
use papaya::{Guard, HashMap, HashSet, ResizeMode};
use seize::Collector;
use std::panic::{catch_unwind, AssertUnwindSafe};

const OPS: &[Op] = &[
    Get(1), Contains(1), GetKv(1), Insert(1, 1), TryInsert(1, 2), TryInsertWith(1, 3), GetOrInsert(1, 4), GetOrInsertWith(1, 5),
    Update(1, 6), UpdateOrInsert(1, 7, 1), UpdateOrInsertWith(1, 1, 2), ComputeUp(1, 3), ComputeDel(1), ComputeDelIf(1, 9),
    ComputeAbort(1), Remove(1), RemoveEntry(1), RemoveIf(1, 9), Clear, RetainNot(9), Iter, Keys, Vals, Reserve(7), Reserve(30),
    // a key that is not there
    Get(4), Insert(4, 1), Update(4, 1), Remove(4), RemoveIf(4, 9), ComputeDel(4), TryInsertWith(4, 1),
];

/// True if the operation panicked.
#[inline(never)]
fn refused<G: Guard>(map: &Map, g: &G, op: Op) -> bool {
    let mut r = Refs::new();
    catch_unwind(AssertUnwindSafe(|| {
        exec(map, g, op, &mut r, ITER);
    }))
    .is_err()
}

fn state(map: &Map, st: u64, m: &mut Model) {
    let setup: &[Op] = match st {
        0 => &[],
        1 => &[Insert(1, 9), Insert(2, 9)],
        2 => &[Insert(1, 9), Insert(2, 9), Fill(3, 8), Drain(3, 8), Fill(9, 9)],
        _ => &[Insert(1, 9), Remove(1)],
    };
    for op in setup {
        crate::seq::step(map, crate::seq::Acc::Guard, *op, m, 501);
    }
}

fn new_map2(cap: usize, c: Collector) -> Map {
    let b = HashMap::builder().collector(c).hasher(SymHasher(0)).resize_mode(ResizeMode::Incremental(1));
    if cap == 0 { b.build() } else { b.capacity(cap).build() }
}

/// Every operation with every kind of guard in every state.
#[no_mangle]
pub extern "C" fn g_map() {
    hashes(&[H::Fix(0, 3), H::Of(&[0, 1])]);
    unsafe { ffi::vp_leak_start() };
    let st = choose(4);
    let map = new_map2(pick(&[0, 4]), Collector::new());
    let mut m: Model = [0; NK];
    state(&map, st, &mut m);
    let other = new_map2(0, Collector::new());
    let op = pick(OPS);
    let (mine, panicked) = match choose(6) {
        0 => (true, refused(&map, &map.guard(), op)),
        1 => (true, refused(&map, &map.owned_guard(), op)),
        2 => {
            let g = map.guard();
            let x = g.collector().enter();
            let p = refused(&map, &x, op);
            (true, p)
        }
        3 => (false, refused(&map, &other.guard(), op)),
        4 => (false, refused(&map, &other.owned_guard(), op)),
        _ => {
            let c = Collector::new();
            let x = c.enter();
            let p = refused(&map, &x, op);
            (false, p)
        }
    };
    check(panicked != mine, 31);
    if panicked {
        // nothing has changed
        same(&map, 9, &m);
    }
    check(other.len() == 0, 32);
    drop(other);
    drop(map);
    check_all_dropped();
    reach(1);
}
const SOPS: &[S] = &[
    S::Ins(1), S::Rem(1), S::Has(1), S::Get(1), S::Clear, S::Iter, S::Reserve(7), S::Reserve(30), S::Ins(4), S::Rem(4), S::Has(4), S::Get(4),
];
fn new_set2(cap: usize, c: Collector) -> Set {
    let b = HashSet::builder().collector(c).hasher(SymHasher(0)).resize_mode(ResizeMode::Incremental(1));
    if cap == 0 { b.build() } else { b.capacity(cap).build() }
}
#[inline(never)]
fn refused_set<G: Guard>(s: &Set, g: &G, op: S) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        exec_set(s, g, op);
    }))
    .is_err()
}
#[no_mangle]
pub extern "C" fn g_set() {
    hashes(&[H::Fix(0, 3), H::Of(&[0, 1])]);
    let set = new_set2(pick(&[0, 4]), Collector::new());
    let mut m = 0u64;
    if choose(2) == 1 {
        for k in 1..=if choose(2) == 0 { 2 } else { 9 } {
            set.pin().insert(Key::new(k));
            m |= 1 << k;
        }
    }
    let other = new_set2(0, Collector::new());
    let op = pick(SOPS);
    let (mine, panicked) = match choose(6) {
        0 => (true, refused_set(&set, &set.guard(), op)),
        1 => (true, refused_set(&set, &set.owned_guard(), op)),
        2 => {
            let g = set.guard();
            let x = g.collector().enter();
            let p = refused_set(&set, &x, op);
            (true, p)
        }
        3 => (false, refused_set(&set, &other.guard(), op)),
        4 => (false, refused_set(&set, &other.owned_guard(), op)),
        _ => {
            let c = Collector::new();
            let x = c.enter();
            let p = refused_set(&set, &x, op);
            (false, p)
        }
    };
    check(panicked != mine, 31);
    if panicked {
        check(exec_set(&set, &set.guard(), S::Iter) == m, 33);
        check(set.len() == m.count_ones() as usize, 33);
    }
    check(other.len() == 0, 32);
    drop(other);
    drop(set);
    check_all_dropped();
    reach(1);
}

/// Comparing, copying and formatting maps of different collectors, and the
/// accessors of the pinned maps.
#[no_mangle]
pub extern "C" fn g_two() {
    hashes(&[H::Fix(0, 3), H::Of(&[0, 1])]);
    let a = new_map2(pick(&[0, 4]), Collector::new());
    let b = new_map2(pick(&[0, 4]), Collector::new());
    a.pin().insert(Key::new(1), Val::new(1));
    if choose(2) == 0 {
        b.pin_owned().insert(Key::new(1), Val::new(1));
        check(a == b && b == a, 34);
    }
    let c = a.clone();
    check(a == c && c == a, 34);
    // the clone has a collector of its own
    check(refused(&a, &c.guard(), Get(1)) && refused(&c, &a.guard(), Get(1)), 31);
    check(!refused(&a, &a.guard(), Get(1)) && !refused(&c, &c.guard(), Get(1)), 31);
    drop((a, b, c));
    check_all_dropped();
    reach(1);
}
