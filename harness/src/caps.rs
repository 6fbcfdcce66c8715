//! Capacities: the tables allocated for a request, and how much fits into them.
use crate::conc::{Op::*, *};
use crate::rt::*;
use crate::seq::{pick, same, step, Acc, Model};
use crate::set::Set;
use papaya::{HashMap, HashSet, ResizeMode};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A table for n entries cannot be smaller: a pointer and a byte for each slot.
fn least(n: u64) -> u64 {
    n.saturating_mul(9)
}
fn tables() -> u32 {
    *ZEROED.get()
}
fn size() -> u64 {
    *ZEROED_SIZE.get() as u64
}
const LIMIT: u64 = 1 << 14;

/// Any capacity: a large enough table, a panic, or the end of memory.
#[no_mangle]
pub extern "C" fn k_build() {
    hashes(&[]);
    unsafe { ffi::vp_alloc_limit(LIMIT) };
    let n = sym(64);
    unsafe { ffi::vp_allow_abort(n >= LIMIT / 64) };
    let how = choose(14);
    let r = catch_unwind(|| match how {
        0 => drop(std::hint::black_box(HashMap::<Key, Val, SymHasher>::with_capacity_and_hasher(n as usize, SymHasher(0)))),
        1 => drop(std::hint::black_box(HashMap::<Key, Val>::builder().hasher(SymHasher(0)).capacity(n as usize).build())),
        2 => drop(std::hint::black_box(HashSet::<Key, SymHasher>::with_capacity_and_hasher(n as usize, SymHasher(0)))),
        3 => drop(std::hint::black_box(HashSet::<Key>::builder().hasher(SymHasher(0)).capacity(n as usize).build())),
        4 => drop(std::hint::black_box(HashMap::<Key, Val>::builder().hasher(SymHasher(0)).resize_mode(ResizeMode::Blocking).capacity(n as usize).build())),
        5 => drop(std::hint::black_box(HashSet::<Key>::builder().hasher(SymHasher(0)).resize_mode(ResizeMode::Blocking).capacity(n as usize).build())),
        6 => drop(std::hint::black_box(HashMap::<Key, Val>::with_capacity(n as usize))),
        7 => drop(std::hint::black_box(HashSet::<Key>::with_capacity(n as usize))),
        8 => drop(std::hint::black_box(HashMap::<Key, Val>::builder().capacity(n as usize).hasher(SymHasher(0)).build())),
        9 => drop(std::hint::black_box(HashSet::<Key>::builder().capacity(n as usize).hasher(SymHasher(0)).build())),
        10 => drop(std::hint::black_box(HashMap::<Key, Val>::builder().capacity(n as usize).collector(seize::Collector::new()).build())),
        11 => drop(std::hint::black_box(HashSet::<Key>::builder().capacity(n as usize).collector(seize::Collector::new()).build())),
        12 => drop(std::hint::black_box(HashMap::<Key, Val>::builder().capacity(n as usize).resize_mode(ResizeMode::Incremental(3)).build())),
        _ => drop(std::hint::black_box(HashSet::<Key>::builder().capacity(n as usize).resize_mode(ResizeMode::Incremental(3)).build())),
    });
    match r {
        Ok(()) => check(n == 0 || tables() == 1 && size() >= least(n), 41),
        // representable sizes are never refused
        Err(_) => check(n > 1 << 56, 42),
    }
    reach(1);
}

/// Any number of additional entries in a map with some.
#[no_mangle]
pub extern "C" fn k_reserve() {
    hashes(&[]);
    unsafe { ffi::vp_alloc_limit(LIMIT) };
    let map = new_map(pick(&[0, 1, 64]), pick(&[0, 1, 12]));
    let mut m: Model = [0; NK];
    let k = pick(&[0, 1, 6]);
    if k > 0 {
        step(&map, Acc::Guard, Fill(1, k), &mut m, 501);
    }
    let n = sym(64);
    unsafe { ffi::vp_allow_abort(n >= LIMIT / 64) };
    let r = catch_unwind(AssertUnwindSafe(|| {
        if choose(2) == 0 {
            map.reserve(n as usize, &map.guard())
        } else {
            map.pin_owned().reserve(n as usize)
        }
    }));
    match r {
        Ok(()) => check(n == 0 || size() >= least(n.saturating_add(k as u64)), 41),
        Err(_) => check(n > 1 << 56, 42),
    }
    same(&map, 6, &m);
    reach(1);
}
#[no_mangle]
pub extern "C" fn k_sreserve() {
    hashes(&[]);
    unsafe { ffi::vp_alloc_limit(LIMIT) };
    let b = HashSet::<Key>::builder().hasher(SymHasher(0)).resize_mode(if choose(2) == 0 { ResizeMode::Blocking } else { ResizeMode::Incremental(1) });
    let set: Set = if choose(2) == 0 { b.build() } else { b.capacity(1).build() };
    let k = pick(&[0, 1, 6]);
    for i in 0..k {
        set.pin().insert(Key::new(1 + i));
    }
    let n = sym(64);
    unsafe { ffi::vp_allow_abort(n >= LIMIT / 64) };
    let r = catch_unwind(AssertUnwindSafe(|| {
        if choose(2) == 0 {
            set.reserve(n as usize, &set.guard())
        } else {
            set.pin_owned().reserve(n as usize)
        }
    }));
    match r {
        Ok(()) => check(n == 0 || size() >= least(n.saturating_add(k)), 41),
        Err(_) => check(n > 1 << 56, 42),
    }
    check(set.len() as u64 == k, 701);
    reach(1);
}

/// The requested number of entries fits without another allocation.
#[no_mangle]
pub extern "C" fn k_fit() {
    hashes(&[]);
    unsafe { ffi::vp_leak_start() };
    let n = 1 + concrete(choose(60)) as u8;
    let chunk = pick(&[0, 1, 64]);
    let map = match choose(3) {
        0 => new_map(chunk, n as usize),
        1 => {
            let map = new_map(chunk, 0);
            map.pin().reserve(n as usize);
            map
        }
        _ => HashMap::with_capacity_and_hasher(n as usize, SymHasher(0)),
    };
    check(tables() == 1, 43);
    let mut m: Model = [0; NK];
    step(&map, Acc::Guard, Fill(1, n), &mut m, 501);
    check(tables() == 1, 44);
    same(&map, n, &m);
    drop(map);
    check_all_dropped();
    unsafe { ffi::vp_leak_check(404) };
    reach(1);
}
/// ... in a set
#[no_mangle]
pub extern "C" fn k_sfit() {
    hashes(&[]);
    unsafe { ffi::vp_leak_start() };
    let n = 1 + concrete(choose(40));
    let mode = || if choose(2) == 0 { ResizeMode::Blocking } else { ResizeMode::Incremental(1) };
    let set: Set = match choose(4) {
        0 => HashSet::builder().hasher(SymHasher(0)).resize_mode(mode()).capacity(n as usize).build(),
        1 => {
            let set = HashSet::builder().hasher(SymHasher(0)).resize_mode(mode()).build();
            set.pin().reserve(n as usize);
            set
        }
        2 => {
            let set = HashSet::default();
            set.reserve(n as usize, &set.owned_guard());
            set
        }
        _ => HashSet::with_capacity_and_hasher(n as usize, SymHasher(0)),
    };
    check(tables() == 1, 43);
    for k in 1..=n {
        check(set.pin().insert(Key::new(k)), 501);
    }
    check(tables() == 1, 44);
    check(set.len() as u64 == n && set.pin().iter().count() as u64 == n, 701);
    drop(set);
    check_all_dropped();
    unsafe { ffi::vp_leak_check(404) };
    reach(1);
}
/// Maps and sets of numbers, however they are made (with the standard hasher, whose
/// keys are constants here).
#[no_mangle]
pub extern "C" fn k_new() {
    let n = 1 + concrete(choose(24));
    let map: HashMap<u64, u64> = match choose(4) {
        0 => HashMap::new(),
        1 => HashMap::default(),
        2 => HashMap::with_capacity(n as usize),
        _ => HashMap::builder().capacity(n as usize).build(),
    };
    let set: HashSet<u64> = match choose(4) {
        0 => HashSet::new(),
        1 => HashSet::default(),
        2 => HashSet::with_capacity(n as usize),
        _ => HashSet::builder().capacity(n as usize).build(),
    };
    check(map.is_empty() && set.is_empty() && map.pin().get(&1).is_none() && !set.pin().contains(&1), 501);
    for k in 1..=n {
        check(map.pin().insert(k, k + 50).is_none() && set.pin().insert(k), 501);
    }
    for k in 0..=n + 1 {
        let there = k >= 1 && k <= n;
        check(map.pin().get(&k).copied() == if there { Some(k + 50) } else { None }, 502);
        check(set.pin().contains(&k) == there, 502);
    }
    check(map.len() as u64 == n && set.len() as u64 == n, 701);
    reach(1);
}
/// ... however the few keys collide
#[no_mangle]
pub extern "C" fn k_fitany() {
    hashes(&[H::Any, H::Any, H::Fix(0, 1), H::Fix(0, 2), H::Of(&[0, 7]), H::Fix(7, 4)]);
    let n = 1 + concrete(choose(6)) as u8;
    let map = new_map(pick(&[0, 1]), n as usize);
    let mut m: Model = [0; NK];
    step(&map, Acc::Guard, Fill(1, n), &mut m, 501);
    check(tables() == 1, 44);
    same(&map, n, &m);
    reach(1);
}
/// ... and after reserving in a map with entries
#[no_mangle]
pub extern "C" fn k_refit() {
    hashes(&[]);
    unsafe { ffi::vp_leak_start() };
    let map = new_map(pick(&[0, 1, 64]), pick(&[0, 1, 12]));
    let mut m: Model = [0; NK];
    let k = pick(&[1, 6, 9]);
    step(&map, Acc::Guard, Fill(1, k), &mut m, 501);
    // (slots of removed entries are not used again: none here)
    let n = 1 + concrete(choose(40)) as u8;
    map.pin().reserve(n as usize);
    let t = tables();
    step(&map, Acc::Guard, Fill(k + 1, k + n), &mut m, 501);
    check(tables() == t, 44);
    same(&map, k + n, &m);
    drop(map);
    check_all_dropped();
    unsafe { ffi::vp_leak_check(404) };
    reach(1);
}
/// The table never shrinks below the first one.
#[no_mangle]
pub extern "C" fn k_shrink() {
    // the fillers collide, so that resizes are frequent
    hashes(&[H::Fix(0, 1); 12]);
    unsafe { ffi::vp_leak_start() };
    let cap = pick(&[1, 5, 7, 12, 20, 30]);
    let map = new_map(pick(&[0, 1, 64]), cap);
    let (first, t) = (size(), tables());
    let mut m: Model = [0; NK];
    const A: &[Op] = &[Churn(1, 40), Fill(1, 12), Fill(13, 40), Fill(2, 9)];
    const B: &[Op] = &[Clear, Drain(1, 40), Drain(2, 40), Nop];
    const C: &[Op] = &[Churn(1, 70), Churn(13, 90), Fill(1, 5), Churn(50, 20)];
    for l in [A, B, C, B] {
        let z = tables();
        step(&map, Acc::Guard, pick(l), &mut m, 501);
        check(tables() == z || size() >= first, 45);
    }
    check(t == 1, 43);
    same(&map, 60, &m);
    drop(map);
    check_all_dropped();
    unsafe { ffi::vp_leak_check(404) };
    reach(1);
}
