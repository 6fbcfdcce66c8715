//! Which of several equal keys is the one in the map.
use crate::conc::{Op::*, *};
use crate::rt::*;
use crate::seq::{pick, step, Acc, Model};
use crate::set::Set;
use papaya::{HashSet, ResizeMode};

fn serial(map: &Map, k: u64) -> u32 {
    map.pin().get_key_value(&Q(k)).map_or(u32::MAX, |(k, _)| k.tok.serial)
}
fn states(map: &Map, m: &mut Model) {
    let s: &[Op] = match choose(3) {
        0 => &[Insert(1, 9)],
        1 => &[Insert(1, 9), Insert(2, 9), Remove(2)],
        _ => &[Insert(1, 9), Insert(2, 9), Fill(3, 8), Drain(3, 8), Fill(9, 9)],
    };
    for op in s {
        step(map, Acc::Guard, *op, m, 501);
    }
}
const HK: &[H] = &[H::Alt(&[0, 7], 3), H::Of(&[0, 1])];

/// insert keeps the key.
#[no_mangle]
pub extern "C" fn i_insert() {
    hashes(HK);
    let map = new_map(pick(&[0, 1]), pick(&[0, 4]));
    let mut m: Model = [0; NK];
    states(&map, &mut m);
    let s = serial(&map, 1);
    step(&map, pick(crate::seq::ALLACC), Insert(1, 5), &mut m, 501);
    check(serial(&map, 1) == s, 61);
    reach(1);
}
/// ... and is replaced otherwise (what a listed finding hides is checked here)
#[no_mangle]
pub extern "C" fn i_ins2() {
    hashes(HK);
    let map = new_map(pick(&[0, 1]), pick(&[0, 4]));
    let mut m: Model = [0; NK];
    states(&map, &mut m);
    let before = *NEXT_SERIAL.get();
    let s = serial(&map, 1);
    step(&map, pick(crate::seq::ALLACC), Insert(1, 5), &mut m, 501);
    // one key and one value were made: the key is the old or the new one
    let now = serial(&map, 1);
    check(now == s || now >= before[0] && now < before[0] + 2, 62);
    crate::seq::same(&map, 9, &m);
    drop(map);
    check_all_dropped();
    reach(1);
}
/// Operations that find the key and change nothing keep it.
#[no_mangle]
pub extern "C" fn i_try() {
    hashes(HK);
    let map = new_map(pick(&[0, 1]), pick(&[0, 4]));
    let mut m: Model = [0; NK];
    states(&map, &mut m);
    let s = serial(&map, 1);
    for acc in [pick(crate::seq::ALLACC), Acc::Guard] {
        let op = pick(&[
            TryInsert(1, 1), TryInsertWith(1, 1), GetOrInsert(1, 1), GetOrInsertWith(1, 1), ComputeAbort(1), ComputeDelIf(1, 77), RemoveIf(1, 77),
            Get(1), Insert(2, 1), Remove(2), Reserve(20), Fill(9, 10), RetainNot(55), Iter,
        ]);
        step(&map, acc, op, &mut m, 501);
        check(serial(&map, 1) == s, 61);
    }
    reach(1);
}
/// The set keeps the element.
#[no_mangle]
pub extern "C" fn i_set() {
    hashes(HK);
    let b = HashSet::<Key>::builder().hasher(SymHasher(0)).resize_mode(if choose(2) == 0 { ResizeMode::Blocking } else { ResizeMode::Incremental(1) });
    let set: Set = if choose(2) == 0 { b.build() } else { b.capacity(4).build() };
    let n = concrete(choose(9));
    for k in 1..=1 + n {
        set.pin().insert(Key::new(k));
    }
    if choose(2) == 0 {
        for k in 3..=1 + n {
            set.pin().remove(&Q(k));
        }
        set.pin().insert(Key::new(10));
    }
    let serial = || set.pin().get(&Q(1)).map_or(u32::MAX, |k| k.tok.serial);
    let s = serial();
    for _ in 0..2 {
        match choose(6) {
            0 => check(!set.insert(Key::new(1), &set.guard()), 64),
            1 => check(!set.pin_owned().insert(Key::new(1)), 64),
            2 => (&set).extend([Key::new(1), Key::new(2)]),
            3 => {
                set.pin().insert(Key::new(11));
            }
            4 => set.pin().reserve(20),
            _ => set.pin().retain(|k| k.id != 2),
        }
        check(serial() == s, 61);
    }
    drop(set);
    check_all_dropped();
    reach(1);
}
