//! Programs of one thread: symbolic operations on symbolic hashes, compared with
//! an ordinary map after every step.
use crate::conc::{Op::*, *};
use crate::rt::*;

/// How the map is accessed.
#[derive(Clone, Copy, PartialEq)]
pub enum Acc {
    Guard,
    Pin,
    Owned,
    PinOwned,
}
pub const ALLACC: &[Acc] = &[Acc::Guard, Acc::Pin, Acc::Owned, Acc::PinOwned];

#[derive(Clone, Copy)]
pub struct Prog {
    /// Alternatives for the chunk size (0: blocking resizes).
    pub chunk: &'static [usize],
    /// Alternatives for the capacity (0: allocated by the first insertion).
    pub cap: &'static [usize],
    pub h: &'static [H],
    pub setup: &'static [Op],
    pub steps: &'static [&'static [Op]],
    pub acc: &'static [Acc],
    pub keys: u8,
    /// Check the whole contents after every step.
    pub deep: bool,
}
pub const PROG: Prog =
    Prog { chunk: &[1], cap: &[4], h: &[H::Any, H::Any], setup: &[], steps: &[], acc: &[Acc::Guard], keys: 2, deep: false };

pub type Model = [u32; NK];

#[inline(always)]
pub fn pick<T: Copy>(l: &[T]) -> T {
    l[choose(l.len() as u64) as usize]
}

pub fn on(map: &Map, acc: Acc, op: Op) -> u64 {
    match acc {
        Acc::Guard => {
            let g = map.guard();
            let mut r = Refs::new();
            let x = exec(map, &g, op, &mut r, ITER);
            r.check();
            x
        }
        Acc::Owned => {
            let g = map.owned_guard();
            let mut r = Refs::new();
            let x = exec(map, &g, op, &mut r, ITER);
            r.check();
            x
        }
        Acc::Pin => {
            let p = map.pin();
            let mut r = Refs::new();
            let x = exec_pin(&p, op, &mut r, ITER);
            r.check();
            x
        }
        Acc::PinOwned => {
            let p = map.pin_owned();
            let mut r = Refs::new();
            let x = exec_pin(&p, op, &mut r, ITER);
            r.check();
            x
        }
    }
}

pub fn count(m: &Model) -> u64 {
    m.iter().filter(|x| **x != 0).count() as u64
}

/// Performs `op` and compares the result with the model's.
#[inline(never)]
pub fn step(map: &Map, acc: Acc, op: Op, m: &mut Model, code: u32) {
    let n = count(m);
    let res = on(map, acc, op);
    match op {
        Len => check(res == n, 701),
        Values => check(res == 2 * n, 803),
        Keys | Vals => check(res == n, 803),
        Fill(a, b) => (a..=b).for_each(|k| m[k as usize] = 101 + k as u32),
        Drain(a, b) => (a..=b).for_each(|k| m[k as usize] = 0),
        Churn(k, _) => m[k as usize] = 0,
        _ => {
            for k in 1..NK as u8 {
                if touches(op, k) {
                    match spec(op, k, m[k as usize], res, SEEN.get()[ITER][k as usize]) {
                        Some(s) => m[k as usize] = s,
                        None => fail(code),
                    }
                }
            }
        }
    }
}

/// The whole contents are those of the model.
#[inline(never)]
pub fn same(map: &Map, keys: u8, m: &Model) {
    let mut now = [0; NK];
    let other = count(m) - (1..=keys as usize).filter(|k| m[*k] != 0).count() as u64;
    quiescent(map, keys, &mut now, other);
    for k in 1..=keys as usize {
        check(now[k] == m[k], 502);
    }
}

pub fn run_prog(p: &'static Prog) {
    hashes(p.h);
    unsafe { ffi::vp_leak_start() };
    let map = new_map(pick(p.chunk), pick(p.cap));
    let acc = pick(p.acc);
    let mut m: Model = [0; NK];
    for op in p.setup {
        step(&map, acc, *op, &mut m, 501);
    }
    for s in p.steps {
        step(&map, acc, pick(s), &mut m, 501);
        if p.deep {
            same(&map, p.keys, &m);
        }
    }
    if !p.deep {
        same(&map, p.keys, &m);
    }
    drop(map);
    check_all_dropped();
    unsafe { ffi::vp_leak_check(404) };
    reach(1);
}

macro_rules! prog {
    ($($name:ident { $($body:tt)* })*) => {
        $(#[no_mangle]
        pub extern "C" fn $name() {
            static P: Prog = Prog { $($body)*, ..PROG };
            run_prog(&P)
        })*
    };
}
pub(crate) use prog;

const ALL: &[Op] = &[
    Get(1), Contains(1), GetKv(1), Insert(1, 1), TryInsert(1, 2), TryInsertWith(1, 3), GetOrInsert(1, 4), GetOrInsertWith(1, 5),
    Update(1, 6), UpdateOrInsert(1, 7, 1), UpdateOrInsertWith(1, 1, 2), ComputeUp(1, 3), ComputeDel(1), ComputeDelIf(1, 9),
    ComputeAbort(1), ComputeToggle(1, 3), ComputePick(1, 9), Remove(1), RemoveEntry(1), RemoveIf(1, 9), Clear, RetainNot(9), Iter, Values, Reserve(7), Len,
    Insert(2, 9), Remove(2), Update(2, 1), Get(2),
];
const WR: &[Op] = &[Insert(1, 1), Insert(2, 9), Insert(3, 9), Update(1, 1), ComputeDel(2), Remove(1), Remove(3), RetainNot(9)];
const W4: &[Op] = &[Insert(1, 1), Insert(2, 2), Remove(1), Update(2, 1)];
const H3: &[H] = &[H::Any, H::Any, H::Any];
/// One of each kind, the keys' positions symbolic.
const HP: &[H] = &[H::Of(&[0, 1, 7]), H::Of(&[0, 1])];
const ONE: &[Op] = &[Insert(1, 9)];
const BOTH: &[Op] = &[Insert(1, 9), Insert(2, 9)];
const MID: &[Op] = &[Insert(1, 9), Insert(2, 9), Fill(3, 8), Drain(3, 8), Fill(9, 9)];
const MIDF: &[Op] = &[Insert(1, 9), Insert(2, 9), Fill(3, 8), Fill(9, 9)];
const PRE: &[Op] = &[Insert(1, 9), Insert(2, 9), Fill(3, 8), Drain(4, 8)];
const NEST: &[Op] = &[Insert(1, 9), Insert(2, 9), Fill(3, 8), Drain(3, 8), Fill(9, 15)];
const GROW: &[Op] = &[Insert(9, 1), Fill(9, 12), Reserve(20), ComputeUp(9, 1), UpdateOrInsert(9, 1, 2)];
const H12: &[H] = &[H::Fix(0, 1); 12];
const SIX: &[Op] = &[Fill(1, 6)];
const CHURN: &[Op] = &[Churn(1, 3), Churn(2, 9), Fill(3, 5), Drain(3, 4), Clear, Insert(1, 1), Remove(1)];

prog! {
    // fully symbolic hashes
    q_two { h: &[H::Any, H::Any], setup: BOTH, steps: &[ALL, ALL], acc: &[Acc::Guard], deep: true }
    q_three { h: H3, steps: &[WR, WR, WR], keys: 3 }
    q_four { h: &[H::Any, H::Any], steps: &[W4, W4, W4, W4], deep: true }
    q_lazy { cap: &[0], h: &[H::Of(&[0, 31]), H::Of(&[0, 1])], steps: &[ALL, ALL] }
    // in the middle of resizes
    q_mid { chunk: &[1, 2, 8], h: HP, setup: MID, steps: &[ALL, ALL], keys: 9 }
    q_midf { chunk: &[1, 3, 64], h: HP, setup: MIDF, steps: &[ALL, ALL], keys: 9 }
    q_mid3 { chunk: &[1], h: &[H::Alt(&[0, 7], 100), H::Fix(1, 101)], setup: MID, steps: &[ALL, ALL, W4], keys: 9 }
    q_grow { chunk: &[0, 1, 2, 64], h: HP, setup: PRE, steps: &[GROW, ALL, ALL], keys: 9 }
    q_nest { chunk: &[1, 2], h: &[H::Alt(&[0, 7], 100), H::Fix(1, 101)], setup: NEST, steps: &[&[Insert(16, 1), ComputeUp(16, 1), Fill(16, 20)], ALL, ALL], keys: 16 }
    // colliding hashes across several resizes
    q_coll { chunk: &[0, 1, 3], cap: &[1, 6], h: H12, setup: SIX, steps: &[&[Fill(7, 12)], &[Drain(1, 9), Drain(3, 12), Clear], &[Fill(1, 10), Reserve(30)], CHURN, CHURN], keys: 12, deep: true }
    q_caps { chunk: &[0, 1, 64], cap: &[0, 1, 3, 5, 7, 12, 13], h: &[], steps: &[&[Fill(1, 20)], &[Drain(1, 17), Drain(3, 20), Clear], CHURN, &[Fill(1, 30), Reserve(3), Clear], CHURN], keys: 30 }
}
prog! {
    // the pinned maps and the owned guards
    q_acc0 { cap: &[0], h: HP, steps: &[ALL, ALL], acc: ALLACC }
    q_acc1 { h: HP, setup: BOTH, steps: &[ALL, ALL], acc: ALLACC }
    q_accm { h: &[H::Alt(&[0, 7], 100), H::Fix(1, 101)], setup: MID, steps: &[ALL, ALL], acc: ALLACC, keys: 9 }
}
prog! {
    // listed findings: these never end
    t_coll { chunk: &[1, 3, 64], cap: &[40, 1], h: &[H::Fix(0, 1); 62], steps: &[&[Fill(1, 20)], &[Fill(21, 62)]], keys: 62 }
    t_collb { chunk: &[0], cap: &[40], h: &[H::Fix(0, 1); 33], steps: &[&[Fill(1, 33)]], keys: 33 }
}
prog! {
    // just short of them
    t_coll31 { chunk: &[0, 1, 64], cap: &[0, 40], h: &[H::Fix(0, 1); 33], steps: &[&[Fill(1, 29)], &[Drain(1, 29), Clear, Nop]], keys: 33 }
}
/// A chunk size of zero.
#[no_mangle]
pub extern "C" fn t_inc0() {
    hashes(&[]);
    let map = papaya::HashMap::<Key, Val>::builder().hasher(SymHasher(0)).resize_mode(papaya::ResizeMode::Incremental(0)).capacity(4).build();
    let mut m: Model = [0; NK];
    step(&map, Acc::Guard, Fill(1, 9), &mut m, 501);
    step(&map, Acc::Guard, Clear, &mut m, 501);
    reach(1);
}
