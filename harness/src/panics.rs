//! Panics of user code at any of its calls.
use crate::conc::{Op::*, *};
use crate::rt::*;
use crate::seq::{count, on, pick, step, Acc, Model};
use crate::set::{exec_set, model as set_model, Set, S};
use papaya::{HashSet, ResizeMode};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// True if `f` panicked; the panic must be the injected one.
fn panics(f: impl FnOnce()) -> bool {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => false,
        Err(e) => {
            check(e.downcast_ref::<u32>() == Some(&7), 51);
            true
        }
    }
}
fn arm(place: u32, n: u64) {
    *armed() = (place, n as u32);
}
fn disarm() -> bool {
    let fired = armed().0 == 0;
    armed().0 = 0;
    fired
}

const OPS: &[Op] = &[
    Get(1), GetKv(1), Insert(1, 1), TryInsert(1, 2), TryInsertWith(1, 3), GetOrInsert(1, 4), GetOrInsertWith(1, 5), Update(1, 6),
    UpdateOrInsert(1, 7, 1), UpdateOrInsertWith(1, 1, 2), ComputeUp(1, 3), ComputeDel(1), ComputeDelIf(1, 9), Remove(1), RemoveEntry(1),
    RemoveIf(1, 9), RemoveIf(1, 8), Clear, RetainNot(9), Iter, Reserve(20), Fill(10, 12),
];
const AFTER: &[Op] = &[Get(1), Insert(1, 4), ComputeUp(1, 5), ComputeDel(1), Remove(1), RetainNot(9), Clear, Fill(10, 20), Reserve(30)];

struct Scn {
    setup: &'static [&'static [Op]],
    chunk: &'static [usize],
    cap: &'static [usize],
    places: &'static [u32],
    /// Calls before the panic: less than this.
    calls: u64,
    ops: &'static [Op],
    after: &'static [Op],
    acc: &'static [Acc],
    h: &'static [H],
}

fn run(p: &'static Scn) {
    hashes(p.h);
    let map = new_map(pick(p.chunk), pick(p.cap));
    let mut m: Model = [0; NK];
    for op in pick(p.setup) {
        step(&map, Acc::Guard, *op, &mut m, 501);
    }
    let op = pick(p.ops);
    let place = pick(p.places);
    let before = m;
    // see p_hashb
    assume(place != P_HASH || op != Reserve(20));
    let calls = choose(p.calls);
    arm(place, calls);
    let acc = pick(p.acc);
    let mut res = 0;
    let failed = panics(|| res = on(&map, acc, op));
    let fired = disarm();
    check(failed == fired, 52);
    // (without a panic: looked at elsewhere)
    assume(failed);
    {
        // each key is in its old state or, after Hash or Eq, in its new one;
        // some entries of retain may have been removed
        for k in 1..=24u8 {
            let mut now = 0;
            let g = map.guard();
            if let Some(v) = map.get(&Q(k as u64), &g) {
                v.tok.check();
                now = 1 + v.v;
            }
            let s = before[k as usize];
            let mut ok = now == s;
            if !ok && touches(op, k) {
                ok = match op {
                    RetainNot(y) => now == 0 && s == 1 + y,
                    Fill(..) => now == 101 + k as u32,
                    _ => place != P_CLOSURE && place != P_CLOSURE2 && now == after(op, s),
                };
            }
            check(ok, 53);
            m[k as usize] = now;
        }
        check(map.len() as u64 == count(&m), 701);
    }
    // it goes on as if nothing had happened
    for op in [pick(p.after), ComputeUp(1, 5), Insert(9, 7), Remove(1)] {
        step(&map, Acc::Guard, op, &mut m, 54);
    }
    crate::seq::same(&map, 24, &m);
    drop(map);
    reach(1);
}
/// The state of the key after `op` in state `s`.
fn after(op: Op, s: u32) -> u32 {
    let v = s.wrapping_sub(1);
    match op {
        Insert(_, x) => x + 1,
        TryInsert(_, x) | TryInsertWith(_, x) | GetOrInsert(_, x) | GetOrInsertWith(_, x) => if s == 0 { x + 1 } else { s },
        Update(_, a) => if s == 0 { 0 } else { v * 8 + a + 1 },
        UpdateOrInsert(_, a, b) | UpdateOrInsertWith(_, a, b) => if s == 0 { b + 1 } else { v * 8 + a + 1 },
        ComputeUp(_, a) => if s == 0 { a + 1 } else { v * 8 + a + 1 },
        ComputeDel(_) | Remove(_) | RemoveEntry(_) | Clear => 0,
        ComputeDelIf(_, y) | RemoveIf(_, y) => if s == 1 + y { 0 } else { s },
        _ => s,
    }
}

const CALM: &[&[Op]] = &[&[], &[Insert(1, 9)], &[Insert(1, 9), Insert(2, 9), Remove(1)], &[Insert(2, 9), Insert(1, 8), Insert(3, 9)]];
const MID: &[&[Op]] = &[
    &[Insert(1, 9), Insert(2, 9), Fill(3, 8), Drain(3, 8), Fill(9, 9)],
    &[Insert(1, 9), Insert(2, 9), Fill(3, 9)],
];
const HP: &[H] = &[H::Alt(&[0, 7], 100), H::Alt(&[0, 1], 100)];
macro_rules! pscn {
    ($($name:ident { $($body:tt)* })*) => {
        $(#[no_mangle]
        pub extern "C" fn $name() {
            static S: Scn = Scn { $($body)* };
            run(&S)
        })*
    };
}
pscn! {
    p_calm { setup: CALM, chunk: &[0, 1], cap: &[0, 4], places: &[P_CLOSURE, P_CLOSURE2, P_EQ, P_QEQ, P_QHASH, P_HASH], calls: 3, ops: OPS, after: AFTER, acc: &[Acc::Guard], h: HP }
    p_pin { setup: CALM, chunk: &[1], cap: &[4], places: &[P_CLOSURE, P_CLOSURE2, P_EQ], calls: 2, ops: OPS, after: &[ComputeUp(1, 5), Remove(1)], acc: &[Acc::Pin, Acc::PinOwned], h: HP }
    p_mid { setup: MID, chunk: &[1, 3], cap: &[4], places: &[P_CLOSURE, P_CLOSURE2, P_EQ, P_QEQ, P_QHASH], calls: 3, ops: OPS, after: AFTER, acc: &[Acc::Guard], h: HP }
    // the operation's own hash
    p_hash0 { setup: MID, chunk: &[1, 3], cap: &[4], places: &[P_HASH], calls: 1, ops: &[Insert(1, 1), TryInsert(1, 1), Update(1, 1), ComputeUp(1, 1), ComputeDel(1), GetOrInsertWith(1, 2)], after: AFTER, acc: &[Acc::Guard], h: HP }
    // the hash of an entry being copied by an incremental resize
    p_hashi { setup: &[&[Fill(1, 9)]], chunk: &[1], cap: &[4], places: &[P_HASH], calls: 1, ops: &[Remove(20)], after: &[Remove(1)], acc: &[Acc::Guard], h: &[H::Fix(0, 1)] }
    // ... by a blocking resize
    p_hashb { setup: &[&[Fill(1, 8)]], chunk: &[0], cap: &[4], places: &[P_HASH], calls: 3, ops: &[Insert(9, 1)], after: &[Insert(9, 1)], acc: &[Acc::Guard], h: &[H::Fix(0, 1)] }
}

const SOPS: &[S] = &[S::Ins(1), S::Rem(1), S::Has(1), S::Get(1), S::Clear, S::Iter, S::Fill(10, 12), S::Reserve(20), S::RetainNot(1)];
/// Sets.
#[no_mangle]
pub extern "C" fn p_set() {
    hashes(HP);
    let b = HashSet::<Key>::builder().hasher(SymHasher(0)).resize_mode(if choose(2) == 0 { ResizeMode::Blocking } else { ResizeMode::Incremental(1) });
    let set: Set = if choose(2) == 0 { b.build() } else { b.capacity(4).build() };
    let mut m = 0u64;
    for k in 1..=concrete(choose(4)) {
        set.pin().insert(Key::new(k));
        m |= 1 << k;
    }
    let op = pick(SOPS);
    let place = pick(&[P_EQ, P_QEQ, P_QHASH, P_HASH]);
    assume(place != P_HASH || op != S::Reserve(20));
    arm(place, choose(3));
    let mut n = 0;
    let failed = panics(|| {
        if op == S::RetainNot(1) {
            set.pin().retain(|k| {
                if n == 1 {
                    std::panic::resume_unwind(Box::new(7u32));
                }
                n += 1;
                k.id != 1
            });
        } else {
            exec_set(&set, &set.guard(), op);
        }
    });
    let fired = disarm();
    check(failed || !fired, 52);
    let mut now = 0;
    for k in 1..=24u64 {
        now |= (set.pin().contains(&Q(k)) as u64) << k;
    }
    let (_, next) = set_model(op, m);
    // elements the operation does not concern are untouched
    check((now ^ m) & !(m ^ next) == 0, 53);
    check(failed || now == next, 53);
    check(set.len() as u32 == now.count_ones(), 701);
    check(exec_set(&set, &set.guard(), S::Iter) == now, 801);
    exec_set(&set, &set.guard(), pick(&[S::Ins(1), S::Rem(1), S::Fill(10, 20), S::Clear]));
    drop(set);
    reach(1);
}
/// Clone.
#[no_mangle]
pub extern "C" fn p_clone() {
    hashes(HP);
    let map = new_map(1, 4);
    let mut m: Model = [0; NK];
    for op in *pick(&[&CALM[1], &CALM[3], &MID[0], &MID[1]]) {
        step(&map, Acc::Guard, *op, &mut m, 501);
    }
    arm(pick(&[P_CLONE, P_HASH]), concrete(choose(5)));
    let hash = armed().0 == P_HASH;
    let failed = panics(|| {
        let c = map.clone();
        disarm();
        crate::seq::same(&c, 9, &m);
    });
    let _ = failed;
    disarm();
    // a panic while an entry of the map itself is copied is a listed finding
    if !(hash && failed && m[9] != 0) {
        crate::seq::same(&map, 9, &m);
        step(&map, Acc::Guard, pick(AFTER), &mut m, 54);
    }
    drop(map);
    reach(1);
}
/// Several threads: one panics in its closure, the other goes on.
static PM: Cell<*const Map> = Cell::new(std::ptr::null());
static RES: Cell<[u64; 2]> = Cell::new([0; 2]);
extern "C" fn panicking(_: *mut u8) {
    let map: &Map = unsafe { &**PM.get() };
    unsafe { ffi::vp_invoke() };
    let how = choose(5);
    let failed = panics(|| {
        let g = map.guard();
        match how {
            0 => drop(map.update(Key::new(1), |_| std::panic::resume_unwind(Box::new(7u32)), &g)),
            1 => drop(map.remove_if(&Q(1), |_, _| std::panic::resume_unwind(Box::new(7u32)), &g)),
            2 => drop(map.get_or_insert_with(Key::new(1), || std::panic::resume_unwind(Box::new(7u32)), &g)),
            3 => map.retain(|_, _| std::panic::resume_unwind(Box::new(7u32)), &g),
            _ => drop(map.compute(Key::new(1), |_| -> papaya::Operation<Val, ()> { std::panic::resume_unwind(Box::new(7u32)) }, &g)),
        }
    });
    raw(|| RES.get()[0] = failed as u64);
}
extern "C" fn calm(_: *mut u8) {
    let map: &Map = unsafe { &**PM.get() };
    unsafe { ffi::vp_invoke() };
    let op = pick(&[Insert(1, 3), Remove(1), ComputeUp(1, 3), Insert(9, 3)]);
    let x = on(map, Acc::Guard, op);
    raw(|| RES.get()[1] = x);
}
fn p_threads(chunk: usize, setup: &[Op]) {
    hashes(HP);
    let map = new_map(chunk, 4);
    let mut m: Model = [0; NK];
    for op in setup {
        step(&map, Acc::Guard, *op, &mut m, 501);
    }
    *PM.get() = &map;
    unsafe {
        ffi::vp_spawn(panicking, std::ptr::null_mut());
        ffi::vp_spawn(calm, std::ptr::null_mut());
        ffi::vp_join_all();
    }
    let mut n = 0;
    for k in 1..=10 {
        n += map.pin().contains_key(&Q(k)) as usize;
    }
    check(map.len() == n, 701);
    check(map.pin().iter().count() == n, 801);
    on(&map, Acc::Guard, Insert(1, 5));
    check(on(&map, Acc::Guard, Remove(1)) == 6, 54);
    drop(map);
    reach(1);
}
/// As above, with panics of any user code in any operation.
static PICK: Cell<(&[Op], &[u32], &[Op])> = Cell::new((&[], &[], &[]));
extern "C" fn panicking2(_: *mut u8) {
    let map: &Map = unsafe { &**PM.get() };
    unsafe { ffi::vp_invoke() };
    let op = pick(PICK.get().0);
    raw(|| arm(pick(PICK.get().1), choose(3)));
    let mut x = 0;
    let failed = panics(|| x = on(map, Acc::Guard, op));
    raw(|| {
        let fired = disarm();
        check(failed == fired, 52);
        // (without a panic: looked at elsewhere)
        assume(failed);
    });
}
extern "C" fn calm2(_: *mut u8) {
    let map: &Map = unsafe { &**PM.get() };
    unsafe { ffi::vp_invoke() };
    let op = pick(PICK.get().2);
    let x = on(map, Acc::Guard, op);
    raw(|| RES.get()[1] = x);
}
fn p_threads2(chunk: usize, setup: &[Op], ops: &'static [Op], places: &'static [u32], calm: &'static [Op]) {
    hashes(HP);
    *PICK.get() = (ops, places, calm);
    let map = new_map(chunk, 4);
    let mut m: Model = [0; NK];
    for op in setup {
        step(&map, Acc::Guard, *op, &mut m, 501);
    }
    *PM.get() = &map;
    unsafe {
        ffi::vp_spawn(panicking2, std::ptr::null_mut());
        ffi::vp_spawn(calm2, std::ptr::null_mut());
        ffi::vp_join_all();
    }
    let mut n = 0;
    for k in 1..=20 {
        n += map.pin().contains_key(&Q(k)) as usize;
    }
    check(map.len() == n, 701);
    check(map.pin().iter().count() == n, 801);
    on(&map, Acc::Guard, Insert(1, 5));
    check(on(&map, Acc::Guard, Remove(1)) == 6, 54);
    drop(map);
    reach(1);
}
const PANICS: &[Op] = &[
    Insert(1, 1), TryInsert(1, 2), TryInsertWith(1, 3), GetOrInsert(1, 4), GetOrInsertWith(1, 5), Update(1, 6), UpdateOrInsertWith(1, 1, 2), ComputeUp(1, 3),
    ComputeDel(1), ComputeToggle(1, 2), Remove(1), RemoveIf(1, 9),
];
const ALLPL: &[u32] = &[P_CLOSURE, P_CLOSURE2, P_EQ, P_HASH, P_QEQ, P_QHASH];
const CALMER: &[Op] = &[Insert(1, 3), Remove(1), ComputeUp(1, 3), Insert(2, 3), Remove(2)];
/// The key 1 is absent, ...
#[no_mangle]
pub extern "C" fn pd_none() {
    p_threads2(0, &[], PANICS, ALLPL, CALMER)
}
/// ... present, ...
#[no_mangle]
pub extern "C" fn pd_one() {
    p_threads2(0, &[Insert(1, 9)], PANICS, ALLPL, CALMER)
}
/// ... in the middle of a resize (without the hashes of copied entries, a listed finding).
#[no_mangle]
pub extern "C" fn pd_mid() {
    p_threads2(1, &[Insert(1, 9), Insert(2, 9), Fill(3, 8), Drain(3, 8), Fill(9, 9)], PANICS, &[P_CLOSURE, P_CLOSURE2, P_EQ, P_QEQ], &[Insert(1, 3), Remove(1), Insert(9, 3)])
}
#[no_mangle]
pub extern "C" fn pd_tb() {
    p_threads2(0, &[Insert(1, 9), Insert(2, 9), Fill(3, 8), Drain(3, 8)], PANICS, &[P_CLOSURE, P_CLOSURE2, P_EQ, P_QEQ], &[Insert(1, 3), Remove(1), Insert(9, 3)])
}
#[no_mangle]
pub extern "C" fn pc_one() {
    p_threads(0, &[Insert(1, 9), Insert(2, 9)])
}
#[no_mangle]
pub extern "C" fn pc_mid() {
    p_threads(1, &[Insert(1, 9), Insert(2, 9), Fill(3, 8), Drain(3, 8), Fill(9, 9)])
}
#[no_mangle]
pub extern "C" fn pc_tb() {
    p_threads(0, &[Insert(1, 9), Insert(2, 9), Fill(3, 8), Drain(3, 8)])
}
