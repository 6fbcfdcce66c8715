//! Concurrent programs of map operations and their checks:
//! linearizability per key, drop accounting, validity of held references,
//! length and iteration at the end.
use crate::rt::*;
use papaya::{Compute, Guard, HashMap, HashMapRef, Operation, OwnedGuard, ResizeMode};

pub type Map = HashMap<Key, Val, SymHasher>;

#[derive(Clone, Copy, PartialEq)]
pub enum Op {
    Nop,
    Get(u8),
    Contains(u8),
    GetKv(u8),
    Insert(u8, u32),
    TryInsert(u8, u32),
    TryInsertWith(u8, u32),
    GetOrInsert(u8, u32),
    GetOrInsertWith(u8, u32),
    /// v becomes 8 * v + arg
    Update(u8, u32),
    /// ... or the second value is inserted
    UpdateOrInsert(u8, u32, u32),
    UpdateOrInsertWith(u8, u32, u32),
    /// None: insert arg; Some(v): insert 8 * v + arg
    ComputeUp(u8, u32),
    /// None: abort; Some: remove
    ComputeDel(u8),
    /// Some(x): remove; otherwise abort
    ComputeDelIf(u8, u32),
    /// Always abort.
    ComputeAbort(u8),
    /// None: insert arg; Some: remove
    ComputeToggle(u8, u32),
    /// None: abort; Some(x): insert 8 * x + 1; another value: remove
    ComputePick(u8, u32),
    Remove(u8),
    RemoveEntry(u8),
    /// Remove if the value is x.
    RemoveIf(u8, u32),
    Clear,
    /// Remove the entries with this value.
    RetainNot(u32),
    /// Read every entry.
    Iter,
    /// The values and the keys iterator.
    Values,
    Keys,
    Vals,
    Reserve(u16),
    Len,
    /// Inserts the keys a..=b with value 100 + key (not preempted unless it blocks).
    Fill(u8, u8),
    /// Setup only: inserts and removes the key n times.
    Churn(u8, u8),
    /// Removes the keys a..=b, likewise.
    Drain(u8, u8),
}
use Op::*;

#[derive(Clone, Copy)]
pub enum H {
    /// Slot, symbolic metadata.
    At(u8),
    /// Symbolic slot out of the list, symbolic metadata.
    Of(&'static [u8]),
    /// Symbolic slot out of the list, and metadata.
    Alt(&'static [u8], u8),
    /// Slot and metadata.
    Fix(u8, u8),
    /// Any 64-bit hash.
    Any,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Api {
    /// A guard for each operation.
    Each,
    /// One guard per thread; the references are checked when it is dropped.
    Hold,
    /// As `Hold`, with an owned guard.
    Owned,
    /// As `Hold`, with owned guards created by the main thread.
    Sent,
    /// As `Hold`, with a pinned map.
    Pin,
    /// As `Hold`, with a map pinned with an owned guard.
    PinOwned,
}

pub struct Scn {
    /// Copied slots per operation; 0: blocking resizes.
    pub chunk: usize,
    /// Slots copied at a time by a blocking resize.
    pub bchunk: usize,
    pub cap: usize,
    pub h: &'static [H],
    pub setup: &'static [Op],
    /// For each thread, for each of its steps, the alternatives.
    pub thr: &'static [&'static [&'static [Op]]],
    /// How the threads access the map.
    pub api: Api,
    /// Performed at the end, one after another.
    pub tail: &'static [Op],
    /// Keys looked at at the end: 1..=keys.
    pub keys: u8,
    /// How many weak compare-and-exchange operations of each thread may fail spuriously.
    pub weak: u32,
    /// How many atomic loads of each thread may read a value that is not the last one.
    pub stale: u32,
    /// The operations of the second thread are performed by the first, within a call of
    /// one of these functions (places and how many calls before, at most).
    pub nest: &'static [(u32, u32)],
}

pub const NK: usize = 64;
const PER: usize = 4;
pub const NREC: usize = 4 * PER;
/// The record of iterations outside of the concurrent part.
pub const ITER: usize = NREC;

#[derive(Clone, Copy)]
pub struct Rec {
    op: Op,
    /// Operations completed before this one was invoked.
    pre: u32,
    res: u64,
    done: bool,
    clock: u32,
}

pub static HIST: Cell<[Rec; NREC]> = Cell::new([Rec { op: Nop, pre: 0, res: 0, done: false, clock: 0 }; NREC]);
/// Values seen by iterations (1 + value), per operation; the last is for the
/// iterations of the quiescent checks.
pub static SEEN: Cell<[[u32; NK]; NREC + 1]> = Cell::new([[0; NK]; NREC + 1]);
const TWICE: u32 = 1 << 31;
pub static SCN: Cell<Option<&'static Scn>> = Cell::new(None);
pub static MAP: Cell<*const Map> = Cell::new(std::ptr::null());
/// The state of each key before the threads start (0: absent).
pub static BEFORE: Cell<[u32; NK]> = Cell::new([0; NK]);

pub fn hashes(h: &[H]) {
    for (i, h) in h.iter().enumerate() {
        HASHES.get()[i + 1] = match *h {
            H::At(s) => s as u64 | sym(7) << 57,
            H::Of(l) => l[choose(l.len() as u64) as usize] as u64 | sym(7) << 57,
            H::Alt(l, m) => l[choose(l.len() as u64) as usize] as u64 | (m as u64) << 57,
            H::Fix(s, m) => s as u64 | (m as u64) << 57,
            H::Any => sym(64),
        };
    }
    for i in h.len() + 1..NKEYS {
        HASHES.get()[i] = i as u64 | ((i % 128) as u64) << 57;
    }
}

/// papaya's constant, unless the scenario says otherwise.
pub static BCHUNK: Cell<usize> = Cell::new(4096);
#[no_mangle]
pub extern "C" fn papaya_verif_copy_chunk() -> usize {
    *BCHUNK.get()
}

pub fn new_map(chunk: usize, cap: usize) -> Map {
    let mode = if chunk == 0 { ResizeMode::Blocking } else { ResizeMode::Incremental(chunk) };
    let b = HashMap::builder().hasher(SymHasher(0)).resize_mode(mode);
    // Without a capacity the table is allocated by the first insertion.
    let b = if cap == 0 { b } else { b.capacity(cap) };
    b.build()
}

/// The references an operation returned, for later checks.
pub struct Refs<'g> {
    v: [Option<(&'g Val, u32)>; 4],
    k: [Option<(&'g Key, u32)>; 4],
    n: usize,
    m: usize,
}
impl<'g> Refs<'g> {
    pub fn new() -> Self {
        Refs { v: [None; 4], k: [None; 4], n: 0, m: 0 }
    }
    #[inline(always)]
    fn val(&mut self, v: &'g Val) -> u64 {
        v.tok.check();
        if self.n < 4 {
            self.v[self.n] = Some((v, v.v));
            self.n += 1;
        }
        v.v as u64
    }
    #[inline(always)]
    fn key(&mut self, k: &'g Key, id: u8) {
        k.tok.check();
        if id != 0 {
            check(k.id == id as u32, 10);
        }
        if self.m < 4 {
            self.k[self.m] = Some((k, k.id));
            self.m += 1;
        }
    }
    #[inline(never)]
    pub fn check(&self) {
        for i in 0..self.n {
            if let Some((v, x)) = self.v[i] {
                v.tok.check();
                check(v.v == x, 11);
            }
        }
        for i in 0..self.m {
            if let Some((k, x)) = self.k[i] {
                k.tok.check();
                check(k.id == x, 11);
            }
        }
    }
}

const ERR: u64 = 1 << 40;
pub const INS: u64 = 1 << 41;
const UPD: u64 = 1 << 42;
const DEL: u64 = 1 << 43;
const ABT: u64 = 1 << 44;

#[inline(always)]
fn up(v: u32, a: u32) -> u32 {
    v.wrapping_mul(8).wrapping_add(a)
}

/// Performs one operation; the result is encoded as a number.
macro_rules! exec_body {
    ($m:ident, $ret:expr, $op:ident, $r:ident, $me:ident $(, $gi:ident)?) => {
        match $op {
            Nop => 0,
            Get(k) => $m.get(&Q(k as u64) $(, $gi)?).map_or(0, |v| 1 + $r.val(v)),
            Contains(k) => $m.contains_key(&Q(k as u64) $(, $gi)?) as u64,
            GetKv(k) => $m.get_key_value(&Q(k as u64) $(, $gi)?).map_or(0, |(x, v)| {
                $r.key(x, k);
                1 + $r.val(v)
            }),
            Insert(k, v) => $m.insert(Key::new(k as u64), Val::new(v as u64) $(, $gi)?).map_or(0, |v| 1 + $r.val(v)),
            TryInsert(k, v) => match $m.try_insert(Key::new(k as u64), Val::new(v as u64) $(, $gi)?) {
                Ok(x) => INS | $r.val(x),
                Err(e) => {
                    e.not_inserted.tok.check();
                    check(e.not_inserted.v == v, 12);
                    ERR | $r.val(e.current)
                }
            },
            TryInsertWith(k, v) => {
                let n = std::cell::Cell::new(0);
                let x = $m.try_insert_with(
                    Key::new(k as u64),
                    || {
                        user_code(P_CLOSURE2);
                        n.set(n.get() + 1);
                        Val::new(v as u64)
                    },
                    $($gi)?
                );
                check(n.get() <= 1, 13);
                match x {
                    Ok(x) => {
                        check(n.get() == 1, 13);
                        INS | $r.val(x)
                    }
                    Err(x) => ERR | $r.val(x),
                }
            }
            GetOrInsert(k, v) => $r.val($m.get_or_insert(Key::new(k as u64), Val::new(v as u64) $(, $gi)?)),
            GetOrInsertWith(k, v) => {
                let n = std::cell::Cell::new(0);
                let x = $m.get_or_insert_with(
                    Key::new(k as u64),
                    || {
                        user_code(P_CLOSURE2);
                        n.set(n.get() + 1);
                        Val::new(v as u64)
                    },
                    $($gi)?
                );
                check(n.get() <= 1, 13);
                $r.val(x)
            }
            Update(k, a) => $m
                .update(
                    Key::new(k as u64),
                    |v| {
                        user_code(P_CLOSURE);
                        v.tok.check();
                        Val::new(up(v.v, a) as u64)
                    },
                    $($gi)?
                )
                .map_or(0, |v| 1 + $r.val(v)),
            UpdateOrInsert(k, a, b) => $r.val($m.update_or_insert(
                Key::new(k as u64),
                |v| {
                    user_code(P_CLOSURE);
                        v.tok.check();
                    Val::new(up(v.v, a) as u64)
                },
                Val::new(b as u64),
                $($gi)?
            )),
            UpdateOrInsertWith(k, a, b) => {
                let n = std::cell::Cell::new(0);
                let x = $m.update_or_insert_with(
                    Key::new(k as u64),
                    |v| {
                        user_code(P_CLOSURE);
                        v.tok.check();
                        Val::new(up(v.v, a) as u64)
                    },
                    || {
                        user_code(P_CLOSURE2);
                        n.set(n.get() + 1);
                        Val::new(b as u64)
                    },
                    $($gi)?
                );
                check(n.get() <= 1, 13);
                $r.val(x)
            }
            ComputeUp(k, a) => {
                let c = $m.compute(
                    Key::new(k as u64),
                    |e| match (user_code(P_CLOSURE), e).1 {
                        None => Operation::<Val, ()>::Insert(Val::new(a as u64)),
                        Some((x, v)) => {
                            x.tok.check();
                            v.tok.check();
                            check(x.id == k as u32, 10);
                            Operation::Insert(Val::new(up(v.v, a) as u64))
                        }
                    },
                    $($gi)?
                );
                match c {
                    Compute::Inserted(x, v) => {
                        $r.key(x, k);
                        INS | $r.val(v)
                    }
                    Compute::Updated { old, new } => {
                        $r.key(old.0, k);
                        $r.key(new.0, k);
                        let o = $r.val(old.1) as u32;
                        check(new.1.v == up(o, a), 14);
                        UPD | $r.val(new.1)
                    }
                    _ => fail(15),
                }
            }
            ComputeDel(k) | ComputeDelIf(k, _) | ComputeAbort(k) => {
                let c = $m.compute(
                    Key::new(k as u64),
                    |e| match (user_code(P_CLOSURE), e).1 {
                        None => Operation::<Val, u64>::Abort(0),
                        Some((x, v)) => {
                            x.tok.check();
                            v.tok.check();
                            check(x.id == k as u32, 10);
                            let del = match $op {
                                ComputeDel(_) => true,
                                ComputeDelIf(_, y) => y == v.v,
                                _ => false,
                            };
                            if del {
                                Operation::Remove
                            } else {
                                Operation::Abort(1 + v.v as u64)
                            }
                        }
                    },
                    $($gi)?
                );
                match c {
                    Compute::Removed(x, v) => {
                        $r.key(x, k);
                        DEL | $r.val(v)
                    }
                    Compute::Aborted(x) => ABT | x,
                    _ => fail(15),
                }
            }
            ComputeToggle(k, _) | ComputePick(k, _) => {
                let c = $m.compute(
                    Key::new(k as u64),
                    |e| match (user_code(P_CLOSURE), e).1 {
                        None => match $op {
                            ComputeToggle(_, a) => Operation::<Val, u64>::Insert(Val::new(a as u64)),
                            _ => Operation::Abort(0),
                        },
                        Some((x, v)) => {
                            x.tok.check();
                            v.tok.check();
                            check(x.id == k as u32, 10);
                            match $op {
                                ComputePick(_, y) if y == v.v => Operation::Insert(Val::new(up(v.v, 1) as u64)),
                                _ => Operation::Remove,
                            }
                        }
                    },
                    $($gi)?
                );
                match c {
                    Compute::Inserted(x, v) => {
                        $r.key(x, k);
                        INS | $r.val(v)
                    }
                    Compute::Updated { old, new } => {
                        $r.key(old.0, k);
                        $r.key(new.0, k);
                        let o = $r.val(old.1) as u32;
                        check(new.1.v == up(o, 1), 14);
                        UPD | $r.val(new.1)
                    }
                    Compute::Removed(x, v) => {
                        $r.key(x, k);
                        DEL | $r.val(v)
                    }
                    Compute::Aborted(x) => ABT | x,
                }
            }
            Remove(k) => $m.remove(&Q(k as u64) $(, $gi)?).map_or(0, |v| 1 + $r.val(v)),
            RemoveEntry(k) => $m.remove_entry(&Q(k as u64) $(, $gi)?).map_or(0, |(x, v)| {
                $r.key(x, k);
                1 + $r.val(v)
            }),
            RemoveIf(k, y) => {
                let c = $m.remove_if(
                    &Q(k as u64),
                    |x, v| {
                        user_code(P_CLOSURE);
                        x.tok.check();
                        v.tok.check();
                        check(x.id == k as u32, 10);
                        v.v == y
                    },
                    $($gi)?
                );
                match c {
                    Ok(None) => 0,
                    Ok(Some((x, v))) => {
                        $r.key(x, k);
                        DEL | $r.val(v)
                    }
                    Err((x, v)) => {
                        $r.key(x, k);
                        ERR | $r.val(v)
                    }
                }
            }
            Clear => {
                $m.clear($($gi)?);
                0
            }
            RetainNot(y) => {
                $ret.retain(
                    |x, v| {
                        user_code(P_CLOSURE);
                        x.tok.check();
                        v.tok.check();
                        v.v != y
                    },
                    $($gi)?
                );
                0
            }
            Iter => {
                let mut out = [0u32; NK];
                for (k, v) in $m.iter($($gi)?) {
                    user_code(P_CLOSURE);
                    $r.key(k, 0);
                    let v = $r.val(v) as u32;
                    check((k.id as usize) < NK, 16);
                    let o = &mut out[k.id as usize];
                    if *o == 0 {
                        *o = 1 + v;
                    } else {
                        *o |= TWICE;
                    }
                }
                raw(|| SEEN.get()[$me] = out);
                0
            }
            Values => {
                let mut s = 0;
                for v in $m.values($($gi)?) {
                    v.tok.check();
                    s += 1;
                }
                for k in $m.keys($($gi)?) {
                    k.tok.check();
                    s += 1;
                }
                s
            }
            Keys => {
                let mut s = 0;
                for k in $m.keys($($gi)?) {
                    k.tok.check();
                    s += 1;
                }
                s
            }
            Vals => {
                let mut s = 0;
                for v in $m.values($($gi)?) {
                    v.tok.check();
                    s += 1;
                }
                s
            }
            Reserve(n) => {
                $m.reserve(n as usize $(, $gi)?);
                0
            }
            Len => $m.len() as u64,
            Fill(a, b) => {
                serial(|| for k in a..=b {
                    $m.insert(Key::new(k as u64), Val::new(100 + k as u64) $(, $gi)?);
                });
                0
            }
            Churn(k, n) => {
                for _ in 0..n {
                    $m.insert(Key::new(k as u64), Val::new(0) $(, $gi)?);
                    $m.remove(&Q(k as u64) $(, $gi)?);
                }
                0
            }
            Drain(a, b) => {
                serial(|| for k in a..=b {
                    $m.remove(&Q(k as u64) $(, $gi)?);
                });
                0
            }
        }
    };
}
/// ... on the map, with a guard
#[inline(never)]
pub fn exec<'g, G: Guard>(m: &Map, g: &'g G, op: Op, r: &mut Refs<'g>, me: usize) -> u64 {
    exec_body!(m, m, op, r, me, g)
}
/// ... on a pinned map
#[inline(never)]
pub fn exec_pin<'g, G: Guard>(m: &'g HashMapRef<'g, Key, Val, SymHasher, G>, op: Op, r: &mut Refs<'g>, me: usize) -> u64 {
    // retain takes the pinned map by mutable reference
    exec_body!(m, m.map().pin(), op, r, me)
}

/// What `op` does to its key in the reference map: `None` if the recorded
/// result is impossible in state `s` (0: absent, otherwise 1 + value).
pub fn spec(op: Op, key: u8, s: u32, res: u64, seen: u32) -> Option<u32> {
    let opt = s as u64; // 1 + value, or 0
    let v = s.wrapping_sub(1);
    let (want, next) = match op {
        Get(_) | GetKv(_) => (opt, s),
        Contains(_) => ((s != 0) as u64, s),
        Insert(_, x) => (opt, x + 1),
        TryInsert(_, x) | TryInsertWith(_, x) => {
            if s == 0 {
                (INS | x as u64, x + 1)
            } else {
                (ERR | v as u64, s)
            }
        }
        GetOrInsert(_, x) | GetOrInsertWith(_, x) => {
            if s == 0 {
                (x as u64, x + 1)
            } else {
                (v as u64, s)
            }
        }
        Update(_, a) => {
            if s == 0 {
                (0, 0)
            } else {
                (1 + up(v, a) as u64, up(v, a) + 1)
            }
        }
        UpdateOrInsert(_, a, b) | UpdateOrInsertWith(_, a, b) => {
            let n = if s == 0 { b } else { up(v, a) };
            (n as u64, n + 1)
        }
        ComputeUp(_, a) => {
            if s == 0 {
                (INS | a as u64, a + 1)
            } else {
                (UPD | up(v, a) as u64, up(v, a) + 1)
            }
        }
        ComputeDel(_) => {
            if s == 0 {
                (ABT, 0)
            } else {
                (DEL | v as u64, 0)
            }
        }
        ComputeDelIf(_, y) => {
            if s != 0 && v == y {
                (DEL | v as u64, 0)
            } else {
                (ABT | opt, s)
            }
        }
        ComputeAbort(_) => (ABT | opt, s),
        ComputeToggle(_, a) => {
            if s == 0 {
                (INS | a as u64, a + 1)
            } else {
                (DEL | v as u64, 0)
            }
        }
        ComputePick(_, y) => {
            if s == 0 {
                (ABT, 0)
            } else if v == y {
                (UPD | up(v, 1) as u64, up(v, 1) + 1)
            } else {
                (DEL | v as u64, 0)
            }
        }
        Remove(_) | RemoveEntry(_) => (opt, 0),
        RemoveIf(_, y) => {
            if s == 0 {
                (0, 0)
            } else if v == y {
                (DEL | v as u64, 0)
            } else {
                (ERR | v as u64, s)
            }
        }
        Clear => (0, 0),
        RetainNot(y) => (0, if s != 0 && v == y { 0 } else { s }),
        Iter => return if seen == s { Some(s) } else { None },
        Fill(..) => (0, 101 + key as u32),
        Drain(..) => (0, 0),
        Nop | Reserve(_) | Len | Values | Keys | Vals | Churn(..) => return Some(s),
    };
    if want == res {
        Some(next)
    } else {
        None
    }
}

pub fn touches(op: Op, key: u8) -> bool {
    match op {
        Nop | Reserve(_) | Len | Values | Keys | Vals | Churn(..) => false,
        Clear | RetainNot(_) | Iter => true,
        Fill(a, b) | Drain(a, b) => a <= key && key <= b,
        Get(k) | Contains(k) | GetKv(k) | Insert(k, _) | TryInsert(k, _) | TryInsertWith(k, _) | GetOrInsert(k, _)
        | GetOrInsertWith(k, _) | Update(k, _) | UpdateOrInsert(k, _, _) | UpdateOrInsertWith(k, _, _) | ComputeUp(k, _)
        | ComputeDel(k) | ComputeDelIf(k, _) | ComputeAbort(k) | ComputeToggle(k, _) | ComputePick(k, _) | Remove(k) | RemoveEntry(k) | RemoveIf(k, _) => k == key,
    }
}

fn removes(op: Op) -> bool {
    matches!(op, ComputeDel(_) | ComputeDelIf(..) | ComputeToggle(..) | ComputePick(..) | Remove(_) | RemoveEntry(_) | RemoveIf(..) | Clear | RetainNot(_) | Drain(..))
}

/// Can the operations `todo` be ordered (respecting real time) so that each
/// gives its recorded result, from state `s` to state `end`?
fn lin(key: u8, todo: u32, s: u32, end: u32) -> bool {
    if todo == 0 {
        return s == end;
    }
    let h = HIST.get();
    let mut left = todo;
    while left != 0 {
        let i = left.trailing_zeros() as usize;
        left &= left - 1;
        // everything completed before i was invoked must already be ordered
        if h[i].pre & todo != 0 {
            continue;
        }
        if let Some(n) = spec(h[i].op, key, s, h[i].res, SEEN.get()[i][key as usize] & !TWICE) {
            if lin(key, todo & !(1 << i), n, end) {
                return true;
            }
            // clear and retain may remove an entry again that is inserted meanwhile
            if matches!(h[i].op, Clear | RetainNot(_)) && n != s && lin(key, todo, n, end) {
                return true;
            }
        }
    }
    false
}

pub static GUARDS: Cell<[Option<OwnedGuard<'static>>; 4]> = Cell::new([None, None, None, None]);

fn steps_held<G: Guard>(map: &Map, g: &G, t: usize) {
    let mut r = Refs::new();
    for s in 0..SCN.get().unwrap().thr[t].len() {
        let i = invoke(t, s);
        let x = exec(map, g, HIST.get()[i].op, &mut r, i);
        respond(i, x);
    }
    point();
    r.check();
}
fn steps_pinned<'g, G: Guard>(m: &'g HashMapRef<'g, Key, Val, SymHasher, G>, t: usize) {
    let mut r = Refs::new();
    for s in 0..SCN.get().unwrap().thr[t].len() {
        let i = invoke(t, s);
        let x = exec_pin(m, HIST.get()[i].op, &mut r, i);
        respond(i, x);
    }
    point();
    r.check();
}

extern "C" fn thread(arg: *mut u8) {
    let t = arg as usize;
    let scn = SCN.get().unwrap();
    let map: &'static Map = unsafe { &**MAP.get() };
    unsafe { ffi::vp_spurious(scn.weak) };
    match scn.api {
        Api::Each => {
            for s in 0..scn.thr[t].len() {
                let i = invoke(t, s);
                let g = map.guard();
                let mut r = Refs::new();
                let x = exec(map, &g, HIST.get()[i].op, &mut r, i);
                respond(i, x);
                r.check();
                drop(g);
            }
        }
        Api::Hold => {
            let g = map.guard();
            steps_held(map, &g, t);
            drop(g);
        }
        Api::Owned => {
            let g = map.owned_guard();
            steps_held(map, &g, t);
            drop(g);
        }
        Api::Sent => {
            let g = GUARDS.get()[t].take().unwrap();
            steps_held(map, &g, t);
            drop(g);
        }
        Api::Pin => {
            let m = map.pin();
            steps_pinned(&m, t);
        }
        Api::PinOwned => {
            let m = map.pin_owned();
            steps_pinned(&m, t);
        }
    }
}

/// Within an operation, the others.
fn nested() {
    let map: &'static Map = unsafe { &**MAP.get() };
    for s in 0..SCN.get().unwrap().thr[1].len() {
        let i = invoke(1, s);
        let g = map.guard();
        let mut r = Refs::new();
        let x = exec(map, &g, HIST.get()[i].op, &mut r, i);
        respond(i, x);
        r.check();
    }
}

#[inline(never)]
fn invoke(t: usize, s: usize) -> usize {
    let i = t * PER + s;
    unsafe { ffi::vp_invoke() };
    // the symbolic program
    let alts = SCN.get().unwrap().thr[t][s];
    let op = alts[choose(alts.len() as u64) as usize];
    raw(|| {
        let mut pre = 0;
        for (k, h) in HIST.get().iter().enumerate() {
            // (where loads may read earlier values, only what happened before counts)
            pre |= ((h.done && unsafe { ffi::vp_knows(1 + (k / PER) as u32, h.clock) }) as u32) << k;
        }
        let h = &mut HIST.get()[i];
        h.op = op;
        h.pre = pre;
    });
    i
}
#[inline(never)]
fn respond(i: usize, x: u64) {
    raw(|| {
        let h = &mut HIST.get()[i];
        h.res = x;
        h.done = true;
        h.clock = unsafe { ffi::vp_clock() };
    })
}

/// Checks the whole contents in the quiescent state (single-threaded).
#[inline(never)]
pub fn quiescent(map: &Map, keys: u8, now: &mut [u32; NK], other: u64) {
    let g = map.guard();
    let mut n = other;
    for k in 1..=keys {
        let mut r = Refs::new();
        now[k as usize] = exec(map, &g, Get(k), &mut r, NREC) as u32;
        check(map.contains_key(&Q(k as u64), &g) == (now[k as usize] != 0), 20);
        if now[k as usize] != 0 {
            n += 1;
        }
    }
    check(map.len() as u64 == n, 701);
    check(map.is_empty() == (n == 0), 702);
    let mut r = Refs::new();
    exec(map, &g, Iter, &mut r, NREC);
    let seen = &SEEN.get()[NREC];
    let mut all = 0;
    for (k, &x) in seen.iter().enumerate() {
        if k >= 1 && k <= keys as usize {
            check(x == now[k], 801);
        }
        if x != 0 {
            all += 1;
        }
        check(x & TWICE == 0, 17);
    }
    check(all == n, 802);
}

pub fn run(scn: &'static Scn) {
    *SCN.get() = Some(scn);
    *BCHUNK.get() = scn.bchunk;
    hashes(scn.h);
    unsafe { ffi::vp_leak_start() };
    let map = new_map(scn.chunk, scn.cap);
    *MAP.get() = &map;
    {
        let g = map.guard();
        for op in scn.setup {
            let mut r = Refs::new();
            let res = exec(&map, &g, *op, &mut r, NREC);
            for k in 1..NK as u8 {
                if touches(*op, k) {
                    let b = &mut BEFORE.get()[k as usize];
                    let res = match op {
                        Fill(..) | Drain(..) => 0,
                        _ => res,
                    };
                    match spec(*op, k, *b, res, 0) {
                        Some(n) => *b = n,
                        None => fail(501),
                    }
                }
            }
        }
    }
    if scn.api == Api::Sent {
        for t in 0..scn.thr.len() {
            GUARDS.get()[t] = Some(unsafe { &**MAP.get() }.owned_guard());
        }
    }
    if !scn.nest.is_empty() {
        let (place, calls) = scn.nest[choose(scn.nest.len() as u64) as usize];
        *NESTED.get() = nested;
        *armed() = (place | P_NEST, choose(calls as u64 + 1) as u32);
        thread(0 as *mut u8);
        *armed() = (0, 0);
    } else {
        unsafe { ffi::vp_stale(scn.stale) };
        for t in 0..scn.thr.len() {
            unsafe { ffi::vp_spawn(thread, t as *mut u8) };
        }
        unsafe { ffi::vp_join_all() };
    }
    // quiescent again
    let mut other = 0;
    for k in scn.keys as usize + 1..NK {
        if BEFORE.get()[k] != 0 {
            other += 1;
        }
    }
    let mut clr = false;
    for i in 0..NREC {
        if HIST.get()[i].op == Clear {
            clr = true;
        }
    }
    if clr {
        other = 0;
    }
    let mut now = [0; NK];
    quiescent(&map, scn.keys, &mut now, other);
    for k in 1..=scn.keys {
        let mut todo = 0u32;
        let mut twice = false;
        let mut removed = false;
        for i in 0..NREC {
            let op = HIST.get()[i].op;
            if touches(op, k) {
                todo |= 1 << i;
                removed |= removes(op);
                twice |= op == Iter && SEEN.get()[i][k as usize] & TWICE != 0;
            }
        }
        // An iteration may see a key again only if it was removed in between.
        check(!twice || removed, 17);
        check(lin(k, todo, BEFORE.get()[k as usize], now[k as usize]), 101);
    }
    if !scn.tail.is_empty() {
        {
            let g = map.guard();
            for op in scn.tail {
                let mut r = Refs::new();
                let res = exec(&map, &g, *op, &mut r, NREC);
                for k in 1..=scn.keys {
                    if touches(*op, k) {
                        let b = &mut now[k as usize];
                        match spec(*op, k, *b, res, SEEN.get()[NREC][k as usize]) {
                            Some(n) => *b = n,
                            None => fail(601),
                        }
                    }
                }
            }
        }
        let mut end = [0; NK];
        quiescent(&map, scn.keys, &mut end, other);
        for k in 1..=scn.keys as usize {
            check(end[k] == now[k], 602);
        }
    }
    drop(map);
    check_all_dropped();
    unsafe { ffi::vp_leak_check(404) };
    reach(1);
}
