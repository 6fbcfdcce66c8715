//! Equality, cloning, bulk construction, serialization.
use crate::conc::{Op::*, *};
use crate::rt::*;
use crate::seq::{pick, same, step, Acc, Model};
use crate::set::Set;
use papaya::{HashMap, HashSet, ResizeMode};
use serde::de::value::{Error as DeError, MapDeserializer, SeqDeserializer};
use serde::{Deserialize, Serialize};

type Num = HashMap<u64, u32, SymHasher>;
type NumSet = HashSet<u64, SymHasher>;

fn salted(chunk: usize, cap: usize, salt: u64) -> Map {
    let mode = if chunk == 0 { ResizeMode::Blocking } else { ResizeMode::Incremental(chunk) };
    let b = HashMap::builder().hasher(SymHasher(salt)).resize_mode(mode);
    if cap == 0 { b.build() } else { b.capacity(cap).build() }
}
/// A map with symbolic contents, in various states.
fn build(m: &mut Model, salt: u64, light: bool) -> Map {
    let (mid, chunk, cap) = if light {
        (false, 1, 0)
    } else {
        match choose(5) {
            0 => (false, 1, 0),
            1 => (false, 0, 4),
            2 => (true, 1, 4),
            3 => (true, 3, 4),
            _ => (true, 0, 4),
        }
    };
    let map = salted(chunk, cap, salt);
    for k in 1..=2 {
        let v = choose(3) as u32;
        if v != 0 {
            step(&map, Acc::Guard, Insert(k, v), m, 501);
        }
    }
    if mid {
        step(&map, Acc::Guard, Fill(3, 8), m, 501);
        step(&map, Acc::Guard, Drain(3, 8), m, 501);
        if choose(2) == 0 {
            step(&map, Acc::Guard, Fill(9, 9), m, 501);
        } else {
            // back in the middle of a resize without further entries
            step(&map, Acc::Guard, Fill(9, 9), m, 501);
            step(&map, Acc::Guard, Remove(9), m, 501);
        }
    }
    map
}
const HP: &[H] = &[H::Alt(&[0, 7], 100), H::Alt(&[0, 1], 100)];

/// Equality.
#[no_mangle]
pub extern "C" fn b_eq() {
    hashes(HP);
    let (mut m, mut n): (Model, Model) = ([0; NK], [0; NK]);
    let a = build(&mut m, 0, false);
    let b = build(&mut n, pick(&[0, 5 | 77 << 57]), true);
    if choose(2) == 0 {
        step(&b, Acc::Guard, Fill(9, 9), &mut n, 501);
    }
    let eq = m == n;
    check((a == b) == eq, 71);
    check((b == a) == eq, 72);
    #[allow(clippy::eq_op)]
    {
        check(a == a && b == b, 73);
    }
    // neither has changed
    same(&a, 9, &m);
    same(&b, 9, &n);
    drop((a, b));
    check_all_dropped();
    reach(1);
}

/// A clone is equal and independent.
#[no_mangle]
pub extern "C" fn b_clone() {
    hashes(HP);
    unsafe { ffi::vp_leak_start() };
    let mut m: Model = [0; NK];
    let a = build(&mut m, pick(&[0, 5 | 77 << 57]), false);
    let c = a.clone();
    let mut n = m;
    same(&c, 9, &n);
    let op = pick(&[Insert(1, 5), Remove(1), Clear, ComputeUp(2, 1), Fill(9, 20), RetainNot(1), Insert(3, 1)]);
    if choose(2) == 0 {
        step(&a, Acc::Guard, op, &mut m, 501);
    } else {
        step(&c, Acc::Guard, op, &mut n, 501);
    }
    same(&a, 20, &m);
    same(&c, 20, &n);
    if choose(2) == 0 {
        drop(a);
        same(&c, 20, &n);
        drop(c);
    } else {
        drop(c);
        same(&a, 20, &m);
        drop(a);
    }
    check_all_dropped();
    unsafe { ffi::vp_leak_check(404) };
    reach(1);
}
/// ... and keeps the hasher
#[no_mangle]
pub extern "C" fn b_hasher() {
    let mut h = [0; 9];
    for i in 0..9 {
        h[i] = i as u64;
    }
    HASHES.get()[..9].copy_from_slice(&h);
    let salt = 3 | 9 << 57;
    *SALTS.get() = (0, 0);
    let a = salted(0, 0, salt);
    a.pin().insert(Key::new(1), Val::new(1));
    check(*SALTS.get() == (salt, 0), 74);
    let c = a.clone();
    c.pin().insert(Key::new(2), Val::new(1));
    check(*SALTS.get() == (salt, 0), 74);
    let s: Set = HashSet::builder().hasher(SymHasher(salt)).build();
    s.pin().insert(Key::new(1));
    let t = s.clone();
    t.pin().insert(Key::new(2));
    check(*SALTS.get() == (salt, 0), 74);
    check(t.len() == 2 && s.len() == 1 && c.len() == 2 && a.len() == 1, 74);
    reach(1);
}

/// An iterator with bounds that its contract allows: the lower one, and whether there is an upper one.
struct Hint<I>(I, usize, bool);
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.1 = self.1.saturating_sub(1);
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, if self.2 { Some(usize::MAX) } else { None })
    }
}
fn items() -> (usize, [(u8, u32); 4]) {
    let n = concrete(choose(5)) as usize;
    let mut v = [(0, 0); 4];
    for (i, x) in v.iter_mut().enumerate().take(n) {
        *x = (1 + concrete(choose(2)) as u8, i as u32);
    }
    (n, v)
}
fn put(m: &mut Model, l: &[(u8, u32)]) {
    for (k, v) in l {
        m[*k as usize] = 1 + v;
    }
}
/// FromIterator and Extend: the last value wins.
#[no_mangle]
pub extern "C" fn b_collect() {
    hashes(HP);
    unsafe { ffi::vp_leak_start() };
    let (n, v) = items();
    let it = v[..n].iter().map(|(k, x)| (Key::new(*k as u64), Val::new(*x as u64)));
    let hint = pick(&[0, n, n / 2]);
    let high = choose(2) == 0;
    let mut m: Model = [0; NK];
    let map: Map = if choose(2) == 0 {
        Hint(it, hint, high).collect()
    } else {
        let map = build(&mut m, 0, choose(2) == 0);
        (&map).extend(Hint(it, hint, high));
        map
    };
    put(&mut m, &v[..n]);
    same(&map, 9, &m);
    drop(map);
    check_all_dropped();
    unsafe { ffi::vp_leak_check(404) };
    reach(1);
}
/// Many items.
#[no_mangle]
pub extern "C" fn b_many() {
    hashes(&[H::Fix(0, 1); 6]);
    unsafe { ffi::vp_leak_start() };
    let n = 1 + concrete(choose(40));
    let it = (1..=n).map(|k| (Key::new(k), Val::new(k)));
    let hint = pick(&[0, n as usize, 1]);
    let high = choose(2) == 0;
    let map: Map = match choose(3) {
        0 => Hint(it, hint, high).collect(),
        1 => {
            let map = salted(1, 4, 0);
            map.pin().insert(Key::new(50), Val::new(50));
            (&map).extend(Hint(it, hint, high));
            map.pin().remove(&Q(50));
            map
        }
        _ => {
            let map = salted(1, 4, 0);
            for (k, v) in it {
                map.pin().insert(k, v);
            }
            map.clone()
        }
    };
    let mut m: Model = [0; NK];
    for k in 1..=n {
        m[k as usize] = 1 + k as u32;
    }
    same(&map, 40, &m);
    drop(map);
    check_all_dropped();
    unsafe { ffi::vp_leak_check(404) };
    reach(1);
}
/// Sets.
#[no_mangle]
pub extern "C" fn b_set() {
    hashes(HP);
    unsafe { ffi::vp_leak_start() };
    let make = |salt: u64, mid: bool| {
        let b = HashSet::<Key>::builder().hasher(SymHasher(salt)).resize_mode(ResizeMode::Incremental(1));
        let s: Set = if mid { b.capacity(4).build() } else { b.build() };
        let mut m = 0u64;
        for k in 1..=2 {
            if choose(2) == 0 {
                s.pin().insert(Key::new(k));
                m |= 1 << k;
            }
        }
        if mid {
            for k in 3..=8 {
                s.pin().insert(Key::new(k));
            }
            for k in 3..=8 {
                s.pin().remove(&Q(k));
            }
            s.pin().insert(Key::new(9));
            m |= 1 << 9;
        }
        (s, m)
    };
    let items = |s: &Set| s.pin().iter().fold(0u64, |a, k| a | 1 << k.id);
    let (a, m) = make(0, choose(2) == 0);
    let (b, mut n) = make(pick(&[0, 5 | 77 << 57]), false);
    if choose(2) == 0 {
        b.pin().insert(Key::new(9));
        n |= 1 << 9;
    }
    check((a == b) == (m == n) && (b == a) == (m == n), 71);
    let c = a.clone();
    check(c == a && items(&c) == m && c.len() == m.count_ones() as usize, 75);
    a.pin().clear();
    check(items(&c) == m && items(&a) == 0, 75);
    let k = concrete(choose(4)) as usize;
    let l = [1, 2, 1, 9];
    let hint = pick(&[0, k]);
    let high = choose(2) == 0;
    let d: Set = Hint(l[..k].iter().map(|k| Key::new(*k)), hint, high).collect();
    let added = l[..k].iter().fold(0u64, |a, k| a | 1 << k);
    check(items(&d) == added && d.len() == added.count_ones() as usize, 76);
    (&c).extend(Hint(l[..k].iter().map(|k| Key::new(*k)), hint, high));
    check(items(&c) == m | added && c.len() == (m | added).count_ones() as usize, 76);
    check(items(&b) == n, 75);
    drop((a, b, c, d));
    check_all_dropped();
    unsafe { ffi::vp_leak_check(404) };
    reach(1);
}

// ------------------------------------------------------------ serde

pub struct Out {
    n: u32,
    /// 1: map, 2: sequence
    kind: u32,
    len: Option<usize>,
    items: [(u64, u32); 16],
    key: u64,
}
#[derive(Debug)]
struct Never;
impl std::fmt::Display for Never {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Never {}
impl serde::ser::Error for Never {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        fail(920)
    }
}
struct Ser<'a>(&'a mut Out);
struct NumSer;
macro_rules! refuse {
    ($($f:ident($($t:ty),*))*) => {
        $(fn $f(self $(, _: $t)*) -> Result<Self::Ok, Never> { fail(921) })*
    };
}
macro_rules! refuse_rest {
    () => {
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Self::Ok, Never> { fail(921) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Self::Ok, Never> { fail(921) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Self::Ok, Never> { fail(921) }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Never> { fail(921) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Never> { fail(921) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Never> { fail(921) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Never> { fail(921) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Never> { fail(921) }
        refuse! {
            serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64) serialize_u8(u8) serialize_u16(u16)
            serialize_f32(f32) serialize_f64(f64) serialize_char(char) serialize_str(&str) serialize_bytes(&[u8]) serialize_none() serialize_unit()
            serialize_unit_struct(&'static str) serialize_unit_variant(&'static str, u32, &'static str)
        }
    };
}
type No<T> = serde::ser::Impossible<T, Never>;
impl serde::Serializer for NumSer {
    type Ok = u64;
    type Error = Never;
    type SerializeSeq = No<u64>;
    type SerializeTuple = No<u64>;
    type SerializeTupleStruct = No<u64>;
    type SerializeTupleVariant = No<u64>;
    type SerializeMap = No<u64>;
    type SerializeStruct = No<u64>;
    type SerializeStructVariant = No<u64>;
    fn serialize_u32(self, x: u32) -> Result<u64, Never> {
        Ok(x as u64)
    }
    fn serialize_u64(self, x: u64) -> Result<u64, Never> {
        Ok(x)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Never> {
        fail(921)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Never> {
        fail(921)
    }
    refuse_rest!();
}
impl<'a> serde::Serializer for Ser<'a> {
    type Ok = ();
    type Error = Never;
    type SerializeSeq = Ser<'a>;
    type SerializeTuple = No<()>;
    type SerializeTupleStruct = No<()>;
    type SerializeTupleVariant = No<()>;
    type SerializeMap = Ser<'a>;
    type SerializeStruct = No<()>;
    type SerializeStructVariant = No<()>;
    fn serialize_u32(self, _: u32) -> Result<(), Never> {
        fail(921)
    }
    fn serialize_u64(self, _: u64) -> Result<(), Never> {
        fail(921)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Ser<'a>, Never> {
        self.0.kind = 2;
        self.0.len = n;
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Ser<'a>, Never> {
        self.0.kind = 1;
        self.0.len = n;
        Ok(self)
    }
    refuse_rest!();
}
impl serde::ser::SerializeMap for Ser<'_> {
    type Ok = ();
    type Error = Never;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Never> {
        self.0.key = k.serialize(NumSer)?;
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Never> {
        check(self.0.n < 16, 922);
        self.0.items[self.0.n as usize] = (self.0.key, v.serialize(NumSer)? as u32);
        self.0.n += 1;
        Ok(())
    }
    fn end(self) -> Result<(), Never> {
        Ok(())
    }
}
impl serde::ser::SerializeSeq for Ser<'_> {
    type Ok = ();
    type Error = Never;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Never> {
        check(self.0.n < 16, 922);
        self.0.items[self.0.n as usize] = (k.serialize(NumSer)?, 0);
        self.0.n += 1;
        Ok(())
    }
    fn end(self) -> Result<(), Never> {
        Ok(())
    }
}
fn out() -> Out {
    Out { n: 0, kind: 0, len: None, items: [(0, 0); 16], key: 0 }
}
fn has(o: &Out, k: u64) -> u32 {
    let mut n = 0;
    let mut v = 0;
    for i in 0..o.n as usize {
        if o.items[i].0 == k {
            n += 1;
            v = 1 + o.items[i].1;
        }
    }
    check(n <= 1, 77);
    v
}

/// A map, serialized and deserialized.
#[no_mangle]
pub extern "C" fn b_serde() {
    let mid = choose(2) == 0;
    let b = HashMap::<u64, u32>::builder().hasher(SymHasher(0)).resize_mode(ResizeMode::Incremental(1));
    let map: Num = if mid { b.capacity(4).build() } else { b.build() };
    let p = map.pin();
    // the hash of a number is the number
    let k1 = pick(&[1u64, 9, 1 << 57]);
    let mut m = [0; 2];
    for (i, k) in [k1, 2].into_iter().enumerate() {
        let v = choose(3) as u32;
        if v != 0 {
            p.insert(k, v);
            m[i] = 1 + v;
        }
    }
    if mid {
        for k in 20..27 {
            p.insert(k, 7);
        }
        for k in 20..26 {
            p.remove(&k);
        }
    }
    let mut o = out();
    let r = if choose(2) == 0 { map.serialize(Ser(&mut o)) } else { map.pin_owned().serialize(Ser(&mut o)) };
    check(r.is_ok(), 77);
    check(o.kind == 1, 77);
    check(o.n as usize == map.len() && o.len.unwrap_or(map.len()) == map.len(), 77);
    check(has(&o, k1) == m[0] && has(&o, 2) == m[1] && (has(&o, 26) == 8) == mid, 77);
    // and back, a repeated key in front
    let n = o.n as usize;
    let again = choose(2) == 0 && n > 0;
    let first = if again { Some((o.items[n - 1].0, 99)) } else { None };
    let it = first.into_iter().chain(o.items[..n].iter().copied());
    let back: Result<Num, DeError> = if choose(2) == 0 {
        Num::deserialize(MapDeserializer::new(it))
    } else {
        Num::deserialize(MapDeserializer::new(Hint(it, 0, true)))
    };
    match back {
        Ok(x) => {
            check(x == map && map == x, 78);
            check(x.len() == n, 78);
            let g = x.guard();
            for i in 0..n {
                check(x.get(&o.items[i].0, &g) == Some(&o.items[i].1), 78);
            }
        }
        Err(_) => fail(78),
    }
    reach(1);
}
#[no_mangle]
pub extern "C" fn b_sserde() {
    let mid = choose(2) == 0;
    let b = HashSet::<u64>::builder().hasher(SymHasher(0)).resize_mode(ResizeMode::Incremental(1));
    let set: NumSet = if mid { b.capacity(4).build() } else { b.build() };
    let p = set.pin();
    let k1 = pick(&[1u64, 9, 1 << 57]);
    let mut m = [0; 2];
    for (i, k) in [k1, 2].into_iter().enumerate() {
        if choose(2) == 0 {
            p.insert(k);
            m[i] = 1;
        }
    }
    if mid {
        for k in 20..27 {
            p.insert(k);
        }
        for k in 20..26 {
            p.remove(&k);
        }
    }
    let mut o = out();
    let r = if choose(2) == 0 { set.serialize(Ser(&mut o)) } else { set.pin_owned().serialize(Ser(&mut o)) };
    check(r.is_ok(), 77);
    check(o.kind == 2, 77);
    check(o.n as usize == set.len() && o.len.unwrap_or(set.len()) == set.len(), 77);
    check(has(&o, k1) == m[0] && has(&o, 2) == m[1] && (has(&o, 26) == 1) == mid, 77);
    let n = o.n as usize;
    let again = choose(2) == 0 && n > 0;
    let first = if again { Some(o.items[n - 1].0) } else { None };
    let it = first.into_iter().chain(o.items[..n].iter().map(|x| x.0));
    let back: Result<NumSet, DeError> = if choose(2) == 0 {
        NumSet::deserialize(SeqDeserializer::new(it))
    } else {
        NumSet::deserialize(SeqDeserializer::new(Hint(it, 0, true)))
    };
    match back {
        Ok(x) => {
            check(x == set && set == x && x.len() == n, 78);
            for i in 0..n {
                check(x.pin().contains(&o.items[i].0), 78);
            }
        }
        Err(_) => fail(78),
    }
    reach(1);
}
/// Extending by references, with copyable items.
#[no_mangle]
pub extern "C" fn b_refs() {
    let map: Num = HashMap::with_hasher(SymHasher(0));
    let set: NumSet = HashSet::with_hasher(SymHasher(0));
    let k = [pick(&[1u64, 2]), pick(&[1, 2, 33]), pick(&[1, 3])];
    if choose(2) == 0 {
        map.pin().insert(1, 50);
        set.pin().insert(1);
    }
    let v = [10u32, 11, 12];
    let n = concrete(choose(4)) as usize;
    (&map).extend(k[..n].iter().zip(v[..n].iter()));
    (&set).extend(k[..n].iter());
    for x in [1u64, 2, 3, 33] {
        let i = (0..n).rev().find(|i| k[*i] == x);
        let want = match i {
            Some(i) => Some(v[i]),
            None if x == 1 && map.pin().contains_key(&1) => Some(50),
            None => None,
        };
        check(map.pin().get(&x).copied() == want, 79);
        check(set.pin().contains(&x) == want.is_some(), 79);
    }
    check(map.len() == set.len() && map.pin().iter().count() == map.len(), 701);
    // by reference, and past the end
    let (p, q) = (map.pin(), set.pin());
    let mut seen = 0;
    for (k, v) in &p {
        check(p.get(k) == Some(v), 79);
        seen += 1;
    }
    for k in &q {
        check(q.contains(k), 79);
        seen += 1;
    }
    check(seen == 2 * map.len() && std::ptr::eq(p.map(), &map) && std::ptr::eq(q.set(), &set), 79);
    let (mut a, mut b, mut c, mut d) = (p.iter(), p.keys(), p.values(), q.iter());
    for _ in 0..map.len() {
        check(a.next().is_some() && b.next().is_some() && c.next().is_some() && d.next().is_some(), 79);
    }
    for _ in 0..3 {
        check(a.next().is_none() && b.next().is_none() && c.next().is_none() && d.next().is_none(), 79);
    }
    check(p.len() == map.len() && q.len() == map.len() && p.is_empty() == map.is_empty() && q.is_empty() == map.is_empty(), 702);
    reach(1);
}
/// Arrays (with the standard hasher; the keys of it are constants here).
#[no_mangle]
pub extern "C" fn b_array() {
    let k = [pick(&[1u64, 2]), pick(&[1, 2]), pick(&[1, 3])];
    let map = HashMap::from([(k[0], 10u32), (k[1], 11), (k[2], 12)]);
    let set = HashSet::from(k);
    let p = map.pin();
    let mut n = 0;
    for x in 1..=3u64 {
        let want = (0..3).rev().find(|i| k[*i] == x).map(|i| 10 + i as u32);
        n += want.is_some() as usize;
        check(p.get(&x).copied() == want, 79);
        check(set.pin().contains(&x) == want.is_some(), 79);
    }
    check(map.len() == n && set.len() == n, 701);
    reach(1);
}

/// `Debug`: what is formatted are the entries.  (The engine calls these two
/// for `DebugMap::entry` and the like; the rest of core::fmt is not of
/// interest.)
struct Sink;
impl std::fmt::Write for Sink {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
fn fmt_one(x: &dyn std::fmt::Debug) {
    let mut w = Sink;
    let mut f = std::fmt::Formatter::new(&mut w, std::fmt::FormattingOptions::new());
    let _ = x.fmt(&mut f);
}
#[no_mangle]
pub fn verif_fmt_one(_: *mut u8, x: &dyn std::fmt::Debug) -> *mut u8 {
    fmt_one(x);
    std::ptr::null_mut()
}
#[no_mangle]
pub fn verif_fmt_pair(_: *mut u8, k: &dyn std::fmt::Debug, v: &dyn std::fmt::Debug) -> *mut u8 {
    fmt_one(k);
    fmt_one(v);
    std::ptr::null_mut()
}
const MAXLOG: usize = 12;
struct Log(std::cell::UnsafeCell<([u64; MAXLOG], usize)>);
unsafe impl Sync for Log {}
static LOG: Log = Log(std::cell::UnsafeCell::new(([0; MAXLOG], 0)));
#[derive(PartialEq, Eq, Hash, Clone, Copy)]
struct Shown(u64);
impl std::fmt::Debug for Shown {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let l = unsafe { &mut *LOG.0.get() };
        check(l.1 < MAXLOG, 80);
        l.0[l.1] = self.0;
        l.1 += 1;
        Ok(())
    }
}
#[no_mangle]
pub extern "C" fn b_debug() {
    let chunk = choose(2) as usize;
    let mode = if chunk == 0 { ResizeMode::Blocking } else { ResizeMode::Incremental(1) };
    let map: HashMap<Shown, Shown, SymHasher> = HashMap::builder().hasher(SymHasher(0)).capacity(4).resize_mode(mode).build();
    let set: HashSet<Shown, SymHasher> = HashSet::builder().hasher(SymHasher(0)).capacity(4).resize_mode(if chunk == 0 { ResizeMode::Blocking } else { ResizeMode::Incremental(1) }).build();
    let (mut keys, mut n) = ([0u64; 4], 0);
    let k = [pick(&[1u64, 9]), pick(&[2, 17])];
    let m = choose(3) as usize;
    for i in 0..concrete(m as u64) as usize {
        map.pin().insert(Shown(k[i]), Shown(k[i] + 100));
        set.pin().insert(Shown(k[i]));
        keys[n] = k[i];
        n += 1;
    }
    if choose(2) == 0 {
        // into a resize
        for i in 20..26 {
            map.pin().insert(Shown(i), Shown(0));
            set.pin().insert(Shown(i));
        }
        for i in 20..26 {
            map.pin().remove(&Shown(i));
            set.pin().remove(&Shown(i));
        }
        for i in [40, 41, 42].into_iter().take(3 - n) {
            map.pin().insert(Shown(i), Shown(i + 100));
            set.pin().insert(Shown(i));
            keys[n.min(3)] = i;
            n += 1;
        }
    }
    let l = unsafe { &mut *LOG.0.get() };
    l.1 = 0;
    let mut w = Sink;
    let mut f = std::fmt::Formatter::new(&mut w, std::fmt::FormattingOptions::new());
    use std::fmt::Debug;
    // what is missing at the front
    let mut skip = 0;
    let what = concrete(choose(8));
    let ok = match what {
        0 => map.fmt(&mut f),
        1 => map.pin().fmt(&mut f),
        2 => set.fmt(&mut f),
        3 => set.pin().fmt(&mut f),
        4..=6 => {
            let p = map.pin();
            let (mut a, mut b, mut c) = (p.iter(), p.keys(), p.values());
            if n > 0 && choose(2) == 0 {
                skip = 1;
                a.next();
                b.next();
                c.next();
            }
            let r = match what {
                4 => a.fmt(&mut f),
                5 => b.fmt(&mut f),
                _ => c.fmt(&mut f),
            };
            // still at the same place
            check(a.count() == n - skip && b.count() == n - skip && c.count() == n - skip, 80);
            r
        }
        _ => {
            let p = set.pin();
            let mut a = p.iter();
            if n > 0 && choose(2) == 0 {
                skip = 1;
                a.next();
            }
            let r = a.fmt(&mut f);
            check(a.count() == n - skip, 80);
            r
        }
    };
    check(ok.is_ok(), 80);
    let l = unsafe { &mut *LOG.0.get() };
    let each = match what {
        2 | 3 | 7 => 1,
        _ => 2,
    };
    check(l.1 == each * (n - skip), 80);
    let mut found = 0;
    for k in &keys[..n] {
        let mut times = 0;
        for i in 0..n - skip {
            if l.0[each * i] == *k {
                times += 1;
                check(each == 1 || l.0[each * i + 1] == *k + 100, 80);
            }
        }
        check(times <= 1, 80);
        found += times;
    }
    check(found == n - skip, 80);
    reach(1);
}
