//! Key and value types of other sizes and alignments.
use crate::rt::*;
use crate::seq::pick;
use papaya::{Compute, HashMap, HashSet, Operation, ResizeMode};
use std::hash::{BuildHasher, Hash, Hasher};

pub trait Ty: Clone + Eq + Hash {
    /// Distinct values.
    const N: u64;
    fn mk(i: u64) -> Self;
    fn id(&self) -> u64;
}
impl Ty for () {
    const N: u64 = 1;
    fn mk(_: u64) {}
    fn id(&self) -> u64 {
        0
    }
}
macro_rules! int {
    ($($t:ty)*) => {$(
        impl Ty for $t {
            const N: u64 = 10;
            fn mk(i: u64) -> $t {
                i as $t
            }
            fn id(&self) -> u64 {
                *self as u64
            }
        }
    )*};
}
int! { u8 u16 u128 }
impl Ty for bool {
    const N: u64 = 2;
    fn mk(i: u64) -> bool {
        i == 1
    }
    fn id(&self) -> u64 {
        *self as u64
    }
}
#[derive(Clone, PartialEq, Eq, Hash)]
#[repr(align(64))]
pub struct Wide(u8);
impl Ty for Wide {
    const N: u64 = 10;
    fn mk(i: u64) -> Wide {
        Wide(i as u8)
    }
    fn id(&self) -> u64 {
        assert!(self as *const _ as usize % 64 == 0);
        self.0 as u64
    }
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Three([u8; 3]);
impl Ty for Three {
    const N: u64 = 10;
    fn mk(i: u64) -> Three {
        Three([1, i as u8, 2])
    }
    fn id(&self) -> u64 {
        self.0[1] as u64
    }
}
impl Ty for Box<u32> {
    const N: u64 = 10;
    fn mk(i: u64) -> Box<u32> {
        Box::new(i as u32)
    }
    fn id(&self) -> u64 {
        **self as u64
    }
}
impl Ty for [u64; 9] {
    const N: u64 = 10;
    fn mk(i: u64) -> [u64; 9] {
        [i; 9]
    }
    fn id(&self) -> u64 {
        assert!(self.iter().all(|x| *x == self[0]));
        self[0]
    }
}

#[derive(Clone, Copy, Default)]
struct Mul(u64);
impl BuildHasher for Mul {
    type Hasher = Mul;
    fn build_hasher(&self) -> Mul {
        *self
    }
}
impl Hasher for Mul {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}

fn mode() -> ResizeMode {
    if choose(2) == 0 {
        ResizeMode::Blocking
    } else {
        ResizeMode::Incremental(1)
    }
}
fn map<K: Ty, V: Ty>() {
    unsafe { ffi::vp_leak_start() };
    let map: HashMap<K, V, Mul> = HashMap::builder().hasher(Mul(5)).resize_mode(mode()).capacity(4).build();
    let mut m = [None; 10];
    let n = concrete(choose(if K::N == 1 { 2 } else { 3 }));
    let n = if n == 2 { K::N } else { n };
    {
        let g = map.guard();
        for k in 0..n {
            check(map.insert(K::mk(k), V::mk(k % V::N), &g).is_none(), 501);
            m[k as usize] = Some(k % V::N);
        }
        for _ in 0..2 {
            let k = pick(&[0, K::N - 1]);
            let v = pick(&[0, V::N - 1]);
            let was = &mut m[k as usize];
            let id = |x: Option<&V>| x.map(|x| x.id());
            match choose(9) {
                0 => check(id(map.get(&K::mk(k), &g)) == *was, 501),
                1 => {
                    check(id(map.insert(K::mk(k), V::mk(v), &g)) == *was, 501);
                    *was = Some(v);
                }
                2 => {
                    check(id(map.remove(&K::mk(k), &g)) == *was, 501);
                    *was = None;
                }
                3 => {
                    let ok = map.try_insert(K::mk(k), V::mk(v), &g).is_ok();
                    check(ok == was.is_none(), 501);
                    if ok {
                        *was = Some(v);
                    }
                }
                4 => {
                    let x = map.update(K::mk(k), |o| V::mk((o.id() + 1) % V::N), &g);
                    if let Some(o) = was {
                        *o = (*o + 1) % V::N;
                    }
                    check(id(x) == *was, 501);
                }
                5 => {
                    let c = map.compute(K::mk(k), |e| if e.is_some() { Operation::Remove } else { Operation::<V, ()>::Insert(V::mk(v)) }, &g);
                    match c {
                        Compute::Inserted(a, b) => {
                            check(was.is_none() && a.id() == k && b.id() == v, 501);
                            *was = Some(v);
                        }
                        Compute::Removed(a, b) => {
                            check(a.id() == k && Some(b.id()) == *was, 501);
                            *was = None;
                        }
                        _ => fail(15),
                    }
                }
                6 => {
                    let mut seen = [None; 10];
                    for (k, v) in map.iter(&g) {
                        check(seen[k.id() as usize].is_none(), 17);
                        seen[k.id() as usize] = Some(v.id());
                    }
                    check(seen == m, 801);
                }
                7 => {
                    map.retain(|x, _| x.id() != k, &g);
                    *was = None;
                }
                _ => {
                    map.clear(&g);
                    m = [None; 10];
                }
            }
            check(map.len() == m.iter().flatten().count(), 701);
        }
        for k in 0..K::N {
            check(map.get(&K::mk(k), &g).map(|x| x.id()) == m[k as usize], 502);
        }
        let c = map.clone();
        check(c == map, 502);
    }
    drop(map);
    unsafe { ffi::vp_leak_check(404) };
    reach(1);
}
fn set<K: Ty>() {
    unsafe { ffi::vp_leak_start() };
    let set: HashSet<K, Mul> = HashSet::builder().hasher(Mul(5)).resize_mode(mode()).capacity(4).build();
    let mut m = [0u8; 10];
    let n = pick(&[0, K::N]);
    for k in 0..n {
        check(set.pin().insert(K::mk(k)), 501);
        m[k as usize] = 1;
    }
    for _ in 0..2 {
        let k = pick(&[0, K::N - 1]);
        let was = &mut m[k as usize];
        match choose(4) {
            0 => check(set.pin().contains(&K::mk(k)) == (*was == 1), 501),
            1 => {
                check(set.pin().insert(K::mk(k)) == (*was == 0), 501);
                *was = 1;
            }
            2 => {
                check(set.pin().remove(&K::mk(k)) == (*was == 1), 501);
                *was = 0;
            }
            _ => {
                let mut seen = [0u8; 10];
                for k in &set.pin() {
                    check(seen[k.id() as usize] == 0, 17);
                    seen[k.id() as usize] = 1;
                }
                check((0..10).all(|i| seen[i] == m[i]), 801);
            }
        }
        check(set.len() == m.iter().filter(|x| **x == 1).count(), 701);
    }
    drop(set);
    unsafe { ffi::vp_leak_check(404) };
    reach(1);
}

macro_rules! types {
    ($($name:ident: $f:expr;)*) => {
        $(#[no_mangle]
        pub extern "C" fn $name() {
            $f()
        })*
    };
}
types! {
    y_zst: map::<(), ()>;
    y_zstv: map::<u8, ()>;
    y_zstk: map::<(), Box<u32>>;
    y_bool: map::<bool, u16>;
    y_three: map::<Three, u8>;
    y_u128: map::<u128, u8>;
    y_wide: map::<Three, Wide>;
    y_big: map::<u16, [u64; 9]>;
    y_box: map::<Box<u32>, Box<u32>>;
    ys_zst: set::<()>;
    ys_u8: set::<u8>;
    ys_box: set::<Box<u32>>;
    ys_wide: set::<Wide>;
}
