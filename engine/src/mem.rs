//! Execution states: memory objects, threads, vector clocks, hashing.
use crate::expr::*;
use crate::ir::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::rc::Rc;

/// Maximal number of threads (the main thread included).
pub const NT: usize = 5;
/// The first number of the symbols that say which loads read an earlier value.
pub const STALE_SYM: u32 = 1 << 24;
pub type Clk = [u16; NT];

pub fn join(a: &mut Clk, b: &Clk) {
    for i in 0..NT {
        if b[i] > a[i] {
            a[i] = b[i]
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Acc {
    NaW,
    NaR,
    AtW,
    AtR,
}

/// One recorded access (race detection).
#[derive(Clone, Copy)]
pub struct Sh {
    pub off: u32,
    pub len: u32,
    pub acc: Acc,
    pub tid: u8,
    pub clk: u16,
}

/// A value an atomic location had before its last store: what a thread may still
/// read that knows of no later store.
#[derive(Clone)]
pub struct Old {
    pub off: u32,
    pub len: u32,
    pub val: Val,
    /// What reading it with `Acquire` synchronizes with.
    pub rel: Clk,
    /// Who has read or written a later value, and when.
    pub floor: Clk,
    /// A `SeqCst` operation has read or written a later value.
    pub sc: bool,
    pub age: u8,
}
impl Old {
    pub fn hidden(&self, v: &Clk, w: &Clk) -> bool {
        (0..NT).any(|k| self.floor[k] <= v[k].max(w[k]))
    }
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<BTreeMap<u32, E>>>,
    pub shadow: Vec<Sh>,
    pub rel: Vec<(u32, Clk)>,
    pub hist: Vec<Old>,
    pub live: bool,
    pub shared: bool,
    pub counted: bool,
    pub align: u32,
    pub owner: u8,
    pub h: u128,
}

impl Obj {
    pub fn new(size: usize, align: u32, fill: u8) -> Obj {
        Obj { data: vec![fill; size], sym: None, shadow: vec![], rel: vec![], hist: vec![], live: true, shared: false, counted: false, align, owner: 0, h: 0 }
    }
    fn hash(&self) -> u128 {
        let mut h = Hasher2::new();
        h.put(self.data.len() as u64 | (self.live as u64) << 33 | (self.shared as u64) << 34 | (self.counted as u64) << 35 | (self.owner as u64) << 40);
        let mut c = self.data.chunks_exact(8);
        for w in &mut c {
            h.put(u64::from_le_bytes(w.try_into().unwrap()));
        }
        for b in c.remainder() {
            h.put(*b as u64);
        }
        if let Some(m) = &self.sym {
            for (o, e) in m.iter() {
                h.put(*o as u64 | 1 << 40);
                h.put(arena().hash[*e as usize]);
            }
        }
        let mut s = 0u128;
        for x in &self.shadow {
            let mut k = Hasher2::new();
            k.put(x.off as u64 | (x.len as u64) << 32);
            k.put(x.acc as u64 | (x.tid as u64) << 8 | (x.clk as u64) << 16);
            s = s.wrapping_add(k.fin());
        }
        for (o, c) in &self.rel {
            let mut k = Hasher2::new();
            k.put(*o as u64 | 3 << 50);
            for i in 0..NT {
                k.put(c[i] as u64);
            }
            s = s.wrapping_add(k.fin());
        }
        h.put(s as u64);
        h.put((s >> 64) as u64);
        for o in &self.hist {
            h.put(o.off as u64 | (o.len as u64) << 32 | (o.sc as u64) << 40 | (o.age as u64) << 41 | 1 << 63);
            hash_val(&mut h, &o.val);
            for i in 0..NT {
                h.put(o.rel[i] as u64 | (o.floor[i] as u64) << 16);
            }
        }
        h.fin().max(1)
    }
}

pub struct Hasher2 {
    a: u64,
    b: u64,
}
#[inline(always)]
fn fmul(x: u64, y: u64) -> u64 {
    let p = (x as u128) * (y as u128);
    (p as u64) ^ ((p >> 64) as u64)
}
impl Hasher2 {
    pub fn new() -> Self {
        Hasher2 { a: 0x243F6A8885A308D3, b: 0x13198A2E03707344 }
    }
    #[inline(always)]
    pub fn put(&mut self, x: u64) {
        self.a = fmul(self.a ^ x, 0x9E3779B97F4A7C15).wrapping_add(0xA4093822299F31D0);
        self.b = fmul(self.b.rotate_left(23) ^ x.wrapping_add(0x082EFA98EC4E6C89), 0xD6E8FEB86659FD93) ^ self.a.rotate_left(17);
    }
    pub fn fin(&self) -> u128 {
        let x = fmul(self.a ^ 0x452821E638D01377, 0xC2B2AE3D27D4EB4F ^ self.b.rotate_left(31));
        let y = fmul(self.b ^ 0xBE5466CF34E90C6C, 0x165667B19E3779F9 ^ self.a.rotate_left(11));
        ((x as u128) << 64) | y as u128
    }
}
fn mix(h: u128, i: usize) -> u128 {
    let mut k = Hasher2::new();
    k.put(h as u64);
    k.put((h >> 64) as u64);
    k.put(i as u64);
    k.fin()
}

#[derive(Clone)]
pub struct Region {
    pub objs: Rc<Vec<Rc<Obj>>>,
    pub sum: u128,
    pub dirty: Vec<u32>,
}
impl Region {
    pub fn new() -> Region {
        Region { objs: Rc::new(vec![]), sum: 0, dirty: vec![] }
    }
    pub fn push(&mut self, o: Obj) -> usize {
        let v = Rc::make_mut(&mut self.objs);
        v.push(Rc::new(o));
        self.dirty.push(v.len() as u32 - 1);
        v.len() - 1
    }
    #[inline]
    pub fn get_mut(&mut self, i: usize) -> &mut Obj {
        let v = Rc::make_mut(&mut self.objs);
        let o = Rc::make_mut(&mut v[i]);
        if o.h != 0 {
            self.sum = self.sum.wrapping_sub(mix(o.h, i));
            o.h = 0;
            self.dirty.push(i as u32);
        }
        o
    }
    pub fn truncate(&mut self, n: usize) {
        let v = Rc::make_mut(&mut self.objs);
        while v.len() > n {
            let o = v.pop().unwrap();
            if o.h != 0 {
                self.sum = self.sum.wrapping_sub(mix(o.h, v.len()));
            }
        }
        // (indices that are gone are skipped when hashing)
        if self.dirty.len() > 2 * v.len() + 64 {
            self.dirty.retain(|x| (*x as usize) < n && v[*x as usize].h == 0);
            self.dirty.sort_unstable();
            self.dirty.dedup();
        }
    }
    pub fn hash(&mut self) -> u128 {
        if !self.dirty.is_empty() {
            let v = Rc::make_mut(&mut self.objs);
            for i in self.dirty.drain(..) {
                if i as usize >= v.len() || v[i as usize].h != 0 {
                    continue;
                }
                let o = Rc::make_mut(&mut v[i as usize]);
                o.h = o.hash();
                self.sum = self.sum.wrapping_add(mix(o.h, i as usize));
            }
        }
        self.sum
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub block: u32,
    pub ip: u32,
    pub base: u32,
    pub regs: Vec<Val>,
    pub h: Cell<u128>,
}

pub fn hash_val(h: &mut Hasher2, v: &Val) {
    match v {
        Val::I(x) => h.put(*x),
        Val::W(x) => {
            h.put(**x as u64);
            h.put((**x >> 64) as u64)
        }
        Val::S(e) => {
            h.put(0x5555);
            h.put(arena().hash[*e as usize])
        }
        Val::A(v) => {
            for x in v.iter() {
                hash_val(h, x)
            }
        }
    }
}

impl Frame {
    fn hash(&self, top: bool) -> u128 {
        if !top && self.h.get() != 0 {
            return self.h.get();
        }
        let mut h = Hasher2::new();
        h.put(self.f as *const Func as u64);
        h.put(self.block as u64 | (self.ip as u64) << 32);
        h.put(self.base as u64);
        let l = self.f.live_at(self.block, self.ip, !top);
        for r in l.iter() {
            hash_val(&mut h, &self.regs[*r as usize]);
        }
        let r = h.fin().max(1);
        if !top {
            self.h.set(r);
        }
        r
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Status {
    Ready,
    /// Waits until the 32-bit word is 0 (a contended mutex).
    Lock(u64),
    /// Waits until the 32-bit word is 1 (a parked thread).
    Park(u64),
    /// Waits until the other threads are done.
    Join,
    Done,
}

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Rc<Frame>>,
    pub status: Status,
    /// The scheduler has granted the pending visible operation.
    pub granted: bool,
    /// The thread stands before a visible operation.
    pub poised: bool,
    pub vc: Clk,
    pub acqf: Clk,
    pub relf: Clk,
    pub raw: u32,
    /// Not preempted unless it blocks.
    pub serial: bool,
    pub nsym: u32,
    /// How many weak exchanges may still fail for no reason.
    pub spurious: u32,
    /// How many loads may still read a value that is not the last one.
    pub stale: u32,
    /// What the thread knows of by fences (not by happens-before).
    pub view: Clk,
    pub events: u32,
    pub panics: u32,
    pub payloads: Vec<(u64, u64)>,
    pub handle: u64,
    pub tls: Vec<(u64, u64)>,
    pub h: Cell<u128>,
}

impl Thread {
    pub fn new() -> Thread {
        Thread {
            frames: vec![],
            status: Status::Ready,
            granted: false,
            poised: false,
            vc: [0; NT],
            acqf: [0; NT],
            relf: [0; NT],
            raw: 0,
            serial: false,
            nsym: 0,
            spurious: 0,
            stale: 0,
            view: [0; NT],
            events: 0,
            panics: 0,
            payloads: vec![],
            handle: 0,
            tls: vec![],
            h: Cell::new(0),
        }
    }
    fn hash(&self, hb: bool) -> u128 {
        if self.h.get() != 0 {
            return self.h.get();
        }
        let mut h = Hasher2::new();
        let n = self.frames.len();
        for (i, f) in self.frames.iter().enumerate() {
            let x = f.hash(i + 1 == n);
            h.put(x as u64);
            h.put((x >> 64) as u64);
        }
        h.put(match self.status {
            Status::Ready => 1,
            Status::Lock(a) => a * 8 + 2,
            Status::Park(a) => a * 8 + 3,
            Status::Join => 4,
            Status::Done => 5,
        });
        for p in &self.payloads {
            h.put(p.0);
        }
        h.put(self.raw as u64 | (self.nsym as u64) << 8 | (self.panics as u64) << 32 | (self.granted as u64) << 40 | (self.serial as u64) << 41 | (self.spurious as u64) << 42 | (self.stale as u64) << 52);
        h.put(self.handle);
        h.put(self.tls.len() as u64);
        if hb {
            for i in 0..NT {
                h.put(self.vc[i] as u64 | (self.acqf[i] as u64) << 16 | (self.relf[i] as u64) << 32 | (self.view[i] as u64) << 48);
            }
        }
        let r = h.fin().max(1);
        self.h.set(r);
        r
    }
}

/// The schedule so far: (thread, number of its events executed), newest first.
pub struct Sched {
    pub tid: u8,
    pub upto: u32,
    pub prev: Option<Rc<Sched>>,
}
impl Drop for Sched {
    fn drop(&mut self) {
        let mut p = self.prev.take();
        while let Some(x) = p {
            match Rc::try_unwrap(x) {
                Ok(mut s) => p = s.prev.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Clone)]
pub struct State {
    /// 0: mutable globals; 1 + 2t: heap of thread t; 2 + 2t: stack of thread t.
    pub regs: Vec<Region>,
    pub threads: Vec<Rc<Thread>>,
    pub unfinished: u32,
    pub pc: Rc<Vec<E>>,
    pub pch: u64,
    pub model: Rc<Model>,
    pub sched: Option<Rc<Sched>>,
    pub steps: u64,
    pub last: u8,
    pub preempt: u32,
    pub leak: bool,
    /// How many stale reads each thread is given.
    pub stale: u32,
    /// What the fences so far have made known.
    pub gview: Clk,
    pub allow_abort: bool,
    pub alloc_limit: u64,
    pub trace: Option<Rc<Vec<(u32, u64)>>>,
}

pub const HEAP_ID: u64 = 1 << 24;
pub const STACK_ID: u64 = 0x4000_0000;

impl State {
    pub fn hash(&mut self, hb: bool, with_last: bool) -> u128 {
        let mut h = Hasher2::new();
        for r in self.regs.iter_mut() {
            let x = r.hash();
            h.put(x as u64);
            h.put((x >> 64) as u64);
        }
        for t in &self.threads {
            let x = t.hash(hb);
            h.put(x as u64);
            h.put((x >> 64) as u64);
        }
        h.put(self.pch);
        h.put(self.leak as u64 | (self.allow_abort as u64) << 1 | (self.alloc_limit) << 2);
        if self.stale > 0 {
            for i in 0..NT {
                h.put(self.gview[i] as u64);
            }
        }
        if with_last {
            h.put(self.last as u64);
        }
        h.fin()
    }
    /// Without what only the order of independent events decides.
    pub fn hash_plain(&self) -> u128 {
        let mut s = self.clone();
        for r in s.regs.iter_mut() {
            for i in 0..r.objs.len() {
                let o = r.get_mut(i);
                o.shadow.clear();
                o.rel.clear();
                o.hist.clear();
            }
        }
        s.gview = [0; NT];
        for t in s.threads.iter_mut() {
            Rc::make_mut(t).h.set(0);
        }
        s.hash(false, false)
    }
    pub fn add_pc(&mut self, e: E) {
        if as_const(e) == Some(1) {
            return;
        }
        let v = Rc::make_mut(&mut self.pc);
        if !v.contains(&e) {
            v.push(e);
            self.pch = self.pch.wrapping_add(hmix(arena().hash[e as usize], 77));
        }
    }
    pub fn schedule(&self) -> Vec<(u8, u32)> {
        let mut v = vec![];
        let mut p = self.sched.as_ref();
        while let Some(s) = p {
            v.push((s.tid, s.upto));
            p = s.prev.as_ref();
        }
        v.reverse();
        v
    }
}
