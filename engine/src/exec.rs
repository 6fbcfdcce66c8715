//! The symbolic interpreter: executes LLVM IR on `State`s.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::Z3;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub code: u32,
    pub msg: String,
    pub tid: usize,
    pub stack: Vec<String>,
}

pub enum Stop {
    /// Execute the instruction again (the state was forked).
    Redo,
    Poised,
    Blocked,
    Done,
    /// The path ends (assumption, documented abort).
    Dead,
    Viol(Box<Viol>),
}
pub type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq)]
pub enum Hb {
    Off,
    Writes,
    Full,
}

pub struct Stats {
    pub ins: u64,
    pub slices: u64,
    pub forks: u64,
    pub decisions: u64,
    pub dead: u64,
    pub reached: BTreeMap<u32, u64>,
    pub concretised: u64,
    pub aborts: u64,
    pub asserts: u64,
}

pub struct Ex {
    pub prog: &'static Program,
    pub z3: Z3,
    pub hb: Hb,
    pub spurious: bool,
    pub gmap: Vec<(bool, u32)>, // (mutable, index)
    pub consts: Vec<Rc<Obj>>,
    pub forks: Vec<State>,
    /// Accesses to shared objects (see `dpor`), and how many there were at each fork.
    pub log_on: bool,
    pub log: Vec<crate::dpor::LogEnt>,
    pub fork_marks: Vec<usize>,
    pub st: Stats,
    pub fnames: Vec<String>,
    pub panic_count: u64,
    pub deadline: std::time::Instant,
    pub timed_out: bool,
    pub max_slice: u64,
    pub max_path: u64,
    /// Thread, number of the symbol, its value.
    pub fix: Vec<(u32, u32, u64)>,
    pub dead_obj: Rc<Obj>,
    pub traced: bool,
    pub cur_ins: (u32, u32),
    /// The violations of interest: (kind, lowest code, highest code); empty: all; and those to ignore.
    pub accept: Vec<(String, u32, u32)>,
    pub ignore: Vec<(String, u32, u32)>,
    /// Failed assertions of other properties.
    pub skipped: BTreeMap<(String, u32), u64>,
}

fn strip(n: &str) -> String {
    let b = n.as_bytes();
    if n.starts_with("_ZN") && b.len() > 20 && b[b.len() - 1] == b'E' && &n[n.len() - 20..n.len() - 17] == "17h" {
        return n[..n.len() - 20].to_string();
    }
    n.to_string()
}

pub fn demangle(n: &str) -> String {
    // legacy mangling, for display only
    if !n.starts_with("_ZN") {
        return n.to_string();
    }
    let s = &n[3..];
    let b = s.as_bytes();
    let mut i = 0;
    let mut out: Vec<String> = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut k = 0;
        while i < b.len() && b[i].is_ascii_digit() {
            k = k * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + k > b.len() {
            break;
        }
        let part = &s[i..i + k];
        i += k;
        if part.len() == 17 && part.starts_with('h') {
            continue;
        }
        out.push(
            part.replace("$LT$", "<")
                .replace("$GT$", ">")
                .replace("$C$", ",")
                .replace("$u20$", " ")
                .replace("$RF$", "&")
                .replace("$u7b$", "{")
                .replace("$u7d$", "}")
                .replace("..", "::"),
        );
    }
    out.join("::")
}

pub fn vint(v: &Val) -> Option<u64> {
    match v {
        Val::I(x) => Some(*x),
        _ => None,
    }
}
pub fn expr_of(v: &Val, w: u32) -> E {
    match v {
        Val::I(x) => konst(*x, w),
        Val::S(e) => *e,
        _ => panic!("expr_of {:?}", v),
    }
}
pub fn val_of(e: E) -> Val {
    match as_const(e) {
        Some(k) => Val::I(k),
        None => Val::S(e),
    }
}

impl Ex {
    pub fn new(prog: &'static Program) -> Ex {
        let mut ex = Ex {
            prog,
            z3: Z3::new(),
            hb: Hb::Full,
            spurious: false,
            gmap: vec![],
            consts: vec![],
            forks: vec![],
            log_on: false,
            log: vec![],
            fork_marks: vec![],
            st: Stats {
                ins: 0,
                slices: 0,
                forks: 0,
                decisions: 0,
                dead: 0,
                reached: BTreeMap::new(),
                concretised: 0,
                aborts: 0,
                asserts: 0,
            },
            fnames: prog.fns.iter().map(|f| strip(&f.name)).collect(),
            panic_count: 0,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(1 << 30),
            timed_out: false,
            max_slice: 3_000_000,
            max_path: 30_000_000,
            fix: vec![],
            accept: vec![],
            ignore: vec![],
            skipped: BTreeMap::new(),
            dead_obj: Rc::new(Obj { live: false, ..Obj::new(0, 1, 0) }),
            traced: false,
            cur_ins: (0, 0),
        };
        for (i, g) in prog.globals.iter().enumerate() {
            if g.name.contains("18GLOBAL_PANIC_COUNT") {
                ex.panic_count = (GLOBAL_ID0 + i as u64) << 32;
            }
        }
        ex
    }

    /// The initial state: `entry` about to run in thread 0.
    pub fn initial(&mut self, entry: &str) -> State {
        let mut st = State {
            regs: (0..1 + 2 * NT).map(|_| Region::new()).collect(),
            threads: vec![Rc::new(Thread::new())],
            unfinished: 1,
            pc: Rc::new(vec![]),
            pch: 0,
            model: Rc::new(vec![]),
            sched: None,
            steps: 0,
            last: 0,
            preempt: 0,
            leak: false,
            stale: 0,
            gview: [0; NT],
            allow_abort: false,
            alloc_limit: 1 << 26,
            trace: None,
        };
        self.gmap.clear();
        self.consts.clear();
        for (i, g) in self.prog.globals.iter().enumerate() {
            if g.tls {
                self.gmap.push((false, u32::MAX));
                continue;
            }
            // constants are only read when used: cheap enough to build all
            let b = self.prog.global_bytes(i);
            let mut o = Obj::new(0, g.align as u32, 0);
            o.data = (*b).clone();
            o.shared = !g.name.contains("GLOBAL_PANIC_COUNT");
            if g.constant {
                self.consts.push(Rc::new(o));
                self.gmap.push((false, self.consts.len() as u32 - 1));
            } else {
                let k = st.regs[0].push(o);
                self.gmap.push((true, k as u32));
            }
        }
        let a = *self.prog.symbols.get(entry).unwrap_or_else(|| {
            eprintln!("ENGINE-ERROR no scenario {}", entry);
            std::process::exit(3)
        });
        let f = self.prog.func(((a - FN_BASE) / 16) as usize).unwrap();
        let th = Rc::make_mut(&mut st.threads[0]);
        th.vc[0] = 1;
        th.frames.push(Rc::new(Frame { f, block: 0, ip: 0, base: 0, regs: vec![Val::I(0); f.nregs as usize], h: Default::default() }));
        f.count.set(f.count.get() + 1);
        st
    }

    pub fn wanted(&self, kind: &str, code: u32) -> bool {
        let hit = |l: &Vec<(String, u32, u32)>| l.iter().any(|(k, a, b)| *k == kind && *a <= code && code <= *b);
        (self.accept.is_empty() || hit(&self.accept)) && !hit(&self.ignore)
    }

    pub fn viol<T>(&self, st: &State, t: usize, kind: &str, code: u32, msg: String) -> R<T> {
        let stack = st.threads[t].frames.iter().rev().map(|f| demangle(&f.f.name)).collect();
        Err(Stop::Viol(Box::new(Viol { kind: kind.into(), code, msg, tid: t, stack })))
    }

    pub fn unsupported(&self, st: &State, t: usize, msg: &str) -> ! {
        eprintln!("ENGINE-ERROR unsupported: {}", msg);
        for f in st.threads[t].frames.iter().rev() {
            eprintln!("   in {}", demangle(&f.f.name));
        }
        std::process::exit(3)
    }

    // ------------------------------------------------------------ decisions

    /// Decides a condition: both outcomes, when feasible, are explored.
    pub fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = as_const(c) {
            return Ok(k == 1);
        }
        let nc = not(c);
        if st.pc.contains(&c) {
            return Ok(true);
        }
        if st.pc.contains(&nc) {
            return Ok(false);
        }
        self.st.decisions += 1;
        let cur = eval(c, &st.model) == 1;
        let (mine, other) = if cur { (c, nc) } else { (nc, c) };
        match self.z3.check(&st.pc, other, &st.model) {
            None => Ok(cur),
            Some(m) => {
                let mut f = st.clone();
                f.model = Rc::new(m);
                f.add_pc(other);
                self.forks.push(f);
                self.fork_marks.push(self.log.len());
                self.st.forks += 1;
                st.add_pc(mine);
                Err(Stop::Redo)
            }
        }
    }
    /// Makes an expression concrete; the other feasible values are explored too.
    pub fn concrete(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::S(e) => {
                let k = eval(*e, &st.model);
                let c = bin(Op::Eq, *e, konst(k, w));
                self.st.concretised += 1;
                self.decide(st, c)?;
                Ok(k)
            }
            _ => panic!("concrete {:?}", v),
        }
    }

    // ------------------------------------------------------------ memory

    fn locate(&self, st: &State, t: usize, addr: u64, len: u64, what: &str) -> R<(usize, usize, usize)> {
        // region (usize::MAX: constants), index, offset
        let id = addr >> 32;
        let mut off = addr & 0xffff_ffff;
        let (r, i) = if id < GLOBAL_ID0 {
            return self.viol(st, t, "memory", 0, format!("{} of {} bytes at invalid address {:#x}", what, len, addr));
        } else if id < HEAP_ID {
            let g = (id - GLOBAL_ID0) as usize;
            match self.gmap.get(g) {
                Some((false, k)) if *k != u32::MAX => (usize::MAX, *k as usize),
                Some((true, k)) => (0, *k as usize),
                _ => return self.viol(st, t, "memory", 0, format!("{} at invalid address {:#x}", what, addr)),
            }
        } else if id < STACK_ID {
            (1 + 2 * ((id >> 24) as usize - 1), (id & 0xff_ffff) as usize)
        } else {
            (2 + 2 * ((id >> 20) & 0x3ff) as usize, (id & 0xf_ffff) as usize)
        };
        if r != usize::MAX && (r >= st.regs.len() || i >= st.regs[r].objs.len()) {
            return self.viol(st, t, "memory", 0, format!("{} of {} bytes at invalid address {:#x}", what, len, addr));
        }
        let o: &Obj = if r == usize::MAX { &self.consts[i] } else { &st.regs[r].objs[i] };
        if !o.live {
            return self.viol(st, t, "memory", 1, format!("{} of {} bytes in freed memory ({:#x})", what, len, addr));
        }
        if (HEAP_ID..STACK_ID).contains(&id) {
            // see `alloc`
            off = off.wrapping_sub(o.align as u64);
        }
        if off > o.data.len() as u64 || off + len > o.data.len() as u64 {
            return self.viol(st, t, "memory", 2, format!("{} of {} bytes at offset {} of an object of {} bytes", what, len, off, o.data.len()));
        }
        Ok((r, i, off as usize))
    }
    #[inline]
    fn obj<'a>(&'a self, st: &'a State, r: usize, i: usize) -> &'a Obj {
        if r == usize::MAX {
            &self.consts[i]
        } else {
            &st.regs[r].objs[i]
        }
    }

    /// Race detection for one access.
    fn access(&mut self, st: &mut State, t: usize, r: usize, i: usize, off: usize, len: usize, acc: Acc) -> R<()> {
        if self.log_on && st.unfinished > 1 && r != usize::MAX && len != 0 && st.regs[r].objs[i].shared {
            let e = ((r as u64) << 32 | i as u64, off as u32, (off + len) as u32, matches!(acc, Acc::NaW | Acc::AtW));
            if self.log.last() != Some(&e) {
                self.log.push(e);
            }
        }
        if self.hb == Hb::Off || st.unfinished < 2 || r == usize::MAX || len == 0 {
            return Ok(());
        }
        let th = &st.threads[t];
        if th.raw != 0 {
            return Ok(());
        }
        let o = &st.regs[r].objs[i];
        if !o.shared {
            return Ok(());
        }
        let vc = th.vc;
        let (lo, hi) = (off as u32, (off + len) as u32);
        let me = Sh { off: lo, len: len as u32, acc, tid: t as u8, clk: vc[t] };
        let mut same = false;
        for s in &o.shadow {
            if s.off < hi && lo < s.off + s.len {
                if s.tid as usize == t {
                    if s.acc == acc && s.off <= lo && s.off + s.len >= hi && s.clk == me.clk {
                        same = true;
                    }
                    continue;
                }
                let conflict = match (s.acc, acc) {
                    (Acc::NaW, _) | (_, Acc::NaW) => true,
                    (Acc::NaR, Acc::AtW) | (Acc::AtW, Acc::NaR) => true,
                    _ => false,
                };
                if conflict && s.clk > vc[s.tid as usize] {
                    let (a, b) = (format!("{:?}", s.acc), format!("{:?}", acc));
                    let (st_, s_) = (s.tid, s.off);
                    return self.viol(
                        st,
                        t,
                        "race",
                        0,
                        format!("data race: {} by thread {} and {} by thread {} at offset {} (object of {} bytes) are not ordered", a, st_, b, t, s_.max(lo), self.obj(st, r, i).data.len()),
                    );
                }
            }
        }
        if same {
            return Ok(());
        }
        if self.hb == Hb::Writes && matches!(acc, Acc::NaR | Acc::AtR) {
            return Ok(());
        }
        // clocks below which everything is ordered before every running thread
        let mut low = [u16::MAX; NT];
        for th in &st.threads {
            if th.status != Status::Done {
                for k in 0..NT {
                    low[k] = low[k].min(th.vc[k]);
                }
            }
        }
        let o = st.regs[r].get_mut(i);
        o.shadow.retain(|s| {
            if s.clk <= low[s.tid as usize] {
                return false;
            }
            let covered = lo <= s.off && s.off + s.len <= hi;
            let ordered = s.tid as usize == t || s.clk <= vc[s.tid as usize];
            if !(covered && ordered) {
                return true;
            }
            match acc {
                Acc::NaW => false,
                Acc::NaR => !matches!(s.acc, Acc::NaR | Acc::AtR),
                Acc::AtW => !matches!(s.acc, Acc::AtW | Acc::AtR),
                Acc::AtR => !matches!(s.acc, Acc::AtR),
            }
        });
        o.shadow.push(me);
        Ok(())
    }

    /// Marks the object as visible to other threads.
    fn share(&mut self, st: &mut State, t: usize, addr: u64) {
        let mut work = vec![addr];
        while let Some(a) = work.pop() {
            let id = a >> 32;
            let (r, i) = if id < HEAP_ID {
                continue;
            } else if id < STACK_ID {
                (1 + 2 * ((id >> 24) as usize - 1), (id & 0xff_ffff) as usize)
            } else if id < STACK_ID + (NT as u64) * (1 << 20) {
                (2 + 2 * ((id >> 20) & 0x3ff) as usize, (id & 0xf_ffff) as usize)
            } else {
                continue;
            };
            if r >= st.regs.len() || i >= st.regs[r].objs.len() {
                continue;
            }
            let o = &st.regs[r].objs[i];
            if !o.live || o.shared {
                continue;
            }
            let clk = st.threads[t].vc[t];
            let hb = self.hb != Hb::Off && st.threads[t].raw == 0;
            let o = st.regs[r].get_mut(i);
            o.shared = true;
            if hb && st.unfinished > 1 {
                o.shadow.push(Sh { off: 0, len: o.data.len() as u32, acc: Acc::NaW, tid: t as u8, clk });
            }
            for w in o.data.chunks_exact(8) {
                let x = u64::from_le_bytes(w.try_into().unwrap());
                if x >> 32 >= HEAP_ID {
                    work.push(x);
                }
            }
        }
    }

    fn read_bytes(&self, st: &State, r: usize, i: usize, off: usize, n: usize) -> Val {
        let o = self.obj(st, r, i);
        if let Some(m) = &o.sym {
            if m.range(off as u32..(off + n) as u32).next().is_some() {
                let mut e: Option<E> = None;
                for k in 0..n {
                    let b = match m.get(&((off + k) as u32)) {
                        Some(x) => *x,
                        None => konst(o.data[off + k] as u64, 8),
                    };
                    e = Some(match e {
                        None => b,
                        Some(l) => concat(b, l),
                    });
                }
                return val_of(e.unwrap());
            }
        }
        let d = &o.data[off..off + n];
        match n {
            8 => Val::I(u64::from_le_bytes(d.try_into().unwrap())),
            4 => Val::I(u32::from_le_bytes(d.try_into().unwrap()) as u64),
            1 => Val::I(d[0] as u64),
            _ => {
                let mut x = 0u64;
                for k in (0..n).rev() {
                    x = x << 8 | d[k] as u64;
                }
                Val::I(x)
            }
        }
    }
    fn write_bytes(&mut self, st: &mut State, t: usize, r: usize, i: usize, off: usize, n: usize, v: &Val) {
        match v {
            Val::I(x) => {
                if *x >> 32 >= HEAP_ID && st.unfinished > 1 && n == 8 && st.regs[r].objs[i].shared {
                    self.share(st, t, *x);
                }
                let o = st.regs[r].get_mut(i);
                if let Some(m) = &mut o.sym {
                    for k in 0..n {
                        m.remove(&((off + k) as u32));
                    }
                    if m.is_empty() {
                        o.sym = None;
                    }
                }
                let b = x.to_le_bytes();
                o.data[off..off + n].copy_from_slice(&b[..n]);
            }
            Val::S(e) => {
                let w = width(*e);
                let e = if w < 8 * n as u32 { zext(*e, 8 * n as u32) } else { *e };
                let o = st.regs[r].get_mut(i);
                let m = o.sym.get_or_insert_with(Default::default);
                for k in 0..n {
                    let b = extract(e, 8 * k as u32, 8);
                    match as_const(b) {
                        Some(x) => {
                            m.remove(&((off + k) as u32));
                            o.data[off + k] = x as u8;
                        }
                        None => {
                            m.insert((off + k) as u32, b);
                            o.data[off + k] = 0;
                        }
                    }
                }
            }
            _ => unreachable!(),
        }
    }

    fn read_ty(&self, st: &State, r: usize, i: usize, off: usize, ty: &Ty) -> Val {
        match ty {
            Ty::Int(1) => match self.read_bytes(st, r, i, off, 1) {
                Val::I(x) => Val::I(x & 1),
                Val::S(e) => val_of(extract(e, 0, 1)),
                _ => unreachable!(),
            },
            Ty::Int(b) if *b <= 64 => {
                let n = (*b as usize + 7) / 8;
                match self.read_bytes(st, r, i, off, n) {
                    Val::I(x) => Val::I(mask(x, *b)),
                    Val::S(e) => val_of(extract(e, 0, *b)),
                    _ => unreachable!(),
                }
            }
            Ty::Ptr => self.read_bytes(st, r, i, off, 8),
            Ty::Int(_) => {
                let lo = self.read_bytes(st, r, i, off, 8);
                let hi = self.read_bytes(st, r, i, off + 8, 8);
                match (lo, hi) {
                    (Val::I(l), Val::I(h)) => Val::w((h as u128) << 64 | l as u128),
                    _ => {
                        eprintln!("ENGINE-ERROR symbolic 128-bit load");
                        std::process::exit(3)
                    }
                }
            }
            Ty::Arr(n, t) => Val::a((0..*n as usize).map(|k| self.read_ty(st, r, i, off + k * t.size() as usize, t)).collect()),
            Ty::Vec(n, t) => Val::a((0..*n as usize).map(|k| self.read_ty(st, r, i, off + k * t.size() as usize, t)).collect()),
            Ty::Struct(fs, _) => Val::a(
                (0..fs.len())
                    .map(|k| {
                        let (o, ft) = ty.field(k as u64);
                        self.read_ty(st, r, i, off + o as usize, &ft)
                    })
                    .collect()
            ),
            _ => panic!("load of {:?}", ty),
        }
    }
    fn write_ty(&mut self, st: &mut State, t: usize, r: usize, i: usize, off: usize, ty: &Ty, v: &Val) {
        match (ty, v) {
            (Ty::Int(b), Val::I(_) | Val::S(_)) => self.write_bytes(st, t, r, i, off, (*b as usize + 7) / 8, v),
            (Ty::Ptr, _) => self.write_bytes(st, t, r, i, off, 8, v),
            (Ty::Int(_), Val::W(x)) => {
                self.write_bytes(st, t, r, i, off, 8, &Val::I(**x as u64));
                self.write_bytes(st, t, r, i, off + 8, 8, &Val::I((**x >> 64) as u64));
            }
            (Ty::Arr(_, et) | Ty::Vec(_, et), Val::A(vs)) => {
                let sz = et.size() as usize;
                for (k, x) in vs.iter().enumerate() {
                    self.write_ty(st, t, r, i, off + k * sz, et, x);
                }
            }
            (Ty::Struct(..), Val::A(vs)) => {
                for (k, x) in vs.iter().enumerate() {
                    let (o, ft) = ty.field(k as u64);
                    self.write_ty(st, t, r, i, off + o as usize, &ft, x);
                }
            }
            _ => panic!("store of {:?} {:?}", ty, v),
        }
    }

    pub fn load(&mut self, st: &mut State, t: usize, addr: u64, ty: &Ty) -> R<Val> {
        let n = ty.store_size();
        let (r, i, off) = self.locate(st, t, addr, n, "read")?;
        self.access(st, t, r, i, off, n as usize, Acc::NaR)?;
        Ok(self.read_ty(st, r, i, off, ty))
    }
    pub fn store(&mut self, st: &mut State, t: usize, addr: u64, ty: &Ty, v: &Val) -> R<()> {
        let n = ty.store_size();
        let (r, i, off) = self.locate(st, t, addr, n, "write")?;
        if r == usize::MAX {
            return self.viol(st, t, "memory", 3, format!("write to constant memory {:#x}", addr));
        }
        self.access(st, t, r, i, off, n as usize, Acc::NaW)?;
        if st.stale > 0 && st.threads[t].raw == 0 && st.regs[r].objs[i].hist.iter().any(|h| (h.off as usize) < off + n as usize && off < (h.off + h.len) as usize) {
            st.regs[r].get_mut(i).hist.retain(|h| !((h.off as usize) < off + n as usize && off < (h.off + h.len) as usize));
        }
        self.write_ty(st, t, r, i, off, ty, v);
        Ok(())
    }
    /// Is an atomic access at `addr` a scheduling point?
    fn gate(&self, st: &mut State, t: usize, addr: u64) -> R<()> {
        if st.unfinished < 2 {
            return Ok(());
        }
        let th = &st.threads[t];
        if th.raw != 0 || th.serial || th.granted {
            return Ok(());
        }
        let (r, i, _) = self.locate(st, t, addr, 1, "atomic access")?;
        if !self.obj(st, r, i).shared || addr == self.panic_count {
            return Ok(());
        }
        Err(Stop::Poised)
    }
    fn visible(&self, st: &mut State, t: usize) -> R<()> {
        if st.unfinished < 2 || st.threads[t].raw != 0 || st.threads[t].serial || st.threads[t].granted {
            return Ok(());
        }
        Err(Stop::Poised)
    }
    fn done_event(&self, st: &mut State, t: usize) {
        let th = Rc::make_mut(&mut st.threads[t]);
        th.granted = false;
        th.events += 1;
    }
    fn hb_read(&self, st: &mut State, t: usize, r: usize, i: usize, off: usize, o: Ord) {
        if self.hb == Hb::Off || r == usize::MAX {
            return;
        }
        let ob = &st.regs[r].objs[i];
        if let Some((_, c)) = ob.rel.iter().find(|x| x.0 == off as u32) {
            let c = *c;
            let th = Rc::make_mut(&mut st.threads[t]);
            join(&mut th.acqf, &c);
            if o.acq {
                join(&mut th.vc, &c);
            }
        }
    }
    fn hb_write(&self, st: &mut State, t: usize, r: usize, i: usize, off: usize, o: Ord, rmw: bool) {
        if self.hb == Hb::Off {
            return;
        }
        if st.unfinished < 2 {
            // everything is ordered before any thread spawned later
            return;
        }
        let th = &st.threads[t];
        let mut c = if o.rel { th.vc } else { th.relf };
        if rmw {
            if let Some((_, p)) = st.regs[r].objs[i].rel.iter().find(|x| x.0 == off as u32) {
                join(&mut c, p);
            }
        }
        let cur = st.regs[r].objs[i].rel.iter().find(|x| x.0 == off as u32).map(|x| x.1);
        let zero = c == [0; NT];
        if !(cur == Some(c) || (cur.is_none() && zero)) {
            let ob = st.regs[r].get_mut(i);
            ob.rel.retain(|x| x.0 != off as u32);
            if !zero {
                ob.rel.push((off as u32, c));
            }
        }
        if o.rel && self.obj(st, r, i).shared {
            let th = Rc::make_mut(&mut st.threads[t]);
            th.vc[t] += 1;
        }
    }

    /// Keeps the value an atomic location has before a store.
    fn weak_write(&self, st: &mut State, t: usize, r: usize, i: usize, off: usize, ty: &Ty, o: Ord) {
        if st.stale == 0 || st.unfinished < 2 || st.threads[t].raw != 0 || !st.regs[r].objs[i].shared {
            return;
        }
        let n = ty.size() as u32;
        if n > 8 {
            return;
        }
        let val = self.read_ty(st, r, i, off, ty);
        let rel = st.regs[r].objs[i].rel.iter().find(|x| x.0 == off as u32).map(|x| x.1).unwrap_or([0; NT]);
        let now = st.threads[t].vc[t];
        let who: Vec<(Clk, Clk)> = st.threads.iter().filter(|h| h.status != Status::Done).map(|h| (h.vc, h.view)).collect();
        let ob = st.regs[r].get_mut(i);
        ob.hist.push(Old { off: off as u32, len: n, val, rel, floor: [u16::MAX; NT], sc: false, age: 0 });
        for h in ob.hist.iter_mut().filter(|h| h.off == off as u32) {
            h.floor[t] = h.floor[t].min(now);
            h.sc |= o.sc;
            h.age += 1;
        }
        ob.hist.retain(|h| h.off != off as u32 || h.age <= 3 && who.iter().any(|(v, w)| !h.hidden(v, w)));
    }
    /// Fences are ordered one after another.
    fn fence_log(&mut self, st: &State) {
        if self.log_on && st.unfinished > 1 {
            self.log.push((u64::MAX - 1, 0, 1, true));
        }
    }
    fn publish(&self, st: &mut State, t: usize) {
        let (vc, view) = (st.threads[t].vc, st.threads[t].view);
        join(&mut st.gview, &vc);
        join(&mut st.gview, &view);
        if st.unfinished > 1 {
            // (what the thread does later is not known)
            Rc::make_mut(&mut st.threads[t]).vc[t] += 1;
        }
    }
    fn learn(&self, st: &mut State, t: usize) {
        let g = st.gview;
        join(&mut Rc::make_mut(&mut st.threads[t]).view, &g);
    }
    /// The thread has read the last value.
    fn weak_seen(&self, st: &mut State, t: usize, r: usize, i: usize, off: usize, o: Ord) {
        if st.stale == 0 || st.threads[t].raw != 0 || st.regs[r].objs[i].hist.is_empty() {
            return;
        }
        let now = st.threads[t].vc[t];
        for h in st.regs[r].get_mut(i).hist.iter_mut().filter(|h| h.off == off as u32) {
            h.floor[t] = h.floor[t].min(now);
            h.sc |= o.sc;
        }
    }
    /// What an atomic load reads if not the last value: the value and its release clock.
    fn weak_read(&mut self, st: &mut State, t: usize, r: usize, i: usize, off: usize, n: u32, o: Ord) -> R<Option<(Val, Clk)>> {
        if r == usize::MAX || st.stale == 0 || st.unfinished < 2 || st.threads[t].raw != 0 || st.regs[r].objs[i].hist.is_empty() {
            return Ok(None);
        }
        let (vc, view) = (st.threads[t].vc, st.threads[t].view);
        let mut pick = None;
        if st.threads[t].stale > 0 {
            for k in (0..st.regs[r].objs[i].hist.len()).rev() {
                let h = &st.regs[r].objs[i].hist[k];
                if h.off != off as u32 || h.len != n || h.hidden(&vc, &view) || (o.sc && h.sc) {
                    continue;
                }
                // (a number of its own: `age` values ago, at this event)
                let seq = crate::mem::STALE_SYM | st.threads[t].events << 2 | h.age as u32;
                let yes = match self.fix.iter().find(|x| x.0 == t as u32 && x.1 == seq) {
                    Some(x) => x.2 & 1 == 1,
                    None => {
                        let c = sym(t as u32, seq, 1);
                        self.decide(st, c)?
                    }
                };
                if yes {
                    pick = Some(k);
                    break;
                }
            }
        }
        if pick.is_some() {
            Rc::make_mut(&mut st.threads[t]).stale -= 1;
        }
        // earlier values are gone for this thread, and for those that hear of this load
        let end = pick.unwrap_or(usize::MAX);
        let h = &st.regs[r].objs[i].hist;
        if (0..h.len().min(end)).any(|k| h[k].off == off as u32 && (h[k].floor[t] > vc[t] || (o.sc && !h[k].sc))) {
            if o.sc && self.log_on {
                // of two such loads the first restricts the second
                let h = &st.regs[r].objs[i].hist;
                let first = (0..h.len().min(end)).any(|k| h[k].off == off as u32 && !h[k].sc && st.threads.iter().enumerate().any(|(j, x)| j != t && x.stale > 0 && x.status != Status::Done && !h[k].hidden(&x.vc, &x.view)));
                if first {
                    self.log.push(((r as u64) << 32 | i as u64, off as u32, off as u32 + n, true));
                }
            }
            let ob = st.regs[r].get_mut(i);
            for (k, h) in ob.hist.iter_mut().enumerate() {
                if k < end && h.off == off as u32 {
                    h.floor[t] = h.floor[t].min(vc[t]);
                    h.sc |= o.sc;
                }
            }
        }
        Ok(pick.map(|k| {
            let h = &st.regs[r].objs[i].hist[k];
            (h.val.clone(), h.rel)
        }))
    }

    /// The address is a multiple of the alignment, but not of twice the alignment.
    pub fn alloc(&mut self, st: &mut State, t: usize, size: u64, align: u64, fill: u8) -> u64 {
        let leak = st.leak;
        let mut o = Obj::new(size as usize, align as u32, fill);
        o.counted = leak;
        o.owner = t as u8;
        let k = st.regs[1 + 2 * t].push(o);
        ((((t as u64 + 1) << 24) | k as u64) << 32) | align
    }
    pub fn free(&mut self, st: &mut State, t: usize, addr: u64, size: Option<(u64, u64)>) -> R<()> {
        let (r, i, off) = match self.locate(st, t, addr, 0, "free") {
            Ok(x) => x,
            Err(Stop::Viol(mut v)) => {
                if v.code == 1 {
                    v.msg = format!("double free of {:#x}", addr);
                }
                return Err(Stop::Viol(v));
            }
            Err(e) => return Err(e),
        };
        if off != 0 || r == usize::MAX || r == 0 || r % 2 == 0 {
            return self.viol(st, t, "memory", 4, format!("free of invalid pointer {:#x}", addr));
        }
        let o = &st.regs[r].objs[i];
        let n = o.data.len();
        if let Some((s, a)) = size {
            if s as usize != n || a != o.align as u64 {
                let (a2,) = (o.align,);
                return self.viol(st, t, "memory", 5, format!("free with size {} align {} of an object of size {} align {}", s, a, n, a2));
            }
        }
        self.access(st, t, r, i, 0, n, Acc::NaW)?;
        let v = Rc::make_mut(&mut st.regs[r].objs);
        let _ = v;
        st.regs[r].get_mut(i);
        let reg = &mut st.regs[r];
        let v = Rc::make_mut(&mut reg.objs);
        // the index stays in the dirty list; the dead object is shared
        v[i] = Rc::new((*self.dead_obj).clone());
        Ok(())
    }

    fn copy(&mut self, st: &mut State, t: usize, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (r1, i1, o1) = self.locate(st, t, s, n, "read")?;
        let (r2, i2, o2) = self.locate(st, t, d, n, "write")?;
        if r2 == usize::MAX {
            return self.viol(st, t, "memory", 3, format!("write to constant memory {:#x}", d));
        }
        self.access(st, t, r1, i1, o1, n as usize, Acc::NaR)?;
        self.access(st, t, r2, i2, o2, n as usize, Acc::NaW)?;
        let n = n as usize;
        let src = self.obj(st, r1, i1);
        let bytes = src.data[o1..o1 + n].to_vec();
        let syms: Vec<(u32, E)> = match &src.sym {
            Some(m) => m.range(o1 as u32..(o1 + n) as u32).map(|(k, v)| (*k - o1 as u32, *v)).collect(),
            None => vec![],
        };
        if st.unfinished > 1 && st.regs[r2].objs[i2].shared {
            // pointers are stored aligned in the destination
            let lead = (8 - o2 % 8) % 8;
            if lead < n {
                for w in bytes[lead..].chunks_exact(8) {
                    let x = u64::from_le_bytes(w.try_into().unwrap());
                    if x >> 32 >= HEAP_ID {
                        self.share(st, t, x);
                    }
                }
            }
        }
        let o = st.regs[r2].get_mut(i2);
        o.data[o2..o2 + n].copy_from_slice(&bytes);
        if let Some(m) = &mut o.sym {
            for k in 0..n {
                m.remove(&((o2 + k) as u32));
            }
            if m.is_empty() {
                o.sym = None;
            }
        }
        if !syms.is_empty() {
            let m = o.sym.get_or_insert_with(Default::default);
            for (k, e) in syms {
                m.insert(o2 as u32 + k, e);
            }
        }
        Ok(())
    }

    pub fn peek32(&self, st: &State, addr: u64) -> Option<u32> {
        match self.locate(st, 0, addr, 4, "peek") {
            Ok((r, i, o)) => match self.read_bytes(st, r, i, o, 4) {
                Val::I(x) => Some(x as u32),
                _ => None,
            },
            Err(_) => None,
        }
    }

    // ------------------------------------------------------------ arithmetic

    fn bin1(&mut self, op: Bin, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                Bin::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                Bin::AShr => fold(Op::AShr, w, x, y),
                Bin::UDiv => fold(Op::UDiv, w, x, y),
                Bin::URem => fold(Op::URem, w, x, y),
                Bin::SDiv => fold(Op::SDiv, w, x, y),
                Bin::SRem => fold(Op::SRem, w, x, y),
            };
            return Val::I(mask(r, w));
        }
        if let (Val::W(x), Val::W(y)) = (a, b) {
            let (x, y) = (**x, **y);
            let r = match op {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => x.checked_shl(y as u32).unwrap_or(0),
                Bin::LShr => x.checked_shr(y as u32).unwrap_or(0),
                Bin::UDiv => x.checked_div(y).unwrap_or(0),
                Bin::URem => x.checked_rem(y).unwrap_or(0),
                _ => panic!("128-bit {:?}", op),
            };
            return Val::w(r);
        }
        let o = match op {
            Bin::Add => Op::Add,
            Bin::Sub => Op::Sub,
            Bin::Mul => Op::Mul,
            Bin::And => Op::And,
            Bin::Or => Op::Or,
            Bin::Xor => Op::Xor,
            Bin::Shl => Op::Shl,
            Bin::LShr => Op::LShr,
            Bin::AShr => Op::AShr,
            Bin::UDiv => Op::UDiv,
            Bin::URem => Op::URem,
            Bin::SDiv => Op::SDiv,
            Bin::SRem => Op::SRem,
        };
        val_of(bin(o, expr_of(a, w), expr_of(b, w)))
    }
    fn bin(&mut self, op: Bin, ty: &Ty, a: &Val, b: &Val) -> Val {
        match ty {
            Ty::Vec(_, et) => {
                let (Val::A(x), Val::A(y)) = (a, b) else { panic!() };
                Val::a(x.iter().zip(y.iter()).map(|(p, q)| self.bin1(op, et.bits(), p, q)).collect())
            }
            _ => self.bin1(op, ty.bits(), a, b),
        }
    }
    fn icmp1(&self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sext(x, w) < sext(y, w),
                Pred::Sle => sext(x, w) <= sext(y, w),
                Pred::Sgt => sext(x, w) > sext(y, w),
                Pred::Sge => sext(x, w) >= sext(y, w),
            };
            return Val::I(r as u64);
        }
        if let (Val::W(x), Val::W(y)) = (a, b) {
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                _ => panic!("128-bit compare"),
            };
            return Val::I(r as u64);
        }
        let (a, b) = (expr_of(a, w), expr_of(b, w));
        val_of(match p {
            Pred::Eq => bin(Op::Eq, a, b),
            Pred::Ne => not(bin(Op::Eq, a, b)),
            Pred::Ult => bin(Op::Ult, a, b),
            Pred::Ule => bin(Op::Ule, a, b),
            Pred::Ugt => bin(Op::Ult, b, a),
            Pred::Uge => bin(Op::Ule, b, a),
            Pred::Slt => bin(Op::Slt, a, b),
            Pred::Sle => bin(Op::Sle, a, b),
            Pred::Sgt => bin(Op::Slt, b, a),
            Pred::Sge => bin(Op::Sle, b, a),
        })
    }
    fn cast1(&self, c: CastOp, from: u32, to: u32, v: &Val) -> Val {
        match (c, v) {
            (CastOp::PtrToInt | CastOp::IntToPtr, _) if from == to => v.clone(),
            (CastOp::ZExt | CastOp::PtrToInt | CastOp::IntToPtr, Val::I(x)) if to <= 64 => Val::I(mask(*x, to)),
            (CastOp::ZExt, Val::I(x)) => Val::w(*x as u128),
            (CastOp::SExt, Val::I(x)) if to <= 64 => Val::I(mask(sext(*x, from) as u64, to)),
            (CastOp::SExt, Val::I(x)) => Val::w(sext(*x, from) as i128 as u128),
            (CastOp::Trunc, Val::I(x)) => Val::I(mask(*x, to)),
            (CastOp::Trunc, Val::W(x)) if to <= 64 => Val::I(mask(**x as u64, to)),
            (CastOp::ZExt, Val::S(e)) if to <= 64 => val_of(zext(*e, to)),
            (CastOp::SExt, Val::S(e)) if to <= 64 => val_of(sextend(*e, to)),
            (CastOp::Trunc, Val::S(e)) => val_of(extract(*e, 0, to)),
            _ => {
                eprintln!("ENGINE-ERROR cast {:?} {} -> {} of {:?}", c, from, to, v);
                std::process::exit(3)
            }
        }
    }
    fn bitcast(&mut self, st: &mut State, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        if from == to {
            return Ok(v.clone());
        }
        // vector of i1 to an integer
        if let (Ty::Vec(_, et), Ty::Int(_)) = (from, to) {
            if **et == Ty::Int(1) {
                let Val::A(vs) = v else { panic!() };
                let mut x = 0u64;
                for (k, b) in vs.iter().enumerate() {
                    x |= self.concrete(st, b, 1)? << k;
                }
                return Ok(Val::I(x));
            }
        }
        // through bytes
        let mut bytes = vec![0u8; from.size() as usize];
        let c = self.conc_val(st, from, v)?;
        write_const(from, &c, &mut bytes);
        Ok(from_bytes(to, &bytes))
    }
    fn conc_val(&mut self, st: &mut State, ty: &Ty, v: &Val) -> R<Val> {
        match (ty, v) {
            (_, Val::S(e)) => Ok(Val::I(self.concrete(st, v, width(*e))?)),
            (Ty::Vec(_, et) | Ty::Arr(_, et), Val::A(vs)) => {
                let mut o = vec![];
                for x in vs.iter() {
                    o.push(self.conc_val(st, et, x)?);
                }
                Ok(Val::a(o))
            }
            _ => Ok(v.clone()),
        }
    }
    fn rmw(&mut self, op: Rmw, w: u32, a: &Val, b: &Val) -> Val {
        match op {
            Rmw::Xchg => b.clone(),
            Rmw::Add => self.bin1(Bin::Add, w, a, b),
            Rmw::Sub => self.bin1(Bin::Sub, w, a, b),
            Rmw::And => self.bin1(Bin::And, w, a, b),
            Rmw::Or => self.bin1(Bin::Or, w, a, b),
            Rmw::Xor => self.bin1(Bin::Xor, w, a, b),
            Rmw::Nand => {
                let x = self.bin1(Bin::And, w, a, b);
                self.bin1(Bin::Xor, w, &x, &Val::I(mask(u64::MAX, w)))
            }
            Rmw::UMax | Rmw::UMin | Rmw::Max | Rmw::Min => {
                let p = match op {
                    Rmw::UMax => Pred::Ugt,
                    Rmw::UMin => Pred::Ult,
                    Rmw::Max => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.icmp1(p, w, a, b);
                self.sel(&c, w, a, b)
            }
        }
    }
    fn sel(&self, c: &Val, w: u32, a: &Val, b: &Val) -> Val {
        match c {
            Val::I(1) => a.clone(),
            Val::I(_) => b.clone(),
            Val::S(e) => val_of(ite(*e, expr_of(a, w), expr_of(b, w))),
            _ => panic!(),
        }
    }

    // ------------------------------------------------------------ control

    fn jump(&mut self, st: &mut State, t: usize, to: u32) {
        let fr = Rc::make_mut(Rc::make_mut(&mut st.threads[t]).frames.last_mut().unwrap());
        let from = fr.block;
        let blk = &fr.f.blocks[to as usize];
        let mut n = 0;
        if let Some(Ins::Phi(..)) = blk.first() {
            let mut tmp: Vec<(u32, Val)> = Vec::with_capacity(4);
            for i in blk {
                if let Ins::Phi(d, v) = i {
                    let (o, _) = v.iter().find(|x| x.1 == from).expect("phi edge");
                    let x = match o {
                        Opd::R(r) => fr.regs[*r as usize].clone(),
                        Opd::C(v) => v.clone(),
                    };
                    tmp.push((*d, x));
                    n += 1;
                } else {
                    break;
                }
            }
            for (d, x) in tmp {
                fr.regs[d as usize] = x;
            }
        }
        fr.block = to;
        fr.ip = n;
    }

    fn pop_frame(&mut self, st: &mut State, t: usize) {
        let th = Rc::make_mut(&mut st.threads[t]);
        let fr = th.frames.pop().unwrap();
        let base = fr.base as usize;
        if st.regs[2 + 2 * t].objs.len() > base {
            st.regs[2 + 2 * t].truncate(base);
        }
    }

    /// Finishes the pending call of the top frame with the given result.
    fn finish_call(&mut self, st: &mut State, t: usize, v: Option<Val>) {
        let fr = Rc::make_mut(Rc::make_mut(&mut st.threads[t]).frames.last_mut().unwrap());
        fr.h.set(0);
        let Ins::Call(c) = &fr.f.blocks[fr.block as usize][fr.ip as usize] else { panic!("not a call") };
        if let (Some(d), Some(v)) = (c.dst, v) {
            fr.regs[d as usize] = v;
        }
        match c.invoke {
            None => fr.ip += 1,
            Some((n, _)) => self.jump(st, t, n),
        }
    }

    /// Unwinds to the next landing pad.
    fn unwind(&mut self, st: &mut State, t: usize) -> R<()> {
        loop {
            if st.threads[t].frames.is_empty() {
                let v = Viol { kind: "panic".into(), code: 0, msg: "panic left the thread".into(), tid: t, stack: vec![] };
                return Err(Stop::Viol(Box::new(v)));
            }
            let fr = st.threads[t].frames.last().unwrap();
            let ins = &fr.f.blocks[fr.block as usize][fr.ip as usize];
            if let Ins::Call(c) = ins {
                if let Some((_, u)) = c.invoke {
                    let fr = Rc::make_mut(Rc::make_mut(&mut st.threads[t]).frames.last_mut().unwrap());
                    fr.h.set(0);
                    self.jump(st, t, u);
                    return Ok(());
                }
            }
            self.pop_frame(st, t);
        }
    }
    pub fn throw(&mut self, st: &mut State, t: usize, why: &str, payload: Option<(u64, u64)>) -> R<()> {
        // is there a handler?
        let mut caught = false;
        let n = st.threads[t].frames.len();
        for k in 0..n {
            let fr = &st.threads[t].frames[k];
            if let Ins::Call(c) = &fr.f.blocks[fr.block as usize][fr.ip as usize] {
                if let Some((_, u)) = c.invoke {
                    for i in &fr.f.blocks[u as usize] {
                        if let Ins::LandingPad(_, catch, _) = i {
                            caught |= *catch;
                        }
                    }
                }
            }
        }
        if !caught {
            return self.viol(st, t, "panic", 0, format!("panic: {}", why));
        }
        // Box<dyn Any + Send>: a zero-sized payload unless one is given
        let payload = match payload {
            Some(p) => p,
            None => (1, self.any_vtable(st)),
        };
        let th = Rc::make_mut(&mut st.threads[t]);
        th.panics += 1;
        th.payloads.push(payload);
        if self.panic_count != 0 {
            let a = self.panic_count;
            if let Ok((r, i, o)) = self.locate(st, t, a, 8, "panic count") {
                let Val::I(x) = self.read_bytes(st, r, i, o, 8) else { panic!() };
                self.write_bytes(st, t, r, i, o, 8, &Val::I(x.wrapping_add(1)));
            }
        }
        self.unwind(st, t)
    }
    pub fn caught(&mut self, st: &mut State, t: usize) -> (u64, u64) {
        let th = Rc::make_mut(&mut st.threads[t]);
        th.panics -= 1;
        let payload = th.payloads.pop().unwrap();
        if self.panic_count != 0 {
            let a = self.panic_count;
            if let Ok((r, i, o)) = self.locate(st, t, a, 8, "panic count") {
                let Val::I(x) = self.read_bytes(st, r, i, o, 8) else { panic!() };
                self.write_bytes(st, t, r, i, o, 8, &Val::I(x.wrapping_sub(1)));
            }
        }
        payload
    }

    fn push_call(&mut self, st: &mut State, t: usize, f: &'static Func, args: Vec<Val>) {
        let base = st.regs[2 + 2 * t].objs.len() as u32;
        let mut regs = vec![Val::I(0); f.nregs as usize];
        for (p, a) in f.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        f.count.set(f.count.get() + 1);
        let th = Rc::make_mut(&mut st.threads[t]);
        th.frames.push(Rc::new(Frame { f, block: 0, ip: 0, base, regs, h: Default::default() }));
    }

    /// Runs thread `t` until it stops; forked states go to `self.forks`.
    pub fn run(&mut self, st: &mut State, t: usize) -> Stop {
        self.st.slices += 1;
        let mut n = 0u64;
        let start = self.st.ins;
        let mut turns = 0u32;
        loop {
            turns += 1;
            if turns & 0xff == 0 && std::time::Instant::now() > self.deadline {
                self.timed_out = true;
                return Stop::Dead;
            }
            {
                let th = Rc::make_mut(&mut st.threads[t]);
                th.h.set(0);
                th.poised = false;
            }
            let r = self.run_frame(st, t, &mut n);
            match r {
                Ok(()) | Err(Stop::Redo) => {}
                Err(s) => {
                    st.steps += self.st.ins - start;
                    let th = Rc::make_mut(&mut st.threads[t]);
                    th.h.set(0);
                    if let Stop::Poised = s {
                        th.poised = true;
                    }
                    return s;
                }
            }
            if n > self.max_slice || st.steps + (self.st.ins - start) > self.max_path {
                st.steps += self.st.ins - start;
                let r: R<()> = self.viol(st, t, "nontermination", 0, format!("no progress after {} instructions of one step ({} on the path)", n, st.steps));
                let Err(s) = r else { unreachable!() };
                return s;
            }
        }
    }

    /// Executes instructions of the top frame until control leaves it.
    fn run_frame(&mut self, st: &mut State, t: usize, count: &mut u64) -> R<()> {
        let stp: *mut State = st;
        let frp: *mut Frame = Rc::make_mut(Rc::make_mut(&mut st.threads[t]).frames.last_mut().unwrap());
        // Safety: the pointer is only used while no other reference to the frame
        // is taken; whatever may share or replace the frame returns from here.
        let fr = unsafe { &mut *frp };
        fr.h.set(0);
        let f = fr.f;
        macro_rules! opd {
            ($o:expr) => {
                match $o {
                    Opd::R(r) => unsafe { (&(*frp).regs)[*r as usize].clone() },
                    Opd::C(v) => v.clone(),
                }
            };
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                unsafe { (&mut (*frp).regs)[$d as usize] = v }
            }};
        }
        macro_rules! addr {
            ($o:expr) => {{
                let v = opd!($o);
                match v {
                    Val::I(x) => x,
                    v => self.concrete(unsafe { &mut *stp }, &v, 64)?,
                }
            }};
        }
        loop {
            *count += 1;
            self.st.ins += 1;
            if *count > self.max_slice {
                return Ok(());
            }
            let (b, ip) = (fr.block, fr.ip);
            let ins = &f.blocks[b as usize][ip as usize];
            let st = unsafe { &mut *stp };
            match ins {
                Ins::Bin(d, op, ty, x, y) => {
                    let (x, y) = (opd!(x), opd!(y));
                    if let (Val::I(p), Val::I(q), Ty::Int(64)) = (&x, &y, ty) {
                        match op {
                            Bin::Add => {
                                set!(*d, Val::I(p.wrapping_add(*q)));
                                fr.ip += 1;
                                continue;
                            }
                            Bin::And => {
                                set!(*d, Val::I(p & q));
                                fr.ip += 1;
                                continue;
                            }
                            _ => {}
                        }
                    }
                    let v = self.bin(*op, ty, &x, &y);
                    set!(*d, v);
                    fr.ip += 1;
                }
                Ins::Icmp(d, p, ty, x, y) => {
                    let (x, y) = (opd!(x), opd!(y));
                    let v = match ty {
                        Ty::Vec(_, et) => {
                            let (Val::A(x), Val::A(y)) = (&x, &y) else { panic!() };
                            Val::a(x.iter().zip(y.iter()).map(|(a, b)| self.icmp1(*p, et.bits(), a, b)).collect())
                        }
                        _ => self.icmp1(*p, ty.bits(), &x, &y),
                    };
                    set!(*d, v);
                    fr.ip += 1;
                }
                Ins::Cast(d, c, from, x, to) => {
                    let x = opd!(x);
                    let v = match c {
                        CastOp::Bitcast => self.bitcast(st, from, to, &x)?,
                        _ => match (from, to) {
                            (Ty::Vec(_, a), Ty::Vec(_, b)) => {
                                let Val::A(x) = &x else { panic!() };
                                Val::a(x.iter().map(|v| self.cast1(*c, a.bits(), b.bits(), v)).collect())
                            }
                            _ => self.cast1(*c, from.bits(), to.bits(), &x),
                        },
                    };
                    set!(*d, v);
                    fr.ip += 1;
                }
                Ins::Load(d, ty, p, None) => {
                    let a = addr!(p);
                    let v = self.load(st, t, a, ty)?;
                    set!(*d, v);
                    fr.ip += 1;
                }
                Ins::Store(ty, v, p, None) => {
                    let a = addr!(p);
                    let v = opd!(v);
                    self.store(st, t, a, ty, &v)?;
                    fr.ip += 1;
                }
                Ins::Load(d, ty, p, Some(o)) => {
                    let a = addr!(p);
                    self.gate(st, t, a)?;
                    let (r, i, off) = self.locate(st, t, a, ty.size(), "atomic read")?;
                    let old = self.weak_read(st, t, r, i, off, ty.size() as u32, *o)?;
                    self.access(st, t, r, i, off, ty.size() as usize, Acc::AtR)?;
                    let v = match old {
                        Some((v, c)) => {
                            let th = Rc::make_mut(&mut st.threads[t]);
                            join(&mut th.acqf, &c);
                            if o.acq {
                                join(&mut th.vc, &c);
                            }
                            v
                        }
                        None => {
                            self.hb_read(st, t, r, i, off, *o);
                            self.read_ty(st, r, i, off, ty)
                        }
                    };
                    set!(*d, v);
                    fr.ip += 1;
                    self.done_event(st, t);
                }
                Ins::Store(ty, v, p, Some(o)) => {
                    let a = addr!(p);
                    self.gate(st, t, a)?;
                    let (r, i, off) = self.locate(st, t, a, ty.size(), "atomic write")?;
                    if r == usize::MAX {
                        return self.viol(st, t, "memory", 3, format!("write to constant memory {:#x}", a));
                    }
                    let v = opd!(v);
                    self.access(st, t, r, i, off, ty.size() as usize, Acc::AtW)?;
                    self.weak_write(st, t, r, i, off, ty, *o);
                    self.write_ty(st, t, r, i, off, ty, &v);
                    self.hb_write(st, t, r, i, off, *o, false);
                    fr.ip += 1;
                    self.done_event(st, t);
                }
                Ins::AtomicRmw(d, op, ty, p, v, o) => {
                    let a = addr!(p);
                    self.gate(st, t, a)?;
                    let (r, i, off) = self.locate(st, t, a, ty.size(), "atomic update")?;
                    if r == usize::MAX {
                        return self.viol(st, t, "memory", 3, format!("write to constant memory {:#x}", a));
                    }
                    let v = opd!(v);
                    self.access(st, t, r, i, off, ty.size() as usize, Acc::AtW)?;
                    let old = self.read_ty(st, r, i, off, ty);
                    let new = self.rmw(*op, ty.bits(), &old, &v);
                    self.weak_write(st, t, r, i, off, ty, *o);
                    self.hb_read(st, t, r, i, off, *o);
                    self.write_ty(st, t, r, i, off, ty, &new);
                    self.hb_write(st, t, r, i, off, *o, true);
                    set!(*d, old);
                    fr.ip += 1;
                    self.done_event(st, t);
                }
                Ins::CmpXchg(d, weak, ty, p, e, n, o1, o2) => {
                    let a = addr!(p);
                    self.gate(st, t, a)?;
                    let (r, i, off) = self.locate(st, t, a, ty.size(), "atomic update")?;
                    if r == usize::MAX {
                        return self.viol(st, t, "memory", 3, format!("write to constant memory {:#x}", a));
                    }
                    let (e, n) = (opd!(e), opd!(n));
                    let old = self.read_ty(st, r, i, off, ty);
                    let eq = match self.icmp1(Pred::Eq, ty.bits(), &old, &e) {
                        Val::I(x) => x == 1,
                        Val::S(c) => self.decide(st, c)?,
                        _ => panic!(),
                    };
                    // a weak exchange may fail for no reason, as often as the scenario says
                    let mut eq = eq;
                    if eq && *weak && st.threads[t].spurious > 0 {
                        let seq = st.threads[t].nsym;
                        let lose = match self.fix.iter().find(|x| x.0 == t as u32 && x.1 == seq) {
                            Some(x) => x.2 & 1 == 1,
                            None => {
                                let c = sym(t as u32, seq, 1);
                                self.decide(st, c)?
                            }
                        };
                        let th = Rc::make_mut(&mut st.threads[t]);
                        th.nsym += 1;
                        if lose {
                            th.spurious -= 1;
                            eq = false;
                        }
                    }
                    if eq {
                        self.access(st, t, r, i, off, ty.size() as usize, Acc::AtW)?;
                        self.weak_write(st, t, r, i, off, ty, *o1);
                        self.hb_read(st, t, r, i, off, *o1);
                        self.write_ty(st, t, r, i, off, ty, &n);
                        self.hb_write(st, t, r, i, off, *o1, true);
                    } else {
                        self.access(st, t, r, i, off, ty.size() as usize, Acc::AtR)?;
                        self.weak_seen(st, t, r, i, off, *o2);
                        self.hb_read(st, t, r, i, off, *o2);
                    }
                    set!(*d, Val::a(vec![old, Val::I(eq as u64)]));
                    fr.ip += 1;
                    self.done_event(st, t);
                }
                Ins::Fence(o) => {
                    if self.hb != Hb::Off && st.unfinished > 1 {
                        let th = Rc::make_mut(&mut st.threads[t]);
                        if o.acq {
                            let c = th.acqf;
                            join(&mut th.vc, &c);
                        }
                        if o.rel {
                            th.relf = th.vc;
                            th.vc[t] += 1;
                        }
                    }
                    if o.sc && st.stale > 0 {
                        self.fence_log(st);
                        self.publish(st, t);
                        self.learn(st, t);
                    }
                    fr.ip += 1;
                    self.done_event(st, t);
                }
                Ins::Gep(d, base, idx) => {
                    let mut a = opd!(base);
                    for g in idx {
                        match g {
                            GepIdx::Const(c) => {
                                a = match a {
                                    Val::I(x) => Val::I(x.wrapping_add(*c as u64)),
                                    v => self.bin1(Bin::Add, 64, &v, &Val::I(*c as u64)),
                                }
                            }
                            GepIdx::Scaled(o, w, sc) => {
                                let i = opd!(o);
                                a = match (a, i) {
                                    (Val::I(x), Val::I(i)) => Val::I(x.wrapping_add((sext(i, *w)).wrapping_mul(*sc) as u64)),
                                    (a, i) => {
                                        let i = if *w < 64 { self.cast1(CastOp::SExt, *w, 64, &i) } else { i };
                                        let i = self.bin1(Bin::Mul, 64, &i, &Val::I(*sc as u64));
                                        self.bin1(Bin::Add, 64, &a, &i)
                                    }
                                }
                            }
                        }
                    }
                    set!(*d, a);
                    fr.ip += 1;
                }
                Ins::Select(d, ty, c, x, y) => {
                    let c = opd!(c);
                    let c = match (&c, ty) {
                        (Val::S(e), Ty::Ptr | Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) => Val::I(self.decide(st, *e)? as u64),
                        (Val::S(e), Ty::Int(w)) if *w > 64 => Val::I(self.decide(st, *e)? as u64),
                        _ => c,
                    };
                    let v = match &c {
                        Val::I(1) => opd!(x),
                        Val::I(_) => opd!(y),
                        c => {
                            let (x, y) = (opd!(x), opd!(y));
                            self.sel(c, ty.bits(), &x, &y)
                        }
                    };
                    set!(*d, v);
                    fr.ip += 1;
                }
                Ins::Br(b) => {
                    self.jump(st, t, *b);
                }
                Ins::CondBr(c, a, b) => {
                    let c = match opd!(c) {
                        Val::I(x) => x == 1,
                        Val::S(e) => self.decide(st, e)?,
                        _ => panic!(),
                    };
                    self.jump(st, t, if c { *a } else { *b });
                }
                Ins::Switch(w, v, def, cases) => {
                    let v = opd!(v);
                    let k = match v {
                        Val::I(k) => k,
                        Val::S(e) => {
                            let k = eval(e, &st.model);
                            match cases.iter().find(|c| c.0 == k) {
                                Some((c, _)) => {
                                    let eq = bin(Op::Eq, e, konst(*c, *w));
                                    if self.decide(st, eq)? {
                                        k
                                    } else {
                                        return Err(Stop::Redo);
                                    }
                                }
                                None => {
                                    for (c, _) in cases {
                                        let eq = bin(Op::Eq, e, konst(*c, *w));
                                        if self.decide(st, eq)? {
                                            return Err(Stop::Redo);
                                        }
                                    }
                                    k
                                }
                            }
                        }
                        _ => panic!(),
                    };
                    let b = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                    self.jump(st, t, b);
                }
                Ins::Ret(v) => {
                    let v = v.as_ref().map(|v| opd!(v));
                    self.pop_frame(st, t);
                    if st.threads[t].frames.is_empty() {
                        let th = Rc::make_mut(&mut st.threads[t]);
                        th.status = Status::Done;
                        st.unfinished -= 1;
                        return Err(Stop::Done);
                    }
                    self.finish_call(st, t, v);
                    return Ok(());
                }
                Ins::Unreachable => {
                    return self.viol(st, t, "unreachable", 0, "reached code that the compiler was told is unreachable".into());
                }
                Ins::Alloca(d, size, align) => {
                    let k = st.regs[2 + 2 * t].push(Obj::new(*size as usize, *align as u32, 0xCD));
                    set!(*d, Val::I((STACK_ID | (t as u64) << 20 | k as u64) << 32));
                    fr.ip += 1;
                }
                Ins::ExtractValue(d, v, ix) => {
                    let mut v = opd!(v);
                    for i in ix {
                        let Val::A(x) = &v else { panic!("extractvalue") };
                        v = x[*i as usize].clone();
                    }
                    set!(*d, v);
                    fr.ip += 1;
                }
                Ins::InsertValue(d, v, x, ix) => {
                    let mut v = opd!(v);
                    let x = opd!(x);
                    insert(&mut v, x, ix);
                    set!(*d, v);
                    fr.ip += 1;
                }
                Ins::ExtractElement(d, v, i) => {
                    let (v, i) = (opd!(v), opd!(i));
                    let i = self.concrete(st, &i, 64)?;
                    let Val::A(x) = &v else { panic!() };
                    set!(*d, x[i as usize].clone());
                    fr.ip += 1;
                }
                Ins::InsertElement(d, v, x, i) => {
                    let (mut v, x, i) = (opd!(v), opd!(x), opd!(i));
                    let i = self.concrete(st, &i, 64)?;
                    insert(&mut v, x, &[i as u32]);
                    set!(*d, v);
                    fr.ip += 1;
                }
                Ins::Shuffle(d, x, y, m) => {
                    let (x, y) = (opd!(x), opd!(y));
                    let (Val::A(x), Val::A(y)) = (&x, &y) else { panic!() };
                    let v = m.iter().map(|k| if (*k as usize) < x.len() { x[*k as usize].clone() } else { y[*k as usize - x.len()].clone() }).collect();
                    set!(*d, Val::a(v));
                    fr.ip += 1;
                }
                Ins::Freeze(d, v) => {
                    let v = opd!(v);
                    set!(*d, v);
                    fr.ip += 1;
                }
                Ins::LandingPad(d, catch, _) => {
                    set!(*d, Val::a(vec![Val::I(2 << 32), Val::I(*catch as u64)]));
                    fr.ip += 1;
                }
                Ins::Resume(_) => {
                    self.pop_frame(st, t);
                    self.unwind(st, t)?;
                    return Ok(());
                }
                Ins::Nop => fr.ip += 1,
                Ins::Phi(..) => panic!("phi"),
                Ins::Call(c) => {
                    let fidx;
                    match &c.callee {
                        Callee::Intrinsic(n) => {
                            let args: Vec<Val> = c.args.iter().map(|a| opd!(a)).collect();
                            let v = self.intrinsic(st, t, n, c, &args)?;
                            if let (Some(d), Some(v)) = (c.dst, v) {
                                set!(d, v);
                            }
                            match c.invoke {
                                None => fr.ip += 1,
                                Some((n, _)) => self.jump(st, t, n),
                            }
                            continue;
                        }
                        Callee::Direct(a) => fidx = ((*a - FN_BASE) / 16) as usize,
                        Callee::Indirect(o) => {
                            let a = addr!(o);
                            if a >> 32 != 1 || a & 15 != 0 || ((a - FN_BASE) / 16) as usize >= self.prog.fns.len() {
                                return self.viol(st, t, "memory", 6, format!("call of invalid function pointer {:#x}", a));
                            }
                            fidx = ((a - FN_BASE) / 16) as usize;
                        }
                    }
                    let args: Vec<Val> = c.args.iter().map(|a| opd!(a)).collect();
                    match self.prog.func(fidx) {
                        Some(f) => {
                            if st.threads[t].frames.len() > 200 {
                                return self.viol(st, t, "nontermination", 1, "unbounded recursion".into());
                            }
                            self.push_call(st, t, f, args);
                            return Ok(());
                        }
                        None => {
                            self.stub(st, t, fidx, c, args)?;
                            return Ok(());
                        }
                    }
                }
            }
        }
    }

    fn intrinsic(&mut self, st: &mut State, t: usize, n: &str, c: &Call, a: &[Val]) -> R<Option<Val>> {
        let w = || c.argtys[0].bits();
        if n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") {
            let d = self.concrete(st, &a[0], 64)?;
            let s = self.concrete(st, &a[1], 64)?;
            let k = self.concrete(st, &a[2], 64)?;
            self.copy(st, t, d, s, k)?;
            return Ok(None);
        }
        if n.starts_with("llvm.memset") {
            let d = self.concrete(st, &a[0], 64)?;
            let v = self.concrete(st, &a[1], 8)?;
            let k = self.concrete(st, &a[2], 64)?;
            self.memset(st, t, d, v as u8, k)?;
            return Ok(None);
        }
        if n.starts_with("llvm.lifetime.end") {
            if let Val::I(p) = &a[a.len() - 1] {
                if p >> 32 >= STACK_ID {
                    let (r, i) = (2 + 2 * ((p >> 52) & 0x3ff) as usize, ((p >> 32) & 0xf_ffff) as usize);
                    if r < st.regs.len() && i < st.regs[r].objs.len() {
                        let o = &st.regs[r].objs[i];
                        if o.sym.is_some() || !o.rel.is_empty() || o.data.iter().any(|b| *b != 0xCD) {
                            let o = st.regs[r].get_mut(i);
                            o.sym = None;
                            o.rel.clear();
                            o.hist.clear();
                            o.data.iter_mut().for_each(|b| *b = 0xCD);
                        }
                    }
                }
            }
            return Ok(None);
        }
        if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental") || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.dbg") {
            return Ok(None);
        }
        if n.starts_with("llvm.assume") {
            match &a[0] {
                Val::I(1) => {}
                Val::I(_) => return self.viol(st, t, "unreachable", 1, "a compiler assumption does not hold".into()),
                Val::S(e) => {
                    if !self.decide(st, *e)? {
                        return self.viol(st, t, "unreachable", 1, "a compiler assumption does not hold".into());
                    }
                }
                _ => panic!(),
            }
            return Ok(None);
        }
        if n == "asm" {
            return Ok(None);
        }
        if n.starts_with("llvm.expect") {
            return Ok(Some(a[0].clone()));
        }
        if n.starts_with("llvm.umul.with.overflow") || n.starts_with("llvm.uadd.with.overflow") || n.starts_with("llvm.usub.with.overflow") || n.starts_with("llvm.sadd.with.overflow") || n.starts_with("llvm.ssub.with.overflow") {
            let w = w();
            if let (Val::I(x), Val::I(y)) = (&a[0], &a[1]) {
                let (x, y) = (*x, *y);
                let (r, o) = match &n[5..9] {
                    "umul" => {
                        let p = x as u128 * y as u128;
                        (p as u64, p >> w != 0)
                    }
                    "uadd" => {
                        let p = x as u128 + y as u128;
                        (p as u64, p >> w != 0)
                    }
                    "usub" => (x.wrapping_sub(y), x < y),
                    "sadd" => {
                        let p = sext(x, w) as i128 + sext(y, w) as i128;
                        (p as u64, p != sext(mask(p as u64, w), w) as i128)
                    }
                    _ => {
                        let p = sext(x, w) as i128 - sext(y, w) as i128;
                        (p as u64, p != sext(mask(p as u64, w), w) as i128)
                    }
                };
                return Ok(Some(Val::a(vec![Val::I(mask(r, w)), Val::I(o as u64)])));
            }
            let (x, y) = (expr_of(&a[0], w), expr_of(&a[1], w));
            let (r, o) = match &n[5..9] {
                "umul" => {
                    let (x, y) = if as_const(x).is_some() { (y, x) } else { (x, y) };
                    let k = match as_const(y) {
                        Some(k) => k,
                        None => self.concrete(st, &Val::S(y), w)?,
                    };
                    let y = konst(k, w);
                    let o = if k == 0 { konst(0, 1) } else { bin(Op::Ult, konst(mask(u64::MAX, w) / k, w), x) };
                    (bin(Op::Mul, x, y), o)
                }
                "uadd" => {
                    let r = bin(Op::Add, x, y);
                    (r, bin(Op::Ult, r, x))
                }
                "usub" => (bin(Op::Sub, x, y), bin(Op::Ult, x, y)),
                _ => self.unsupported(st, t, n),
            };
            return Ok(Some(Val::a(vec![val_of(r), val_of(o)])));
        }
        for (p, pr) in [("llvm.umax", Pred::Ugt), ("llvm.umin", Pred::Ult), ("llvm.smax", Pred::Sgt), ("llvm.smin", Pred::Slt)] {
            if n.starts_with(p) {
                let w = w();
                let c = self.icmp1(pr, w, &a[0], &a[1]);
                return Ok(Some(self.sel(&c, w, &a[0], &a[1])));
            }
        }
        if n.starts_with("llvm.usub.sat") || n.starts_with("llvm.uadd.sat") {
            let w = w();
            if n.starts_with("llvm.usub") {
                let c = self.icmp1(Pred::Ult, w, &a[0], &a[1]);
                let s = self.bin1(Bin::Sub, w, &a[0], &a[1]);
                return Ok(Some(self.sel(&c, w, &Val::I(0), &s)));
            }
            let s = self.bin1(Bin::Add, w, &a[0], &a[1]);
            let c = self.icmp1(Pred::Ult, w, &s, &a[0]);
            return Ok(Some(self.sel(&c, w, &Val::I(mask(u64::MAX, w)), &s)));
        }
        if n.starts_with("llvm.ctlz") || n.starts_with("llvm.cttz") || n.starts_with("llvm.ctpop") {
            let w = w();
            match &a[0] {
                Val::I(x) => {
                    let r = if n.starts_with("llvm.ctlz") {
                        (if *x == 0 { w } else { x.leading_zeros() - (64 - w) }) as u64
                    } else if n.starts_with("llvm.cttz") {
                        (if *x == 0 { w } else { x.trailing_zeros() }) as u64
                    } else {
                        x.count_ones() as u64
                    };
                    return Ok(Some(Val::I(r)));
                }
                Val::S(e) => {
                    let mut r;
                    if n.starts_with("llvm.ctpop") {
                        r = konst(0, w);
                        for k in 0..w {
                            r = bin(Op::Add, r, zext(extract(*e, k, 1), w));
                        }
                    } else {
                        r = konst(w as u64, w);
                        for k in 0..w {
                            // ctlz: the highest set bit decides, so it must come last
                            let (bit, v) = if n.starts_with("llvm.ctlz") { (k, w - 1 - k) } else { (w - 1 - k, w - 1 - k) };
                            r = ite(bin(Op::Eq, extract(*e, bit, 1), konst(1, 1)), konst(v as u64, w), r);
                        }
                    }
                    let v = val_of(r);
                    return Ok(Some(Val::I(self.concrete(st, &v, w)?)));
                }
                _ => panic!(),
            }
        }
        if n.starts_with("llvm.fshl") || n.starts_with("llvm.fshr") {
            let w = w();
            let k = self.concrete(st, &a[2], w)? % w as u64;
            let k = if n.starts_with("llvm.fshl") { k } else { (w as u64 - k) % w as u64 };
            if k == 0 {
                return Ok(Some(if n.starts_with("llvm.fshl") { a[0].clone() } else { a[1].clone() }));
            }
            let hi = self.bin1(Bin::Shl, w, &a[0], &Val::I(k));
            let lo = self.bin1(Bin::LShr, w, &a[1], &Val::I(w as u64 - k));
            return Ok(Some(self.bin1(Bin::Or, w, &hi, &lo)));
        }
        if n.starts_with("llvm.bswap") {
            let x = self.concrete(st, &a[0], w())?;
            return Ok(Some(Val::I(x.swap_bytes() >> (64 - w()))));
        }
        if n.starts_with("llvm.abs") {
            let x = self.concrete(st, &a[0], w())?;
            return Ok(Some(Val::I(mask(sext(x, w()).unsigned_abs(), w()))));
        }
        if n.starts_with("llvm.threadlocal.address") {
            let Val::I(g) = a[0] else { panic!() };
            return Ok(Some(Val::I(self.tls(st, t, g))));
        }
        if n.starts_with("llvm.trap") {
            return self.viol(st, t, "abort", 0, "trap".into());
        }
        if n.starts_with("llvm.is.constant") {
            return Ok(Some(Val::I(0)));
        }
        if n.starts_with("llvm.ucmp") || n.starts_with("llvm.scmp") {
            let w = w();
            let (l, g) = if n.starts_with("llvm.u") { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
            let rw = c.ret.bits();
            let lt = self.icmp1(l, w, &a[0], &a[1]);
            let gt = self.icmp1(g, w, &a[0], &a[1]);
            let x = self.sel(&gt, rw, &Val::I(1), &Val::I(0));
            return Ok(Some(self.sel(&lt, rw, &Val::I(mask(u64::MAX, rw)), &x)));
        }
        self.unsupported(st, t, &format!("intrinsic {}", n))
    }

    fn tls(&mut self, st: &mut State, t: usize, g: u64) -> u64 {
        if let Some((_, a)) = st.threads[t].tls.iter().find(|x| x.0 == g) {
            return *a;
        }
        let gd = &self.prog.globals[((g >> 32) - GLOBAL_ID0) as usize];
        let bytes = self.prog.global_bytes(((g >> 32) - GLOBAL_ID0) as usize);
        let al = gd.align;
        let leak = st.leak;
        st.leak = false;
        let a = self.alloc(st, t, bytes.len() as u64, al, 0);
        st.leak = leak;
        let (r, i, _) = self.locate(st, t, a, 0, "tls").ok().unwrap();
        st.regs[r].get_mut(i).data.copy_from_slice(&bytes);
        Rc::make_mut(&mut st.threads[t]).tls.push((g, a));
        a
    }

    fn memset(&mut self, st: &mut State, t: usize, d: u64, v: u8, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (r, i, o) = self.locate(st, t, d, n, "write")?;
        if r == usize::MAX {
            return self.viol(st, t, "memory", 3, format!("write to constant memory {:#x}", d));
        }
        self.access(st, t, r, i, o, n as usize, Acc::NaW)?;
        let ob = st.regs[r].get_mut(i);
        for k in o..o + n as usize {
            ob.data[k] = v;
        }
        if let Some(m) = &mut ob.sym {
            for k in 0..n as usize {
                m.remove(&((o + k) as u32));
            }
            if m.is_empty() {
                ob.sym = None;
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ externals

    fn stub(&mut self, st: &mut State, t: usize, fidx: usize, c: &Call, a: Vec<Val>) -> R<()> {
        let name = std::mem::take(&mut self.fnames[fidx]);
        let r = self.stub1(st, t, &name, c, a);
        self.fnames[fidx] = name;
        if let Some(v) = r? {
            self.finish_call(st, t, v);
        }
        Ok(())
    }

    /// `Ok(Some(v))`: the call returns `v`; `Ok(None)`: control was transferred.
    fn stub1(&mut self, st: &mut State, t: usize, n: &str, c: &Call, a: Vec<Val>) -> R<Option<Option<Val>>> {
        macro_rules! int {
            ($i:expr) => {
                self.concrete(st, &a[$i], c.argtys[$i].bits())?
            };
        }
        const NONE: Option<Option<Val>> = Some(None);
        let ret = |x: u64| Ok(Some(Some(Val::I(x))));
        match n {
            "vp_sym" => {
                let w = int!(0) as u32;
                let (seq, tid) = (st.threads[t].nsym, t as u32);
                Rc::make_mut(&mut st.threads[t]).nsym += 1;
                if let Some(x) = self.fix.iter().find(|x| x.0 == tid && x.1 == seq) {
                    return ret(mask(x.2, w));
                }
                let e = sym(tid, seq, w);
                return Ok(Some(Some(val_of(zext(e, 64)))));
            }
            "vp_concrete" => return ret(int!(0)),
            "vp_assume" => {
                let ok = match &a[0] {
                    Val::I(x) => *x & 1 == 1,
                    Val::S(e) => {
                        let e = if width(*e) > 1 { extract(*e, 0, 1) } else { *e };
                        match self.z3.check(&st.pc, e, &st.model) {
                            Some(m) => {
                                st.model = Rc::new(m);
                                st.add_pc(e);
                                true
                            }
                            None => false,
                        }
                    }
                    _ => panic!(),
                };
                if !ok {
                    self.st.dead += 1;
                    return Err(Stop::Dead);
                }
                return Ok(NONE);
            }
            "vp_assert" => {
                let code = int!(1) as u32;
                self.st.asserts += 1;
                match &a[0] {
                    Val::I(x) if *x & 1 == 1 => {}
                    // an assertion of another property: the execution goes on
                    _ if !self.wanted("assert", code) => {
                        if matches!(a[0], Val::I(_)) {
                            *self.skipped.entry(("assert".into(), code)).or_insert(0) += 1;
                        }
                    }
                    Val::I(_) => return self.viol(st, t, "assert", code, format!("property assertion {} fails", code)),
                    Val::S(e) => {
                        let e = if width(*e) > 1 { extract(*e, 0, 1) } else { *e };
                        if let Some(m) = self.z3.check(&st.pc, not(e), &st.model) {
                            st.model = Rc::new(m);
                            st.add_pc(not(e));
                            return self.viol(st, t, "assert", code, format!("property assertion {} fails", code));
                        }
                    }
                    _ => panic!(),
                }
                return Ok(NONE);
            }
            "vp_fail" => {
                let code = int!(0) as u32;
                return self.viol(st, t, "assert", code, format!("property assertion {} fails", code));
            }
            // every thread spawned later may read so many values that are not the last ones
            "vp_stale" => {
                st.stale = int!(0) as u32;
                return Ok(NONE);
            }
            // the two halves of the fence by which retirement and guards exclude each other
            "vp_view_publish" => {
                if st.stale > 0 {
                    self.publish(st, t);
                }
                return Ok(NONE);
            }
            "vp_view_learn" => {
                if st.stale > 0 {
                    self.learn(st, t);
                }
                return Ok(NONE);
            }
            // what this thread's clock is, and whether this thread knows of that of another
            "vp_clock" => return ret(st.threads[t].vc[t] as u64),
            "vp_knows" => {
                let (k, c) = (int!(0) as usize, int!(1));
                return ret((st.stale == 0 || k == t || st.threads[t].vc[k] as u64 >= c) as u64);
            }
            "vp_spurious" => {
                let k = int!(0) as u32;
                Rc::make_mut(&mut st.threads[t]).spurious = k;
                return Ok(NONE);
            }
            "vp_reach" => {
                let code = int!(0) as u32;
                *self.st.reached.entry(code).or_insert(0) += 1;
                return Ok(NONE);
            }
            "vp_trace" => {
                let code = int!(0) as u32;
                let x = int!(1);
                if self.traced {
                    let mut v = st.trace.clone().unwrap_or_default();
                    Rc::make_mut(&mut v).push((code, x));
                    st.trace = Some(v);
                }
                return Ok(NONE);
            }
            "vp_spawn" => {
                let f = int!(0);
                let arg = int!(1);
                if st.unfinished == 1 {
                    // everything reachable so far is shared
                    for r in [1 + 2 * t, 2 + 2 * t] {
                        for i in 0..st.regs[r].objs.len() {
                            if st.regs[r].objs[i].live && !st.regs[r].objs[i].shared {
                                let o = st.regs[r].get_mut(i);
                                o.shared = true;
                            }
                            if st.regs[r].objs[i].live && (!st.regs[r].objs[i].shadow.is_empty() || !st.regs[r].objs[i].rel.is_empty()) {
                                let o = st.regs[r].get_mut(i);
                                o.shadow.clear();
                                o.rel.clear();
                                o.hist.clear();
                            }
                        }
                    }
                } else {
                    self.share(st, t, arg);
                }
                let id = st.threads.len();
                if id >= NT {
                    self.unsupported(st, t, "too many threads");
                }
                let func = self.prog.func(((f - FN_BASE) / 16) as usize).unwrap();
                let mut th = Thread::new();
                th.vc = st.threads[t].vc;
                th.vc[id] = 1;
                th.stale = st.stale;
                let mut regs = vec![Val::I(0); func.nregs as usize];
                regs[func.params[0] as usize] = Val::I(arg);
                th.frames.push(Rc::new(Frame { f: func, block: 0, ip: 0, base: 0, regs, h: Default::default() }));
                func.count.set(func.count.get() + 1);
                st.threads.push(Rc::new(th));
                st.unfinished += 1;
                Rc::make_mut(&mut st.threads[t]).vc[t] += 1;
                return ret(id as u64);
            }
            "vp_join_all" => {
                let all = (0..st.threads.len()).all(|k| k == t || st.threads[k].status == Status::Done);
                if !all {
                    Rc::make_mut(&mut st.threads[t]).status = Status::Join;
                    return Err(Stop::Blocked);
                }
                let mut vc = st.threads[t].vc;
                for k in 0..st.threads.len() {
                    let v = st.threads[k].vc;
                    join(&mut vc, &v);
                }
                let th = Rc::make_mut(&mut st.threads[t]);
                th.status = Status::Ready;
                th.granted = false;
                th.vc = vc;
                return Ok(NONE);
            }
            "vp_thread_id" => return ret(t as u64),
            "vp_atomic_begin" => {
                self.visible(st, t)?;
                let th = Rc::make_mut(&mut st.threads[t]);
                if th.raw == 0 {
                    th.events += 1;
                }
                th.granted = false;
                th.raw += 1;
                return Ok(NONE);
            }
            "vp_invoke" | "vp_point" => {
                // vp_invoke keeps the grant for the thread's next visible step
                self.visible(st, t)?;
                let th = Rc::make_mut(&mut st.threads[t]);
                if th.raw == 0 {
                    th.events += 1;
                }
                if n == "vp_point" {
                    th.granted = false;
                }
                return Ok(NONE);
            }
            "vp_serial_begin" => {
                self.visible(st, t)?;
                let th = Rc::make_mut(&mut st.threads[t]);
                th.events += 1;
                th.serial = true;
                th.granted = false;
                return Ok(NONE);
            }
            "vp_serial_end" => {
                Rc::make_mut(&mut st.threads[t]).serial = false;
                return Ok(NONE);
            }
            "vp_raw_begin" => {
                Rc::make_mut(&mut st.threads[t]).raw += 1;
                return Ok(NONE);
            }
            "vp_atomic_end" | "vp_raw_end" => {
                Rc::make_mut(&mut st.threads[t]).raw -= 1;
                return Ok(NONE);
            }
            "vp_hb_release" => {
                let p = int!(0);
                let (r, i, o) = self.locate(st, t, p, 1, "hb")?;
                // a lock-like location: accumulate
                self.hb_write(st, t, r, i, o, Ord { acq: true, rel: true, sc: true }, true);
                return Ok(NONE);
            }
            "vp_hb_acquire" => {
                let p = int!(0);
                let (r, i, o) = self.locate(st, t, p, 1, "hb")?;
                self.hb_read(st, t, r, i, o, Ord { acq: true, rel: true, sc: true });
                return Ok(NONE);
            }
            "vp_leak_start" => {
                st.leak = true;
                return Ok(NONE);
            }
            "vp_leak_check" => {
                let code = int!(0) as u32;
                for r in (1..st.regs.len()).step_by(2) {
                    for o in st.regs[r].objs.iter() {
                        if o.live && o.counted {
                            return self.viol(st, t, "leak", code, format!("an allocation of {} bytes was never freed", o.data.len()));
                        }
                    }
                }
                st.leak = false;
                return Ok(NONE);
            }
            "vp_allow_abort" => {
                st.allow_abort = int!(0) & 1 == 1;
                return Ok(NONE);
            }
            "vp_alloc_limit" => {
                st.alloc_limit = int!(0);
                return Ok(NONE);
            }
            "vp_alloc" | "vp_alloc_zeroed" => {
                let limit = konst(st.alloc_limit, 64);
                let al = int!(1);
                if let Val::S(e) = &a[0] {
                    if self.decide(st, bin(Op::Ult, limit, *e))? {
                        return ret(0);
                    }
                }
                let size = int!(0);
                if size > st.alloc_limit {
                    return ret(0);
                }
                let p = self.alloc(st, t, size, al, if n == "vp_alloc" { 0xCD } else { 0 });
                return ret(p);
            }
            "vp_free" => {
                let p = int!(0);
                let size = int!(1);
                let al = int!(2);
                self.free(st, t, p, Some((size, al)))?;
                return Ok(NONE);
            }
            "vp_realloc" => {
                let p = int!(0);
                let size = int!(1);
                let al = int!(2);
                let new = int!(3);
                if new > st.alloc_limit {
                    return ret(0);
                }
                let q = self.alloc(st, t, new, al, 0xCD);
                self.copy(st, t, q, p, size.min(new))?;
                self.free(st, t, p, Some((size, al)))?;
                return ret(q);
            }
            "bcmp" | "memcmp" => {
                let (p, q, k) = (int!(0), int!(1), int!(2));
                for i in 0..k {
                    let x = self.load(st, t, p + i, &Ty::Int(8))?;
                    let y = self.load(st, t, q + i, &Ty::Int(8))?;
                    let (x, y) = (self.concrete(st, &x, 8)?, self.concrete(st, &y, 8)?);
                    if x != y {
                        return ret(mask((x as i64 - y as i64) as u64, 32));
                    }
                }
                return ret(0);
            }
            "strlen" => {
                let p = int!(0);
                let mut k = 0;
                loop {
                    let x = self.load(st, t, p + k, &Ty::Int(8))?;
                    if self.concrete(st, &x, 8)? == 0 {
                        return ret(k);
                    }
                    k += 1;
                }
            }
            _ => {}
        }
        if n.contains("___rust_no_alloc_shim") {
            return Ok(Some(None));
        }
        if n.contains("5futex5Mutex14lock_contended") {
            let p = int!(0);
            self.gate(st, t, p)?;
            let (r, i, off) = self.locate(st, t, p, 4, "lock")?;
            let Val::I(x) = self.read_bytes(st, r, i, off, 4) else { self.unsupported(st, t, "symbolic mutex") };
            let o = Ord { acq: true, rel: false, sc: false };
            self.access(st, t, r, i, off, 4, Acc::AtW)?;
            self.hb_read(st, t, r, i, off, o);
            self.write_bytes(st, t, r, i, off, 4, &Val::I(2));
            self.hb_write(st, t, r, i, off, o, true);
            self.done_event(st, t);
            let th = Rc::make_mut(&mut st.threads[t]);
            if x == 0 {
                th.status = Status::Ready;
                return Ok(NONE);
            }
            th.status = Status::Lock(p);
            return Err(Stop::Blocked);
        }
        if n.contains("5futex5Mutex4wake") {
            return Ok(NONE);
        }
        if n.contains("5futex10futex_wake") {
            return if c.ret == Ty::Void { Ok(NONE) } else { ret(1) };
        }
        if n.contains("6thread7current7current") || n.contains("6thread7current11current_or") {
            let p = self.thread_handle(st, t);
            // one more reference
            let (r, i, o) = self.locate(st, t, p, 8, "thread")?;
            let Val::I(x) = self.read_bytes(st, r, i, o, 8) else { panic!() };
            self.write_bytes(st, t, r, i, o, 8, &Val::I(x + 1));
            return ret(p);
        }
        if n == "_ZN3std6thread4park" {
            let p = self.thread_handle(st, t) + 40;
            self.gate(st, t, p)?;
            let (r, i, off) = self.locate(st, t, p, 4, "park")?;
            let Val::I(x) = self.read_bytes(st, r, i, off, 4) else { panic!() };
            let o = Ord { acq: true, rel: false, sc: false };
            self.access(st, t, r, i, off, 4, Acc::AtW)?;
            self.hb_read(st, t, r, i, off, o);
            let token = x == 1;
            self.write_bytes(st, t, r, i, off, 4, &Val::I(if token { 0 } else { 0xffff_ffff }));
            self.hb_write(st, t, r, i, off, o, true);
            self.done_event(st, t);
            let th = Rc::make_mut(&mut st.threads[t]);
            if token {
                th.status = Status::Ready;
                return Ok(NONE);
            }
            th.status = Status::Park(p);
            return Err(Stop::Blocked);
        }
        if n.contains("6thread9yield_now") || n.contains("6thread5sleep") {
            // a scheduling point
            self.visible(st, t)?;
            self.done_event(st, t);
            return Ok(NONE);
        }
        if n.contains("6thread21available_parallelism") {
            return Ok(Some(Some(Val::a(vec![Val::I(0), Val::I(2)]))));
        }
        if n.contains("hashmap_random_keys") {
            return Ok(Some(Some(Val::a(vec![Val::I(0x0123456789abcdef), Val::I(0xfedcba9876543210)]))));
        }
        if n.contains("11panic_count17is_zero_slow_path") {
            return ret((st.threads[t].panics == 0) as u64);
        }
        if n.contains("Layout19is_size_align_valid") {
            let al = int!(1);
            let ok_al = al.is_power_of_two();
            if !ok_al {
                return ret(0);
            }
            let max = (1u64 << 63) - al;
            return match &a[0] {
                Val::I(s) => ret((*s <= max) as u64),
                Val::S(e) => Ok(Some(Some(val_of(bin(Op::Ule, *e, konst(max, 64)))))),
                _ => panic!(),
            };
        }
        if n.contains("handle_alloc_error") || n.contains("11Fallibility9alloc_err") {
            if st.allow_abort {
                self.st.aborts += 1;
                return Err(Stop::Dead);
            }
            return self.viol(st, t, "abort", 1, "allocation failure".into());
        }
        if n.contains("catch_unwind7cleanup") {
            let (p, vt) = self.caught(st, t);
            return Ok(Some(Some(Val::a(vec![Val::I(p), Val::I(vt)]))));
        }
        if n.contains("3std5panic13resume_unwind") {
            let (p, vt) = (int!(0), int!(1));
            self.throw(st, t, "resume_unwind", Some((p, vt)))?;
            return Ok(None);
        }
        if n.contains("panic_cannot_unwind")
            || n.contains("panic_nounwind")
            || n.contains("panic_in_cleanup")
            || n.contains("panic_misaligned")
            || n.contains("panic_null_pointer")
            || n.contains("3std7process5abort")
            || n == "abort"
        {
            return self.viol(st, t, "abort", 2, demangle(n));
        }
        if n.contains("4core9panicking")
            || n.contains("unwrap_failed")
            || n.contains("expect_failed")
            || n.contains("5slice5index")
            || n.contains("slice_start_index")
            || n.contains("slice_end_index")
            || n.contains("7raw_vec17capacity_overflow")
            || n.contains("7raw_vec12handle_error")
            || n.contains("capacity_overflow")
            || n.contains("13assert_failed")
            || n.contains("begin_panic")
            || n.contains("rust_panic_with_hook")
            || n.contains("panic_already")
            || n.contains("str16slice_error_fail")
        {
            let d = demangle(n);
            self.throw(st, t, &d, None)?;
            return Ok(None);
        }
        if n.contains("Arc$LT$T$C$A$GT$9drop_slow") {
            return Ok(NONE);
        }
        if n.contains("4core3fmt8builders") && (n.ends_with("5entry") || n.ends_with("5field")) {
            // the harness formats what it is given
            let h = if a.len() == 5 { "verif_fmt_pair" } else { "verif_fmt_one" };
            let f = self.fnames.iter().position(|x| x == h).and_then(|i| self.prog.func(i));
            if let Some(f) = f {
                self.push_call(st, t, f, a);
                return Ok(None);
            }
        }
        if n.contains("4core3fmt") {
            // formatting succeeds and writes nothing
            return if c.ret == Ty::Void { Ok(NONE) } else { ret(0) };
        }
        self.unsupported(st, t, &format!("external function {}", n))
    }

    fn any_vtable(&mut self, _st: &mut State) -> u64 {
        // drop_in_place (null), size 0, align 1: any constant global with zeroes
        // and a one would do; a dedicated constant object is created once.
        for (k, (m, i)) in self.gmap.iter().enumerate() {
            if !*m && *i != u32::MAX && k >= self.prog.globals.len() {
                return (GLOBAL_ID0 + k as u64) << 32;
            }
        }
        let mut o = Obj::new(64, 8, 0);
        o.data[16] = 1;
        o.shared = true;
        self.consts.push(Rc::new(o));
        self.gmap.push((false, self.consts.len() as u32 - 1));
        (GLOBAL_ID0 + self.gmap.len() as u64 - 1) << 32
    }

    fn thread_handle(&mut self, st: &mut State, t: usize) -> u64 {
        if st.threads[t].handle != 0 {
            return st.threads[t].handle;
        }
        let leak = st.leak;
        st.leak = false;
        let p = self.alloc(st, t, 64, 8, 0);
        st.leak = leak;
        let (r, i, _) = self.locate(st, t, p, 0, "thread").ok().unwrap();
        let o = st.regs[r].get_mut(i);
        o.data[0] = 1;
        o.data[8] = 1;
        o.data[16] = t as u8 + 1;
        o.shared = true;
        Rc::make_mut(&mut st.threads[t]).handle = p;
        p
    }
}

fn insert(v: &mut Val, x: Val, ix: &[u32]) {
    let Val::A(r) = v else { panic!("insertvalue") };
    let mut r = (*r).clone();
    if ix.len() == 1 {
        r[ix[0] as usize] = x;
    } else {
        insert(&mut r[ix[0] as usize], x, &ix[1..]);
    }
    *v = Val::a(r);
}

fn from_bytes(ty: &Ty, b: &[u8]) -> Val {
    match ty {
        Ty::Int(w) if *w <= 64 => {
            let mut x = 0u64;
            for k in (0..b.len().min(8)).rev() {
                x = x << 8 | b[k] as u64;
            }
            Val::I(mask(x, *w))
        }
        Ty::Int(_) => {
            let mut x = 0u128;
            for k in (0..16).rev() {
                x = x << 8 | b[k] as u128;
            }
            Val::w(x)
        }
        Ty::Ptr => from_bytes(&Ty::Int(64), b),
        Ty::Vec(n, t) if **t == Ty::Int(1) => Val::a((0..*n as usize).map(|k| Val::I((b[k / 8] >> (k % 8) & 1) as u64)).collect()),
        Ty::Arr(_, t) | Ty::Vec(_, t) => {
            let sz = t.size() as usize;
            Val::a(b.chunks(sz).map(|c| from_bytes(t, c)).collect())
        }
        _ => panic!("bitcast to {:?}", ty),
    }
}

pub type Fns = HashMap<String, u64>;
