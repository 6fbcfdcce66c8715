//! Exploration with dynamic partial-order reduction.
//!
//! As `explore`, but of the schedules that differ only in the order of independent
//! steps not all are executed.  A step is what a thread does from one visible
//! operation to the next one; two steps of different threads are dependent if they
//! access a common byte of an object known to several threads and at least one of
//! them writes it (non-atomic accesses, frees and the harness's bookkeeping count).
//! Backtracking points are added as by Flanagan and Godefroid: wherever a step is
//! found to race with an earlier one of the path, its thread (all threads, if it is
//! not enabled there) is also explored before that one.  For states seen before, the
//! accesses performed in any execution from there stand for the ones not repeated;
//! happens-before is then taken from the present path only, so that more
//! backtracking points are added than necessary.  In cycles of states, and on paths
//! cut off early, nothing is reduced.
use crate::exec::*;
use crate::explore::*;
use crate::expr::*;
use crate::mem::*;
use std::collections::{BTreeMap, HashMap};
use std::hash::BuildHasherDefault;
use std::time::Instant;

/// One access: object, first byte, byte after the last one, write.
pub type LogEnt = (u64, u32, u32, bool);
type Log = Vec<LogEnt>;

struct DNode {
    st: State,
    en: u32,
    todo: u32,
    done: u32,
    id: u32,
    /// What happened before the last step of each thread.
    clk: [Clk; NT],
    /// The step being explored.
    tid: usize,
    tclk: Clk,
    keys: Vec<u64>,
    /// Other outcomes of the step.
    pend: Vec<(State, usize, Log)>,
    foot: u32,
    low: usize,
    first: u32,
}

#[derive(Clone, Copy)]
struct Ent {
    lo: u32,
    hi: u32,
    w: bool,
    depth: u32,
    tid: u8,
}

/// Interned accesses of threads, and sets of them.
struct Foot {
    items: Map<(u8, u64, u32, u32, bool), u32>,
    list: Vec<(u8, u64, u32, u32, bool)>,
    sets: Vec<Box<[u32]>>,
    ids: Map<Box<[u32]>, u32>,
    memo: Map<(u32, u32), u32>,
}
impl Foot {
    fn new() -> Foot {
        let mut f = Foot { items: Map::default(), list: vec![], sets: vec![], ids: Map::default(), memo: Map::default() };
        f.set(vec![]);
        f
    }
    fn set(&mut self, v: Vec<u32>) -> u32 {
        let v = v.into_boxed_slice();
        if let Some(k) = self.ids.get(&v) {
            return *k;
        }
        let k = self.sets.len() as u32;
        self.sets.push(v.clone());
        self.ids.insert(v, k);
        k
    }
    fn of(&mut self, t: usize, l: &Log) -> u32 {
        let mut v: Vec<u32> = l
            .iter()
            .map(|a| {
                let k = (t as u8, a.0, a.1, a.2, a.3);
                let n = self.list.len() as u32;
                let e = *self.items.entry(k).or_insert(n);
                if e == n {
                    self.list.push(k);
                }
                e
            })
            .collect();
        v.sort_unstable();
        v.dedup();
        self.set(v)
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = (a.min(b), a.max(b));
        if let Some(k) = self.memo.get(&key) {
            return *k;
        }
        let (x, y) = (&self.sets[a as usize], &self.sets[b as usize]);
        let mut v = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() && j < y.len() {
            if x[i] == y[j] {
                v.push(x[i]);
                i += 1;
                j += 1;
            } else if x[i] < y[j] {
                v.push(x[i]);
                i += 1;
            } else {
                v.push(y[j]);
                j += 1;
            }
        }
        v.extend_from_slice(&x[i..]);
        v.extend_from_slice(&y[j..]);
        let k = if v.len() == x.len() {
            a
        } else if v.len() == y.len() {
            b
        } else {
            self.set(v)
        };
        self.memo.insert(key, k);
        k
    }
}

/// Sorted, without accesses covered by others.
fn compact(mut l: Log) -> Log {
    l.sort_unstable_by_key(|a| (a.0, !a.3, a.1, std::cmp::Reverse(a.2)));
    l.dedup();
    let mut out: Log = vec![];
    let mut start = 0;
    for a in l {
        if let Some(p) = out.last() {
            if p.0 != a.0 {
                start = out.len();
            }
        }
        // (only exact containment; ranges are not joined)
        if out[start..].iter().any(|p| p.0 == a.0 && p.1 <= a.1 && a.2 <= p.2 && (p.3 || !a.3)) {
            continue;
        }
        out.push(a);
    }
    out
}

/// The thread `p` is also explored at this state.
fn backtrack(n: &mut DNode, p: usize) {
    if n.en >> p & 1 != 0 {
        n.todo |= 1 << p;
    } else {
        n.todo |= n.en;
    }
}

pub fn explore(ex: &mut Ex, entry: &str, o: &Opts, target: Option<(u32, Viol)>) -> Outcome {
    let t0 = Instant::now();
    ex.deadline = t0 + std::time::Duration::from_secs_f64(o.time.min(1e8));
    ex.log_on = true;
    const TERM: u32 = u32::MAX - 1;
    const NONE: u32 = u32::MAX;
    let init = ex.initial(entry);
    let mut visited: HashMap<u128, u32, BuildHasherDefault<IdHash>> = HashMap::default();
    // per state: footprint of everything after it, depth on the stack (or NONE), a
    // state on the stack at the time that is reachable (or NONE)
    let mut foot: Vec<u32> = vec![];
    let mut on: Vec<u32> = vec![];
    let mut low: Vec<u32> = vec![];
    let mut fp = Foot::new();
    let mut edges: Vec<(u32, u32)> = vec![];
    let mut stack: Vec<DNode> = vec![];
    let mut rootq: Vec<(State, usize, Log)> = vec![(init, 0, vec![])];
    let mut idx: Map<u64, Vec<Ent>> = Map::default();
    let mut out = Outcome {
        viol: None,
        foreign: BTreeMap::new(),
        samples: vec![],
        complete: true,
        reason: String::new(),
        states: 0,
        transitions: 0,
        merged: 0,
        paths: 0,
        max_depth: 0,
        max_pc: 0,
        bounded: 0,
        terminals: Default::default(),
        wall: 0.0,
    };
    let mut tick = 0u32;
    let mut full = 0u64;
    let mut races: Map<(u64, u32, u32), u64> = Map::default();
    'main: loop {
        tick += 1;
        if tick & 63 == 0 {
            if t0.elapsed().as_secs_f64() > o.time {
                out.complete = false;
                out.reason = "time limit".into();
                break;
            }
            if visited.len() > o.max_states {
                out.complete = false;
                out.reason = "state limit".into();
                break;
            }
            if o.progress && tick & 0xffff == 0 {
                eprintln!(
                    "  {:.0}s states {} merged {} paths {} depth {} sets {} items {} full {}",
                    t0.elapsed().as_secs_f64(),
                    visited.len(),
                    out.merged,
                    out.paths,
                    stack.len(),
                    fp.sets.len(),
                    fp.list.len(),
                    full
                );
            }
        }
        let depth = stack.len();
        let (mut st, mut t, prefix) = if let Some(n) = stack.last_mut() {
            let next = if let Some(x) = n.pend.pop() {
                Some(x)
            } else {
                let avail = n.todo & !n.done;
                if avail == 0 {
                    None
                } else {
                    let t = if avail >> n.first & 1 != 0 { n.first as usize } else { avail.trailing_zeros() as usize };
                    n.done |= 1 << t;
                    n.tid = t;
                    let mut st = n.st.clone();
                    st.last = t as u8;
                    std::rc::Rc::make_mut(&mut st.threads[t]).granted = true;
                    out.transitions += 1;
                    Some((st, t, vec![]))
                }
            };
            // the accesses of the previous outcome or step
            for k in n.keys.drain(..) {
                let v = idx.get_mut(&k).unwrap();
                while v.last().is_some_and(|e| e.depth as usize == depth - 1) {
                    v.pop();
                }
            }
            match next {
                Some(x) => x,
                None => {
                    let n = stack.pop().unwrap();
                    foot[n.id as usize] = n.foot;
                    on[n.id as usize] = NONE;
                    if n.low < depth - 1 {
                        low[n.id as usize] = stack[n.low].id;
                    }
                    if let Some(p) = stack.last_mut() {
                        p.foot = fp.union(p.foot, n.foot);
                        if n.low < depth - 1 {
                            p.low = p.low.min(n.low);
                        }
                    }
                    continue;
                }
            }
        } else if let Some(x) = rootq.pop() {
            x
        } else {
            break;
        };
        let parent = stack.last().map_or(NONE, |n| n.id);
        let mut log = prefix;
        let stop = loop {
            ex.log = log;
            ex.fork_marks.clear();
            let stop = ex.run(&mut st, t);
            log = std::mem::take(&mut ex.log);
            let marks = std::mem::take(&mut ex.fork_marks);
            for (f, m) in ex.forks.drain(..).zip(marks) {
                let x = (f, t, log[..m].to_vec());
                match stack.last_mut() {
                    Some(n) => n.pend.push(x),
                    None => rootq.push(x),
                }
            }
            record(&mut st, t);
            if ex.timed_out || !matches!(stop, Stop::Poised | Stop::Blocked | Stop::Done) {
                break stop;
            }
            // fresh threads run up to their first visible operation
            if st.threads[0].status == Status::Done {
                break stop;
            }
            let fresh = (0..st.threads.len()).find(|&k| {
                let th = &st.threads[k];
                th.status == Status::Ready && !th.poised && k != t
            });
            match fresh {
                Some(k) => t = k,
                None => break stop,
            }
        };
        if ex.timed_out {
            out.complete = false;
            out.reason = "time limit".into();
            break;
        }
        // races with the steps of the path
        let log = compact(log);
        let mut child_clk = [[0u16; NT]; NT];
        if depth > 0 {
            let p = stack[depth - 1].tid;
            child_clk = stack[depth - 1].clk;
            let mut c = child_clk[p];
            let mut conf: Vec<u32> = vec![];
            for a in &log {
                if let Some(v) = idx.get(&a.0) {
                    for e in v {
                        if e.tid as usize != p && e.lo < a.2 && a.1 < e.hi && (e.w || a.3) {
                            conf.push(e.depth);
                            if o.progress && e.depth as u16 + 1 > c[e.tid as usize] {
                                *races.entry((a.0, e.lo, e.hi)).or_insert(0) += 1;
                            }
                        }
                    }
                }
            }
            conf.sort_unstable();
            conf.dedup();
            for d in conf.iter().rev() {
                let d = *d as usize;
                let q = stack[d].tid;
                if d as u16 + 1 > c[q] {
                    backtrack(&mut stack[d], p);
                    let k = stack[d].tclk;
                    join(&mut c, &k);
                }
            }
            c[p] = depth as u16;
            child_clk[p] = c;
            let n = stack.last_mut().unwrap();
            n.tclk = c;
            let s = fp.of(p, &log);
            n.foot = fp.union(n.foot, s);
            for a in &log {
                let v = idx.entry(a.0).or_default();
                if !v.last().is_some_and(|e| e.depth as usize == depth - 1) {
                    n.keys.push(a.0);
                }
                v.push(Ent { lo: a.1, hi: a.2, w: a.3, depth: depth as u32 - 1, tid: p as u8 });
            }
        }
        let cut = match stop {
            Stop::Redo => unreachable!(),
            Stop::Dead => true,
            Stop::Viol(v) if !ex.wanted(&v.kind, v.code) => {
                *out.foreign.entry((v.kind.clone(), v.code)).or_insert(0) += 1;
                true
            }
            Stop::Viol(v) => {
                out.viol = Some((*v, st.schedule(), values(ex, &st)));
                break;
            }
            Stop::Poised | Stop::Blocked | Stop::Done => false,
        };
        if cut {
            // what the threads would have done is unknown
            if st.unfinished > 1 {
                full += 1;
                for n in stack.iter_mut() {
                    n.todo |= n.en;
                }
            }
            edges.push((parent, TERM));
            continue;
        }
        out.max_pc = out.max_pc.max(st.pc.len());
        if st.threads[0].status == Status::Done {
            out.paths += 1;
            if out.paths.is_power_of_two() && target.is_none() {
                if out.samples.len() >= 6 {
                    out.samples.remove(1);
                }
                out.samples.push((st.schedule(), values(ex, &st)));
            }
            edges.push((parent, TERM));
            continue;
        }
        let en: u32 = (0..st.threads.len()).filter(|&k| enabled(ex, &st, k)).map(|k| 1 << k).sum();
        if en == 0 {
            let v = deadlock(&st, t);
            if !ex.wanted(&v.kind, v.code) {
                *out.foreign.entry((v.kind.clone(), v.code)).or_insert(0) += 1;
                edges.push((parent, TERM));
                // blocked threads have steps left
                full += 1;
                for n in stack.iter_mut() {
                    n.todo |= n.en;
                }
                continue;
            }
            out.viol = Some((v, st.schedule(), values(ex, &st)));
            break;
        }
        let h = st.hash(ex.hb != Hb::Off, false);
        if o.terminals && en == 1 {
            out.terminals.insert(st.hash_plain());
        }
        let fresh_id = visited.len() as u32;
        match visited.entry(h) {
            std::collections::hash_map::Entry::Occupied(e) => {
                let id = *e.get();
                out.merged += 1;
                if parent < TERM {
                    edges.push((parent, id));
                }
                let mut r = id;
                while on[r as usize] == NONE && low[r as usize] != NONE {
                    r = low[r as usize];
                }
                if on[r as usize] != NONE {
                    // a cycle
                    let d = on[r as usize] as usize;
                    full += 1;
                    for n in &mut stack[d..] {
                        n.todo |= n.en;
                    }
                    let n = stack.last_mut().unwrap();
                    n.low = n.low.min(d);
                    continue 'main;
                }
                let f = foot[r as usize];
                if depth > 0 {
                    let mut back: Vec<(u32, u8)> = vec![];
                    for it in fp.sets[f as usize].iter() {
                        let a = fp.list[*it as usize];
                        let p = a.0 as usize;
                        if let Some(v) = idx.get(&a.1) {
                            let c = &child_clk[p];
                            for e in v {
                                if e.tid as usize != p && e.lo < a.3 && a.2 < e.hi && (e.w || a.4) && e.depth as u16 + 1 > c[e.tid as usize] {
                                    back.push((e.depth, a.0));
                                }
                            }
                        }
                    }
                    for (d, p) in back {
                        backtrack(&mut stack[d as usize], p as usize);
                    }
                    let n = stack.last_mut().unwrap();
                    n.foot = fp.union(n.foot, f);
                }
            }
            std::collections::hash_map::Entry::Vacant(e) => {
                e.insert(fresh_id);
                if parent < TERM {
                    edges.push((parent, fresh_id));
                }
                if let Some((id, v)) = &target {
                    if *id == fresh_id {
                        out.viol = Some((v.clone(), st.schedule(), values(ex, &st)));
                        break 'main;
                    }
                }
                foot.push(0);
                on.push(depth as u32);
                low.push(NONE);
                let first = if en >> t & 1 != 0 { t as u32 } else { en.trailing_zeros() };
                if depth + 2 >= u16::MAX as usize {
                    eprintln!("ENGINE-ERROR path too long");
                    std::process::exit(3);
                }
                stack.push(DNode {
                    st,
                    en,
                    todo: 1 << first,
                    done: 0,
                    id: fresh_id,
                    clk: child_clk,
                    tid: 0,
                    tclk: [0; NT],
                    keys: vec![],
                    pend: vec![],
                    foot: 0,
                    low: usize::MAX,
                    first,
                });
            }
        }
        out.max_depth = out.max_depth.max(stack.len());
    }
    out.states = visited.len();
    ex.log_on = false;
    if o.progress {
        eprintln!("  sets {} items {} full {}", fp.sets.len(), fp.list.len(), full);
        let mut v: Vec<_> = races.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for x in v.iter().take(14) {
            eprintln!("  {:?} region {} object {} ", x, x.0 .0 >> 32, x.0 .0 & 0xffff_ffff);
        }
    }
    if out.viol.is_none() && out.complete && target.is_none() {
        if let Some(k) = stuck(visited.len(), &edges) {
            let v = livelock();
            if !ex.wanted(&v.kind, v.code) {
                *out.foreign.entry((v.kind.clone(), v.code)).or_insert(0) += 1;
            } else {
                let r = explore(ex, entry, o, Some((k, v)));
                out.viol = r.viol;
                if out.viol.is_none() {
                    eprintln!("ENGINE-ERROR the livelocked state was not found again");
                    std::process::exit(3);
                }
            }
        }
    }
    out.wall = t0.elapsed().as_secs_f64();
    out
}
