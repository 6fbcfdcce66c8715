//! Exploration of all schedules and all feasible branch outcomes.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;
use std::time::Instant;

#[derive(Default)]
pub struct IdHash(pub u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u128(&mut self, x: u128) {
        self.0 = x as u64
    }
}

pub struct Opts {
    pub time: f64,
    pub max_states: usize,
    pub preempt: Option<u32>,
    pub progress: bool,
    /// Partial-order reduction.
    pub dpor: bool,
    /// Collect the states in which all threads are done.
    pub terminals: bool,
}

pub type Values = Vec<(u32, u32, u32, u64)>;

pub struct Outcome {
    pub viol: Option<(Viol, Vec<(u8, u32)>, Values)>,
    /// Violations of other properties: the path ends there.
    pub foreign: BTreeMap<(String, u32), u64>,
    /// Some complete executions.
    pub samples: Vec<(Vec<(u8, u32)>, Values)>,
    pub complete: bool,
    pub reason: String,
    pub states: usize,
    pub transitions: u64,
    pub merged: u64,
    pub paths: u64,
    pub max_depth: usize,
    pub max_pc: usize,
    pub bounded: u64,
    pub terminals: std::collections::BTreeSet<u128>,
    pub wall: f64,
}

struct Node {
    st: State,
    enabled: Vec<u8>,
    next: usize,
    id: u32,
}

pub fn enabled(ex: &Ex, st: &State, t: usize) -> bool {
    let th = &st.threads[t];
    match th.status {
        Status::Done => false,
        Status::Ready => true,
        Status::Lock(a) => ex.peek32(st, a).map_or(true, |x| x == 0),
        Status::Park(a) => ex.peek32(st, a).map_or(true, |x| x == 1),
        Status::Join => (0..st.threads.len()).all(|k| k == t || st.threads[k].status == Status::Done),
    }
}

pub fn record(st: &mut State, t: usize) {
    let upto = st.threads[t].events;
    if let Some(s) = &st.sched {
        if s.tid as usize == t && s.upto == upto {
            return;
        }
    }
    st.sched = Some(Rc::new(Sched { tid: t as u8, upto, prev: st.sched.clone() }));
}

pub fn values(ex: &Ex, st: &State) -> Vec<(u32, u32, u32, u64)> {
    let ar = arena();
    ar.sym_names
        .iter()
        .enumerate()
        .map(|(k, (t, q, w))| (*t, *q, *w, st.model.get(k).copied().unwrap_or(0)))
        .chain(ex.fix.iter().map(|x| (x.0, x.1, 0, x.2)))
        .collect()
}

const TERM: u32 = u32::MAX - 1;

pub fn deadlock(st: &State, t: usize) -> Viol {
    let mut stk = vec![];
    for (k, th) in st.threads.iter().enumerate() {
        stk.push(format!("thread {}: {:?}", k, th.status));
        for f in th.frames.iter().rev().take(6) {
            stk.push(format!("   {}", demangle(&f.f.name)));
        }
    }
    Viol { kind: "deadlock".into(), code: 0, msg: "no thread can make progress".into(), tid: t, stack: stk }
}

pub fn livelock() -> Viol {
    Viol {
        kind: "nontermination".into(),
        code: 2,
        msg: "from this state on, no schedule lets the threads finish".into(),
        tid: 0,
        stack: vec![],
    }
}

/// A state from which no end is reached.
pub fn stuck(n: usize, edges: &[(u32, u32)]) -> Option<u32> {
    let mut start = vec![0u32; n + 2];
    let mut ok = vec![false; n];
    let mut work: Vec<u32> = vec![];
    for (a, b) in edges {
        if *a as usize >= n {
            continue;
        }
        if *b == TERM {
            if !ok[*a as usize] {
                ok[*a as usize] = true;
                work.push(*a);
            }
        } else {
            start[*b as usize + 1] += 1;
        }
    }
    for k in 1..start.len() {
        start[k] += start[k - 1];
    }
    let mut pos = start.clone();
    let mut rev = vec![0u32; start[n] as usize];
    for (a, b) in edges {
        if (*a as usize) < n && *b != TERM {
            rev[pos[*b as usize] as usize] = *a;
            pos[*b as usize] += 1;
        }
    }
    while let Some(b) = work.pop() {
        for k in start[b as usize]..start[b as usize + 1] {
            let a = rev[k as usize];
            if !ok[a as usize] {
                ok[a as usize] = true;
                work.push(a);
            }
        }
    }
    ok.iter().position(|x| !x).map(|k| k as u32)
}

/// `target`: stop when the node with this number is reached (to report it).
pub fn explore(ex: &mut Ex, entry: &str, o: &Opts, target: Option<(u32, Viol)>) -> Outcome {
    let t0 = Instant::now();
    if o.dpor && o.preempt.is_none() {
        return crate::dpor::explore(ex, entry, o, target);
    }
    ex.deadline = t0 + std::time::Duration::from_secs_f64(o.time.min(1e8));
    let init = ex.initial(entry);
    let mut visited: HashMap<u128, (u32, u32), BuildHasherDefault<IdHash>> = HashMap::default();
    let mut edges: Vec<(u32, u32)> = vec![];
    let mut stack: Vec<Node> = vec![];
    let mut runq: Vec<(State, usize, u32)> = vec![(init, 0, u32::MAX)];
    let mut out = Outcome {
        viol: None,
        foreign: BTreeMap::new(),
        samples: vec![],
        complete: true,
        reason: String::new(),
        states: 0,
        transitions: 0,
        merged: 0,
        paths: 0,
        max_depth: 0,
        max_pc: 0,
        bounded: 0,
        terminals: Default::default(),
        wall: 0.0,
    };
    let mut tick = 0u32;
    'main: loop {
        tick += 1;
        if tick & 63 == 0 {
            if t0.elapsed().as_secs_f64() > o.time {
                out.complete = false;
                out.reason = "time limit".into();
                break;
            }
            if visited.len() > o.max_states {
                out.complete = false;
                out.reason = "state limit".into();
                break;
            }
            if o.progress && tick & 0xffff == 0 {
                eprintln!(
                    "  {:.0}s states {} merged {} paths {} depth {} ins {}M queries {}",
                    t0.elapsed().as_secs_f64(),
                    visited.len(),
                    out.merged,
                    out.paths,
                    stack.len(),
                    ex.st.ins / 1_000_000,
                    ex.z3.queries
                );
            }
        }
        let (mut st, t, parent) = if let Some(x) = runq.pop() {
            x
        } else if let Some(n) = stack.last_mut() {
            if n.next >= n.enabled.len() {
                stack.pop();
                continue;
            }
            let t = n.enabled[n.next] as usize;
            n.next += 1;
            let last = n.next == n.enabled.len();
            let pre = t != n.st.last as usize && n.enabled.contains(&n.st.last);
            if pre {
                if let Some(b) = o.preempt {
                    if n.st.preempt >= b {
                        out.bounded += 1;
                        edges.push((n.id, TERM));
                        continue;
                    }
                }
            }
            let id = n.id;
            let mut st = if last { stack.pop().unwrap().st } else { n.st.clone() };
            if pre {
                st.preempt += 1;
            }
            st.last = t as u8;
            let th = Rc::make_mut(&mut st.threads[t]);
            th.granted = true;
            out.transitions += 1;
            (st, t, id)
        } else {
            break;
        };
        let stop = ex.run(&mut st, t);
        if ex.timed_out {
            out.complete = false;
            out.reason = "time limit".into();
            break;
        }
        for f in ex.forks.drain(..) {
            runq.push((f, t, parent));
        }
        record(&mut st, t);
        match stop {
            Stop::Redo => unreachable!(),
            Stop::Dead => {
                edges.push((parent, TERM));
                continue;
            }
            Stop::Viol(v) if !ex.wanted(&v.kind, v.code) => {
                *out.foreign.entry((v.kind.clone(), v.code)).or_insert(0) += 1;
                edges.push((parent, TERM));
                continue;
            }
            Stop::Viol(v) => {
                out.viol = Some((*v, st.schedule(), values(ex, &st)));
                break;
            }
            Stop::Poised | Stop::Blocked | Stop::Done => {}
        }
        out.max_pc = out.max_pc.max(st.pc.len());
        // fresh threads run up to their first visible operation
        if st.threads[0].status == Status::Done {
            out.paths += 1;
            if out.paths.is_power_of_two() && target.is_none() {
                if out.samples.len() >= 6 {
                    out.samples.remove(1);
                }
                out.samples.push((st.schedule(), values(ex, &st)));
            }
            edges.push((parent, TERM));
            continue;
        }
        let fresh = (0..st.threads.len()).find(|&k| {
            let th = &st.threads[k];
            th.status == Status::Ready && !th.poised && k != t
        });
        if let Some(k) = fresh {
            // without a grant: the thread stops before its first visible operation
            runq.push((st, k, parent));
            continue;
        }
        let en: Vec<u8> = (0..st.threads.len()).filter(|&k| enabled(ex, &st, k)).map(|k| k as u8).collect();
        if en.is_empty() {
            let v = deadlock(&st, t);
            if !ex.wanted(&v.kind, v.code) {
                *out.foreign.entry((v.kind.clone(), v.code)).or_insert(0) += 1;
                edges.push((parent, TERM));
                continue;
            }
            out.viol = Some((v, st.schedule(), values(ex, &st)));
            break;
        }
        let h = st.hash(ex.hb != Hb::Off, o.preempt.is_some());
        if o.terminals && en == [0] {
            out.terminals.insert(st.hash_plain());
        }
        let fresh_id = visited.len() as u32;
        let pre = st.preempt;
        match visited.entry(h) {
            std::collections::hash_map::Entry::Occupied(mut e) => {
                let (id, p) = *e.get();
                if parent < TERM {
                    edges.push((parent, id));
                }
                if p <= pre {
                    out.merged += 1;
                    continue 'main;
                }
                e.insert((id, pre));
                stack.push(Node { st, enabled: en, next: 0, id });
            }
            std::collections::hash_map::Entry::Vacant(e) => {
                e.insert((fresh_id, pre));
                if parent < TERM {
                    edges.push((parent, fresh_id));
                }
                if let Some((id, v)) = &target {
                    if *id == fresh_id {
                        out.viol = Some((v.clone(), st.schedule(), values(ex, &st)));
                        break 'main;
                    }
                }
                // prefer continuing the current thread
                let mut en = en;
                if let Some(p) = en.iter().position(|&k| k as usize == t) {
                    en.swap(0, p);
                }
                stack.push(Node { st, enabled: en, next: 0, id: fresh_id });
            }
        }
        out.max_depth = out.max_depth.max(stack.len());
    }
    out.states = visited.len();
    if out.viol.is_none() && out.complete && target.is_none() {
        if let Some(k) = stuck(visited.len(), &edges) {
            let v = livelock();
            if !ex.wanted(&v.kind, v.code) {
                *out.foreign.entry((v.kind.clone(), v.code)).or_insert(0) += 1;
                out.wall = t0.elapsed().as_secs_f64();
                return out;
            }
            let r = explore(ex, entry, o, Some((k, v)));
            out.viol = r.viol;
            if out.viol.is_none() {
                eprintln!("ENGINE-ERROR the livelocked state was not found again");
                std::process::exit(3);
            }
        }
    }
    out.wall = t0.elapsed().as_secs_f64();
    out
}

pub fn coverage(prog: &Program) -> Vec<(String, u64)> {
    let mut v: Vec<(String, u64)> = vec![];
    for f in &prog.fns {
        if let Some(x) = f.parsed.get() {
            if x.count.get() > 0 {
                v.push((demangle(&f.name), x.count.get()));
            }
        }
    }
    v.sort();
    v
}
