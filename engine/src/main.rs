mod alloc;
mod exec;
mod dpor;
mod explore;
mod expr;
mod instr;
mod ir;
mod mem;
mod z3;

#[global_allocator]
static ALLOC: alloc::Alloc = alloc::Alloc::new();

use exec::*;
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// "kind", "kind:code" or "kind:low-high", separated by commas.
fn classes(s: &str) -> Vec<(String, u32, u32)> {
    s.split(',')
        .filter(|x| !x.is_empty())
        .map(|x| match x.split_once(':') {
            None => (x.to_string(), 0, u32::MAX),
            Some((k, r)) => match r.split_once('-') {
                None => (k.to_string(), r.parse().unwrap(), r.parse().unwrap()),
                Some((a, b)) => (k.to_string(), a.parse().unwrap(), b.parse().unwrap()),
            },
        })
        .collect()
}

fn trace(sched: &[(u8, u32)], vals: &[(u32, u32, u32, u64)]) -> String {
    format!(
        "\"schedule\": [{}], \"values\": [{}]",
        sched.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect::<Vec<_>>().join(","),
        vals.iter().map(|x| format!("[{},{},{},{}]", x.0, x.1, x.2, x.3)).collect::<Vec<_>>().join(",")
    )
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("instrument") {
        instr::instrument(&args[2], &args[3]);
        return;
    }
    std::panic::set_hook(Box::new(|i| {
        eprintln!("ENGINE-ERROR {}", i);
        std::process::exit(3);
    }));
    let mut files = vec![];
    let mut scenario = String::new();
    let mut outf = String::new();
    let mut o = explore::Opts { time: 1e9, max_states: usize::MAX, preempt: None, progress: false, dpor: true, terminals: false };
    let (mut accept, mut ignore) = (vec![], vec![]);
    let mut hb = Hb::Full;
    let mut fix: Vec<(u32, u32, u64)> = vec![];
    let mut i = 1;
    while i < args.len() {
        let a = args[i].clone();
        let mut next = || {
            i += 1;
            args[i].clone()
        };
        match a.as_str() {
            "--scenario" => scenario = next(),
            "--out" => outf = next(),
            "--time" => o.time = next().parse().unwrap(),
            "--max-states" => o.max_states = next().parse().unwrap(),
            "--preempt" => o.preempt = Some(next().parse().unwrap()),
            "--accept" => accept = classes(&next()),
            "--ignore" => ignore = classes(&next()),
            "--no-reduction" => o.dpor = false,
            "--terminals" => o.terminals = true,
            "--progress" => o.progress = true,
            "--fix" => {
                let s = next();
                let (k, v) = s.split_once('=').unwrap();
                let (t, k) = k.split_once('.').unwrap_or(("0", k));
                fix.push((t.parse().unwrap(), k.parse().unwrap(), v.parse().unwrap()));
            }
            "--hb" => {
                hb = match next().as_str() {
                    "off" => Hb::Off,
                    "writes" => Hb::Writes,
                    _ => Hb::Full,
                }
            }
            _ => files.push(a),
        }
        i += 1;
    }
    let prog: &'static ir::Program = Box::leak(Box::new(ir::Program::load(&files)));
    let mut ex = Ex::new(prog);
    ex.hb = hb;
    ex.fix = fix.clone();
    ex.accept = accept;
    ex.ignore = ignore;
    let mut r = explore::explore(&mut ex, &scenario, &o, None);
    for (k, n) in &ex.skipped {
        *r.foreign.entry(k.clone()).or_insert(0) += n;
    }
    let mut s = String::from("{\n");
    let _ = writeln!(s, "\"scenario\": {},", js(&scenario));
    let _ = writeln!(s, "\"fix\": [{}],", fix.iter().map(|x| format!("[{},{},{}]", x.0, x.1, x.2)).collect::<Vec<_>>().join(","));
    if o.terminals {
        let x = r.terminals.iter().fold(0u128, |a, b| a.wrapping_mul(1_000_003).wrapping_add(*b));
        let _ = writeln!(s, "\"terminals\": [{}, \"{:x}\"],", r.terminals.len(), x);
    }
    let _ = writeln!(s, "\"complete\": {}, \"reason\": {},", r.complete, js(&r.reason));
    let _ = writeln!(
        s,
        "\"states\": {}, \"transitions\": {}, \"merged\": {}, \"paths\": {}, \"max_depth\": {}, \"max_pc\": {}, \"bounded\": {}, \"wall\": {:.3},",
        r.states, r.transitions, r.merged, r.paths, r.max_depth, r.max_pc, r.bounded, r.wall
    );
    let _ = writeln!(
        s,
        "\"instructions\": {}, \"forks\": {}, \"decisions\": {}, \"infeasible\": {}, \"aborts\": {}, \"asserts\": {},",
        ex.st.ins, ex.st.forks, ex.st.decisions, ex.st.dead, ex.st.aborts, ex.st.asserts
    );
    let _ = writeln!(
        s,
        "\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"cache_hits\": {}, \"model_hits\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3}, \"symbols\": {},",
        ex.z3.queries,
        ex.z3.sat,
        ex.z3.unsat,
        ex.z3.cache_hits,
        ex.z3.model_hits,
        ex.z3.time,
        ex.z3.max_time,
        expr::arena().sym_names.len()
    );
    let _ = writeln!(s, "\"reached\": [{}],", ex.st.reached.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect::<Vec<_>>().join(","));
    let _ = writeln!(s, "\"functions\": [{}],", explore::coverage(prog).iter().map(|x| format!("[{},{}]", js(&x.0), x.1)).collect::<Vec<_>>().join(","));
    let _ = writeln!(s, "\"foreign\": [{}],", r.foreign.iter().map(|((k, c), n)| format!("[{},{},{}]", js(k), c, n)).collect::<Vec<_>>().join(","));
    let _ = writeln!(s, "\"samples\": [{}],", r.samples.iter().map(|(a, b)| format!("{{{}}}", trace(a, b))).collect::<Vec<_>>().join(","));
    match &r.viol {
        None => {
            let _ = writeln!(s, "\"violation\": null");
        }
        Some((v, sched, vals)) => {
            let _ = writeln!(
                s,
                "\"violation\": {{\"kind\": {}, \"code\": {}, \"msg\": {}, \"tid\": {}, \"stack\": [{}], {}}}",
                js(&v.kind),
                v.code,
                js(&v.msg),
                v.tid,
                v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
                trace(sched, vals)
            );
        }
    }
    s.push_str("}\n");
    if outf.is_empty() {
        print!("{}", s);
    } else {
        std::fs::write(&outf, s).unwrap();
    }
}
