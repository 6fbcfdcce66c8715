//! Instruments textual IR for the native replay: calls are inserted before each
//! atomic operation and each plain memory access, and the functions of the
//! standard library that the interpreter models are redirected to the same
//! models in the replay runtime.
use std::fmt::Write;

/// Splits at commas outside of brackets and quotes.
fn split(s: &str) -> Vec<&str> {
    let (mut v, mut d, mut q, mut p) = (vec![], 0i32, false, 0);
    for (i, c) in s.char_indices() {
        match c {
            '"' => q = !q,
            '(' | '[' | '{' | '<' if !q => d += 1,
            ')' | ']' | '}' | '>' if !q => d -= 1,
            ',' if !q && d == 0 => {
                v.push(s[p..i].trim());
                p = i + 1;
            }
            _ => {}
        }
    }
    v.push(s[p..].trim());
    v
}

/// The length of the type at the start of `s`, and its size and alignment.
fn ty(s: &str) -> Option<(usize, u64, u64)> {
    let b = s.as_bytes();
    if b.is_empty() {
        return None;
    }
    if s.starts_with("ptr") {
        return Some((3, 8, 8));
    }
    if s.starts_with("double") {
        return Some((6, 8, 8));
    }
    if s.starts_with("float") {
        return Some((5, 4, 4));
    }
    if b[0] == b'i' {
        let n = s[1..].chars().take_while(|c| c.is_ascii_digit()).count();
        if n == 0 {
            return None;
        }
        let bits: u64 = s[1..1 + n].parse().unwrap();
        let sz = (bits + 7) / 8;
        return Some((1 + n, sz, sz.next_power_of_two().min(16)));
    }
    if b[0] == b'{' || s.starts_with("<{") {
        let packed = b[0] == b'<';
        let mut i = if packed { 2 } else { 1 };
        let (mut sz, mut al) = (0u64, 1u64);
        loop {
            while b[i] == b' ' || b[i] == b',' {
                i += 1;
            }
            if b[i] == b'}' {
                i += if packed { 2 } else { 1 };
                break;
            }
            let (n, s2, a2) = ty(&s[i..])?;
            i += n;
            let a2 = if packed { 1 } else { a2 };
            sz = (sz + a2 - 1) / a2 * a2 + s2;
            al = al.max(a2);
        }
        return Some((i, (sz + al - 1) / al * al, al));
    }
    if b[0] == b'[' || b[0] == b'<' {
        let x = s.find(" x ")?;
        let n: u64 = s[1..x].trim().parse().ok()?;
        let (l, sz, al) = ty(&s[x + 3..])?;
        let sz = if b[0] == b'<' && s[x + 3..].starts_with("i1>") { (n + 7) / 8 } else { n * sz };
        let al = if b[0] == b'<' { sz.next_power_of_two() } else { al };
        return Some((x + 3 + l + 1, sz, al));
    }
    None
}

/// The operand at the start of `s` (after its type), without what follows.
fn operand(s: &str) -> &str {
    let (mut d, mut q) = (0i32, false);
    let s = s.trim();
    let mut seen = false;
    for (i, c) in s.char_indices() {
        match c {
            '"' => q = !q,
            '(' | '[' | '{' | '<' if !q => d += 1,
            ')' | ']' | '}' | '>' if !q => d -= 1,
            ' ' if !q && d == 0 => {
                // constant expressions: words before the parenthesis
                let w = &s[..i];
                if seen || !(w.starts_with("getelementptr") || w.starts_with("inttoptr") || w.starts_with("ptrtoint")) {
                    return w;
                }
            }
            _ => {}
        }
        if (c == ')' || c == ']') && d == 0 {
            seen = true;
            return &s[..i + 1];
        }
    }
    s
}

fn ord(s: &str) -> u32 {
    match s {
        "acquire" => 1,
        "release" => 2,
        "acq_rel" => 3,
        "seq_cst" => 7,
        _ => 0,
    }
}

const RENAME: &[(&str, &str)] = &[
    ("5futex5Mutex14lock_contended", "vpx_lock_contended"),
    ("5futex5Mutex4wake", "vpx_mutex_wake"),
    ("5futex10futex_wake", "vpx_futex_wake"),
    ("6thread7current7current", "vpx_thread_current"),
    ("6thread7current11current_or", "vpx_thread_current"),
    ("_ZN3std6thread4park17h", "vpx_park"),
    ("6thread9yield_now", "vpx_yield"),
    ("6thread5sleep", "vpx_yield"),
    ("6thread21available_parallelism", "vpx_parallelism"),
    ("hashmap_random_keys", "vpx_random_keys"),
    ("Arc$LT$T$C$A$GT$9drop_slow", "vpx_nop"),
];

pub fn instrument(inp: &str, out: &str) {
    let s = std::fs::read_to_string(inp).unwrap();
    let mut o = String::with_capacity(s.len() * 2);
    let mut inside = false;
    let mut n = 0u32;
    let mut rename: Vec<(String, String)> = vec![];
    for l in s.lines() {
        if l.starts_with("declare ") {
            if let Some((_, r)) = RENAME.iter().find(|(a, _)| l.contains(a)) {
                let a = l.find('@').unwrap();
                let e = a + l[a..].find('(').unwrap();
                rename.push((l[a..e].to_string(), format!("@{}", r)));
            }
        }
    }
    let mut seen: Vec<String> = vec![];
    for l in s.lines() {
        let mut line = l.to_string();
        for (a, r) in &rename {
            if line.contains(a.as_str()) {
                line = line.replace(a.as_str(), r);
            }
        }
        if line.starts_with("declare ") && rename.iter().any(|(_, r)| line.contains(&format!("{}(", r))) {
            if seen.contains(&line) {
                continue;
            }
            seen.push(line.clone());
        }
        if line.starts_with("define ") {
            inside = true;
        } else if line.starts_with('}') {
            inside = false;
        }
        if inside && line.starts_with("  ") {
            let t = line.trim();
            let t = match t.find(" = ") {
                Some(k) if t.starts_with('%') => &t[k + 3..],
                _ => t,
            };
            let t = t.strip_prefix("tail ").unwrap_or(t);
            let t = t.strip_prefix("musttail ").unwrap_or(t);
            if let Some(r) = t.strip_prefix("load ") {
                let (at, r) = match r.strip_prefix("atomic ") {
                    Some(r) => (true, r),
                    None => (false, r),
                };
                let r = r.strip_prefix("volatile ").unwrap_or(r);
                let p = split(r);
                let size = ty(p[0]).unwrap_or_else(|| panic!("type {}", line)).1;
                let a = p[1].strip_prefix("ptr ").unwrap_or_else(|| panic!("operand {}", line));
                let op = operand(a);
                let k = match p[0].trim() {
                    "ptr" => Some("inttoptr i64 %vpl.# to ptr"),
                    "i64" => Some("add i64 %vpl.#, 0"),
                    "i32" => Some("trunc i64 %vpl.# to i32"),
                    "i16" => Some("trunc i64 %vpl.# to i16"),
                    "i8" => Some("trunc i64 %vpl.# to i8"),
                    _ => None,
                };
                if let (true, Some(k)) = (at, k) {
                    // it may read an earlier value
                    n += 1;
                    let res = line.trim().split(" = ").next().unwrap();
                    let _ = writeln!(o, "  %vpl.{n} = call i64 @vpx_load(ptr {}, i32 {}, i64 {})\n  {res} = {}", op, ord(a[op.len()..].trim()), size, k.replace('#', &n.to_string()));
                    continue;
                } else if at {
                    let _ = writeln!(o, "  call void @vpx_event(ptr {}, i32 0, i32 {}, i64 {})", op, ord(a[op.len()..].trim()), size);
                } else {
                    let _ = writeln!(o, "  call void @vpx_access(ptr {}, i64 {}, i32 0)", op, size);
                }
            } else if let Some(r) = t.strip_prefix("store ") {
                let (at, r) = match r.strip_prefix("atomic ") {
                    Some(r) => (true, r),
                    None => (false, r),
                };
                let r = r.strip_prefix("volatile ").unwrap_or(r);
                let p = split(r);
                let size = ty(p[0]).unwrap_or_else(|| panic!("type {}", line)).1;
                let a = p[1].strip_prefix("ptr ").unwrap_or_else(|| panic!("operand {}", line));
                let op = operand(a);
                if at {
                    let _ = writeln!(o, "  call void @vpx_event(ptr {}, i32 1, i32 {}, i64 {})", op, ord(a[op.len()..].trim()), size);
                } else {
                    let _ = writeln!(o, "  call void @vpx_access(ptr {}, i64 {}, i32 1)", op, size);
                }
            } else if let Some(r) = t.strip_prefix("atomicrmw ") {
                let r = r.strip_prefix("volatile ").unwrap_or(r);
                let p = split(r);
                let a = &p[0][p[0].find("ptr ").unwrap() + 4..];
                let (k, size, _) = ty(p[1]).unwrap();
                let rest = &p[1][k..];
                let v = operand(rest);
                let od = rest.trim()[v.len()..].trim();
                let _ = writeln!(o, "  call void @vpx_event(ptr {}, i32 2, i32 {}, i64 {})", operand(a), ord(od), size);
            } else if let Some(r) = t.strip_prefix("cmpxchg ") {
                let weak = r.starts_with("weak ");
                let r = r.strip_prefix("weak ").unwrap_or(r);
                let r = r.strip_prefix("volatile ").unwrap_or(r);
                let p = split(r);
                let a = operand(p[0].strip_prefix("ptr ").unwrap());
                let (k, size, _) = ty(p[1]).unwrap();
                let e = operand(&p[1][k..]);
                let (k2, _, _) = ty(p[2]).unwrap();
                let rest = p[2][k2..].trim();
                let nv = operand(rest);
                let ods: Vec<&str> = rest[nv.len()..].trim().split(' ').collect();
                n += 1;
                let ety = &p[1][..k];
                let c = match ety {
                    "ptr" => format!("ptrtoint ptr {} to i64", e),
                    "i64" => format!("add i64 {}, 0", e),
                    t => format!("zext {} {} to i64", t, e),
                };
                let _ = writeln!(o, "  %vpx.{} = {}", n, c);
                if weak {
                    // whether it fails for no reason is for the replay to say
                    let res = line.trim().split(" = ").next().unwrap();
                    let _ = writeln!(
                        o,
                        "  %vpw.{n} = call zeroext i1 @vpx_weak(ptr {a}, i64 %vpx.{n}, i64 {size}, i32 {}, i32 {})\n  \
                         %vpn.{n} = select i1 %vpw.{n}, {ety} {e}, {ety} {nv}\n  \
                         %vpr.{n} = cmpxchg ptr {a}, {ety} {e}, {ety} %vpn.{n} {}\n  \
                         %vps.{n} = extractvalue {{ {ety}, i1 }} %vpr.{n}, 1\n  \
                         %vpt.{n} = xor i1 %vpw.{n}, true\n  \
                         %vpu.{n} = and i1 %vps.{n}, %vpt.{n}\n  \
                         {res} = insertvalue {{ {ety}, i1 }} %vpr.{n}, i1 %vpu.{n}, 1",
                        ord(ods[0]),
                        ord(ods.get(1).copied().unwrap_or("")),
                        ods[..2].join(" "),
                    );
                    continue;
                }
                let _ = writeln!(
                    o,
                    "  call void @vpx_cas(ptr {}, i64 %vpx.{}, i64 {}, i32 {}, i32 {})",
                    a,
                    n,
                    size,
                    ord(ods[0]),
                    ord(ods.get(1).copied().unwrap_or(""))
                );
            } else if let Some(r) = t.strip_prefix("fence ") {
                let _ = writeln!(o, "  call void @vpx_event(ptr null, i32 3, i32 {}, i64 0)", ord(r.trim()));
            } else if t.starts_with("call void @llvm.memcpy") || t.starts_with("call void @llvm.memmove") || t.starts_with("call void @llvm.memset") {
                let set = t.contains("memset");
                let a = t.find('(').unwrap();
                let e = t.rfind("i1 ").unwrap_or(t.len() - 1);
                let p = split(&t[a + 1..e]);
                let last = |x: &str| -> String {
                    // drop the type and the attributes
                    let mut y = x.trim();
                    if let Some(k) = y.find("getelementptr") {
                        y = &y[k..];
                    } else if let Some(k) = y.rfind(' ') {
                        y = &y[k + 1..];
                    }
                    y.to_string()
                };
                let len = p[2].trim();
                let _ = writeln!(o, "  call void @vpx_access(ptr {}, {}, i32 1)", last(p[0]), len);
                if !set {
                    let _ = writeln!(o, "  call void @vpx_access(ptr {}, {}, i32 0)", last(p[1]), len);
                }
            } else if t.starts_with("call void @llvm.assume(i1 ") && !t.contains('[') {
                let a = t.find("i1 ").unwrap() + 3;
                let a = t[a..].strip_prefix("noundef ").unwrap_or(&t[a..]);
                let e = a.find(')').unwrap();
                let _ = writeln!(o, "  call void @vpx_assume(i1 zeroext {})", &a[..e]);
            } else if t == "unreachable" || t.starts_with("unreachable,") {
                let _ = writeln!(o, "  call void @vpx_unreachable()");
            }
        }
        o.push_str(&line);
        o.push('\n');
    }
    o.push_str("declare void @vpx_event(ptr, i32, i32, i64)\ndeclare i64 @vpx_load(ptr, i32, i64)\ndeclare void @vpx_cas(ptr, i64, i64, i32, i32)\ndeclare zeroext i1 @vpx_weak(ptr, i64, i64, i32, i32)\ndeclare void @vpx_access(ptr, i64, i32)\ndeclare void @vpx_assume(i1 zeroext)\ndeclare void @vpx_unreachable()\n");
    std::fs::write(out, o).unwrap();
}
