//! Hash-consed bit-vector expressions.
use std::cell::UnsafeCell;
use std::collections::HashMap;

pub type E = u32;

/// Wide integers and aggregates are interned.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    I(u64),
    W(&'static u128),
    S(E),
    A(&'static Vec<Val>),
}
impl Val {
    pub fn w(x: u128) -> Val {
        let m = &mut arena().wide;
        if let Some(p) = m.get(&x) {
            return Val::W(p);
        }
        let p: &'static u128 = Box::leak(Box::new(x));
        m.insert(x, p);
        Val::W(p)
    }
    pub fn a(x: Vec<Val>) -> Val {
        let m = &mut arena().aggr;
        if let Some(p) = m.get(&x) {
            return Val::A(p);
        }
        let p: &'static Vec<Val> = Box::leak(Box::new(x.clone()));
        m.insert(x, p);
        Val::A(p)
    }
}

/// A hash function for tables of trusted keys.
#[derive(Default, Clone, Copy)]
pub struct Fast(u64);
impl std::hash::Hasher for Fast {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0; 8];
            w[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(w));
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        let p = ((self.0 ^ x) as u128 ^ 0x243F6A8885A308D3) * 0x9E3779B97F4A7C15F39CC0605CEDC835;
        self.0 = (p as u64) ^ ((p >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
pub type Map<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<Fast>>;

#[inline(always)]
pub fn mask(x: u64, bits: u32) -> u64 {
    if bits >= 64 {
        x
    } else {
        x & ((1u64 << bits) - 1)
    }
}
#[inline(always)]
pub fn sext(x: u64, bits: u32) -> i64 {
    if bits >= 64 {
        x as i64
    } else {
        ((x << (64 - bits)) as i64) >> (64 - bits)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Sym,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract, // k = low bit
    Concat,  // a high, b low
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u64,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub syms: Vec<u128>, // set of symbols used
    pub hash: Vec<u64>,
    map: Map<Node, E>,
    wide: Map<u128, &'static u128>,
    aggr: Map<Vec<Val>, &'static Vec<Val>>,
    pub sym_names: Vec<(u32, u32, u32)>, // (thread, sequence, width)
    sym_map: Map<(u32, u32, u32), E>,
}

struct G(UnsafeCell<Option<Arena>>);
unsafe impl Sync for G {}
static ARENA: G = G(UnsafeCell::new(None));

#[allow(static_mut_refs)]
pub fn arena() -> &'static mut Arena {
    unsafe {
        (*ARENA.0.get()).get_or_insert_with(|| Arena {
            nodes: vec![],
            syms: vec![],
            hash: vec![],
            map: Map::default(),
            wide: Map::default(),
            aggr: Map::default(),
            sym_names: vec![],
            sym_map: Map::default(),
        })
    }
}

pub fn hmix(a: u64, b: u64) -> u64 {
    let x = (a ^ b.rotate_left(29)).wrapping_mul(0x9E3779B97F4A7C15);
    let x = (x ^ (x >> 32)).wrapping_mul(0xD6E8FEB86659FD93).wrapping_add(b);
    x ^ (x >> 29)
}

fn mk(n: Node) -> E {
    let ar = arena();
    if let Some(e) = ar.map.get(&n) {
        return *e;
    }
    let e = ar.nodes.len() as E;
    let mut s = 0u128;
    let mut h = hmix(n.op as u64 + 1000 * n.w as u64, n.k);
    match n.op {
        Op::Const => {}
        Op::Sym => {
            // (beyond a hundred, some share a bit: constraints are then taken together more often)
            s = 1 << sym_bit(n.k)
        }
        Op::Ite => {
            s = ar.syms[n.a as usize] | ar.syms[n.b as usize] | ar.syms[n.c as usize];
            h = hmix(h, ar.hash[n.a as usize]);
            h = hmix(h, ar.hash[n.b as usize]);
            h = hmix(h, ar.hash[n.c as usize]);
        }
        Op::ZExt | Op::SExt | Op::Extract => {
            s = ar.syms[n.a as usize];
            h = hmix(h, ar.hash[n.a as usize]);
        }
        _ => {
            s = ar.syms[n.a as usize] | ar.syms[n.b as usize];
            h = hmix(h, ar.hash[n.a as usize]);
            h = hmix(h, ar.hash[n.b as usize]);
        }
    }
    ar.nodes.push(n);
    ar.syms.push(s);
    ar.hash.push(h);
    ar.map.insert(n, e);
    e
}

pub fn node(e: E) -> Node {
    arena().nodes[e as usize]
}
pub fn width(e: E) -> u32 {
    node(e).w
}
pub fn konst(k: u64, w: u32) -> E {
    mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: mask(k, w) })
}
pub fn as_const(e: E) -> Option<u64> {
    let n = node(e);
    (n.op == Op::Const).then_some(n.k)
}
/// The bit of a symbol in the sets of symbols.
pub fn sym_bit(k: u64) -> u64 {
    if k < 100 {
        k
    } else {
        100 + k % 28
    }
}

pub fn sym(tid: u32, seq: u32, w: u32) -> E {
    let ar = arena();
    if let Some(e) = ar.sym_map.get(&(tid, seq, w)) {
        return *e;
    }
    let k = ar.sym_names.len() as u64;
    ar.sym_names.push((tid, seq, w));
    let e = mk(Node { op: Op::Sym, w, a: 0, b: 0, c: 0, k });
    arena().sym_map.insert((tid, seq, w), e);
    e
}

/// Concrete semantics of the binary operators.
pub fn fold(op: Op, w: u32, x: u64, y: u64) -> u64 {
    let r = match op {
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => {
            if y == 0 {
                u64::MAX
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    u64::MAX
                }
            } else {
                a.wrapping_div(b) as u64
            }
        }
        Op::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u64
            }
        }
        Op::Shl => {
            if y >= w as u64 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let a = sext(x, w);
            (if y >= w as u64 { a >> 63 } else { a >> y }) as u64
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Eq => (x == y) as u64,
        Op::Ult => (x < y) as u64,
        Op::Ule => (x <= y) as u64,
        Op::Slt => (sext(x, w) < sext(y, w)) as u64,
        Op::Sle => (sext(x, w) <= sext(y, w)) as u64,
        _ => panic!(),
    };
    match op {
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => r,
        _ => mask(r, w),
    }
}

pub fn bin(op: Op, a: E, b: E) -> E {
    let (na, nb) = (node(a), node(b));
    assert_eq!(na.w, nb.w, "widths {:?} {:?} {:?}", op, na, nb);
    let w = na.w;
    let rw = match op {
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
        _ => w,
    };
    if na.op == Op::Const && nb.op == Op::Const {
        return konst(fold(op, w, na.k, nb.k), rw);
    }
    let full = mask(u64::MAX, w);
    let (mut a, mut b) = (a, b);
    let (mut na, mut nb) = (na, nb);
    if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) && na.op == Op::Const {
        std::mem::swap(&mut a, &mut b);
        std::mem::swap(&mut na, &mut nb);
    }
    if nb.op == Op::Const {
        let k = nb.k;
        match op {
            Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if k == 0 => return a,
            Op::Mul if k == 1 => return a,
            Op::Mul | Op::And if k == 0 => return konst(0, w),
            Op::And if k == full => return a,
            Op::Or if k == full => return konst(full, w),
            Op::UDiv if k == 1 => return a,
            Op::Shl | Op::LShr if k >= w as u64 => return konst(0, w),
            Op::Ult if k == 0 => return konst(0, 1),
            Op::Ule if k == full => return konst(1, 1),
            _ => {}
        }
        if op == Op::Eq && w == 1 {
            return if k == 1 { a } else { not(a) };
        }
        if op == Op::Xor && w == 1 && k == 1 {
            // canonical negation; double negation
            if na.op == Op::Xor && as_const(na.b) == Some(1) {
                return na.a;
            }
        }
        // (x + c1) + c2, (x & c1) & c2
        if let Some(c1) = as_const_opt(na.op, na.b) {
            match (op, na.op) {
                (Op::Add, Op::Add) => return bin(Op::Add, na.a, konst(c1.wrapping_add(k), w)),
                (Op::And, Op::And) => return bin(Op::And, na.a, konst(c1 & k, w)),
                (Op::Eq, Op::Add) => return bin(Op::Eq, na.a, konst(k.wrapping_sub(c1), w)),
                _ => {}
            }
        }
        // comparison of a zero-extended value
        if op == Op::Eq && na.op == Op::ZExt {
            let iw = width(na.a);
            if mask(k, iw) != k {
                return konst(0, 1);
            }
            return bin(Op::Eq, na.a, konst(k, iw));
        }
        if op == Op::And && na.op == Op::ZExt {
            let iw = width(na.a);
            return zext(bin(Op::And, na.a, konst(mask(k, iw), iw)), w);
        }
        if op == Op::Eq && na.op == Op::Ite {
            if let (Some(x), Some(y)) = (as_const(na.b), as_const(na.c)) {
                if x == k && y != k {
                    return na.a;
                }
                if x != k && y == k {
                    return not(na.a);
                }
                if x != k && y != k {
                    return konst(0, 1);
                }
            }
        }
    }
    if op == Op::Sub && nb.op == Op::Const {
        return bin(Op::Add, a, konst(nb.k.wrapping_neg(), w));
    }
    if a == b {
        match op {
            Op::Sub | Op::Xor => return konst(0, w),
            Op::And | Op::Or => return a,
            Op::Eq | Op::Ule | Op::Sle => return konst(1, 1),
            Op::Ult | Op::Slt => return konst(0, 1),
            _ => {}
        }
    }
    if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) && nb.op != Op::Const && a > b {
        std::mem::swap(&mut a, &mut b);
    }
    mk(Node { op, w: rw, a, b, c: 0, k: 0 })
}
fn as_const_opt(op: Op, e: E) -> Option<u64> {
    match op {
        Op::Add | Op::And => as_const(e),
        _ => None,
    }
}
pub fn not(a: E) -> E {
    let n = node(a);
    assert_eq!(n.w, 1);
    match n.op {
        Op::Const => konst(n.k ^ 1, 1),
        Op::Xor if as_const(n.b) == Some(1) => n.a,
        _ => mk(Node { op: Op::Xor, w: 1, a, b: konst(1, 1), c: 0, k: 0 }),
    }
}
pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(k) = as_const(c) {
        return if k == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    let w = width(a);
    assert_eq!(w, width(b));
    if w == 1 {
        if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
            return if x == 1 && y == 0 { c } else { not(c) };
        }
        if as_const(a) == Some(1) {
            return bin(Op::Or, c, b);
        }
        if as_const(a) == Some(0) {
            return bin(Op::And, not(c), b);
        }
        if as_const(b) == Some(0) {
            return bin(Op::And, c, a);
        }
        if as_const(b) == Some(1) {
            return bin(Op::Or, not(c), a);
        }
    }
    mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
}
pub fn zext(a: E, w: u32) -> E {
    let n = node(a);
    if n.w == w {
        return a;
    }
    assert!(w > n.w);
    match n.op {
        Op::Const => konst(n.k, w),
        Op::ZExt => zext(n.a, w),
        _ => mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 }),
    }
}
pub fn sextend(a: E, w: u32) -> E {
    let n = node(a);
    if n.w == w {
        return a;
    }
    match n.op {
        Op::Const => konst(sext(n.k, n.w) as u64, w),
        _ => mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 }),
    }
}
pub fn extract(a: E, lo: u32, w: u32) -> E {
    let n = node(a);
    if lo == 0 && n.w == w {
        return a;
    }
    assert!(lo + w <= n.w);
    match n.op {
        Op::Const => konst(n.k >> lo, w),
        Op::Extract => extract(n.a, lo + n.k as u32, w),
        Op::ZExt => {
            let iw = width(n.a);
            if lo >= iw {
                konst(0, w)
            } else if lo + w <= iw {
                extract(n.a, lo, w)
            } else if lo == 0 {
                zext(n.a, w)
            } else {
                zext(extract(n.a, lo, iw - lo), w)
            }
        }
        Op::Concat => {
            let bw = width(n.b);
            if lo + w <= bw {
                extract(n.b, lo, w)
            } else if lo >= bw {
                extract(n.a, lo - bw, w)
            } else {
                mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u64 })
            }
        }
        Op::And | Op::Or | Op::Xor => bin(n.op, extract(n.a, lo, w), extract(n.b, lo, w)),
        Op::Add | Op::Sub | Op::Mul if lo == 0 => bin(n.op, extract(n.a, 0, w), extract(n.b, 0, w)),
        Op::Ite => ite(n.a, extract(n.b, lo, w), extract(n.c, lo, w)),
        Op::LShr => {
            // extract of a shift by a constant
            if let Some(s) = as_const(n.b) {
                if s + lo as u64 + w as u64 <= n.w as u64 {
                    return extract(n.a, lo + s as u32, w);
                }
            }
            mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u64 })
        }
        _ => mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u64 }),
    }
}
pub fn concat(hi: E, lo: E) -> E {
    let (h, l) = (node(hi), node(lo));
    let w = h.w + l.w;
    if h.op == Op::Const && l.op == Op::Const && w <= 64 {
        return konst((h.k << l.w) | l.k, w);
    }
    if h.op == Op::Const && h.k == 0 {
        return zext(lo, w);
    }
    if h.op == Op::Extract && l.op == Op::Extract && h.a == l.a && h.k == l.k + l.w as u64 {
        return extract(h.a, l.k as u32, w);
    }
    mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
}

pub type Model = Vec<u64>;

/// Evaluates an expression under a model (missing symbols are 0).
pub fn eval(e: E, m: &Model) -> u64 {
    let mut memo = Map::default();
    eval_m(e, m, &mut memo)
}
fn eval_m(e: E, m: &Model, memo: &mut Map<E, u64>) -> u64 {
    let n = node(e);
    match n.op {
        Op::Const => return n.k,
        Op::Sym => return m.get(n.k as usize).copied().unwrap_or(0),
        _ => {}
    }
    if let Some(v) = memo.get(&e) {
        return *v;
    }
    let v = match n.op {
        Op::Ite => {
            if eval_m(n.a, m, memo) == 1 {
                eval_m(n.b, m, memo)
            } else {
                eval_m(n.c, m, memo)
            }
        }
        Op::ZExt => eval_m(n.a, m, memo),
        Op::SExt => mask(sext(eval_m(n.a, m, memo), width(n.a)) as u64, n.w),
        Op::Extract => mask(eval_m(n.a, m, memo) >> n.k, n.w),
        Op::Concat => (eval_m(n.a, m, memo) << width(n.b)) | eval_m(n.b, m, memo),
        op => {
            let w = width(n.a);
            fold(op, w, eval_m(n.a, m, memo), eval_m(n.b, m, memo))
        }
    };
    memo.insert(e, v);
    v
}
