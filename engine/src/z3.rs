//! Minimal interface to libz3.
#![allow(non_camel_case_types)]
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, complete: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("ENGINE-ERROR z3 error {}", e);
    std::process::exit(3);
}

pub struct Z3 {
    c: P,
    s: P,
    asts: Vec<P>,
    cache: Map<(u64, E), Option<Rc<Vec<(usize, u64)>>>>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub time: f64,
    pub max_time: f64,
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let c = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(c, on_error);
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 120_000);
            Z3_solver_set_params(c, s, p);
            Z3 {
                c,
                s,
                asts: vec![],
                cache: Map::default(),
                queries: 0,
                sat: 0,
                unsat: 0,
                cache_hits: 0,
                model_hits: 0,
                time: 0.0,
                max_time: 0.0,
            }
        }
    }
    fn ast(&mut self, e: E) -> P {
        // nodes are created bottom-up, so a simple recursion suffices
        if (e as usize) < self.asts.len() && !self.asts[e as usize].is_null() {
            return self.asts[e as usize];
        }
        let n = node(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => Z3_mk_unsigned_int64(c, n.k, Z3_mk_bv_sort(c, n.w)),
                Op::Sym => {
                    let nm = CString::new(format!("s{}", n.k)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bv_sort(c, n.w))
                }
                Op::Ite => {
                    let (a, b, d) = (self.cond(n.a), self.ast(n.b), self.ast(n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                Op::ZExt => {
                    let a = self.ast(n.a);
                    Z3_mk_zero_ext(c, n.w - width(n.a), a)
                }
                Op::SExt => {
                    let a = self.ast(n.a);
                    Z3_mk_sign_ext(c, n.w - width(n.a), a)
                }
                Op::Extract => {
                    let a = self.ast(n.a);
                    Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, a)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let p = self.pred(n);
                    self.from_bool(p)
                }
                op => {
                    let (a, b) = (self.ast(n.a), self.ast(n.b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        if self.asts.len() <= e as usize {
            self.asts.resize(e as usize + 1, std::ptr::null_mut());
        }
        self.asts[e as usize] = r;
        r
    }
    fn pred(&mut self, n: Node) -> P {
        let (a, b) = (self.ast(n.a), self.ast(n.b));
        let c = self.c;
        unsafe {
            match n.op {
                Op::Eq => Z3_mk_eq(c, a, b),
                Op::Ult => Z3_mk_bvult(c, a, b),
                Op::Ule => Z3_mk_bvule(c, a, b),
                Op::Slt => Z3_mk_bvslt(c, a, b),
                Op::Sle => Z3_mk_bvsle(c, a, b),
                _ => unreachable!(),
            }
        }
    }
    fn from_bool(&mut self, p: P) -> P {
        let (o, z) = (self.ast(konst(1, 1)), self.ast(konst(0, 1)));
        unsafe { Z3_mk_ite(self.c, p, o, z) }
    }
    fn cond(&mut self, e: E) -> P {
        let n = node(e);
        match n.op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => self.pred(n),
            _ => {
                let a = self.ast(e);
                let o = self.ast(konst(1, 1));
                unsafe { Z3_mk_eq(self.c, a, o) }
            }
        }
    }

    /// Is `pc && cond` satisfiable?  `model` satisfies `pc`; the returned model
    /// satisfies both.  Only the constraints connected to `cond` are sent.
    pub fn check(&mut self, pc: &[E], cond: E, model: &Model) -> Option<Model> {
        if let Some(k) = as_const(cond) {
            return (k == 1).then(|| model.clone());
        }
        if eval(cond, model) == 1 {
            self.model_hits += 1;
            return Some(model.clone());
        }
        let ar = arena();
        let mut set = ar.syms[cond as usize];
        let mut used: Vec<E> = vec![];
        let mut left: Vec<E> = pc.to_vec();
        loop {
            let before = used.len();
            left.retain(|&e| {
                if ar.syms[e as usize] & set != 0 {
                    set |= ar.syms[e as usize];
                    used.push(e);
                    false
                } else {
                    true
                }
            });
            if used.len() == before {
                break;
            }
        }
        used.sort();
        used.dedup();
        let mut h = 0u64;
        for e in &used {
            h = hmix(h, ar.hash[*e as usize]);
        }
        let r = if let Some(r) = self.cache.get(&(h, cond)) {
            self.cache_hits += 1;
            r.clone()
        } else {
            let t = Instant::now();
            let r;
            unsafe {
                Z3_solver_push(self.c, self.s);
                for e in &used {
                    let p = self.cond(*e);
                    Z3_solver_assert(self.c, self.s, p);
                }
                let p = self.cond(cond);
                Z3_solver_assert(self.c, self.s, p);
                let res = Z3_solver_check(self.c, self.s);
                self.queries += 1;
                if res == 1 {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut v = vec![];
                    for k in 0..ar.sym_names.len() {
                        if set >> sym_bit(k as u64) & 1 == 1 {
                            let (t, q, w) = ar.sym_names[k];
                            let a = self.ast(sym(t, q, w));
                            let mut out = std::ptr::null_mut();
                            Z3_model_eval(self.c, m, a, true, &mut out);
                            let mut x = 0;
                            if !Z3_get_numeral_uint64(self.c, out, &mut x) {
                                eprintln!("ENGINE-ERROR z3 model");
                                std::process::exit(3);
                            }
                            v.push((k, x));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    r = Some(Rc::new(v));
                } else if res == -1 {
                    self.unsat += 1;
                    r = None;
                } else {
                    eprintln!("ENGINE-ERROR z3 returned unknown");
                    std::process::exit(3);
                }
                Z3_solver_pop(self.c, self.s, 1);
            }
            let dt = t.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.max_time {
                self.max_time = dt;
            }
            self.cache.insert((h, cond), r.clone());
            r
        };
        r.map(|v| {
            let mut m = model.clone();
            for (k, x) in v.iter() {
                if m.len() <= *k {
                    m.resize(*k + 1, 0);
                }
                m[*k] = *x;
            }
            debug_assert!(eval(cond, &m) == 1);
            if eval(cond, &m) != 1 || used.iter().any(|e| eval(*e, &m) != 1) {
                eprintln!("ENGINE-ERROR model does not satisfy the query");
                std::process::exit(3);
            }
            m
        })
    }
}
