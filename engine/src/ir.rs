//! Parser for textual LLVM IR (as printed by LLVM 20 for rustc 1.90).
use crate::expr::Val;
use std::cell::{Cell, RefCell};
use crate::expr::Map;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(b) => (*b as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(b) => {
                if *b <= 8 {
                    1
                } else if *b <= 16 {
                    2
                } else if *b <= 32 {
                    4
                } else if *b <= 64 {
                    8
                } else {
                    ((*b as u64) + 127) / 128 * 16
                }
            }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match &**t {
                Ty::Int(1) => (*n as u64 + 7) / 8,
                t => *n as u64 * t.size(),
            },
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs.iter() {
                    if !packed {
                        o = align_up(o, f.align());
                    }
                    o += f.size();
                }
                if !packed {
                    o = align_up(o, self.align());
                }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(_) => self.size(),
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        o = align_up(o, f.align());
                    }
                    if k as u64 == i {
                        return (o, f.clone());
                    }
                    o += f.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => (i * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(b) => *b,
            Ty::Ptr => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
}

pub fn align_up(x: u64, a: u64) -> u64 {
    if a <= 1 {
        x
    } else {
        (x + a - 1) / a * a
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    ZExt,
    SExt,
    Trunc,
    PtrToInt,
    IntToPtr,
    Bitcast,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    UMax,
    UMin,
    Max,
    Min,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ord {
    pub acq: bool,
    pub rel: bool,
    pub sc: bool,
}
pub const RLX: Ord = Ord { acq: false, rel: false, sc: false };

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u64), // address of the function
    Indirect(Opd),
    Intrinsic(Rc<str>),
}

#[derive(Clone, Debug)]
pub struct Call {
    pub callee: Callee,
    pub args: Vec<Opd>,
    pub argtys: Vec<Ty>,
    pub ret: Ty,
    pub dst: Option<u32>,
    pub invoke: Option<(u32, u32)>,
}

#[derive(Clone, Debug)]
pub enum GepIdx {
    Const(i64),
    Scaled(Opd, u32, i64), // index operand, bits, scale
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(u32, Bin, Ty, Opd, Opd),
    Icmp(u32, Pred, Ty, Opd, Opd),
    Cast(u32, CastOp, Ty, Opd, Ty),
    Load(u32, Ty, Opd, Option<Ord>),
    Store(Ty, Opd, Opd, Option<Ord>),
    Gep(u32, Opd, Vec<GepIdx>),
    Select(u32, Ty, Opd, Opd, Opd),
    Phi(u32, Vec<(Opd, u32)>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u64, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Alloca(u32, u64, u64),
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(u32, Opd, Opd, Vec<u32>),
    ExtractElement(u32, Opd, Opd),
    InsertElement(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<u32>),
    AtomicRmw(u32, Rmw, Ty, Opd, Opd, Ord),
    CmpXchg(u32, bool, Ty, Opd, Opd, Opd, Ord, Ord),
    Fence(Ord),
    Call(Box<Call>),
    LandingPad(u32, bool, bool), // catch, filter
    Resume(Opd),
    Freeze(u32, Opd),
    Nop,
}

pub struct Func {
    pub name: String,
    pub module: usize,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub ret: Ty,
    pub blocks: Vec<Vec<Ins>>,
    /// Per block: registers live at each instruction (computed on demand).
    pub live: RefCell<Map<(u32, u32), Rc<Vec<u32>>>>,
    pub live_in: RefCell<Option<Vec<Vec<u64>>>>,
    pub count: Cell<u64>,
}

pub struct GlobalDef {
    pub size: u64,
    pub align: u64,
    pub constant: bool,
    pub tls: bool,
    pub external: bool,
    pub name: String,
    pub module: usize,
    pub init: RefCell<Option<(Ty, String)>>,
    pub bytes: RefCell<Option<Rc<Vec<u8>>>>,
}

pub const GLOBAL_ID0: u64 = 16;
pub const FN_BASE: u64 = 1 << 32;

pub struct Module {
    pub text: &'static [String],
    pub types: HashMap<String, Ty>,
    /// Symbols local to this module.
    pub locals: HashMap<String, u64>,
}

pub struct FnDef {
    pub name: String,
    pub body: Option<(usize, usize, usize)>, // module, first line, last line
    pub parsed: Cell<Option<&'static Func>>,
    pub stub: Cell<u32>,
}

pub struct Program {
    pub modules: Vec<Module>,
    pub globals: Vec<GlobalDef>,
    pub symbols: HashMap<String, u64>,
    pub fns: Vec<FnDef>,
}

fn strip_quotes(s: &str) -> String {
    let s = s.trim();
    if s.starts_with('"') && s.ends_with('"') && s.len() >= 2 {
        s[1..s.len() - 1].to_string()
    } else {
        s.to_string()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(String),
    Global(String),
    Id(String),
    Num(String),
    Str(String),
    P(char),
    Meta,
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = Vec::new();
    let ident = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = s[st..j].to_string();
                    i = j + 1;
                } else {
                    let st = i;
                    while i < b.len() && ident(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                v.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'!' => {
                i += 1;
                while i < b.len() && (ident(b[i]) || b[i] == b'!') {
                    i += 1;
                }
                v.push(Tok::Meta);
            }
            b'#' => {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                v.push(Tok::Str(s[st..j].to_string()));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                v.push(Tok::Id("c".into()));
                v.push(Tok::Str(s[st..j].to_string()));
                i = j + 1;
            }
            b'0'..=b'9' => {
                let st = i;
                while i < b.len() && ident(b[i]) {
                    i += 1;
                }
                v.push(Tok::Num(s[st..i].to_string()));
            }
            b'-' if i + 1 < b.len() && b[i + 1].is_ascii_digit() => {
                let st = i;
                i += 1;
                while i < b.len() && ident(b[i]) {
                    i += 1;
                }
                v.push(Tok::Num(s[st..i].to_string()));
            }
            _ if ident(c) => {
                let st = i;
                while i < b.len() && ident(b[i]) {
                    i += 1;
                }
                v.push(Tok::Id(s[st..i].to_string()));
            }
            _ => {
                v.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    v
}

pub struct P<'a> {
    pub t: Vec<Tok>,
    pub i: usize,
    pub prog: &'a Program,
    pub module: usize,
    pub regs: Option<&'a mut HashMap<String, u32>>,
    pub blocks: Option<&'a HashMap<String, u32>>,
    pub src: &'a str,
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok {
        let t = self.t.get(self.i).cloned().unwrap_or_else(|| panic!("eol in {}", self.src));
        self.i += 1;
        t
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected {} at {:?} in {}", c, self.peek(), self.src)
        }
    }
    fn id(&mut self) -> String {
        match self.next() {
            Tok::Id(s) => s,
            t => panic!("expected id, got {:?} in {}", t, self.src),
        }
    }
    fn num(&mut self) -> u64 {
        match self.next() {
            Tok::Num(s) => s.parse::<i128>().unwrap_or_else(|_| panic!("num {} in {}", s, self.src)) as u64,
            t => panic!("expected num, got {:?} in {}", t, self.src),
        }
    }
    pub fn try_ty(&mut self) -> Option<Ty> {
        let save = self.i;
        let t = match self.peek()?.clone() {
            Tok::Id(s) => {
                let t = match s.as_str() {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "metadata" | "label" | "token" => Ty::Other,
                    "float" | "double" | "half" => Ty::Other,
                    _ if s.starts_with('i') && s[1..].chars().all(|c| c.is_ascii_digit()) && s.len() > 1 => {
                        Ty::Int(s[1..].parse().unwrap())
                    }
                    _ => return None,
                };
                self.i += 1;
                t
            }
            Tok::P('[') => {
                self.i += 1;
                let Some(Tok::Num(_)) = self.peek() else {
                    self.i = save;
                    return None;
                };
                let n = self.num();
                if !self.eat_id("x") {
                    self.i = save;
                    return None;
                }
                let t = self.ty();
                self.expect(']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('<') => {
                self.i += 1;
                if self.is('{') {
                    self.expect('{');
                    let fs = self.ty_list('}');
                    self.expect('>');
                    Ty::Struct(Rc::new(fs), true)
                } else {
                    let n = self.num();
                    if !self.eat_id("x") {
                        self.i = save;
                        return None;
                    }
                    let t = self.ty();
                    self.expect('>');
                    Ty::Vec(n as u32, Rc::new(t))
                }
            }
            Tok::P('{') => {
                self.i += 1;
                let fs = self.ty_list('}');
                Ty::Struct(Rc::new(fs), false)
            }
            Tok::Local(n) => {
                if let Some(t) = self.prog.modules[self.module].types.get(&n) {
                    self.i += 1;
                    t.clone()
                } else {
                    return None;
                }
            }
            _ => return None,
        };
        Some(t)
    }
    fn ty_list(&mut self, end: char) -> Vec<Ty> {
        let mut v = Vec::new();
        while !self.eat(end) {
            v.push(self.ty());
            self.eat(',');
        }
        v
    }
    pub fn ty(&mut self) -> Ty {
        self.try_ty().unwrap_or_else(|| panic!("type at {:?} in {}", self.peek(), self.src))
    }
    fn reg(&mut self, n: &str) -> u32 {
        let m = self.regs.as_mut().expect("no regs");
        let k = m.len() as u32;
        *m.entry(n.to_string()).or_insert(k)
    }
    fn global_addr(&self, n: &str) -> u64 {
        if let Some(a) = self.prog.modules[self.module].locals.get(n) {
            return *a;
        }
        *self.prog.symbols.get(n).unwrap_or_else(|| panic!("unknown symbol @{}", n))
    }
    /// Parses a value of the given type.
    pub fn val(&mut self, ty: &Ty) -> Opd {
        match self.next() {
            Tok::Local(n) => Opd::R(self.reg(&n)),
            Tok::Global(n) => Opd::C(Val::I(self.global_addr(&n))),
            Tok::Num(s) => {
                let x = s.parse::<i128>().unwrap_or_else(|_| panic!("bad number {} in {}", s, self.src));
                match ty {
                    Ty::Int(b) if *b <= 64 => Opd::C(Val::I(crate::expr::mask(x as u64, *b))),
                    Ty::Int(_) => Opd::C(Val::w(x as u128)),
                    _ => panic!("number of type {:?} in {}", ty, self.src),
                }
            }
            Tok::Id(s) => match s.as_str() {
                "true" => Opd::C(Val::I(1)),
                "false" => Opd::C(Val::I(0)),
                "null" => Opd::C(Val::I(0)),
                "undef" | "poison" | "zeroinitializer" | "none" => Opd::C(zero(ty)),
                "splat" => {
                    self.expect('(');
                    let t = self.ty();
                    let v = self.val(&t);
                    self.expect(')');
                    let Opd::C(v) = v else { panic!() };
                    let Ty::Vec(n, _) = ty else { panic!() };
                    Opd::C(Val::a(vec![v; *n as usize]))
                }
                "getelementptr" => {
                    while matches!(self.peek(), Some(Tok::Id(x)) if x != "i8" && x != "ptr" && self.prog_ty_id(x).is_none()) {
                        self.i += 1;
                        if self.is('(') && matches!(&self.t[self.i - 1], Tok::Id(x) if x == "inrange") {
                            while !self.eat(')') {
                                self.i += 1;
                            }
                        }
                    }
                    self.expect('(');
                    let bt = self.ty();
                    self.expect(',');
                    let pt = self.ty();
                    let base = self.val(&pt);
                    let mut idx = Vec::new();
                    while self.eat(',') {
                        let it = self.ty();
                        let v = self.val(&it);
                        idx.push((it, v));
                    }
                    self.expect(')');
                    let Opd::C(Val::I(mut a)) = base else { panic!("gep const base") };
                    for g in gep_idx(&bt, idx) {
                        match g {
                            GepIdx::Const(o) => a = a.wrapping_add(o as u64),
                            _ => panic!("gep const"),
                        }
                    }
                    Opd::C(Val::I(a))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" => {
                    self.expect('(');
                    let t = self.ty();
                    let v = self.val(&t);
                    let to = self.id();
                    assert_eq!(to, "to");
                    let t2 = self.ty();
                    self.expect(')');
                    match (v, &t2) {
                        (Opd::C(Val::I(x)), Ty::Int(b)) => Opd::C(Val::I(crate::expr::mask(x, *b))),
                        (v, _) => v,
                    }
                }
                "sub" | "add" | "xor" => {
                    while matches!(self.peek(), Some(Tok::Id(_))) {
                        self.i += 1;
                    }
                    self.expect('(');
                    let t = self.ty();
                    let a = self.val(&t);
                    self.expect(',');
                    let t = self.ty();
                    let b = self.val(&t);
                    self.expect(')');
                    let (Opd::C(Val::I(a)), Opd::C(Val::I(b))) = (a, b) else { panic!() };
                    let r = match s.as_str() {
                        "sub" => a.wrapping_sub(b),
                        "add" => a.wrapping_add(b),
                        _ => a ^ b,
                    };
                    Opd::C(Val::I(crate::expr::mask(r, t.bits())))
                }
                "c" => {
                    let Tok::Str(s) = self.next() else { panic!() };
                    let v = unescape(&s).into_iter().map(|b| Val::I(b as u64)).collect::<Vec<_>>();
                    Opd::C(Val::a(v))
                }
                _ => panic!("value {} in {}", s, self.src),
            },
            Tok::P('{') => self.agg('}'),
            Tok::P('[') => self.agg(']'),
            Tok::P('<') => {
                if self.eat('{') {
                    let v = self.agg('}');
                    self.expect('>');
                    v
                } else {
                    self.agg('>')
                }
            }
            t => panic!("value {:?} in {}", t, self.src),
        }
    }
    fn prog_ty_id(&self, x: &str) -> Option<()> {
        (x.starts_with('i') && x.len() > 1 && x[1..].chars().all(|c| c.is_ascii_digit())).then_some(())
    }
    fn agg(&mut self, end: char) -> Opd {
        let mut v = Vec::new();
        while !self.eat(end) {
            let t = self.ty();
            let Opd::C(x) = self.val(&t) else { panic!("non-constant aggregate in {}", self.src) };
            v.push(x);
            self.eat(',');
        }
        Opd::C(Val::a(v))
    }
    fn block(&mut self) -> u32 {
        // "label %x" or "%x"
        self.eat_id("label");
        let Tok::Local(n) = self.next() else { panic!("label in {}", self.src) };
        *self.blocks.unwrap().get(&n).unwrap_or_else(|| panic!("block {} in {}", n, self.src))
    }
    fn skip_parens(&mut self) {
        if self.eat('(') {
            let mut d = 1;
            while d > 0 {
                match self.next() {
                    Tok::P('(') => d += 1,
                    Tok::P(')') => d -= 1,
                    _ => {}
                }
            }
        }
    }
    /// Skips parameter/return attributes.
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    let s = s.clone();
                    if self.prog_ty_id(&s).is_some() || matches!(s.as_str(), "ptr" | "void" | "metadata" | "float" | "double") {
                        return;
                    }
                    if matches!(
                        s.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "splat" | "c" | "ptrtoint" | "none" | "xor" | "sub"
                    ) {
                        return;
                    }
                    self.i += 1;
                    if s == "align" && matches!(self.peek(), Some(Tok::Num(_))) {
                        self.i += 1;
                    }
                    if self.is('(') {
                        self.skip_parens();
                    }
                }
                _ => return,
            }
        }
    }
    fn ord(&mut self) -> Ord {
        if self.eat_id("syncscope") {
            self.skip_parens();
        }
        match self.id().as_str() {
            "unordered" | "monotonic" => RLX,
            "acquire" => Ord { acq: true, rel: false, sc: false },
            "release" => Ord { acq: false, rel: true, sc: false },
            "acq_rel" => Ord { acq: true, rel: true, sc: false },
            "seq_cst" => Ord { acq: true, rel: true, sc: true },
            s => panic!("ordering {}", s),
        }
    }
    fn call(&mut self, dst: Option<u32>, invoke: bool) -> Ins {
        // cc, return attributes
        self.attrs();
        let ret = self.ty();
        if self.is('(') {
            // function type of a variadic call: skip
            self.skip_parens();
        }
        let callee = match self.next() {
            Tok::Global(n) => {
                if n.starts_with("llvm.") {
                    Callee::Intrinsic(n.into())
                } else {
                    Callee::Direct(self.global_addr(&n))
                }
            }
            Tok::Local(n) => Callee::Indirect(Opd::R(self.reg(&n))),
            Tok::Id(s) if s == "asm" => {
                while !self.is('(') {
                    self.i += 1;
                }
                Callee::Intrinsic("asm".into())
            }
            t => panic!("callee {:?} in {}", t, self.src),
        };
        self.expect('(');
        let mut args = Vec::new();
        let mut argtys = Vec::new();
        while !self.eat(')') {
            let t = self.ty();
            self.attrs();
            if t == Ty::Other {
                // metadata argument
                while !self.is(',') && !self.is(')') {
                    if self.is('{') || self.is('(') {
                        // !{...}
                        let open = if self.is('{') { ('{', '}') } else { ('(', ')') };
                        let mut d = 0;
                        loop {
                            match self.next() {
                                Tok::P(c) if c == open.0 => d += 1,
                                Tok::P(c) if c == open.1 => {
                                    d -= 1;
                                    if d == 0 {
                                        break;
                                    }
                                }
                                _ => {}
                            }
                        }
                    } else {
                        self.i += 1;
                    }
                }
                args.push(Opd::C(Val::I(0)));
            } else {
                let v = self.val(&t);
                args.push(v);
            }
            argtys.push(t);
            self.eat(',');
        }
        let mut inv = None;
        if invoke {
            while !self.is_id("to") {
                self.i += 1;
            }
            self.i += 1;
            let a = self.block();
            while !self.is_id("unwind") {
                self.i += 1;
            }
            self.i += 1;
            let b = self.block();
            inv = Some((a, b));
        }
        Ins::Call(Box::new(Call { callee, args, argtys, ret, dst, invoke: inv }))
    }

    fn instr(&mut self) -> Ins {
        let mut dst = None;
        if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (self.t.get(self.i), self.t.get(self.i + 1)) {
            let n = n.clone();
            self.i += 2;
            dst = Some(self.reg(&n));
        }
        let d = dst.unwrap_or(u32::MAX);
        let op = self.id();
        let bin = |s: &str| {
            Some(match s {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                _ => return None,
            })
        };
        if let Some(b) = bin(&op) {
            while ["nuw", "nsw", "exact", "disjoint"].iter().any(|s| self.is_id(s)) {
                self.i += 1;
            }
            let t = self.ty();
            let x = self.val(&t);
            self.expect(',');
            let y = self.val(&t);
            return Ins::Bin(d, b, t, x, y);
        }
        match op.as_str() {
            "icmp" => {
                self.eat_id("samesign");
                let p = match self.id().as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    s => panic!("pred {}", s),
                };
                let t = self.ty();
                let x = self.val(&t);
                self.expect(',');
                let y = self.val(&t);
                Ins::Icmp(d, p, t, x, y)
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" => {
                let c = match op.as_str() {
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "trunc" => CastOp::Trunc,
                    "ptrtoint" => CastOp::PtrToInt,
                    "inttoptr" => CastOp::IntToPtr,
                    _ => CastOp::Bitcast,
                };
                while ["nneg", "nuw", "nsw"].iter().any(|s| self.is_id(s)) {
                    self.i += 1;
                }
                let t = self.ty();
                let x = self.val(&t);
                assert_eq!(self.id(), "to");
                let t2 = self.ty();
                Ins::Cast(d, c, t, x, t2)
            }
            "load" => {
                let atomic = self.eat_id("atomic");
                self.eat_id("volatile");
                let t = self.ty();
                self.expect(',');
                let pt = self.ty();
                let p = self.val(&pt);
                let o = if atomic { Some(self.ord()) } else { None };
                Ins::Load(d, t, p, o)
            }
            "store" => {
                let atomic = self.eat_id("atomic");
                self.eat_id("volatile");
                let t = self.ty();
                let v = self.val(&t);
                self.expect(',');
                let pt = self.ty();
                let p = self.val(&pt);
                let o = if atomic { Some(self.ord()) } else { None };
                Ins::Store(t, v, p, o)
            }
            "getelementptr" => {
                while ["inbounds", "nuw", "nusw"].iter().any(|s| self.is_id(s)) {
                    self.i += 1;
                }
                let bt = self.ty();
                self.expect(',');
                let pt = self.ty();
                let base = self.val(&pt);
                let mut idx = Vec::new();
                while self.is(',') {
                    if matches!(self.t.get(self.i + 1), Some(Tok::Meta)) {
                        break;
                    }
                    self.i += 1;
                    let it = self.ty();
                    let v = self.val(&it);
                    idx.push((it, v));
                }
                Ins::Gep(d, base, gep_idx(&bt, idx))
            }
            "select" => {
                let ct = self.ty();
                let c = self.val(&ct);
                self.expect(',');
                let t = self.ty();
                let x = self.val(&t);
                self.expect(',');
                let t = self.ty();
                let y = self.val(&t);
                if ct != Ty::Int(1) {
                    panic!("vector select in {}", self.src)
                }
                Ins::Select(d, t, c, x, y)
            }
            "phi" => {
                let t = self.ty();
                let mut v = Vec::new();
                loop {
                    self.expect('[');
                    let x = self.val(&t);
                    self.expect(',');
                    let b = self.block();
                    self.expect(']');
                    v.push((x, b));
                    if self.is(',') && matches!(self.t.get(self.i + 1), Some(Tok::P('['))) {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                Ins::Phi(d, v)
            }
            "br" => {
                if self.is_id("label") {
                    Ins::Br(self.block())
                } else {
                    let t = self.ty();
                    let c = self.val(&t);
                    self.expect(',');
                    let a = self.block();
                    self.expect(',');
                    let b = self.block();
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = self.ty();
                let v = self.val(&t);
                self.expect(',');
                let def = self.block();
                self.expect('[');
                let mut cases = Vec::new();
                while !self.eat(']') {
                    let ct = self.ty();
                    let Opd::C(Val::I(c)) = self.val(&ct) else { panic!() };
                    self.expect(',');
                    let b = self.block();
                    cases.push((c, b));
                }
                Ins::Switch(t.bits(), v, def, cases)
            }
            "ret" => {
                let t = self.ty();
                if t == Ty::Void {
                    Ins::Ret(None)
                } else {
                    Ins::Ret(Some(self.val(&t)))
                }
            }
            "unreachable" => Ins::Unreachable,
            "alloca" => {
                let t = self.ty();
                let mut n = 1;
                let mut align = t.align();
                while self.eat(',') {
                    if self.eat_id("align") {
                        align = self.num();
                    } else if let Some(t) = self.try_ty() {
                        let Opd::C(Val::I(k)) = self.val(&t) else { panic!("dynamic alloca") };
                        n = k;
                    } else {
                        break;
                    }
                }
                Ins::Alloca(d, t.size() * n, align)
            }
            "extractvalue" => {
                let t = self.ty();
                let v = self.val(&t);
                let mut ix = Vec::new();
                while self.eat(',') {
                    if matches!(self.peek(), Some(Tok::Meta)) {
                        break;
                    }
                    ix.push(self.num() as u32);
                }
                Ins::ExtractValue(d, v, ix)
            }
            "insertvalue" => {
                let t = self.ty();
                let v = self.val(&t);
                self.expect(',');
                let t = self.ty();
                let x = self.val(&t);
                let mut ix = Vec::new();
                while self.eat(',') {
                    if matches!(self.peek(), Some(Tok::Meta)) {
                        break;
                    }
                    ix.push(self.num() as u32);
                }
                Ins::InsertValue(d, v, x, ix)
            }
            "extractelement" => {
                let t = self.ty();
                let v = self.val(&t);
                self.expect(',');
                let t = self.ty();
                let i = self.val(&t);
                Ins::ExtractElement(d, v, i)
            }
            "insertelement" => {
                let t = self.ty();
                let v = self.val(&t);
                self.expect(',');
                let t = self.ty();
                let x = self.val(&t);
                self.expect(',');
                let t = self.ty();
                let i = self.val(&t);
                Ins::InsertElement(d, v, x, i)
            }
            "shufflevector" => {
                let t = self.ty();
                let a = self.val(&t);
                self.expect(',');
                let t = self.ty();
                let b = self.val(&t);
                self.expect(',');
                let mt = self.ty();
                let Opd::C(Val::A(m)) = self.val(&mt) else { panic!() };
                let m = m.iter().map(|x| if let Val::I(k) = x { *k as u32 } else { 0 }).collect();
                Ins::Shuffle(d, a, b, m)
            }
            "atomicrmw" => {
                self.eat_id("volatile");
                let o = match self.id().as_str() {
                    "xchg" => Rmw::Xchg,
                    "add" => Rmw::Add,
                    "sub" => Rmw::Sub,
                    "and" => Rmw::And,
                    "or" => Rmw::Or,
                    "xor" => Rmw::Xor,
                    "nand" => Rmw::Nand,
                    "umax" => Rmw::UMax,
                    "umin" => Rmw::UMin,
                    "max" => Rmw::Max,
                    "min" => Rmw::Min,
                    s => panic!("rmw {}", s),
                };
                let pt = self.ty();
                let p = self.val(&pt);
                self.expect(',');
                let t = self.ty();
                let v = self.val(&t);
                let or = self.ord();
                Ins::AtomicRmw(d, o, t, p, v, or)
            }
            "cmpxchg" => {
                let weak = self.eat_id("weak");
                self.eat_id("volatile");
                let pt = self.ty();
                let p = self.val(&pt);
                self.expect(',');
                let t = self.ty();
                let e = self.val(&t);
                self.expect(',');
                let t = self.ty();
                let n = self.val(&t);
                let o1 = self.ord();
                let o2 = self.ord();
                Ins::CmpXchg(d, weak, t, p, e, n, o1, o2)
            }
            "fence" => Ins::Fence(self.ord()),
            "tail" | "musttail" | "notail" => {
                assert_eq!(self.id(), "call");
                self.call(dst, false)
            }
            "call" => self.call(dst, false),
            "invoke" => self.call(dst, true),
            "landingpad" => {
                let _ = self.ty();
                let mut catch = false;
                let mut filter = false;
                while self.i < self.t.len() {
                    if self.is_id("catch") {
                        catch = true;
                    }
                    if self.is_id("filter") {
                        filter = true;
                    }
                    self.i += 1;
                }
                Ins::LandingPad(d, catch, filter)
            }
            "resume" => {
                let t = self.ty();
                Ins::Resume(self.val(&t))
            }
            "freeze" => {
                let t = self.ty();
                Ins::Freeze(d, self.val(&t))
            }
            s => panic!("unknown instruction {} in {}", s, self.src),
        }
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
            v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

pub fn zero(t: &Ty) -> Val {
    match t {
        Ty::Int(b) if *b > 64 => Val::w(0),
        Ty::Arr(n, t) => Val::a(vec![zero(t); *n as usize]),
        Ty::Vec(n, t) => Val::a(vec![zero(t); *n as usize]),
        Ty::Struct(fs, _) => Val::a(fs.iter().map(zero).collect()),
        _ => Val::I(0),
    }
}

fn sx(v: u64, bits: u32) -> i64 {
    crate::expr::sext(v, bits)
}

fn gep_idx(bt: &Ty, idx: Vec<(Ty, Opd)>) -> Vec<GepIdx> {
    let mut out: Vec<GepIdx> = Vec::new();
    let mut t = bt.clone();
    let mut c = 0i64;
    for (k, (it, v)) in idx.into_iter().enumerate() {
        if k == 0 {
            let sc = t.size() as i64;
            match v {
                Opd::C(Val::I(x)) => c += sx(x, it.bits()) * sc,
                v => out.push(GepIdx::Scaled(v, it.bits(), sc)),
            }
        } else {
            match &t.clone() {
                Ty::Struct(..) => {
                    let Opd::C(Val::I(x)) = v else { panic!() };
                    let (o, ft) = t.field(x);
                    c += o as i64;
                    t = ft;
                }
                Ty::Arr(_, et) | Ty::Vec(_, et) => {
                    let sc = et.size() as i64;
                    match v {
                        Opd::C(Val::I(x)) => c += sx(x, it.bits()) * sc,
                        v => out.push(GepIdx::Scaled(v, it.bits(), sc)),
                    }
                    t = (**et).clone();
                }
                _ => panic!("gep"),
            }
        }
    }
    if c != 0 {
        out.push(GepIdx::Const(c));
    }
    out
}

impl Program {
    pub fn load(files: &[String]) -> Program {
        let mut prog = Program { modules: vec![], globals: vec![], symbols: HashMap::new(), fns: vec![] };
        // Pass 1: lines, types, symbols.
        for f in files {
            let text = std::fs::read_to_string(f).unwrap_or_else(|e| panic!("{}: {}", f, e));
            let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
            let lines: &'static [String] = Box::leak(lines.into_boxed_slice());
            prog.modules.push(Module { text: lines, types: HashMap::new(), locals: HashMap::new() });
        }
        let mut aliases: Vec<(usize, String, String, bool)> = vec![];
        let mut decl_fns: Vec<String> = vec![];
        let mut ext_globals: Vec<(String, usize, usize, bool)> = vec![];
        for m in 0..prog.modules.len() {
            let lines = prog.modules[m].text;
            // types (may reference later ones: iterate)
            let tl: Vec<&String> = lines.iter().filter(|l| l.starts_with('%') && l.contains(" = type ")).collect();
            let mut todo = tl;
            while !todo.is_empty() {
                let mut rest = vec![];
                let n = todo.len();
                for l in todo {
                    let (name, body) = l.split_once(" = type ").unwrap();
                    let name = strip_quotes(&name[1..]);
                    // check that the used types are known
                    let toks = lex(body);
                    let ok = toks.iter().all(|t| match t {
                        Tok::Local(x) => prog.modules[m].types.contains_key(x),
                        _ => true,
                    });
                    if !ok {
                        rest.push(l);
                        continue;
                    }
                    let t = if body.trim() == "opaque" {
                        Ty::Other
                    } else {
                        let mut p = P { t: toks, i: 0, prog: &prog, module: m, regs: None, blocks: None, src: l };
                        p.ty()
                    };
                    prog.modules[m].types.insert(name, t);
                }
                assert!(rest.len() < n, "recursive types {:?}", rest);
                todo = rest;
            }
            let mut i = 0;
            while i < lines.len() {
                let l = &lines[i];
                if l.starts_with('@') {
                    let toks = lex(l);
                    let Tok::Global(name) = toks[0].clone() else { panic!() };
                    let mut k = 2;
                    let mut local = false;
                    let mut external = false;
                    let mut tls = false;
                    let mut constant = false;
                    let mut alias = false;
                    loop {
                        match &toks[k] {
                            Tok::Id(s) => match s.as_str() {
                                "private" | "internal" => local = true,
                                "external" => external = true,
                                "thread_local" => tls = true,
                                "global" => {
                                    k += 1;
                                    break;
                                }
                                "constant" => {
                                    constant = true;
                                    k += 1;
                                    break;
                                }
                                "alias" => {
                                    // the last global named is the target
                                    let Some(Tok::Global(target)) = toks.iter().rev().find(|t| matches!(t, Tok::Global(_))) else { panic!() };
                                    aliases.push((m, name.clone(), target.clone(), local));
                                    alias = true;
                                    break;
                                }
                                _ => {}
                            },
                            Tok::P('(') => {
                                while toks[k] != Tok::P(')') {
                                    k += 1;
                                }
                            }
                            _ => {}
                        }
                        k += 1;
                    }
                    if alias {
                    } else if external {
                        ext_globals.push((name, m, i, tls));
                    } else {
                        let mut p = P { t: toks, i: k, prog: &prog, module: m, regs: None, blocks: None, src: l };
                        let t = p.ty();
                        let size = t.size();
                        let g = prog.globals.len() as u64;
                        let addr = (GLOBAL_ID0 + g) << 32;
                        prog.globals.push(GlobalDef {
                            size,
                            align: t.align(),
                            constant,
                            tls,
                            external: false,
                            name: name.clone(),
                            module: m,
                            init: RefCell::new(Some((t, l.clone()))),
                            bytes: RefCell::new(None),
                        });
                        if local {
                            prog.modules[m].locals.insert(name, addr);
                        } else {
                            prog.symbols.insert(name, addr);
                        }
                    }
                } else if l.starts_with("define ") {
                    let local = l.starts_with("define internal") || l.starts_with("define private");
                    let at = find_fn_name(l);
                    let st = i;
                    while lines[i] != "}" {
                        i += 1;
                    }
                    let a = FN_BASE + 16 * prog.fns.len() as u64;
                    prog.fns.push(FnDef { name: at.clone(), body: Some((m, st, i)), parsed: Cell::new(None), stub: Cell::new(0) });
                    if local {
                        prog.modules[m].locals.insert(at, a);
                    } else {
                        prog.symbols.insert(at, a);
                    }
                } else if l.starts_with("declare ") {
                    decl_fns.push(find_fn_name(l));
                }
                i += 1;
            }
        }
        for (m, name, target, local) in aliases {
            let Some(a) = prog.modules[m].locals.get(&target).or(prog.symbols.get(&target)).copied() else { continue };
            if local {
                prog.modules[m].locals.insert(name, a);
            } else {
                prog.symbols.insert(name, a);
            }
        }
        for d in decl_fns {
            if d.starts_with("llvm.") || prog.symbols.contains_key(&d) {
                continue;
            }
            let a = FN_BASE + 16 * prog.fns.len() as u64;
            prog.fns.push(FnDef { name: d.clone(), body: None, parsed: Cell::new(None), stub: Cell::new(0) });
            prog.symbols.insert(d, a);
        }
        for (name, m, _line, tls) in ext_globals {
            if prog.symbols.contains_key(&name) {
                continue;
            }
            let g = prog.globals.len() as u64;
            prog.globals.push(GlobalDef {
                size: 256,
                align: 16,
                constant: false,
                tls,
                external: true,
                name: name.clone(),
                module: m,
                init: RefCell::new(None),
                bytes: RefCell::new(Some(Rc::new(vec![0; 256]))),
            });
            prog.symbols.insert(name, (GLOBAL_ID0 + g) << 32);
        }
        prog
    }

    pub fn global_bytes(&self, g: usize) -> Rc<Vec<u8>> {
        let gd = &self.globals[g];
        if let Some(b) = &*gd.bytes.borrow() {
            return b.clone();
        }
        let (ty, line) = gd.init.borrow_mut().take().unwrap();
        let toks = lex(&line);
        // find "global"/"constant" keyword
        let mut k = 2;
        while !matches!(&toks[k], Tok::Id(s) if s == "global" || s == "constant") {
            k += 1;
        }
        let mut p = P { t: toks, i: k + 1, prog: self, module: gd.module, regs: None, blocks: None, src: &line };
        let t2 = p.ty();
        let v = p.val(&t2);
        let Opd::C(v) = v else { panic!() };
        let mut out = vec![0u8; ty.size() as usize];
        write_const(&ty, &v, &mut out);
        let r = Rc::new(out);
        *gd.bytes.borrow_mut() = Some(r.clone());
        r
    }

    pub fn func(&self, idx: usize) -> Option<&'static Func> {
        let fd = &self.fns[idx];
        if let Some(f) = fd.parsed.get() {
            return Some(f);
        }
        let (m, st, en) = fd.body?;
        let lines = &self.modules[m].text[st..=en];
        let mut regs: HashMap<String, u32> = HashMap::new();
        // parameters
        let head = &lines[0];
        let toks = lex(head);
        let empty = HashMap::new();
        let mut params = Vec::new();
        let ret;
        {
            let mut p = P { t: toks, i: 1, prog: self, module: m, regs: Some(&mut regs), blocks: Some(&empty), src: head };
            p.attrs();
            ret = p.ty();
            while !matches!(p.peek(), Some(Tok::Global(_))) {
                p.i += 1;
            }
            p.i += 1;
            p.expect('(');
            while !p.eat(')') {
                let _t = p.ty();
                p.attrs();
                match p.next() {
                    Tok::Local(n) => {
                        let r = p.reg(&n);
                        params.push(r)
                    }
                    t => panic!("param {:?} in {}", t, head),
                }
                p.eat(',');
            }
        }
        // blocks
        let mut blocks: HashMap<String, u32> = HashMap::new();
        let mut starts: Vec<(u32, usize)> = vec![];
        for (i, l) in lines.iter().enumerate().skip(1) {
            if l.is_empty() || l.starts_with(' ') || l.starts_with('}') || l.starts_with(';') || l.starts_with('\t') {
                continue;
            }
            let name = if l.starts_with('"') {
                let e = l[1..].find('"').unwrap();
                l[1..1 + e].to_string()
            } else {
                l[..l.find(':').unwrap_or_else(|| panic!("label line {}", l))].to_string()
            };
            let k = blocks.len() as u32;
            blocks.insert(name, k);
            starts.push((k, i));
        }
        let mut out = Vec::new();
        for (bi, (_, s)) in starts.iter().enumerate() {
            let e = if bi + 1 < starts.len() { starts[bi + 1].1 } else { lines.len() - 1 };
            let mut v = Vec::new();
            let mut i = s + 1;
            while i < e {
                let l = lines[i].trim();
                if l.is_empty() || l.starts_with(';') {
                    i += 1;
                    continue;
                }
                let mut full = l.to_string();
                let body = match l.find(" = ") {
                    Some(k) if l.starts_with('%') => &l[k + 3..],
                    _ => l,
                };
                if body.starts_with("invoke ") || body.starts_with("landingpad ") {
                    while i + 1 < e && lines[i + 1].starts_with("          ") {
                        i += 1;
                        full.push(' ');
                        full.push_str(lines[i].trim());
                    }
                } else if body.starts_with("switch ") {
                    while !lines[i].trim().starts_with(']') && !full.trim_end().ends_with(']') && !full.contains(" ],") && !full.contains(" ], !") {
                        i += 1;
                        full.push(' ');
                        full.push_str(lines[i].trim());
                    }
                }
                i += 1;
                if full.starts_with("#dbg_") {
                    continue;
                }
                let toks = lex(&full);
                let mut p = P { t: toks, i: 0, prog: self, module: m, regs: Some(&mut regs), blocks: Some(&blocks), src: &full };
                let ins = p.instr();
                let skip = match &ins {
                    Ins::Call(c) => matches!(&c.callee, Callee::Intrinsic(n) if n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.donothing") || n.starts_with("llvm.lifetime.start")),
                    _ => false,
                };
                if !skip {
                    v.push(ins);
                }
            }
            out.push(v);
        }
        let f = Func {
            name: fd.name.clone(),
            module: m,
            nregs: regs.len() as u32,
            params,
            ret,
            blocks: out,
            live: RefCell::new(Map::default()),
            live_in: RefCell::new(None),
            count: Cell::new(0),
        };
        let f: &'static Func = Box::leak(Box::new(f));
        fd.parsed.set(Some(f));
        Some(f)
    }
}

fn find_fn_name(l: &str) -> String {
    // The function name is the first @name followed by '('.
    for t in lex(l) {
        if let Tok::Global(n) = t {
            return n;
        }
    }
    panic!("no name in {}", l)
}

pub fn write_const(t: &Ty, v: &Val, out: &mut [u8]) {
    match (t, v) {
        (Ty::Struct(fs, _), Val::A(vs)) => {
            for i in 0..fs.len() {
                let (o, ft) = t.field(i as u64);
                let sz = ft.size() as usize;
                write_const(&ft, &vs[i], &mut out[o as usize..o as usize + sz]);
            }
        }
        (Ty::Arr(n, et), Val::A(vs)) => {
            let sz = et.size() as usize;
            for i in 0..*n as usize {
                write_const(et, &vs[i], &mut out[i * sz..(i + 1) * sz]);
            }
        }
        (Ty::Vec(n, et), Val::A(vs)) => {
            let sz = et.size() as usize;
            for i in 0..*n as usize {
                write_const(et, &vs[i], &mut out[i * sz..(i + 1) * sz]);
            }
        }
        (_, Val::I(x)) => {
            let n = t.size() as usize;
            let b = x.to_le_bytes();
            let k = n.min(8);
            out[..k].copy_from_slice(&b[..k]);
        }
        (_, Val::W(x)) => {
            let n = t.size() as usize;
            out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        _ => panic!("const {:?} {:?}", t, v),
    }
}

// ---------------------------------------------------------------- liveness

fn uses(i: &Ins, f: &mut dyn FnMut(u32)) {
    let mut o = |x: &Opd| {
        if let Opd::R(r) = x {
            f(*r)
        }
    };
    match i {
        Ins::Bin(_, _, _, a, b) | Ins::Icmp(_, _, _, a, b) => {
            o(a);
            o(b)
        }
        Ins::Cast(_, _, _, a, _) | Ins::Load(_, _, a, _) | Ins::Freeze(_, a) | Ins::Resume(a) | Ins::ExtractValue(_, a, _) => o(a),
        Ins::Store(_, a, b, _) => {
            o(a);
            o(b)
        }
        Ins::Gep(_, a, ix) => {
            o(a);
            for g in ix {
                if let GepIdx::Scaled(x, _, _) = g {
                    o(x)
                }
            }
        }
        Ins::Select(_, _, a, b, c) | Ins::InsertElement(_, a, b, c) => {
            o(a);
            o(b);
            o(c)
        }
        Ins::CondBr(a, _, _) | Ins::Switch(_, a, _, _) => o(a),
        Ins::Ret(Some(a)) => o(a),
        Ins::InsertValue(_, a, b, _) | Ins::ExtractElement(_, a, b) | Ins::Shuffle(_, a, b, _) => {
            o(a);
            o(b)
        }
        Ins::AtomicRmw(_, _, _, a, b, _) => {
            o(a);
            o(b)
        }
        Ins::CmpXchg(_, _, _, a, b, c, _, _) => {
            o(a);
            o(b);
            o(c)
        }
        Ins::Call(c) => {
            if let Callee::Indirect(x) = &c.callee {
                o(x)
            }
            for a in &c.args {
                o(a)
            }
        }
        _ => {}
    }
}
fn def(i: &Ins) -> Option<u32> {
    match i {
        Ins::Bin(d, ..)
        | Ins::Icmp(d, ..)
        | Ins::Cast(d, ..)
        | Ins::Load(d, ..)
        | Ins::Gep(d, ..)
        | Ins::Select(d, ..)
        | Ins::Phi(d, ..)
        | Ins::Alloca(d, ..)
        | Ins::ExtractValue(d, ..)
        | Ins::InsertValue(d, ..)
        | Ins::ExtractElement(d, ..)
        | Ins::InsertElement(d, ..)
        | Ins::Shuffle(d, ..)
        | Ins::AtomicRmw(d, ..)
        | Ins::CmpXchg(d, ..)
        | Ins::LandingPad(d, ..)
        | Ins::Freeze(d, ..) => Some(*d),
        Ins::Call(c) => c.dst,
        _ => None,
    }
}
fn succs(b: &[Ins]) -> Vec<u32> {
    match b.last() {
        Some(Ins::Br(x)) => vec![*x],
        Some(Ins::CondBr(_, x, y)) => vec![*x, *y],
        Some(Ins::Switch(_, _, d, c)) => {
            let mut v: Vec<u32> = c.iter().map(|x| x.1).collect();
            v.push(*d);
            v
        }
        Some(Ins::Call(c)) => match c.invoke {
            Some((a, b)) => vec![a, b],
            None => vec![],
        },
        _ => vec![],
    }
}

impl Func {
    fn compute_live_in(&self) {
        if self.live_in.borrow().is_some() {
            return;
        }
        let w = (self.nregs as usize + 63) / 64;
        let nb = self.blocks.len();
        let mut li = vec![vec![0u64; w]; nb];
        let mut changed = true;
        while changed {
            changed = false;
            for b in (0..nb).rev() {
                let mut s = self.live_out(b as u32, &li, w);
                for i in self.blocks[b].iter().rev() {
                    if let Some(d) = def(i) {
                        s[d as usize / 64] &= !(1 << (d % 64));
                    }
                    if !matches!(i, Ins::Phi(..)) {
                        uses(i, &mut |r| s[r as usize / 64] |= 1 << (r % 64));
                    }
                }
                if s != li[b] {
                    li[b] = s;
                    changed = true;
                }
            }
        }
        *self.live_in.borrow_mut() = Some(li);
    }
    fn live_out(&self, b: u32, li: &[Vec<u64>], w: usize) -> Vec<u64> {
        let mut s = vec![0u64; w];
        for t in succs(&self.blocks[b as usize]) {
            for k in 0..w {
                s[k] |= li[t as usize][k];
            }
            // phi uses on this edge
            for i in &self.blocks[t as usize] {
                if let Ins::Phi(_, v) = i {
                    for (o, from) in v {
                        if *from == b {
                            if let Opd::R(r) = o {
                                s[*r as usize / 64] |= 1 << (r % 64);
                            }
                        }
                    }
                } else {
                    break;
                }
            }
        }
        s
    }
    /// The registers live before instruction `ip` of block `b`; with `after`,
    /// those live after it, without its result (a pending call).
    pub fn live_at(&self, b: u32, ip: u32, after: bool) -> Rc<Vec<u32>> {
        let key = (b, ip * 2 + after as u32);
        if let Some(v) = self.live.borrow().get(&key) {
            return v.clone();
        }
        self.compute_live_in();
        let w = (self.nregs as usize + 63) / 64;
        let mut s = {
            let li = self.live_in.borrow();
            self.live_out(b, li.as_ref().unwrap(), w)
        };
        let blk = &self.blocks[b as usize];
        for k in (0..blk.len()).rev() {
            if after && k == ip as usize {
                if let Some(d) = def(&blk[k]) {
                    s[d as usize / 64] &= !(1 << (d % 64));
                }
                break;
            }
            if let Some(d) = def(&blk[k]) {
                s[d as usize / 64] &= !(1 << (d % 64));
            }
            if !matches!(blk[k], Ins::Phi(..)) {
                uses(&blk[k], &mut |r| s[r as usize / 64] |= 1 << (r % 64));
            }
            if k == ip as usize {
                break;
            }
        }
        let mut v = vec![];
        for r in 0..self.nregs {
            if s[r as usize / 64] >> (r % 64) & 1 == 1 {
                v.push(r)
            }
        }
        let v = Rc::new(v);
        self.live.borrow_mut().insert(key, v.clone());
        v
    }
}
