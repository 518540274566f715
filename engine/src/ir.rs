//! Textual LLVM IR reader: indexes a module, parses globals and function bodies on demand.
use crate::expr::{mask, Cmp, FOp, Op};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    F32,
    F64,
    Ptr,
    Array(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Meta,
    Opaque,
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let mut p = 1;
                while p < b { p *= 2; }
                p
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => if let Ty::Int(1) = **t { (n + 7) / 8 } else { n * t.size() },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed { o = align(o, t.align()); }
                    o += t.size();
                }
                if *packed { o } else { align(o, self.align()) }
            }
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(_) => self.size().min(16),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two().min(16),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed { o = align(o, t.align()); }
                    if k == i { return (o, t.clone()); }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => (t.size() * i as u64, (**t).clone()),
            _ => panic!("field of scalar"),
        }
    }
    pub fn bits(&self) -> u16 {
        match self { Ty::Int(w) => *w, Ty::F32 => 32, Ty::F64 | Ty::Ptr => 64, _ => 0 }
    }
    pub fn lanes(&self) -> Option<(u64, Ty)> {
        if let Ty::Vector(n, t) = self { Some((*n, (**t).clone())) } else { None }
    }
}
pub fn align(o: u64, a: u64) -> u64 { (o + a - 1) / a * a }

/// Constant (fully resolved) values.
#[derive(Clone, Debug)]
pub enum K {
    I(u128),
    Agg(Rc<Vec<K>>),
}
#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(K),
}
#[derive(Clone, Debug)]
pub enum CastOp { Trunc, ZExt, SExt, BitCast, PtrInt, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp }
#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Reg(Opd), Asm(String), Intr(String) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Cmp(Cmp, bool, bool) } // cmp, swap, negate
#[derive(Clone, Debug)]
pub enum Inst {
    Bin(u32, Op, Ty, Opd, Opd),
    FBin(u32, FOp, Ty, Opd, Opd),
    FNeg(u32, Ty, Opd),
    ICmp(u32, String, Ty, Opd, Opd),
    FCmp(u32, String, Ty, Opd, Opd),
    Cast(u32, CastOp, Ty, Ty, Opd),
    Select(u32, Ty, Opd, Ty, Opd, Opd),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, u64, Vec<(Opd, u16, u64)>),
    Alloca(u32, u64, Opd, u64),
    Call(Option<u32>, Ty, Callee, Vec<(Ty, Opd)>, Option<u32>), // last: normal destination for invoke
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u16, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(u32, Ty, Opd, Opd, Vec<u32>),
    ExtractElement(u32, Opd, Opd),
    InsertElement(u32, Ty, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<i64>, u64),
    AtomicRmw(u32, String, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Freeze(u32, Ty, Opd),
    Nop,
    Unsupported(String),
}
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>, // dst, (pred block, value)
    pub insts: Vec<Inst>,
}
pub struct Func {
    pub id: u32,
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}
pub struct Global {
    pub name: String,
    pub text: (usize, usize), // after "= "
    pub constant: bool,
    pub external: bool,
}
pub const FN_BASE: u64 = 0x0800_0000 << 32;
pub struct Module {
    pub src: Rc<String>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub fnames: Vec<String>,
    pub fmap: HashMap<String, u32>,
    fbody: Vec<Option<(usize, usize)>>, // define line start, end
    types: RefCell<HashMap<String, Ty>>,
    aliases: HashMap<String, String>,
    cache: RefCell<HashMap<u32, Rc<Func>>>,
}

#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    W(&'a str),      // word
    L(&'a str),      // %name
    G(&'a str),      // @name
    Num(&'a str),
    Str(&'a str),    // "..."
    CStr(&'a str),   // c"..."
    P(char),
    Dots,
    End,
}
struct Lx<'a> { s: &'a str, b: &'a [u8], p: usize }
impl<'a> Lx<'a> {
    fn new(s: &'a str) -> Self { Lx { s, b: s.as_bytes(), p: 0 } }
    fn peek(&self) -> T<'a> { let mut q = Lx { s: self.s, b: self.b, p: self.p }; q.next() }
    fn next(&mut self) -> T<'a> {
        while self.p < self.b.len() && (self.b[self.p] as char).is_ascii_whitespace() { self.p += 1; }
        if self.p >= self.b.len() { return T::End; }
        let c = self.b[self.p];
        let wordc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
        match c {
            b'%' | b'@' => {
                self.p += 1;
                let name = if self.p < self.b.len() && self.b[self.p] == b'"' {
                    let st = self.p + 1;
                    let e = st + self.s[st..].find('"').unwrap();
                    self.p = e + 1;
                    &self.s[st..e]
                } else {
                    let st = self.p;
                    while self.p < self.b.len() && wordc(self.b[self.p]) { self.p += 1; }
                    &self.s[st..self.p]
                };
                if c == b'%' { T::L(name) } else { T::G(name) }
            }
            b'"' => {
                let st = self.p + 1;
                let e = st + self.s[st..].find('"').unwrap();
                self.p = e + 1;
                T::Str(&self.s[st..e])
            }
            b'c' if self.p + 1 < self.b.len() && self.b[self.p + 1] == b'"' => {
                let st = self.p + 2;
                let e = st + self.s[st..].find('"').unwrap();
                self.p = e + 1;
                T::CStr(&self.s[st..e])
            }
            b'.' if self.s[self.p..].starts_with("...") => { self.p += 3; T::Dots }
            b'0'..=b'9' | b'-' => {
                let st = self.p;
                self.p += 1;
                while self.p < self.b.len() && (self.b[self.p].is_ascii_alphanumeric() || self.b[self.p] == b'.' || self.b[self.p] == b'+' || (self.b[self.p] == b'-' && matches!(self.b[self.p - 1], b'e' | b'E'))) { self.p += 1; }
                T::Num(&self.s[st..self.p])
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = self.p;
                while self.p < self.b.len() && wordc(self.b[self.p]) { self.p += 1; }
                T::W(&self.s[st..self.p])
            }
            _ => { self.p += 1; T::P(c as char) }
        }
    }
    fn eat(&mut self, c: char) -> bool { if self.peek() == T::P(c) { self.next(); true } else { false } }
    fn expect(&mut self, c: char) { let t = self.next(); if t != T::P(c) { panic!("expected {} got {:?} in {}", c, t, self.s) } }
    fn eatw(&mut self, w: &str) -> bool { if self.peek() == T::W(w) { self.next(); true } else { false } }
    fn skip_parens(&mut self) {
        self.expect('(');
        let mut d = 1;
        while d > 0 { match self.next() { T::P('(') => d += 1, T::P(')') => d -= 1, T::End => panic!("parens"), _ => {} } }
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; continue; }
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else { o.push(b[i]); i += 1; }
    }
    o
}

impl Module {
    pub fn load(path: &str) -> Module {
        let bytes = std::fs::read(path).expect("read ll");
        let src = match String::from_utf8(bytes) { Ok(s) => s, Err(e) => e.into_bytes().iter().map(|&b| b as char).collect() };
        let src = Rc::new(src);
        let mut m = Module { src: src.clone(), globals: vec![], gmap: HashMap::new(), fnames: vec![], fmap: HashMap::new(), fbody: vec![], types: RefCell::new(HashMap::new()), aliases: HashMap::new(), cache: RefCell::new(HashMap::new()) };
        let s: &str = &src;
        let mut pos = 0;
        let mut in_fn: Option<(String, usize)> = None;
        let mut tydefs = vec![];
        let fname = |l: &str| -> String {
            let at = l.find('@').unwrap();
            let mut lx = Lx::new(&l[at..]);
            if let T::G(n) = lx.next() { n.to_string() } else { panic!("fname {}", l) }
        };
        while pos < s.len() {
            let e = s[pos..].find('\n').map(|x| pos + x).unwrap_or(s.len());
            let l = &s[pos..e];
            if in_fn.is_some() {
                if l == "}" {
                    let (n, st) = in_fn.take().unwrap();
                    let id = m.fid(&n);
                    m.fbody[id as usize] = Some((st, e));
                }
            } else if l.starts_with("define ") {
                in_fn = Some((fname(l), pos));
            } else if l.starts_with("declare ") {
                let n = fname(l);
                m.fid(&n);
            } else if l.starts_with('@') {
                let mut lx = Lx::new(l);
                let n = if let T::G(n) = lx.next() { n.to_string() } else { panic!() };
                lx.expect('=');
                let rest = &l[lx.p..];
                let head = &rest[..rest.len().min(140)];
                let mut h2 = Lx::new(head);
                let mut constant = false;
                let mut external = false;
                let mut alias = false;
                loop {
                    match h2.next() {
                        T::W("constant") => { constant = true; break; }
                        T::W("global") => break,
                        T::W("alias") | T::W("ifunc") => { alias = true; break; }
                        T::W("external") | T::W("extern_weak") => external = true,
                        T::End => break,
                        _ => {}
                    }
                }
                if alias {
                    let mut last = String::new();
                    let mut lx = Lx::new(rest);
                    loop { match lx.next() { T::G(x) => last = x.to_string(), T::End => break, _ => {} } }
                    m.aliases.insert(n, last);
                } else {
                    m.gmap.insert(n.clone(), m.globals.len() as u32);
                    m.globals.push(Global { name: n, text: (pos + lx.p, e), constant, external });
                }
            } else if l.starts_with('%') {
                if let Some(i) = l.find(" = type ") { tydefs.push((l[1..i].trim_matches('"').to_string(), l[i + 8..].to_string())); }
            }
            pos = e + 1;
        }
        for _ in 0..4 {
            for (n, d) in &tydefs {
                let t = if d.starts_with("opaque") { Ty::Opaque } else { m.ty(&mut Lx::new(d)) };
                m.types.borrow_mut().insert(n.clone(), t);
            }
        }
        m
    }
    fn fid(&mut self, n: &str) -> u32 {
        if let Some(i) = self.fmap.get(n) { return *i; }
        let id = self.fnames.len() as u32;
        self.fmap.insert(n.to_string(), id);
        self.fnames.push(n.to_string());
        self.fbody.push(None);
        id
    }
    /// lets the body of `t` stand in for that of `f`
    pub fn replace(&mut self, f: &str, t: &str) {
        if let (Some(&a), Some(&b)) = (self.fmap.get(f), self.fmap.get(t)) { self.fbody[a as usize] = self.fbody[b as usize]; }
    }
    pub fn has_body(&self, f: u32) -> bool { self.fbody[f as usize].is_some() }

    fn ty(&self, lx: &mut Lx) -> Ty {
        let mut t = match lx.next() {
            T::W(w) => match w {
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "ptr" => { if lx.eatw("addrspace") { lx.skip_parens(); } Ty::Ptr }
                "label" => Ty::Label,
                "metadata" | "token" => Ty::Meta,
                "x86_fp80" | "half" | "bfloat" | "fp128" => Ty::Opaque,
                _ if w.starts_with('i') && w[1..].parse::<u16>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => panic!("type {} in {}", w, &lx.s[..lx.s.len().min(300)]),
            },
            T::L(n) => self.types.borrow().get(n).cloned().unwrap_or(Ty::Opaque),
            T::P('[') => {
                let n = self.int(lx) as u64;
                lx.next();
                let t = self.ty(lx);
                lx.expect(']');
                Ty::Array(n, Rc::new(t))
            }
            T::P('{') => {
                let mut f = vec![];
                if !lx.eat('}') { loop { f.push(self.ty(lx)); if !lx.eat(',') { break; } } lx.expect('}'); }
                Ty::Struct(Rc::new(f), false)
            }
            T::P('<') => {
                if lx.eat('{') {
                    let mut f = vec![];
                    if !lx.eat('}') { loop { f.push(self.ty(lx)); if !lx.eat(',') { break; } } lx.expect('}'); }
                    lx.expect('>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.int(lx) as u64;
                    lx.next();
                    let t = self.ty(lx);
                    lx.expect('>');
                    Ty::Vector(n, Rc::new(t))
                }
            }
            x => panic!("type tok {:?} in {}", x, &lx.s[..lx.s.len().min(300)]),
        };
        // function type suffix
        if lx.peek() == T::P('(') && !matches!(t, Ty::Label) {
            lx.skip_parens();
            t = Ty::Opaque;
        }
        t
    }
    fn int(&self, lx: &mut Lx) -> i128 {
        match lx.next() { T::Num(n) => n.parse().unwrap(), x => panic!("int {:?} in {}", x, lx.s) }
    }
    pub fn gaddr(&self, n: &str) -> u64 {
        if let Some(i) = self.gmap.get(n) { return (*i as u64 + 1) << 32; }
        if let Some(i) = self.fmap.get(n) { return FN_BASE + ((*i as u64) << 8); }
        if let Some(a) = self.aliases.get(n) { return self.gaddr(a); }
        panic!("unknown global @{}", n)
    }
    fn zero(&self, t: &Ty) -> K {
        match t {
            Ty::Array(n, e) | Ty::Vector(n, e) => K::Agg(Rc::new(vec![self.zero(e); *n as usize])),
            Ty::Struct(f, _) => K::Agg(Rc::new(f.iter().map(|x| self.zero(x)).collect())),
            _ => K::I(0),
        }
    }
    fn konst(&self, lx: &mut Lx, t: &Ty) -> K {
        match lx.next() {
            T::Num(n) => {
                if matches!(t, Ty::F32 | Ty::F64) {
                    if let Some(h) = n.strip_prefix("0x") {
                        let v = u64::from_str_radix(h, 16).unwrap();
                        return K::I(if *t == Ty::F32 { (f64::from_bits(v) as f32).to_bits() as u128 } else { v as u128 });
                    }
                    let f: f64 = n.parse().unwrap();
                    return K::I(if *t == Ty::F32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 });
                }
                let v = if let Some(s) = n.strip_prefix('-') { (s.parse::<u128>().unwrap()).wrapping_neg() } else { n.parse::<u128>().unwrap() };
                K::I(v & mask(t.bits().max(1)))
            }
            T::W(w) => match w {
                "true" => K::I(1),
                "false" | "null" => K::I(0),
                "none" => K::I(0),
                "undef" | "poison" | "zeroinitializer" => self.zero(t),
                "splat" => {
                    lx.expect('(');
                    let et = self.ty(lx);
                    let v = self.konst(lx, &et);
                    lx.expect(')');
                    let n = t.lanes().unwrap().0;
                    K::Agg(Rc::new(vec![v; n as usize]))
                }
                "getelementptr" => {
                    while let T::W(x) = lx.peek() { let _ = x; lx.next(); if lx.peek() == T::P('(') && x == "inrange" { lx.skip_parens(); } }
                    lx.expect('(');
                    let st = self.ty(lx);
                    lx.expect(',');
                    let _ = self.ty(lx);
                    let base = self.konst(lx, &Ty::Ptr);
                    let mut addr = if let K::I(b) = base { b as u64 } else { 0 };
                    let mut cur = st;
                    let mut first = true;
                    while lx.eat(',') {
                        let it = self.ty(lx);
                        let iv = if let K::I(v) = self.konst(lx, &it) { crate::expr::sext(v, it.bits()) as i64 } else { 0 };
                        if first { addr = addr.wrapping_add((iv as u64).wrapping_mul(cur.size())); first = false; }
                        else {
                            match cur.clone() {
                                Ty::Struct(..) => { let (o, t2) = cur.field(iv as usize); addr = addr.wrapping_add(o); cur = t2; }
                                Ty::Array(_, e) | Ty::Vector(_, e) => { addr = addr.wrapping_add((iv as u64).wrapping_mul(e.size())); cur = (*e).clone(); }
                                _ => panic!("gep const"),
                            }
                        }
                    }
                    lx.expect(')');
                    K::I(addr as u128)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                    lx.expect('(');
                    let t1 = self.ty(lx);
                    let v = self.konst(lx, &t1);
                    lx.eatw("to");
                    let t2 = self.ty(lx);
                    lx.expect(')');
                    match v { K::I(x) => K::I(x & mask(t2.bits().max(1))), k => k }
                }
                "add" | "sub" | "xor" | "and" | "or" | "mul" => {
                    while let T::W(_) = lx.peek() { lx.next(); }
                    lx.expect('(');
                    let t1 = self.ty(lx);
                    let a = self.konst(lx, &t1);
                    lx.expect(',');
                    let t2 = self.ty(lx);
                    let b = self.konst(lx, &t2);
                    lx.expect(')');
                    let op = match w { "add" => Op::Add, "sub" => Op::Sub, "xor" => Op::Xor, "and" => Op::And, "or" => Op::Or, _ => Op::Mul };
                    if let (K::I(a), K::I(b)) = (a, b) { K::I(crate::expr::cop(op, t1.bits(), a, b)) } else { panic!() }
                }
                "dso_local_equivalent" | "no_cfi" => self.konst(lx, t),
                _ if w.starts_with("f0x") => K::I(u128::from_str_radix(&w[3..], 16).unwrap()),
                _ => panic!("const word {} in {}", w, &lx.s[..lx.s.len().min(300)]),
            },
            T::G(n) => K::I(self.gaddr(n) as u128),
            T::CStr(s) => K::Agg(Rc::new(unescape(s).into_iter().map(|b| K::I(b as u128)).collect())),
            T::P('[') => {
                let mut v = vec![];
                if !lx.eat(']') { loop { let t = self.ty(lx); v.push(self.konst(lx, &t)); if !lx.eat(',') { break; } } lx.expect(']'); }
                K::Agg(Rc::new(v))
            }
            T::P('{') => {
                let mut v = vec![];
                if !lx.eat('}') { loop { let t = self.ty(lx); v.push(self.konst(lx, &t)); if !lx.eat(',') { break; } } lx.expect('}'); }
                K::Agg(Rc::new(v))
            }
            T::P('<') => {
                let packed = lx.eat('{');
                let mut v = vec![];
                if !(packed && lx.eat('}')) {
                    loop { let t = self.ty(lx); v.push(self.konst(lx, &t)); if !lx.eat(',') { break; } }
                    if packed { lx.expect('}'); }
                }
                lx.expect('>');
                K::Agg(Rc::new(v))
            }
            x => panic!("const {:?} in {}", x, &lx.s[..lx.s.len().min(300)]),
        }
    }
    pub fn bytes_of(&self, t: &Ty, k: &K, out: &mut Vec<u8>) {
        match (t, k) {
            (Ty::Array(_, e), K::Agg(v)) => for x in v.iter() { self.bytes_of(e, x, out); },
            (Ty::Vector(_, e), K::Agg(v)) => for x in v.iter() { self.bytes_of(e, x, out); },
            (Ty::Struct(f, packed), K::Agg(v)) => {
                let st = out.len();
                for (i, x) in v.iter().enumerate() {
                    if !packed { while ((out.len() - st) as u64) % f[i].align() != 0 { out.push(0); } }
                    self.bytes_of(&f[i], x, out);
                }
                while ((out.len() - st) as u64) < t.size() { out.push(0); }
            }
            (_, K::I(v)) => { let n = t.size(); for i in 0..n { out.push((v >> (8 * i)) as u8); } }
            _ => panic!("bytes_of {:?}", t),
        }
    }
    /// initial contents of a global
    pub fn global_init(&self, i: u32) -> Vec<u8> {
        let g = &self.globals[i as usize];
        let s = &self.src[g.text.0..g.text.1];
        let mut lx = Lx::new(s);
        loop {
            match lx.next() {
                T::W("constant") | T::W("global") => break,
                T::W("thread_local") | T::W("addrspace") => if lx.peek() == T::P('(') { lx.skip_parens(); },
                T::End => panic!("global {}", s),
                _ => {}
            }
        }
        let t = self.ty(&mut lx);
        if g.external || matches!(lx.peek(), T::End | T::P(',')) { return vec![0; t.size() as usize]; }
        let k = self.konst(&mut lx, &t);
        let mut o = Vec::with_capacity(t.size() as usize);
        self.bytes_of(&t, &k, &mut o);
        o
    }

    fn skip_attrs(&self, lx: &mut Lx) {
        loop {
            match lx.peek() {
                T::W(w) => {
                    if matches!(w, "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "splat" | "none" | "bitcast" | "trunc" | "zext" | "add" | "sub" | "xor" | "asm" | "ptrtoaddr" | "blockaddress" | "void" | "float" | "double" | "ptr" | "label" | "metadata" | "half" | "bfloat" | "fp128" | "x86_fp80") || w.starts_with("f0x") { return; }
                    if w.starts_with('i') && w[1..].parse::<u16>().is_ok() { return; }
                    lx.next();
                    if w == "align" { if lx.peek() == T::P('(') { lx.skip_parens(); } else { lx.next(); } }
                    else if w == "cc" { lx.next(); }
                    else if lx.peek() == T::P('(') { lx.skip_parens(); }
                }
                T::Str(_) => { lx.next(); if lx.eat('=') { lx.next(); } }
                T::P('#') => { lx.next(); lx.next(); }
                _ => return,
            }
        }
    }

    pub fn func(&self, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = self.cache.borrow().get(&id) { return Some(f.clone()); }
        let (st, e) = self.fbody[id as usize]?;
        let f = Rc::new(self.parse_fn(id, &self.src[st..e]));
        self.cache.borrow_mut().insert(id, f.clone());
        Some(f)
    }

    fn parse_fn(&self, id: u32, text: &str) -> Func {
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut lines: Vec<String> = vec![];
        let mut it = text.lines();
        let head = it.next().unwrap();
        // gather logical lines
        let mut pend: Option<String> = None;
        for l in it {
            if l.is_empty() || l == "}" { continue; }
            if let Some(mut p) = pend.take() {
                p.push(' ');
                p.push_str(l.trim());
                let sw = p.trim_start().starts_with("switch ");
                if sw { if l.trim_start().starts_with(']') { lines.push(p); } else { pend = Some(p); } } else { lines.push(p); }
                continue;
            }
            let t = l.trim_start();
            if t.starts_with(';') { continue; }
            if t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") { continue; }
            if t.starts_with("switch ") && !t.contains(']') { pend = Some(t.to_string()); continue; }
            if t.starts_with("invoke ") || t.contains(" = invoke ") { pend = Some(t.to_string()); continue; }
            lines.push(if l.starts_with(' ') { t.to_string() } else { l.to_string() });
        }
        // params
        let mut params = vec![];
        {
            let at = head.find('@').unwrap();
            let mut lx = Lx::new(&head[at..]);
            lx.next();
            lx.expect('(');
            let mut unnamed = 0;
            if !lx.eat(')') {
                loop {
                    if lx.peek() == T::Dots { lx.next(); break; }
                    let _t = self.ty(&mut lx);
                    self.skip_attrs(&mut lx);
                    let n = if let T::L(n) = lx.peek() { lx.next(); n.to_string() } else { let n = unnamed.to_string(); n };
                    unnamed += 1;
                    let r = regs.len() as u32;
                    regs.insert(n, r);
                    params.push(r);
                    if !lx.eat(',') { break; }
                }
            }
        }
        // labels
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut nb = 0u32;
        let is_label = |l: &str| -> Option<String> {
            if l.starts_with('"') { let e = l[1..].find('"')?; if l[e + 2..].starts_with(':') { return Some(l[1..e + 1].to_string()); } return None; }
            let e = l.find(':')?;
            if e > 0 && l[..e].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-') { Some(l[..e].to_string()) } else { None }
        };
        let first_label = lines.first().and_then(|l| is_label(l));
        if first_label.is_none() {
            // implicit entry label is the next unnamed number
            let mut k = 0;
            while regs.contains_key(&k.to_string()) { k += 1; }
            labels.insert(k.to_string(), 0);
            nb = 1;
        }
        for l in &lines { if let Some(n) = is_label(l) { labels.insert(n, nb); nb += 1; } }
        let mut blocks: Vec<Block> = (0..nb).map(|_| Block { phis: vec![], insts: vec![] }).collect();
        let mut cur = 0usize;
        for l in &lines {
            if let Some(n) = is_label(l) { cur = labels[&n] as usize; continue; }
            self.parse_inst(l, &mut regs, &labels, &mut blocks[cur]);
        }
        Func { id, name: self.fnames[id as usize].clone(), params, nregs: regs.len() as u32, blocks }
    }

    fn opd(&self, lx: &mut Lx, t: &Ty, regs: &mut HashMap<String, u32>) -> Opd {
        if let T::L(n) = lx.peek() {
            lx.next();
            return Opd::R(reg(regs, n));
        }
        if let T::W("asm") = lx.peek() { return Opd::K(K::I(0)); }
        Opd::K(self.konst(lx, t))
    }
    fn tyopd(&self, lx: &mut Lx, regs: &mut HashMap<String, u32>) -> (Ty, Opd) {
        let t = self.ty(lx);
        if t == Ty::Meta {
            // metadata argument: skip to , or )
            let mut d = 0;
            loop {
                match lx.peek() {
                    T::P('(') | T::P('{') => { d += 1; lx.next(); }
                    T::P(')') | T::P('}') if d > 0 => { d -= 1; lx.next(); }
                    T::P(',') | T::P(')') if d == 0 => break,
                    T::End => break,
                    _ => { lx.next(); }
                }
            }
            return (t, Opd::K(K::I(0)));
        }
        self.skip_attrs(lx);
        let o = self.opd(lx, &t, regs);
        (t, o)
    }

    fn parse_inst(&self, l: &str, regs: &mut HashMap<String, u32>, labels: &HashMap<String, u32>, b: &mut Block) {
        let mut lx0 = Lx::new(l);
        let lx = &mut lx0;
        let mut dst = None;
        if let T::L(n) = lx.peek() { lx.next(); lx.expect('='); dst = Some(reg(regs, n)); }
        let d = dst.unwrap_or(u32::MAX);
        let op = match lx.next() { T::W(w) => w, x => panic!("inst {:?} in {}", x, l) };
        macro_rules! lab { () => {{ let _ = self.ty(lx); if let T::L(n) = lx.next() { labels[n] } else { panic!("label {}", l) } }} }
        let i = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while let T::W(w) = lx.peek() { if matches!(w, "nuw" | "nsw" | "exact" | "disjoint") { lx.next(); } else { break; } }
                let (t, a) = self.tyopd(lx, regs);
                lx.expect(',');
                let c = self.opd(lx, &t, regs);
                let o = match op { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "shl" => Op::Shl, "lshr" => Op::LShr, "ashr" => Op::AShr, "and" => Op::And, "or" => Op::Or, _ => Op::Xor };
                Inst::Bin(d, o, t, a, c)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_fm(lx);
                let (t, a) = self.tyopd(lx, regs);
                lx.expect(',');
                let c = self.opd(lx, &t, regs);
                let o = match op { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, _ => FOp::Rem };
                Inst::FBin(d, o, t, a, c)
            }
            "fneg" => { self.skip_fm(lx); let (t, a) = self.tyopd(lx, regs); Inst::FNeg(d, t, a) }
            "icmp" | "fcmp" => {
                if op == "fcmp" { self.skip_fm(lx); }
                let mut p = match lx.next() { T::W(w) => w.to_string(), _ => panic!() };
                if p == "samesign" { p = match lx.next() { T::W(w) => w.to_string(), _ => panic!() }; }
                let (t, a) = self.tyopd(lx, regs);
                lx.expect(',');
                let c = self.opd(lx, &t, regs);
                if op == "icmp" { Inst::ICmp(d, p, t, a, c) } else { Inst::FCmp(d, p, t, a, c) }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "addrspacecast" | "ptrtoaddr" => {
                while let T::W(w) = lx.peek() { if matches!(w, "nuw" | "nsw" | "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { lx.next(); } else { break; } }
                let (t, a) = self.tyopd(lx, regs);
                lx.eatw("to");
                let t2 = self.ty(lx);
                let o = match op { "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt, "bitcast" => CastOp::BitCast, "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => CastOp::PtrInt, "fptrunc" => CastOp::FpTrunc, "fpext" => CastOp::FpExt, "fptoui" => CastOp::FpToUi, "fptosi" => CastOp::FpToSi, "uitofp" => CastOp::UiToFp, _ => CastOp::SiToFp };
                Inst::Cast(d, o, t, t2, a)
            }
            "select" => {
                self.skip_fm(lx);
                let (tc, c) = self.tyopd(lx, regs);
                lx.expect(',');
                let (t, a) = self.tyopd(lx, regs);
                lx.expect(',');
                let (_, e) = self.tyopd(lx, regs);
                Inst::Select(d, tc, c, t, a, e)
            }
            "load" => {
                while lx.eatw("atomic") || lx.eatw("volatile") {}
                let t = self.ty(lx);
                lx.expect(',');
                let (_, p) = self.tyopd(lx, regs);
                Inst::Load(d, t, p)
            }
            "store" => {
                while lx.eatw("atomic") || lx.eatw("volatile") {}
                let (t, v) = self.tyopd(lx, regs);
                lx.expect(',');
                let (_, p) = self.tyopd(lx, regs);
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                while let T::W(w) = lx.peek() { if matches!(w, "inbounds" | "nuw" | "nusw") { lx.next(); } else { break; } }
                let st = self.ty(lx);
                lx.expect(',');
                let (bt, base) = self.tyopd(lx, regs);
                if bt != Ty::Ptr { b.insts.push(Inst::Unsupported(l.to_string())); return; }
                let mut cur = st;
                let mut first = true;
                let mut off = 0u64;
                let mut idx = vec![];
                while lx.eat(',') {
                    if lx.peek() == T::P('!') { break; }
                    let (it, iv) = self.tyopd(lx, regs);
                    if let (Opd::K(K::I(_)), false, Ty::Struct(..)) = (&iv, first, &cur) {
                        let k = if let Opd::K(K::I(v)) = iv { v as usize } else { 0 };
                        let (o, t2) = cur.field(k);
                        off = off.wrapping_add(o);
                        cur = t2;
                        continue;
                    }
                    if it.lanes().is_some() { b.insts.push(Inst::Unsupported(l.to_string())); return; }
                    let es = if first { cur.size() } else {
                        match cur.clone() { Ty::Array(_, e) | Ty::Vector(_, e) => { cur = (*e).clone(); cur.size() } _ => panic!("gep {}", l) }
                    };
                    first = false;
                    match iv {
                        Opd::K(K::I(v)) => off = off.wrapping_add((crate::expr::sext(v, it.bits()) as u64).wrapping_mul(es)),
                        _ => idx.push((iv, it.bits(), es)),
                    }
                }
                Inst::Gep(d, base, off, idx)
            }
            "alloca" => {
                lx.eatw("inalloca");
                let t = self.ty(lx);
                let mut n = Opd::K(K::I(1));
                let mut al = t.align();
                while lx.eat(',') {
                    if lx.eatw("align") { al = self.int(lx) as u64; }
                    else if lx.peek() == T::P('!') { break; }
                    else { n = self.tyopd(lx, regs).1; }
                }
                Inst::Alloca(d, t.size(), n, al)
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if op != "call" && op != "invoke" { lx.next(); }
                self.skip_fm(lx);
                self.skip_attrs(lx);
                let mut rt = self.ty(lx);
                if rt == Ty::Opaque {
                    // function type was consumed: recover the return type
                    let q = l.find("call ").map(|x| x + 5).or(l.find("invoke ").map(|x| x + 7)).unwrap();
                    let mut l2 = Lx::new(&l[q..]);
                    self.skip_fm(&mut l2);
                    self.skip_attrs(&mut l2);
                    rt = match l2.next() { T::W("void") => Ty::Void, T::W("ptr") => Ty::Ptr, T::W("float") => Ty::F32, T::W("double") => Ty::F64, T::W(w) if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap()), _ => Ty::Opaque };
                }
                self.skip_attrs(lx);
                let callee = match lx.next() {
                    T::G(n) => {
                        if n.starts_with("llvm.") { Callee::Intr(n.to_string()) }
                        else {
                            let mut nn = n;
                            while let Some(a) = self.aliases.get(nn) { nn = a; }
                            Callee::Fn(self.fmap[nn])
                        }
                    }
                    T::L(n) => Callee::Reg(Opd::R(reg(regs, n))),
                    T::W("asm") => {
                        let mut s = String::new();
                        loop { match lx.peek() { T::Str(x) => { s.push_str(x); s.push('|'); lx.next(); } T::P('(') => break, _ => { lx.next(); } } }
                        Callee::Asm(s)
                    }
                    T::W("inttoptr") | T::W("getelementptr") | T::W("null") | T::W("undef") | T::W("poison") => { b.insts.push(Inst::Unsupported(l.to_string())); return; }
                    x => panic!("callee {:?} in {}", x, l),
                };
                lx.expect('(');
                let mut args = vec![];
                if !lx.eat(')') {
                    loop { args.push(self.tyopd(lx, regs)); if !lx.eat(',') { break; } }
                    lx.expect(')');
                }
                let mut nd = None;
                if op == "invoke" {
                    loop { match lx.next() { T::W("to") => break, T::End => panic!("invoke {}", l), _ => {} } }
                    nd = Some(lab!());
                }
                Inst::Call(if rt == Ty::Void { None } else { dst }, rt, callee, args, nd)
            }
            "br" => {
                if lx.peek() == T::W("label") { Inst::Br(lab!()) }
                else {
                    let (_, c) = self.tyopd(lx, regs);
                    lx.expect(',');
                    let t = lab!();
                    lx.expect(',');
                    let f = lab!();
                    Inst::CondBr(c, t, f)
                }
            }
            "switch" => {
                let (t, v) = self.tyopd(lx, regs);
                lx.expect(',');
                let def = lab!();
                lx.expect('[');
                let mut cs = vec![];
                while lx.peek() != T::P(']') {
                    let ct = self.ty(lx);
                    let k = if let K::I(k) = self.konst(lx, &ct) { k } else { panic!() };
                    lx.expect(',');
                    cs.push((k, lab!()));
                }
                Inst::Switch(t.bits(), v, def, cs)
            }
            "ret" => { if lx.peek() == T::W("void") { Inst::Ret(None) } else { Inst::Ret(Some(self.tyopd(lx, regs))) } }
            "unreachable" | "resume" => Inst::Unreachable,
            "landingpad" => Inst::Nop,
            "phi" => {
                self.skip_fm(lx);
                let t = self.ty(lx);
                let mut v = vec![];
                loop {
                    if !lx.eat('[') { break; }
                    let o = self.opd(lx, &t, regs);
                    lx.expect(',');
                    if let T::L(n) = lx.next() { v.push((labels[n], o)); } else { panic!() }
                    lx.expect(']');
                    if !lx.eat(',') { break; }
                }
                b.phis.push((d, v));
                return;
            }
            "extractvalue" => {
                let (_, a) = self.tyopd(lx, regs);
                let mut ix = vec![];
                while lx.eat(',') { if lx.peek() == T::P('!') { break; } ix.push(self.int(lx) as u32); }
                Inst::ExtractValue(d, a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tyopd(lx, regs);
                lx.expect(',');
                let (_, v) = self.tyopd(lx, regs);
                let mut ix = vec![];
                while lx.eat(',') { if lx.peek() == T::P('!') { break; } ix.push(self.int(lx) as u32); }
                Inst::InsertValue(d, t, a, v, ix)
            }
            "extractelement" => {
                let (_, a) = self.tyopd(lx, regs);
                lx.expect(',');
                let (_, i) = self.tyopd(lx, regs);
                Inst::ExtractElement(d, a, i)
            }
            "insertelement" => {
                let (t, a) = self.tyopd(lx, regs);
                lx.expect(',');
                let (_, v) = self.tyopd(lx, regs);
                lx.expect(',');
                let (_, i) = self.tyopd(lx, regs);
                Inst::InsertElement(d, t, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyopd(lx, regs);
                lx.expect(',');
                let (_, c) = self.tyopd(lx, regs);
                lx.expect(',');
                let mt = self.ty(lx);
                let k = self.konst(lx, &mt);
                let mv = if let K::Agg(v) = k { v.iter().map(|x| if let K::I(i) = x { *i as i64 } else { 0 }).collect() } else { vec![] };
                Inst::Shuffle(d, a, c, mv, t.lanes().unwrap().0)
            }
            "atomicrmw" => {
                lx.eatw("volatile");
                let o = match lx.next() { T::W(w) => w.to_string(), _ => panic!() };
                let (_, p) = self.tyopd(lx, regs);
                lx.expect(',');
                let (t, v) = self.tyopd(lx, regs);
                Inst::AtomicRmw(d, o, t, p, v)
            }
            "cmpxchg" => {
                while lx.eatw("weak") || lx.eatw("volatile") {}
                let (_, p) = self.tyopd(lx, regs);
                lx.expect(',');
                let (t, c) = self.tyopd(lx, regs);
                lx.expect(',');
                let (_, n) = self.tyopd(lx, regs);
                Inst::CmpXchg(d, t, p, c, n)
            }
            "freeze" => { let (t, a) = self.tyopd(lx, regs); Inst::Freeze(d, t, a) }
            "fence" => Inst::Nop,
            _ => Inst::Unsupported(l.to_string()),
        };
        b.insts.push(i);
    }
    fn skip_fm(&self, lx: &mut Lx) {
        while let T::W(w) = lx.peek() {
            if matches!(w, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { lx.next(); } else { break; }
        }
    }
}
fn reg(regs: &mut HashMap<String, u32>, n: &str) -> u32 {
    if let Some(r) = regs.get(n) { return *r; }
    let r = regs.len() as u32;
    regs.insert(n.to_string(), r);
    r
}
