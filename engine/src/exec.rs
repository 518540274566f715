//! Symbolic executor over the parsed IR.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Ans, Solver};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val { C(u128), S(E), A(Rc<Vec<Val>>) }
use Val::*;

const NOSYM: E = u32::MAX;
const STACK_IDX: u64 = 0x1000_0000;
const HEAP_IDX: u64 = 0x2000_0000;

#[derive(Clone)]
pub struct Obj { data: Vec<u8>, sym: Vec<E> }
impl Obj {
    fn new(n: usize, fill: u8) -> Obj { Obj { data: vec![fill; n], sym: vec![] } }
    fn ensure_sym(&mut self) { if self.sym.is_empty() { self.sym = vec![NOSYM; self.data.len()]; } }
}
const CH: usize = 128;
type Chunk = Vec<Option<Rc<Obj>>>;
#[derive(Clone)]
pub struct Mem {
    heap: Vec<Rc<Chunk>>,
    nheap: usize,
    stack: Vec<Rc<Obj>>,
    globals: Rc<HashMap<u32, Rc<Obj>>>,
    pub live: u64,
    pub live_bytes: u64,
}
#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    block: u32,
    prev: u32,
    ip: usize,
    regs: Vec<Val>,
    stack_base: usize,
    ret: Option<u32>,
    cont: Option<u32>, // invoke: normal destination
}
pub struct Group { vars: Vec<u32>, cs: Vec<E> }
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub groups: Vec<Rc<Group>>,
    pub model: Rc<Vec<u8>>,
    pub nvars: u32,
    pub labels: Rc<Vec<String>>,
    pub observed: Rc<Vec<(Val, u16)>>,
    pub steps: u64,
    pub clock: u64,
    pub depth: u32,
}
#[derive(Clone, Debug)]
pub enum Ev { Ok, Killed, Fail(String), Panic(String), Mem(String), Alloc(String), Abort(String), Loop(String), Unsupported(String), Unknown(String) }
impl Ev {
    pub fn kind(&self) -> &'static str {
        match self { Ev::Ok => "ok", Ev::Killed => "killed", Ev::Fail(_) => "fail", Ev::Panic(_) => "panic", Ev::Mem(_) => "memory", Ev::Alloc(_) => "alloc", Ev::Abort(_) => "abort", Ev::Loop(_) => "loop", Ev::Unsupported(_) => "unsupported", Ev::Unknown(_) => "unknown" }
    }
    pub fn msg(&self) -> String {
        match self { Ev::Ok | Ev::Killed => String::new(), Ev::Fail(s) | Ev::Panic(s) | Ev::Mem(s) | Ev::Alloc(s) | Ev::Abort(s) | Ev::Loop(s) | Ev::Unsupported(s) | Ev::Unknown(s) => s.clone() }
    }
}
type R<T> = Result<T, Ev>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum FK { Body, Panic, AllocErr, Ext(Ext) }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ext {
    Malloc, Calloc, Realloc, Free, PosixMemalign, AlignedAlloc, Bcmp, Memcmp, Strlen, Memcpy, Memmove, Memset, Memchr,
    SymBytes, SymAssume, SymFail, SymReach, SymObserve, SymConcretize, SymIsSymbolic, SymLive, SymAssert, SymParam, Gethostname,
    Getrandom, ClockGettime, Abort, Exit, RetZero, RetMinus1, ErrnoLoc, Getenv, Write, Sysconf, Syscall, GetTid, Isatty, Lz4Stub, None,
}

pub struct Opts { pub max_steps: u64, pub alloc_limit: u64, pub trace: bool, pub params: HashMap<String, u64> }

pub struct Engine {
    pub m: Module,
    pub ar: Arena,
    pub sv: Solver,
    pub opts: Opts,
    gcache: HashMap<u32, Rc<Obj>>,
    fk: Vec<Option<FK>>,
    pub work: Vec<State>,
    pub called: HashSet<u32>,
    pub steps: u64,
    pub forks: u64,
    errno: u64,
    pub max_steps_seen: u64,
    pub asserts_folded: u64,
    pub asserts_proved: u64,
}

fn u(v: u128) -> u64 { v as u64 }

impl Mem {
    fn new() -> Mem { Mem { heap: vec![], nheap: 0, stack: vec![], globals: Rc::new(HashMap::new()), live: 0, live_bytes: 0 } }
    fn alloc(&mut self, n: usize, fill: u8) -> u64 {
        let i = self.nheap;
        self.nheap += 1;
        if i / CH >= self.heap.len() { self.heap.push(Rc::new(Vec::with_capacity(CH))); }
        Rc::make_mut(&mut self.heap[i / CH]).push(Some(Rc::new(Obj::new(n, fill))));
        self.live += 1;
        self.live_bytes += n as u64;
        (HEAP_IDX + i as u64) << 32
    }
    fn salloc(&mut self, n: usize) -> u64 {
        let i = self.stack.len();
        self.stack.push(Rc::new(Obj::new(n, 0xA5)));
        (STACK_IDX + i as u64) << 32
    }
}

impl Engine {
    pub fn new(m: Module, sv: Solver, opts: Opts) -> Engine {
        let n = m.fnames.len();
        Engine { m, ar: Arena::new(), sv, opts, gcache: HashMap::new(), fk: vec![None; n], work: vec![], called: HashSet::new(), steps: 0, forks: 0, errno: 0, max_steps_seen: 0, asserts_folded: 0, asserts_proved: 0 }
    }
    pub fn start(&mut self, name: &str) -> State {
        let id = *self.m.fmap.get(name).unwrap_or_else(|| { eprintln!("llsym: no function {}", name); std::process::exit(3) });
        let f = self.m.func(id).expect("harness body");
        let mut st = State { frames: vec![], mem: Mem::new(), groups: vec![], model: Rc::new(vec![]), nvars: 0, labels: Rc::new(vec![]), observed: Rc::new(vec![]), steps: 0, clock: 0, depth: 0 };
        self.errno = st.mem.alloc(8, 0);
        st.mem.live = 0; st.mem.live_bytes = 0;
        self.push_frame(&mut st, f, vec![], None, None);
        st
    }
    fn push_frame(&mut self, st: &mut State, f: Rc<Func>, args: Vec<Val>, ret: Option<u32>, cont: Option<u32>) {
        self.called.insert(f.id);
        let mut regs = vec![C(0); f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() { if i < f.params.len() { regs[f.params[i] as usize] = a; } }
        let sb = st.mem.stack.len();
        st.frames.push(Frame { f, block: 0, prev: 0, ip: 0, regs, stack_base: sb, ret, cont });
    }

    // ---------- memory ----------
    fn obj<'a>(&mut self, st: &'a State, addr: u64) -> R<(Rc<Obj>, u64)> {
        let idx = addr >> 32;
        let off = addr & 0xffff_ffff;
        if idx >= HEAP_IDX {
            let i = (idx - HEAP_IDX) as usize;
            if i < st.mem.nheap {
                if let Some(o) = &st.mem.heap[i / CH][i % CH] { return Ok((o.clone(), off)); }
                return Err(Ev::Mem(format!("use of freed heap object #{} at offset {}", i, off)));
            }
        } else if idx >= STACK_IDX {
            let i = (idx - STACK_IDX) as usize;
            if i < st.mem.stack.len() { return Ok((st.mem.stack[i].clone(), off)); }
            return Err(Ev::Mem("use of dead stack slot".into()));
        } else if idx >= 1 && idx <= self.m.globals.len() as u64 {
            let g = (idx - 1) as u32;
            if let Some(o) = st.mem.globals.get(&g) { return Ok((o.clone(), off)); }
            return Ok((self.gobj(g), off));
        }
        Err(Ev::Mem(format!("access to invalid address {:#x}", addr)))
    }
    fn gobj(&mut self, g: u32) -> Rc<Obj> {
        if let Some(o) = self.gcache.get(&g) { return o.clone(); }
        let data = self.m.global_init(g);
        let o = Rc::new(Obj { data, sym: vec![] });
        self.gcache.insert(g, o.clone());
        o
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64) -> R<(&'a mut Obj, u64)> {
        let idx = addr >> 32;
        let off = addr & 0xffff_ffff;
        if idx >= HEAP_IDX {
            let i = (idx - HEAP_IDX) as usize;
            if i < st.mem.nheap {
                let c = Rc::make_mut(&mut st.mem.heap[i / CH]);
                return match &mut c[i % CH] {
                    Some(o) => Ok((Rc::make_mut(o), off)),
                    None => Err(Ev::Mem(format!("write to freed heap object #{}", i))),
                };
            }
        } else if idx >= STACK_IDX {
            let i = (idx - STACK_IDX) as usize;
            if i < st.mem.stack.len() { return Ok((Rc::make_mut(&mut st.mem.stack[i]), off)); }
        } else if idx >= 1 && idx <= self.m.globals.len() as u64 {
            let g = (idx - 1) as u32;
            if self.m.globals[g as usize].constant { return Err(Ev::Mem(format!("write to constant @{}", self.m.globals[g as usize].name))); }
            if !st.mem.globals.contains_key(&g) {
                let o = self.gobj(g);
                Rc::make_mut(&mut st.mem.globals).insert(g, o);
            }
            return Ok((Rc::make_mut(Rc::make_mut(&mut st.mem.globals).get_mut(&g).unwrap()), off));
        }
        Err(Ev::Mem(format!("write to invalid address {:#x}", addr)))
    }
    fn obj_load_int(&mut self, o: &Obj, off: usize, n: usize) -> Val {
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|&x| x == NOSYM) {
            let mut v = 0u128;
            for i in (0..n).rev() { v = (v << 8) | o.data[off + i] as u128; }
            return C(v);
        }
        let mut parts = Vec::with_capacity(n);
        for i in 0..n {
            let s = o.sym[off + i];
            parts.push(if s == NOSYM { self.ar.c(o.data[off + i] as u128, 8) } else { s });
        }
        let e = self.ar.cat(&parts);
        self.norm(e)
    }
    fn norm(&self, e: E) -> Val { match self.ar.cv(e) { Some(c) => C(c), None => S(e) } }
    fn chk(&self, o: &Obj, off: u64, n: u64, what: &str) -> R<()> {
        if off + n > o.data.len() as u64 { Err(Ev::Mem(format!("{} out of bounds: offset {} size {} in object of {} bytes", what, off, n, o.data.len()))) } else { Ok(()) }
    }
    fn load(&mut self, st: &State, addr: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() { let (o, ft) = t.field(i); v.push(self.load(st, addr + o, &ft)?); }
                Ok(A(Rc::new(v)))
            }
            Ty::Vector(n, e) if **e == Ty::Int(1) => {
                let x = self.load(st, addr, &Ty::Int((*n as u16 + 7) / 8 * 8))?;
                let mut v = vec![];
                for i in 0..*n { v.push(self.extract_val(&x, i as u16, 1)); }
                Ok(A(Rc::new(v)))
            }
            Ty::Array(n, e) | Ty::Vector(n, e) => {
                let s = e.size();
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n { v.push(self.load(st, addr + i * s, e)?); }
                Ok(A(Rc::new(v)))
            }
            _ => {
                let (o, off) = self.obj(st, addr)?;
                let w = t.bits();
                let n = (w as usize + 7) / 8;
                self.chk(&o, off, n as u64, "read")?;
                let v = self.obj_load_int(&o, off as usize, n);
                Ok(if w % 8 != 0 { self.extract_val(&v, 0, w) } else { v })
            }
        }
    }
    fn extract_val(&mut self, v: &Val, lo: u16, w: u16) -> Val {
        match v {
            C(c) => C((c >> lo) & mask(w)),
            S(e) => { let x = self.ar.extract(*e, lo, w); self.norm(x) }
            A(_) => panic!("extract of aggregate"),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, t: &Ty, v: &Val) -> R<()> {
        match (t, v) {
            (Ty::Struct(f, _), A(x)) => { for i in 0..f.len() { let (o, ft) = t.field(i); self.store(st, addr + o, &ft, &x[i])?; } Ok(()) }
            (Ty::Vector(n, e), A(x)) if **e == Ty::Int(1) => {
                let bw = (*n as u16 + 7) / 8 * 8;
                let c = self.pack_bits(x, bw);
                self.store(st, addr, &Ty::Int(bw), &c)
            }
            (Ty::Array(_, e), A(x)) | (Ty::Vector(_, e), A(x)) => { let s = e.size(); for i in 0..x.len() { self.store(st, addr + i as u64 * s, e, &x[i])?; } Ok(()) }
            _ => {
                let w = t.bits();
                let n = (w as usize + 7) / 8;
                {
                    let (o, off) = self.obj(st, addr)?;
                    self.chk(&o, off, n as u64, "write")?;
                }
                match v {
                    C(c) => {
                        let (o, off) = self.obj_mut(st, addr)?;
                        let off = off as usize;
                        for i in 0..n { o.data[off + i] = (c >> (8 * i)) as u8; }
                        if !o.sym.is_empty() { for i in 0..n { o.sym[off + i] = NOSYM; } }
                    }
                    S(e) => {
                        let e = if w % 8 != 0 { self.ar.zext(*e, n as u16 * 8) } else { *e };
                        let mut bs = vec![];
                        for i in 0..n { let x = self.ar.extract(e, 8 * i as u16, 8); bs.push((self.ar.cv(x), x)); }
                        let (o, off) = self.obj_mut(st, addr)?;
                        let off = off as usize;
                        o.ensure_sym();
                        for (i, (c, x)) in bs.into_iter().enumerate() {
                            if let Some(c) = c { o.data[off + i] = c as u8; o.sym[off + i] = NOSYM; } else { o.sym[off + i] = x; }
                        }
                    }
                    A(_) => return Err(Ev::Unsupported("store agg/scalar mismatch".into())),
                }
                Ok(())
            }
        }
    }
    fn pack_bits(&mut self, x: &[Val], bw: u16) -> Val {
        let mut parts = vec![];
        for b in x { let e = self.e(b, 1); parts.push(e); }
        let e = self.ar.cat(&parts);
        let e = self.ar.zext(e, bw);
        self.norm(e)
    }
    fn read_bytes(&mut self, st: &State, addr: u64, n: u64) -> R<Vec<Val>> {
        if n == 0 { return Ok(vec![]); }
        let (o, off) = self.obj(st, addr)?;
        self.chk(&o, off, n, "read")?;
        let off = off as usize;
        Ok((0..n as usize).map(|i| if !o.sym.is_empty() && o.sym[off + i] != NOSYM { S(o.sym[off + i]) } else { C(o.data[off + i] as u128) }).collect())
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (so, soff) = self.obj(st, src)?;
        self.chk(&so, soff, n, "read (memcpy)")?;
        {
            let (d, doff) = self.obj(st, dst)?;
            self.chk(&d, doff, n, "write (memcpy)")?;
        }
        let (s, e) = (soff as usize, (soff + n) as usize);
        let data = so.data[s..e].to_vec();
        let sym = if so.sym.is_empty() { vec![] } else { so.sym[s..e].to_vec() };
        drop(so);
        let (d, doff) = self.obj_mut(st, dst)?;
        let (a, b) = (doff as usize, (doff + n) as usize);
        d.data[a..b].copy_from_slice(&data);
        if !sym.is_empty() && sym.iter().any(|&x| x != NOSYM) { d.ensure_sym(); d.sym[a..b].copy_from_slice(&sym); }
        else if !d.sym.is_empty() { for x in &mut d.sym[a..b] { *x = NOSYM; } }
        Ok(())
    }
    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 { return Ok(()); }
        let idx = p >> 32;
        if idx < HEAP_IDX || p & 0xffff_ffff != 0 { return Err(Ev::Mem(format!("invalid free {:#x}", p))); }
        let i = (idx - HEAP_IDX) as usize;
        if i >= st.mem.nheap { return Err(Ev::Mem("invalid free".into())); }
        let c = Rc::make_mut(&mut st.mem.heap[i / CH]);
        match c[i % CH].take() {
            None => return Err(Ev::Mem("double free".into())),
            Some(o) => { st.mem.live -= 1; st.mem.live_bytes -= o.data.len() as u64; }
        }
        Ok(())
    }

    // ---------- values ----------
    fn kval(k: &K) -> Val { match k { K::I(v) => C(*v), K::Agg(v) => A(Rc::new(v.iter().map(Self::kval).collect())) } }
    fn get(&self, fr: &Frame, o: &Opd) -> Val { match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(K::I(v)) => C(*v), Opd::K(k) => Self::kval(k) } }
    fn e(&mut self, v: &Val, w: u16) -> E {
        match v { C(c) => self.ar.c(*c, w), S(e) => { debug_assert_eq!(self.ar.w(*e), w); *e } A(_) => panic!("agg as expr") }
    }

    // ---------- solver ----------
    fn slice(&mut self, st: &State, c: E) -> Vec<E> {
        let vs = self.ar.varset(c);
        let mut out = vec![];
        for g in &st.groups { if overlap(&g.vars, &vs) { out.extend_from_slice(&g.cs); } }
        out.push(c);
        out
    }
    fn add(&mut self, st: &mut State, c: E) {
        if self.ar.cv(c).is_some() { return; }
        let vs = self.ar.varset(c);
        let mut vars: Vec<u32> = vs.to_vec();
        let mut cs = vec![];
        let mut rest = vec![];
        for g in st.groups.drain(..) {
            if overlap(&g.vars, &vs) { vars.extend_from_slice(&g.vars); cs.extend_from_slice(&g.cs); } else { rest.push(g); }
        }
        vars.sort(); vars.dedup();
        if !cs.contains(&c) { cs.push(c); }
        rest.push(Rc::new(Group { vars, cs }));
        st.groups = rest;
    }
    fn ev(&mut self, st: &State, e: E) -> u128 { self.ar.eval_begin(); let m = st.model.clone(); self.ar.eval(e, &m) }
    /// is `c` satisfiable together with the path condition? returns a model for the whole state
    fn sat(&mut self, st: &State, c: E, assertion: bool) -> R<Option<Rc<Vec<u8>>>> {
        if let Some(k) = self.ar.cv(c) { return Ok(if k != 0 { Some(st.model.clone()) } else { None }); }
        if self.ev(st, c) != 0 { return Ok(Some(st.model.clone())); }
        let q = self.slice(st, c);
        let ans = if assertion { None } else { self.sv.check_byte(&mut self.ar, &q) };
        let t0 = std::time::Instant::now();
        let ans = ans.unwrap_or_else(|| self.sv.check(&mut self.ar, &q));
        if t0.elapsed().as_secs_f64() > 0.5 && std::env::var("LLSYM_SHOW").is_ok() { eprintln!("slow {:.1}s", t0.elapsed().as_secs_f64()); for e in &q { eprintln!("  {}", self.ar.show_d(*e, 14)); } }
        match ans {
            Ans::Unsat => Ok(None),
            Ans::Sat(m) => {
                let mut n = (*st.model).clone();
                for (v, b) in m { if n.len() <= v as usize { n.resize(v as usize + 1, 0); } n[v as usize] = b; }
                Ok(Some(Rc::new(n)))
            }
            Ans::Unknown => { if std::env::var("LLSYM_SHOW").is_ok() { for e in &q { eprintln!("  {}", self.ar.show_d(*e, 14)); } } Err(Ev::Unknown("solver gave up".into())) }
        }
    }
    /// Decide a 1-bit condition; forks if both are possible. The forked state re-executes the current instruction with the negation assumed.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.ar.cv(c) { return Ok(k != 0); }
        let cur = self.ev(st, c) != 0;
        let nc = self.ar.not(c);
        let (here, there) = if cur { (c, nc) } else { (nc, c) };
        if let Some(m) = self.sat(st, there, false)? {
            let mut o = st.clone();
            o.model = m;
            o.depth += 1;
            self.add(&mut o, there);
            self.work.push(o);
            self.forks += 1;
            self.add(st, here);
            st.depth += 1;
        }
        Ok(cur)
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u128> {
        match v {
            C(c) => Ok(*c),
            S(e) => {
                let k = self.ev(st, *e);
                let w = self.ar.w(*e);
                let kc = self.ar.c(k, w);
                let eq = self.ar.cmp(Cmp::Eq, *e, kc);
                let r = self.decide(st, eq)?;
                debug_assert!(r);
                Ok(k)
            }
            A(_) => Err(Ev::Unsupported("concretize aggregate".into())),
        }
    }

    // ---------- arithmetic on values ----------
    fn vbin(&mut self, op: Op, w: u16, a: &Val, b: &Val) -> Val {
        if let (C(x), C(y)) = (a, b) { return C(cop(op, w, *x, *y)); }
        if let (A(x), A(y)) = (a, b) { return A(Rc::new((0..x.len()).map(|i| self.vbin(op, w, &x[i], &y[i])).collect())); }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.ar.bin(op, x, y);
        self.norm(r)
    }
    fn vcmp(&mut self, p: &str, w: u16, a: &Val, b: &Val) -> Val {
        if let (A(x), A(y)) = (a, b) { return A(Rc::new((0..x.len()).map(|i| self.vcmp(p, w, &x[i], &y[i])).collect())); }
        let (c, swap, neg) = match p {
            "eq" => (Cmp::Eq, false, false), "ne" => (Cmp::Eq, false, true),
            "ult" => (Cmp::Ult, false, false), "ule" => (Cmp::Ule, false, false), "ugt" => (Cmp::Ult, true, false), "uge" => (Cmp::Ule, true, false),
            "slt" => (Cmp::Slt, false, false), "sle" => (Cmp::Sle, false, false), "sgt" => (Cmp::Slt, true, false), "sge" => (Cmp::Sle, true, false),
            _ => panic!("pred {}", p),
        };
        let (a, b) = if swap { (b, a) } else { (a, b) };
        if let (C(x), C(y)) = (a, b) { return C((ccmp(c, w, *x, *y) != neg) as u128); }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let mut r = self.ar.cmp(c, x, y);
        if neg { r = self.ar.not(r); }
        self.norm(r)
    }
    fn vf(&mut self, op: FOp, w: u16, aw: u16, a: &Val, b: &Val) -> Val {
        if let (A(x), A(y)) = (a, b) { return A(Rc::new((0..x.len()).map(|i| self.vf(op, w, aw, &x[i], &y[i])).collect())); }
        if let (C(x), C(y)) = (a, b) { return C(cfop(op, w, aw, *x, *y)); }
        let (x, y) = (self.e(a, aw), self.e(b, aw));
        let r = self.ar.f(op, w, x, y);
        self.norm(r)
    }
    fn vfcmp(&mut self, p: &str, w: u16, a: &Val, b: &Val) -> R<Val> {
        if let (A(x), A(y)) = (a, b) { let mut o = vec![]; for i in 0..x.len() { o.push(self.vfcmp(p, w, &x[i], &y[i])?); } return Ok(A(Rc::new(o))); }
        let base = |s: &mut Self, op: FOp, a: &Val, b: &Val| s.vf(op, 1, w, a, b);
        let r = match p {
            "oeq" => base(self, FOp::Oeq, a, b),
            "olt" => base(self, FOp::Olt, a, b),
            "ogt" => base(self, FOp::Olt, b, a),
            "ole" => base(self, FOp::Ole, a, b),
            "oge" => base(self, FOp::Ole, b, a),
            "uno" => base(self, FOp::Uno, a, b),
            "ord" => { let x = base(self, FOp::Uno, a, b); self.vnot(&x) }
            "une" => { let x = base(self, FOp::Oeq, a, b); self.vnot(&x) }
            "ult" => { let x = base(self, FOp::Ole, b, a); self.vnot(&x) }
            "ule" => { let x = base(self, FOp::Olt, b, a); self.vnot(&x) }
            "ugt" => { let x = base(self, FOp::Ole, a, b); self.vnot(&x) }
            "uge" => { let x = base(self, FOp::Olt, a, b); self.vnot(&x) }
            "ueq" => { let x = base(self, FOp::Oeq, a, b); let y = base(self, FOp::Uno, a, b); self.vbin(Op::Or, 1, &x, &y) }
            "one" => { let x = base(self, FOp::Olt, a, b); let y = base(self, FOp::Olt, b, a); self.vbin(Op::Or, 1, &x, &y) }
            _ => return Err(Ev::Unsupported(format!("fcmp {}", p))),
        };
        Ok(r)
    }
    fn vnot(&mut self, a: &Val) -> Val { self.vbin(Op::Xor, 1, a, &C(1)) }
    fn vite(&mut self, c: &Val, w: u16, a: &Val, b: &Val) -> Val {
        match c {
            C(k) => if *k != 0 { a.clone() } else { b.clone() },
            S(ce) => {
                if let (A(x), A(y)) = (a, b) { return A(Rc::new((0..x.len()).map(|i| { let w = self.wof(&x[i], &y[i], w); self.vite(c, w, &x[i], &y[i]) }).collect())); }
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.ar.ite(*ce, x, y);
                self.norm(r)
            }
            _ => panic!(),
        }
    }
    fn wof(&self, a: &Val, b: &Val, d: u16) -> u16 { if let S(e) = a { self.ar.w(*e) } else if let S(e) = b { self.ar.w(*e) } else { d } }
    fn zext_val(&mut self, v: &Val, w: u16) -> Val { match v { C(c) => C(*c), S(e) => { let x = self.ar.zext(*e, w); self.norm(x) } A(x) => A(Rc::new(x.iter().map(|y| self.zext_val(y, w)).collect())) } }
    fn sext_val(&mut self, v: &Val, fw: u16, w: u16) -> Val { match v { C(c) => C(sext(*c, fw) as u128 & mask(w)), S(e) => { let x = self.ar.sext(*e, w); self.norm(x) } A(x) => A(Rc::new(x.iter().map(|y| self.sext_val(y, fw, w)).collect())) } }
    fn trunc_val(&mut self, v: &Val, w: u16) -> Val { match v { A(x) => A(Rc::new(x.iter().map(|y| self.trunc_val(y, w)).collect())), _ => self.extract_val(v, 0, w) } }
    fn flatten(&mut self, v: &Val, t: &Ty) -> Val {
        match (v, t) {
            (A(x), Ty::Vector(_, e)) => {
                let w = e.bits();
                let mut parts = vec![];
                for y in x.iter() { parts.push(self.e(y, w)); }
                let r = self.ar.cat(&parts);
                self.norm(r)
            }
            _ => v.clone(),
        }
    }
    fn unflatten(&mut self, v: &Val, t: &Ty) -> Val {
        if let Ty::Vector(n, e) = t {
            let w = e.bits();
            A(Rc::new((0..*n).map(|i| self.extract_val(v, i as u16 * w, w)).collect()))
        } else { v.clone() }
    }

    fn stack_trace(&self, st: &State) -> String {
        let mut v: Vec<String> = vec![];
        for f in st.frames.iter().rev().take(14) { v.push(short(&f.f.name)); }
        v.join(" < ")
    }
    pub fn trace_of(&self, st: &State) -> String { self.stack_trace(st) }
    pub fn observed_bytes(&mut self, st: &State) -> Vec<u8> {
        let obs = st.observed.clone();
        self.ar.eval_begin();
        let m = st.model.clone();
        obs.iter().map(|(v, _)| match v { C(c) => *c as u8, S(e) => self.ar.eval(*e, &m) as u8, _ => 0 }).collect()
    }

    /// run one state until it terminates; forks are pushed on self.work
    pub fn run(&mut self, st: &mut State, budget: u64) -> Option<Ev> {
        let mut n = 0;
        loop {
            if n >= budget { return None; }
            n += 1;
            self.steps += 1;
            st.steps += 1;
            if st.steps > self.opts.max_steps { return Some(Ev::Loop(format!("no termination within {} instructions; {}", self.opts.max_steps, self.stack_trace(st)))); }
            match self.step(st) {
                Ok(false) => {}
                Ok(true) => return Some(Ev::Ok),
                Err(e) => return Some(e),
            }
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let fi = st.frames.len() - 1;
        let fr = &mut st.frames[fi];
        let from = fr.block;
        fr.prev = from;
        fr.block = to;
        fr.ip = 0;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let o = inc.iter().find(|(p, _)| *p == from).map(|x| &x.1).expect("phi pred");
                vals.push((*d, self.get(&st.frames[fi], o)));
            }
            let fr = &mut st.frames[fi];
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
    }

    fn addr_candidates(&mut self, st: &mut State, v: &Val, n: u64) -> R<Result<u64, (E, u64, Rc<Obj>)>> {
        // Ok(concrete) or Err((offset expr, base, obj)) for a symbolic offset known to stay inside one object
        let e = match v { C(c) => return Ok(Ok(u(*c))), S(e) => *e, _ => return Err(Ev::Unsupported("agg ptr".into())) };
        let k = u(self.ev(st, e));
        let base = k & !0xffff_ffff;
        let r = self.obj(st, k);
        let (o, _) = match r { Ok(x) => x, Err(_) => { let k = self.conc(st, v)?; return Ok(Ok(u(k))); } };
        if (o.data.len() as u64) < n { let k = self.conc(st, v)?; return Ok(Ok(u(k))); }
        let hi = base + o.data.len() as u64 - n;
        let (bc, hc) = (self.ar.c(base as u128, 64), self.ar.c(hi as u128, 64));
        let a = self.ar.cmp(Cmp::Ule, bc, e);
        let b = self.ar.cmp(Cmp::Ule, e, hc);
        let inb = self.ar.bin(Op::And, a, b);
        if !self.decide(st, inb)? {
            let k = self.conc(st, v)?;
            return Ok(Ok(u(k)));
        }
        let off = self.ar.bin(Op::Sub, e, bc);
        if let Some(c) = self.ar.cv(off) { return Ok(Ok(base + c as u64)); }
        Ok(Err((off, base, o)))
    }
    fn sym_load(&mut self, st: &mut State, v: &Val, t: &Ty) -> R<Val> {
        let n = t.size();
        if !matches!(t, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) || t.bits() % 8 != 0 { let k = self.conc(st, v)?; return self.load(st, u(k), t); }
        match self.addr_candidates(st, v, n)? {
            Ok(a) => self.load(st, a, t),
            Err((off, _base, o)) => {
                // alignment of the offset
                let mut tz = 0;
                if let Node::Cat(p) = self.ar.n(off) { if let Some(0) = self.ar.cv(p[0]) { tz = self.ar.w(p[0]); } }
                let stride = 1u64 << tz.min(16);
                let size = o.data.len() as u64;
                if *t == Ty::Ptr || size / stride > 1100 || size < n {
                    let k = self.conc(st, v)?;
                    return self.load(st, u(k), t);
                }
                // range restriction from interval analysis
                let (rl, rh) = self.ar.range[off as usize];
                let mut items: Vec<(u64, E)> = vec![];
                let mut x = 0;
                while x + n <= size {
                    if x as u128 >= rl && x as u128 <= rh {
                        let val = self.obj_load_int(&o, x as usize, n as usize);
                        let e = self.e(&val, t.bits());
                        items.push((x, e));
                    }
                    x += stride;
                }
                // run-length ite chain over offset upper bounds
                let mut runs: Vec<(u64, E)> = vec![]; // (last offset, value)
                for (x, e) in items { if let Some(l) = runs.last_mut() { if l.1 == e { l.0 = x; continue; } } runs.push((x, e)); }
                let mut acc = runs.last().unwrap().1;
                for (x, e) in runs.iter().rev().skip(1) {
                    let xc = self.ar.c(*x as u128, 64);
                    let c = self.ar.cmp(Cmp::Ule, off, xc);
                    acc = self.ar.ite(c, *e, acc);
                }
                Ok(self.norm(acc))
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<bool> {
        let fi = st.frames.len() - 1;
        let f = st.frames[fi].f.clone();
        let (bi, ip) = (st.frames[fi].block as usize, st.frames[fi].ip);
        let inst = &f.blocks[bi].insts[ip];
        if self.opts.trace { eprintln!("{} b{} {}: {:?}", short(&f.name), bi, ip, inst); }
        macro_rules! get { ($o:expr) => { self.get(&st.frames[fi], $o) } }
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; st.frames[fi].regs[*$d as usize] = v; }} }
        match inst {
            Inst::Bin(d, op, t, a, b) => {
                let (x, y) = (get!(a), get!(b));
                let w = elem_bits(t);
                if w > 128 {
                    // division of a u128 by 10^16 by multiplication, as LLVM writes it; values of 256 bits are kept in 128
                    match (op, &y) {
                        (Op::Mul, C(76624777043294442917917351357515459181)) => { set!(d, x); }
                        (Op::LShr, C(179)) => { let r = self.vbin(Op::UDiv, 128, &x, &C(10_000_000_000_000_000)); set!(d, r); }
                        _ => return Err(Ev::Unsupported(format!("{:?} of {} bits", op, w))),
                    }
                    st.frames[fi].ip += 1;
                    return Ok(false);
                }
                if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                    if let C(0) = y { return Err(Ev::Panic("division by zero (undefined behaviour)".into())); }
                }
                set!(d, self.vbin(*op, w, &x, &y));
            }
            Inst::FBin(d, op, t, a, b) => { let (x, y) = (get!(a), get!(b)); let w = elem_bits(t); set!(d, self.vf(*op, w, w, &x, &y)); }
            Inst::FNeg(d, t, a) => { let x = get!(a); let w = elem_bits(t); let k = match &x { A(v) => A(Rc::new(vec![C(1u128 << (w - 1)); v.len()])), _ => C(1u128 << (w - 1)) }; set!(d, self.vbin(Op::Xor, w, &x, &k)); }
            Inst::ICmp(d, p, t, a, b) => { let (x, y) = (get!(a), get!(b)); set!(d, self.vcmp(p, elem_bits(t), &x, &y)); }
            Inst::FCmp(d, p, t, a, b) => {
                let (x, y) = (get!(a), get!(b));
                match p.as_str() { "true" => set!(d, C(1)), "false" => set!(d, C(0)), _ => { let r = self.vfcmp(p, elem_bits(t), &x, &y)?; set!(d, r) } }
            }
            Inst::Cast(d, op, t1, t2, a) => {
                let x = get!(a);
                let (w1, w2) = (elem_bits(t1).min(128), elem_bits(t2).min(128));
                let r = match op {
                    CastOp::Trunc => self.trunc_val(&x, w2),
                    CastOp::ZExt => self.zext_val(&x, w2),
                    CastOp::SExt => self.sext_val(&x, w1, w2),
                    CastOp::BitCast => { let y = self.flatten(&x, t1); self.unflatten(&y, t2) }
                    CastOp::PtrInt => if w2 < w1 { self.trunc_val(&x, w2) } else { self.zext_val(&x, w2) },
                    CastOp::FpTrunc | CastOp::FpExt => self.vf(FOp::Conv, w2, w1, &x, &x),
                    CastOp::FpToUi => self.vf(FOp::ToUi, w2, w1, &x, &x),
                    CastOp::FpToSi => self.vf(FOp::ToSi, w2, w1, &x, &x),
                    CastOp::UiToFp => self.vf(FOp::FromUi, w2, w1, &x, &x),
                    CastOp::SiToFp => self.vf(FOp::FromSi, w2, w1, &x, &x),
                };
                set!(d, r);
            }
            Inst::Select(d, tc, c, t, a, b) => {
                let (cv, x, y) = (get!(c), get!(a), get!(b));
                if tc.lanes().is_some() {
                    if let (A(cs), A(xs), A(ys)) = (&cv, &x, &y) {
                        let w = elem_bits(t);
                        let r = (0..cs.len()).map(|i| self.vite(&cs[i], w, &xs[i], &ys[i])).collect();
                        set!(d, A(Rc::new(r)));
                    }
                } else {
                    match &cv {
                        C(k) => set!(d, if *k != 0 { x } else { y }),
                        S(ce) => {
                            let is_ptr = *t == Ty::Ptr && !same(&x, &y);
                            if is_ptr || matches!(t, Ty::Struct(..)) {
                                let k = self.decide(st, *ce)?;
                                set!(d, if k { x } else { y });
                            } else { let w = elem_bits(t); set!(d, self.vite(&cv, w, &x, &y)); }
                        }
                        _ => return Err(Ev::Unsupported("select".into())),
                    }
                }
            }
            Inst::Load(d, t, p) => {
                let a = get!(p);
                let v = match &a { C(k) => self.load(st, u(*k), t)?, _ => self.sym_load(st, &a, t)? };
                set!(d, v);
            }
            Inst::Store(t, v, p) => {
                let (x, a) = (get!(v), get!(p));
                let k = self.conc(st, &a)?;
                self.store(st, u(k), t, &x)?;
            }
            Inst::Gep(d, base, off, idx) => {
                let mut a = get!(base);
                if *off != 0 { a = self.vbin(Op::Add, 64, &a, &C(*off as u128)); }
                for (o, w, scale) in idx {
                    let mut v = get!(o);
                    if *w < 64 { v = self.sext_val(&v, *w, 64); }
                    if *scale != 1 { v = self.vbin(Op::Mul, 64, &v, &C(*scale as u128)); }
                    a = self.vbin(Op::Add, 64, &a, &v);
                }
                set!(d, a);
            }
            Inst::Alloca(d, sz, n, _al) => {
                let k = get!(n);
                let k = self.conc(st, &k)?;
                let a = st.mem.salloc((*sz * u(k)) as usize);
                set!(d, C(a as u128));
            }
            Inst::Br(t) => { self.jump(st, *t); return Ok(false); }
            Inst::CondBr(c, t, e) => {
                let k = match get!(c) { C(k) => k != 0, S(x) => self.decide(st, x)?, _ => return Err(Ev::Unsupported("br".into())) };
                self.jump(st, if k { *t } else { *e });
                return Ok(false);
            }
            Inst::Switch(w, v, def, cs) => {
                let x = get!(v);
                let k = match &x {
                    C(k) => *k,
                    S(e) => {
                        // fork per target, not per value
                        let k = self.ev(st, *e);
                        let tgt = cs.iter().find(|(c, _)| *c == k).map(|c| c.1).unwrap_or(*def);
                        let mut cond = None;
                        if tgt == *def {
                            // none of the cases leading elsewhere
                            for (c, l) in cs { if *l != *def {
                                let kc = self.ar.c(*c, *w);
                                let q = self.ar.cmp(Cmp::Eq, *e, kc);
                                let nq = self.ar.not(q);
                                cond = Some(match cond { None => nq, Some(o) => self.ar.bin(Op::And, o, nq) });
                            } }
                        } else {
                            for (c, l) in cs { if *l == tgt {
                                let kc = self.ar.c(*c, *w);
                                let q = self.ar.cmp(Cmp::Eq, *e, kc);
                                cond = Some(match cond { None => q, Some(o) => self.ar.bin(Op::Or, o, q) });
                            } }
                        }
                        if let Some(c) = cond { let r = self.decide(st, c)?; debug_assert!(r); }
                        self.jump(st, tgt);
                        return Ok(false);
                    }
                    _ => return Err(Ev::Unsupported("switch".into())),
                };
                let tgt = cs.iter().find(|(c, _)| *c == k).map(|c| c.1).unwrap_or(*def);
                self.jump(st, tgt);
                return Ok(false);
            }
            Inst::Ret(v) => {
                let r = v.as_ref().map(|(_, o)| get!(o));
                let fr = st.frames.pop().unwrap();
                st.mem.stack.truncate(fr.stack_base);
                if st.frames.is_empty() { return Ok(true); }
                let pf = st.frames.len() - 1;
                if let (Some(d), Some(v)) = (fr.ret, r) { st.frames[pf].regs[d as usize] = v; }
                if let Some(c) = fr.cont { self.jump(st, c); } else { st.frames[pf].ip += 1; }
                return Ok(false);
            }
            Inst::Unreachable => return Err(Ev::Abort(format!("reached unreachable code; {}", self.stack_trace(st)))),
            Inst::ExtractValue(d, a, ix) => {
                let mut v = get!(a);
                for i in ix { v = match v { A(x) => x[*i as usize].clone(), o => o }; }
                set!(d, v);
            }
            Inst::InsertValue(d, _t, a, v, ix) => { let (x, y) = (get!(a), get!(v)); set!(d, insert(&x, &y, ix)); }
            Inst::ExtractElement(d, a, i) => {
                let (x, k) = (get!(a), get!(i));
                let k = self.conc(st, &k)?;
                if let A(x) = x { set!(d, x[k as usize].clone()); }
            }
            Inst::InsertElement(d, _t, a, v, i) => {
                let (x, y, k) = (get!(a), get!(v), get!(i));
                let k = self.conc(st, &k)?;
                set!(d, insert(&x, &y, &[k as u32]));
            }
            Inst::Shuffle(d, a, b, mk, n) => {
                let (x, y) = (get!(a), get!(b));
                if let (A(x), A(y)) = (x, y) {
                    let r = mk.iter().map(|&i| if (i as u64) < *n { x[i as usize].clone() } else { y[(i as u64 - n) as usize].clone() }).collect();
                    set!(d, A(Rc::new(r)));
                }
            }
            Inst::AtomicRmw(d, op, t, p, v) => {
                let (a, x) = (get!(p), get!(v));
                let a = u(self.conc(st, &a)?);
                let old = self.load(st, a, t)?;
                let w = t.bits();
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" => self.vbin(Op::Add, w, &old, &x),
                    "sub" => self.vbin(Op::Sub, w, &old, &x),
                    "and" => self.vbin(Op::And, w, &old, &x),
                    "or" => self.vbin(Op::Or, w, &old, &x),
                    "xor" => self.vbin(Op::Xor, w, &old, &x),
                    "umax" => { let c = self.vcmp("ugt", w, &old, &x); self.vite(&c, w, &old, &x) }
                    "umin" => { let c = self.vcmp("ult", w, &old, &x); self.vite(&c, w, &old, &x) }
                    "max" => { let c = self.vcmp("sgt", w, &old, &x); self.vite(&c, w, &old, &x) }
                    "min" => { let c = self.vcmp("slt", w, &old, &x); self.vite(&c, w, &old, &x) }
                    "nand" => { let y = self.vbin(Op::And, w, &old, &x); self.vbin(Op::Xor, w, &y, &C(mask(w))) }
                    _ => return Err(Ev::Unsupported(format!("atomicrmw {}", op))),
                };
                self.store(st, a, t, &new)?;
                set!(d, old);
            }
            Inst::CmpXchg(d, t, p, c, n) => {
                let (a, c, n) = (get!(p), get!(c), get!(n));
                let a = u(self.conc(st, &a)?);
                let old = self.load(st, a, t)?;
                let w = t.bits();
                let eq = self.vcmp("eq", w, &old, &c);
                let k = match &eq { C(k) => *k != 0, S(x) => self.decide(st, *x)?, _ => false };
                if k { self.store(st, a, t, &n)?; }
                set!(d, A(Rc::new(vec![old, C(k as u128)])));
            }
            Inst::Freeze(d, _, a) => { let x = get!(a); set!(d, x); }
            Inst::Nop => {}
            Inst::Unsupported(s) => return Err(Ev::Unsupported(s.clone())),
            Inst::Call(d, rt, callee, args, cont) => {
                let target = match callee {
                    Callee::Fn(id) => *id,
                    Callee::Reg(o) => {
                        let v = get!(o);
                        let k = u(self.conc(st, &v)?);
                        if k < FN_BASE || (k - FN_BASE) >> 8 >= self.m.fnames.len() as u64 || k & 0xff != 0 { return Err(Ev::Mem(format!("call through invalid pointer {:#x}", k))); }
                        ((k - FN_BASE) >> 8) as u32
                    }
                    Callee::Asm(s) => {
                        if s.contains("cpuid") { set!(&d.unwrap(), A(Rc::new(vec![C(0); 4]))); }
                        else if s.contains("xgetbv") { set!(&d.unwrap(), A(Rc::new(vec![C(0); 2]))); }
                        else if d.is_some() { return Err(Ev::Unsupported(format!("asm {}", s))); }
                        st.frames[fi].ip += 1;
                        return Ok(false);
                    }
                    Callee::Intr(n) => {
                        let vals: Vec<Val> = args.iter().map(|(_, o)| get!(o)).collect();
                        let r = self.intrinsic(st, n, rt, args, &vals)?;
                        if let (Some(d), Some(v)) = (d, r) { st.frames[fi].regs[*d as usize] = v; }
                        if let Some(c) = cont { self.jump(st, *c); } else { st.frames[fi].ip += 1; }
                        return Ok(false);
                    }
                };
                let vals: Vec<Val> = args.iter().map(|(_, o)| get!(o)).collect();
                match self.kind(target) {
                    FK::Body => {
                        if st.frames.len() > 3000 { return Err(Ev::Abort(format!("stack overflow (recursion deeper than 3000 frames); {}", self.stack_trace(st)))); }
                        let f = self.m.func(target).unwrap();
                        self.push_frame(st, f, vals, *d, *cont);
                        return Ok(false);
                    }
                    FK::Panic => { let n = short(&self.m.fnames[target as usize]); return Err(Ev::Panic(format!("panic via {}; {}", n, self.stack_trace(st)))); }
                    FK::AllocErr => return Err(Ev::Alloc(format!("allocation failure; {}", self.stack_trace(st)))),
                    FK::Ext(x) => {
                        let r = self.external(st, x, target, &vals)?;
                        if let (Some(d), Some(v)) = (d, r) { st.frames[fi].regs[*d as usize] = v; }
                        if let Some(c) = cont { self.jump(st, *c); return Ok(false); }
                    }
                }
            }
        }
        st.frames[fi].ip += 1;
        Ok(false)
    }

    fn kind(&mut self, id: u32) -> FK {
        if let Some(k) = self.fk[id as usize] { return k; }
        let n = self.m.fnames[id as usize].clone();
        let ext = match n.as_str() {
            "malloc" => Ext::Malloc, "calloc" => Ext::Calloc, "realloc" => Ext::Realloc, "free" => Ext::Free,
            "posix_memalign" => Ext::PosixMemalign, "aligned_alloc" => Ext::AlignedAlloc,
            "bcmp" => Ext::Bcmp, "memcmp" => Ext::Memcmp, "strlen" => Ext::Strlen, "memcpy" => Ext::Memcpy, "memmove" => Ext::Memmove, "memset" => Ext::Memset,
            "memchr" => Ext::Memchr,
            "sym_bytes" => Ext::SymBytes, "sym_assume" => Ext::SymAssume, "sym_fail" => Ext::SymFail, "sym_reach" => Ext::SymReach, "sym_observe" => Ext::SymObserve, "sym_concretize" => Ext::SymConcretize, "sym_is_symbolic" => Ext::SymIsSymbolic, "sym_live" => Ext::SymLive, "sym_assert" => Ext::SymAssert, "sym_param" => Ext::SymParam, "gethostname" => Ext::Gethostname,
            "getrandom" => Ext::Getrandom, "clock_gettime" => Ext::ClockGettime, "abort" => Ext::Abort, "exit" | "_exit" => Ext::Exit,
            "__errno_location" => Ext::ErrnoLoc, "getenv" => Ext::Getenv, "write" => Ext::Write, "sysconf" => Ext::Sysconf, "syscall" => Ext::Syscall, "gettid" | "getpid" => Ext::GetTid,
            "pthread_mutex_lock" | "pthread_mutex_unlock" | "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_create" | "sched_yield" | "close" | "pthread_getspecific" | "nanosleep" | "poll" => Ext::RetZero,
            "open" | "open64" | "readlink" | "isatty" | "stat64" | "getcwd" => Ext::RetMinus1,
            _ => Ext::None,
        };
        let k = if ext != Ext::None && !(self.m.has_body(id) && matches!(ext, Ext::None)) { FK::Ext(ext) }
        else if is_panic(&n) { FK::Panic }
        else if n.contains("18handle_alloc_error") || n.contains("_alloc_error_handler") || n.contains("rust_oom") { FK::AllocErr }
        else if n.contains("9panicking") && n.contains("3std9panicking") { FK::Panic }
        else if self.m.has_body(id) { FK::Body }
        else { FK::Ext(Ext::None) };
        self.fk[id as usize] = Some(k);
        k
    }

    fn bytes_eq(&mut self, a: &[Val], b: &[Val]) -> E {
        let mut acc = self.ar.c(1, 1);
        for k in (0..a.len()).step_by(8) {
            let e = (k + 8).min(a.len());
            let x: Vec<E> = a[k..e].iter().map(|v| self.e(v, 8)).collect();
            let y: Vec<E> = b[k..e].iter().map(|v| self.e(v, 8)).collect();
            let (x, y) = (self.ar.cat(&x), self.ar.cat(&y));
            let q = self.ar.cmp(Cmp::Eq, x, y);
            acc = self.ar.bin(Op::And, acc, q);
            if self.ar.cv(acc) == Some(0) { break; }
        }
        acc
    }
    fn str_arg(&mut self, st: &State, p: u64, n: u64) -> String {
        match self.read_bytes(st, p, n) {
            Ok(b) => { self.ar.eval_begin(); let m = st.model.clone(); let v: Vec<u8> = b.iter().map(|v| match v { C(c) => *c as u8, S(e) => self.ar.eval(*e, &m) as u8, _ => b'?' }).collect(); String::from_utf8_lossy(&v).into_owned() }
            Err(_) => "?".into(),
        }
    }
    fn malloc(&mut self, st: &mut State, n: u64, fill: u8) -> R<u64> {
        if n > self.opts.alloc_limit { return Err(Ev::Alloc(format!("allocation of {} bytes (limit {}); {}", n, self.opts.alloc_limit, self.stack_trace(st)))); }
        Ok(st.mem.alloc(n as usize, fill))
    }
    fn external(&mut self, st: &mut State, x: Ext, id: u32, a: &[Val]) -> R<Option<Val>> {
        // concretize scalar args first (all forks happen before any mutation)
        macro_rules! k { ($i:expr) => { u(self.conc(st, &a[$i])?) } }
        Ok(Some(match x {
            Ext::Malloc => { let n = k!(0); C(self.malloc(st, n, 0xA5)? as u128) }
            Ext::Calloc => { let (n, m) = (k!(0), k!(1)); let t = n.checked_mul(m).unwrap_or(u64::MAX); C(self.malloc(st, t, 0)? as u128) }
            Ext::AlignedAlloc => { let n = k!(1); C(self.malloc(st, n, 0xA5)? as u128) }
            Ext::PosixMemalign => { let (p, n) = (k!(0), k!(2)); let q = self.malloc(st, n, 0xA5)?; self.store(st, p, &Ty::Ptr, &C(q as u128))?; C(0) }
            Ext::Realloc => {
                let (p, n) = (k!(0), k!(1));
                let q = self.malloc(st, n, 0xA5)?;
                if p != 0 {
                    let (o, off) = self.obj(st, p)?;
                    if off != 0 { return Err(Ev::Mem("realloc of interior pointer".into())); }
                    let m = (o.data.len() as u64).min(n);
                    drop(o);
                    self.copy(st, q, p, m)?;
                    self.free(st, p)?;
                }
                C(q as u128)
            }
            Ext::Free => { let p = k!(0); self.free(st, p)?; return Ok(None); }
            Ext::Bcmp | Ext::Memcmp => {
                let (p, q, n) = (k!(0), k!(1), k!(2));
                let (x, y) = (self.read_bytes(st, p, n)?, self.read_bytes(st, q, n)?);
                if x.iter().chain(y.iter()).all(|v| matches!(v, C(_))) {
                    let f = |v: &[Val]| v.iter().map(|x| if let C(c) = x { *c as u8 } else { 0 }).collect::<Vec<u8>>();
                    let r = match f(&x).cmp(&f(&y)) { std::cmp::Ordering::Less => -1i32, std::cmp::Ordering::Equal => 0, _ => 1 };
                    C(r as u32 as u128)
                } else if x_is_bcmp(x.len(), matches!(self.fk[id as usize], Some(FK::Ext(Ext::Bcmp)))) {
                    let e = self.bytes_eq(&x, &y);
                    let (z, o) = (self.ar.c(0, 32), self.ar.c(1, 32));
                    let r = self.ar.ite(e, z, o);
                    self.norm(r)
                } else {
                    let mut r = self.ar.c(0, 32);
                    let (m1, p1) = (self.ar.c(0xffff_ffff, 32), self.ar.c(1, 32));
                    for i in (0..x.len()).rev() {
                        let (s, t) = (self.e(&x[i], 8), self.e(&y[i], 8));
                        let eq = self.ar.cmp(Cmp::Eq, s, t);
                        let lt = self.ar.cmp(Cmp::Ult, s, t);
                        let d = self.ar.ite(lt, m1, p1);
                        r = self.ar.ite(eq, r, d);
                    }
                    self.norm(r)
                }
            }
            Ext::Memchr => {
                let (p, n) = (k!(0), k!(2));
                let b = self.read_bytes(st, p, n)?;
                let c = self.trunc_val(&a[1], 8);
                let mut res = C(0);
                for (i, v) in b.iter().enumerate() {
                    let q = self.vcmp("eq", 8, v, &c);
                    let t = match q { C(k) => k != 0, S(e) => self.decide(st, e)?, _ => false };
                    if t { res = C((p + i as u64) as u128); break; }
                }
                res
            }
            Ext::Strlen => {
                let p = k!(0);
                let mut n = 0;
                loop {
                    let v = self.load(st, p + n, &Ty::Int(8))?;
                    if self.conc(st, &v)? == 0 { break; }
                    n += 1;
                }
                C(n as u128)
            }
            Ext::Memcpy | Ext::Memmove => { let (d, s, n) = (k!(0), k!(1), k!(2)); self.copy(st, d, s, n)?; C(d as u128) }
            Ext::Memset => { let (d, n) = (k!(0), k!(2)); let v = self.trunc_val(&a[1], 8); self.memset(st, d, &v, n)?; C(d as u128) }
            Ext::SymBytes => {
                let (p, n) = (k!(0), k!(1));
                for i in 0..n {
                    let id = st.nvars;
                    st.nvars += 1;
                    let v = self.ar.var(id);
                    self.store(st, p + i, &Ty::Int(8), &S(v))?;
                }
                return Ok(None);
            }
            Ext::SymAssume => {
                let v = self.trunc_val(&a[0], 1);
                match v {
                    C(0) => return Err(Ev::Killed),
                    C(_) => {}
                    S(e) => match self.sat(st, e, false)? {
                        None => return Err(Ev::Killed),
                        Some(m) => { st.model = m; self.add(st, e); }
                    },
                    _ => {}
                }
                return Ok(None);
            }
            Ext::SymAssert => {
                let (p, n) = (k!(1), k!(2));
                match self.trunc_val(&a[0], 1) {
                    C(0) => { let s = self.str_arg(st, p, n); return Err(Ev::Fail(s)); }
                    S(e) => {
                        let ne = self.ar.not(e);
                        match self.sat(st, ne, true)? {
                            None => self.asserts_proved += 1,
                            Some(m) => { st.model = m; self.add(st, ne); let s = self.str_arg(st, p, n); return Err(Ev::Fail(s)); }
                        }
                    }
                    _ => self.asserts_folded += 1,
                }
                return Ok(None);
            }
            Ext::SymParam => {
                let (p, n) = (k!(0), k!(1));
                let s = self.str_arg(st, p, n);
                match self.opts.params.get(&s) { Some(v) => C(*v as u128), None => a[2].clone() }
            }
            Ext::Gethostname => { let p = k!(0); for (i, c) in b"verif-host\0".iter().enumerate() { self.store(st, p + i as u64, &Ty::Int(8), &C(*c as u128))?; } C(0) }
            Ext::SymFail => { let (p, n) = (k!(0), k!(1)); let s = self.str_arg(st, p, n); return Err(Ev::Fail(s)); }
            Ext::SymReach => { let (p, n) = (k!(0), k!(1)); let s = self.str_arg(st, p, n); Rc::make_mut(&mut st.labels).push(s); return Ok(None); }
            Ext::SymObserve => {
                let (p, n) = (k!(0), k!(1));
                let b = self.read_bytes(st, p, n)?;
                Rc::make_mut(&mut st.observed).extend(b.into_iter().map(|v| (v, 8)));
                return Ok(None);
            }
            Ext::SymConcretize => C(k!(0) as u128),
            Ext::SymIsSymbolic => C(matches!(a[0], S(_)) as u128),
            Ext::SymLive => C(st.mem.live as u128),
            Ext::Getrandom => { let (p, n) = (k!(0), k!(1)); for i in 0..n { self.store(st, p + i, &Ty::Int(8), &C((i as u128 * 37 + 11) & 0xff))?; } C(n as u128) }
            Ext::ClockGettime => {
                let p = k!(1);
                st.clock += 1000;
                let (s, ns) = (1_000_000 + st.clock / 1_000_000_000, st.clock % 1_000_000_000);
                self.store(st, p, &Ty::Int(64), &C(s as u128))?;
                self.store(st, p + 8, &Ty::Int(64), &C(ns as u128))?;
                C(0)
            }
            Ext::Abort => return Err(Ev::Abort(format!("abort; {}", self.stack_trace(st)))),
            Ext::Exit => return Err(Ev::Abort("exit".into())),
            Ext::RetZero => C(0),
            Ext::RetMinus1 => C(0xffff_ffff),
            Ext::ErrnoLoc => C(self.errno as u128),
            Ext::Getenv => C(0),
            Ext::Write => C(k!(2) as u128),
            Ext::Sysconf => C(4096),
            Ext::GetTid => C(77),
            Ext::Syscall => {
                let n = k!(0);
                if n == 318 { let (p, m) = (k!(1), k!(2)); for i in 0..m { self.store(st, p + i, &Ty::Int(8), &C((i as u128 * 37 + 11) & 0xff))?; } C(m as u128) }
                else if n == 202 { C(0) }
                else if n == 186 { C(77) }
                else { return Err(Ev::Unsupported(format!("syscall {}", n))); }
            }
            Ext::Isatty => C(0),
            Ext::Lz4Stub | Ext::None => return Err(Ev::Unsupported(format!("external function {}; {}", self.m.fnames[id as usize], self.stack_trace(st)))),
        }))
    }
    fn memset(&mut self, st: &mut State, d: u64, v: &Val, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        {
            let (o, off) = self.obj(st, d)?;
            self.chk(&o, off, n, "write (memset)")?;
        }
        let (o, off) = self.obj_mut(st, d)?;
        let (s, e) = (off as usize, (off + n) as usize);
        match v {
            C(c) => { for b in &mut o.data[s..e] { *b = *c as u8; } if !o.sym.is_empty() { for x in &mut o.sym[s..e] { *x = NOSYM; } } }
            S(x) => { o.ensure_sym(); for y in &mut o.sym[s..e] { *y = *x; } }
            _ => {}
        }
        Ok(())
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, rt: &Ty, args: &[(Ty, Opd)], a: &[Val]) -> R<Option<Val>> {
        let base = n.strip_prefix("llvm.").unwrap();
        macro_rules! is { ($s:expr) => { base.starts_with($s) } }
        if is!("lifetime.") || is!("assume") || is!("experimental.noalias") || is!("dbg.") || is!("prefetch") || is!("invariant.") || is!("x86.sse2.pause") || is!("donothing") || is!("sideeffect") { return Ok(None); }
        let w = elem_bits(rt);
        if is!("memcpy") || is!("memmove") {
            let (d, s, k) = (u(self.conc(st, &a[0])?), u(self.conc(st, &a[1])?), u(self.conc(st, &a[2])?));
            self.copy(st, d, s, k)?;
            return Ok(None);
        }
        if is!("memset") {
            let (d, k) = (u(self.conc(st, &a[0])?), u(self.conc(st, &a[2])?));
            self.memset(st, d, &a[1], k)?;
            return Ok(None);
        }
        if is!("expect") || is!("threadlocal.address") || is!("launder.invariant") || is!("strip.invariant") || is!("ssa.copy") { return Ok(Some(a[0].clone())); }
        if is!("is.constant") || is!("objectsize") { return Ok(Some(C(0))); }
        if is!("trap") || is!("ubsantrap") || is!("debugtrap") { return Err(Ev::Abort(format!("trap; {}", self.stack_trace(st)))); }
        // lane-wise
        if rt.lanes().is_some() && !is!("vector.") && !base.contains("with.overflow") {
            if let Some((cnt, et)) = rt.lanes() {
                let mut out = vec![];
                for i in 0..cnt as usize {
                    let la: Vec<Val> = a.iter().map(|v| if let A(x) = v { x[i].clone() } else { v.clone() }).collect();
                    let largs: Vec<(Ty, Opd)> = args.iter().map(|(t, o)| (t.lanes().map(|x| x.1).unwrap_or(t.clone()), o.clone())).collect();
                    out.push(self.intrinsic(st, n, &et, &largs, &la)?.unwrap_or(C(0)));
                }
                return Ok(Some(A(Rc::new(out))));
            }
        }
        if is!("umax") { let c = self.vcmp("ugt", w, &a[0], &a[1]); return Ok(Some(self.vite(&c, w, &a[0], &a[1]))); }
        if is!("umin") { let c = self.vcmp("ult", w, &a[0], &a[1]); return Ok(Some(self.vite(&c, w, &a[0], &a[1]))); }
        if is!("smax") { let c = self.vcmp("sgt", w, &a[0], &a[1]); return Ok(Some(self.vite(&c, w, &a[0], &a[1]))); }
        if is!("smin") { let c = self.vcmp("slt", w, &a[0], &a[1]); return Ok(Some(self.vite(&c, w, &a[0], &a[1]))); }
        if is!("usub.sat") { let c = self.vcmp("ult", w, &a[0], &a[1]); let d = self.vbin(Op::Sub, w, &a[0], &a[1]); return Ok(Some(self.vite(&c, w, &C(0), &d))); }
        if is!("uadd.sat") { let s = self.vbin(Op::Add, w, &a[0], &a[1]); let c = self.vcmp("ult", w, &s, &a[0]); return Ok(Some(self.vite(&c, w, &C(mask(w)), &s))); }
        if is!("sadd.sat") || is!("ssub.sat") {
            let op = if is!("sadd.sat") { Op::Add } else { Op::Sub };
            let (x, y) = (self.sext_val(&a[0], w, w + 1), self.sext_val(&a[1], w, w + 1));
            let s = self.vbin(op, w + 1, &x, &y);
            let mx = mask(w) >> 1;
            let mn = (mask(w + 1) ^ mx) & mask(w + 1);
            let hi = self.vcmp("sgt", w + 1, &s, &C(mx));
            let lo = self.vcmp("slt", w + 1, &s, &C(mn));
            let t = self.trunc_val(&s, w);
            let r = self.vite(&hi, w, &C(mx), &t);
            return Ok(Some(self.vite(&lo, w, &C(mx + 1), &r)));
        }
        if base.contains(".with.overflow") {
            let w = elem_bits(&args[0].0);
            let (op, signed) = match &base[..4] { "uadd" => (Op::Add, false), "sadd" => (Op::Add, true), "usub" => (Op::Sub, false), "ssub" => (Op::Sub, true), "umul" => (Op::Mul, false), _ => (Op::Mul, true) };
            let r = self.vbin(op, w, &a[0], &a[1]);
            let fits = signed && w <= 64 && w >= 16 && {
                let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                match (self.ar.srange(x), self.ar.srange(y)) {
                    (Some(x), Some(y)) => {
                        let (lo, hi) = match op {
                            Op::Add => (Some(x.0 + y.0), Some(x.1 + y.1)),
                            Op::Sub => (Some(x.0 - y.1), Some(x.1 - y.0)),
                            _ => { let c = [x.0.checked_mul(y.0), x.0.checked_mul(y.1), x.1.checked_mul(y.0), x.1.checked_mul(y.1)];
                                if c.iter().any(|v| v.is_none()) { (None, None) } else { (c.iter().map(|v| v.unwrap()).min(), c.iter().map(|v| v.unwrap()).max()) } }
                        };
                        matches!((lo, hi), (Some(lo), Some(hi)) if lo >= -(1i128 << (w - 1)) && hi < 1i128 << (w - 1))
                    }
                    _ => false,
                }
            };
            let ov = if fits { C(0) } else if op == Op::Mul && w > 64 {
                match (&a[0], &a[1]) {
                    (C(x), C(y)) => C((if signed { sext(*x, w).checked_mul(sext(*y, w)).map(|v| w < 128 && (sext(v as u128 & mask(w), w) != v)).unwrap_or(true) } else { x.checked_mul(*y).map(|v| v > mask(w)).unwrap_or(true) }) as u128),
                    _ if !signed => {
                        let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                        if self.ar.range[x as usize].1.checked_mul(self.ar.range[y as usize].1).map(|v| v <= mask(w)).unwrap_or(false) { C(0) }
                        else {
                            // a != 0 && (a*b)/a != b
                            let z = self.vcmp("ne", w, &a[0], &C(0));
                            let q = self.vbin(Op::UDiv, w, &r, &a[0]);
                            let d = self.vcmp("ne", w, &q, &a[1]);
                            self.vbin(Op::And, 1, &z, &d)
                        }
                    }
                    _ => {
                        // signed, wide: both operands representable in w/2 bits => no overflow; otherwise division test
                        let z = self.vcmp("ne", w, &a[1], &C(0));
                        let q = self.vbin(Op::SDiv, w, &r, &a[1]);
                        let d = self.vcmp("ne", w, &q, &a[0]);
                        let t = self.vbin(Op::And, 1, &z, &d);
                        let m1 = self.vcmp("eq", w, &a[1], &C(mask(w)));
                        let mn = self.vcmp("eq", w, &a[0], &C(1u128 << (w - 1)));
                        let s = self.vbin(Op::And, 1, &m1, &mn);
                        self.vbin(Op::Or, 1, &t, &s)
                    }
                }
            } else if op == Op::Mul {
                let (x, y) = if signed { (self.sext_val(&a[0], w, 2 * w), self.sext_val(&a[1], w, 2 * w)) } else { (self.zext_val(&a[0], 2 * w), self.zext_val(&a[1], 2 * w)) };
                let p = self.vbin(Op::Mul, 2 * w, &x, &y);
                if signed { let t = self.trunc_val(&p, w); let t = self.sext_val(&t, w, 2 * w); self.vcmp("ne", 2 * w, &t, &p) }
                else { let h = self.extract_val(&p, w, w); self.vcmp("ne", w, &h, &C(0)) }
            } else if !signed {
                if op == Op::Add { self.vcmp("ult", w, &r, &a[0]) } else { self.vcmp("ult", w, &a[0], &a[1]) }
            } else {
                // sign-bit formula (works at any width)
                let s = |s: &mut Self, v: &Val| s.extract_val(v, w - 1, 1);
                let (sa, sb, sr) = (s(self, &a[0]), s(self, &a[1]), s(self, &r));
                let d1 = self.vbin(Op::Xor, 1, &sa, &sr);
                let d2 = if op == Op::Add { self.vbin(Op::Xor, 1, &sb, &sr) } else { self.vbin(Op::Xor, 1, &sa, &sb) };
                self.vbin(Op::And, 1, &d1, &d2)
            };
            let ov = if op == Op::Add && !signed {
                if let (S(_), _) | (_, S(_)) = (&a[0], &a[1]) {
                    let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                    let (p, q) = (self.ar.range[x as usize].1, self.ar.range[y as usize].1);
                    if p.checked_add(q).map(|v| v <= mask(w)).unwrap_or(false) { C(0) } else { ov }
                } else { ov }
            } else { ov };
            return Ok(Some(A(Rc::new(vec![r, ov]))));
        }
        if is!("bswap") {
            let x = &a[0];
            let mut parts = vec![];
            for i in (0..w / 8).rev() { let b = self.extract_val(x, i * 8, 8); parts.push(self.e(&b, 8)); }
            let e = self.ar.cat(&parts);
            return Ok(Some(self.norm(e)));
        }
        if is!("bitreverse") {
            let mut parts = vec![];
            for i in (0..w).rev() { let b = self.extract_val(&a[0], i, 1); parts.push(self.e(&b, 1)); }
            let e = self.ar.cat(&parts);
            return Ok(Some(self.norm(e)));
        }
        if is!("ctpop") {
            if let C(c) = a[0] { return Ok(Some(C(c.count_ones() as u128))); }
            let mut acc = C(0);
            for i in 0..w { let b = self.extract_val(&a[0], i, 1); let z = self.zext_val(&b, w); acc = self.vbin(Op::Add, w, &acc, &z); }
            return Ok(Some(acc));
        }
        if is!("ctlz") || is!("cttz") {
            if let C(c) = a[0] {
                let r = if is!("ctlz") { c.leading_zeros() - (128 - w as u32) } else { (c.trailing_zeros()).min(w as u32) };
                return Ok(Some(C(r as u128)));
            }
            let mut acc = C(w as u128);
            for i in 0..w {
                let pos = if is!("ctlz") { i } else { w - 1 - i };
                let b = self.extract_val(&a[0], pos, 1);
                let v = if is!("ctlz") { w - 1 - pos } else { pos };
                acc = self.vite(&b, w, &C(v as u128), &acc);
            }
            return Ok(Some(acc));
        }
        if is!("fshl") || is!("fshr") {
            let s = self.vbin(Op::URem, w, &a[2], &C(w as u128));
            let inv = self.vbin(Op::Sub, w, &C(w as u128), &s);
            // shift by w yields 0 in our semantics, which is what fsh needs
            let r = if is!("fshl") { let x = self.vbin(Op::Shl, w, &a[0], &s); let y = self.vbin(Op::LShr, w, &a[1], &inv); self.vbin(Op::Or, w, &x, &y) }
            else { let x = self.vbin(Op::Shl, w, &a[0], &inv); let y = self.vbin(Op::LShr, w, &a[1], &s); self.vbin(Op::Or, w, &x, &y) };
            return Ok(Some(r));
        }
        if is!("abs") {
            let c = self.vcmp("slt", w, &a[0], &C(0));
            let ng = self.vbin(Op::Sub, w, &C(0), &a[0]);
            return Ok(Some(self.vite(&c, w, &ng, &a[0])));
        }
        if is!("ucmp") || is!("scmp") {
            let aw = elem_bits(&args[0].0);
            let p = if is!("ucmp") { "ult" } else { "slt" };
            let (l, g) = (self.vcmp(p, aw, &a[0], &a[1]), self.vcmp(p, aw, &a[1], &a[0]));
            let x = self.vite(&g, w, &C(1), &C(0));
            return Ok(Some(self.vite(&l, w, &C(mask(w)), &x)));
        }
        if is!("fabs") { return Ok(Some(self.vbin(Op::And, w, &a[0], &C(mask(w) >> 1)))); }
        if is!("copysign") {
            let x = self.vbin(Op::And, w, &a[0], &C(mask(w) >> 1));
            let y = self.vbin(Op::And, w, &a[1], &C(1u128 << (w - 1)));
            return Ok(Some(self.vbin(Op::Or, w, &x, &y)));
        }
        if is!("fptosi.sat") || is!("fptoui.sat") {
            let aw = elem_bits(&args[0].0);
            let signed = is!("fptosi.sat");
            if let C(c) = a[0] {
                let f = if aw == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
                let r = if signed { let m = (mask(w) >> 1) as i128; ((f as i128).max(-m - 1).min(m)) as u128 & mask(w) } else { (f as u128).min(mask(w)) };
                return Ok(Some(C(r)));
            }
            let kf = |v: f64| if aw == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 };
            let (lo, hi) = if signed { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) } else { (0.0, 2f64.powi(w as i32)) };
            let nan = self.vfcmp("uno", aw, &a[0], &a[0])?;
            let big = self.vfcmp("oge", aw, &a[0], &C(kf(hi)))?;
            let small = self.vfcmp("ole", aw, &a[0], &C(kf(lo)))?;
            let cv = self.vf(if signed { FOp::ToSi } else { FOp::ToUi }, w, aw, &a[0], &a[0]);
            let r = self.vite(&small, w, &C(if signed { 1u128 << (w - 1) } else { 0 }), &cv);
            let r = self.vite(&big, w, &C(if signed { mask(w) >> 1 } else { mask(w) }), &r);
            return Ok(Some(self.vite(&nan, w, &C(0), &r)));
        }
        if let C(c) = &a.get(0).cloned().unwrap_or(C(0)) {
            // concrete floating-point helpers
            let f64v = |x: u128| if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
            let back = |x: f64| if w == 32 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 };
            let x = f64v(*c);
            if is!("floor") { return Ok(Some(C(back(x.floor())))); }
            if is!("ceil") { return Ok(Some(C(back(x.ceil())))); }
            if is!("trunc.") { return Ok(Some(C(back(x.trunc())))); }
            if is!("round.") { return Ok(Some(C(back(x.round())))); }
            if is!("rint") || is!("roundeven") || is!("nearbyint") { return Ok(Some(C(back(x.round_ties_even())))); }
            if is!("sqrt") { return Ok(Some(C(back(x.sqrt())))); }
            if is!("powi") { if let C(k) = a[1] { return Ok(Some(C(back(x.powi(sext(k, 32) as i32))))); } }
            if is!("minnum") || is!("maxnum") { if let C(k) = a[1] { let y = f64v(k); return Ok(Some(C(back(if is!("minnum") { x.min(y) } else { x.max(y) })))); } }
        }
        if is!("vector.reduce.") {
            if let A(x) = &a[0] {
                let op = &base[14..];
                let mut acc = x[0].clone();
                for y in &x[1..] {
                    acc = if op.starts_with("or") { self.vbin(Op::Or, w, &acc, y) } else if op.starts_with("and") { self.vbin(Op::And, w, &acc, y) } else if op.starts_with("add") { self.vbin(Op::Add, w, &acc, y) } else if op.starts_with("xor") { self.vbin(Op::Xor, w, &acc, y) }
                    else if op.starts_with("umax") { let c = self.vcmp("ugt", w, &acc, y); self.vite(&c, w, &acc, y) }
                    else if op.starts_with("umin") { let c = self.vcmp("ult", w, &acc, y); self.vite(&c, w, &acc, y) }
                    else { return Err(Ev::Unsupported(n.to_string())) };
                }
                return Ok(Some(acc));
            }
        }
        Err(Ev::Unsupported(format!("intrinsic {}", n)))
    }
}
fn x_is_bcmp(n: usize, b: bool) -> bool { b || n == 0 }
fn same(a: &Val, b: &Val) -> bool { match (a, b) { (C(x), C(y)) => x == y, (S(x), S(y)) => x == y, _ => false } }
fn insert(x: &Val, v: &Val, ix: &[u32]) -> Val {
    if ix.is_empty() { return v.clone(); }
    if let A(a) = x {
        let mut b = (**a).clone();
        b[ix[0] as usize] = insert(&b[ix[0] as usize], v, &ix[1..]);
        A(Rc::new(b))
    } else { panic!("insertvalue into scalar") }
}
fn elem_bits(t: &Ty) -> u16 { match t { Ty::Vector(_, e) => e.bits(), _ => t.bits() } }
fn overlap(a: &[u32], b: &[u32]) -> bool {
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() { if a[i] == b[j] { return true; } if a[i] < b[j] { i += 1 } else { j += 1 } }
    false
}
fn is_panic(n: &str) -> bool {
    // core::panicking::*
    if let Some(i) = n.find("_4core9panicking") {
        let p = &n[..i];
        return (p.starts_with("_RNvNtCs") || p.starts_with("_RINvNtCs")) && !p[8..].contains('_');
    }
    n == "rust_begin_unwind" || n == "rust_panic" || n == "__rust_start_panic"
}
/// readable path of a v0-mangled (or plain) symbol
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() && out.len() < 8 {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() { l = l * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if j + l <= b.len() && l > 0 { out.push(n[j..j + l].to_string()); i = j + l; continue; }
            i = j;
        } else if b[i] == b's' || b[i] == b'B' {
            // disambiguator / backref: skip base-62 up to '_' (or plain 's' tags)
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
            if j < b.len() && b[j] == b'_' && j - i < 16 { i = j + 1; continue; }
            i += 1;
        } else { i += 1; }
    }
    out.join("::")
}
