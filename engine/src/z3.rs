//! Minimal hand-written binding to the Z3 C API plus translation of expressions.
use crate::expr::*;
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_rem(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
}
extern "C" fn on_err(_c: P, code: c_int) { eprintln!("llsym: z3 error {}", code); }

#[derive(Clone, Debug, PartialEq)]
pub enum Ans { Sat(Vec<(u32, u8)>), Unsat, Unknown }

pub struct Solver {
    ctx: P,
    fast: P,
    slow: P,
    bvs: HashMap<E, P>,
    bools: HashMap<E, P>,
    cache: HashMap<Vec<E>, Ans>,
    /// truth tables of conditions on a single byte
    tables: HashMap<E, [u64; 4]>,
    pub tabled: u64,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub has_fp: bool,
}

impl Solver {
    pub fn new(fast_ms: u32, slow_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let to = Z3_mk_string_symbol(ctx, b"timeout\0".as_ptr() as *const c_char);
            let fast = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, fast);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            // a resource limit, since a timeout starts a thread for each query
            let rl = Z3_mk_string_symbol(ctx, b"rlimit\0".as_ptr() as *const c_char);
            Z3_params_set_uint(ctx, p, rl, fast_ms.saturating_mul(3000));
            Z3_solver_set_params(ctx, fast, p);
            let lg = Z3_mk_string_symbol(ctx, b"QF_BV\0".as_ptr() as *const c_char);
            let slow = Z3_mk_solver_for_logic(ctx, lg);
            Z3_solver_inc_ref(ctx, slow);
            let p2 = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p2);
            Z3_params_set_uint(ctx, p2, to, slow_ms);
            Z3_solver_set_params(ctx, slow, p2);
            Solver { ctx, fast, slow, bvs: HashMap::new(), bools: HashMap::new(), cache: HashMap::new(), tables: HashMap::new(), tabled: 0, queries: 0, cache_hits: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, max_time: 0.0, has_fp: false }
        }
    }
    fn num(&self, v: u128, w: u16) -> P {
        unsafe {
            if w <= 64 { return Z3_mk_unsigned_int64(self.ctx, v as u64, Z3_mk_bv_sort(self.ctx, w as u32)); }
            let lo = self.num(v & mask(64), 64);
            let hi = self.num(v >> 64, w - 64);
            Z3_mk_concat(self.ctx, hi, lo)
        }
    }
    fn bv(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.bvs.get(&e) { return *p; }
        let c = self.ctx;
        let w = ar.w(e);
        let r = unsafe {
            match ar.n(e) {
                Node::Const(v) => self.num(*v, w),
                Node::Var(v) => Z3_mk_const(c, Z3_mk_int_symbol(c, *v as c_int), Z3_mk_bv_sort(c, 8)),
                Node::Cmp(..) | Node::Not(_) => {
                    let b = self.bool(ar, e);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))
                }
                Node::Bin(op, a, b) => {
                    let (x, y) = (self.bv(ar, *a), self.bv(ar, *b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                    }
                }
                Node::SExt(a) => { let x = self.bv(ar, *a); Z3_mk_sign_ext(c, (w - ar.w(*a)) as u32, x) }
                Node::Extract(a, lo) => { let x = self.bv(ar, *a); Z3_mk_extract(c, (*lo + w - 1) as u32, *lo as u32, x) }
                Node::Cat(parts) => {
                    let mut acc = self.bv(ar, parts[0]);
                    for p in &parts[1..] { let x = self.bv(ar, *p); acc = Z3_mk_concat(c, x, acc); }
                    acc
                }
                Node::Ite(k, a, b) => { let (k, x, y) = (self.bool(ar, *k), self.bv(ar, *a), self.bv(ar, *b)); Z3_mk_ite(c, k, x, y) }
                Node::F(op, a, b) => {
                    self.has_fp = true;
                    let (x, y) = (self.bv(ar, *a), self.bv(ar, *b));
                    let srt = |w: u16| if w == 32 { Z3_mk_fpa_sort_32(c) } else { Z3_mk_fpa_sort_64(c) };
                    let fp = |v: P, w: u16| Z3_mk_fpa_to_fp_bv(c, v, srt(w));
                    let aw = ar.w(*a);
                    let rne = Z3_mk_fpa_rne(c);
                    let rtz = Z3_mk_fpa_rtz(c);
                    let b1 = |p: P| Z3_mk_ite(c, p, self.num(1, 1), self.num(0, 1));
                    match op {
                        FOp::Add => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, rne, fp(x, aw), fp(y, aw))),
                        FOp::Sub => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, rne, fp(x, aw), fp(y, aw))),
                        FOp::Mul => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, rne, fp(x, aw), fp(y, aw))),
                        FOp::Div => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, rne, fp(x, aw), fp(y, aw))),
                        FOp::Rem => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_rem(c, fp(x, aw), fp(y, aw))),
                        FOp::Oeq => b1(Z3_mk_fpa_eq(c, fp(x, aw), fp(y, aw))),
                        FOp::Olt => b1(Z3_mk_fpa_lt(c, fp(x, aw), fp(y, aw))),
                        FOp::Ole => b1(Z3_mk_fpa_leq(c, fp(x, aw), fp(y, aw))),
                        FOp::Uno => { let v = [Z3_mk_fpa_is_nan(c, fp(x, aw)), Z3_mk_fpa_is_nan(c, fp(y, aw))]; b1(Z3_mk_or(c, 2, v.as_ptr())) }
                        FOp::ToUi => Z3_mk_fpa_to_ubv(c, rtz, fp(x, aw), w as u32),
                        FOp::ToSi => Z3_mk_fpa_to_sbv(c, rtz, fp(x, aw), w as u32),
                        FOp::FromUi => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, rne, x, srt(w))),
                        FOp::FromSi => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, rne, x, srt(w))),
                        FOp::Conv => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rne, fp(x, aw), srt(w))),
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bvs.insert(e, r);
        r
    }
    fn bool(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.bools.get(&e) { return *p; }
        let c = self.ctx;
        let r = unsafe {
            match ar.n(e) {
                Node::Const(v) => if *v != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Node::Cmp(p, a, b) => {
                    if *p == Cmp::Eq && ar.w(*a) == 1 {
                        let (x, y) = (self.bool(ar, *a), self.bool(ar, *b));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.bv(ar, *a), self.bv(ar, *b));
                        match p {
                            Cmp::Eq => Z3_mk_eq(c, x, y),
                            Cmp::Ult => Z3_mk_bvult(c, x, y),
                            Cmp::Ule => Z3_mk_bvule(c, x, y),
                            Cmp::Slt => Z3_mk_bvslt(c, x, y),
                            Cmp::Sle => Z3_mk_bvsle(c, x, y),
                        }
                    }
                }
                Node::Not(a) => { let x = self.bool(ar, *a); Z3_mk_not(c, x) }
                Node::Bin(Op::And, a, b) => { let v = [self.bool(ar, *a), self.bool(ar, *b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                Node::Bin(Op::Or, a, b) => { let v = [self.bool(ar, *a), self.bool(ar, *b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                Node::Bin(Op::Xor, a, b) => { let (x, y) = (self.bool(ar, *a), self.bool(ar, *b)); Z3_mk_xor(c, x, y) }
                Node::Ite(k, a, b) => { let (k, x, y) = (self.bool(ar, *k), self.bool(ar, *a), self.bool(ar, *b)); Z3_mk_ite(c, k, x, y) }
                _ => { let x = self.bv(ar, e); Z3_mk_eq(c, x, self.num(1, 1)) }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bools.insert(e, r);
        r
    }

    fn table(&mut self, ar: &mut Arena, e: E, v: u32) -> [u64; 4] {
        if let Some(t) = self.tables.get(&e) { return *t; }
        let mut t = [0u64; 4];
        let mut m = vec![0u8; v as usize + 1];
        for x in 0..256usize {
            m[v as usize] = x as u8;
            ar.eval_begin();
            if ar.eval(e, &m) != 0 { t[x / 64] |= 1 << (x % 64) }
        }
        self.tables.insert(e, t);
        if ar.depth_of(e) <= 10 {
            // small conditions: z3 proves the table; the table as an expression: runs of values; it must be equivalent to the condition
            let x = ar.var(v);
            let mut d = ar.c(0, 1);
            let mut lo = None;
            for k in 0..257usize {
                let on = k < 256 && t[k / 64] >> (k % 64) & 1 != 0;
                match (lo, on) {
                    (None, true) => lo = Some(k),
                    (Some(l), false) => {
                        let (a, b) = (ar.c(l as u128, 8), ar.c(k as u128 - 1, 8));
                        let (p, q) = (ar.cmp(Cmp::Ule, a, x), ar.cmp(Cmp::Ule, x, b));
                        let r = ar.bin(Op::And, p, q);
                        d = ar.bin(Op::Or, d, r);
                        lo = None;
                    }
                    _ => {}
                }
            }
            let n = ar.bin(Op::Xor, d, e);
            if ar.cv(n) != Some(0) { match self.check(ar, &[n]) { Ans::Unsat => {} _ => panic!("truth table is not the condition") } }
        }
        t
    }
    /// A conjunction of conditions on one and the same byte is decided by their truth tables (exact, without z3).
    pub fn check_byte(&mut self, ar: &mut Arena, cs: &[E]) -> Option<Ans> {
        let v = { let s = ar.varset(cs[0]); if s.len() != 1 { return None; } s[0] };
        for e in &cs[1..] { let s = ar.varset(*e); if s.len() != 1 || s[0] != v { return None; } }
        if cs.len() <= 4 && cs.iter().all(|e| ar.depth_of(*e) <= 3) { return None; }
        self.tabled += 1;
        let mut t = [!0u64; 4];
        for e in cs { let x = self.table(ar, *e, v); for i in 0..4 { t[i] &= x[i] } }
        Some(match (0..4).find(|i| t[*i] != 0) { Some(i) => Ans::Sat(vec![(v, (i * 64) as u8 + t[i].trailing_zeros() as u8)]), None => Ans::Unsat })
    }

    /// Satisfiability of the conjunction. Model covers exactly the variables occurring in it.
    pub fn check(&mut self, ar: &mut Arena, cs: &[E]) -> Ans {
        let mut key: Vec<E> = cs.to_vec();
        key.sort(); key.dedup();
        if let Some(a) = self.cache.get(&key) { self.cache_hits += 1; return a.clone(); }
        let t0 = Instant::now();
        self.queries += 1;
        let c = self.ctx;
        let asts: Vec<P> = key.iter().map(|e| self.bool(ar, *e)).collect();
        let mut ans = Ans::Unknown;
        let order = if self.has_fp { [self.slow, self.slow] } else { [self.fast, self.slow] };
        let mut asts = asts;
        for (i, s) in order.into_iter().enumerate() {
            if i == 1 && order[0] == order[1] { break; }
            if i == 1 {
                if let Some(m) = guess(ar, &key) { ans = Ans::Sat(m); break; }
                let ks: Vec<E> = key.iter().map(|e| ar.canon(*e)).collect();
                if ks.iter().any(|e| ar.cv(*e) == Some(0)) { ans = Ans::Unsat; break; }
                asts = ks.iter().map(|e| self.bool(ar, *e)).collect();
            }
            unsafe {
                Z3_solver_reset(c, s);
                for a in &asts { Z3_solver_assert(c, s, *a); }
                match Z3_solver_check(c, s) {
                    1 => {
                        let m = Z3_solver_get_model(c, s);
                        Z3_model_inc_ref(c, m);
                        let mut vs: Vec<u32> = vec![];
                        for e in &key { vs.extend(ar.varset(*e).iter()); }
                        vs.sort(); vs.dedup();
                        let mut out = vec![];
                        for v in vs {
                            let ve = ar.var(v);
                            let t = self.bv(ar, ve);
                            let mut r: P = std::ptr::null_mut();
                            let mut u = 0u64;
                            Z3_model_eval(c, m, t, true, &mut r);
                            Z3_get_numeral_uint64(c, r, &mut u);
                            out.push((v, u as u8));
                        }
                        Z3_model_dec_ref(c, m);
                        // a model is believed if the conditions hold in it
                        let mut mv = vec![0u8; out.iter().map(|x| x.0 as usize + 1).max().unwrap_or(0)];
                        for (v, b) in &out { mv[*v as usize] = *b; }
                        ar.eval_begin();
                        if !key.iter().all(|e| ar.eval(*e, &mv) != 0) { continue; }
                        ans = Ans::Sat(out);
                    }
                    -1 => ans = Ans::Unsat,
                    _ => continue,
                }
            }
            break;
        }
        match ans { Ans::Sat(_) => self.sat += 1, Ans::Unsat => self.unsat += 1, Ans::Unknown => self.unknown += 1 }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        if dt > 0.3 && std::env::var("LLSYM_SLOW").is_ok() {
            for a in &asts { let t = unsafe { std::ffi::CStr::from_ptr(Z3_ast_to_string(c, *a)) }.to_string_lossy().into_owned(); eprintln!("slow {:.2}s: {}", dt, &t[..t.len().min(1500)]); }
        }
        self.cache.insert(key, ans.clone());
        ans
    }
}

/// Tries assignments at random: finds witnesses where the solver has to invert a hash.
fn guess(ar: &mut Arena, key: &[E]) -> Option<Vec<(u32, u8)>> {
    let mut vs: Vec<u32> = vec![];
    for e in key { vs.extend(ar.varset(*e).iter()); }
    vs.sort(); vs.dedup();
    let mut m = vec![0u8; vs.last().map_or(0, |v| *v as usize + 1)];
    let mut x = 0x9e37_79b9_7f4a_7c15u64;
    for i in 0..64 {
        for v in &vs {
            x ^= x << 13; x ^= x >> 7; x ^= x << 17;
            m[*v as usize] = match i % 4 { 0 => x as u8, 1 => x as u8 & 0x7f, 2 => (x & 3) as u8, _ => if x & 7 == 0 { (x >> 8) as u8 } else { 0 } };
        }
        ar.eval_begin();
        if key.iter().all(|e| ar.eval(*e, &m) != 0) { return Some(vs.iter().map(|v| (*v, m[*v as usize])).collect()); }
    }
    None
}
