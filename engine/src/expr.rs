//! Hash-consed bit-vector expressions with canonicalising simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cmp { Eq, Ult, Ule, Slt, Sle }

/// Floating-point operations (operands are IEEE bit patterns).
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FOp {
    Add, Sub, Mul, Div, Rem,
    Oeq, Olt, Ole, Uno,   // comparisons -> 1 bit
    ToUi, ToSi,           // fp -> int (width in node, round toward zero)
    FromUi, FromSi,       // int -> fp
    Conv,                 // fp -> fp
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Bin(Op, E, E),
    Cmp(Cmp, E, E),
    Not(E), // 1-bit only
    SExt(E),
    Extract(E, u16), // low bit; width is node width
    Cat(Box<[E]>),   // low part first
    Ite(E, E, E),
    F(FOp, E, E),
}

pub type VarSet = Rc<Vec<u32>>;

pub struct Arena {
    pub nodes: Vec<Node>,
    pub width: Vec<u16>,
    pub range: Vec<(u128, u128)>,
    pub depth: Vec<u32>,
    map: HashMap<(Node, u16), E>,
    vars: Vec<Option<VarSet>>,
    // evaluation memo
    ev_gen: Vec<u32>,
    ev_val: Vec<u128>,
    gen: u32,
    pub norm: HashMap<E, E>,
}

#[inline]
pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline]
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { let s = 128 - w as u32; ((v << s) as i128) >> s }
}

pub fn cop(op: Op, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let x = sext(a, w);
            if b >= w as u128 { if x < 0 { m } else { 0 } } else { (x >> b) as u128 }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
    };
    r & m
}
pub fn ccmp(c: Cmp, w: u16, a: u128, b: u128) -> bool {
    match c {
        Cmp::Eq => a == b,
        Cmp::Ult => a < b,
        Cmp::Ule => a <= b,
        Cmp::Slt => sext(a, w) < sext(b, w),
        Cmp::Sle => sext(a, w) <= sext(b, w),
    }
}
fn f32b(x: u128) -> f32 { f32::from_bits(x as u32) }
fn f64b(x: u128) -> f64 { f64::from_bits(x as u64) }
/// concrete evaluation; `w` result width, `aw` operand width
pub fn cfop(op: FOp, w: u16, aw: u16, a: u128, b: u128) -> u128 {
    macro_rules! arith { ($o:tt) => { if aw == 32 { (f32b(a) $o f32b(b)).to_bits() as u128 } else { (f64b(a) $o f64b(b)).to_bits() as u128 } } }
    macro_rules! cmp { ($o:tt) => { (if aw == 32 { f32b(a) $o f32b(b) } else { f64b(a) $o f64b(b) }) as u128 } }
    match op {
        FOp::Add => arith!(+), FOp::Sub => arith!(-), FOp::Mul => arith!(*), FOp::Div => arith!(/), FOp::Rem => arith!(%),
        FOp::Oeq => cmp!(==), FOp::Olt => cmp!(<), FOp::Ole => cmp!(<=),
        FOp::Uno => (if aw == 32 { f32b(a).is_nan() || f32b(b).is_nan() } else { f64b(a).is_nan() || f64b(b).is_nan() }) as u128,
        FOp::ToUi => (if aw == 32 { f32b(a) as u128 } else { f64b(a) as u128 }) & mask(w),
        FOp::ToSi => (if aw == 32 { f32b(a) as i128 } else { f64b(a) as i128 }) as u128 & mask(w),
        FOp::FromUi => if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
        FOp::FromSi => { let x = sext(a, aw); if w == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 } }
        FOp::Conv => if aw == 32 && w == 64 { (f32b(a) as f64).to_bits() as u128 } else if aw == 64 && w == 32 { (f64b(a) as f32).to_bits() as u128 } else { a },
    }
}

impl Arena {
    pub fn new() -> Self {
        Arena { nodes: vec![], width: vec![], range: vec![], depth: vec![], map: HashMap::new(), vars: vec![], ev_gen: vec![], ev_val: vec![], gen: 1, norm: HashMap::new() }
    }
    pub fn w(&self, e: E) -> u16 { self.width[e as usize] }
    pub fn n(&self, e: E) -> &Node { &self.nodes[e as usize] }
    pub fn cv(&self, e: E) -> Option<u128> { if let Node::Const(c) = self.nodes[e as usize] { Some(c) } else { None } }

    fn mk(&mut self, n: Node, w: u16) -> E {
        if let Some(&e) = self.map.get(&(n.clone(), w)) { return e; }
        let r = self.calc_range(&n, w);
        if r.0 == r.1 && !matches!(n, Node::Const(_)) { return self.c(r.0, w); }
        // a wide multiplication or division counts as deep: z3 is slow on it (see z3.rs table)
        let hard = matches!(n, Node::Bin(Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem, ..)) && w > 32;
        let d = if hard { 12 } else { 1 } + match &n {
            Node::Const(_) | Node::Var(_) => 0,
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::F(_, a, b) => self.depth[*a as usize].max(self.depth[*b as usize]),
            Node::Not(a) | Node::SExt(a) | Node::Extract(a, _) => self.depth[*a as usize],
            Node::Cat(p) => p.iter().map(|x| self.depth[*x as usize]).max().unwrap(),
            Node::Ite(c, a, b) => self.depth[*c as usize].max(self.depth[*a as usize]).max(self.depth[*b as usize]),
        };
        let id = self.nodes.len() as E;
        self.nodes.push(n.clone());
        self.width.push(w);
        self.range.push(r);
        self.depth.push(d);
        self.vars.push(None);
        self.ev_gen.push(0);
        self.ev_val.push(0);
        self.map.insert((n, w), id);
        id
    }
    fn calc_range(&self, n: &Node, w: u16) -> (u128, u128) {
        let m = mask(w);
        let full = (0, m);
        let r = |e: &E| self.range[*e as usize];
        match n {
            Node::Const(c) => (*c, *c),
            Node::Cat(parts) => {
                let (mut lo, mut hi, mut sh) = (0u128, 0u128, 0u32);
                for p in parts.iter() {
                    let (a, b) = r(p);
                    lo |= a << sh; hi |= b << sh;
                    sh += self.w(*p) as u32;
                }
                (lo, hi)
            }
            Node::Ite(_, a, b) => { let (x, y) = (r(a), r(b)); (x.0.min(y.0), x.1.max(y.1)) }
            Node::Bin(op, a, b) => {
                let (x, y) = (r(a), r(b));
                match op {
                    Op::Add => match x.1.checked_add(y.1) { Some(h) if h <= m => (x.0 + y.0, h), _ => full },
                    Op::Sub => if x.0 >= y.1 { (x.0 - y.1, x.1 - y.0) } else { full },
                    Op::Mul => match x.1.checked_mul(y.1) { Some(h) if h <= m => (x.0 * y.0, h), _ => full },
                    Op::And => (0, x.1.min(y.1)),
                    Op::Or => { let t = x.1 | y.1; let b = 128 - t.leading_zeros(); (x.0.max(y.0), if b >= 128 { u128::MAX } else { (1u128 << b) - 1 }.min(m)) }
                    Op::Xor => { let t = x.1 | y.1; let b = 128 - t.leading_zeros(); (0, if b >= 128 { u128::MAX } else { (1u128 << b) - 1 }.min(m)) }
                    Op::UDiv => if y.0 > 0 { (x.0 / y.1, x.1 / y.0) } else { full },
                    Op::URem => if y.0 > 0 { (0, x.1.min(y.1 - 1)) } else { full },
                    Op::LShr => (0, if y.0 < 128 { x.1 >> y.0 } else { 0 }),
                    _ => full,
                }
            }
            Node::SExt(a) => { let aw = self.w(*a); let x = r(a); if x.1 < (1u128 << (aw - 1)) { x } else { full } }
            Node::Extract(a, lo) => { let x = r(a); if (x.1 >> lo) <= m { (x.0 >> lo, x.1 >> lo) } else { full } }
            _ => full,
        }
    }

    pub fn c(&mut self, v: u128, w: u16) -> E { self.mk(Node::Const(v & mask(w)), w) }
    pub fn var(&mut self, id: u32) -> E { self.mk(Node::Var(id), 8) }

    pub fn not(&mut self, e: E) -> E {
        debug_assert!(self.w(e) == 1);
        match self.n(e).clone() {
            Node::Const(c) => self.c(c ^ 1, 1),
            Node::Not(x) => x,
            Node::Ite(c, a, b) => {
                if self.cv(a).is_some() || self.cv(b).is_some() {
                    let (na, nb) = (self.not(a), self.not(b));
                    self.ite(c, na, nb)
                } else { self.mk(Node::Not(e), 1) }
            }
            Node::Cmp(Cmp::Ult, a, b) => self.cmp(Cmp::Ule, b, a),
            Node::Cmp(Cmp::Ule, a, b) => self.cmp(Cmp::Ult, b, a),
            Node::Cmp(Cmp::Slt, a, b) => self.cmp(Cmp::Sle, b, a),
            Node::Cmp(Cmp::Sle, a, b) => self.cmp(Cmp::Slt, b, a),
            _ => self.mk(Node::Not(e), 1),
        }
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.cv(c) { return if k != 0 { a } else { b }; }
        if a == b { return a; }
        if let Node::Not(x) = self.n(c) { let x = *x; return self.ite(x, b, a); }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        if let Node::Ite(c2, x, _) = self.n(a) { if *c2 == c { let x = *x; return self.ite(c, x, b); } }
        if let Node::Ite(c2, _, y) = self.n(b) { if *c2 == c { let y = *y; return self.ite(c, a, y); } }
        // ite(c, a, ite(d, a, y)) = ite(c|d, a, y)
        if let Node::Ite(d, x, y) = self.n(b).clone() { if x == a { let cd = self.bin(Op::Or, c, d); return self.ite(cd, a, y); } }
        self.mk(Node::Ite(c, a, b), w)
    }

    pub fn zext(&mut self, e: E, w: u16) -> E {
        let ew = self.w(e);
        if ew == w { return e; }
        let z = self.c(0, w - ew);
        self.cat(&[e, z])
    }
    pub fn sext(&mut self, e: E, w: u16) -> E {
        let ew = self.w(e);
        if ew == w { return e; }
        if let Some(c) = self.cv(e) { return self.c(sext(c, ew) as u128, w); }
        if self.range[e as usize].1 < (1u128 << (ew - 1)) { return self.zext(e, w); }
        if let Node::SExt(x) = self.n(e) { let x = *x; return self.sext(x, w); }
        if let Node::Ite(c, a, b) = self.n(e).clone() {
            if self.cv(a).is_some() && self.cv(b).is_some() {
                let (x, y) = (self.sext(a, w), self.sext(b, w));
                return self.ite(c, x, y);
            }
        }
        self.mk(Node::SExt(e), w)
    }
    pub fn extract(&mut self, e: E, lo: u16, w: u16) -> E {
        let ew = self.w(e);
        if lo == 0 && w == ew { return e; }
        debug_assert!(lo + w <= ew);
        match self.n(e).clone() {
            Node::Const(c) => self.c(c >> lo, w),
            Node::Extract(x, l2) => self.extract(x, lo + l2, w),
            Node::Cat(parts) => {
                let mut out = vec![];
                let mut pos = 0u16;
                for p in parts.iter() {
                    let pw = self.w(*p);
                    let (s, t) = (pos.max(lo), (pos + pw).min(lo + w));
                    if s < t { out.push(self.extract(*p, s - pos, t - s)); }
                    pos += pw;
                }
                self.cat(&out)
            }
            Node::Ite(c, a, b) if (self.cv(a).is_some() && self.cv(b).is_some()) || (self.is_simple(a) && self.is_simple(b)) => {
                let (x, y) = (self.extract(a, lo, w), self.extract(b, lo, w));
                self.ite(c, x, y)
            }
            Node::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw { return self.extract(x, lo, w); }
                if lo < xw { let y = self.extract(x, lo, xw - lo); return self.sext(y, w); }
                let s = self.extract(x, xw - 1, 1);
                self.sext(s, w)
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) => {
                let (x, y) = (self.extract(a, lo, w), self.extract(b, lo, w));
                self.bin(op, x, y)
            }
            Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), a, b) if lo == 0 => {
                let (x, y) = (self.extract(a, 0, w), self.extract(b, 0, w));
                self.bin(op, x, y)
            }
            _ => {
                let (rl, rh) = self.range[e as usize];
                if rh >> lo == 0 { return self.c(0, w); }
                if lo == 0 && rl == rh { return self.c(rl, w); }
                self.mk(Node::Extract(e, lo), w)
            }
        }
    }
    fn is_simple(&self, e: E) -> bool { matches!(self.n(e), Node::Const(_) | Node::Cat(_)) }

    /// concatenation, low part first
    pub fn cat(&mut self, parts: &[E]) -> E {
        if parts.len() == 1 { return parts[0]; }
        let mut out: Vec<E> = Vec::with_capacity(parts.len());
        for &p in parts {
            if let Node::Cat(ps) = self.n(p).clone() { for &q in ps.iter() { self.cat_push(&mut out, q); } }
            else { self.cat_push(&mut out, p); }
        }
        if out.len() == 1 { return out[0]; }
        // cat of ite-with-const-arms and constants only, same cond -> ite
        let mut cond = None;
        let mut ok = true;
        for &p in &out {
            match self.n(p) {
                Node::Const(_) => {}
                Node::Ite(c, a, b) if self.cv(*a).is_some() && self.cv(*b).is_some() => {
                    if cond.is_none() { cond = Some(*c) } else if cond != Some(*c) { ok = false; break; }
                }
                _ => { ok = false; break; }
            }
        }
        if ok {
            if let Some(c) = cond {
                let (mut x, mut y) = (vec![], vec![]);
                for &p in &out {
                    if let Node::Ite(_, a, b) = *self.n(p) { x.push(a); y.push(b); } else { x.push(p); y.push(p); }
                }
                let (x, y) = (self.cat(&x), self.cat(&y));
                return self.ite(c, x, y);
            }
        }
        let w = out.iter().map(|p| self.w(*p)).sum();
        self.mk(Node::Cat(out.into_boxed_slice()), w)
    }
    fn cat_push(&mut self, out: &mut Vec<E>, q: E) {
        if let Some(&l) = out.last() {
            let (lw, qw) = (self.w(l), self.w(q));
            if let (Some(a), Some(b)) = (self.cv(l), self.cv(q)) {
                if lw + qw <= 128 {
                    let n = self.c(a | (b << lw), lw + qw);
                    *out.last_mut().unwrap() = n;
                    return;
                }
            }
            let base = |s: &Self, e: E| match s.n(e) { Node::Extract(x, lo) => (*x, *lo), _ => (e, 0) };
            let (lx, llo) = base(self, l);
            let (qx, qlo) = base(self, q);
            if lx == qx && llo + lw == qlo && matches!(self.n(q), Node::Extract(..)) {
                let n = self.extract(lx, llo, lw + qw);
                *out.last_mut().unwrap() = n;
                return;
            }
            // two ites with the same condition and constant arms
            if let (Node::Ite(c1, a1, b1), Node::Ite(c2, a2, b2)) = (self.n(l).clone(), self.n(q).clone()) {
                if c1 == c2 && [a1, b1, a2, b2].iter().all(|x| self.cv(*x).is_some()) && lw + qw <= 128 {
                    let (x, y) = (self.cat(&[a1, a2]), self.cat(&[b1, b2]));
                    let n = self.ite(c1, x, y);
                    *out.last_mut().unwrap() = n;
                    return;
                }
            }
        }
        out.push(q);
    }
    /// cut positions of the parts of e
    fn parts(&self, e: E) -> Vec<E> { if let Node::Cat(p) = self.n(e) { p.to_vec() } else { vec![e] } }

    /// try to combine bitwise-disjoint operands part by part
    fn seg_merge(&mut self, op: Op, a: E, b: E) -> Option<E> {
        if !matches!(self.n(a), Node::Cat(_)) && !matches!(self.n(b), Node::Cat(_)) { return None; }
        let w = self.w(a);
        let mut cuts = vec![0u16];
        for x in [a, b] { let mut p = 0; for q in self.parts(x) { p += self.w(q); cuts.push(p); } }
        cuts.sort(); cuts.dedup();
        debug_assert_eq!(*cuts.last().unwrap(), w);
        let mut out = vec![];
        for k in 0..cuts.len() - 1 {
            let (lo, sw) = (cuts[k], cuts[k + 1] - cuts[k]);
            let (x, y) = (self.extract(a, lo, sw), self.extract(b, lo, sw));
            let (cx, cy) = (self.cv(x), self.cv(y));
            let m = mask(sw);
            let r = match op {
                Op::Or | Op::Xor | Op::Add => {
                    if cx == Some(0) { y } else if cy == Some(0) { x }
                    else if op == Op::Or && (cx == Some(m) || cy == Some(m)) { self.c(m, sw) }
                    else if op != Op::Add && cx.is_some() && cy.is_some() { self.bin(op, x, y) }
                    else if op == Op::Or && x == y { x }
                    else if op == Op::Add && k == cuts.len() - 2 { self.bin(op, x, y) } // top segment: carry drops out
                    else { return None }
                }
                Op::And => {
                    if cx == Some(0) || cy == Some(0) { self.c(0, sw) }
                    else if cx == Some(m) { y } else if cy == Some(m) { x }
                    else { self.bin(Op::And, x, y) }
                }
                _ => return None,
            };
            out.push(r);
        }
        Some(self.cat(&out))
    }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let m = mask(w);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.c(cop(op, w, x, y), w); }
        // commutative: constant on the right, otherwise ordered
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) {
            if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let Some(y) = cb {
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if y == 0 => return a,
                Op::Mul if y == 0 => return b,
                Op::Mul | Op::UDiv | Op::SDiv if y == 1 => return a,
                Op::URem if y == 1 => return self.c(0, w),
                Op::And if y == 0 => return b,
                Op::And if y == m => return a,
                Op::Or if y == m => return b,
                Op::Xor if w == 1 => return self.not(a),
                Op::Sub => { let nb = self.c(y.wrapping_neg(), w); return self.bin(Op::Add, a, nb); }
                Op::Shl => {
                    if y >= w as u128 { return self.c(0, w); }
                    let k = y as u16;
                    let z = self.c(0, k);
                    let x = self.extract(a, 0, w - k);
                    return self.cat(&[z, x]);
                }
                Op::LShr => {
                    if y >= w as u128 { return self.c(0, w); }
                    let k = y as u16;
                    let z = self.c(0, k);
                    let x = self.extract(a, k, w - k);
                    return self.cat(&[x, z]);
                }
                Op::AShr => {
                    let k = if y >= w as u128 { w - 1 } else { y as u16 };
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
                Op::UDiv if y.is_power_of_two() => { let k = self.c(y.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, k); }
                Op::URem if y.is_power_of_two() => { let k = self.c(y - 1, w); return self.bin(Op::And, a, k); }
                Op::Mul if y.is_power_of_two() => { let k = self.c(y.trailing_zeros() as u128, w); return self.bin(Op::Shl, a, k); }
                Op::UDiv if self.range[a as usize].1 < y => return self.c(0, w),
                Op::URem if self.range[a as usize].1 < y => return a,
                Op::And => {
                    // split mask into runs
                    let mut runs = 1;
                    for i in 1..w { if (y >> i) & 1 != (y >> (i - 1)) & 1 { runs += 1; } }
                    if runs <= 6 && w > 1 {
                        let mut out = vec![];
                        let mut i = 0;
                        while i < w {
                            let bit = (y >> i) & 1;
                            let mut j = i + 1;
                            while j < w && (y >> j) & 1 == bit { j += 1; }
                            let p = if bit == 0 { self.c(0, j - i) } else { self.extract(a, i, j - i) };
                            out.push(p);
                            i = j;
                        }
                        return self.cat(&out);
                    }
                }
                _ => {}
            }
            // reassociate constants
            if let Node::Bin(op2, x, k) = *self.n(a) {
                if op2 == op && matches!(op, Op::Add | Op::And | Op::Or | Op::Xor | Op::Mul) {
                    if let Some(kv) = self.cv(k) { let nk = self.c(cop(op, w, kv, y), w); return self.bin(op, x, nk); }
                }
            }
            if let Node::Ite(c, x, z) = *self.n(a) {
                if self.cv(x).is_some() && self.cv(z).is_some() {
                    let (p, q) = (self.bin(op, x, b), self.bin(op, z, b));
                    return self.ite(c, p, q);
                }
            }
        }
        if ca == Some(0) {
            match op { Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr => return a, _ => {} }
        }
        if ca.is_some() {
            if let Node::Ite(c, x, z) = *self.n(b) {
                if self.cv(x).is_some() && self.cv(z).is_some() {
                    let (p, q) = (self.bin(op, a, x), self.bin(op, a, z));
                    return self.ite(c, p, q);
                }
            }
        }
        if a == b {
            match op {
                Op::Sub | Op::Xor => return self.c(0, w),
                Op::And | Op::Or => return a,
                _ => {}
            }
        }
        if w == 1 {
            // boolean rules
            let na = self.not(a);
            if na == b {
                match op { Op::And => return self.c(0, 1), Op::Or | Op::Xor => return self.c(1, 1), _ => {} }
            }
            if op == Op::And || op == Op::Or {
                // absorption with one level of nesting
                for (x, y) in [(a, b), (b, a)] {
                    if let Node::Bin(o2, p, q) = *self.n(x) {
                        if (o2 == Op::And || o2 == Op::Or) && (p == y || q == y) {
                            return if o2 == op { x } else { y };
                        }
                    }
                }
            }
            if op == Op::Add || op == Op::Sub { return self.bin(Op::Xor, a, b); }
            if op == Op::Mul { return self.bin(Op::And, a, b); }
        }
        if op == Op::Sub {
            // (x + k) - x, x - (x + k), (x+k1)-(x+k2)
            let split = |s: &Self, e: E| -> (E, u128) {
                if let Node::Bin(Op::Add, x, k) = s.n(e) { if let Some(kv) = s.cv(*k) { return (*x, kv); } }
                (e, 0)
            };
            let (xa, ka) = split(self, a);
            let (xb, kb) = split(self, b);
            if xa == xb { return self.c(ka.wrapping_sub(kb), w); }
            if let Node::Bin(Op::Add, x, y) = *self.n(a) { if x == b { return y; } if y == b { return x; } }
        }
        if matches!(op, Op::And | Op::Or | Op::Xor | Op::Add) {
            if let Some(r) = self.seg_merge(op, a, b) { return r; }
        }
        if op == Op::Mul && w == 128 {
            if let Some(h) = self.range[a as usize].1.checked_mul(self.range[b as usize].1) {
                if h >> 64 == 0 {
                    let (x, y) = (self.extract(a, 0, 64), self.extract(b, 0, 64));
                    let r = self.bin(Op::Mul, x, y);
                    return self.zext(r, w);
                }
            }
        }
        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
            if let Some(k) = cb { if let Some(r) = self.lin_div(op, a, k, w) { return r; } }
        }
        if matches!(op, Op::UDiv | Op::URem) {
            // narrow when both operands are provably small
            let h = self.range[a as usize].1.max(self.range[b as usize].1);
            let nb = (128 - h.leading_zeros() as u16).max(1);
            if nb < w && nb <= w / 2 {
                let (x, y) = (self.extract(a, 0, nb), self.extract(b, 0, nb));
                // division by zero yields all-ones at this width: only sound if divisor non-zero
                if self.range[b as usize].0 > 0 { let r = self.bin(op, x, y); return self.zext(r, w); }
            }
        }
        if matches!(op, Op::SDiv | Op::SRem) {
            let half = 1u128 << (w - 1);
            if self.range[a as usize].1 < half && self.range[b as usize].1 < half {
                return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
            }
        }
        if op == Op::AShr && self.range[a as usize].1 < (1u128 << (w - 1)) { return self.bin(Op::LShr, a, b); }
        self.mk(Node::Bin(op, a, b), w)
    }

    /// e as an integer sum modulo 2^w: a constant and atoms with coefficients
    fn lin(&mut self, e: E, k: i128, c0: &mut i128, at: &mut Vec<(E, i128)>, depth: u32) -> Option<()> {
        let w = self.w(e);
        let sg = |v: u128| -> i128 { if w < 128 && v >> (w - 1) & 1 == 1 { v as i128 - (1i128 << w) } else { v as i128 } };
        if let Some(c) = self.cv(e) { *c0 = c0.checked_add(k.checked_mul(sg(c))?)?; return Some(()); }
        if depth > 0 {
            match &self.n(e).clone() {
                Node::Bin(Op::Add, x, y) => { let (x, y) = (*x, *y); self.lin(x, k, c0, at, depth - 1)?; return self.lin(y, k, c0, at, depth - 1); }
                Node::Bin(Op::Sub, x, y) => { let (x, y) = (*x, *y); self.lin(x, k, c0, at, depth - 1)?; return self.lin(y, k.checked_neg()?, c0, at, depth - 1); }
                Node::Bin(Op::Mul, x, y) => if let Some(c) = self.cv(*y) { return self.lin(*x, k.checked_mul(sg(c))?, c0, at, depth - 1); },
                Node::Cat(ps) => if let Some(p) = self.unsplit(ps) {
                    if self.w(p) == w { return self.lin(p, k, c0, at, depth - 1); }
                    // a sum which does not wrap in its own width
                    let (mut d0, mut d) = (0, vec![]);
                    if self.lin(p, 1, &mut d0, &mut d, depth - 1).is_some() {
                        let md = 1i128 << self.w(p);
                        let d0 = d0.rem_euclid(md);
                        if let Some((lo, hi)) = self.lin_range(d0, &d) {
                            if lo >= 0 && hi < md {
                                *c0 = c0.checked_add(k.checked_mul(d0)?)?;
                                for (a, c) in d { at.push((a, k.checked_mul(c)?)) }
                                return Some(());
                            }
                        }
                    }
                },
                _ => {}
            }
        }
        at.push((e, k));
        Some(())
    }
    /// the sum of which these are the bits, zero-extended, possibly simplified part by part
    fn unsplit(&mut self, ps: &[E]) -> Option<E> {
        let total: u16 = ps.iter().map(|p| self.w(*p)).sum();
        let (mut n, mut t) = (ps.len(), 0u128);
        while n > 0 {
            let Some(v) = self.cv(ps[n - 1]) else { break };
            let pw = self.w(ps[n - 1]);
            if pw > 64 || t >> 63 != 0 { return None; }
            t = t << pw | v;
            n -= 1;
        }
        if n == 0 { return None; }
        let sum = |s: &Self, e: E| matches!(s.n(e), Node::Bin(Op::Add | Op::Sub | Op::Mul, ..));
        if n == 1 && t == 0 { return if sum(self, ps[0]) { Some(ps[0]) } else { None }; }
        if n == 1 { return None; }
        let last = ps[n - 1];
        let Node::Extract(y, lo) = *self.n(last) else { return None };
        let top = lo + self.w(last);
        let r = self.range[y as usize];
        if !sum(self, y) || top > 127 || r.1 >> top != t || r.0 >> top != t || (t != 0 && self.w(y) != total) { return None; }
        let l = self.cat(&ps[..n - 1]);
        if self.w(l) == lo && self.extract(y, 0, lo) == l { Some(y) } else { None }
    }
    fn lin_range(&self, c0: i128, at: &[(E, i128)]) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (c0, c0);
        for (a, c) in at {
            let r = self.range[*a as usize];
            if r.1 >> 126 != 0 { return None; }
            let (x, y) = (c.checked_mul(r.0 as i128)?, c.checked_mul(r.1 as i128)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        Some((lo, hi))
    }
    /// an interval of the signed value of e (its width is at most 64)
    pub fn srange(&mut self, e: E) -> Option<(i128, i128)> {
        let w = self.w(e);
        if w > 64 { return None; }
        let half = 1i128 << (w - 1);
        if let Some(c) = self.cv(e) { let c = c as i128; let c = if c >= half { c - 2 * half } else { c }; return Some((c, c)); }
        let r = self.range[e as usize];
        if (r.1 as i128) < half { return Some((r.0 as i128, r.1 as i128)); }
        let (mut c0, mut at) = (0i128, vec![]);
        self.lin(e, 1, &mut c0, &mut at, 8)?;
        let red = |c: i128| { let c = c.rem_euclid(2 * half); if c >= half { c - 2 * half } else { c } };
        at.sort();
        let mut v: Vec<(E, i128)> = vec![];
        for (e, c) in at { match v.last_mut() { Some(l) if l.0 == e => l.1 = l.1.checked_add(c)?, _ => v.push((e, c)) } }
        for x in v.iter_mut() { x.1 = red(x.1) }
        let (lo, hi) = self.lin_range(red(c0), &v)?;
        if lo < -half || hi >= half { return None; }
        Some((lo, hi))
    }
    fn lin_sum(&mut self, c0: i128, at: &[(E, i128)], w: u16) -> E {
        let mut s = None;
        for (a, c) in at {
            if *c == 0 { continue; }
            let a = if self.w(*a) < w { self.zext(*a, w) } else { *a };
            let k = self.c(*c as u128, w);
            let t = self.bin(Op::Mul, a, k);
            s = Some(match s { None => t, Some(s) => self.bin(Op::Add, s, t) });
        }
        let k = self.c(c0 as u128, w);
        match s { None => k, Some(s) => self.bin(Op::Add, s, k) }
    }
    /// division of a sum by a constant k where the part which is no multiple of k is in 0..k
    fn lin_div(&mut self, op: Op, a: E, k: u128, w: u16) -> Option<E> {
        if w > 64 || w < 16 || k < 2 || k >> (w - 1) != 0 { return None; }
        let signed = matches!(op, Op::SDiv | Op::SRem);
        if !matches!(self.n(a), Node::Bin(Op::Add | Op::Sub | Op::Mul, ..) | Node::Cat(_)) { return None; }
        let (mut c0, mut at) = (0i128, vec![]);
        self.lin(a, 1, &mut c0, &mut at, 8)?;
        at.sort();
        let mut v: Vec<(E, i128)> = vec![];
        for (e, c) in at { match v.last_mut() { Some(l) if l.0 == e => l.1 = l.1.checked_add(c)?, _ => v.push((e, c)) } }
        // back into the width
        let md = 1i128 << w;
        let red = |c: i128| { let c = c.rem_euclid(md); if c >= md / 2 { c - md } else { c } };
        c0 = red(c0);
        for x in v.iter_mut() { x.1 = red(x.1) }
        let (mut lo, mut hi) = self.lin_range(c0, &v)?;
        if !signed && lo < 0 && hi < 0 { c0 += md; lo += md; hi += md; }
        if signed { if lo < -(md / 2) || hi >= md / 2 { return None; } } else if lo < 0 || hi >= md { return None; }
        let k = k as i128;
        let (q0, r0) = (c0.div_euclid(k), c0.rem_euclid(k));
        let (mut q, mut r) = (vec![], vec![]);
        for (e, c) in &v { q.push((*e, c.div_euclid(k))); r.push((*e, c.rem_euclid(k))) }
        let (rl, rh) = self.lin_range(r0, &r)?;
        if rl < 0 || rh >= k { return None; }
        let nonneg = lo >= 0;
        if !nonneg && hi >= 0 { return None; }
        let rest = self.lin_sum(r0, &r, w);
        if nonneg {
            return Some(match op { Op::UDiv | Op::SDiv => self.lin_sum(q0, &q, w), _ => rest });
        }
        // negative: truncation towards zero
        let z = self.c(0, w);
        let exact = self.cmp(Cmp::Eq, rest, z);
        Some(if op == Op::SDiv {
            let (x, y) = (self.lin_sum(q0, &q, w), self.lin_sum(q0 + 1, &q, w));
            self.ite(exact, x, y)
        } else {
            let kk = self.c((-k) as u128, w);
            let y = self.bin(Op::Add, rest, kk);
            self.ite(exact, z, y)
        })
    }

    pub fn cmp(&mut self, p: Cmp, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.c(ccmp(p, w, x, y) as u128, 1); }
        if a == b { return self.c(matches!(p, Cmp::Eq | Cmp::Ule | Cmp::Sle) as u128, 1); }
        let (ra, rb) = (self.range[a as usize], self.range[b as usize]);
        if p == Cmp::Eq && (w == 64 || w == 32) && (matches!(self.n(a), Node::Bin(Op::Add | Op::Mul, ..)) || matches!(self.n(b), Node::Bin(Op::Add | Op::Mul, ..))) {
            // the same sum written in two ways
            let (mut c0, mut at) = (0i128, vec![]);
            if self.lin(a, 1, &mut c0, &mut at, 8).is_some() && self.lin(b, -1, &mut c0, &mut at, 8).is_some() {
                at.sort();
                let md = 1i128 << w;
                let (mut i, mut gone) = (0, true);
                while i < at.len() {
                    let mut c = 0i128;
                    let e = at[i].0;
                    while i < at.len() && at[i].0 == e { c = c.wrapping_add(at[i].1); i += 1; }
                    if c.rem_euclid(md) != 0 { gone = false; break; }
                }
                if gone { return self.c((c0.rem_euclid(md) == 0) as u128, 1); }
            }
        }
        match p {
            Cmp::Eq => if ra.1 < rb.0 || rb.1 < ra.0 { return self.c(0, 1); },
            Cmp::Ult => { if ra.1 < rb.0 { return self.c(1, 1); } if ra.0 >= rb.1 { return self.c(0, 1); } }
            Cmp::Ule => { if ra.1 <= rb.0 { return self.c(1, 1); } if ra.0 > rb.1 { return self.c(0, 1); } }
            Cmp::Slt | Cmp::Sle => {
                let half = 1u128 << (w - 1);
                if ra.1 < half && rb.1 < half { return self.cmp(if p == Cmp::Slt { Cmp::Ult } else { Cmp::Ule }, a, b); }
                if ra.0 >= half && rb.0 >= half { return self.cmp(if p == Cmp::Slt { Cmp::Ult } else { Cmp::Ule }, a, b); }
                if ra.0 >= half && rb.1 < half { return self.c(1, 1); }
                if ra.1 < half && rb.0 >= half { return self.c(0, 1); }
            }
        }
        if p == Cmp::Eq && (self.cv(a).is_some() || (self.cv(b).is_none() && a > b)) { std::mem::swap(&mut a, &mut b); }
        let (ca, cb) = (self.cv(a), self.cv(b));
        // ite with constant arms against a constant
        if cb.is_some() {
            if let Node::Ite(c, x, y) = *self.n(a) {
                if self.cv(x).is_some() || self.cv(y).is_some() {
                    let (r, s) = (self.cmp(p, x, b), self.cmp(p, y, b));
                    if self.cv(r).is_some() || self.cv(s).is_some() { return self.ite(c, r, s); }
                }
            }
        }
        if ca.is_some() {
            if let Node::Ite(c, x, y) = *self.n(b) {
                if self.cv(x).is_some() || self.cv(y).is_some() {
                    let (r, s) = (self.cmp(p, a, x), self.cmp(p, a, y));
                    if self.cv(r).is_some() || self.cv(s).is_some() { return self.ite(c, r, s); }
                }
            }
        }
        if p == Cmp::Eq {
            if w == 1 { if let Some(k) = cb { return if k == 1 { a } else { self.not(a) }; } }
            if let Some(k) = cb {
                match self.n(a).clone() {
                    Node::Cat(parts) => {
                        // drop constant parts
                        let mut pos = 0;
                        let mut rest = vec![];
                        let mut kk: u128 = 0;
                        let mut kw = 0u16;
                        let mut dropped = false;
                        for q in parts.iter() {
                            let qw = self.w(*q);
                            let kv = (k >> pos) & mask(qw);
                            if let Some(c) = self.cv(*q) { if c != kv { return self.c(0, 1); } dropped = true; }
                            else { rest.push(*q); kk |= kv << kw; kw += qw; }
                            pos += qw;
                        }
                        if dropped {
                            let x = self.cat(&rest);
                            let kc = self.c(kk, kw);
                            return self.cmp(Cmp::Eq, x, kc);
                        }
                    }
                    Node::SExt(x) => {
                        let xw = self.w(x);
                        let lowk = k & mask(xw);
                        if sext(lowk, xw) as u128 & mask(w) != k { return self.c(0, 1); }
                        let kc = self.c(lowk, xw);
                        return self.cmp(Cmp::Eq, x, kc);
                    }
                    Node::Bin(Op::Add, x, kc) => if let Some(kv) = self.cv(kc) { let nk = self.c(k.wrapping_sub(kv), w); return self.cmp(Cmp::Eq, x, nk); },
                    Node::Bin(Op::Xor, x, kc) => if let Some(kv) = self.cv(kc) { let nk = self.c(k ^ kv, w); return self.cmp(Cmp::Eq, x, nk); },
                    Node::Bin(Op::Xor, x, y) if k == 0 => return self.cmp(Cmp::Eq, x, y),
                    Node::Bin(Op::Sub, x, y) if k == 0 => return self.cmp(Cmp::Eq, x, y),
                    Node::Bin(Op::Or, x, y) if k == 0 => {
                        let (r, s) = (self.cmp(Cmp::Eq, x, b), self.cmp(Cmp::Eq, y, b));
                        return self.bin(Op::And, r, s);
                    }
                    _ => {}
                }
            } else {
                // strip common constant/equal parts of aligned concatenations
                if let (Node::Cat(pa), Node::Cat(pb)) = (self.n(a).clone(), self.n(b).clone()) {
                    // strip equal or constant low and high parts
                    let (mut x, mut y) = (pa.to_vec(), pb.to_vec());
                    let (l0, l1) = (x.len(), y.len());
                    while !x.is_empty() && !y.is_empty() && x[x.len() - 1] == y[y.len() - 1] { x.pop(); y.pop(); }
                    while !x.is_empty() && !y.is_empty() && x[0] == y[0] { x.remove(0); y.remove(0); }
                    if x.len() < l0 || y.len() < l1 {
                        if x.is_empty() { return self.c(1, 1); }
                        let (x, y) = (self.cat(&x), self.cat(&y));
                        return self.cmp(Cmp::Eq, x, y);
                    }
                    // top constants of unequal width, both zero
                    let (ta, tb) = (*x.last().unwrap(), *y.last().unwrap());
                    if let (Some(u), Some(v)) = (self.cv(ta), self.cv(tb)) {
                        let k = self.w(ta).min(self.w(tb));
                        let (su, sv) = (self.w(ta) - k, self.w(tb) - k);
                        if (u >> su) & mask(k) != (v >> sv) & mask(k) { return self.c(0, 1); }
                        let (x, y) = (self.extract(a, 0, w - k), self.extract(b, 0, w - k));
                        return self.cmp(Cmp::Eq, x, y);
                    }
                }
                if let (Node::SExt(x), Node::SExt(y)) = (self.n(a).clone(), self.n(b).clone()) {
                    if self.w(x) == self.w(y) { return self.cmp(Cmp::Eq, x, y); }
                }
            }
        } else {
            // narrow: common zero top bits for unsigned
            if matches!(p, Cmp::Ult | Cmp::Ule) {
                let h = ra.1.max(rb.1);
                let nb = (128 - h.leading_zeros() as u16).max(1);
                if nb < w && (self.is_simple(a) || self.is_simple(b)) {
                    let (x, y) = (self.extract(a, 0, nb), self.extract(b, 0, nb));
                    return self.cmp(p, x, y);
                }
                // x < 1 => x == 0 ; 0 < x => x != 0; x <= 0
                if p == Cmp::Ult && cb == Some(1) { let z = self.c(0, w); return self.cmp(Cmp::Eq, a, z); }
                if p == Cmp::Ule && cb == Some(0) { return self.cmp(Cmp::Eq, a, b); }
                if p == Cmp::Ult && ca == Some(0) { let e = self.cmp(Cmp::Eq, b, a); return self.not(e); }
                if p == Cmp::Ule && ca == Some(mask(w)) { return self.cmp(Cmp::Eq, b, a); }
                // normalise constants to Ult
                if p == Cmp::Ule { if let Some(k) = cb { let nk = self.c(k + 1, w); return self.cmp(Cmp::Ult, a, nk); } }
                if p == Cmp::Ule { if let Some(k) = ca { let nk = self.c(k - 1, w); return self.cmp(Cmp::Ult, nk, b); } }
                // compare concatenations on power-of-two boundaries: cat(lo,hi) < k<<n  <=> hi < k
                if p == Cmp::Ult {
                    if let Some(k) = cb {
                        if let Node::Cat(parts) = self.n(a).clone() {
                            let lw = self.w(parts[0]);
                            if k & mask(lw) == 0 {
                                let (x, kk) = (self.extract(a, lw, w - lw), self.c(k >> lw, w - lw));
                                return self.cmp(p, x, kk);
                            }
                        }
                    }
                    if let Some(k) = ca {
                        if let Node::Cat(parts) = self.n(b).clone() {
                            let lw = self.w(parts[0]);
                            if k & mask(lw) == mask(lw) {
                                let (x, kk) = (self.extract(b, lw, w - lw), self.c(k >> lw, w - lw));
                                return self.cmp(p, kk, x);
                            }
                        }
                    }
                }
            } else if w > 1 {
                // sign test
                if p == Cmp::Slt && cb == Some(0) { return self.extract(a, w - 1, 1); }
                if p == Cmp::Slt && ca == Some(mask(w)) { let s = self.extract(b, w - 1, 1); return self.not(s); }
                if let (Node::SExt(x), Node::SExt(y)) = (self.n(a).clone(), self.n(b).clone()) {
                    if self.w(x) == self.w(y) { return self.cmp(p, x, y); }
                }
                // sext(x) vs constant in range
                if let (Node::SExt(x), Some(k)) = (self.n(a).clone(), cb) {
                    let xw = self.w(x);
                    let ks = sext(k, w);
                    if sext(k & mask(xw), xw) == ks { let kc = self.c(k & mask(xw), xw); return self.cmp(p, x, kc); }
                    return self.c((ks > 0) as u128, 1);
                }
                if let (Node::SExt(x), Some(k)) = (self.n(b).clone(), ca) {
                    let xw = self.w(x);
                    let ks = sext(k, w);
                    if sext(k & mask(xw), xw) == ks { let kc = self.c(k & mask(xw), xw); return self.cmp(p, kc, x); }
                    return self.c((ks < 0) as u128, 1);
                }
            }
        }
        self.mk(Node::Cmp(p, a, b), 1)
    }

    pub fn f(&mut self, op: FOp, w: u16, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { let aw = self.w(a); return self.c(cfop(op, w, aw, x, y), w); }
        let aw = self.w(a);
        if aw == 32 || aw == 64 {
            // comparisons and widening are exact on the bits: no floating-point theory needed
            match op {
                FOp::Uno => { let (x, y) = (self.nan(a), self.nan(b)); return self.bin(Op::Or, x, y); }
                FOp::Oeq | FOp::Olt | FOp::Ole => {
                    let (x, y) = (self.nan(a), self.nan(b));
                    let n = self.bin(Op::Or, x, y);
                    let n = self.not(n);
                    let (x, y) = (self.fkey(a), self.fkey(b));
                    let r = self.cmp(match op { FOp::Oeq => Cmp::Eq, FOp::Olt => Cmp::Slt, _ => Cmp::Sle }, x, y);
                    return self.bin(Op::And, n, r);
                }
                FOp::Conv if aw == 32 && w == 64 => return self.widen(a),
                _ => {}
            }
        }
        self.mk(Node::F(op, a, b), w)
    }
    fn fabs(&mut self, a: E) -> E { let w = self.w(a); let m = self.c(mask(w) >> 1, w); self.bin(Op::And, a, m) }
    fn nan(&mut self, a: E) -> E {
        let w = self.w(a);
        let x = self.fabs(a);
        let inf = self.c(if w == 32 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 }, w);
        self.cmp(Cmp::Ult, inf, x)
    }
    /// signed numbers in the order of the floats
    fn fkey(&mut self, a: E) -> E {
        let w = self.w(a);
        let x = self.fabs(a);
        let z = self.c(0, w);
        let n = self.bin(Op::Sub, z, x);
        let neg = self.cmp(Cmp::Slt, a, z);
        self.ite(neg, n, x)
    }
    fn widen(&mut self, a: E) -> E {
        let s = self.extract(a, 31, 1);
        let e = self.extract(a, 23, 8);
        let m = self.extract(a, 0, 23);
        let (e11, m52) = (self.zext(e, 11), self.zext(m, 52));
        let (k, sh) = (self.c(896, 11), self.c(29, 52));
        let (ee, mm) = (self.bin(Op::Add, e11, k), self.bin(Op::Shl, m52, sh));
        let normal = self.cat(&[mm, ee]);
        let mut sub = self.c(0, 63);
        for i in 0..23u16 {
            let bit = self.extract(m, i, 1);
            let k = self.c(52 - i as u128, 52);
            let mm = self.bin(Op::Shl, m52, k);
            let ee = self.c(1023 - 149 + i as u128, 11);
            let v = self.cat(&[mm, ee]);
            sub = self.ite(bit, v, sub);
        }
        let inf = self.c(0x7ff << 52, 63);
        let (q, z) = (self.c(1 << 51, 52), self.c(0, 23));
        let mm = self.bin(Op::Or, mm, q);
        let ff = self.c(0x7ff, 11);
        let nan = self.cat(&[mm, ff]);
        let mz = self.cmp(Cmp::Eq, m, z);
        let special = self.ite(mz, inf, nan);
        let (e0, e1) = (self.c(0, 8), self.c(255, 8));
        let (is0, is1) = (self.cmp(Cmp::Eq, e, e0), self.cmp(Cmp::Eq, e, e1));
        let r = self.ite(is1, special, normal);
        let r = self.ite(is0, sub, r);
        self.cat(&[r, s])
    }

    pub fn varset(&mut self, e: E) -> VarSet {
        if let Some(v) = &self.vars[e as usize] { return v.clone(); }
        let mut merge = |s: &mut Self, es: &[E]| -> VarSet {
            let mut first = s.varset(es[0]);
            for &x in &es[1..] {
                let o = s.varset(x);
                if o.is_empty() || Rc::ptr_eq(&o, &first) { continue; }
                if first.is_empty() { first = o; continue; }
                let mut v: Vec<u32> = Vec::with_capacity(first.len() + o.len());
                let (mut i, mut j) = (0, 0);
                while i < first.len() || j < o.len() {
                    if j >= o.len() || (i < first.len() && first[i] < o[j]) { v.push(first[i]); i += 1; }
                    else if i >= first.len() || o[j] < first[i] { v.push(o[j]); j += 1; }
                    else { v.push(o[j]); i += 1; j += 1; }
                }
                if v.len() == first.len() { continue; }
                first = Rc::new(v);
            }
            first
        };
        let r = match self.n(e).clone() {
            Node::Const(_) => Rc::new(vec![]),
            Node::Var(v) => Rc::new(vec![v]),
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::F(_, a, b) => merge(self, &[a, b]),
            Node::Not(a) | Node::SExt(a) | Node::Extract(a, _) => self.varset(a),
            Node::Cat(p) => merge(self, &p),
            Node::Ite(c, a, b) => merge(self, &[c, a, b]),
        };
        self.vars[e as usize] = Some(r.clone());
        r
    }

    pub fn depth_of(&self, e: E) -> u32 { self.depth[e as usize] as u32 }
    pub fn eval_begin(&mut self) { self.gen += 1; }
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        if let Node::Const(c) = self.nodes[e as usize] { return c; }
        if self.ev_gen[e as usize] == self.gen { return self.ev_val[e as usize]; }
        let w = self.w(e);
        // SAFETY-free: clone small nodes only
        let v = match self.nodes[e as usize] {
            Node::Const(c) => c,
            Node::Var(v) => *model.get(v as usize).unwrap_or(&0) as u128,
            Node::Bin(op, a, b) => { let x = self.eval(a, model); let y = self.eval(b, model); cop(op, w, x, y) }
            Node::Cmp(p, a, b) => { let x = self.eval(a, model); let y = self.eval(b, model); ccmp(p, self.w(a), x, y) as u128 }
            Node::Not(a) => self.eval(a, model) ^ 1,
            Node::SExt(a) => { let x = self.eval(a, model); sext(x, self.w(a)) as u128 & mask(w) }
            Node::Extract(a, lo) => (self.eval(a, model) >> lo) & mask(w),
            Node::Cat(_) => {
                let n = if let Node::Cat(p) = &self.nodes[e as usize] { p.len() } else { 0 };
                let (mut r, mut sh) = (0u128, 0u32);
                for i in 0..n {
                    let p = if let Node::Cat(p) = &self.nodes[e as usize] { p[i] } else { 0 };
                    r |= self.eval(p, model) << sh;
                    sh += self.w(p) as u32;
                }
                r
            }
            Node::Ite(c, a, b) => if self.eval(c, model) != 0 { self.eval(a, model) } else { self.eval(b, model) },
            Node::F(op, a, b) => { let x = self.eval(a, model); let y = self.eval(b, model); cfop(op, w, self.w(a), x, y) }
        };
        self.ev_gen[e as usize] = self.gen;
        self.ev_val[e as usize] = v;
        v
    }
    pub fn show(&self, e: E) -> String { self.show_d(e, 8) }
    pub fn show_d(&self, e: E, d: u32) -> String {
        if d == 0 { return format!("#{}", e); }
        let s = |x: E| self.show_d(x, d - 1);
        match self.n(e) {
            Node::Const(c) => format!("{}:{}", c, self.w(e)),
            Node::Var(v) => format!("v{}", v),
            Node::Bin(o, a, b) => format!("({:?} {} {})", o, s(*a), s(*b)),
            Node::Cmp(o, a, b) => format!("({:?} {} {})", o, s(*a), s(*b)),
            Node::Not(a) => format!("(not {})", s(*a)),
            Node::SExt(a) => format!("(sext{} {})", self.w(e), s(*a)),
            Node::Extract(a, lo) => format!("{}[{}+:{}]", s(*a), lo, self.w(e)),
            Node::Cat(p) => format!("(cat {})", p.iter().map(|x| s(*x)).collect::<Vec<_>>().join(" ")),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", s(*c), s(*a), s(*b)),
            Node::F(o, a, b) => format!("(f{:?} {} {})", o, s(*a), s(*b)),
        }
    }
}
