//! A normal form modulo associativity, commutativity and linear arithmetic, for the terms which the
//! fast solver gives up on (hashes). Sound rewriting only; used on demand.
use crate::expr::*;
use std::collections::BTreeMap;

impl Arena {
    pub fn canon(&mut self, e: E) -> E {
        if let Some(r) = self.norm.get(&e) { return *r; }
        let w = self.w(e);
        let r = match self.n(e).clone() {
            Node::Const(_) | Node::Var(_) => e,
            Node::Bin(Op::Add | Op::Sub, ..) => self.linear(e),
            Node::Bin(Op::Mul, _, b) if self.cv(b).is_some() => self.linear(e),
            Node::Bin(op @ (Op::Xor | Op::And | Op::Or | Op::Mul), ..) => {
                let mut leaves = vec![];
                self.leaves(op, e, &mut leaves);
                leaves.sort();
                if op == Op::Xor {
                    let mut out: Vec<E> = vec![];
                    for l in leaves { if out.last() == Some(&l) { out.pop(); } else { out.push(l) } }
                    leaves = out;
                } else if op != Op::Mul { leaves.dedup() }
                match leaves.split_first() {
                    None => self.c(0, w),
                    Some((h, t)) => { let mut r = *h; for x in t { r = self.bin(op, r, *x) } r }
                }
            }
            Node::Bin(op, a, b) => { let (x, y) = (self.canon(a), self.canon(b)); self.bin(op, x, y) }
            Node::Cmp(Cmp::Eq, a, b) => {
                let (x, y) = (self.canon(a), self.canon(b));
                if x == y { self.c(1, 1) } else { self.cmp(Cmp::Eq, x, y) }
            }
            Node::Cmp(p, a, b) => { let (x, y) = (self.canon(a), self.canon(b)); self.cmp(p, x, y) }
            Node::Not(a) => { let x = self.canon(a); self.not(x) }
            Node::SExt(a) => { let x = self.canon(a); self.sext(x, w) }
            Node::Extract(a, lo) => { let x = self.canon(a); self.extract(x, lo, w) }
            Node::Cat(p) => { let v: Vec<E> = p.iter().map(|x| self.canon(*x)).collect(); self.cat(&v) }
            Node::Ite(c, a, b) => { let (c, a, b) = (self.canon(c), self.canon(a), self.canon(b)); self.ite(c, a, b) }
            Node::F(op, a, b) => { let (x, y) = (self.canon(a), self.canon(b)); self.f(op, w, x, y) }
        };
        self.norm.insert(e, r);
        r
    }
    fn leaves(&mut self, op: Op, e: E, out: &mut Vec<E>) {
        match *self.n(e) {
            Node::Bin(o, a, b) if o == op => { self.leaves(op, a, out); self.leaves(op, b, out) }
            _ => {
                let c = self.canon(e);
                match *self.n(c) { Node::Bin(o, ..) if o == op && c != e => self.leaves(op, c, out), _ => out.push(c) }
            }
        }
    }
    fn sum(&mut self, e: E, k: u128, m: u128, cs: &mut BTreeMap<E, u128>, add: &mut u128, top: bool) {
        match *self.n(e) {
            Node::Const(c) => { *add = add.wrapping_add(c.wrapping_mul(k)) & m; return }
            Node::Bin(Op::Add, a, b) => { self.sum(a, k, m, cs, add, true); self.sum(b, k, m, cs, add, true); return }
            Node::Bin(Op::Sub, a, b) => { self.sum(a, k, m, cs, add, true); self.sum(b, k.wrapping_neg() & m, m, cs, add, true); return }
            Node::Bin(Op::Mul, a, b) => if let Some(c) = self.cv(b) { self.sum(a, k.wrapping_mul(c) & m, m, cs, add, true); return },
            _ => {}
        }
        if top {
            let c = self.canon(e);
            if c != e { return self.sum(c, k, m, cs, add, false) }
        }
        let x = cs.entry(e).or_insert(0);
        *x = x.wrapping_add(k) & m;
    }
    fn linear(&mut self, e: E) -> E {
        let w = self.w(e);
        let m = mask(w);
        let (mut cs, mut add) = (BTreeMap::new(), 0u128);
        self.sum(e, 1, m, &mut cs, &mut add, false);
        let mut r: Option<E> = None;
        for (x, k) in cs {
            if k == 0 { continue }
            let kc = self.c(k, w);
            let t = self.bin(Op::Mul, x, kc);
            r = Some(match r { None => t, Some(r) => self.bin(Op::Add, r, t) });
        }
        let kc = self.c(add, w);
        match r { None => kc, Some(r) => self.bin(Op::Add, r, kc) }
    }
}
