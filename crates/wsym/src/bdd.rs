//! Reduced ordered binary decision diagrams over the bits of the symbolic bytes (variable = 8*byte + 7-bit).
use std::collections::HashMap;

pub type B = u32;
pub const F: B = 0;
pub const T: B = 1;

#[derive(Default)]
pub struct Bdd {
    pub var: Vec<u32>,
    pub lo: Vec<B>,
    pub hi: Vec<B>,
    uniq: HashMap<(u32, B, B), B>,
    and: HashMap<(B, B), B>,
    xor: HashMap<(B, B), B>,
}

impl Bdd {
    pub fn new() -> Self {
        Bdd { var: vec![u32::MAX; 2], lo: vec![0, 1], hi: vec![0, 1], ..Default::default() }
    }
    pub fn mk(&mut self, v: u32, lo: B, hi: B) -> B {
        if lo == hi {
            return lo;
        }
        if let Some(&n) = self.uniq.get(&(v, lo, hi)) {
            return n;
        }
        let n = self.var.len() as B;
        self.var.push(v);
        self.lo.push(lo);
        self.hi.push(hi);
        self.uniq.insert((v, lo, hi), n);
        n
    }
    pub fn not(&mut self, a: B) -> B {
        self.xor(a, T)
    }
    pub fn and(&mut self, a: B, b: B) -> B {
        if a == F || b == F {
            return F;
        }
        if a == T || a == b {
            return b;
        }
        if b == T {
            return a;
        }
        let k = (a.min(b), a.max(b));
        if let Some(&n) = self.and.get(&k) {
            return n;
        }
        let (va, vb) = (self.var[a as usize], self.var[b as usize]);
        let v = va.min(vb);
        let (al, ah) = if va == v { (self.lo[a as usize], self.hi[a as usize]) } else { (a, a) };
        let (bl, bh) = if vb == v { (self.lo[b as usize], self.hi[b as usize]) } else { (b, b) };
        let l = self.and(al, bl);
        let h = self.and(ah, bh);
        let r = self.mk(v, l, h);
        self.and.insert(k, r);
        r
    }
    pub fn xor(&mut self, a: B, b: B) -> B {
        if a == b {
            return F;
        }
        if a == F {
            return b;
        }
        if b == F {
            return a;
        }
        let k = (a.min(b), a.max(b));
        if let Some(&n) = self.xor.get(&k) {
            return n;
        }
        let (va, vb) = (self.var[a as usize], self.var[b as usize]);
        let v = va.min(vb);
        let (al, ah) = if va == v { (self.lo[a as usize], self.hi[a as usize]) } else { (a, a) };
        let (bl, bh) = if vb == v { (self.lo[b as usize], self.hi[b as usize]) } else { (b, b) };
        let l = self.xor(al, bl);
        let h = self.xor(ah, bh);
        let r = self.mk(v, l, h);
        self.xor.insert(k, r);
        r
    }
    pub fn or(&mut self, a: B, b: B) -> B {
        let (na, nb) = (self.not(a), self.not(b));
        let c = self.and(na, nb);
        self.not(c)
    }
    pub fn ite(&mut self, c: B, a: B, b: B) -> B {
        let x = self.and(c, a);
        let nc = self.not(c);
        let y = self.and(nc, b);
        self.or(x, y)
    }
    /// The cofactor for one value of a byte.
    pub fn byte(&self, mut f: B, byte: u32, val: u8) -> B {
        while f > 1 && self.var[f as usize] / 8 == byte {
            let bit = 7 - self.var[f as usize] % 8;
            f = if val >> bit & 1 == 1 { self.hi[f as usize] } else { self.lo[f as usize] };
        }
        f
    }
    pub fn size(&self) -> usize {
        self.var.len()
    }
}
