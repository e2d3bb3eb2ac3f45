use crate::bdd::{Bdd, B};
use crate::module::*;
use std::collections::HashMap;
use std::rc::Rc;

#[path = "js.rs"]
mod js;
use js::Js;

pub type Mask = [u64; 4];
const PAGE: usize = 4096;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct V {
    pub c: u64,
    pub s: u32, // 0: concrete
}

#[inline(always)]
fn con(c: u64) -> V {
    V { c, s: 0 }
}

enum Node {
    Tab(u8, Rc<[u64; 256]>),
    Un(u16, V),
    Bin(u16, V, V),
    Sel(V, V, V),
}

// unary pseudo opcodes: byte k of a value
const U_BYTE: u16 = 0x400;

#[derive(Clone)]
struct Page {
    d: [u8; PAGE],
    s: Option<Box<[u32; PAGE]>>,
}

#[derive(Clone, Copy)]
struct Frame {
    func: u32,
    pc: u32,
    base: u32,
}

#[derive(Clone)]
struct State {
    stack: Vec<V>,
    frames: Vec<Frame>,
    mem: Vec<Rc<Page>>,
    globals: Vec<V>,
    doms: Vec<Mask>,
    fixed: u64,
    result: Vec<V>,
    used: u64,
    js: Vec<Js>,
}

pub enum Word {
    C(u64),
    Tab(usize, Vec<(u8, u64)>),
}

pub struct PathOut {
    pub doms: Vec<Mask>,
    pub out: Result<Vec<Word>, String>,
}

/// Why an instruction could not be finished.
enum Stop {
    Fork(usize, Vec<Mask>),
    Trap(String),
    Limit(String),
}
type Res<T> = Result<T, Stop>;

pub struct Engine<'m> {
    m: &'m Module,
    nodes: Vec<Node>,
    sup: Vec<u64>,
    tabs: HashMap<(u8, Rc<[u64; 256]>), u32>,
    uns: HashMap<(u16, V), u32>,
    bins: HashMap<(u16, V, V), u32>,
    sels: HashMap<(V, V, V), u32>,
    bdd: Bdd,
    blasted: HashMap<u32, Rc<Vec<B>>>,
    memo: Vec<u64>,
    memo_gen: Vec<u32>,
    gen: u32,
    pub paths: Vec<PathOut>,
    pub steps: u64,
    ticks: u64,
    pub forks: u64,
    pub decisions: u64,
    pub touched: Vec<bool>,
    pub keep_sym: bool,
    act: Vec<usize>,
    max_paths: usize,
    max_steps: u64,
    /// Steps after which a single path is given up (reported as a trap), and the count at which the current one began.
    pub path_steps: u64,
    path_base: u64,
    deadline: std::time::Instant,
    zero: Rc<Page>,
}

fn ones(m: &Mask) -> u32 {
    m.iter().map(|w| w.count_ones()).sum()
}

fn has(m: &Mask, v: usize) -> bool {
    m[v >> 6] >> (v & 63) & 1 == 1
}

fn first(m: &Mask) -> u8 {
    (0..256).find(|v| has(m, *v)).unwrap() as u8
}

fn values(m: &Mask) -> Vec<u8> {
    (0..256).filter(|v| has(m, *v)).map(|v| v as u8).collect()
}

#[inline(always)]
fn un(op: u16, a: u64) -> Option<u64> {
    let i = a as u32;
    Some(match op {
        0x45 => (i == 0) as u64,
        0x50 => (a == 0) as u64,
        0x67 => i.leading_zeros() as u64,
        0x68 => i.trailing_zeros() as u64,
        0x69 => i.count_ones() as u64,
        0x79 => a.leading_zeros() as u64,
        0x7a => a.trailing_zeros() as u64,
        0x7b => a.count_ones() as u64,
        0xa7 => i as u64,
        0xac => i as i32 as i64 as u64,
        0xad => i as u64,
        0xc0 => i as u8 as i8 as i32 as u32 as u64,
        0xc1 => i as u16 as i16 as i32 as u32 as u64,
        0xc2 => a as u8 as i8 as i64 as u64,
        0xc3 => a as u16 as i16 as i64 as u64,
        0xc4 => a as u32 as i32 as i64 as u64,
        0xbc..=0xbf => a,
        // floats, concrete operands only
        0x8b => (f(a).abs()).to_bits() as u64,
        0x8c => (-f(a)).to_bits() as u64,
        0x8d => f(a).ceil().to_bits() as u64,
        0x8e => f(a).floor().to_bits() as u64,
        0x8f => f(a).trunc().to_bits() as u64,
        0x91 => f(a).sqrt().to_bits() as u64,
        0x99 => d(a).abs().to_bits(),
        0x9a => (-d(a)).to_bits(),
        0x9b => d(a).ceil().to_bits(),
        0x9c => d(a).floor().to_bits(),
        0x9d => d(a).trunc().to_bits(),
        0x9f => d(a).sqrt().to_bits(),
        0xa8 | 0x100 => f(a) as i32 as u32 as u64,
        0xa9 | 0x101 => f(a) as u32 as u64,
        0xaa | 0x102 => d(a) as i32 as u32 as u64,
        0xab | 0x103 => d(a) as u32 as u64,
        0xae | 0x104 => f(a) as i64 as u64,
        0xaf | 0x105 => f(a) as u64,
        0xb0 | 0x106 => d(a) as i64 as u64,
        0xb1 | 0x107 => d(a) as u64,
        0xb2 => (i as i32 as f32).to_bits() as u64,
        0xb3 => (i as f32).to_bits() as u64,
        0xb4 => (a as i64 as f32).to_bits() as u64,
        0xb5 => (a as f32).to_bits() as u64,
        0xb6 => (d(a) as f32).to_bits() as u64,
        0xb7 => (i as i32 as f64).to_bits(),
        0xb8 => (i as f64).to_bits(),
        0xb9 => (a as i64 as f64).to_bits(),
        0xba => (a as f64).to_bits(),
        0xbb => (f(a) as f64).to_bits(),
        U_BYTE..=0x407 => a >> (8 * (op - U_BYTE)) & 0xff,
        _ => return None,
    })
}

#[inline(always)]
fn f(a: u64) -> f32 {
    f32::from_bits(a as u32)
}

#[inline(always)]
fn d(a: u64) -> f64 {
    f64::from_bits(a)
}

#[inline(always)]
fn bin(op: u16, a: u64, b: u64) -> Option<u64> {
    let (x, y) = (a as u32, b as u32);
    let (sx, sy) = (x as i32, y as i32);
    let (la, lb) = (a as i64, b as i64);
    Some(match op {
        0x46 => (x == y) as u64,
        0x47 => (x != y) as u64,
        0x48 => (sx < sy) as u64,
        0x49 => (x < y) as u64,
        0x4a => (sx > sy) as u64,
        0x4b => (x > y) as u64,
        0x4c => (sx <= sy) as u64,
        0x4d => (x <= y) as u64,
        0x4e => (sx >= sy) as u64,
        0x4f => (x >= y) as u64,
        0x51 => (a == b) as u64,
        0x52 => (a != b) as u64,
        0x53 => (la < lb) as u64,
        0x54 => (a < b) as u64,
        0x55 => (la > lb) as u64,
        0x56 => (a > b) as u64,
        0x57 => (la <= lb) as u64,
        0x58 => (a <= b) as u64,
        0x59 => (la >= lb) as u64,
        0x5a => (a >= b) as u64,
        0x5b => (f(a) == f(b)) as u64,
        0x5c => (f(a) != f(b)) as u64,
        0x5d => (f(a) < f(b)) as u64,
        0x5e => (f(a) > f(b)) as u64,
        0x5f => (f(a) <= f(b)) as u64,
        0x60 => (f(a) >= f(b)) as u64,
        0x61 => (d(a) == d(b)) as u64,
        0x62 => (d(a) != d(b)) as u64,
        0x63 => (d(a) < d(b)) as u64,
        0x64 => (d(a) > d(b)) as u64,
        0x65 => (d(a) <= d(b)) as u64,
        0x66 => (d(a) >= d(b)) as u64,
        0x6a => x.wrapping_add(y) as u64,
        0x6b => x.wrapping_sub(y) as u64,
        0x6c => x.wrapping_mul(y) as u64,
        0x6d => {
            if y == 0 || (sx == i32::MIN && sy == -1) {
                return None;
            }
            (sx / sy) as u32 as u64
        }
        0x6e => x.checked_div(y)? as u64,
        0x6f => {
            if y == 0 {
                return None;
            }
            sx.wrapping_rem(sy) as u32 as u64
        }
        0x70 => x.checked_rem(y)? as u64,
        0x71 => (x & y) as u64,
        0x72 => (x | y) as u64,
        0x73 => (x ^ y) as u64,
        0x74 => x.wrapping_shl(y) as u64,
        0x75 => sx.wrapping_shr(y) as u32 as u64,
        0x76 => x.wrapping_shr(y) as u64,
        0x77 => x.rotate_left(y & 31) as u64,
        0x78 => x.rotate_right(y & 31) as u64,
        0x7c => a.wrapping_add(b),
        0x7d => a.wrapping_sub(b),
        0x7e => a.wrapping_mul(b),
        0x7f => la.checked_div(lb)? as u64,
        0x80 => a.checked_div(b)?,
        0x81 => {
            if b == 0 {
                return None;
            }
            la.wrapping_rem(lb) as u64
        }
        0x82 => a.checked_rem(b)?,
        0x83 => a & b,
        0x84 => a | b,
        0x85 => a ^ b,
        0x86 => a.wrapping_shl(y),
        0x87 => la.wrapping_shr(y) as u64,
        0x88 => a.wrapping_shr(y),
        0x89 => a.rotate_left(y & 63),
        0x8a => a.rotate_right(y & 63),
        0x92 => (f(a) + f(b)).to_bits() as u64,
        0x93 => (f(a) - f(b)).to_bits() as u64,
        0x94 => (f(a) * f(b)).to_bits() as u64,
        0x95 => (f(a) / f(b)).to_bits() as u64,
        0xa0 => (d(a) + d(b)).to_bits(),
        0xa1 => (d(a) - d(b)).to_bits(),
        0xa2 => (d(a) * d(b)).to_bits(),
        0xa3 => (d(a) / d(b)).to_bits(),
        _ => return None,
    })
}

fn is_div(op: u16) -> bool {
    matches!(op, 0x6d..=0x70 | 0x7f..=0x82)
}

/// Whether a two-operand instruction can be bit-blasted.
fn blastable(op: u16, b: V) -> bool {
    match op {
        0x46..=0x5a | 0x6a | 0x6b | 0x71..=0x73 | 0x7c | 0x7d | 0x83..=0x85 => true,
        0x74..=0x78 | 0x86..=0x8a => b.s == 0,
        0x6c | 0x7e => b.s == 0,
        _ => false,
    }
}

fn un_blastable(op: u16) -> bool {
    matches!(op, 0x45 | 0x50 | 0xa7 | 0xac | 0xad | 0xc0..=0xc4 | 0xbc..=0xbf | U_BYTE..=0x407)
}

impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, max_paths: usize, max_steps: u64, secs: f64) -> Self {
        Engine {
            m,
            nodes: vec![Node::Un(0, con(0))],
            sup: vec![0],
            tabs: HashMap::new(),
            uns: HashMap::new(),
            bins: HashMap::new(),
            sels: HashMap::new(),
            bdd: Bdd::new(),
            blasted: HashMap::new(),
            memo: vec![],
            memo_gen: vec![],
            gen: 0,
            paths: vec![],
            steps: 0,
            ticks: 0,
            forks: 0,
            decisions: 0,
            touched: vec![false; m.funcs.len()],
            keep_sym: false,
            act: vec![],
            max_paths,
            max_steps,
            path_steps: u64::MAX,
            path_base: 0,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs_f64(secs),
            zero: Rc::new(Page { d: [0; PAGE], s: None }),
        }
    }

    pub fn node_count(&self) -> usize {
        self.nodes.len()
    }

    pub fn bdd_size(&self) -> usize {
        self.bdd.size()
    }

    // ---------------------------------------------------------------- symbolic values

    fn add_node(&mut self, n: Node, sup: u64) -> u32 {
        self.nodes.push(n);
        self.sup.push(sup);
        (self.nodes.len() - 1) as u32
    }

    fn esup(&self, st: &State, v: V) -> u64 {
        self.sup[v.s as usize] & !st.fixed
    }

    fn point(&self, st: &State) -> Vec<u8> {
        st.doms.iter().map(first).collect()
    }

    fn eval_new(&mut self) {
        self.gen += 1;
        self.memo.resize(self.nodes.len(), 0);
        self.memo_gen.resize(self.nodes.len(), 0);
    }

    fn eval(&mut self, v: V, pt: &[u8]) -> u64 {
        if v.s == 0 {
            return v.c;
        }
        let i = v.s as usize;
        if let Node::Tab(b, t) = &self.nodes[i] {
            return t[pt[*b as usize] as usize];
        }
        if self.memo_gen[i] == self.gen {
            return self.memo[i];
        }
        let r = match &self.nodes[i] {
            Node::Tab(..) => unreachable!(),
            Node::Un(op, a) => {
                let (op, a) = (*op, *a);
                let x = self.eval(a, pt);
                un(op, x).unwrap_or(0)
            }
            Node::Bin(op, a, b) => {
                let (op, a, b) = (*op, *a, *b);
                let x = self.eval(a, pt);
                let y = self.eval(b, pt);
                bin(op, x, y).unwrap_or(0)
            }
            Node::Sel(c, a, b) => {
                let (c, a, b) = (*c, *a, *b);
                if self.eval(c, pt) as u32 != 0 {
                    self.eval(a, pt)
                } else {
                    self.eval(b, pt)
                }
            }
        };
        self.memo[i] = r;
        self.memo_gen[i] = self.gen;
        r
    }

    /// The value as a function of one byte (of which it alone depends in this state).
    fn tabulate(&mut self, st: &State, v: V, byte: usize) -> Vec<(u8, u64)> {
        if let Node::Tab(b, t) = &self.nodes[v.s as usize] {
            if v.s != 0 && *b as usize == byte {
                return values(&st.doms[byte]).into_iter().map(|x| (x, t[x as usize])).collect();
            }
        }
        let mut pt = self.point(st);
        let mut out = vec![];
        for x in values(&st.doms[byte]) {
            pt[byte] = x;
            self.eval_new();
            out.push((x, self.eval(v, &pt)));
        }
        out
    }

    fn mk_tab(&mut self, byte: usize, t: &[(u8, u64)]) -> V {
        if t.iter().all(|e| e.1 == t[0].1) {
            return con(t[0].1);
        }
        let mut a = [0u64; 256];
        for (v, x) in t {
            a[*v as usize] = *x;
        }
        let rc = Rc::new(a);
        let k = (byte as u8, rc.clone());
        if let Some(&s) = self.tabs.get(&k) {
            return V { c: 0, s };
        }
        let s = self.add_node(Node::Tab(byte as u8, rc), 1 << byte);
        self.tabs.insert(k, s);
        V { c: 0, s }
    }

    /// A symbolic value that in this state depends on at most one byte becomes a table or a constant.
    fn settle(&mut self, st: &State, v: V) -> V {
        if v.s == 0 {
            return v;
        }
        let s = self.esup(st, v);
        if s == 0 {
            let pt = self.point(st);
            self.eval_new();
            return con(self.eval(v, &pt));
        }
        if s.count_ones() == 1 {
            let b = s.trailing_zeros() as usize;
            let t = self.tabulate(st, v, b);
            return self.mk_tab(b, &t);
        }
        v
    }

    fn sym_un(&mut self, st: &State, op: u16, a: V) -> Res<V> {
        let a = self.settle(st, a);
        if a.s == 0 {
            return un(op, a.c).map(con).ok_or_else(|| Stop::Trap("float conversion".into()));
        }
        let s = self.esup(st, a);
        if s.count_ones() == 1 {
            let b = s.trailing_zeros() as usize;
            let mut t = self.tabulate(st, a, b);
            for e in t.iter_mut() {
                e.1 = un(op, e.1).unwrap_or_else(|| panic!("unary {op:#x}"));
            }
            return Ok(self.mk_tab(b, &t));
        }
        if !un_blastable(op) {
            let c = self.concrete(st, a)?;
            return Ok(con(un(op, c).unwrap()));
        }
        if matches!(op, 0xad | 0xbc..=0xbf) {
            return Ok(a); // i32 values are kept zero-extended
        }
        if let Some(&s) = self.uns.get(&(op, a)) {
            return Ok(V { c: 0, s });
        }
        let sup = self.sup[a.s as usize];
        let s = self.add_node(Node::Un(op, a), sup);
        self.uns.insert((op, a), s);
        Ok(V { c: 0, s })
    }

    fn sym_bin(&mut self, st: &State, op: u16, a: V, b: V) -> Res<V> {
        let a = self.settle(st, a);
        let mut b = self.settle(st, b);
        let mut a = a;
        let s = self.esup(st, a) | self.esup(st, b);
        if s == 0 {
            return bin(op, a.c, b.c).map(con).ok_or_else(|| Stop::Trap("division".into()));
        }
        if s.count_ones() == 1 {
            let by = s.trailing_zeros() as usize;
            let ta = self.tabulate(st, a, by);
            let tb = self.tabulate(st, b, by);
            let mut t = Vec::with_capacity(ta.len());
            for (x, y) in ta.iter().zip(&tb) {
                match bin(op, x.1, y.1) {
                    Some(r) => t.push((x.0, r)),
                    None => {
                        assert!(is_div(op), "binary {op:#x}");
                        // split off the dividing values
                        let c = self.concrete(st, b)?;
                        let c2 = self.concrete(st, a)?;
                        return bin(op, c2, c).map(con).ok_or_else(|| Stop::Trap("division".into()));
                    }
                }
            }
            return Ok(self.mk_tab(by, &t));
        }
        // commutative operations with the constant second
        if a.s == 0 && matches!(op, 0x46 | 0x47 | 0x51 | 0x52 | 0x6a | 0x6c | 0x71..=0x73 | 0x7c | 0x7e | 0x83..=0x85) {
            std::mem::swap(&mut a, &mut b);
        }
        if b.s == 0 {
            match (op, b.c) {
                (0x71 | 0x83, 0) | (0x6c | 0x7e, 0) => return Ok(con(0)),
                (0x72 | 0x84 | 0x6a | 0x6b | 0x7c | 0x7d | 0x73 | 0x85, 0) => return Ok(a),
                (0x71, 0xffff_ffff) | (0x83, u64::MAX) => return Ok(a),
                _ => {}
            }
        }
        if !blastable(op, b) {
            let cb = self.concrete(st, b)?;
            let b = con(cb);
            if !blastable(op, b) {
                let ca = self.concrete(st, a)?;
                return bin(op, ca, cb).map(con).ok_or_else(|| Stop::Trap("division".into()));
            }
            return self.sym_bin(st, op, a, b);
        }
        if let Some(&s) = self.bins.get(&(op, a, b)) {
            return Ok(V { c: 0, s });
        }
        let sup = self.sup[a.s as usize] | self.sup[b.s as usize];
        let s = self.add_node(Node::Bin(op, a, b), sup);
        self.bins.insert((op, a, b), s);
        Ok(V { c: 0, s })
    }

    fn select(&mut self, st: &State, c: V, a: V, b: V) -> Res<V> {
        let c = self.settle(st, c);
        if c.s == 0 {
            return Ok(if c.c as u32 != 0 { a } else { b });
        }
        if a == b {
            return Ok(a);
        }
        let a = self.settle(st, a);
        let b = self.settle(st, b);
        let s = self.esup(st, a) | self.esup(st, b) | self.esup(st, c);
        if s.count_ones() == 1 {
            let by = s.trailing_zeros() as usize;
            let (tc, ta, tb) = (self.tabulate(st, c, by), self.tabulate(st, a, by), self.tabulate(st, b, by));
            let t: Vec<_> =
                tc.iter().enumerate().map(|(i, e)| (e.0, if e.1 as u32 != 0 { ta[i].1 } else { tb[i].1 })).collect();
            return Ok(self.mk_tab(by, &t));
        }
        if let Some(&s) = self.sels.get(&(c, a, b)) {
            return Ok(V { c: 0, s });
        }
        let sup = self.sup[a.s as usize] | self.sup[b.s as usize] | self.sup[c.s as usize];
        let s = self.add_node(Node::Sel(c, a, b), sup);
        self.sels.insert((c, a, b), s);
        Ok(V { c: 0, s })
    }

    // ---------------------------------------------------------------- decisions

    fn blast(&mut self, v: V) -> Rc<Vec<B>> {
        if v.s == 0 {
            return Rc::new((0..64).map(|i| (v.c >> i & 1) as B).collect());
        }
        if let Some(r) = self.blasted.get(&v.s) {
            return r.clone();
        }
        let r: Vec<B> = match &self.nodes[v.s as usize] {
            Node::Tab(b, t) => {
                let (b, t) = (*b as u32, t.clone());
                (0..64)
                    .map(|i| {
                        let mut lev: Vec<B> = (0..256).map(|x| (t[x] >> i & 1) as B).collect();
                        for bit in (0..8u32).rev() {
                            let n = lev.len() / 2;
                            lev = (0..n).map(|j| self.bdd.mk(8 * b + bit, lev[2 * j], lev[2 * j + 1])).collect();
                        }
                        lev[0]
                    })
                    .collect()
            }
            Node::Un(op, a) => {
                let (op, a) = (*op, *a);
                let x = self.blast(a);
                let ext = |from: usize, to: usize| -> Vec<B> {
                    (0..64).map(|i| if i < to { x[i.min(from - 1)] } else { 0 }).collect()
                };
                match op {
                    0x45 => self.is_zero(&x[..32]),
                    0x50 => self.is_zero(&x[..]),
                    0xa7 => (0..64).map(|i| if i < 32 { x[i] } else { 0 }).collect(),
                    0xac => ext(32, 64),
                    0xc0 => ext(8, 32),
                    0xc1 => ext(16, 32),
                    0xc2 => ext(8, 64),
                    0xc3 => ext(16, 64),
                    0xc4 => ext(32, 64),
                    0xad | 0xbc..=0xbf => x.to_vec(),
                    _ => {
                        let k = 8 * (op - U_BYTE) as usize;
                        (0..64).map(|i| if i < 8 { x[k + i] } else { 0 }).collect()
                    }
                }
            }
            Node::Sel(c, a, b) => {
                let (c, a, b) = (*c, *a, *b);
                let x = self.blast(c);
                let z = self.is_zero(&x[..32])[0];
                let (p, q) = (self.blast(a), self.blast(b));
                (0..64).map(|i| self.bdd.ite(z, q[i], p[i])).collect()
            }
            Node::Bin(op, a, b) => {
                let (op, a, b) = (*op, *a, *b);
                let x = self.blast(a);
                let y = self.blast(b);
                self.blast_bin(op, &x, &y, b)
            }
        };
        let r = Rc::new(r);
        self.blasted.insert(v.s, r.clone());
        r
    }

    fn is_zero(&mut self, x: &[B]) -> Vec<B> {
        let mut o = 0;
        for b in x {
            o = self.bdd.or(o, *b);
        }
        let mut r = vec![0; 64];
        r[0] = self.bdd.not(o);
        r
    }

    fn adder(&mut self, x: &[B], y: &[B], mut c: B, w: usize) -> (Vec<B>, B) {
        let mut o = vec![0; 64];
        for i in 0..w {
            let t = self.bdd.xor(x[i], y[i]);
            o[i] = self.bdd.xor(t, c);
            let g = self.bdd.and(x[i], y[i]);
            let p = self.bdd.and(t, c);
            c = self.bdd.or(g, p);
        }
        (o, c)
    }

    fn blast_bin(&mut self, op: u16, x: &[B], y: &[B], bv: V) -> Vec<B> {
        let w = if matches!(op, 0x46..=0x4f | 0x6a..=0x78) { 32 } else { 64 };
        let one = |b: B| {
            let mut r = vec![0; 64];
            r[0] = b;
            r
        };
        match op {
            0x46 | 0x47 | 0x51 | 0x52 => {
                let d: Vec<B> = (0..w).map(|i| self.bdd.xor(x[i], y[i])).collect();
                let z = self.is_zero(&d)[0];
                one(if op == 0x46 || op == 0x51 { z } else { self.bdd.not(z) })
            }
            0x48..=0x4f | 0x53..=0x5a => {
                let k = if w == 32 { op - 0x48 } else { op - 0x53 };
                // order: lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u
                let signed = k % 2 == 0;
                let (p, q, neg) = match k / 2 {
                    0 => (x, y, false),
                    1 => (y, x, false),
                    2 => (y, x, true),
                    _ => (x, y, true),
                };
                // p < q: no carry out of p + !q + 1
                let mut pp = p[..w].to_vec();
                let mut qq = q[..w].to_vec();
                if signed {
                    pp[w - 1] = self.bdd.not(pp[w - 1]);
                    qq[w - 1] = self.bdd.not(qq[w - 1]);
                }
                let mut lt = 0;
                for i in 0..w {
                    let np = self.bdd.not(pp[i]);
                    let a = self.bdd.and(np, qq[i]);
                    let ne = self.bdd.xor(pp[i], qq[i]);
                    lt = self.bdd.ite(ne, a, lt);
                }
                one(if neg { self.bdd.not(lt) } else { lt })
            }
            0x6a | 0x7c => self.adder(x, y, 0, w).0,
            0x6b | 0x7d => {
                let ny: Vec<B> = (0..w).map(|i| self.bdd.not(y[i])).collect();
                self.adder(x, &ny, 1, w).0
            }
            0x6c | 0x7e => {
                let mut acc = vec![0; 64];
                for k in 0..w {
                    if bv.c >> k & 1 == 1 {
                        let mut s = vec![0; 64];
                        s[k..w].copy_from_slice(&x[..w - k]);
                        acc = self.adder(&acc, &s, 0, w).0;
                    }
                }
                acc
            }
            0x71 | 0x83 => (0..64).map(|i| self.bdd.and(x[i], y[i])).collect(),
            0x72 | 0x84 => (0..64).map(|i| self.bdd.or(x[i], y[i])).collect(),
            0x73 | 0x85 => (0..64).map(|i| self.bdd.xor(x[i], y[i])).collect(),
            _ => {
                let k = bv.c as usize % w;
                let mut o = vec![0; 64];
                for i in 0..w {
                    o[i] = match op {
                        0x74 | 0x86 => if i >= k { x[i - k] } else { 0 },
                        0x76 | 0x88 => if i + k < w { x[i + k] } else { 0 },
                        0x75 | 0x87 => x[(i + k).min(w - 1)],
                        0x77 | 0x89 => x[(i + w - k) % w],
                        _ => x[(i + k) % w],
                    };
                }
                o
            }
        }
    }

    /// Splits the state's box where the given functions differ; None if they are constant on the box.
    fn classes(&mut self, st: &State, roots: &[B]) -> Option<(usize, Vec<Mask>)> {
        let mut cur = roots.to_vec();
        loop {
            let top = cur.iter().map(|r| self.bdd.var[*r as usize]).min().unwrap();
            if top == u32::MAX {
                return None;
            }
            let byte = top / 8;
            let mut groups: HashMap<Vec<B>, Mask> = HashMap::new();
            let mut order = vec![];
            for v in values(&st.doms[byte as usize]) {
                let k: Vec<B> = cur.iter().map(|r| self.bdd.byte(*r, byte, v)).collect();
                let e = groups.entry(k.clone()).or_insert_with(|| {
                    order.push(k);
                    [0; 4]
                });
                e[v as usize >> 6] |= 1 << (v & 63);
            }
            if order.len() > 1 {
                return Some((byte as usize, order.iter().map(|k| groups[k]).collect()));
            }
            cur = order.pop().unwrap();
        }
    }

    /// The value, splitting the box until it has only one.
    fn concrete(&mut self, st: &State, v: V) -> Res<u64> {
        let v = self.settle(st, v);
        if v.s == 0 {
            return Ok(v.c);
        }
        self.decisions += 1;
        let s = self.esup(st, v);
        if s.count_ones() == 1 {
            let b = s.trailing_zeros() as usize;
            let t = self.tabulate(st, v, b);
            return Err(by_value(b, &t));
        }
        let r = self.blast(v);
        match self.classes(st, &r) {
            None => {
                let pt = self.point(st);
                self.eval_new();
                Ok(self.eval(v, &pt))
            }
            Some((b, c)) => Err(Stop::Fork(b, c)),
        }
    }

    fn truth(&mut self, st: &State, v: V) -> Res<bool> {
        if v.s == 0 {
            return Ok(v.c as u32 != 0);
        }
        let v = self.settle(st, v);
        if v.s == 0 {
            return Ok(v.c as u32 != 0);
        }
        self.decisions += 1;
        let s = self.esup(st, v);
        if s.count_ones() == 1 {
            let b = s.trailing_zeros() as usize;
            let mut t = self.tabulate(st, v, b);
            for e in t.iter_mut() {
                e.1 = (e.1 as u32 != 0) as u64;
            }
            if t.iter().all(|e| e.1 == t[0].1) {
                return Ok(t[0].1 != 0);
            }
            return Err(by_value(b, &t));
        }
        let r = self.blast(v);
        let z = self.is_zero(&r[..32])[0];
        match self.classes(st, &[z]) {
            None => {
                let pt = self.point(st);
                self.eval_new();
                Ok(self.eval(v, &pt) as u32 != 0)
            }
            Some((b, c)) => Err(Stop::Fork(b, c)),
        }
    }

    // ---------------------------------------------------------------- memory

    fn bytes_at(&mut self, st: &State, at: usize, n: usize) -> Res<V> {
        if at + n > st.mem.len() * PAGE {
            return Err(Stop::Trap("memory access out of bounds".into()));
        }
        let mut c = 0u64;
        let mut any = false;
        let mut syms = [0u32; 8];
        for i in 0..n {
            let p = &st.mem[(at + i) / PAGE];
            let o = (at + i) % PAGE;
            if let Some(s) = &p.s {
                syms[i] = s[o];
            }
            if syms[i] == 0 {
                c |= (p.d[o] as u64) << (8 * i);
            } else {
                any = true;
            }
        }
        if !any {
            return Ok(con(c));
        }
        if n == 1 {
            return Ok(self.settle(st, V { c: 0, s: syms[0] }));
        }
        // the bytes of one value written before
        if let Node::Un(op, src) = self.nodes[syms[0] as usize] {
            if op == U_BYTE && syms[0] != 0 {
                let same = (0..n).all(|i| syms[i] != 0
                    && matches!(self.nodes[syms[i] as usize], Node::Un(o, s) if o == U_BYTE + i as u16 && s == src));
                if same {
                    let mask = if n == 8 { u64::MAX } else { (1u64 << (8 * n)) - 1 };
                    return self.sym_bin(st, 0x83, src, con(mask));
                }
            }
        }
        let mut v = con(c);
        for i in 0..n {
            if syms[i] != 0 {
                let b = self.sym_bin(st, 0x86, V { c: 0, s: syms[i] }, con(8 * i as u64))?;
                v = self.sym_bin(st, 0x84, v, b)?;
            }
        }
        Ok(v)
    }

    fn put_byte(st: &mut State, at: usize, c: u8, s: u32) {
        let p = Rc::make_mut(&mut st.mem[at / PAGE]);
        let o = at % PAGE;
        if s != 0 {
            p.s.get_or_insert_with(|| Box::new([0; PAGE]))[o] = s;
        } else {
            if let Some(t) = &mut p.s {
                t[o] = 0;
            }
            p.d[o] = c;
        }
    }

    fn store(&mut self, st: &mut State, at: usize, n: usize, v: V) -> Res<()> {
        if at + n > st.mem.len() * PAGE {
            return Err(Stop::Trap("memory access out of bounds".into()));
        }
        let v = self.settle(st, v);
        let mut b = [con(0); 8];
        for i in 0..n {
            b[i] = if v.s == 0 {
                con(v.c >> (8 * i) & 0xff)
            } else {
                self.sym_un(st, U_BYTE + i as u16, v)?
            };
        }
        for i in 0..n {
            Self::put_byte(st, at + i, b[i].c as u8, b[i].s);
        }
        Ok(())
    }

    fn load_sized(&mut self, st: &State, op: u16, at: usize) -> Res<V> {
        let (n, ext) = match op {
            0x28 | 0x2a => (4, 0),
            0x29 | 0x2b => (8, 0),
            0x2c => (1, 0xc0),
            0x2d | 0x31 => (1, 0),
            0x2e => (2, 0xc1),
            0x2f | 0x33 => (2, 0),
            0x30 => (1, 0xc2),
            0x32 => (2, 0xc3),
            0x34 => (4, 0xc4),
            _ => (4, 0),
        };
        let v = self.bytes_at(st, at, n)?;
        if ext == 0 {
            return Ok(v);
        }
        if v.s == 0 {
            return Ok(con(un(ext, v.c).unwrap()));
        }
        self.sym_un(st, ext, v)
    }

    fn load_sym(&mut self, st: &State, op: u16, addr: V, off: u32) -> Res<V> {
        let addr = self.settle(st, addr);
        if addr.s == 0 {
            return self.load_sized(st, op, addr.c as u32 as usize + off as usize);
        }
        let s = self.esup(st, addr);
        if s.count_ones() == 1 {
            let b = s.trailing_zeros() as usize;
            let t = self.tabulate(st, addr, b);
            let mut out = Vec::with_capacity(t.len());
            let mut pt = None;
            let mut ok = true;
            for (x, a) in &t {
                match self.load_sized(st, op, *a as u32 as usize + off as usize) {
                    Ok(v) if v.s == 0 => out.push((*x, v.c)),
                    Ok(v) if self.esup(st, v) == s => {
                        let mut p = pt.take().unwrap_or_else(|| self.point(st));
                        p[b] = *x;
                        self.eval_new();
                        out.push((*x, self.eval(v, &p)));
                        pt = Some(p);
                    }
                    Err(Stop::Limit(l)) => return Err(Stop::Limit(l)),
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                return Ok(self.mk_tab(b, &out));
            }
        }
        let a = self.concrete(st, addr)?;
        self.load_sized(st, op, a as u32 as usize + off as usize)
    }

    // ---------------------------------------------------------------- running

    /// Calls an export with concrete arguments on a state without symbolic data.
    fn call_now(&mut self, st: &mut State, name: &str, args: &[u64]) -> Result<u64, String> {
        let i = self.m.exports[name];
        self.enter(st, i, args);
        match self.run(st) {
            Ok(()) => Ok(st.result[0].c),
            Err(Stop::Trap(t)) => Err(t),
            Err(Stop::Limit(t)) => Err(t),
            Err(Stop::Fork(..)) => Err("fork".into()),
        }
    }

    fn enter(&mut self, st: &mut State, i: usize, args: &[u64]) {
        st.stack.clear();
        for a in args {
            st.stack.push(con(*a));
        }
        for _ in 0..self.m.funcs[i].locals {
            st.stack.push(con(0));
        }
        st.frames = vec![Frame { func: i as u32, pc: 0, base: 0 }];
    }

    pub fn job(&mut self, cfg: &[u8], doms: &[Mask]) -> Result<(), String> {
        // positions with one value are constants; the others are the engine's inputs
        let act: Vec<usize> = (0..doms.len()).filter(|i| ones(&doms[*i]) != 1).collect();
        if act.len() > 64 {
            return Err("more than 64 symbolic bytes".into());
        }
        let all: Vec<Mask> = doms.to_vec();
        let doms: Vec<Mask> = act.iter().map(|i| all[*i]).collect();
        let widen = |d: &[Mask]| {
            let mut o = all.clone();
            for (k, i) in act.iter().enumerate() {
                o[*i] = d[k];
            }
            o
        };
        self.act = act.clone();
        let m = self.m;
        let mut st = State {
            stack: vec![],
            frames: vec![],
            mem: vec![self.zero.clone(); m.mem_min * 16],
            globals: m.globals.iter().map(|g| con(*g)).collect(),
            doms: doms.to_vec(),
            fixed: 0,
            result: vec![],
            used: 0,
            js: Self::js_start(),
        };
        for (off, d) in &m.data {
            for (i, b) in d.iter().enumerate() {
                Self::put_byte(&mut st, *off as usize + i, *b, 0);
            }
        }
        let cp = self.call_now(&mut st, "alloc", &[cfg.len() as u64])? as u32 as usize;
        for (i, b) in cfg.iter().enumerate() {
            Self::put_byte(&mut st, cp + i, *b, 0);
        }
        let tp = self.call_now(&mut st, "alloc", &[all.len() as u64])? as u32 as usize;
        for (i, dm) in all.iter().enumerate() {
            if ones(dm) == 1 {
                Self::put_byte(&mut st, tp + i, values(dm)[0], 0);
            }
        }
        for (i, dm) in doms.iter().enumerate() {
            let t: Vec<(u8, u64)> = values(dm).into_iter().map(|v| (v, v as u64)).collect();
            let v = self.mk_tab(i, &t);
            Self::put_byte(&mut st, tp + act[i], v.c as u8, v.s);
        }
        self.enter(&mut st, m.exports["go"], &[cp as u64, cfg.len() as u64, tp as u64, all.len() as u64]);
        let mut work = vec![st];
        while let Some(mut st) = work.pop() {
            self.path_base = self.steps - st.used;
            if self.paths.len() >= self.max_paths {
                return Err("path limit".into());
            }
            loop {
                let r = if st.frames.is_empty() { Ok(()) } else { self.run(&mut st) };
                let r = match r {
                    Ok(()) => self.collect(&st).map(|w| {
                        self.paths.push(PathOut { doms: widen(&st.doms), out: Ok(w) });
                    }),
                    Err(e) => Err(e),
                };
                match r {
                    Ok(()) => break,
                    Err(Stop::Fork(b, cl)) => {
                        self.forks += 1;
                        st.used = self.steps - self.path_base;
                        for c in cl[1..].iter().rev() {
                            let mut s2 = st.clone();
                            s2.doms[b] = *c;
                            if ones(c) == 1 {
                                s2.fixed |= 1 << b;
                            }
                            work.push(s2);
                        }
                        st.doms[b] = cl[0];
                        if ones(&cl[0]) == 1 {
                            st.fixed |= 1 << b;
                        }
                    }
                    Err(Stop::Trap(t)) => {
                        self.paths.push(PathOut { doms: widen(&st.doms), out: Err(t) });
                        break;
                    }
                    Err(Stop::Limit(l)) => return Err(l),
                }
            }
        }
        Ok(())
    }

    fn collect(&mut self, st: &State) -> Res<Vec<Word>> {
        let p = self.concrete(st, st.result[0])? as u32 as usize;
        let nv = self.bytes_at(st, p, 4)?;
        let n = self.concrete(st, nv)? as usize;
        let mut out = vec![];
        for i in 0..n {
            let v = self.bytes_at(st, p + 4 + 4 * i, 4)?;
            let v = self.settle(st, v);
            if v.s == 0 {
                out.push(Word::C(v.c));
                continue;
            }
            let s = self.esup(st, v);
            if self.keep_sym && s.count_ones() == 1 {
                let b = s.trailing_zeros() as usize;
                let t = self.tabulate(st, v, b);
                out.push(Word::Tab(self.act[b], t));
            } else {
                out.push(Word::C(self.concrete(st, v)?));
            }
        }
        Ok(out)
    }

    fn within(&self) -> Res<()> {
        if self.steps - self.path_base > self.path_steps {
            return Err(Stop::Trap("path step limit".into()));
        }
        if self.steps > self.max_steps {
            return Err(Stop::Limit("step limit".into()));
        }
        Ok(())
    }

    fn run(&mut self, st: &mut State) -> Res<()> {
        let m = self.m;
        'frames: loop {
            let fr = *st.frames.last().unwrap();
            let fi = fr.func as usize;
            let func = &m.funcs[fi];
            let code: &[Ins] = &func.code;
            let base = fr.base as usize;
            let mut pc = fr.pc as usize;
            // on Stop the frame's pc must name the instruction to execute again
            macro_rules! tri {
                ($e:expr) => {
                    match $e {
                        Ok(v) => v,
                        Err(s) => {
                            st.frames.last_mut().unwrap().pc = pc as u32;
                            return Err(s);
                        }
                    }
                };
            }
            macro_rules! trap {
                ($t:expr) => {{
                    return Err(Stop::Trap(format!("{} in {}", $t, func.name)));
                }};
            }
            macro_rules! top {
                () => {
                    st.stack[st.stack.len() - 1]
                };
            }
            macro_rules! nth {
                ($n:expr) => {
                    st.stack[st.stack.len() - 1 - $n]
                };
            }
            macro_rules! pop {
                () => {
                    st.stack.pop().unwrap()
                };
            }
            macro_rules! b2 {
                ($($op:literal)*, $i:expr) => {
                    match $i {
                        $($op => {
                            let b = top!();
                            let a = nth!(1);
                            let r = if a.s | b.s == 0 {
                                match bin($op, a.c, b.c) {
                                    Some(r) => con(r),
                                    None => trap!("division"),
                                }
                            } else {
                                tri!(self.sym_bin(st, $op, a, b))
                            };
                            st.stack.pop();
                            *st.stack.last_mut().unwrap() = r;
                        })*
                        op => {
                            // the rarer two-operand instructions
                            let b = top!();
                            let a = nth!(1);
                            let r = if a.s | b.s == 0 {
                                match bin(op, a.c, b.c) {
                                    Some(r) => con(r),
                                    None if is_div(op) => trap!("division"),
                                    None => return Err(Stop::Limit(format!("instruction {op:#x}"))),
                                }
                            } else {
                                tri!(self.sym_bin(st, op, a, b))
                            };
                            st.stack.pop();
                            *st.stack.last_mut().unwrap() = r;
                        }
                    }
                };
            }
            macro_rules! branch {
                ($pc:expr, $h:expr, $ar:expr) => {{
                    let (h, ar) = (base + $h as usize, $ar as usize);
                    let n = st.stack.len();
                    if n != h + ar {
                        for k in 0..ar {
                            st.stack[h + k] = st.stack[n - ar + k];
                        }
                        st.stack.truncate(h + ar);
                    }
                    pc = $pc as usize;
                }};
            }
            let mut budget = 4096u32;
            loop {
                budget -= 1;
                if budget == 0 {
                    budget = 4096;
                    self.steps += 4096;
                    self.within()?;
                    self.ticks += 1;
                    if self.ticks & 0xff == 0 && std::time::Instant::now() > self.deadline {
                        return Err(Stop::Limit("time limit".into()));
                    }
                }
                let ins = code[pc];
                match ins.op {
                    O_CONST => st.stack.push(con(ins.y)),
                    0x20 => {
                        let v = st.stack[base + ins.x as usize];
                        st.stack.push(v);
                    }
                    0x21 => {
                        let v = pop!();
                        st.stack[base + ins.x as usize] = v;
                    }
                    0x22 => st.stack[base + ins.x as usize] = top!(),
                    0x23 => st.stack.push(st.globals[ins.x as usize]),
                    0x24 => st.globals[ins.x as usize] = pop!(),
                    O_JMP => {
                        pc = ins.x as usize;
                        continue;
                    }
                    O_BR => {
                        branch!(ins.x, ins.y as u32, (ins.y >> 32) as u32 & 0x7fff_ffff);
                        continue;
                    }
                    O_BRNZ => {
                        let v = top!();
                        let t = if v.s == 0 { v.c as u32 != 0 } else {
                            tri!(self.truth(st, v))
                        };
                        st.stack.pop();
                        if t {
                            if ins.y >> 63 == 1 {
                                pc = ins.x as usize;
                            } else {
                                branch!(ins.x, ins.y as u32, (ins.y >> 32) as u32 & 0x7fff_ffff);
                            }
                            continue;
                        }
                    }
                    O_BRZ => {
                        let v = top!();
                        let t = if v.s == 0 { v.c as u32 != 0 } else {
                            tri!(self.truth(st, v))
                        };
                        st.stack.pop();
                        if !t {
                            pc = ins.x as usize;
                            continue;
                        }
                    }
                    O_BRTAB => {
                        let v = top!();
                        let tab = &func.tables[ins.x as usize];
                        let k = if v.s == 0 {
                            v.c as u32 as usize
                        } else {
                            tri!(self.switch(st, v, tab))
                        };
                        st.stack.pop();
                        let t = tab[k.min(tab.len() - 1)];
                        branch!(t.pc, t.height, t.arity);
                        continue;
                    }
                    O_RET => {
                        let ar = ins.y as usize;
                        let n = st.stack.len();
                        self.steps += (4096 - budget) as u64;
                        if st.frames.len() == 1 {
                            st.result = st.stack[n - ar..].to_vec();
                            st.stack.clear();
                            st.frames.clear();
                            return Ok(());
                        }
                        for k in 0..ar {
                            st.stack[base + k] = st.stack[n - ar + k];
                        }
                        st.stack.truncate(base + ar);
                        st.frames.pop();
                        continue 'frames;
                    }
                    0x10 | 0x11 => {
                        let callee = if ins.op == 0x10 {
                            ins.x as usize
                        } else {
                            let v = top!();
                            let k = if v.s == 0 { v.c } else { tri!(self.concrete(st, v)) } as u32 as usize;
                            let t = &m.tables[ins.y as usize];
                            if k >= t.len() || t[k] == u32::MAX {
                                trap!("undefined table element");
                            }
                            let c = t[k] as usize;
                            let (a, b) = (&m.types[m.funcs[c].ty], &m.types[ins.x as usize]);
                            if a.params != b.params || a.results != b.results {
                                trap!("indirect call type mismatch");
                            }
                            st.stack.pop();
                            c
                        };
                        let g = &m.funcs[callee];
                        if g.panics {
                            trap!(format!("panic: {}", g.name));
                        }
                        let np = m.types[g.ty].params;
                        if g.import || g.cast {
                            let args: Vec<V> = st.stack[st.stack.len() - np..].to_vec();
                            st.frames.last_mut().unwrap().pc = pc as u32;
                            let r = if g.cast {
                                tri!(self.js_cast(st, &g.name, &args)).into()
                            } else {
                                tri!(self.js_call(st, &g.name, &args))
                            };
                            st.stack.truncate(st.stack.len() - np);
                            if let Some(v) = r {
                                st.stack.push(v);
                            }
                            pc += 1;
                            continue;
                        }
                        if st.frames.len() > 20000 {
                            trap!("stack overflow");
                        }
                        self.steps += (4096 - budget) as u64;
                        self.within()?;
                        self.touched[callee] = true;
                        let nb = st.stack.len() - np;
                        let nl = st.stack.len() + g.locals;
                        st.stack.resize(nl, con(0));
                        st.frames.last_mut().unwrap().pc = pc as u32 + 1;
                        st.frames.push(Frame { func: callee as u32, pc: 0, base: nb as u32 });
                        continue 'frames;
                    }
                    0x00 => trap!("unreachable"),
                    0x1a => {
                        st.stack.pop();
                    }
                    0x1b => {
                        let c = top!();
                        let (a, b) = (nth!(2), nth!(1));
                        let r = if c.s == 0 {
                            if c.c as u32 != 0 { a } else { b }
                        } else {
                            tri!(self.select(st, c, a, b))
                        };
                        let n = st.stack.len();
                        st.stack.truncate(n - 2);
                        st.stack[n - 3] = r;
                    }
                    0x28..=0x35 => {
                        let a = top!();
                        let r = if a.s == 0 {
                            let at = a.c as u32 as usize + ins.x as usize;
                            let n = match ins.op {
                                0x28 => 4,
                                0x29 => 8,
                                0x2d | 0x31 => 1,
                                0x35 => 4,
                                0x2f | 0x33 => 2,
                                _ => 0,
                            };
                            let (pg, o) = (at / PAGE, at % PAGE);
                            if n != 0 && o + n <= PAGE && pg < st.mem.len() && st.mem[pg].s.is_none() {
                                let d = &st.mem[pg].d;
                                con(match n {
                                    1 => d[o] as u64,
                                    2 => u16::from_le_bytes(d[o..o + 2].try_into().unwrap()) as u64,
                                    4 => u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) as u64,
                                    _ => u64::from_le_bytes(d[o..o + 8].try_into().unwrap()),
                                })
                            } else {
                                let v = tri!(self.load_sized(st, ins.op, at));
                                if v.s != 0 {
                                }
                                v
                            }
                        } else {
                            tri!(self.load_sym(st, ins.op, a, ins.x))
                        };
                        *st.stack.last_mut().unwrap() = r;
                    }
                    0x36..=0x3e => {
                        let v = top!();
                        let a = nth!(1);
                        let ac = if a.s == 0 { a.c } else {
                            tri!(self.concrete(st, a))
                        };
                        let at = ac as u32 as usize + ins.x as usize;
                        let n = match ins.op {
                            0x36 | 0x38 | 0x3e => 4,
                            0x37 | 0x39 => 8,
                            0x3a | 0x3c => 1,
                            _ => 2,
                        };
                        let (pg, o) = (at / PAGE, at % PAGE);
                        if v.s == 0 && o + n <= PAGE && pg < st.mem.len() && st.mem[pg].s.is_none() {
                            let d = &mut Rc::make_mut(&mut st.mem[pg]).d;
                            d[o..o + n].copy_from_slice(&v.c.to_le_bytes()[..n]);
                        } else {
                            tri!(self.store(st, at, n, v));
                        }
                        let n = st.stack.len();
                        st.stack.truncate(n - 2);
                    }
                    0x3f => {
                        let n = st.mem.len() / 16;
                        st.stack.push(con(n as u64));
                    }
                    0x40 => {
                        let v = top!();
                        let n = tri!(self.concrete(st, v)) as u32 as usize;
                        let old = st.mem.len() / 16;
                        let r = if old + n > m.mem_max || old + n > 8192 {
                            u32::MAX as u64
                        } else {
                            st.mem.resize((old + n) * 16, self.zero.clone());
                            old as u64
                        };
                        *st.stack.last_mut().unwrap() = con(r);
                    }
                    0x45 | 0x50 | 0x67..=0x69 | 0x79..=0x7b | 0x8b..=0x91 | 0x99..=0x9f | 0xa7..=0xc4 | 0x100..=0x107 => {
                        let a = top!();
                        let r = if a.s == 0 {
                            match un(ins.op, a.c) {
                                Some(r) => con(r),
                                None => return Err(Stop::Limit(format!("instruction {:#x}", ins.op))),
                            }
                        } else {
                            tri!(self.sym_un(st, ins.op, a))
                        };
                        *st.stack.last_mut().unwrap() = r;
                    }
                    0x10a => {
                        let (dv, sv, nv) = (nth!(2), nth!(1), top!());
                        let d = tri!(self.concrete(st, dv)) as u32 as usize;
                        let s = tri!(self.concrete(st, sv)) as u32 as usize;
                        let n = tri!(self.concrete(st, nv)) as u32 as usize;
                        if d + n > st.mem.len() * PAGE || s + n > st.mem.len() * PAGE {
                            trap!("memory access out of bounds");
                        }
                        let mut tmp = Vec::with_capacity(n);
                        for i in 0..n {
                            let p = &st.mem[(s + i) / PAGE];
                            let o = (s + i) % PAGE;
                            tmp.push((p.d[o], p.s.as_ref().map_or(0, |t| t[o])));
                        }
                        for (i, (c, y)) in tmp.into_iter().enumerate() {
                            Self::put_byte(st, d + i, c, y);
                        }
                        let n = st.stack.len();
                        st.stack.truncate(n - 3);
                    }
                    0x10b => {
                        let (dv, bv, nv) = (nth!(2), nth!(1), top!());
                        let d = tri!(self.concrete(st, dv)) as u32 as usize;
                        let b = tri!(self.concrete(st, bv)) as u8;
                        let n = tri!(self.concrete(st, nv)) as u32 as usize;
                        if d + n > st.mem.len() * PAGE {
                            trap!("memory access out of bounds");
                        }
                        for i in 0..n {
                            Self::put_byte(st, d + i, b, 0);
                        }
                        let n = st.stack.len();
                        st.stack.truncate(n - 3);
                    }
                    op => b2!(0x6a 0x6b 0x46 0x47 0x49 0x4b 0x4d 0x4f 0x71 0x72 0x73 0x74 0x76 0x6c 0x7c 0x83 0x84 0x86 0x88 0x51, op),
                }
                pc += 1;
            }
        }
    }

    /// The index of a br_table, splitting only where the target differs.
    fn switch(&mut self, st: &State, v: V, tab: &[Target]) -> Res<usize> {
        let v = self.settle(st, v);
        if v.s != 0 {
            let s = self.esup(st, v);
            if s.count_ones() == 1 {
                let b = s.trailing_zeros() as usize;
                let mut t = self.tabulate(st, v, b);
                for e in t.iter_mut() {
                    let k = (e.1 as u32 as usize).min(tab.len() - 1);
                    e.1 = tab.iter().position(|x| x == &tab[k]).unwrap() as u64;
                }
                if t.iter().all(|e| e.1 == t[0].1) {
                    return Ok(t[0].1 as usize);
                }
                self.decisions += 1;
                return Err(by_value(b, &t));
            }
        }
        Ok(self.concrete(st, v)? as u32 as usize)
    }
}

fn by_value(b: usize, t: &[(u8, u64)]) -> Stop {
    let mut groups: HashMap<u64, Mask> = HashMap::new();
    let mut order = vec![];
    for (v, x) in t {
        let e = groups.entry(*x).or_insert_with(|| {
            order.push(*x);
            [0; 4]
        });
        e[*v as usize >> 6] |= 1 << (v & 63);
    }
    Stop::Fork(b, order.iter().map(|x| groups[x]).collect())
}
