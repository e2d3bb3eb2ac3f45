//! Decoding a wasm module into flat code with resolved branches.

#[derive(Clone, Copy, Debug)]
pub struct Ins {
    pub op: u16,
    pub x: u32,
    pub y: u64,
}

// control instructions after decoding (everything else keeps its wasm opcode; 0xfc prefix becomes 0x100 + n)
pub const O_BR: u16 = 0x300; // x = target pc, y = height | arity << 32
pub const O_BRNZ: u16 = 0x301;
pub const O_BRZ: u16 = 0x302; // if: no values to move
pub const O_BRTAB: u16 = 0x303; // x = index into br_tables
pub const O_RET: u16 = 0x304;
pub const O_JMP: u16 = 0x305; // no unwinding needed
pub const O_CONST: u16 = 0x306;

#[derive(Clone, Default, Debug)]
pub struct FuncType {
    pub params: usize,
    pub results: usize,
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Target {
    pub pc: u32,
    pub height: u32,
    pub arity: u32,
}

#[derive(Default)]
pub struct Func {
    pub ty: usize,
    pub locals: usize, // beside the parameters
    pub code: Vec<Ins>,
    pub tables: Vec<Vec<Target>>,
    pub name: String,
    pub import: bool,
    pub panics: bool,
    pub cast: bool,
}

#[derive(Default)]
pub struct Module {
    pub types: Vec<FuncType>,
    pub funcs: Vec<Func>,
    pub exports: std::collections::HashMap<String, usize>,
    pub globals: Vec<u64>,
    pub mem_min: usize,
    pub mem_max: usize,
    pub data: Vec<(u64, Vec<u8>)>,
    pub tables: Vec<Vec<u32>>, // u32::MAX = null
}

struct R<'a> {
    b: &'a [u8],
    p: usize,
}

impl<'a> R<'a> {
    fn u8(&mut self) -> u8 {
        let v = self.b[self.p];
        self.p += 1;
        v
    }
    fn u32(&mut self) -> u32 {
        let (mut r, mut s) = (0u64, 0);
        loop {
            let b = self.u8();
            r |= ((b & 0x7f) as u64) << s;
            s += 7;
            if b & 0x80 == 0 {
                return r as u32;
            }
        }
    }
    fn sleb(&mut self) -> i64 {
        let (mut r, mut s) = (0i64, 0);
        loop {
            let b = self.u8();
            r |= ((b & 0x7f) as i64).wrapping_shl(s);
            s += 7;
            if b & 0x80 == 0 {
                if s < 64 && b & 0x40 != 0 {
                    r |= -1i64 << s;
                }
                return r;
            }
        }
    }
    fn name(&mut self) -> String {
        let n = self.u32() as usize;
        let s = String::from_utf8_lossy(&self.b[self.p..self.p + n]).into_owned();
        self.p += n;
        s
    }
    fn limits(&mut self) -> (u32, u32) {
        let f = self.u8();
        let a = self.u32();
        let b = if f & 1 != 0 { self.u32() } else { u32::MAX };
        (a, b)
    }
    fn const_expr(&mut self, globals: &[u64]) -> u64 {
        let mut v = 0;
        loop {
            match self.u8() {
                0x41 => v = self.sleb() as i32 as u32 as u64,
                0x42 => v = self.sleb() as u64,
                0x43 => {
                    v = u32::from_le_bytes(self.b[self.p..self.p + 4].try_into().unwrap()) as u64;
                    self.p += 4;
                }
                0x44 => {
                    v = u64::from_le_bytes(self.b[self.p..self.p + 8].try_into().unwrap());
                    self.p += 8;
                }
                0x23 => v = globals[self.u32() as usize],
                0xd0 => {
                    self.u8();
                    v = u32::MAX as u64;
                }
                0xd2 => v = self.u32() as u64,
                0x0b => return v,
                o => panic!("constant expression opcode {o:#x}"),
            }
        }
    }
}

struct Ctl {
    kind: u8, // 0 block, 1 loop, 2 if, 3 function
    height: usize,
    params: usize,
    results: usize,
    start: usize,
    fix: Vec<(usize, usize)>, // (instruction, table entry or usize::MAX)
    else_fix: Option<usize>,
    dead: bool,        // entered in unreachable code
    unreachable: bool, // rest of the current arm is unreachable
}

pub fn load(bytes: &[u8]) -> Module {
    let mut m = Module::default();
    let mut r = R { b: bytes, p: 8 };
    let mut ftypes: Vec<usize> = vec![];
    let mut nimp = 0;
    while r.p < bytes.len() {
        let id = r.u8();
        let n = r.u32() as usize;
        let end = r.p + n;
        match id {
            1 => {
                for _ in 0..r.u32() {
                    assert_eq!(r.u8(), 0x60);
                    let mut t = FuncType::default();
                    t.params = r.u32() as usize;
                    r.p += t.params;
                    t.results = r.u32() as usize;
                    r.p += t.results;
                    m.types.push(t);
                }
            }
            2 => {
                for _ in 0..r.u32() {
                    let mo = r.name();
                    let na = r.name();
                    match r.u8() {
                        0 => {
                            let ty = r.u32() as usize;
                            m.funcs.push(Func { ty, name: format!("{mo}.{na}"), import: true, ..Default::default() });
                            nimp += 1;
                        }
                        1 => {
                            r.u8();
                            r.limits();
                            m.tables.push(vec![]);
                        }
                        2 => {
                            let l = r.limits();
                            m.mem_min = l.0 as usize;
                            m.mem_max = l.1 as usize;
                        }
                        3 => {
                            r.u8();
                            r.u8();
                            m.globals.push(0);
                        }
                        _ => panic!("import kind"),
                    }
                }
            }
            3 => {
                for _ in 0..r.u32() {
                    ftypes.push(r.u32() as usize);
                }
            }
            4 => {
                for _ in 0..r.u32() {
                    r.u8();
                    let l = r.limits();
                    m.tables.push(vec![u32::MAX; l.0 as usize]);
                }
            }
            5 => {
                for _ in 0..r.u32() {
                    let l = r.limits();
                    m.mem_min = l.0 as usize;
                    m.mem_max = (l.1 as usize).min(65536);
                }
            }
            6 => {
                for _ in 0..r.u32() {
                    r.u8();
                    r.u8();
                    let v = r.const_expr(&m.globals);
                    m.globals.push(v);
                }
            }
            7 => {
                for _ in 0..r.u32() {
                    let n = r.name();
                    let k = r.u8();
                    let i = r.u32() as usize;
                    if k == 0 {
                        m.exports.insert(n, i);
                    }
                }
            }
            9 => {
                for _ in 0..r.u32() {
                    let k = r.u32();
                    assert!(k == 0 || k == 2 || k == 4 || k == 6, "element kind {k}");
                    let t = if k & 2 != 0 { r.u32() as usize } else { 0 };
                    let off = r.const_expr(&m.globals) as usize;
                    if k == 2 || k == 6 {
                        r.u8();
                    }
                    for i in 0..r.u32() as usize {
                        let f = if k & 4 != 0 { r.const_expr(&m.globals) as u32 } else { r.u32() };
                        if m.tables[t].len() <= off + i {
                            m.tables[t].resize(off + i + 1, u32::MAX);
                        }
                        m.tables[t][off + i] = f;
                    }
                }
            }
            10 => {
                let cnt = r.u32() as usize;
                for i in 0..cnt {
                    let sz = r.u32() as usize;
                    let fend = r.p + sz;
                    let mut locals = 0;
                    for _ in 0..r.u32() {
                        locals += r.u32() as usize;
                        r.u8();
                    }
                    let mut f = Func { ty: ftypes[i], locals, ..Default::default() };
                    // functions may call later ones: types are known from section 3
                    body(&mut r, fend, &mut f, &m, &ftypes, nimp);
                    r.p = fend;
                    m.funcs.push(f);
                }
            }
            11 => {
                for _ in 0..r.u32() {
                    let k = r.u32();
                    assert!(k == 0, "data kind {k}");
                    let off = r.const_expr(&m.globals);
                    let n = r.u32() as usize;
                    m.data.push((off as u32 as u64, r.b[r.p..r.p + n].to_vec()));
                    r.p += n;
                }
            }
            0 => {
                let n = r.name();
                if n == "name" {
                    while r.p < end {
                        let sub = r.u8();
                        let sz = r.u32() as usize;
                        let e = r.p + sz;
                        if sub == 1 {
                            for _ in 0..r.u32() {
                                let i = r.u32() as usize;
                                let s = r.name();
                                if i < m.funcs.len() {
                                    if !m.funcs[i].import {
                                        m.funcs[i].name = s;
                                    }
                                }
                            }
                        }
                        r.p = e;
                    }
                }
            }
            _ => {}
        }
        r.p = end;
    }
    for f in m.funcs.iter_mut() {
        let n = &f.name;
        f.cast = n.contains("breaks_if_inlined");
        f.panics = n.contains("9panicking") || n.contains("rust_begin_unwind") || n.contains("13unwrap_failed")
            || n.contains("17capacity_overflow") || n.contains("12handle_error") || n.contains("alloc_error");
    }
    m
}

fn body(r: &mut R, fend: usize, f: &mut Func, m: &Module, ftypes: &[usize], nimp: usize) {
    let fty = |i: usize| -> usize {
        if i < nimp {
            m.funcs[i].ty
        } else {
            ftypes[i - nimp]
        }
    };
    let base = m.types[f.ty].params + f.locals;
    let mut h = base; // current stack height relative to the frame, locals included
    let mut c: Vec<Ctl> = vec![Ctl {
        kind: 3,
        height: base,
        params: 0,
        results: m.types[f.ty].results,
        start: 0,
        fix: vec![],
        else_fix: None,
        dead: false,
        unreachable: false,
    }];
    macro_rules! emit {
        ($op:expr, $x:expr, $y:expr) => {
            f.code.push(Ins { op: $op, x: $x as u32, y: $y as u64 })
        };
    }
    while r.p < fend {
        let op = r.u8() as u16;
        let skip = c.last().unwrap().unreachable;
        match op {
            0x02 | 0x03 | 0x04 => {
                let bt = r.sleb();
                let (p, q) = if bt >= 0 {
                    (m.types[bt as usize].params, m.types[bt as usize].results)
                } else if bt == -64 {
                    (0, 0)
                } else {
                    (0, 1)
                };
                let mut ctl = Ctl {
                    kind: (op - 2) as u8,
                    height: 0,
                    params: p,
                    results: q,
                    start: 0,
                    fix: vec![],
                    else_fix: None,
                    dead: skip,
                    unreachable: skip,
                };
                if !skip {
                    if op == 4 {
                        h -= 1;
                        ctl.else_fix = Some(f.code.len());
                        emit!(O_BRZ, 0, 0);
                    }
                    ctl.height = h - p;
                    ctl.start = f.code.len();
                }
                c.push(ctl);
            }
            0x05 => {
                let k = c.last_mut().unwrap();
                if !k.dead {
                    if !k.unreachable {
                        k.fix.push((f.code.len(), usize::MAX));
                        f.code.push(Ins { op: O_JMP, x: 0, y: 0 });
                    }
                    let e = k.else_fix.take().unwrap();
                    f.code[e].x = f.code.len() as u32;
                    h = k.height + k.params;
                    k.unreachable = false;
                }
            }
            0x0b => {
                let mut k = c.pop().unwrap();
                if k.dead {
                    continue;
                }
                if let Some(e) = k.else_fix.take() {
                    f.code[e].x = f.code.len() as u32;
                }
                let here = f.code.len() as u32;
                for (i, t) in k.fix {
                    if t == usize::MAX {
                        f.code[i].x = here;
                    } else {
                        let ti = f.code[i].x as usize;
                        f.tables[ti][t].pc = here;
                    }
                }
                h = k.height + k.results;
                if k.kind == 3 {
                    emit!(O_RET, 0, k.results);
                    return;
                }
            }
            0x0c | 0x0d => {
                let l = r.u32() as usize;
                if skip {
                    continue;
                }
                if op == 0x0d {
                    h -= 1;
                }
                let i = c.len() - 1 - l;
                let k = &mut c[i];
                let ar = if k.kind == 1 { k.params } else { k.results };
                let same = h == k.height + ar;
                let o = if op == 0x0d { O_BRNZ } else if same { O_JMP } else { O_BR };
                let tgt = if k.kind == 1 { k.start } else { 0 };
                if k.kind != 1 {
                    k.fix.push((f.code.len(), usize::MAX));
                }
                let y = k.height as u64 | (ar as u64) << 32 | if same { 1u64 << 63 } else { 0 };
                emit!(o, tgt, y);
                if op == 0x0c {
                    c.last_mut().unwrap().unreachable = true;
                }
            }
            0x0e => {
                let n = r.u32() as usize + 1;
                let ls: Vec<usize> = (0..n).map(|_| r.u32() as usize).collect();
                if skip {
                    continue;
                }
                h -= 1;
                let ti = f.tables.len();
                let mut tab = vec![];
                let at = f.code.len();
                for (j, l) in ls.iter().enumerate() {
                    let i = c.len() - 1 - l;
                    let k = &mut c[i];
                    let ar = if k.kind == 1 { k.params } else { k.results };
                    if k.kind != 1 {
                        k.fix.push((at, j));
                    }
                    tab.push(Target { pc: k.start as u32, height: k.height as u32, arity: ar as u32 });
                }
                f.tables.push(tab);
                emit!(O_BRTAB, ti, 0);
                c.last_mut().unwrap().unreachable = true;
            }
            0x0f => {
                if !skip {
                    emit!(O_RET, 0, m.types[f.ty].results);
                    c.last_mut().unwrap().unreachable = true;
                }
            }
            0x00 => {
                if !skip {
                    emit!(0, 0, 0);
                    c.last_mut().unwrap().unreachable = true;
                }
            }
            0x01 => {}
            0x10 => {
                let i = r.u32() as usize;
                if !skip {
                    let t = &m.types[fty(i)];
                    h = h - t.params + t.results;
                    emit!(0x10, i, 0);
                }
            }
            0x11 => {
                let ty = r.u32() as usize;
                let tb = r.u32() as usize;
                if !skip {
                    let t = &m.types[ty];
                    h = h - 1 - t.params + t.results;
                    emit!(0x11, ty, tb);
                }
            }
            0x1a => {
                if !skip {
                    h -= 1;
                    emit!(op, 0, 0);
                }
            }
            0x1b | 0x1c => {
                if op == 0x1c {
                    for _ in 0..r.u32() {
                        r.u8();
                    }
                }
                if !skip {
                    h -= 2;
                    emit!(0x1b, 0, 0);
                }
            }
            0x20..=0x24 => {
                let i = r.u32();
                if !skip {
                    match op {
                        0x20 | 0x23 => h += 1,
                        0x21 | 0x24 => h -= 1,
                        _ => {}
                    }
                    emit!(op, i, 0);
                }
            }
            0x28..=0x3e => {
                let a = r.u32();
                assert!(a < 64);
                let off = r.u32();
                if !skip {
                    if op >= 0x36 {
                        h -= 2;
                    }
                    emit!(op, off, 0);
                }
            }
            0x3f => {
                r.u8();
                if !skip {
                    h += 1;
                    emit!(op, 0, 0);
                }
            }
            0x40 => {
                r.u8();
                if !skip {
                    emit!(op, 0, 0);
                }
            }
            0x41..=0x44 => {
                let v = match op {
                    0x41 => r.sleb() as i32 as u32 as u64,
                    0x42 => r.sleb() as u64,
                    0x43 => {
                        r.p += 4;
                        u32::from_le_bytes(r.b[r.p - 4..r.p].try_into().unwrap()) as u64
                    }
                    _ => {
                        r.p += 8;
                        u64::from_le_bytes(r.b[r.p - 8..r.p].try_into().unwrap())
                    }
                };
                if !skip {
                    h += 1;
                    emit!(O_CONST, 0, v);
                }
            }
            0x45..=0xc4 => {
                if !skip {
                    let unary = matches!(op, 0x45 | 0x50 | 0x67..=0x69 | 0x79..=0x7b | 0x8b..=0x91 | 0x99..=0x9f | 0xa7..=0xc4);
                    if !unary {
                        h -= 1;
                    }
                    emit!(op, 0, 0);
                }
            }
            0xfc => {
                let s = r.u32() as u16;
                match s {
                    0..=7 => {}
                    10 => {
                        r.u8();
                        r.u8();
                    }
                    11 => {
                        r.u8();
                    }
                    _ => panic!("opcode 0xfc {s}"),
                }
                if !skip {
                    if s >= 8 {
                        h -= 3;
                    }
                    emit!(0x100 + s, 0, 0);
                }
            }
            _ => panic!("opcode {op:#x}"),
        }
    }
}
