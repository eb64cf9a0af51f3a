//! Hash-consed bit-vector expression DAG with constant folding, a small set of
//! rewrite rules and a structural unsigned range for each node.

use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Extract, // a, k = low bit
    Concat,  // a = high, b = low
    ZExt,
    SExt,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    // floating point, on bit patterns of width 32/64; comparison results are 1 bit
    FAdd,
    FSub,
    FMul,
    FDiv,
    FEq,
    FLt,
    FLe,
    FCvtUI,  // unsigned int -> float (round nearest even)
    FCvtSI,  // signed int -> float
    FToUI,   // float -> unsigned int, truncating (poison out of range)
    FToSI,
    FExt,    // float -> float conversion
    Tab,     // function of the variable a of at most 8 bits: row number a of table k
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Key {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[derive(Clone, Copy)]
pub struct Node {
    pub key: Key,
    pub vs: u32, // interned variable set
    pub lo: u128,
    pub hi: u128,
    pub size: u32,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Key, E, BuildFx>,
    pub varsets: Vec<Rc<[u32]>>,
    vs_map: HashMap<Rc<[u32]>, u32>,
    vs_union: HashMap<(u32, u32), u32, BuildFx>,
    pub vars: Vec<u16>, // var -> width
    memo_gen: Vec<u32>,
    memo_val: Vec<u128>,
    gen: u32,
    pub tabs: Vec<Rc<[u128]>>,
    tab_map: HashMap<Rc<[u128]>, u32>,
    tab_of: HashMap<E, Rc<[u128]>, BuildFx>,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
pub type BuildFx = std::hash::BuildHasherDefault<Fx>;
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}

static mut CTX: *mut Ctx = std::ptr::null_mut();

/// Expressions over one variable of at most 8 bits with more nodes than this become tables.
const TAB_SIZE: u32 = 12;

pub fn cx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_null() {
            CTX = Box::into_raw(Box::new(Ctx::new()));
        }
        &mut *CTX
    }
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fold_bin(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 { 1 } else { m }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sx(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
            if w == 64 {
                let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                (match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y }).to_bits() as u128
            } else {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                (match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y }).to_bits() as u128
            }
        }
        Op::FEq | Op::FLt | Op::FLe => {
            let (x, y) = if w == 64 {
                (f64::from_bits(a as u64), f64::from_bits(b as u64))
            } else {
                (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64)
            };
            (match op { Op::FEq => x == y, Op::FLt => x < y, _ => x <= y }) as u128
        }
        _ => unreachable!(),
    }
}

pub fn fold_fcvt(op: Op, wf: u32, wt: u32, a: u128) -> u128 {
    match op {
        Op::FCvtUI => if wt == 64 { (a as f64).to_bits() as u128 } else { (a as f32).to_bits() as u128 },
        Op::FCvtSI => {
            let x = sx(a, wf);
            if wt == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 }
        }
        Op::FToUI => {
            if wf == 64 { (f64::from_bits(a as u64) as u128) & mask(wt) } else { (f32::from_bits(a as u32) as u128) & mask(wt) }
        }
        Op::FToSI => {
            if wf == 64 { (f64::from_bits(a as u64) as i128 as u128) & mask(wt) } else { (f32::from_bits(a as u32) as i128 as u128) & mask(wt) }
        }
        Op::FExt => {
            if wf == 32 { (f32::from_bits(a as u32) as f64).to_bits() as u128 } else { (f64::from_bits(a as u64) as f32).to_bits() as u128 }
        }
        _ => unreachable!(),
    }
}

impl Ctx {
    fn new() -> Ctx {
        let e: Rc<[u32]> = Rc::from(Vec::new());
        let mut c = Ctx {
            nodes: Vec::new(),
            map: HashMap::default(),
            varsets: vec![e.clone()],
            vs_map: HashMap::new(),
            vs_union: HashMap::default(),
            vars: vec![],
            memo_gen: vec![],
            memo_val: vec![],
            gen: 0,
            tabs: vec![],
            tab_map: HashMap::new(),
            tab_of: HashMap::default(),
        };
        c.vs_map.insert(e, 0);
        // index 0 is a dummy
        c.nodes.push(Node { key: Key { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 }, vs: 0, lo: 0, hi: 0, size: 0 });
        c
    }

    fn vs_single(&mut self, v: u32) -> u32 {
        let s: Rc<[u32]> = Rc::from(vec![v]);
        self.vs_intern(s)
    }
    fn vs_intern(&mut self, s: Rc<[u32]>) -> u32 {
        if let Some(&i) = self.vs_map.get(&s) {
            return i;
        }
        let i = self.varsets.len() as u32;
        self.varsets.push(s.clone());
        self.vs_map.insert(s, i);
        i
    }
    fn vs_join(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = (a.min(b), a.max(b));
        if let Some(&r) = self.vs_union.get(&k) {
            return r;
        }
        let (x, y) = (self.varsets[a as usize].clone(), self.varsets[b as usize].clone());
        let mut v = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i] < y[j]) {
                v.push(x[i]);
                i += 1
            } else if i >= x.len() || y[j] < x[i] {
                v.push(y[j]);
                j += 1
            } else {
                v.push(x[i]);
                i += 1;
                j += 1
            }
        }
        let r = self.vs_intern(Rc::from(v));
        self.vs_union.insert(k, r);
        r
    }

    fn raw(&mut self, key: Key) -> E {
        if let Some(&e) = self.map.get(&key) {
            return e;
        }
        let id = self.nodes.len() as E;
        let m = mask(key.w as u32);
        let n = |e: E| &self.nodes[e as usize];
        let (mut lo, mut hi) = (0u128, m);
        let vs;
        match key.op {
            Op::Const => {
                lo = key.k;
                hi = key.k;
                vs = 0;
            }
            Op::Var => {
                vs = self.vs_single(key.k as u32);
            }
            _ => {
                match key.op {
                    Op::ZExt => {
                        lo = n(key.a).lo;
                        hi = n(key.a).hi;
                    }
                    Op::SExt => {
                        let wa = n(key.a).key.w as u32;
                        if n(key.a).hi < (1u128 << (wa - 1)) {
                            lo = n(key.a).lo;
                            hi = n(key.a).hi;
                        }
                    }
                    Op::Concat => {
                        let wb = n(key.b).key.w as u32;
                        lo = (n(key.a).lo << wb) | n(key.b).lo;
                        hi = (n(key.a).hi << wb) | n(key.b).hi;
                    }
                    Op::Extract => {
                        let (l, h) = (n(key.a).lo, n(key.a).hi);
                        let k = key.k as u32;
                        if (l >> k) & !m == 0 && (h >> k) <= m {
                            lo = l >> k;
                            hi = h >> k;
                        }
                    }
                    Op::Add => {
                        if let (Some(l), Some(h)) = (n(key.a).lo.checked_add(n(key.b).lo), n(key.a).hi.checked_add(n(key.b).hi)) {
                            if h <= m {
                                lo = l;
                                hi = h;
                            } else if l > m && l - m - 1 <= m && h - m - 1 <= m {
                                lo = l - m - 1;
                                hi = h - m - 1;
                            }
                        }
                    }
                    Op::Sub => {
                        if n(key.a).lo >= n(key.b).hi {
                            lo = n(key.a).lo - n(key.b).hi;
                            hi = n(key.a).hi - n(key.b).lo;
                        }
                    }
                    Op::Mul => {
                        if let (Some(l), Some(h)) = (n(key.a).lo.checked_mul(n(key.b).lo), n(key.a).hi.checked_mul(n(key.b).hi)) {
                            if h <= m {
                                lo = l;
                                hi = h;
                            }
                        }
                    }
                    Op::UDiv => {
                        if n(key.b).lo > 0 {
                            lo = n(key.a).lo / n(key.b).hi;
                            hi = n(key.a).hi / n(key.b).lo;
                        }
                    }
                    Op::URem => {
                        if n(key.b).lo > 0 {
                            hi = n(key.a).hi.min(n(key.b).hi - 1);
                        }
                    }
                    Op::And => {
                        hi = n(key.a).hi.min(n(key.b).hi);
                    }
                    Op::Or | Op::Xor => {
                        let x = n(key.a).hi | n(key.b).hi;
                        let bits = 128 - x.leading_zeros();
                        hi = mask(bits).min(m);
                        if key.op == Op::Or {
                            lo = n(key.a).lo.max(n(key.b).lo);
                        }
                    }
                    Op::LShr => {
                        let b = n(key.b);
                        if b.lo == b.hi && b.lo < 128 {
                            lo = n(key.a).lo >> b.lo;
                            hi = n(key.a).hi >> b.lo;
                        } else {
                            hi = n(key.a).hi;
                        }
                    }
                    Op::Shl => {
                        let b = n(key.b);
                        if b.lo == b.hi && b.lo < 64 && n(key.a).hi <= (m >> b.lo) {
                            lo = n(key.a).lo << b.lo;
                            hi = n(key.a).hi << b.lo;
                        }
                    }
                    Op::Ite => {
                        lo = n(key.b).lo.min(n(key.c).lo);
                        hi = n(key.b).hi.max(n(key.c).hi);
                    }
                    _ => {}
                }
                let (a, b, c) = (self.nodes[key.a as usize].vs, self.nodes[key.b as usize].vs, self.nodes[key.c as usize].vs);
                let ab = self.vs_join(a, b);
                vs = self.vs_join(ab, c);
            }
        }
        let size = if matches!(key.op, Op::Const | Op::Var | Op::Tab) {
            1
        } else {
            [key.a, key.b, key.c].iter().fold(1u32, |s, e| s.saturating_add(self.nodes[*e as usize].size))
        };
        if size > TAB_SIZE {
            if let [v] = self.varsets[vs as usize][..] {
                if self.vars[v as usize] <= 8 {
                    let e = self.tabulate(key, v);
                    self.map.insert(key, e);
                    return e;
                }
            }
        }
        if key.op == Op::Tab {
            let t = &self.tabs[key.k as usize];
            lo = *t.iter().min().unwrap();
            hi = *t.iter().max().unwrap();
        }
        self.nodes.push(Node { key, vs, lo, hi, size });
        self.map.insert(key, id);
        id
    }

    /// The values of an expression over one narrow variable, by value of the variable.
    fn rows(&mut self, e: E, v: u32) -> Rc<[u128]> {
        let k = self.n(e).key;
        if k.op == Op::Tab {
            return self.tabs[k.k as usize].clone();
        }
        let n = 1usize << self.vars[v as usize];
        if k.op == Op::Const {
            return Rc::from(vec![k.k; n]);
        }
        if let Some(r) = self.tab_of.get(&e) {
            return r.clone();
        }
        let mut t = Vec::with_capacity(n);
        for x in 0..n as u128 {
            self.eval_begin();
            t.push(self.eval(e, &|_| x));
        }
        let r: Rc<[u128]> = Rc::from(t);
        self.tab_of.insert(e, r.clone());
        r
    }
    /// Replace a large expression over one narrow variable by its table of values.
    fn tabulate(&mut self, key: Key, v: u32) -> E {
        let n = 1usize << self.vars[v as usize];
        let ch: Vec<Rc<[u128]>> = [key.a, key.b, key.c].iter().map(|&e| if e == 0 { Rc::from(Vec::new()) } else { self.rows(e, v) }).collect();
        let w = key.w as u32;
        let wa = self.w(key.a);
        let wb = self.w(key.b);
        let t: Vec<u128> = (0..n)
            .map(|i| match key.op {
                Op::Extract => (ch[0][i] >> key.k as u32) & mask(w),
                Op::Concat => (ch[0][i] << wb) | ch[1][i],
                Op::ZExt => ch[0][i],
                Op::SExt => (sx(ch[0][i], wa) as u128) & mask(w),
                Op::Ite => if ch[0][i] != 0 { ch[1][i] } else { ch[2][i] },
                Op::FCvtUI | Op::FCvtSI | Op::FToUI | Op::FToSI | Op::FExt => fold_fcvt(key.op, wa, w, ch[0][i]),
                op => fold_bin(op, wa, ch[0][i], ch[1][i]),
            })
            .collect();
        self.from_rows(t, w, v)
    }
    /// One constraint with the meaning of all those constraints over the narrow variable.
    pub fn conjoin(&mut self, cs: &[E], v: u32) -> E {
        let mut t: Vec<u128> = self.rows(cs[0], v).to_vec();
        for c in &cs[1..] {
            let r = self.rows(*c, v);
            for (x, y) in t.iter_mut().zip(r.iter()) {
                *x &= *y;
            }
        }
        self.from_rows(t, 1, v)
    }
    fn from_rows(&mut self, t: Vec<u128>, w: u32, v: u32) -> E {
        let n = t.len();
        if t.iter().all(|x| *x == t[0]) {
            return self.konst(t[0], w);
        }
        let ve = self.var(v);
        if w == 1 {
            let ones = t.iter().filter(|x| **x == 1).count();
            if ones == 1 || ones == n - 1 {
                let k = t.iter().position(|x| (*x == 1) == (ones == 1)).unwrap();
                let e = self.eqc(ve, k as u128);
                return if ones == 1 { e } else { self.not(e) };
            }
        }
        let t: Rc<[u128]> = Rc::from(t);
        let id = match self.tab_map.get(&t) {
            Some(&i) => i,
            None => {
                let i = self.tabs.len() as u32;
                self.tabs.push(t.clone());
                self.tab_map.insert(t, i);
                i
            }
        };
        self.raw(Key { op: Op::Tab, w: w as u16, a: ve, b: 0, c: 0, k: id as u128 })
    }

    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].key.w as u32
    }
    #[inline]
    pub fn n(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.key.op == Op::Const {
            Some(n.key.k)
        } else {
            None
        }
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        debug_assert!(w >= 1 && w <= 128);
        self.raw(Key { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn new_var(&mut self, w: u32) -> (u32, E) {
        let v = self.vars.len() as u32;
        self.vars.push(w as u16);
        let e = self.raw(Key { op: Op::Var, w: w as u16, a: 0, b: 0, c: 0, k: v as u128 });
        (v, e)
    }
    pub fn var(&mut self, v: u32) -> E {
        let w = self.vars[v as usize];
        self.raw(Key { op: Op::Var, w, a: 0, b: 0, c: 0, k: v as u128 })
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let n = *self.n(e);
        let ew = n.key.w as u32;
        debug_assert!(lo + w <= ew);
        if lo == 0 && w == ew {
            return e;
        }
        if (n.hi >> lo.min(127)) == 0 && lo < 128 {
            return self.konst(0, w);
        }
        match n.key.op {
            Op::Const => self.konst(n.key.k >> lo, w),
            Op::Extract => self.extract(n.key.a, lo + n.key.k as u32, w),
            Op::Concat => {
                let wb = self.w(n.key.b);
                if lo >= wb {
                    self.extract(n.key.a, lo - wb, w)
                } else if lo + w <= wb {
                    self.extract(n.key.b, lo, w)
                } else {
                    let h = self.extract(n.key.a, 0, lo + w - wb);
                    let l = self.extract(n.key.b, lo, wb - lo);
                    self.concat(h, l)
                }
            }
            Op::ZExt => {
                let wa = self.w(n.key.a);
                if lo >= wa {
                    self.konst(0, w)
                } else if lo + w <= wa {
                    self.extract(n.key.a, lo, w)
                } else {
                    let x = self.extract(n.key.a, lo, wa - lo);
                    self.zext(x, w)
                }
            }
            Op::SExt => {
                let wa = self.w(n.key.a);
                if lo + w <= wa {
                    self.extract(n.key.a, lo, w)
                } else if lo == 0 {
                    self.sext(n.key.a, w)
                } else {
                    self.raw(Key { op: Op::Extract, w: w as u16, a: e, b: 0, c: 0, k: lo as u128 })
                }
            }
            Op::Ite => {
                let (b, c) = (n.key.b, n.key.c);
                if self.as_const(b).is_some() || self.as_const(c).is_some() {
                    let x = self.extract(b, lo, w);
                    let y = self.extract(c, lo, w);
                    self.ite(n.key.a, x, y)
                } else {
                    self.raw(Key { op: Op::Extract, w: w as u16, a: e, b: 0, c: 0, k: lo as u128 })
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.key.a, lo, w);
                let y = self.extract(n.key.b, lo, w);
                self.bin(n.key.op, x, y)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.key.a, 0, w);
                let y = self.extract(n.key.b, 0, w);
                self.bin(n.key.op, x, y)
            }
            Op::LShr => {
                if let Some(s) = self.as_const(n.key.b) {
                    let s = s as u32;
                    if s < ew {
                        if lo + s + w <= ew {
                            return self.extract(n.key.a, lo + s, w);
                        }
                        if lo + s >= ew {
                            return self.konst(0, w);
                        }
                        let x = self.extract(n.key.a, lo + s, ew - lo - s);
                        return self.zext(x, w);
                    }
                }
                self.raw(Key { op: Op::Extract, w: w as u16, a: e, b: 0, c: 0, k: lo as u128 })
            }
            Op::Shl => {
                if let Some(s) = self.as_const(n.key.b) {
                    let s = s as u32;
                    if lo >= s {
                        return self.extract(n.key.a, lo - s, w);
                    }
                    if lo + w <= s {
                        return self.konst(0, w);
                    }
                }
                self.raw(Key { op: Op::Extract, w: w as u16, a: e, b: 0, c: 0, k: lo as u128 })
            }
            _ => self.raw(Key { op: Op::Extract, w: w as u16, a: e, b: 0, c: 0, k: lo as u128 }),
        }
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (*self.n(a), *self.n(b));
        let w = na.key.w as u32 + nb.key.w as u32;
        assert!(w <= 128, "expression wider than 128 bits");
        if na.key.op == Op::Const && nb.key.op == Op::Const {
            return self.konst((na.key.k << nb.key.w) | nb.key.k, w);
        }
        if na.key.op == Op::Const && na.key.k == 0 {
            return self.zext(b, w);
        }
        // adjacent extracts
        if na.key.op == Op::Extract && nb.key.op == Op::Extract && na.key.a == nb.key.a && na.key.k == nb.key.k + nb.key.w as u128 {
            return self.extract(na.key.a, nb.key.k as u32, w);
        }
        // Extract(x, lo..) ++ x[..lo] where low part has been simplified to a plain expression
        if na.key.op == Op::Extract {
            // high = x[hi:k], low = extract(x, 0, k) already simplified
            if na.key.k as u32 >= nb.key.w as u32 {
                let lowk = na.key.k as u32 - nb.key.w as u32;
                let nx = *self.n(na.key.a);
                if nx.key.op != Op::Extract {
                    let low = self.extract(na.key.a, lowk, nb.key.w as u32);
                    if low == b {
                        return self.extract(na.key.a, lowk, w);
                    }
                }
            }
        }
        if nb.key.op == Op::Concat {
            // (a ++ (c ++ d)): try to merge a and c
            let nc = *self.n(nb.key.a);
            if (na.key.op == Op::Const && nc.key.op == Op::Const)
                || (na.key.op == Op::Extract && nc.key.op == Op::Extract && na.key.a == nc.key.a && na.key.k == nc.key.k + nc.key.w as u128)
            {
                let h = self.concat(a, nb.key.a);
                return self.concat(h, nb.key.b);
            }
        }
        if nb.key.op == Op::ZExt && na.key.op == Op::Const {
            let wi = self.w(nb.key.a);
            let z = self.konst(na.key.k << (nb.key.w as u32 - wi), na.key.w as u32 + nb.key.w as u32 - wi);
            return self.concat(z, nb.key.a);
        }
        self.raw(Key { op: Op::Concat, w: w as u16, a, b, c: 0, k: 0 })
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = *self.n(a);
        let wa = n.key.w as u32;
        if wa == w {
            return a;
        }
        debug_assert!(w > wa);
        match n.key.op {
            Op::Const => self.konst(n.key.k, w),
            Op::ZExt => self.zext(n.key.a, w),
            _ => self.raw(Key { op: Op::ZExt, w: w as u16, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = *self.n(a);
        let wa = n.key.w as u32;
        if wa == w {
            return a;
        }
        match n.key.op {
            Op::Const => self.konst(sx(n.key.k, wa) as u128, w),
            Op::SExt => self.sext(n.key.a, w),
            Op::ZExt => self.zext(n.key.a, w),
            Op::Ite => {
                let (b, c) = (n.key.b, n.key.c);
                if self.as_const(b).is_some() && self.as_const(c).is_some() {
                    let x = self.sext(b, w);
                    let y = self.sext(c, w);
                    return self.ite(n.key.a, x, y);
                }
                self.raw(Key { op: Op::SExt, w: w as u16, a, b: 0, c: 0, k: 0 })
            }
            _ => {
                if n.hi < (1u128 << (wa - 1)) {
                    return self.zext(a, w);
                }
                self.raw(Key { op: Op::SExt, w: w as u16, a, b: 0, c: 0, k: 0 })
            }
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Op::Or, c, b),
                (Some(0), _) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (_, Some(0)) => return self.bin(Op::And, c, a),
                (_, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        let nc = *self.n(c);
        // canonical: not(c) ? a : b  => c ? b : a
        if nc.key.op == Op::Xor && self.as_const(nc.key.b) == Some(1) {
            return self.ite(nc.key.a, b, a);
        }
        let nb = *self.n(b);
        if nb.key.op == Op::Ite && nb.key.a == c {
            return self.ite(c, a, nb.key.c);
        }
        if nb.key.op == Op::Ite && nb.key.b == a {
            let c2 = self.bin(Op::Or, c, nb.key.a);
            return self.ite(c2, a, nb.key.c);
        }
        let na = *self.n(a);
        if na.key.op == Op::Ite && na.key.a == c {
            return self.ite(c, na.key.b, b);
        }
        self.raw(Key { op: Op::Ite, w: w as u16, a: c, b: a, c: b, k: 0 })
    }
    pub fn not(&mut self, a: E) -> E {
        // bitwise not
        let w = self.w(a);
        let m = self.konst(mask(w), w);
        self.bin(Op::Xor, a, m)
    }
    pub fn is_true(&self, e: E) -> bool {
        self.as_const(e) == Some(1)
    }
    pub fn is_false(&self, e: E) -> bool {
        self.as_const(e) == Some(0)
    }
    pub fn eqc(&mut self, a: E, k: u128) -> E {
        let w = self.w(a);
        let k = self.konst(k, w);
        self.bin(Op::Eq, a, k)
    }

    fn is_cmp(op: Op) -> bool {
        matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe)
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let (na, nb) = (*self.n(a), *self.n(b));
        let w = na.key.w as u32;
        debug_assert_eq!(na.key.w, nb.key.w, "width mismatch in {op:?}");
        let rw = if Self::is_cmp(op) { 1 } else { w };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(fold_bin(op, w, x, y), rw);
        }
        let m = mask(w);
        // canonical order: constants on the right for commutative ops
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if ca.is_some() || (cb.is_none() && a > b) {
                return self.bin_canon(op, b, a, w, rw);
            }
        }
        let _ = m;
        self.bin_canon(op, a, b, w, rw)
    }

    fn bin_canon(&mut self, op: Op, a: E, b: E, w: u32, rw: u32) -> E {
        let (na, nb) = (*self.n(a), *self.n(b));
        let cb = self.as_const(b);
        let ca = self.as_const(a);
        let m = mask(w);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    // (x + k1) + k2
                    if na.key.op == Op::Add {
                        if let Some(k1) = self.as_const(na.key.b) {
                            let kk = self.konst(k1.wrapping_add(k), w);
                            return self.bin(Op::Add, na.key.a, kk);
                        }
                    }
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = cb {
                    let kk = self.konst((!k).wrapping_add(1), w);
                    return self.bin(Op::Add, a, kk);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if let Some(k) = cb {
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                    if k > na.hi {
                        return self.konst(0, w);
                    }
                    // narrow the division when the dividend is known to be small
                    let bits = 128 - na.hi.max(k).leading_zeros();
                    if bits < w && (w > 64 && bits <= 64 || w > 32 && bits <= 32) {
                        let nw = if bits <= 32 { 32 } else { 64 };
                        if nw < w {
                            let x = self.extract(a, 0, nw);
                            let y = self.konst(k, nw);
                            let r = self.bin(Op::UDiv, x, y);
                            return self.zext(r, w);
                        }
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k == 1 {
                        return self.konst(0, w);
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(k - 1, w);
                        return self.bin(Op::And, a, s);
                    }
                    if k > na.hi {
                        return a;
                    }
                    let bits = 128 - na.hi.max(k).leading_zeros();
                    let nw = if bits <= 32 { 32 } else { 64 };
                    if bits <= 64 && nw < w {
                        let x = self.extract(a, 0, nw);
                        let y = self.konst(k, nw);
                        let r = self.bin(Op::URem, x, y);
                        return self.zext(r, w);
                    }
                }
            }
            Op::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) || a == b {
                    return a;
                }
                if let Some(k) = cb {
                    // low mask
                    if (k + 1).is_power_of_two() {
                        if na.hi <= k {
                            return a;
                        }
                        let bits = (k + 1).trailing_zeros();
                        let x = self.extract(a, 0, bits);
                        return self.zext(x, w);
                    }
                    if na.key.op == Op::And {
                        if let Some(k1) = self.as_const(na.key.b) {
                            let kk = self.konst(k1 & k, w);
                            return self.bin(Op::And, na.key.a, kk);
                        }
                    }
                    if na.key.op == Op::ZExt {
                        let wi = self.w(na.key.a);
                        let kk = self.konst(k & mask(wi), wi);
                        let x = self.bin(Op::And, na.key.a, kk);
                        return self.zext(x, w);
                    }
                    if na.key.op == Op::Concat {
                        let wl = self.w(na.key.b);
                        let kh = self.konst(k >> wl, w - wl);
                        let kl = self.konst(k, wl);
                        let h = self.bin(Op::And, na.key.a, kh);
                        let l = self.bin(Op::And, na.key.b, kl);
                        return self.concat(h, l);
                    }
                }
                if w == 1 {
                    // x & !x
                    if na.key.op == Op::Xor && na.key.a == b && self.as_const(na.key.b) == Some(1) {
                        return self.konst(0, 1);
                    }
                    if nb.key.op == Op::Xor && nb.key.a == a && self.as_const(nb.key.b) == Some(1) {
                        return self.konst(0, 1);
                    }
                }
            }
            Op::Or => {
                if cb == Some(0) || a == b {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if w == 1 {
                    if na.key.op == Op::Xor && na.key.a == b && self.as_const(na.key.b) == Some(1) {
                        return self.konst(1, 1);
                    }
                    if nb.key.op == Op::Xor && nb.key.a == a && self.as_const(nb.key.b) == Some(1) {
                        return self.konst(1, 1);
                    }
                }
                // disjoint pieces: (zext(x)) | (y << k) => concat
                if w > 1 {
                    if let Some(r) = self.or_concat(a, b, w) {
                        return r;
                    }
                    if let Some(r) = self.or_concat(b, a, w) {
                        return r;
                    }
                }
            }
            Op::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = cb {
                    if na.key.op == Op::Xor {
                        if let Some(k1) = self.as_const(na.key.b) {
                            let kk = self.konst(k1 ^ k, w);
                            return self.bin(Op::Xor, na.key.a, kk);
                        }
                    }
                    if w == 1 && k == 1 {
                        match na.key.op {
                            Op::Ult => return self.bin(Op::Ule, na.key.b, na.key.a),
                            Op::Ule => return self.bin(Op::Ult, na.key.b, na.key.a),
                            Op::Slt => return self.bin(Op::Sle, na.key.b, na.key.a),
                            Op::Sle => return self.bin(Op::Slt, na.key.b, na.key.a),
                            _ => {}
                        }
                    }
                }
            }
            Op::Shl => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u32;
                    let x = self.extract(a, 0, w - k);
                    let z = self.konst(0, k);
                    return self.concat_noz(x, z);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::LShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u32;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    let k = (k as u32).min(w - 1);
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if na.hi < nb.lo || nb.hi < na.lo {
                    return self.konst(0, 1);
                }
                if let Some(k) = cb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match na.key.op {
                        Op::ZExt => {
                            let wi = self.w(na.key.a);
                            if k > mask(wi) {
                                return self.konst(0, 1);
                            }
                            let kk = self.konst(k, wi);
                            return self.bin(Op::Eq, na.key.a, kk);
                        }
                        Op::SExt => {
                            let wi = self.w(na.key.a);
                            let t = k & mask(wi);
                            if (sx(t, wi) as u128) & m != k {
                                return self.konst(0, 1);
                            }
                            let kk = self.konst(t, wi);
                            return self.bin(Op::Eq, na.key.a, kk);
                        }
                        Op::Concat => {
                            let wl = self.w(na.key.b);
                            let kh = self.konst(k >> wl, w - wl);
                            let kl = self.konst(k, wl);
                            let h = self.bin(Op::Eq, na.key.a, kh);
                            let l = self.bin(Op::Eq, na.key.b, kl);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Ite => {
                            let (x, y) = (self.as_const(na.key.b), self.as_const(na.key.c));
                            if x.is_some() || y.is_some() {
                                let p = self.eqc(na.key.b, k);
                                let q = self.eqc(na.key.c, k);
                                return self.ite(na.key.a, p, q);
                            }
                        }
                        Op::Add => {
                            if let Some(k1) = self.as_const(na.key.b) {
                                let kk = self.konst(k.wrapping_sub(k1), w);
                                return self.bin(Op::Eq, na.key.a, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k1) = self.as_const(na.key.b) {
                                let kk = self.konst(k ^ k1, w);
                                return self.bin(Op::Eq, na.key.a, kk);
                            }
                        }
                        _ => {}
                    }
                } else {
                    // split equal-shaped concats
                    if na.key.op == Op::Concat && nb.key.op == Op::Concat && self.w(na.key.b) == self.w(nb.key.b) {
                        let h = self.bin(Op::Eq, na.key.a, nb.key.a);
                        let l = self.bin(Op::Eq, na.key.b, nb.key.b);
                        return self.bin(Op::And, h, l);
                    }
                    if na.key.op == Op::ZExt && nb.key.op == Op::ZExt && self.w(na.key.a) == self.w(nb.key.a) {
                        return self.bin(Op::Eq, na.key.a, nb.key.a);
                    }
                }
            }
            Op::Ult => {
                if a == b || cb == Some(0) {
                    return self.konst(0, 1);
                }
                if na.hi < nb.lo {
                    return self.konst(1, 1);
                }
                if na.lo >= nb.hi {
                    return self.konst(0, 1);
                }
                if w == 1 {
                    let x = self.not(a);
                    return self.bin(Op::And, x, b);
                }
                if cb == Some(1) {
                    return self.eqc(a, 0);
                }
                if ca == Some(m - 1) {
                    return self.eqc(b, m);
                }
                if ca == Some(0) {
                    let z = self.eqc(b, 0);
                    return self.not(z);
                }
                if cb == Some(m) {
                    let z = self.eqc(a, m);
                    return self.not(z);
                }
                if let Some(r) = self.cmp_narrow(op, a, b) {
                    return r;
                }
            }
            Op::Ule => {
                if a == b {
                    return self.konst(1, 1);
                }
                if na.hi <= nb.lo {
                    return self.konst(1, 1);
                }
                if na.lo > nb.hi {
                    return self.konst(0, 1);
                }
                if let Some(k) = cb {
                    let kk = self.konst(k + 1, w); // k < m, otherwise decided by the range
                    return self.bin(Op::Ult, a, kk);
                }
                if let Some(k) = ca {
                    let kk = self.konst(k - 1, w);
                    return self.bin(Op::Ult, kk, b);
                }
                if w == 1 {
                    let x = self.not(a);
                    return self.bin(Op::Or, x, b);
                }
                if let Some(r) = self.cmp_narrow(op, a, b) {
                    return r;
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.konst((op == Op::Sle) as u128, 1);
                }
                let half = 1u128 << (w - 1);
                // both sides in the same half: unsigned compare
                if (na.hi < half && nb.hi < half) || (na.lo >= half && nb.lo >= half) {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if na.hi < half && nb.lo >= half {
                    return self.konst(0, 1);
                }
                if na.lo >= half && nb.hi < half {
                    return self.konst(1, 1);
                }
                // ite over constants
                if cb.is_some() && na.key.op == Op::Ite && (self.as_const(na.key.b).is_some() || self.as_const(na.key.c).is_some()) {
                    let p = self.bin(op, na.key.b, b);
                    let q = self.bin(op, na.key.c, b);
                    return self.ite(na.key.a, p, q);
                }
                if ca.is_some() && nb.key.op == Op::Ite && (self.as_const(nb.key.b).is_some() || self.as_const(nb.key.c).is_some()) {
                    let p = self.bin(op, a, nb.key.b);
                    let q = self.bin(op, a, nb.key.c);
                    return self.ite(nb.key.a, p, q);
                }
                if na.key.op == Op::SExt && nb.key.op == Op::SExt && self.w(na.key.a) == self.w(nb.key.a) {
                    return self.bin(op, na.key.a, nb.key.a);
                }
            }
            _ => {}
        }
        self.raw(Key { op, w: rw as u16, a, b, c: 0, k: 0 })
    }

    fn concat_noz(&mut self, a: E, b: E) -> E {
        self.concat(a, b)
    }

    /// a | b where a's set bits are below b's: b = Concat(h, 0_k), a < 2^k.
    fn or_concat(&mut self, a: E, b: E, w: u32) -> Option<E> {
        let (na, nb) = (*self.n(a), *self.n(b));
        if nb.key.op == Op::Concat {
            let l = *self.n(nb.key.b);
            if l.key.op == Op::Const && l.key.k == 0 {
                let k = l.key.w as u32;
                if na.hi <= mask(k) {
                    let lo = self.extract(a, 0, k);
                    return Some(self.concat(nb.key.a, lo));
                }
            }
        }
        if nb.key.op == Op::ZExt {
            let inner = *self.n(nb.key.a);
            if inner.key.op == Op::Concat {
                let l = *self.n(inner.key.b);
                if l.key.op == Op::Const && l.key.k == 0 && na.hi <= mask(l.key.w as u32) {
                    let lo = self.extract(a, 0, l.key.w as u32);
                    let c = self.concat(inner.key.a, lo);
                    return Some(self.zext(c, w));
                }
            }
        }
        None
    }

    fn cmp_narrow(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.key.op == Op::ZExt {
            let wi = self.w(na.key.a);
            if nb.hi <= mask(wi) {
                let y = self.extract(b, 0, wi);
                return Some(self.bin(op, na.key.a, y));
            }
        }
        if nb.key.op == Op::ZExt {
            let wi = self.w(nb.key.a);
            if na.hi <= mask(wi) {
                let x = self.extract(a, 0, wi);
                return Some(self.bin(op, x, nb.key.a));
            }
        }
        if self.as_const(b).is_some() && na.key.op == Op::Ite && (self.as_const(na.key.b).is_some() || self.as_const(na.key.c).is_some()) {
            let p = self.bin(op, na.key.b, b);
            let q = self.bin(op, na.key.c, b);
            return Some(self.ite(na.key.a, p, q));
        }
        if self.as_const(a).is_some() && nb.key.op == Op::Ite && (self.as_const(nb.key.b).is_some() || self.as_const(nb.key.c).is_some()) {
            let p = self.bin(op, a, nb.key.b);
            let q = self.bin(op, a, nb.key.c);
            return Some(self.ite(nb.key.a, p, q));
        }
        None
    }

    pub fn fcvt(&mut self, op: Op, a: E, w: u32) -> E {
        let wa = self.w(a);
        if let Some(k) = self.as_const(a) {
            let v = fold_fcvt(op, wa, w, k);
            return self.konst(v, w);
        }
        self.raw(Key { op, w: w as u16, a, b: 0, c: 0, k: 0 })
    }

    /// Number of low bits known to be zero.
    pub fn trailing_zeros(&self, e: E) -> u32 {
        let n = self.n(e);
        match n.key.op {
            Op::Const => if n.key.k == 0 { n.key.w as u32 } else { n.key.k.trailing_zeros() },
            Op::Concat => {
                let t = self.trailing_zeros(n.key.b);
                if t == self.w(n.key.b) { t + self.trailing_zeros(n.key.a) } else { t }
            }
            Op::ZExt | Op::SExt => {
                let t = self.trailing_zeros(n.key.a);
                if t == self.w(n.key.a) { n.key.w as u32 } else { t }
            }
            Op::Add | Op::Sub | Op::Or | Op::Xor => self.trailing_zeros(n.key.a).min(self.trailing_zeros(n.key.b)),
            Op::Mul => (self.trailing_zeros(n.key.a) + self.trailing_zeros(n.key.b)).min(n.key.w as u32),
            Op::And => self.trailing_zeros(n.key.a).max(self.trailing_zeros(n.key.b)),
            Op::Ite => self.trailing_zeros(n.key.b).min(self.trailing_zeros(n.key.c)),
            _ => 0,
        }
    }

    /// Start a fresh evaluation session (invalidates the memo table).
    pub fn eval_begin(&mut self) {
        self.gen += 1;
        let n = self.nodes.len();
        if self.memo_gen.len() < n {
            self.memo_gen.resize(n * 2, 0);
            self.memo_val.resize(n * 2, 0);
        }
    }
    pub fn eval(&mut self, e: E, m: &dyn Fn(u32) -> u128) -> u128 {
        if let Some(k) = self.as_const(e) {
            return k;
        }
        if self.memo_gen[e as usize] == self.gen {
            return self.memo_val[e as usize];
        }
        let n = *self.n(e);
        let k = n.key;
        let w = k.w as u32;
        let r = match k.op {
            Op::Const => k.k,
            Op::Var => m(k.k as u32) & mask(w),
            Op::Extract => (self.eval(k.a, m) >> k.k as u32) & mask(w),
            Op::Concat => {
                let wb = self.w(k.b);
                (self.eval(k.a, m) << wb) | self.eval(k.b, m)
            }
            Op::ZExt => self.eval(k.a, m),
            Op::Tab => {
                let x = self.eval(k.a, m);
                self.tabs[k.k as usize][x as usize]
            }
            Op::SExt => {
                let wa = self.w(k.a);
                (sx(self.eval(k.a, m), wa) as u128) & mask(w)
            }
            Op::Ite => {
                if self.eval(k.a, m) != 0 {
                    self.eval(k.b, m)
                } else {
                    self.eval(k.c, m)
                }
            }
            Op::FCvtUI | Op::FCvtSI | Op::FToUI | Op::FToSI | Op::FExt => {
                let wa = self.w(k.a);
                let x = self.eval(k.a, m);
                fold_fcvt(k.op, wa, w, x)
            }
            Op::And if w == 1 => {
                if self.eval(k.a, m) == 0 { 0 } else { self.eval(k.b, m) }
            }
            Op::Or if w == 1 => {
                if self.eval(k.a, m) != 0 { 1 } else { self.eval(k.b, m) }
            }
            op => {
                let wa = self.w(k.a);
                let x = self.eval(k.a, m);
                let y = self.eval(k.b, m);
                fold_bin(op, wa, x, y)
            }
        };
        self.memo_gen[e as usize] = self.gen;
        self.memo_val[e as usize] = r;
        r
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        let k = n.key;
        match k.op {
            Op::Const => format!("{:#x}:{}", k.k, k.w),
            Op::Var => format!("v{}:{}", k.k, k.w),
            _ if depth == 0 => format!("..#{e}"),
            Op::Tab => format!("T{}({})", k.k, self.show(k.a, 1)),
            Op::Extract => format!("{}[{}+{}]", self.show(k.a, depth - 1), k.k, k.w),
            _ => {
                let mut s = format!("({:?}", k.op);
                for x in [k.a, k.b, k.c] {
                    if x != 0 {
                        s += " ";
                        s += &self.show(x, depth - 1);
                    }
                }
                s + ")"
            }
        }
    }
}
