//! Symbolic interpreter.

use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    W(u64, u64),
    S(E),
    A(Rc<[Val]>),
}
use Val::*;

pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<E>, // empty: fully concrete; else one byte expression per byte (0 = concrete)
}
impl Clone for Obj {
    fn clone(&self) -> Obj {
        Obj { data: self.data.clone(), sym: self.sym.clone() }
    }
}

pub struct PFunc {
    pub f: Func,
    pub consts: Vec<Val>,
    pub id: u32,
}

#[derive(Clone)]
pub struct Frame {
    f: &'static PFunc,
    block: u32,
    ip: u32,
    prev: u32,
    regs: Vec<Val>,
    obj: u32,
    dst: u32,
    has_dst: bool,
    normal: Option<u32>,
    dyns: Vec<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    objs: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    gobjs: Rc<HashMap<u32, Rc<Obj>>>,
    pub pc: Vec<E>,
    pub model: Rc<Vec<u128>>,
    fixed: Rc<HashMap<u32, u128>>,
    conc: Rc<HashMap<E, u128>>,
    pub inputs: Vec<(E, u32)>,
    pub reach: Vec<u32>,
    pub notes: Vec<String>,
    steps: u64,
    pub depth: u32,
    pub may_panic: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,  // assert | panic | hang | trap
    pub id: String,    // assertion id or panic location
    pub stack: Vec<String>,
    pub inputs: Vec<u128>,
    pub notes: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Hook {
    None,
    Sym(u32),
    Choose,
    Assume,
    Assert,
    Reach,
    Note,
    Panic,
    Hash0,
    RandKeys,
    ZeroRet,
    Bytes,
    IsSym,
    Reject,
}

pub struct Config {
    pub max_steps: u64,
    pub max_paths: u64,
    pub deadline: Option<Instant>,
    pub max_violations: usize,
    pub jobs: usize,
    pub rlimit: u32,
    pub samples: usize,
    pub verbose: bool,
    pub crosscheck: usize,
}

#[derive(Default)]
pub struct Report {
    pub paths_ok: u64,
    pub paths_assume: u64,
    pub paths_rejected: u64,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub incomplete: Option<String>,
    pub instrs: u64,
    pub forks: u64,
    pub asserts_checked: u64,
    pub asserts_symbolic: u64,
    pub reach: BTreeMap<u32, u64>,
    pub funcs: HashSet<String>,
    pub samples: Vec<(Vec<u128>, Vec<u32>)>, // completed path models: inputs, reach ids
    pub stats: Stats,
    pub dump: Vec<(String, bool)>,
    pub max_path_steps: u64,
    pub n_vars: usize,
}

/// Reads through address expressions larger than this split the path instead of merging it.
fn addr_size() -> u32 {
    static mut N: u32 = 0;
    unsafe {
        if N == 0 {
            N = std::env::var("SYMX_ADDR").ok().and_then(|s| s.parse().ok()).unwrap_or(64);
        }
        N
    }
}
/// Tell where queries come from (for tuning harnesses).
fn profile() -> bool {
    static P: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *P.get_or_init(|| std::env::var("SYMX_PROF").is_ok())
}
extern "C" {
    fn fork() -> i32;
}
/// Memory shared by all worker processes.
pub struct Share {
    pub active: std::sync::atomic::AtomicUsize,
    pub waiting: std::sync::atomic::AtomicUsize,
    pub jobs: std::sync::atomic::AtomicUsize,
    pub forks: std::sync::atomic::AtomicUsize,
}
impl Share {
    fn idle(&self) -> bool {
        let o = std::sync::atomic::Ordering::SeqCst;
        self.waiting.load(o) == 0 && self.active.load(o) < self.jobs.load(o)
    }
    /// Take a slot if one is free.
    pub fn claim(&self) -> bool {
        let o = std::sync::atomic::Ordering::SeqCst;
        let j = self.jobs.load(o);
        let ok = self.active.fetch_update(o, o, |a| if a < j { Some(a + 1) } else { None }).is_ok();
        if ok {
            self.forks.fetch_add(1, o);
        }
        ok
    }
    pub fn release(&self) {
        self.active.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    }
}

pub struct Exec {
    pub m: Module,
    funcs: Vec<Option<&'static PFunc>>,
    hooks: Vec<Hook>,
    gcache: Vec<Option<Rc<Obj>>>,
    pub solver: Solver,
    pub work: Vec<State>,
    pub rep: Report,
    cfg: Config,
    fn_used: Vec<bool>,
    ext_addr: HashMap<String, u64>,
    ext_names: Vec<String>,
    seen_viol: HashSet<String>,
    share: Option<&'static Share>,
    pub children: Vec<i32>,
    vars: HashMap<(u32, u32), u32>,
}

const FUNC_BASE: u64 = 0x7000_0000_0000_0000;
const EXT_BASE: u64 = 0x7100_0000_0000_0000;

enum Stop {
    Done,
    Fork,          // current state has been dropped/pushed; stop running it
    Assume,
    Reject,
    Viol(String, String), // kind, id
    Err(String),
}
type R<T> = Result<T, Stop>;

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Err(s.into()))
}

#[inline]
fn mk(v: u128, w: u32) -> Val {
    if w <= 64 {
        C((v & mask(w)) as u64)
    } else {
        W(v as u64, (v >> 64) as u64)
    }
}
#[inline]
fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
fn cval(v: &Val) -> Option<u128> {
    match v {
        C(x) => Some(*x as u128),
        W(l, h) => Some((*h as u128) << 64 | *l as u128),
        S(_) => None,
        A(_) => panic!("aggregate where scalar expected"),
    }
}
fn to_e(v: &Val, w: u32) -> E {
    match v {
        S(e) => {
            debug_assert_eq!(cx().w(*e), w);
            *e
        }
        _ => cx().konst(cval(v).unwrap(), w),
    }
}
fn from_e(e: E) -> Val {
    match cx().as_const(e) {
        Some(k) => mk(k, cx().w(e)),
        None => S(e),
    }
}

impl Exec {
    pub fn new(m: Module, cfg: Config) -> Exec {
        let n = m.funcs.len();
        let mut hooks = vec![Hook::None; n];
        for (i, f) in m.funcs.iter().enumerate() {
            let p = f.pretty.as_str();
            hooks[i] = match f.name.as_str() {
                "v_u8" => Hook::Sym(8),
                "v_u16" => Hook::Sym(16),
                "v_u32" => Hook::Sym(32),
                "v_u64" => Hook::Sym(64),
                "v_choose" => Hook::Choose,
                "v_assume" => Hook::Assume,
                "v_assert" => Hook::Assert,
                "v_reach" => Hook::Reach,
                "v_note" => Hook::Note,
                "v_bytes" => Hook::Bytes,
                "v_is_symbolic" => Hook::IsSym,
                "v_reject" => Hook::Reject,
                _ => {
                    if p.contains("BuildHasher>::hash_one::<") && !p.contains("RandomState as ") {
                        Hook::Hash0
                    } else if p.contains("sip::Hasher<") && p.ends_with("Hasher>::write") {
                        // what is hashed does not count: everything collides
                        Hook::ZeroRet
                    } else if p.contains("hashmap_random_keys") {
                        Hook::RandKeys
                    } else if p.contains("rust_begin_unwind")
                        || p.starts_with("core::panicking::")
                        || p.starts_with("core::option::expect_failed")
                        || p.starts_with("core::option::unwrap_failed")
                        || p.starts_with("core::result::unwrap_failed")
                        || p.starts_with("core::slice::index::slice_")
                        || p.starts_with("core::str::slice_error_fail")
                        || p.starts_with("alloc::raw_vec::handle_error")
                        || p.starts_with("alloc::alloc::handle_alloc_error")
                        || p.starts_with("core::cell::panic_already")
                        || p.contains("panic_const_")
                    {
                        Hook::Panic
                    } else if p.contains("detect_and_initialize") {
                        Hook::ZeroRet
                    } else {
                        Hook::None
                    }
                }
            };
        }
        let g = m.globals.len();
        let solver = Solver::new(cfg.rlimit);
        Exec {
            m,
            funcs: vec![None; n],
            hooks,
            gcache: vec![None; g],
            solver,
            work: vec![],
            rep: Report::default(),
            cfg,
            fn_used: vec![false; n],
            ext_addr: HashMap::new(),
            ext_names: vec![],
            seen_viol: HashSet::new(),
            share: None,
            children: vec![],
            vars: HashMap::new(),
        }
    }

    pub fn func(&mut self, i: u32) -> &'static PFunc {
        if let Some(f) = self.funcs[i as usize] {
            return f;
        }
        let f = self.m.parse_func(i);
        let consts = f.consts.iter().map(|(t, k)| self.kval(t, k)).collect();
        let p: &'static PFunc = Box::leak(Box::new(PFunc { f, consts, id: i }));
        self.funcs[i as usize] = Some(p);
        p
    }

    fn gaddr(&mut self, name: &str) -> u64 {
        if let Some(&i) = self.m.fidx.get(name) {
            return FUNC_BASE + (i as u64) * 16;
        }
        if let Some(&i) = self.m.gidx.get(name) {
            // aliases resolve to their target
            let (_, s, e) = self.m.globals[i as usize].clone();
            let t = &self.m.text[s..e];
            if t.contains(" alias ") {
                let g = self.m.global(i);
                if let Some(K::Cast(k, _)) = g.init {
                    if let K::Global(n) = *k {
                        return self.gaddr(&n);
                    }
                }
            }
            return (i as u64 + 1) << 32;
        }
        if let Some(weak) = self.m.decls.get(name) {
            if *weak {
                return 0;
            }
            if let Some(a) = self.ext_addr.get(name) {
                return *a;
            }
            let a = EXT_BASE + self.ext_names.len() as u64 * 16;
            self.ext_names.push(name.to_string());
            self.ext_addr.insert(name.to_string(), a);
            return a;
        }
        panic!("unknown global @{name}")
    }

    fn kint(&mut self, k: &K) -> u128 {
        match k {
            K::Int(v) => *v,
            K::Zero | K::Undef => 0,
            K::Global(n) => self.gaddr(n) as u128,
            K::Gep(t, b, idx) => {
                let mut a = self.kint(b) as u64;
                let mut cur = t.clone();
                for (i, (it, k)) in idx.iter().enumerate() {
                    let v = sx(self.kint(k) & mask(it.bits()), it.bits()) as i64;
                    if i == 0 {
                        a = a.wrapping_add((v * t.size() as i64) as u64);
                    } else {
                        let (o, t) = cur.field_off(v as u64);
                        a = a.wrapping_add(o);
                        cur = t;
                    }
                }
                a as u128
            }
            K::Cast(k, w) => {
                let v = self.kint(k);
                if *w == 0 { v } else { v & mask(*w) }
            }
            K::Bin(op, t, a, b) => {
                let (x, y) = (self.kint(a), self.kint(b));
                let r = match *op {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "xor" => x ^ y,
                    _ => x.wrapping_mul(y),
                };
                r & mask(t.bits())
            }
            _ => panic!("constant {k:?} as integer"),
        }
    }
    fn kval(&mut self, t: &Ty, k: &K) -> Val {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 | Ty::F16 => mk(self.kint(k) & mask(t.bits()), t.bits()),
            Ty::Vec(n, el) => {
                let v: Vec<Val> = match k {
                    K::Zero | K::Undef => (0..*n).map(|_| self.kval(el, &K::Zero)).collect(),
                    K::Splat(b) => (0..*n).map(|_| self.kval(&b.0, &b.1)).collect(),
                    K::Agg(vs) => vs.iter().map(|(t, k)| self.kval(t, k)).collect(),
                    K::Bytes(bs) => bs.iter().map(|b| C(*b as u64)).collect(),
                    _ => panic!("vector constant {k:?}"),
                };
                A(v.into())
            }
            Ty::Struct(fs, _) => {
                let v: Vec<Val> = match k {
                    K::Zero | K::Undef => fs.iter().map(|f| self.kval(f, &K::Zero)).collect(),
                    K::Agg(vs) => vs.iter().map(|(t, k)| self.kval(t, k)).collect(),
                    _ => panic!("struct constant {k:?}"),
                };
                A(v.into())
            }
            Ty::Arr(n, el) => {
                let v: Vec<Val> = match k {
                    K::Zero | K::Undef => (0..*n).map(|_| self.kval(el, &K::Zero)).collect(),
                    K::Agg(vs) => vs.iter().map(|(t, k)| self.kval(t, k)).collect(),
                    K::Bytes(bs) => bs.iter().map(|b| C(*b as u64)).collect(),
                    _ => panic!("array constant {k:?}"),
                };
                A(v.into())
            }
            _ => C(0),
        }
    }
    fn kstore(&mut self, t: &Ty, k: &K, out: &mut [u8]) {
        match (t, k) {
            (_, K::Zero) | (_, K::Undef) => {}
            (_, K::Bytes(b)) => out[..b.len()].copy_from_slice(b),
            (Ty::Arr(_, _), K::Agg(vs)) => {
                let mut o = 0;
                for (t, k) in vs.iter() {
                    let s = t.size() as usize;
                    self.kstore(t, k, &mut out[o..o + s]);
                    o += s;
                }
            }
            (Ty::Struct(..), K::Agg(vs)) => {
                for (i, (ft, k)) in vs.iter().enumerate() {
                    let (o, _) = t.field_off(i as u64);
                    let s = ft.size() as usize;
                    self.kstore(ft, k, &mut out[o as usize..o as usize + s]);
                }
            }
            (Ty::Vec(n, el), _) => {
                if let A(v) = self.kval(t, k) {
                    let s = el.size() as usize;
                    for i in 0..*n as usize {
                        let x = cval(&v[i]).unwrap();
                        out[i * s..(i + 1) * s].copy_from_slice(&x.to_le_bytes()[..s]);
                    }
                }
            }
            _ => {
                let v = self.kint(k);
                let s = t.size() as usize;
                out[..s].copy_from_slice(&v.to_le_bytes()[..s]);
            }
        }
    }

    fn gobj(&mut self, i: u32) -> Rc<Obj> {
        if let Some(o) = &self.gcache[i as usize] {
            return o.clone();
        }
        let g = self.m.global(i);
        let mut data = vec![0u8; g.ty.size() as usize];
        if let Some(k) = &g.init {
            self.kstore(&g.ty, k, &mut data);
        }
        let o = Rc::new(Obj { data, sym: vec![] });
        self.gcache[i as usize] = Some(o.clone());
        o
    }

    // ---- memory -------------------------------------------------------

    fn alloc(&mut self, st: &mut State, size: u64) -> u64 {
        let o = Rc::new(Obj { data: vec![0; size as usize], sym: vec![] });
        let idx = match st.free.pop() {
            Some(i) => {
                st.objs[i as usize] = Some(o);
                i
            }
            None => {
                st.objs.push(Some(o));
                st.objs.len() as u32 - 1
            }
        };
        (self.gcache.len() as u64 + 1 + idx as u64) << 32
    }
    fn dealloc(&mut self, st: &mut State, addr: u64) -> R<()> {
        let id = addr >> 32;
        let g = self.gcache.len() as u64;
        if id <= g || addr & 0xffff_ffff != 0 {
            return err(format!("free of {addr:#x}"));
        }
        let idx = (id - g - 1) as usize;
        if idx >= st.objs.len() || st.objs[idx].is_none() {
            return err(format!("double free of {addr:#x}"));
        }
        st.objs[idx] = None;
        st.free.push(idx as u32);
        Ok(())
    }
    fn obj<'a>(&mut self, st: &'a State, id: u64) -> Option<Rc<Obj>> {
        let g = self.gcache.len() as u64;
        if id == 0 {
            return None;
        }
        if id <= g {
            let i = (id - 1) as u32;
            if let Some(o) = st.gobjs.get(&i) {
                return Some(o.clone());
            }
            return Some(self.gobj(i));
        }
        let idx = (id - g - 1) as usize;
        st.objs.get(idx).and_then(|o| o.clone())
    }
    #[inline]
    fn obj_ref<'a>(&'a mut self, st: &'a State, id: u64) -> Option<&'a Obj> {
        let g = self.gcache.len() as u64;
        if id > g {
            let idx = (id - g - 1) as usize;
            return match st.objs.get(idx) {
                Some(Some(o)) => Some(o),
                _ => None,
            };
        }
        if id == 0 {
            return None;
        }
        let i = (id - 1) as u32;
        if let Some(o) = st.gobjs.get(&i) {
            return Some(o);
        }
        self.gobj(i);
        self.gcache[i as usize].as_deref()
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, id: u64) -> Option<&'a mut Obj> {
        let g = self.gcache.len() as u64;
        if id == 0 {
            return None;
        }
        if id <= g {
            let i = (id - 1) as u32;
            if !st.gobjs.contains_key(&i) {
                let o = self.gobj(i);
                Rc::make_mut(&mut st.gobjs).insert(i, o);
            }
            return Rc::make_mut(&mut st.gobjs).get_mut(&i).map(Rc::make_mut);
        }
        let idx = (id - g - 1) as usize;
        match st.objs.get_mut(idx) {
            Some(Some(o)) => Some(Rc::make_mut(o)),
            _ => None,
        }
    }
    fn bad(&self, what: &str, a: u64, n: u64) -> String {
        format!("invalid {what} of {n} bytes at {a:#x}")
    }

    fn read_obj(o: &Obj, off: usize, n: usize) -> Val {
        // n <= 16
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|&e| e == 0) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return C(u64::from_le_bytes(b));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let v = u128::from_le_bytes(b);
            return W(v as u64, (v >> 64) as u64);
        }
        let c = cx();
        let mut e = 0;
        for i in 0..n {
            let b = if o.sym[off + i] != 0 { o.sym[off + i] } else { c.konst(o.data[off + i] as u128, 8) };
            e = if i == 0 { b } else { c.concat(b, e) };
        }
        from_e(e)
    }
    fn write_obj(o: &mut Obj, off: usize, n: usize, v: &Val) {
        match v {
            C(x) => {
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if !o.sym.is_empty() {
                    o.sym[off..off + n].fill(0);
                }
            }
            W(l, h) => {
                let x = ((*h as u128) << 64 | *l as u128).to_le_bytes();
                o.data[off..off + n].copy_from_slice(&x[..n]);
                if !o.sym.is_empty() {
                    o.sym[off..off + n].fill(0);
                }
            }
            S(e) => {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                let c = cx();
                let w = c.w(*e);
                for i in 0..n {
                    let lo = i as u32 * 8;
                    let b = if lo >= w {
                        c.konst(0, 8)
                    } else if lo + 8 > w {
                        let x = c.extract(*e, lo, w - lo);
                        c.zext(x, 8)
                    } else {
                        c.extract(*e, lo, 8)
                    };
                    match c.as_const(b) {
                        Some(k) => {
                            o.data[off + i] = k as u8;
                            o.sym[off + i] = 0;
                        }
                        None => o.sym[off + i] = b,
                    }
                }
            }
            A(_) => panic!("write aggregate"),
        }
    }

    /// Load `n` bytes (≤ 16) as an integer of 8n bits.
    fn load_n(&mut self, st: &mut State, p: &Val, n: usize) -> R<Val> {
        let a = match p {
            C(a) => *a,
            S(e) => return self.load_sym(st, *e, n),
            _ => return err("pointer kind"),
        };
        let (id, off) = (a >> 32, (a & 0xffff_ffff) as usize);
        match self.obj_ref(st, id) {
            Some(o) if off + n <= o.data.len() => Ok(Self::read_obj(o, off, n)),
            _ => err(self.bad("read", a, n as u64)),
        }
    }
    fn load_sym(&mut self, st: &mut State, e: E, n: usize) -> R<Val> {
        if let Some(v) = st.conc.get(&e) {
            let v = *v as u64;
            return self.load_n(st, &C(v), n);
        }
        let v = self.eval(st, e) as u64;
        let id = v >> 32;
        let o = match self.obj(st, id) {
            Some(o) => o,
            None => {
                let v = self.concretize(st, e)?;
                return err(self.bad("read", v as u64, n as u64));
            }
        };
        let base = id << 32;
        let sz = o.data.len();
        if sz < n {
            return err(self.bad("read", v, n as u64));
        }
        let c = cx();
        let last = base + (sz - n) as u64;
        let (mut lo, mut hi) = (c.n(e).lo as u64, c.n(e).hi as u64);
        if lo < base || hi > last {
            let b = c.konst(base as u128, 64);
            let l = c.konst(last as u128, 64);
            let c1 = c.bin(Op::Ule, b, e);
            let c2 = c.bin(Op::Ule, e, l);
            let inr = c.bin(Op::And, c1, c2);
            if !self.branch(st, inr)? {
                // model side was chosen by branch(); out of range
                return err("out-of-range symbolic read");
            }
            lo = lo.max(base);
            hi = hi.min(last);
        }
        let tz = c.trailing_zeros(e).min(12);
        let step = 1u64 << tz;
        lo = (lo + step - 1) / step * step;
        let cnt = (hi - lo) / step + 1;
        if cnt > 2048 || c.n(e).size > addr_size() {
            let v = self.concretize(st, e)?;
            return self.load_n(st, &C(v as u64), n);
        }
        // run-length encode the table
        let w = n as u32 * 8;
        let mut runs: Vec<(u64, E)> = vec![];
        let mut a = lo;
        while a <= hi {
            let v = Self::read_obj(&o, (a - base) as usize, n);
            let x = to_e(&v, w);
            if runs.last().map(|r| r.1) != Some(x) {
                runs.push((a, x));
            }
            a += step;
        }
        fn tree(e: E, r: &[(u64, E)]) -> E {
            if r.len() == 1 {
                return r[0].1;
            }
            let m = r.len() / 2;
            let l = tree(e, &r[..m]);
            let h = tree(e, &r[m..]);
            let c = cx();
            let k = c.konst(r[m].0 as u128, 64);
            let cond = c.bin(Op::Ult, e, k);
            c.ite(cond, l, h)
        }
        Ok(from_e(tree(e, &runs)))
    }
    fn store_n(&mut self, st: &mut State, p: &Val, n: usize, v: &Val) -> R<()> {
        let a = self.addr(st, p)?;
        let (id, off) = (a >> 32, (a & 0xffff_ffff) as usize);
        match self.obj_mut(st, id) {
            Some(o) if off + n <= o.data.len() => {
                Self::write_obj(o, off, n, v);
                Ok(())
            }
            _ => err(self.bad("write", a, n as u64)),
        }
    }
    fn addr(&mut self, st: &mut State, p: &Val) -> R<u64> {
        match p {
            C(a) => Ok(*a),
            S(e) => Ok(self.concretize(st, *e)? as u64),
            _ => err("pointer kind"),
        }
    }
    fn load_ty(&mut self, st: &mut State, p: &Val, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(w) => {
                let n = (*w as usize + 7) / 8;
                let v = self.load_n(st, p, n)?;
                if *w as usize == n * 8 {
                    Ok(v)
                } else {
                    Ok(match v {
                        C(x) => C(x & m64(*w)),
                        S(e) => from_e(cx().extract(e, 0, *w)),
                        v => mk(cval(&v).unwrap() & mask(*w), *w),
                    })
                }
            }
            Ty::Ptr | Ty::F64 => self.load_n(st, p, 8),
            Ty::F32 => self.load_n(st, p, 4),
            Ty::Vec(n, el) => {
                let s = el.size();
                if el.bits() % 8 != 0 {
                    let it = Ty::Int(el.bits() * *n as u32);
                    let v = self.load_ty(st, p, &it)?;
                    return self.bitcast(&it, ty, &v);
                }
                let a = self.addr(st, p)?;
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n as u64 {
                    v.push(self.load_ty(st, &C(a + i * s), el)?);
                }
                Ok(A(v.into()))
            }
            Ty::Struct(fs, _) => {
                let a = self.addr(st, p)?;
                let mut v = vec![];
                for i in 0..fs.len() {
                    let (o, t) = ty.field_off(i as u64);
                    v.push(self.load_ty(st, &C(a + o), &t)?);
                }
                Ok(A(v.into()))
            }
            Ty::Arr(n, el) => {
                let a = self.addr(st, p)?;
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(st, &C(a + i * el.size()), el)?);
                }
                Ok(A(v.into()))
            }
            _ => err(format!("load of {ty:?}")),
        }
    }
    fn store_ty(&mut self, st: &mut State, p: &Val, ty: &Ty, v: &Val) -> R<()> {
        match ty {
            Ty::Int(w) => self.store_n(st, p, (*w as usize + 7) / 8, v),
            Ty::Ptr | Ty::F64 => self.store_n(st, p, 8, v),
            Ty::F32 => self.store_n(st, p, 4, v),
            Ty::Vec(n, el) => {
                let s = el.size();
                if el.bits() % 8 != 0 {
                    let it = Ty::Int(el.bits() * *n as u32);
                    let v = self.bitcast(ty, &it, v)?;
                    return self.store_ty(st, p, &it, &v);
                }
                let a = self.addr(st, p)?;
                if let A(x) = v {
                    for i in 0..*n as u64 {
                        self.store_ty(st, &C(a + i * s), el, &x[i as usize])?;
                    }
                }
                Ok(())
            }
            Ty::Struct(fs, _) => {
                let a = self.addr(st, p)?;
                if let A(x) = v {
                    for i in 0..fs.len() {
                        let (o, t) = ty.field_off(i as u64);
                        self.store_ty(st, &C(a + o), &t, &x[i])?;
                    }
                }
                Ok(())
            }
            Ty::Arr(n, el) => {
                let a = self.addr(st, p)?;
                if let A(x) = v {
                    for i in 0..*n {
                        self.store_ty(st, &C(a + i * el.size()), el, &x[i as usize])?;
                    }
                }
                Ok(())
            }
            _ => err(format!("store of {ty:?}")),
        }
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = (s >> 32, (s & 0xffff_ffff) as usize);
        let n = n as usize;
        let src = match self.obj(st, si) {
            Some(o) if so + n <= o.data.len() => o,
            _ => return err(self.bad("memcpy read", s, n as u64)),
        };
        let (di, dof) = (d >> 32, (d & 0xffff_ffff) as usize);
        if si == di {
            let data = src.data[so..so + n].to_vec();
            let sym = if src.sym.is_empty() { vec![] } else { src.sym[so..so + n].to_vec() };
            drop(src);
            match self.obj_mut(st, di) {
                Some(o) if dof + n <= o.data.len() => {
                    o.data[dof..dof + n].copy_from_slice(&data);
                    if !sym.is_empty() {
                        o.sym[dof..dof + n].copy_from_slice(&sym);
                    }
                }
                _ => return err(self.bad("memcpy write", d, n as u64)),
            }
            return Ok(());
        }
        match self.obj_mut(st, di) {
            Some(o) if dof + n <= o.data.len() => {
                o.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
                if src.sym.is_empty() || src.sym[so..so + n].iter().all(|&e| e == 0) {
                    if !o.sym.is_empty() {
                        o.sym[dof..dof + n].fill(0);
                    }
                } else {
                    if o.sym.is_empty() {
                        o.sym = vec![0; o.data.len()];
                    }
                    o.sym[dof..dof + n].copy_from_slice(&src.sym[so..so + n]);
                }
                Ok(())
            }
            _ => err(self.bad("memcpy write", d, n as u64)),
        }
    }
    fn read_bytes(&mut self, st: &State, a: u64, n: usize) -> Option<Vec<u8>> {
        let o = self.obj_ref(st, a >> 32)?;
        let off = (a & 0xffff_ffff) as usize;
        if off + n <= o.data.len() && (o.sym.is_empty() || o.sym[off..off + n].iter().all(|&e| e == 0)) {
            Some(o.data[off..off + n].to_vec())
        } else {
            None
        }
    }

    // ---- path condition -------------------------------------------------

    fn eval(&mut self, st: &State, e: E) -> u128 {
        let m = &st.model;
        cx().eval_begin();
        cx().eval(e, &|v| m.get(v as usize).copied().unwrap_or(0))
    }
    fn add(&mut self, st: &mut State, e: E) {
        if cx().is_true(e) {
            return;
        }
        let n = *cx().n(e);
        if n.key.op == Op::And && n.key.w == 1 {
            self.add(st, n.key.a);
            self.add(st, n.key.b);
            return;
        }
        if st.pc.contains(&e) {
            return;
        }
        if n.key.op == Op::Eq {
            if let Some(k) = cx().as_const(n.key.b) {
                Rc::make_mut(&mut st.conc).insert(n.key.a, k);
                let a = cx().n(n.key.a).key;
                if a.op == Op::Var {
                    Rc::make_mut(&mut st.fixed).insert(a.k as u32, k);
                }
            }
        } else {
            let a = n.key;
            // boolean variables
            if a.op == Op::Var {
                Rc::make_mut(&mut st.fixed).insert(a.k as u32, 1);
            }
        }
        st.pc.push(e);
    }
    fn slice(&self, st: &State, e: E) -> Vec<E> {
        let c = cx();
        let mut vars: HashSet<u32> = c.varsets[c.n(e).vs as usize].iter().copied().collect();
        let mut out = vec![];
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut grew = false;
            for (i, &p) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = &c.varsets[c.n(p).vs as usize];
                if vs.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    out.push(p);
                    for v in vs.iter() {
                        if vars.insert(*v) {
                            grew = true;
                        }
                    }
                }
            }
            if !grew {
                break;
            }
        }
        out
    }
    /// Is PC ∧ e satisfiable? On success returns the extended model.
    fn feasible(&mut self, st: &State, e: E) -> R<Option<Rc<Vec<u128>>>> {
        let c = cx();
        if c.is_false(e) {
            return Ok(None);
        }
        // all variables fixed: decide by evaluation
        let vs = c.varsets[c.n(e).vs as usize].clone();
        if vs.iter().all(|v| st.fixed.contains_key(v)) {
            self.solver.stats.model_hits += 1;
            return Ok(if self.eval(st, e) != 0 { Some(st.model.clone()) } else { None });
        }
        let mut cs = self.slice(st, e);
        cs.push(e);
        if profile() {
            eprintln!("query {}", self.stack(st).into_iter().take(3).collect::<Vec<_>>().join(" < "));
        }
        match self.solver.check(cs) {
            Res::Sat(m) => {
                let mut md = (*st.model).clone();
                for (v, x) in m {
                    if md.len() <= v as usize {
                        md.resize(v as usize + 1, 0);
                    }
                    md[v as usize] = x;
                }
                Ok(Some(Rc::new(md)))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => err("solver resource limit reached"),
        }
    }
    /// Follow the side of `c` that the current model takes; push the other side if feasible.
    fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = cx().as_const(c) {
            return Ok(k != 0);
        }
        let v = self.eval(st, c) != 0;
        let nc = cx().not(c);
        let (taken, other) = if v { (c, nc) } else { (nc, c) };
        if let Some(m) = self.feasible(st, other)? {
            let mut o = st.clone();
            o.model = m;
            o.depth += 1;
            self.add(&mut o, other);
            self.rep.forks += 1;
            self.work.push(o);
            st.depth += 1;
            self.add(st, taken);
        }
        Ok(v)
    }
    fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(k) = cx().as_const(e) {
            return Ok(k);
        }
        if let Some(k) = st.conc.get(&e) {
            return Ok(*k);
        }
        let v = self.eval(st, e);
        let eq = cx().eqc(e, v);
        self.branch(st, eq)?;
        Rc::make_mut(&mut st.conc).insert(e, v);
        Ok(v)
    }
    /// Does `e` take at most `n` values under the path condition?
    fn few_values(&mut self, st: &State, e: E, n: usize) -> R<bool> {
        if st.conc.contains_key(&e) {
            return Ok(true);
        }
        let c = cx();
        let v = self.eval(st, e);
        let q = c.eqc(e, v);
        let mut not = c.not(q);
        for _ in 0..n {
            match self.feasible(st, not)? {
                None => return Ok(true),
                Some(m) => {
                    let mut t = st.clone_light();
                    t.model = m;
                    let v = self.eval(&t, e);
                    let q = c.eqc(e, v);
                    let q = c.not(q);
                    not = c.bin(Op::And, not, q);
                }
            }
        }
        Ok(false)
    }
    fn cint(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            C(x) => Ok(*x),
            S(e) => Ok(self.concretize(st, *e)? as u64),
            W(l, _) => Ok(*l),
            A(_) => err("aggregate as integer"),
        }
    }

    // ---- scalar ops -------------------------------------------------------

    fn bin1(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        use BinOp::*;
        if let (C(x), C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = m64(w);
                let r = match op {
                    Add => x.wrapping_add(y) & m,
                    Sub => x.wrapping_sub(y) & m,
                    Mul => x.wrapping_mul(y) & m,
                    And => x & y,
                    Or => x | y,
                    Xor => x ^ y,
                    Shl => if y >= w as u64 { 0 } else { (x << y) & m },
                    LShr => if y >= w as u64 { 0 } else { x >> y },
                    UDiv => {
                        if y == 0 {
                            return err("division by zero");
                        }
                        x / y
                    }
                    URem => {
                        if y == 0 {
                            return err("division by zero");
                        }
                        x % y
                    }
                    _ => {
                        let o = conv(op)?;
                        return Ok(mk(fold_bin(o, w, x as u128, y as u128), w));
                    }
                };
                return Ok(C(r));
            }
        }
        let o = conv(op)?;
        if let (Some(x), Some(y)) = (cval(a), cval(b)) {
            return Ok(mk(fold_bin(o, w, x, y), w));
        }
        let (x, y) = (to_e(a, w), to_e(b, w));
        Ok(from_e(cx().bin(o, x, y)))
    }
    fn icmp1(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (C(x), C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let s = |v: u64| sx(v as u128, w) as i64;
                let r = match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Slt => s(x) < s(y),
                    Pred::Sle => s(x) <= s(y),
                    Pred::Sgt => s(x) > s(y),
                    Pred::Sge => s(x) >= s(y),
                };
                return C(r as u64);
            }
        }
        let (x, y) = (to_e(a, w), to_e(b, w));
        let c = cx();
        from_e(match p {
            Pred::Eq => c.bin(Op::Eq, x, y),
            Pred::Ne => {
                let e = c.bin(Op::Eq, x, y);
                c.not(e)
            }
            Pred::Ult => c.bin(Op::Ult, x, y),
            Pred::Ule => c.bin(Op::Ule, x, y),
            Pred::Ugt => c.bin(Op::Ult, y, x),
            Pred::Uge => c.bin(Op::Ule, y, x),
            Pred::Slt => c.bin(Op::Slt, x, y),
            Pred::Sle => c.bin(Op::Sle, x, y),
            Pred::Sgt => c.bin(Op::Slt, y, x),
            Pred::Sge => c.bin(Op::Sle, y, x),
        })
    }
    fn cast1(&mut self, op: CastOp, from: u32, to: u32, a: &Val) -> R<Val> {
        if let C(x) = a {
            match op {
                CastOp::Trunc => return Ok(C(*x & m64(to))),
                CastOp::ZExt if to <= 64 => return Ok(C(*x)),
                CastOp::PtrInt if to == 64 && from == 64 => return Ok(C(*x)),
                _ => {}
            }
        }
        if let Some(x) = cval(a) {
            return Ok(match op {
                CastOp::Trunc => mk(x & mask(to), to),
                CastOp::ZExt => mk(x, to),
                CastOp::SExt => mk((sx(x, from) as u128) & mask(to), to),
                CastOp::PtrInt => mk(x & mask(to), to),
                CastOp::FpToUi => mk(fold_fcvt(Op::FToUI, from, to, x), to),
                CastOp::FpToSi => mk(fold_fcvt(Op::FToSI, from, to, x), to),
                CastOp::UiToFp => mk(fold_fcvt(Op::FCvtUI, from, to, x), to),
                CastOp::SiToFp => mk(fold_fcvt(Op::FCvtSI, from, to, x), to),
                CastOp::FpExt | CastOp::FpTrunc => mk(fold_fcvt(Op::FExt, from, to, x), to),
                CastOp::Bitcast => mk(x, to),
            });
        }
        let e = to_e(a, from);
        let c = cx();
        Ok(from_e(match op {
            CastOp::Trunc => c.extract(e, 0, to),
            CastOp::ZExt => c.zext(e, to),
            CastOp::SExt => c.sext(e, to),
            CastOp::PtrInt => if to < from { c.extract(e, 0, to) } else { c.zext(e, to) },
            CastOp::FpToUi => c.fcvt(Op::FToUI, e, to),
            CastOp::FpToSi => c.fcvt(Op::FToSI, e, to),
            CastOp::UiToFp => c.fcvt(Op::FCvtUI, e, to),
            CastOp::SiToFp => c.fcvt(Op::FCvtSI, e, to),
            CastOp::FpExt | CastOp::FpTrunc => c.fcvt(Op::FExt, e, to),
            CastOp::Bitcast => e,
        }))
    }
    fn select1(&mut self, c: &Val, w: u32, a: &Val, b: &Val) -> Val {
        match c {
            C(x) => if *x & 1 != 0 { a.clone() } else { b.clone() },
            S(e) => {
                let (x, y) = (to_e(a, w), to_e(b, w));
                from_e(cx().ite(*e, x, y))
            }
            _ => panic!("select cond"),
        }
    }

    // ---- main loop ----------------------------------------------------------

    pub fn initial(&mut self, entry: &str, args: &[u64]) -> State {
        let fi = *self.m.fidx.get(entry).unwrap_or_else(|| panic!("no function @{entry} in module"));
        let mut st = State {
            frames: vec![],
            objs: vec![],
            free: vec![],
            gobjs: Rc::new(HashMap::new()),
            pc: vec![],
            model: Rc::new(vec![]),
            fixed: Rc::new(HashMap::new()),
            conc: Rc::new(HashMap::new()),
            inputs: vec![],
            reach: vec![],
            notes: vec![],
            steps: 0,
            depth: 0,
            may_panic: false,
        };
        let args: Vec<Val> = args.iter().map(|a| C(*a)).collect();
        self.push_frame(&mut st, fi, args, 0, false, None);
        st
    }

    fn push_frame(&mut self, st: &mut State, fi: u32, args: Vec<Val>, dst: u32, has_dst: bool, normal: Option<u32>) {
        let f = self.func(fi);
        self.fn_used[fi as usize] = true;
        let mut regs = vec![C(0); f.f.nregs as usize];
        for (i, (r, _)) in f.f.params.iter().enumerate() {
            if let Some(a) = args.get(i) {
                regs[*r as usize] = a.clone();
            }
        }
        let obj = if f.f.frame_size > 0 { (self.alloc(st, f.f.frame_size) >> 32) as u32 } else { 0 };
        st.frames.push(Frame { f, block: 0, ip: 0, prev: 0, regs, obj, dst, has_dst, normal, dyns: vec![] });
    }

    pub fn explore(&mut self, s: State) {
        self.work.push(s);
        self.drain();
    }
    /// Explore everything pending. Returns in the processes forked on the way as well.
    pub fn drain(&mut self) {
        let mut last = Instant::now();
        while let Some(s) = self.work.pop() {
            if !self.budget() {
                self.work.push(s);
                return;
            }
            if let Some(sh) = self.share {
                if !self.work.is_empty() && sh.idle() && last.elapsed().as_millis() >= 10 && sh.claim() {
                    let child = unsafe { fork() };
                    if child == 0 {
                        // the child takes every other pending state, the oldest first
                        drop(s);
                        self.children.clear();
                        let w = std::mem::take(&mut self.work);
                        self.work = w.into_iter().step_by(2).collect();
                        let dump = self.solver.dump.is_some();
                        self.new_entry();
                        if dump {
                            self.solver.dump = Some(vec![]);
                        }
                    } else {
                        self.children.push(child);
                        let w = std::mem::take(&mut self.work);
                        self.work = w.into_iter().skip(1).step_by(2).collect();
                        self.work.push(s);
                    }
                    last = Instant::now();
                    continue;
                }
            }
            self.run_state(s);
        }
    }
    fn run_state(&mut self, mut s: State) {
        loop {
            match self.run(&mut s, false) {
                Ok(()) => {}
                Err(stop) => {
                    self.finish(s, stop);
                    return;
                }
            }
        }
    }
    pub fn budget(&mut self) -> bool {
        if self.rep.incomplete.is_some() {
            return false;
        }
        if self.rep.violations.len() >= self.cfg.max_violations {
            self.rep.incomplete = Some("stopped after the configured number of violations".into());
            return false;
        }
        if let Some(d) = self.cfg.deadline {
            if Instant::now() > d {
                self.rep.incomplete = Some("time budget exhausted".into());
                return false;
            }
        }
        if self.rep.paths_ok + self.rep.paths_assume > self.cfg.max_paths {
            self.rep.incomplete = Some("path budget exhausted".into());
            return false;
        }
        if self.rep.errors.len() > 20 {
            self.rep.incomplete = Some("too many engine errors".into());
            return false;
        }
        true
    }
    fn stack(&self, s: &State) -> Vec<String> {
        s.frames.iter().rev().map(|f| format!("{} [{}]", f.f.f.pretty, f.f.f.blocks[f.block as usize].name)).collect()
    }
    fn input_vals(&mut self, s: &State, model: &Rc<Vec<u128>>) -> Vec<u128> {
        let mut t = s.clone_light();
        t.model = model.clone();
        s.inputs.iter().map(|(e, _)| self.eval(&t, *e)).collect()
    }
    fn finish(&mut self, s: State, stop: Stop) {
        self.rep.instrs += s.steps;
        self.rep.max_path_steps = self.rep.max_path_steps.max(s.steps);
        match stop {
            Stop::Done => {
                self.rep.paths_ok += 1;
                for r in &s.reach {
                    *self.rep.reach.entry(*r).or_default() += 1;
                }
                let n = self.rep.paths_ok;
                // keep a spread of samples: reservoir by powers
                if self.rep.samples.len() < self.cfg.samples {
                    let m = s.model.clone();
                    let i = self.input_vals(&s, &m);
                    self.rep.samples.push((i, s.reach.clone()));
                } else if self.cfg.samples > 0 {
                    let k = (n.wrapping_mul(0x9E3779B97F4A7C15) >> 20) as usize % n as usize;
                    if k < self.cfg.samples {
                        let m = s.model.clone();
                        let i = self.input_vals(&s, &m);
                        self.rep.samples[k] = (i, s.reach.clone());
                    }
                }
            }
            Stop::Assume => self.rep.paths_assume += 1,
            Stop::Reject => {
                self.rep.paths_rejected += 1;
            }
            Stop::Fork => {}
            Stop::Viol(kind, id) => {
                let m = s.model.clone();
                self.violation(&s, kind, id, &m);
            }
            Stop::Err(e) => {
                let st = self.stack(&s);
                self.rep.errors.push(format!("{e}\n    at {}", st.iter().take(14).cloned().collect::<Vec<_>>().join("\n    at ")));
            }
        }
        if self.cfg.verbose && (self.rep.paths_ok + self.rep.paths_assume) % 1000 == 0 {
            eprintln!("symx: {} paths, {} pending, {} queries, {:.1}s solver", self.rep.paths_ok, self.work.len(), self.solver.stats.queries, self.solver.stats.secs);
        }
    }
    fn violation(&mut self, s: &State, kind: String, id: String, m: &Rc<Vec<u128>>) {
        let key = format!("{kind}:{id}");
        if !self.seen_viol.insert(key) {
            return;
        }
        let stack = self.stack(s);
        let inputs = self.input_vals(s, m);
        self.rep.violations.push(Violation { kind, id, stack, inputs, notes: s.notes.clone() });
    }

    fn panic_loc(&mut self, st: &State, args: &[Val]) -> String {
        for a in args.iter().rev() {
            if let C(p) = a {
                if let Some(b) = self.read_bytes(st, *p, 24) {
                    let fp = u64::from_le_bytes(b[0..8].try_into().unwrap());
                    let fl = u64::from_le_bytes(b[8..16].try_into().unwrap());
                    let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
                    let col = u32::from_le_bytes(b[20..24].try_into().unwrap());
                    if fl > 0 && fl < 400 {
                        if let Some(fb) = self.read_bytes(st, fp, fl as usize) {
                            if let Ok(s) = String::from_utf8(fb) {
                                if s.contains(".rs") {
                                    return format!("{s}:{line}:{col}");
                                }
                            }
                        }
                    }
                }
            }
        }
        "unknown location".into()
    }

    /// Runs until the state stops. With `one_fork`, returns Ok(()) after any step that forked.
    fn run(&mut self, st: &mut State, one_fork: bool) -> R<()> {
        let mut w0 = self.work.len();
        loop {
            st.steps += 1;
            if st.steps & 0xfff == 0 {
                if st.steps > self.cfg.max_steps {
                    return Err(Stop::Viol("hang".into(), format!("no termination within {} instructions", self.cfg.max_steps)));
                }
                if let Some(d) = self.cfg.deadline {
                    if Instant::now() > d {
                        self.rep.incomplete = Some("time budget exhausted".into());
                        return Err(Stop::Fork);
                    }
                }
            }
            self.step(st)?;
            if one_fork && self.work.len() > w0 {
                return Ok(());
            }
            w0 = w0.max(0);
        }
    }

    #[inline]
    fn get(fr: &Frame, o: &O) -> Val {
        match o {
            O::R(r) => fr.regs[*r as usize].clone(),
            O::K(k) => fr.f.consts[*k as usize].clone(),
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.block;
        let f = fr.f;
        let b = &f.f.blocks[to as usize];
        fr.prev = from;
        fr.block = to;
        fr.ip = 0;
        match b.phis.len() {
            0 => {}
            1 => {
                let (d, v) = &b.phis[0];
                let o = &v.iter().find(|(p, _)| *p == from).expect("phi edge").1;
                let x = Self::get(fr, o);
                fr.regs[*d as usize] = x;
            }
            _ => {
                let vals: Vec<Val> = b.phis.iter().map(|(_, v)| Self::get(fr, &v.iter().find(|(p, _)| *p == from).expect("phi edge").1)).collect();
                for ((d, _), x) in b.phis.iter().zip(vals) {
                    fr.regs[*d as usize] = x;
                }
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        let f: &'static PFunc = fr.f;
        let inst: &'static Inst = &f.f.blocks[fr.block as usize].insts[fr.ip as usize];
        macro_rules! get {
            ($o:expr) => {
                Self::get(st.frames.last().unwrap(), $o)
            };
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let fr = st.frames.last_mut().unwrap();
                fr.regs[*$d as usize] = v;
                fr.ip += 1;
            }};
        }
        match inst {
            Inst::Alloca { dst, off } => {
                let v = C(((fr.obj as u64) << 32) + off);
                set!(dst, v);
            }
            Inst::DynAlloca { dst, size, n } => {
                let n = get!(n);
                let n = self.cint(st, &n)?;
                let a = self.alloc(st, (n * size).max(1));
                st.frames.last_mut().unwrap().dyns.push((a >> 32) as u32);
                set!(dst, C(a));
            }
            Inst::Load { dst, ty, p } => {
                let p = get!(p);
                let v = self.load_ty(st, &p, ty)?;
                set!(dst, v);
            }
            Inst::Store { ty, v, p } => {
                let (v, p) = (get!(v), get!(p));
                self.store_ty(st, &p, ty, &v)?;
                st.frames.last_mut().unwrap().ip += 1;
            }
            Inst::Gep { dst, base, off, idx } => {
                let b = get!(base);
                let v = if let (C(x), true) = (&b, idx.is_empty()) {
                    C(x.wrapping_add(*off as u64))
                } else {
                    let mut conc = true;
                    let mut acc = match &b {
                        C(x) => x.wrapping_add(*off as u64),
                        _ => {
                            conc = false;
                            0
                        }
                    };
                    let mut vals = vec![];
                    for (o, w, sc) in idx.iter() {
                        let v = get!(o);
                        match &v {
                            C(x) => acc = acc.wrapping_add((sx(*x as u128, *w) as i64).wrapping_mul(*sc) as u64),
                            _ => conc = false,
                        }
                        vals.push((v, *w, *sc));
                    }
                    if conc {
                        C(acc)
                    } else {
                        let c = cx();
                        let mut e = to_e(&b, 64);
                        let mut koff = *off;
                        for (v, w, sc) in vals {
                            match v {
                                C(x) => koff = koff.wrapping_add((sx(x as u128, w) as i64).wrapping_mul(sc)),
                                v => {
                                    let mut x = to_e(&v, w);
                                    if w < 64 {
                                        x = c.sext(x, 64);
                                    } else if w > 64 {
                                        x = c.extract(x, 0, 64);
                                    }
                                    let s = c.konst(sc as u64 as u128, 64);
                                    let m = c.bin(Op::Mul, x, s);
                                    e = c.bin(Op::Add, e, m);
                                }
                            }
                        }
                        let k = c.konst(koff as u64 as u128, 64);
                        e = c.bin(Op::Add, e, k);
                        from_e(e)
                    }
                };
                set!(dst, v);
            }
            Inst::Bin { dst, op, ty, a, b } => {
                let (x, y) = (get!(a), get!(b));
                let v = match ty {
                    Ty::Vec(_, el) => {
                        let (A(x), A(y)) = (x, y) else { return err("vector bin") };
                        let mut r = Vec::with_capacity(x.len());
                        for i in 0..x.len() {
                            r.push(self.bin1(*op, el.bits(), &x[i], &y[i])?);
                        }
                        A(r.into())
                    }
                    _ => {
                        let w = ty.bits();
                        if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
                            if let S(e) = &y {
                                let z = cx().eqc(*e, 0);
                                if self.branch(st, z)? {
                                    return err("division by zero");
                                }
                            }
                        }
                        self.bin1(*op, w, &x, &y)?
                    }
                };
                set!(dst, v);
            }
            Inst::Icmp { dst, p, ty, a, b } => {
                let (x, y) = (get!(a), get!(b));
                let v = match ty {
                    Ty::Vec(_, el) => {
                        let (A(x), A(y)) = (x, y) else { return err("vector icmp") };
                        let mut r = Vec::with_capacity(x.len());
                        for i in 0..x.len() {
                            r.push(self.icmp1(*p, el.bits(), &x[i], &y[i]));
                        }
                        A(r.into())
                    }
                    _ => self.icmp1(*p, ty.bits(), &x, &y),
                };
                set!(dst, v);
            }
            Inst::Fcmp { dst, p, ty, a, b } => {
                let (x, y) = (get!(a), get!(b));
                let v = self.fcmp(p, ty.bits(), &x, &y)?;
                set!(dst, v);
            }
            Inst::Fneg { dst, ty, a } => {
                let x = get!(a);
                let w = ty.bits();
                let v = self.bin1(BinOp::Xor, w, &x, &mk(1u128 << (w - 1), w))?;
                set!(dst, v);
            }
            Inst::Cast { dst, op, from, to, a } => {
                let x = get!(a);
                let v = match (from, to) {
                    (Ty::Vec(_, fe), Ty::Vec(_, te)) if *op != CastOp::Bitcast => {
                        let A(x) = x else { return err("vector cast") };
                        let mut r = vec![];
                        for v in x.iter() {
                            r.push(self.cast1(*op, fe.bits(), te.bits(), v)?);
                        }
                        A(r.into())
                    }
                    (Ty::Vec(..), _) | (_, Ty::Vec(..)) => self.bitcast(from, to, &x)?,
                    _ => {
                        let mut x = x;
                        if let (CastOp::UiToFp | CastOp::SiToFp, S(e)) = (*op, &x) {
                            // few possible values (a bit count, say): case split rather than reason about floats
                            if self.few_values(st, *e, 66)? {
                                x = mk(self.concretize(st, *e)?, from.bits());
                            }
                        }
                        self.cast1(*op, from.bits(), to.bits(), &x)?
                    }
                };
                set!(dst, v);
            }
            Inst::Select { dst, cty, ty, c, a, b } => {
                let (cc, x, y) = (get!(c), get!(a), get!(b));
                let v = match (cty, &cc) {
                    (Ty::Vec(..), A(cs)) => {
                        let (A(x), A(y)) = (x, y) else { return err("vector select") };
                        let w = match ty {
                            Ty::Vec(_, el) => el.bits(),
                            _ => return err("select"),
                        };
                        let mut r = vec![];
                        for i in 0..cs.len() {
                            r.push(self.select1(&cs[i], w, &x[i], &y[i]));
                        }
                        A(r.into())
                    }
                    (_, C(k)) => if *k & 1 != 0 { x } else { y },
                    (_, S(e)) => match ty {
                        Ty::Ptr => {
                            // keep pointers concrete: choose a side
                            if let (C(p), C(q)) = (&x, &y) {
                                if p == q {
                                    x
                                } else if self.branch(st, *e)? {
                                    x
                                } else {
                                    y
                                }
                            } else if self.branch(st, *e)? {
                                x
                            } else {
                                y
                            }
                        }
                        Ty::Struct(..) | Ty::Vec(..) | Ty::Arr(..) => {
                            if self.branch(st, *e)? {
                                x
                            } else {
                                y
                            }
                        }
                        _ => {
                            let looks_ptr = |v: &Val| matches!(v, C(p) if ty.bits() == 64 && *p >= (1u64 << 32) && *p < (1u64 << 56));
                            if looks_ptr(&x) || looks_ptr(&y) {
                                if self.branch(st, *e)? {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                self.select1(&cc, ty.bits(), &x, &y)
                            }
                        }
                    },
                    _ => return err("select cond"),
                };
                set!(dst, v);
            }
            Inst::ExtractValue { dst, a, path } => {
                let mut x = get!(a);
                for p in path.iter() {
                    let A(v) = x else { return err("extractvalue") };
                    x = v[*p as usize].clone();
                }
                set!(dst, x);
            }
            Inst::InsertValue { dst, ty, a, v, path } => {
                let x = get!(a);
                let v = get!(v);
                fn ins(x: &Val, v: Val, path: &[u32]) -> Option<Val> {
                    if path.is_empty() {
                        return Some(v);
                    }
                    let A(xs) = x else { return None };
                    let mut n: Vec<Val> = xs.to_vec();
                    n[path[0] as usize] = ins(&xs[path[0] as usize], v, &path[1..])?;
                    Some(A(n.into()))
                }
                let _ = ty;
                let Some(r) = ins(&x, v, path) else { return err("insertvalue") };
                set!(dst, r);
            }
            Inst::ExtractElem { dst, ty: _, a, i } => {
                let x = get!(a);
                let i = get!(i);
                let i = self.cint(st, &i)?;
                let A(v) = x else { return err("extractelement") };
                let Some(r) = v.get(i as usize).cloned() else { return err("extractelement index") };
                set!(dst, r);
            }
            Inst::InsertElem { dst, ty: _, a, v, i } => {
                let x = get!(a);
                let v = get!(v);
                let i = get!(i);
                let i = self.cint(st, &i)?;
                let A(xs) = x else { return err("insertelement") };
                let mut n = xs.to_vec();
                n[i as usize] = v;
                set!(dst, A(n.into()));
            }
            Inst::Shuffle { dst, ty: _, a, b, mask } => {
                let (A(x), A(y)) = (get!(a), get!(b)) else { return err("shuffle") };
                let n = x.len();
                let r: Vec<Val> = mask.iter().map(|&m| if (m as usize) < n { x[m as usize].clone() } else { y[(m as usize - n) % y.len()].clone() }).collect();
                set!(dst, A(r.into()));
            }
            Inst::Copy { dst, a } => {
                let x = get!(a);
                set!(dst, x);
            }
            Inst::Br(t) => self.jump(st, *t),
            Inst::CondBr { c, t, f } => {
                let c = get!(c);
                let b = match c {
                    C(x) => x & 1 != 0,
                    S(e) => self.branch(st, e)?,
                    _ => return err("br cond"),
                };
                self.jump(st, if b { *t } else { *f });
            }
            Inst::Switch { ty, v, def, cases } => {
                let v = get!(v);
                match v {
                    S(e) => {
                        // group the cases by target
                        let w = ty.bits();
                        let _ = w;
                        let mv = self.eval(st, e);
                        let target = |x: u128| cases.iter().find(|(k, _)| *k == x).map(|c| c.1).unwrap_or(*def);
                        let mine = target(mv);
                        let cond_for = |t: u32| -> E {
                            let c = cx();
                            if t == *def {
                                let mut any = c.konst(0, 1);
                                for (k, b) in cases.iter() {
                                    if *b != t {
                                        let q = c.eqc(e, *k);
                                        any = c.bin(Op::Or, any, q);
                                    }
                                }
                                c.not(any)
                            } else {
                                let mut any = c.konst(0, 1);
                                for (k, b) in cases.iter() {
                                    if *b == t {
                                        let q = c.eqc(e, *k);
                                        any = c.bin(Op::Or, any, q);
                                    }
                                }
                                any
                            }
                        };
                        let mut targets: Vec<u32> = cases.iter().map(|c| c.1).collect();
                        targets.push(*def);
                        targets.sort_unstable();
                        targets.dedup();
                        let mut forked = false;
                        for t in targets {
                            if t == mine {
                                continue;
                            }
                            let c = cond_for(t);
                            if let Some(m) = self.feasible(st, c)? {
                                let mut o = st.clone();
                                o.model = m;
                                o.depth += 1;
                                self.add(&mut o, c);
                                self.rep.forks += 1;
                                self.jump(&mut o, t);
                                self.work.push(o);
                                forked = true;
                            }
                        }
                        if forked {
                            let c = cond_for(mine);
                            self.add(st, c);
                            st.depth += 1;
                        }
                        self.jump(st, mine);
                    }
                    v => {
                        let x = cval(&v).unwrap();
                        let t = cases.iter().find(|(k, _)| *k == x).map(|c| c.1).unwrap_or(*def);
                        self.jump(st, t);
                    }
                }
            }
            Inst::Ret(o) => {
                let v = o.as_ref().map(|o| get!(o));
                return self.ret(st, v);
            }
            Inst::Unreachable => return Err(Stop::Viol("trap".into(), format!("unreachable code executed in {}", f.f.pretty))),
            Inst::Rmw { dst, op, ty, p, v } => {
                let (p, v) = (get!(p), get!(v));
                let old = self.load_ty(st, &p, ty)?;
                let w = ty.bits();
                let new = match op.as_str() {
                    "add" => self.bin1(BinOp::Add, w, &old, &v)?,
                    "sub" => self.bin1(BinOp::Sub, w, &old, &v)?,
                    "and" => self.bin1(BinOp::And, w, &old, &v)?,
                    "or" => self.bin1(BinOp::Or, w, &old, &v)?,
                    "xor" => self.bin1(BinOp::Xor, w, &old, &v)?,
                    "xchg" => v,
                    _ => return err(format!("atomicrmw {op}")),
                };
                self.store_ty(st, &p, ty, &new)?;
                set!(dst, old);
            }
            Inst::CmpXchg { dst, ty, p, c, n } => {
                let (p, c, n) = (get!(p), get!(c), get!(n));
                let old = self.load_ty(st, &p, ty)?;
                let eq = self.icmp1(Pred::Eq, ty.bits(), &old, &c);
                let b = match &eq {
                    C(x) => *x != 0,
                    S(e) => self.branch(st, *e)?,
                    _ => return err("cmpxchg"),
                };
                if b {
                    self.store_ty(st, &p, ty, &n)?;
                }
                set!(dst, A(vec![old, C(b as u64)].into()));
            }
            Inst::Landing | Inst::Resume => return err("landing pad reached"),
            Inst::Nop => fr.ip += 1,
            Inst::Call { dst, has_dst, callee, args, ret, normal, .. } => {
                let av: Vec<Val> = args.iter().map(|(_, o)| get!(o)).collect();
                match callee {
                    Callee::Direct(fi) => return self.call_fn(st, *fi, av, *dst, *has_dst, *normal),
                    Callee::Ptr(o) => {
                        let p = get!(o);
                        let a = self.addr(st, &p)?;
                        if a >= EXT_BASE {
                            let n = self.ext_names[((a - EXT_BASE) / 16) as usize].clone();
                            let v = self.extern_call(st, &n, args, &av, ret)?;
                            return self.done(st, *dst, *has_dst, *normal, v);
                        }
                        if a < FUNC_BASE {
                            return err(format!("indirect call to {a:#x}"));
                        }
                        let fi = ((a - FUNC_BASE) / 16) as u32;
                        return self.call_fn(st, fi, av, *dst, *has_dst, *normal);
                    }
                    Callee::Ext(n) => {
                        let v = self.extern_call(st, n, args, &av, ret)?;
                        return self.done(st, *dst, *has_dst, *normal, v);
                    }
                    Callee::Asm(t) => {
                        let v = self.asm(st, t, &av)?;
                        return self.done(st, *dst, *has_dst, *normal, v);
                    }
                }
            }
        }
        Ok(())
    }

    fn done(&mut self, st: &mut State, dst: u32, has_dst: bool, normal: Option<u32>, v: Option<Val>) -> R<()> {
        {
            let fr = st.frames.last_mut().unwrap();
            if has_dst {
                fr.regs[dst as usize] = v.unwrap_or(C(0));
            }
        }
        match normal {
            Some(b) => self.jump(st, b),
            None => st.frames.last_mut().unwrap().ip += 1,
        }
        Ok(())
    }

    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        let g = self.gcache.len() as u32;
        if fr.obj != 0 {
            let i = fr.obj - g - 1;
            st.objs[i as usize] = None;
            st.free.push(i);
        }
        for d in &fr.dyns {
            let i = d - g - 1;
            st.objs[i as usize] = None;
            st.free.push(i);
        }
        if st.frames.is_empty() {
            return Err(Stop::Done);
        }
        self.done(st, fr.dst, fr.has_dst, fr.normal, v)
    }

    fn fcmp(&mut self, p: &str, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Some(x), Some(y)) = (cval(a), cval(b)) {
            let (x, y) = if w == 64 { (f64::from_bits(x as u64), f64::from_bits(y as u64)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
            let un = x.is_nan() || y.is_nan();
            let r = match p {
                "oeq" => x == y,
                "one" => !un && x != y,
                "olt" => x < y,
                "ole" => x <= y,
                "ogt" => x > y,
                "oge" => x >= y,
                "ord" => !un,
                "uno" => un,
                "ueq" => un || x == y,
                "une" => un || x != y,
                "ult" => un || x < y,
                "ule" => un || x <= y,
                "ugt" => un || x > y,
                "uge" => un || x >= y,
                _ => return err(format!("fcmp {p}")),
            };
            return Ok(C(r as u64));
        }
        let (x, y) = (to_e(a, w), to_e(b, w));
        let c = cx();
        let xx = c.bin(Op::FEq, x, x);
        let yy = c.bin(Op::FEq, y, y);
        let ord = c.bin(Op::And, xx, yy);
        let un = c.not(ord);
        let eq = c.bin(Op::FEq, x, y);
        let e = match p {
            "oeq" => eq,
            "une" => c.not(eq),
            "olt" => c.bin(Op::FLt, x, y),
            "ole" => c.bin(Op::FLe, x, y),
            "ogt" => c.bin(Op::FLt, y, x),
            "oge" => c.bin(Op::FLe, y, x),
            "ord" => ord,
            "uno" => un,
            "ueq" => c.bin(Op::Or, un, eq),
            "one" => {
                let ne = c.not(eq);
                c.bin(Op::And, ord, ne)
            }
            "ult" => {
                let t = c.bin(Op::FLe, y, x);
                c.not(t)
            }
            "ule" => {
                let t = c.bin(Op::FLt, y, x);
                c.not(t)
            }
            "ugt" => {
                let t = c.bin(Op::FLe, x, y);
                c.not(t)
            }
            "uge" => {
                let t = c.bin(Op::FLt, x, y);
                c.not(t)
            }
            _ => return err(format!("fcmp {p}")),
        };
        Ok(from_e(e))
    }

    fn bitcast(&mut self, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        let tot = from.bits();
        // flatten to a list of (val,width), low first
        let parts: Vec<(Val, u32)> = match (from, v) {
            (Ty::Vec(_, el), A(xs)) => xs.iter().map(|x| (x.clone(), el.bits())).collect(),
            _ => vec![(v.clone(), tot)],
        };
        let all_conc = parts.iter().all(|(v, _)| !matches!(v, S(_)));
        if tot <= 128 && all_conc {
            let mut x = 0u128;
            let mut sh = 0;
            for (v, w) in &parts {
                x |= cval(v).unwrap() << sh;
                sh += w;
            }
            return Ok(match to {
                Ty::Vec(n, el) => {
                    let w = el.bits();
                    let r: Vec<Val> = (0..*n).map(|i| mk((x >> (i * w)) & mask(w), w)).collect();
                    A(r.into())
                }
                _ => mk(x, tot),
            });
        }
        if tot > 128 {
            return err("bitcast wider than 128 bits");
        }
        let c = cx();
        let mut e = 0;
        for (i, (v, w)) in parts.iter().enumerate() {
            let x = to_e(v, *w);
            e = if i == 0 { x } else { c.concat(x, e) };
        }
        Ok(match to {
            Ty::Vec(n, el) => {
                let w = el.bits();
                let r: Vec<Val> = (0..*n).map(|i| from_e(c.extract(e, i * w, w))).collect();
                A(r.into())
            }
            _ => from_e(e),
        })
    }

    fn asm(&mut self, st: &mut State, t: &str, a: &[Val]) -> R<Option<Val>> {
        if t.is_empty() {
            return Ok(None);
        }
        if t.starts_with("div ") {
            // (divisor, hi/dx, lo/ax) -> {rdx (rem), rax (quot)}; constraint "=&{dx},=&{ax},r,0,1"
            let (d, hi, lo) = (&a[0], &a[1], &a[2]);
            if let (C(d), C(h), C(l)) = (d, hi, lo) {
                let n = (*h as u128) << 64 | *l as u128;
                if *d == 0 || n / *d as u128 > u64::MAX as u128 {
                    return err("div overflow");
                }
                return Ok(Some(A(vec![C((n % *d as u128) as u64), C((n / *d as u128) as u64)].into())));
            }
            let c = cx();
            let (de, he, le) = (to_e(d, 64), to_e(hi, 64), to_e(lo, 64));
            // hi < d must hold (no overflow)
            let ok = c.bin(Op::Ult, he, de);
            if !self.branch(st, ok)? {
                return err("div overflow");
            }
            let (q, r) = if c.as_const(he) == Some(0) {
                (c.bin(Op::UDiv, le, de), c.bin(Op::URem, le, de))
            } else {
                let n = c.concat(he, le);
                let dz = c.zext(de, 128);
                let q = c.bin(Op::UDiv, n, dz);
                let r = c.bin(Op::URem, n, dz);
                (c.extract(q, 0, 64), c.extract(r, 0, 64))
            };
            return Ok(Some(A(vec![from_e(r), from_e(q)].into())));
        }
        if t.starts_with("/*") && t.ends_with("*/") && a.len() == 1 {
            // an empty statement hiding its argument from the optimizer
            return Ok(Some(a[0].clone()));
        }
        err(format!("inline asm `{t}`"))
    }

    fn call_fn(&mut self, st: &mut State, fi: u32, av: Vec<Val>, dst: u32, has_dst: bool, normal: Option<u32>) -> R<()> {
        match self.hooks[fi as usize] {
            Hook::None => {
                if st.frames.len() > 1500 {
                    return Err(Stop::Viol("hang".into(), "recursion deeper than 1500 frames".into()));
                }
                self.push_frame(st, fi, av, dst, has_dst, normal);
                Ok(())
            }
            h => {
                let v = self.hook(st, h, fi, &av)?;
                self.done(st, dst, has_dst, normal, v)
            }
        }
    }

    fn fresh(&mut self, st: &mut State, w: u32) -> E {
        // Variables are numbered per path position so that different paths share them.
        let i = st.inputs.len() as u32;
        let c = cx();
        // find or create the variable (i, w)
        let key = (i, w);
        let v = *self.vars.entry(key).or_insert_with(|| c.new_var(w).0);
        let e = c.var(v);
        st.inputs.push((e, w));
        let md = Rc::make_mut(&mut st.model);
        if md.len() <= v as usize {
            md.resize(v as usize + 1, 0);
        }
        md[v as usize] = 0;
        e
    }

    fn hook(&mut self, st: &mut State, h: Hook, fi: u32, a: &[Val]) -> R<Option<Val>> {
        match h {
            Hook::Sym(w) => {
                let e = self.fresh(st, w);
                Ok(Some(S(e)))
            }
            Hook::Bytes => {
                // v_bytes(ptr, n): fill with fresh symbolic bytes
                let p = self.addr(st, &a[0])?;
                let n = self.cint(st, &a[1])?;
                for i in 0..n {
                    let e = self.fresh(st, 8);
                    self.store_n(st, &C(p + i), 1, &S(e))?;
                }
                Ok(None)
            }
            Hook::Choose => {
                let n = self.cint(st, &a[0])?;
                if n == 0 {
                    return Err(Stop::Assume);
                }
                let e = self.fresh(st, 32);
                let n = n.min(u32::MAX as u64) as u32;
                // the other alternatives, as separate states
                for i in (1..n).rev() {
                    let mut o = st.clone();
                    let c = cx().eqc(e, i as u128);
                    let md = Rc::make_mut(&mut o.model);
                    let v = cx().n(e).key.k as usize;
                    md[v] = i as u128;
                    self.add(&mut o, c);
                    o.depth += 1;
                    // finish the call in the forked state
                    let (dst, has_dst, normal) = {
                        let fr = o.frames.last().unwrap();
                        match &fr.f.f.blocks[fr.block as usize].insts[fr.ip as usize] {
                            Inst::Call { dst, has_dst, normal, .. } => (*dst, *has_dst, *normal),
                            _ => return err("choose"),
                        }
                    };
                    self.done(&mut o, dst, has_dst, normal, Some(C(i as u64)))?;
                    self.rep.forks += 1;
                    self.work.push(o);
                }
                let c = cx().eqc(e, 0);
                self.add(st, c);
                Ok(Some(C(0)))
            }
            Hook::Assume => {
                match &a[0] {
                    C(x) => {
                        if x & 1 == 0 {
                            return Err(Stop::Assume);
                        }
                    }
                    S(e) => {
                        let e = *e;
                        let e = if cx().w(e) == 1 { e } else { cx().extract(e, 0, 1) };
                        if self.eval(st, e) == 0 {
                            match self.feasible(st, e)? {
                                Some(m) => st.model = m,
                                None => return Err(Stop::Assume),
                            }
                        }
                        self.add(st, e);
                    }
                    _ => return err("assume"),
                }
                Ok(None)
            }
            Hook::Assert => {
                let id = self.cint(st, &a[1])?;
                self.rep.asserts_checked += 1;
                match &a[0] {
                    C(x) => {
                        if x & 1 == 0 {
                            return Err(Stop::Viol("assert".into(), format!("{id}")));
                        }
                    }
                    S(e) => {
                        self.rep.asserts_symbolic += 1;
                        let e = *e;
                        let e = if cx().w(e) == 1 { e } else { cx().extract(e, 0, 1) };
                        let ne = cx().not(e);
                        if let Some(m) = self.feasible(st, ne)? {
                            self.violation(st, "assert".into(), format!("{id}"), &m);
                        }
                        match self.feasible(st, e)? {
                            Some(m) => st.model = m,
                            None => return Err(Stop::Assume),
                        }
                        self.add(st, e);
                    }
                    _ => return err("assert"),
                }
                Ok(None)
            }
            Hook::Reach => {
                let id = self.cint(st, &a[0])?;
                st.reach.push(id as u32);
                Ok(None)
            }
            Hook::Reject => Err(Stop::Reject),
            Hook::Note => {
                let p = self.addr(st, &a[0])?;
                let n = self.cint(st, &a[1])?;
                let b = self.read_bytes(st, p, n as usize);
                st.notes.push(b.map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or("<symbolic>".into()));
                Ok(None)
            }
            Hook::Panic => {
                let loc = self.panic_loc(st, a);
                let name = self.m.funcs[fi as usize].pretty.clone();
                let _ = name;
                Err(Stop::Viol("panic".into(), loc))
            }
            Hook::Hash0 => Ok(Some(C(0))),
            Hook::RandKeys => Ok(Some(A(vec![C(0), C(0)].into()))),
            Hook::ZeroRet => Ok(Some(C(0))),
            Hook::IsSym => Ok(Some(C(matches!(a[0], S(_)) as u64))),
            Hook::None => unreachable!(),
        }
    }

    fn extern_call(&mut self, st: &mut State, n: &str, args: &[(Ty, O)], a: &[Val], ret: &Ty) -> R<Option<Val>> {
        if let Some(i) = n.strip_prefix("llvm.") {
            return self.intrinsic(st, i, args, a, ret);
        }
        match n {
            "malloc" => {
                let n = self.cint(st, &a[0])?;
                if n > 1 << 26 {
                    return err(format!("allocation of {n} bytes"));
                }
                Ok(Some(C(self.alloc(st, n))))
            }
            "calloc" => {
                let x = self.cint(st, &a[0])?;
                let y = self.cint(st, &a[1])?;
                if x.saturating_mul(y) > 1 << 26 {
                    return err("allocation too large");
                }
                Ok(Some(C(self.alloc(st, x * y))))
            }
            "posix_memalign" => {
                let p = a[0].clone();
                let n = self.cint(st, &a[2])?;
                if n > 1 << 26 {
                    return err("allocation too large");
                }
                let m = self.alloc(st, n);
                self.store_n(st, &p, 8, &C(m))?;
                Ok(Some(C(0)))
            }
            "realloc" => {
                let p = self.addr(st, &a[0])?;
                let n = self.cint(st, &a[1])?;
                if n > 1 << 26 {
                    return err("allocation too large");
                }
                if p == 0 {
                    return Ok(Some(C(self.alloc(st, n))));
                }
                let old = match self.obj(st, p >> 32) {
                    Some(o) => o.data.len() as u64,
                    None => return err("realloc of bad pointer"),
                };
                let q = self.alloc(st, n);
                self.memcpy(st, q, p, old.min(n))?;
                self.dealloc(st, p)?;
                Ok(Some(C(q)))
            }
            "free" => {
                let p = self.addr(st, &a[0])?;
                if p != 0 {
                    self.dealloc(st, p)?;
                }
                Ok(None)
            }
            "memcmp" | "bcmp" => {
                let (p, q) = (self.addr(st, &a[0])?, self.addr(st, &a[1])?);
                let len = self.cint(st, &a[2])?;
                Ok(Some(self.cmp_bytes(st, p, q, len, n == "bcmp")?))
            }
            "strlen" => {
                let p = self.addr(st, &a[0])?;
                let mut i = 0;
                loop {
                    let v = self.load_n(st, &C(p + i), 1)?;
                    if self.cint(st, &v)? == 0 {
                        return Ok(Some(C(i)));
                    }
                    i += 1;
                }
            }
            "write" | "writev" => Ok(Some(a.get(2).cloned().unwrap_or(C(0)))),
            "getenv" | "__errno_location" => Ok(Some(C(0))),
            "pthread_key_create" => {
                self.store_n(st, &a[0], 4, &C(7))?;
                Ok(Some(C(0)))
            }
            "pthread_setspecific" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_key_delete" => Ok(Some(C(0))),
            "pthread_self" | "gettid" => Ok(Some(C(1))),
            "abort" | "exit" | "_exit" => Err(Stop::Viol("trap".into(), format!("call of {n}"))),
            "syscall" => {
                let nr = self.cint(st, &a[0])?;
                match nr {
                    318 => {
                        // getrandom(buf, len, flags): zeros
                        let len = self.cint(st, &a[2])?;
                        let p = self.addr(st, &a[1])?;
                        for i in 0..len {
                            self.store_n(st, &C(p + i), 1, &C(0))?;
                        }
                        Ok(Some(C(len)))
                    }
                    186 => Ok(Some(C(1))),
                    _ => err(format!("syscall {nr}")),
                }
            }
            _ => err(format!("external function `{n}`")),
        }
    }

    fn cmp_bytes(&mut self, st: &mut State, p: u64, q: u64, n: u64, eq_only: bool) -> R<Val> {
        if n == 0 {
            return Ok(C(0));
        }
        let n = n as usize;
        let (po, qo) = ((p & 0xffff_ffff) as usize, (q & 0xffff_ffff) as usize);
        let a = match self.obj(st, p >> 32) {
            Some(o) if po + n <= o.data.len() => o,
            _ => return err(self.bad("memcmp read", p, n as u64)),
        };
        let b = match self.obj(st, q >> 32) {
            Some(o) if qo + n <= o.data.len() => o,
            _ => return err(self.bad("memcmp read", q, n as u64)),
        };
        let conc = |o: &Obj, off: usize| o.sym.is_empty() || o.sym[off..off + n].iter().all(|&e| e == 0);
        if conc(&a, po) && conc(&b, qo) {
            let r = a.data[po..po + n].cmp(&b.data[qo..qo + n]);
            return Ok(C((r as i32) as u32 as u64));
        }
        let c = cx();
        let byte = |o: &Obj, i: usize| -> E {
            if !o.sym.is_empty() && o.sym[i] != 0 {
                o.sym[i]
            } else {
                cx().konst(o.data[i] as u128, 8)
            }
        };
        if eq_only {
            let mut all = c.konst(1, 1);
            for i in 0..n {
                let (x, y) = (byte(&a, po + i), byte(&b, qo + i));
                let e = c.bin(Op::Eq, x, y);
                all = c.bin(Op::And, all, e);
                if c.is_false(all) {
                    break;
                }
            }
            let ne = c.not(all);
            return Ok(from_e(c.zext(ne, 32)));
        }
        let mut r = c.konst(0, 32);
        let (one, neg) = (c.konst(1, 32), c.konst(u32::MAX as u128, 32));
        for i in (0..n).rev() {
            let (x, y) = (byte(&a, po + i), byte(&b, qo + i));
            let e = c.bin(Op::Eq, x, y);
            let l = c.bin(Op::Ult, x, y);
            let t = c.ite(l, neg, one);
            r = c.ite(e, r, t);
        }
        Ok(from_e(r))
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, args: &[(Ty, O)], a: &[Val], ret: &Ty) -> R<Option<Val>> {
        let base = n.split('.').next().unwrap();
        let w = match args.first() {
            Some((t @ (Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32), _)) => t.bits(),
            _ => 0,
        };
        // vector forms of simple scalar intrinsics
        if let (Ty::Vec(cnt, el), true) = (ret, matches!(base, "umin" | "umax" | "smin" | "smax" | "ctpop" | "bswap" | "abs" | "usub" | "uadd" | "fshl" | "fshr")) {
            let mut r = vec![];
            for i in 0..*cnt as usize {
                let aa: Vec<Val> = a.iter().map(|v| if let A(x) = v { x[i].clone() } else { v.clone() }).collect();
                let at: Vec<(Ty, O)> = args.iter().map(|(t, o)| (if let Ty::Vec(_, e) = t { (**e).clone() } else { t.clone() }, o.clone())).collect();
                r.push(self.intrinsic(st, n, &at, &aa, el)?.unwrap());
            }
            return Ok(Some(A(r.into())));
        }
        match base {
            "memcpy" | "memmove" => {
                let len = self.cint(st, &a[2])?;
                if len == 0 {
                    return Ok(None);
                }
                let d = self.addr(st, &a[0])?;
                let s = self.addr(st, &a[1])?;
                self.memcpy(st, d, s, len)?;
                Ok(None)
            }
            "memset" => {
                let len = self.cint(st, &a[2])?;
                if len == 0 {
                    return Ok(None);
                }
                let d = self.addr(st, &a[0])?;
                let v = a[1].clone();
                if let C(x) = v {
                    let off = (d & 0xffff_ffff) as usize;
                    let b = self.bad("memset", d, len);
                    match self.obj_mut(st, d >> 32) {
                        Some(o) if off + len as usize <= o.data.len() => {
                            o.data[off..off + len as usize].fill(x as u8);
                            if !o.sym.is_empty() {
                                o.sym[off..off + len as usize].fill(0);
                            }
                            return Ok(None);
                        }
                        _ => return err(b),
                    }
                }
                for i in 0..len {
                    self.store_n(st, &C(d + i), 1, &v)?;
                }
                Ok(None)
            }
            "umin" | "umax" | "smin" | "smax" => {
                let p = match base {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.icmp1(p, w, &a[0], &a[1]);
                Ok(Some(self.select1(&c, w, &a[0], &a[1])))
            }
            "abs" => {
                let z = mk(0, w);
                let c = self.icmp1(Pred::Slt, w, &a[0], &z);
                let neg = self.bin1(BinOp::Sub, w, &z, &a[0])?;
                Ok(Some(self.select1(&c, w, &neg, &a[0])))
            }
            "ucmp" | "scmp" => {
                let rw = ret.bits();
                let lt = self.icmp1(if base == "ucmp" { Pred::Ult } else { Pred::Slt }, w, &a[0], &a[1]);
                let gt = self.icmp1(if base == "ucmp" { Pred::Ugt } else { Pred::Sgt }, w, &a[0], &a[1]);
                let x = self.select1(&gt, rw, &mk(1, rw), &mk(0, rw));
                Ok(Some(self.select1(&lt, rw, &mk(mask(rw), rw), &x)))
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let sat = n.contains(".sat.");
                let signed = base.starts_with('s');
                let op = match &base[1..] {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let r = self.bin1(op, w, &a[0], &a[1])?;
                let ov = self.overflow(op, signed, w, &a[0], &a[1], &r)?;
                if sat {
                    let s = if !signed {
                        mk(if op == BinOp::Sub { 0 } else { mask(w) }, w)
                    } else {
                        let z = mk(0, w);
                        let neg = self.icmp1(Pred::Slt, w, &a[0], &z);
                        self.select1(&neg, w, &mk(1u128 << (w - 1), w), &mk((1u128 << (w - 1)) - 1, w))
                    };
                    Ok(Some(self.select1(&ov, w, &s, &r)))
                } else {
                    Ok(Some(A(vec![r, ov].into())))
                }
            }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => {
                if let Some(x) = cval(&a[0]) {
                    let r = match base {
                        "ctpop" => x.count_ones() as u128,
                        "ctlz" => (x.leading_zeros() - (128 - w)) as u128,
                        "cttz" => x.trailing_zeros().min(w) as u128,
                        "bswap" => x.swap_bytes() >> (128 - w),
                        _ => x.reverse_bits() >> (128 - w),
                    };
                    return Ok(Some(mk(r, w)));
                }
                let e = to_e(&a[0], w);
                let c = cx();
                let r = match base {
                    "ctpop" => {
                        let mut s = c.konst(0, w);
                        for i in 0..w {
                            let b = c.extract(e, i, 1);
                            let b = if w > 1 { c.zext(b, w) } else { b };
                            s = c.bin(Op::Add, s, b);
                        }
                        s
                    }
                    "ctlz" => {
                        let mut r = c.konst(w as u128, w);
                        for i in 0..w {
                            let b = c.extract(e, i, 1);
                            let k = c.konst((w - 1 - i) as u128, w);
                            r = c.ite(b, k, r);
                        }
                        r
                    }
                    "cttz" => {
                        let mut r = c.konst(w as u128, w);
                        for i in (0..w).rev() {
                            let b = c.extract(e, i, 1);
                            let k = c.konst(i as u128, w);
                            r = c.ite(b, k, r);
                        }
                        r
                    }
                    "bswap" => {
                        let mut r = c.extract(e, 0, 8);
                        for i in 1..w / 8 {
                            let b = c.extract(e, i * 8, 8);
                            r = c.concat(r, b);
                        }
                        r
                    }
                    _ => {
                        let mut r = c.extract(e, 0, 1);
                        for i in 1..w {
                            let b = c.extract(e, i, 1);
                            r = c.concat(r, b);
                        }
                        r
                    }
                };
                Ok(Some(from_e(r)))
            }
            "fshl" | "fshr" => {
                let s = self.cint(st, &a[2])? as u32 % w;
                let s = if base == "fshl" { s } else { (w - s) % w };
                if s == 0 {
                    return Ok(Some(if base == "fshl" { a[0].clone() } else { a[1].clone() }));
                }
                let h = self.bin1(BinOp::Shl, w, &a[0], &mk(s as u128, w))?;
                let l = self.bin1(BinOp::LShr, w, &a[1], &mk((w - s) as u128, w))?;
                Ok(Some(self.bin1(BinOp::Or, w, &h, &l)?))
            }
            "expect" => Ok(Some(a[0].clone())),
            "is" if n.starts_with("is.constant") => Ok(Some(C(0))),
            "threadlocal" => Ok(Some(a[0].clone())),
            "trap" | "ubsantrap" => Err(Stop::Viol("trap".into(), "trap".into())),
            "ptrmask" => Ok(Some(self.bin1(BinOp::And, 64, &a[0], &a[1])?)),
            "x86" => {
                if n.starts_with("x86.addcarry") || n.starts_with("x86.subborrow") {
                    // (i8 c, iN a, iN b) -> {i8, iN}
                    let w = args[1].0.bits();
                    let add = n.starts_with("x86.addcarry");
                    let ci = {
                        let z = mk(0, 8);
                        self.icmp1(Pred::Ne, 8, &a[0], &z)
                    };
                    let ww = w + 1;
                    let (x, y) = (self.cast1(CastOp::ZExt, w, ww, &a[1])?, self.cast1(CastOp::ZExt, w, ww, &a[2])?);
                    let cz = self.cast1(CastOp::ZExt, 1, ww, &ci)?;
                    let op = if add { BinOp::Add } else { BinOp::Sub };
                    let t = self.bin1(op, ww, &x, &y)?;
                    let t = self.bin1(op, ww, &t, &cz)?;
                    let r = self.cast1(CastOp::Trunc, ww, w, &t)?;
                    let hi = self.bin1(BinOp::LShr, ww, &t, &mk(w as u128, ww))?;
                    let co = self.cast1(CastOp::Trunc, ww, 8, &hi)?;
                    return Ok(Some(A(vec![co, r].into())));
                }
                if n.contains("pause") {
                    return Ok(None);
                }
                err(format!("intrinsic {n}"))
            }
            "vector" => {
                // vector.reduce.*
                let op = n.split('.').nth(2).unwrap_or("");
                let A(xs) = &a[0] else { return err(format!("intrinsic {n}")) };
                let w = ret.bits();
                let mut acc = xs[0].clone();
                for x in &xs[1..] {
                    acc = match op {
                        "or" => self.bin1(BinOp::Or, w, &acc, x)?,
                        "and" => self.bin1(BinOp::And, w, &acc, x)?,
                        "xor" => self.bin1(BinOp::Xor, w, &acc, x)?,
                        "add" => self.bin1(BinOp::Add, w, &acc, x)?,
                        "mul" => self.bin1(BinOp::Mul, w, &acc, x)?,
                        "umax" => {
                            let c = self.icmp1(Pred::Ugt, w, &acc, x);
                            self.select1(&c, w, &acc, x)
                        }
                        "umin" => {
                            let c = self.icmp1(Pred::Ult, w, &acc, x);
                            self.select1(&c, w, &acc, x)
                        }
                        _ => return err(format!("intrinsic {n}")),
                    };
                }
                Ok(Some(acc))
            }
            "ceil" | "floor" | "trunc" | "rint" | "round" | "roundeven" | "sqrt" | "log2" | "log10" | "log" | "exp" | "exp2" | "fabs" | "nearbyint" => {
                if base == "fabs" {
                    return Ok(Some(self.bin1(BinOp::And, w, &a[0], &mk(mask(w - 1), w))?));
                }
                let v = self.cint(st, &a[0])?;
                let x = if w == 64 { f64::from_bits(v) } else { f32::from_bits(v as u32) as f64 };
                let r = match base {
                    "ceil" => x.ceil(),
                    "floor" => x.floor(),
                    "trunc" => x.trunc(),
                    "rint" | "nearbyint" | "roundeven" => x.round_ties_even(),
                    "round" => x.round(),
                    "sqrt" => x.sqrt(),
                    "log2" => x.log2(),
                    "log10" => x.log10(),
                    "log" => x.ln(),
                    "exp" => x.exp(),
                    _ => x.exp2(),
                };
                Ok(Some(if w == 64 { C(r.to_bits()) } else { C((r as f32).to_bits() as u64) }))
            }
            "pow" | "powi" | "copysign" | "fma" | "fmuladd" | "minnum" | "maxnum" => {
                let x = f64::from_bits(self.cint(st, &a[0])?);
                if w != 64 {
                    return err(format!("intrinsic {n}"));
                }
                let r = match base {
                    "powi" => x.powi(self.cint(st, &a[1])? as i32),
                    "pow" => x.powf(f64::from_bits(self.cint(st, &a[1])?)),
                    "copysign" => x.copysign(f64::from_bits(self.cint(st, &a[1])?)),
                    "minnum" => x.min(f64::from_bits(self.cint(st, &a[1])?)),
                    "maxnum" => x.max(f64::from_bits(self.cint(st, &a[1])?)),
                    _ => x.mul_add(f64::from_bits(self.cint(st, &a[1])?), f64::from_bits(self.cint(st, &a[2])?)),
                };
                Ok(Some(C(r.to_bits())))
            }
            "fptoui" | "fptosi" => {
                // saturating
                let v = self.cint(st, &a[0])?;
                let x = if w == 64 { f64::from_bits(v) } else { f32::from_bits(v as u32) as f64 };
                let rw = ret.bits();
                let r: u128 = if base == "fptoui" {
                    (x as u128).min(mask(rw))
                } else {
                    let lo = -(1i128 << (rw - 1));
                    let hi = (1i128 << (rw - 1)) - 1;
                    ((x as i128).clamp(lo, hi) as u128) & mask(rw)
                };
                Ok(Some(mk(r, rw)))
            }
            "is" => {
                // is.fpclass: test the bit pattern
                let m = self.cint(st, &a[1])?;
                let w = if n.ends_with("f32") { 32 } else { 64 };
                let (eb, mb) = if w == 64 { (11, 52) } else { (8, 23) };
                let c = cx();
                let x = to_e(&a[0], w);
                let sign = c.extract(x, w - 1, 1);
                let ex = c.extract(x, mb, eb);
                let ma = c.extract(x, 0, mb);
                let quiet = c.extract(x, mb - 1, 1);
                let zero = c.konst(0, 1);
                let pos = c.not(sign);
                let (e0, e1) = (c.konst(0, eb), c.konst(mask(eb), eb));
                let m0 = c.konst(0, mb);
                let (exz, exm, mz) = (c.bin(Op::Eq, ex, e0), c.bin(Op::Eq, ex, e1), c.bin(Op::Eq, ma, m0));
                let (nexz, nexm, nmz) = (c.not(exz), c.not(exm), c.not(mz));
                let and = |a, b| cx().bin(Op::And, a, b);
                let nan = and(exm, nmz);
                let nq = c.not(quiet);
                let inf = and(exm, mz);
                let normal = and(nexz, nexm);
                let sub = and(exz, nmz);
                let zer = and(exz, mz);
                let classes = [
                    and(nan, nq), and(nan, quiet), and(inf, sign), and(normal, sign), and(sub, sign), and(zer, sign),
                    and(zer, pos), and(sub, pos), and(normal, pos), and(inf, pos),
                ];
                let mut r = zero;
                for (i, k) in classes.iter().enumerate() {
                    if m >> i & 1 == 1 {
                        r = c.bin(Op::Or, r, *k);
                    }
                }
                Ok(Some(from_e(r)))
            }
            "donothing" | "prefetch" | "va_start" | "va_end" => Ok(None),
            _ => err(format!("intrinsic llvm.{n}")),
        }
    }

    fn overflow(&mut self, op: BinOp, signed: bool, w: u32, a: &Val, b: &Val, r: &Val) -> R<Val> {
        Ok(match (op, signed) {
            (BinOp::Add, false) => self.icmp1(Pred::Ult, w, r, a),
            (BinOp::Sub, false) => self.icmp1(Pred::Ult, w, a, b),
            (BinOp::Add, true) | (BinOp::Sub, true) => {
                // add: (a^r)&(b^r) <0 ; sub: (a^b)&(a^r) < 0
                let x = if op == BinOp::Add { self.bin1(BinOp::Xor, w, a, r)? } else { self.bin1(BinOp::Xor, w, a, b)? };
                let y = if op == BinOp::Add { self.bin1(BinOp::Xor, w, b, r)? } else { self.bin1(BinOp::Xor, w, a, r)? };
                let z = self.bin1(BinOp::And, w, &x, &y)?;
                self.icmp1(Pred::Slt, w, &z, &mk(0, w))
            }
            (_, false) => {
                if let (Some(x), Some(y)) = (cval(a), cval(b)) {
                    let o = match x.checked_mul(y) {
                        Some(v) => v > mask(w),
                        None => true,
                    };
                    return Ok(C(o as u64));
                }
                if w > 64 {
                    return err("symbolic 128-bit multiplication overflow");
                }
                let c = cx();
                let (x, y) = (to_e(a, w), to_e(b, w));
                let (x, y) = (c.zext(x, 2 * w), c.zext(y, 2 * w));
                let p = c.bin(Op::Mul, x, y);
                let h = c.extract(p, w, w);
                let z = c.eqc(h, 0);
                from_e(c.not(z))
            }
            (_, true) => {
                if let (Some(x), Some(y)) = (cval(a), cval(b)) {
                    let o = match sx(x, w).checked_mul(sx(y, w)) {
                        Some(v) => sx((v as u128) & mask(w), w) != v,
                        None => true,
                    };
                    return Ok(C(o as u64));
                }
                if w > 64 {
                    return err("symbolic 128-bit multiplication overflow");
                }
                let c = cx();
                let (x, y) = (to_e(a, w), to_e(b, w));
                let (x, y) = (c.sext(x, 2 * w), c.sext(y, 2 * w));
                let p = c.bin(Op::Mul, x, y);
                let l = c.extract(p, 0, w);
                let s = c.sext(l, 2 * w);
                let z = c.bin(Op::Eq, s, p);
                from_e(c.not(z))
            }
        })
    }

    pub fn collect(&mut self) {
        for (i, u) in self.fn_used.iter().enumerate() {
            if *u {
                self.rep.funcs.insert(self.m.funcs[i].pretty.clone());
            }
        }
        self.rep.stats = self.solver.stats.clone();
        self.rep.dump = self.solver.dump.take().unwrap_or_default();
        self.rep.n_vars = cx().vars.len();
    }
    pub fn cfg(&self) -> &Config {
        &self.cfg
    }
    /// Slots of the processes that explore at the moment.
    pub fn share(&mut self, s: &'static Share) {
        self.share = Some(s);
    }
    pub fn reset_solver(&mut self) {
        self.solver = Solver::new(self.cfg.rlimit);
    }
    pub fn new_entry(&mut self) {
        self.fn_used.iter_mut().for_each(|x| *x = false);
        self.rep = Report::default();
        self.seen_viol.clear();
        self.solver.stats = Stats::default();
    }
}


impl State {
    fn clone_light(&self) -> State {
        State {
            frames: vec![],
            objs: vec![],
            free: vec![],
            gobjs: Rc::new(HashMap::new()),
            pc: vec![],
            model: self.model.clone(),
            fixed: Rc::new(HashMap::new()),
            conc: Rc::new(HashMap::new()),
            inputs: vec![],
            reach: vec![],
            notes: vec![],
            steps: 0,
            depth: 0,
            may_panic: false,
        }
    }
}

fn conv(op: BinOp) -> R<Op> {
    Ok(match op {
        BinOp::Add => Op::Add,
        BinOp::Sub => Op::Sub,
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::And => Op::And,
        BinOp::Or => Op::Or,
        BinOp::Xor => Op::Xor,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
        BinOp::FAdd => Op::FAdd,
        BinOp::FSub => Op::FSub,
        BinOp::FMul => Op::FMul,
        BinOp::FDiv => Op::FDiv,
        BinOp::FRem => return err("frem"),
    })
}
