//! Parser for the subset of textual LLVM IR that rustc emits. Function bodies
//! are parsed lazily, when first called.

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F16,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<[Ty]>, bool),
    Vec(u32, Rc<Ty>),
    Meta,
    Label,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::F16 => 2,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut al = 1;
                for f in fs.iter() {
                    if !packed {
                        let a = f.align();
                        al = al.max(a);
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                (o + al - 1) / al * al
            }
            Ty::Vec(n, t) => {
                let bits = *n as u64 * t.bits() as u64;
                let b = (bits + 7) / 8;
                b.next_power_of_two()
            }
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::F16 => 2,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(fs, packed) => if *packed { 1 } else { fs.iter().map(|f| f.align()).max().unwrap_or(1) },
            Ty::Vec(..) => self.size().max(1),
            _ => 1,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::F16 => 16,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {self:?}"),
        }
    }
    pub fn field_off(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (j, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j as u64 == i {
                        return (o, f.clone());
                    }
                    o += f.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => (i * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            _ => panic!("field_off of {self:?}"),
        }
    }
}

/// Constants, before global addresses are resolved.
#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    Zero,
    Undef,
    Agg(Rc<[(Ty, K)]>),
    Bytes(Rc<[u8]>),
    Splat(Box<(Ty, K)>),
    Global(String),
    Gep(Ty, Box<K>, Vec<(Ty, K)>),
    Cast(Box<K>, u32), // to-width (0 = same)
    Bin(&'static str, Ty, Box<K>, Box<K>),
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(u32), // index into the function's constant pool
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastOp {
    Trunc, ZExt, SExt, Bitcast, PtrInt, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),   // function index
    Ext(String),   // declared only
    Ptr(O),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca { dst: u32, off: u64 },
    DynAlloca { dst: u32, size: u64, n: O },
    Load { dst: u32, ty: Ty, p: O },
    Store { ty: Ty, v: O, p: O },
    Gep { dst: u32, base: O, off: i64, idx: Box<[(O, u32, i64)]> },
    Bin { dst: u32, op: BinOp, ty: Ty, a: O, b: O },
    Icmp { dst: u32, p: Pred, ty: Ty, a: O, b: O },
    Fcmp { dst: u32, p: String, ty: Ty, a: O, b: O },
    Fneg { dst: u32, ty: Ty, a: O },
    Cast { dst: u32, op: CastOp, from: Ty, to: Ty, a: O },
    Select { dst: u32, cty: Ty, ty: Ty, c: O, a: O, b: O },
    Call { dst: u32, has_dst: bool, callee: Callee, args: Box<[(Ty, O)]>, ret: Ty, normal: Option<u32>, noreturn: bool },
    ExtractValue { dst: u32, a: O, path: Box<[u32]> },
    InsertValue { dst: u32, ty: Ty, a: O, v: O, path: Box<[u32]> },
    ExtractElem { dst: u32, ty: Ty, a: O, i: O },
    InsertElem { dst: u32, ty: Ty, a: O, v: O, i: O },
    Shuffle { dst: u32, ty: Ty, a: O, b: O, mask: Box<[u32]> },
    Copy { dst: u32, a: O },
    Br(u32),
    CondBr { c: O, t: u32, f: u32 },
    Switch { ty: Ty, v: O, def: u32, cases: Box<[(u128, u32)]> },
    Ret(Option<O>),
    Unreachable,
    Rmw { dst: u32, op: String, ty: Ty, p: O, v: O },
    CmpXchg { dst: u32, ty: Ty, p: O, c: O, n: O },
    Landing,
    Resume,
    Nop,
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, O)>)>, // dst, (pred block, value)
    pub insts: Vec<Inst>,
    pub name: String,
}

pub struct Func {
    pub name: String,
    pub pretty: String,
    pub params: Vec<(u32, Ty)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub consts: Vec<(Ty, K)>,
    pub frame_size: u64,
}

pub struct FuncDecl {
    pub name: String,
    pub pretty: String,
    pub start: usize, // line range in the text
    pub end: usize,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<K>,
    pub constant: bool,
    pub text: (usize, usize),
}

pub struct Module {
    pub text: &'static str,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<&'static str, u32>,
    pub decls: HashMap<&'static str, bool>, // declared functions -> weak
    pub globals: Vec<(String, usize, usize)>,
    pub gidx: HashMap<&'static str, u32>,
    pub types: HashMap<String, Ty>,
}

impl Module {
    pub fn load(path: &str) -> Module {
        let s = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("cannot read {path}: {e}"));
        let text: &'static str = Box::leak(s.into_boxed_str());
        let mut m = Module {
            text,
            funcs: vec![],
            fidx: HashMap::new(),
            decls: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            types: HashMap::new(),
        };
        let b = text.as_bytes();
        let mut i = 0;
        let mut comment = String::new();
        let mut in_func = None::<usize>;
        while i < b.len() {
            let e = memchr(b, i, b'\n');
            let line = &text[i..e];
            if let Some(_s) = in_func {
                if line == "}" {
                    m.funcs.last_mut().unwrap().end = i;
                    in_func = None;
                }
            } else if line.starts_with("define ") {
                let at = line.find('@').unwrap();
                let (name, _) = name_at(&line[at + 1..]);
                m.fidx.insert(name, m.funcs.len() as u32);
                m.funcs.push(FuncDecl {
                    name: name.to_string(),
                    pretty: if comment.is_empty() { name.to_string() } else { std::mem::take(&mut comment) },
                    start: i,
                    end: 0,
                });
                in_func = Some(i);
                comment.clear();
            } else if line.starts_with("declare ") {
                if let Some(at) = line.find('@') {
                    let (name, _) = name_at(&line[at + 1..]);
                    m.decls.insert(name, line.contains("extern_weak"));
                }
            } else if line.starts_with('@') {
                let (name, n) = name_at(&line[1..]);
                m.gidx.insert(name, m.globals.len() as u32);
                m.globals.push((name.to_string(), i + 1 + n, e));
            } else if line.starts_with('%') {
                // %name = type ...
                if let Some(p) = line.find(" = type ") {
                    let name = line[1..p].trim_matches('"').to_string();
                    let tys = m.types.clone();
                    let mut c = Cur { s: &text[i + p + 8..e], p: 0, types: &tys };
                    let t = c.ty();
                    m.types.insert(name, t);
                }
            } else if let Some(c) = line.strip_prefix("; ") {
                if !c.starts_with("Function Attrs") {
                    comment = c.to_string();
                }
            } else if line.is_empty() {
                comment.clear();
            }
            i = e + 1;
        }
        m
    }

    pub fn global(&self, i: u32) -> Global {
        let (name, s, e) = &self.globals[i as usize];
        let mut c = Cur { s: &self.text[*s..*e], p: 0, types: &self.types };
        c.expect("=");
        let mut constant = false;
        let mut external = false;
        loop {
            c.ws();
            if c.s[c.p..].starts_with("c\"") {
                panic!("global syntax")
            }
            let save = c.p;
            let w = c.word();
            match w {
                "constant" => {
                    constant = true;
                    break;
                }
                "global" => break,
                "external" | "extern_weak" => external = true,
                "alias" | "ifunc" => {
                    // alias: ty, ptr @target
                    let t = c.ty();
                    c.expect(",");
                    let _ = c.ty();
                    let k = c.konst(&Ty::Ptr);
                    return Global { name: name.clone(), ty: t, init: Some(K::Cast(Box::new(k), 0)), constant: true, text: (*s, *e) };
                }
                "" => {
                    c.p = save;
                    panic!("global syntax: {}", &c.s[..c.s.len().min(100)]);
                }
                _ => {
                    if c.peek() == b'(' {
                        c.parens();
                    }
                }
            }
        }
        let ty = c.ty();
        c.ws();
        let init = if external || c.p >= c.s.len() || c.peek() == b',' { None } else { Some(c.konst(&ty)) };
        Global { name: name.clone(), ty, init, constant, text: (*s, *e) }
    }

    pub fn parse_func(&self, fi: u32) -> Func {
        let d = &self.funcs[fi as usize];
        let body = &self.text[d.start..d.end];
        let mut lines = body.lines();
        let head = lines.next().unwrap();
        let mut f = FnCtx {
            m: self,
            regs: HashMap::new(),
            consts: vec![],
            nregs: 0,
            labels: HashMap::new(),
            frame: 0,
            num: 0,
        };
        // header
        let at = head.find('@').unwrap();
        let (_, n) = name_at(&head[at + 1..]);
        let mut c = Cur { s: &head[at + 1 + n..], p: 0, types: &self.types };
        c.expect("(");
        let mut params = vec![];
        loop {
            c.ws();
            if c.peek() == b')' {
                break;
            }
            if c.s[c.p..].starts_with("...") {
                c.p += 3;
                continue;
            }
            let ty = c.ty();
            c.attrs();
            c.ws();
            let r = if c.peek() == b'%' {
                let nm = c.local();
                if let Ok(k) = nm.parse::<u32>() {
                    f.num = k + 1;
                }
                f.reg(&nm)
            } else {
                let nm = format!("{}", f.num);
                f.num += 1;
                f.reg(&nm)
            };
            params.push((r, ty));
            c.ws();
            if c.peek() == b',' {
                c.p += 1;
            }
        }
        // first pass: labels
        let rest: Vec<&str> = lines.collect();
        let mut nblocks = 0u32;
        let first_is_label = rest.first().map(|l| is_label(l).is_some()).unwrap_or(false);
        if !first_is_label {
            f.labels.insert(format!("{}", f.num), 0);
            nblocks = 1;
        }
        for l in &rest {
            if let Some(n) = is_label(l) {
                f.labels.insert(n.to_string(), nblocks);
                nblocks += 1;
            }
        }
        let mut blocks: Vec<Block> = vec![];
        if !first_is_label {
            blocks.push(Block { phis: vec![], insts: vec![], name: "entry".into() });
        }
        let mut i = 0;
        while i < rest.len() {
            let l = rest[i];
            i += 1;
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') {
                continue;
            }
            if let Some(n) = is_label(l) {
                blocks.push(Block { phis: vec![], insts: vec![], name: n.to_string() });
                continue;
            }
            let joined;
            let mut line = t;
            // multi-line constructs: switch, landingpad clauses, invoke continuation
            let kw = t.split(" = ").last().unwrap_or("");
            if t.starts_with("switch ") && !t.contains(']') {
                let mut s = t.to_string();
                while i < rest.len() {
                    let x = rest[i].trim();
                    i += 1;
                    s.push(' ');
                    s.push_str(x);
                    if x.starts_with(']') {
                        break;
                    }
                }
                joined = s;
                line = &joined;
            } else if t.starts_with("invoke ") || (t.starts_with('%') && kw.starts_with("invoke ")) || t.contains(" = invoke ") {
                let mut s = t.to_string();
                if i < rest.len() && rest[i].trim().starts_with("to label") {
                    s.push(' ');
                    s.push_str(rest[i].trim());
                    i += 1;
                }
                joined = s;
                line = &joined;
            } else if t.contains("landingpad ") {
                while i < rest.len() {
                    let x = rest[i].trim();
                    if x == "cleanup" || x.starts_with("catch ") || x.starts_with("filter ") {
                        i += 1;
                    } else {
                        break;
                    }
                }
            }
            let stripped;
            if line.contains("llvm.is.fpclass") {
                // the mask is preceded by a comment
                let mut s = line.to_string();
                while let (Some(x), Some(y)) = (s.find("/*"), s.find("*/")) {
                    s.replace_range(x..y + 2, "");
                }
                stripped = s;
                line = &stripped;
            }
            let mut b = blocks.pop().unwrap();
            f.inst(line, &mut b);
            blocks.push(b);
        }
        Func {
            name: d.name.clone(),
            pretty: d.pretty.clone(),
            params,
            nregs: f.nregs,
            blocks,
            consts: f.consts,
            frame_size: f.frame,
        }
    }
}

fn is_label(l: &str) -> Option<&str> {
    let b = l.as_bytes();
    if b.is_empty() || b[0] == b' ' || b[0] == b'\t' || b[0] == b';' || b[0] == b'}' {
        return None;
    }
    if b[0] == b'"' {
        let e = l[1..].find('"')? + 1;
        if l.as_bytes().get(e + 1) == Some(&b':') {
            return Some(&l[1..e]);
        }
        return None;
    }
    let e = l.find(':')?;
    Some(&l[..e])
}

fn memchr(b: &[u8], i: usize, c: u8) -> usize {
    b[i..].iter().position(|&x| x == c).map(|p| p + i).unwrap_or(b.len())
}

/// name after '@' or '%': returns (name, consumed)
fn name_at(s: &str) -> (&str, usize) {
    let b = s.as_bytes();
    if b[0] == b'"' {
        let e = memchr(b, 1, b'"');
        return (&s[1..e], e + 1);
    }
    let mut i = 0;
    while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-')) {
        i += 1;
    }
    (&s[..i], i)
}

pub struct Cur<'a> {
    pub s: &'a str,
    pub p: usize,
    pub types: &'a HashMap<String, Ty>,
}

impl<'a> Cur<'a> {
    fn ws(&mut self) {
        let b = self.s.as_bytes();
        while self.p < b.len() && (b[self.p] == b' ' || b[self.p] == b'\t') {
            self.p += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.s.as_bytes().get(self.p).unwrap_or(&0)
    }
    fn expect(&mut self, t: &str) {
        self.ws();
        if !self.s[self.p..].starts_with(t) {
            panic!("expected `{t}` at `{}` in `{}`", &self.s[self.p..].chars().take(60).collect::<String>(), self.s.chars().take(300).collect::<String>());
        }
        self.p += t.len();
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.p..].starts_with(t) {
            self.p += t.len();
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let b = self.s.as_bytes();
        let st = self.p;
        while self.p < b.len() && (b[self.p].is_ascii_alphanumeric() || b[self.p] == b'_' || b[self.p] == b'.') {
            self.p += 1;
        }
        &self.s[st..self.p]
    }
    fn peek_word(&mut self) -> &'a str {
        let s = self.p;
        let w = self.word();
        self.p = s;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let s = self.p;
        if self.word() == w {
            true
        } else {
            self.p = s;
            false
        }
    }
    fn parens(&mut self) {
        let b = self.s.as_bytes();
        let mut d = 0;
        loop {
            match b[self.p] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p = memchr(b, self.p + 1, b'"');
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn num(&mut self) -> i128 {
        self.ws();
        let b = self.s.as_bytes();
        let st = self.p;
        if b[self.p] == b'-' {
            self.p += 1;
        }
        while self.p < b.len() && b[self.p].is_ascii_digit() {
            self.p += 1;
        }
        let t = &self.s[st..self.p];
        t.parse::<i128>().unwrap_or_else(|_| t.parse::<u128>().unwrap_or_else(|_| panic!("number `{t}` in {}", self.s)) as i128)
    }
    pub fn ty(&mut self) -> Ty {
        self.ws();
        let t = match self.peek() {
            b'[' => {
                self.p += 1;
                let n = self.num() as u64;
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Arr(n, Rc::new(t))
            }
            b'{' => {
                self.p += 1;
                let fs = self.tylist('}');
                Ty::Struct(fs.into(), false)
            }
            b'<' => {
                self.p += 1;
                self.ws();
                if self.peek() == b'{' {
                    self.p += 1;
                    let fs = self.tylist('}');
                    self.expect(">");
                    Ty::Struct(fs.into(), true)
                } else {
                    let n = self.num() as u32;
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'%' => {
                self.p += 1;
                let (n, k) = name_at(&self.s[self.p..]);
                self.p += k;
                self.types.get(n).cloned().unwrap_or_else(|| panic!("unknown type {n}"))
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "double" => Ty::F64,
                    "float" => Ty::F32,
                    "half" => Ty::F16,
                    "metadata" => Ty::Meta,
                    "label" => Ty::Label,
                    _ if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) && w.len() > 1 => Ty::Int(w[1..].parse().unwrap()),
                    _ => panic!("type `{w}` at `{}` in `{}`", &self.s[self.p..].chars().take(40).collect::<String>(), self.s.chars().take(400).collect::<String>()),
                }
            }
        };
        // function types: ret (args)
        t
    }
    fn tylist(&mut self, end: char) -> Vec<Ty> {
        let mut v = vec![];
        loop {
            self.ws();
            if self.peek() as char == end {
                self.p += 1;
                return v;
            }
            v.push(self.ty());
            self.ws();
            if self.peek() == b',' {
                self.p += 1;
            }
        }
    }
    /// Skip parameter / return attributes.
    fn attrs(&mut self) {
        loop {
            self.ws();
            let c = self.peek();
            if c == b'"' {
                self.p = memchr(self.s.as_bytes(), self.p + 1, b'"') + 1;
                if self.peek() == b'=' {
                    self.p += 1;
                    if self.peek() == b'"' {
                        self.p = memchr(self.s.as_bytes(), self.p + 1, b'"') + 1;
                    }
                }
                continue;
            }
            if !c.is_ascii_lowercase() {
                return;
            }
            let save = self.p;
            if self.s[self.p..].starts_with("f0x") {
                return;
            }
            let w = self.word();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast"
                | "splat" | "trunc" | "add" | "sub" | "xor" | "mul" | "asm" | "blockaddress" | "ptrtoaddr" => {
                    self.p = save;
                    return;
                }
                "c" if self.peek() == b'"' => {
                    self.p = save;
                    return;
                }
                "align" => {
                    self.ws();
                    if self.peek() == b'(' {
                        self.parens();
                    } else {
                        self.num();
                    }
                }
                _ => {
                    // a type means we went too far (used for call return attributes)
                    if matches!(w, "void" | "ptr" | "double" | "float" | "half" | "metadata") || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit())) {
                        self.p = save;
                        return;
                    }
                    if self.peek() == b'(' {
                        self.parens();
                    }
                }
            }
        }
    }
    fn local(&mut self) -> String {
        self.ws();
        assert_eq!(self.peek(), b'%', "local in {} at {}", self.s, self.p);
        self.p += 1;
        let (n, k) = name_at(&self.s[self.p..]);
        self.p += k;
        n.to_string()
    }

    pub fn konst(&mut self, ty: &Ty) -> K {
        self.ws();
        let c = self.peek();
        match c {
            b'@' => {
                self.p += 1;
                let (n, k) = name_at(&self.s[self.p..]);
                self.p += k;
                return K::Global(n.to_string());
            }
            b'+' | b'-' | b'f' | b'0'..=b'9' if c != b'f' || self.s[self.p..].starts_with("f0x") => {
                // float literals
                if matches!(ty, Ty::F64 | Ty::F32 | Ty::F16) {
                    let b = self.s.as_bytes();
                    let st = self.p;
                    while self.p < b.len() && (b[self.p].is_ascii_alphanumeric() || matches!(b[self.p], b'-' | b'+' | b'.')) {
                        self.p += 1;
                    }
                    let t = &self.s[st..self.p];
                    if let Some(h) = t.strip_prefix("f0x") {
                        return K::Int(u128::from_str_radix(h, 16).unwrap_or_else(|_| panic!("float literal {t}")));
                    }
                    let v: f64 = if let Some(h) = t.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("float literal {t}")))
                    } else {
                        match t {
                            "+inf" => f64::INFINITY,
                            "-inf" => f64::NEG_INFINITY,
                            "+qnan" => f64::NAN,
                            "-qnan" => -f64::NAN,
                            _ => t.parse().unwrap_or_else(|_| panic!("float literal {t}")),
                        }
                    };
                    return K::Int(match ty {
                        Ty::F64 => v.to_bits() as u128,
                        Ty::F32 => (v as f32).to_bits() as u128,
                        _ => panic!("f16 literal"),
                    });
                }
                let v = self.num();
                return K::Int(v as u128);
            }
            b'[' | b'{' => {
                self.p += 1;
                let end = if c == b'[' { b']' } else { b'}' };
                return K::Agg(self.agg(end).into());
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    self.p += 1;
                    let v = self.agg(b'}');
                    self.expect(">");
                    return K::Agg(v.into());
                }
                let v = self.agg(b'>');
                return K::Agg(v.into());
            }
            _ => {}
        }
        if self.s[self.p..].starts_with("c\"") {
            self.p += 2;
            let b = self.s.as_bytes();
            let mut v = vec![];
            while b[self.p] != b'"' {
                if b[self.p] == b'\\' {
                    if b[self.p + 1] == b'\\' {
                        v.push(b'\\');
                        self.p += 2;
                    } else {
                        v.push(u8::from_str_radix(&self.s[self.p + 1..self.p + 3], 16).unwrap());
                        self.p += 3;
                    }
                } else {
                    v.push(b[self.p]);
                    self.p += 1;
                }
            }
            self.p += 1;
            return K::Bytes(v.into());
        }
        let w = self.word();
        match w {
            "true" => K::Int(1),
            "false" => K::Int(0),
            "null" | "none" | "zeroinitializer" => K::Zero,
            "undef" | "poison" => K::Undef,
            "splat" => {
                self.expect("(");
                let t = self.ty();
                let k = self.konst(&t);
                self.expect(")");
                K::Splat(Box::new((t, k)))
            }
            "getelementptr" => {
                // flags
                loop {
                    self.ws();
                    if self.peek() == b'(' {
                        break;
                    }
                    let x = self.word();
                    if x == "inrange" {
                        self.parens();
                    }
                    if x.is_empty() {
                        panic!("gep const: {}", &self.s[self.p..]);
                    }
                }
                self.expect("(");
                let t = self.ty();
                self.expect(",");
                let pt = self.ty();
                let base = self.konst(&pt);
                let mut idx = vec![];
                while self.eat(",") {
                    let it = self.ty();
                    let k = self.konst(&it);
                    idx.push((it, k));
                }
                self.expect(")");
                K::Gep(t, Box::new(base), idx)
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                self.expect("(");
                let t = self.ty();
                let k = self.konst(&t);
                self.expect("to");
                let t2 = self.ty();
                self.expect(")");
                K::Cast(Box::new(k), match t2 { Ty::Int(w) => w, Ty::Ptr => 64, _ => 0 })
            }
            "add" | "sub" | "xor" | "mul" => {
                while !self.eat("(") {
                    self.word();
                }
                let t = self.ty();
                let a = self.konst(&t);
                self.expect(",");
                let t2 = self.ty();
                let b = self.konst(&t2);
                self.expect(")");
                K::Bin(match w { "add" => "add", "sub" => "sub", "xor" => "xor", _ => "mul" }, t, Box::new(a), Box::new(b))
            }
            _ => panic!("constant `{w}` at `{}` in `{}`", self.s[self.p..].chars().take(80).collect::<String>(), self.s.chars().take(400).collect::<String>()),
        }
    }
    fn agg(&mut self, end: u8) -> Vec<(Ty, K)> {
        let mut v = vec![];
        loop {
            self.ws();
            if self.peek() == end {
                self.p += 1;
                return v;
            }
            let t = self.ty();
            let k = self.konst(&t);
            v.push((t, k));
            self.ws();
            if self.peek() == b',' {
                self.p += 1;
            }
        }
    }
}

struct FnCtx<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    consts: Vec<(Ty, K)>,
    nregs: u32,
    labels: HashMap<String, u32>,
    frame: u64,
    num: u32,
}

impl<'m> FnCtx<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn op(&mut self, c: &mut Cur, ty: &Ty) -> O {
        c.attrs();
        c.ws();
        if c.peek() == b'%' {
            let n = c.local();
            O::R(self.reg(&n))
        } else {
            let k = c.konst(ty);
            self.kop(ty.clone(), k)
        }
    }
    fn kop(&mut self, ty: Ty, k: K) -> O {
        self.consts.push((ty, k));
        O::K(self.consts.len() as u32 - 1)
    }
    fn label(&mut self, c: &mut Cur) -> u32 {
        c.expect("label");
        let n = c.local();
        self.labels[&n]
    }

    fn inst(&mut self, line: &str, b: &mut Block) {
        let types = &self.m.types;
        let mut c = Cur { s: line, p: 0, types };
        let mut dst = 0;
        let mut has_dst = false;
        if c.peek() == b'%' {
            let n = c.local();
            dst = self.reg(&n);
            has_dst = true;
            c.expect("=");
        }
        let w = c.word();
        let i = match w {
            "alloca" => {
                let t = c.ty();
                let mut n = None;
                let mut align = t.align();
                while c.eat(",") {
                    c.ws();
                    if c.eat_word("align") {
                        align = c.num() as u64;
                    } else {
                        let nt = c.ty();
                        n = Some(self.op(&mut c, &nt));
                    }
                }
                match n {
                    Some(n) => Inst::DynAlloca { dst, size: t.size(), n },
                    None => {
                        let a = align.max(8);
                        self.frame = (self.frame + a - 1) / a * a;
                        let off = self.frame;
                        self.frame += t.size().max(1);
                        Inst::Alloca { dst, off }
                    }
                }
            }
            "load" => {
                while c.eat_word("atomic") || c.eat_word("volatile") {}
                let ty = c.ty();
                c.expect(",");
                let pt = c.ty();
                let p = self.op(&mut c, &pt);
                Inst::Load { dst, ty, p }
            }
            "store" => {
                while c.eat_word("atomic") || c.eat_word("volatile") {}
                let ty = c.ty();
                let v = self.op(&mut c, &ty);
                c.expect(",");
                let pt = c.ty();
                let p = self.op(&mut c, &pt);
                Inst::Store { ty, v, p }
            }
            "getelementptr" => {
                loop {
                    let x = c.peek_word();
                    if matches!(x, "inbounds" | "nuw" | "nusw" | "nsw") {
                        c.word();
                    } else {
                        break;
                    }
                }
                let t = c.ty();
                c.expect(",");
                let pt = c.ty();
                let base = self.op(&mut c, &pt);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = t.clone();
                let mut first = true;
                while c.eat(",") {
                    c.ws();
                    if c.peek() == b'!' {
                        break;
                    }
                    let it = c.ty();
                    let o = self.op(&mut c, &it);
                    let kv = match &o {
                        O::K(k) => match &self.consts[*k as usize].1 {
                            K::Int(v) => Some(crate::expr::sx(*v, it.bits()) as i64),
                            K::Zero => Some(0),
                            _ => panic!("gep index const: {line}"),
                        },
                        _ => None,
                    };
                    if first {
                        first = false;
                        let sz = t.size() as i64;
                        match kv {
                            Some(v) => off += v * sz,
                            None => idx.push((o, it.bits(), sz)),
                        }
                    } else {
                        match kv {
                            Some(v) => {
                                let (fo, ft) = match &cur {
                                    Ty::Arr(_, t) => ((v * t.size() as i64), (**t).clone()),
                                    Ty::Vec(_, t) => ((v * t.size() as i64), (**t).clone()),
                                    _ => {
                                        let (a, b) = cur.field_off(v as u64);
                                        (a as i64, b)
                                    }
                                };
                                off += fo;
                                cur = ft;
                            }
                            None => {
                                let el = match &cur {
                                    Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
                                    _ => panic!("gep: {line}"),
                                };
                                idx.push((o, it.bits(), el.size() as i64));
                                cur = el;
                            }
                        }
                    }
                }
                if matches!(pt, Ty::Vec(..)) {
                    panic!("vector gep");
                }
                Inst::Gep { dst, base, off, idx: idx.into() }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let op = match w {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "fadd" => BinOp::FAdd,
                    "fsub" => BinOp::FSub,
                    "fmul" => BinOp::FMul,
                    "fdiv" => BinOp::FDiv,
                    _ => BinOp::FRem,
                };
                flags(&mut c);
                let ty = c.ty();
                let a = self.op(&mut c, &ty);
                c.expect(",");
                let bb = self.op(&mut c, &ty);
                Inst::Bin { dst, op, ty, a, b: bb }
            }
            "fneg" => {
                flags(&mut c);
                let ty = c.ty();
                let a = self.op(&mut c, &ty);
                Inst::Fneg { dst, ty, a }
            }
            "icmp" => {
                flags(&mut c);
                let p = match c.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => panic!("icmp {x}"),
                };
                let ty = c.ty();
                let a = self.op(&mut c, &ty);
                c.expect(",");
                let bb = self.op(&mut c, &ty);
                Inst::Icmp { dst, p, ty, a, b: bb }
            }
            "fcmp" => {
                flags(&mut c);
                let p = c.word().to_string();
                let ty = c.ty();
                let a = self.op(&mut c, &ty);
                c.expect(",");
                let bb = self.op(&mut c, &ty);
                Inst::Fcmp { dst, p, ty, a, b: bb }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                flags(&mut c);
                let from = c.ty();
                let a = self.op(&mut c, &from);
                c.expect("to");
                let to = c.ty();
                let op = match w {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "bitcast" => CastOp::Bitcast,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => CastOp::PtrInt,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    "fpext" => CastOp::FpExt,
                    _ => CastOp::FpTrunc,
                };
                Inst::Cast { dst, op, from, to, a }
            }
            "select" => {
                flags(&mut c);
                let cty = c.ty();
                let cc = self.op(&mut c, &cty);
                c.expect(",");
                let ty = c.ty();
                let a = self.op(&mut c, &ty);
                c.expect(",");
                let ty2 = c.ty();
                let bb = self.op(&mut c, &ty2);
                Inst::Select { dst, cty, ty, c: cc, a, b: bb }
            }
            "freeze" => {
                let ty = c.ty();
                let a = self.op(&mut c, &ty);
                Inst::Copy { dst, a }
            }
            "phi" => {
                flags(&mut c);
                let ty = c.ty();
                let mut v = vec![];
                loop {
                    c.expect("[");
                    let o = self.op(&mut c, &ty);
                    c.expect(",");
                    let n = c.local();
                    c.expect("]");
                    v.push((*self.labels.get(&n).unwrap_or_else(|| panic!("label {n}")), o));
                    if !c.eat(",") {
                        break;
                    }
                    c.ws();
                    if c.peek() == b'!' {
                        break;
                    }
                }
                b.phis.push((dst, v));
                return;
            }
            "br" => {
                c.ws();
                if c.peek_word() == "label" {
                    let l = self.label(&mut c);
                    Inst::Br(l)
                } else {
                    let ty = c.ty();
                    let cc = self.op(&mut c, &ty);
                    c.expect(",");
                    let t = self.label(&mut c);
                    c.expect(",");
                    let f = self.label(&mut c);
                    Inst::CondBr { c: cc, t, f }
                }
            }
            "switch" => {
                let ty = c.ty();
                let v = self.op(&mut c, &ty);
                c.expect(",");
                let def = self.label(&mut c);
                c.expect("[");
                let mut cases = vec![];
                let w = ty.bits();
                loop {
                    if c.eat("]") {
                        break;
                    }
                    let t = c.ty();
                    let k = match c.konst(&t) {
                        K::Int(v) => v & crate::expr::mask(w),
                        K::Zero => 0,
                        _ => panic!("switch const"),
                    };
                    c.expect(",");
                    let l = self.label(&mut c);
                    cases.push((k, l));
                }
                Inst::Switch { ty, v, def, cases: cases.into() }
            }
            "ret" => {
                let ty = c.ty();
                if ty == Ty::Void {
                    Inst::Ret(None)
                } else {
                    let o = self.op(&mut c, &ty);
                    Inst::Ret(Some(o))
                }
            }
            "unreachable" => Inst::Unreachable,
            "extractvalue" => {
                let ty = c.ty();
                let a = self.op(&mut c, &ty);
                let mut path = vec![];
                while c.eat(",") {
                    c.ws();
                    if c.peek() == b'!' {
                        break;
                    }
                    path.push(c.num() as u32);
                }
                Inst::ExtractValue { dst, a, path: path.into() }
            }
            "insertvalue" => {
                let ty = c.ty();
                let a = self.op(&mut c, &ty);
                c.expect(",");
                let vt = c.ty();
                let v = self.op(&mut c, &vt);
                let mut path = vec![];
                while c.eat(",") {
                    c.ws();
                    if c.peek() == b'!' {
                        break;
                    }
                    path.push(c.num() as u32);
                }
                Inst::InsertValue { dst, ty, a, v, path: path.into() }
            }
            "extractelement" => {
                let ty = c.ty();
                let a = self.op(&mut c, &ty);
                c.expect(",");
                let it = c.ty();
                let i = self.op(&mut c, &it);
                Inst::ExtractElem { dst, ty, a, i }
            }
            "insertelement" => {
                let ty = c.ty();
                let a = self.op(&mut c, &ty);
                c.expect(",");
                let vt = c.ty();
                let v = self.op(&mut c, &vt);
                c.expect(",");
                let it = c.ty();
                let i = self.op(&mut c, &it);
                Inst::InsertElem { dst, ty, a, v, i }
            }
            "shufflevector" => {
                let ty = c.ty();
                let a = self.op(&mut c, &ty);
                c.expect(",");
                let t2 = c.ty();
                let bb = self.op(&mut c, &t2);
                c.expect(",");
                let mt = c.ty();
                let k = c.konst(&mt);
                let n = match mt {
                    Ty::Vec(n, _) => n,
                    _ => panic!(),
                };
                let mask: Vec<u32> = match k {
                    K::Zero | K::Undef => vec![0; n as usize],
                    K::Agg(v) => v
                        .iter()
                        .map(|(_, k)| match k {
                            K::Int(v) => *v as u32,
                            _ => 0,
                        })
                        .collect(),
                    K::Splat(b) => match b.1 {
                        K::Int(v) => vec![v as u32; n as usize],
                        _ => vec![0; n as usize],
                    },
                    _ => panic!("shuffle mask"),
                };
                Inst::Shuffle { dst, ty, a, b: bb, mask: mask.into() }
            }
            "atomicrmw" => {
                c.eat_word("volatile");
                let op = c.word().to_string();
                let pt = c.ty();
                let p = self.op(&mut c, &pt);
                c.expect(",");
                let ty = c.ty();
                let v = self.op(&mut c, &ty);
                Inst::Rmw { dst, op, ty, p, v }
            }
            "cmpxchg" => {
                while c.eat_word("weak") || c.eat_word("volatile") {}
                let pt = c.ty();
                let p = self.op(&mut c, &pt);
                c.expect(",");
                let ty = c.ty();
                let cc = self.op(&mut c, &ty);
                c.expect(",");
                let ty2 = c.ty();
                let n = self.op(&mut c, &ty2);
                Inst::CmpXchg { dst, ty, p, c: cc, n }
            }
            "fence" => Inst::Nop,
            "landingpad" => Inst::Landing,
            "resume" => Inst::Resume,
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let invoke = w == "invoke";
                if w != "call" && w != "invoke" {
                    c.expect("call");
                }
                // fast-math flags, cconv, return attributes
                loop {
                    c.ws();
                    let x = c.peek_word();
                    if matches!(x, "fastcc" | "coldcc" | "ccc" | "cc" | "preserve_mostcc" | "preserve_nonecc" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") {
                        c.word();
                    } else {
                        break;
                    }
                }
                c.attrs();
                let ret = c.ty();
                c.ws();
                if c.peek() == b'(' {
                    c.parens(); // vararg function type
                }
                c.ws();
                let callee;
                if c.peek() == b'@' {
                    c.p += 1;
                    let (n, k) = name_at(&c.s[c.p..]);
                    c.p += k;
                    callee = match self.m.fidx.get(n) {
                        Some(&i) => Callee::Direct(i),
                        None => Callee::Ext(n.to_string()),
                    };
                } else if c.peek() == b'%' {
                    let n = c.local();
                    callee = Callee::Ptr(O::R(self.reg(&n)));
                } else if c.peek_word() == "asm" {
                    c.word();
                    while matches!(c.peek_word(), "sideeffect" | "inteldialect" | "alignstack" | "unwind") {
                        c.word();
                    }
                    c.ws();
                    let st = c.p;
                    c.p = memchr(c.s.as_bytes(), c.p + 1, b'"') + 1;
                    let t = c.s[st + 1..c.p - 1].to_string();
                    c.expect(",");
                    c.ws();
                    c.p = memchr(c.s.as_bytes(), c.p + 1, b'"') + 1;
                    callee = Callee::Asm(t);
                } else {
                    let k = c.konst(&Ty::Ptr);
                    callee = Callee::Ptr(self.kop(Ty::Ptr, k));
                }
                c.expect("(");
                let mut args = vec![];
                loop {
                    c.ws();
                    if c.peek() == b')' {
                        c.p += 1;
                        break;
                    }
                    let t = c.ty();
                    if t == Ty::Meta {
                        // metadata argument: skip to , or )
                        while c.peek() != b',' && c.peek() != b')' {
                            c.p += 1;
                        }
                    } else {
                        let o = self.op(&mut c, &t);
                        args.push((t, o));
                    }
                    c.ws();
                    if c.peek() == b',' {
                        c.p += 1;
                    }
                }
                let normal = if invoke {
                    let at = line.find("to label ").expect("invoke without `to label`");
                    c.p = at + 3;
                    Some(self.label(&mut c))
                } else {
                    None
                };
                if let Callee::Ext(n) = &callee {
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n == "llvm.assume" || n.starts_with("llvm.dbg") || n.starts_with("llvm.invariant") || n.starts_with("llvm.sideeffect") || n.starts_with("llvm.fake.use") {
                        return;
                    }
                }
                Inst::Call { dst, has_dst, callee, args: args.into(), ret, normal, noreturn: false }
            }
            x => panic!("instruction `{x}`: {line}"),
        };
        b.insts.push(i);
    }
}

fn flags(c: &mut Cur) {
    loop {
        let w = c.peek_word();
        if matches!(w, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
            c.word();
        } else {
            return;
        }
    }
}
