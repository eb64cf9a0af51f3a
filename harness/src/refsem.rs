//! An independent, naive reading of what layouts mean: layouts as data, rendered to the document
//! syntax for the code under test, and interpreted here by brute force.

use crate::tl::*;
use std::fmt::Write;

pub type N = &'static str;

/// Pattern: variable, IRI or literal (lexical form, XSD type).
#[derive(Clone, PartialEq)]
pub enum P {
    V(N),
    I(String),
    L(String, N),
}
pub fn v(x: N) -> P {
    P::V(x)
}
pub fn i(x: &str) -> P {
    P::I(format!("https://ex.org/{x}"))
}
pub type Q = (P, P, P, Option<P>);
pub fn q(a: P, b: P, c: P) -> Q {
    (a, b, c, None)
}

/// How the value of a part is laid out.
#[derive(Clone)]
pub struct F {
    pub l: Box<L>,
    pub input: Vec<P>,
    /// `None`: stay in the current graph; `Some(None)`: the default graph.
    pub graph: Option<Option<P>>,
}
#[derive(Clone)]
pub struct Part {
    pub name: N,
    pub intro: Vec<N>,
    pub f: F,
    pub ds: Vec<Q>,
    pub required: bool,
}
#[derive(Clone)]
pub enum K {
    Never,
    Always,
    Unit(Value),
    Bool,
    Str(Option<N>),
    Num(N),
    Id,
    Record(Vec<Part>),
    Sum(Vec<Part>),
    Set(Part),
    Tuple(Vec<Part>),
    List { head: P, tail: P, h: N, r: N, node: Part },
}
#[derive(Clone)]
pub struct L {
    pub id: u32,
    pub input: Vec<N>,
    pub intro: Vec<N>,
    pub ds: Vec<Q>,
    /// What a literal is the value of; the first input unless given.
    pub res: Option<P>,
    pub k: K,
}
pub fn l(k: K) -> L {
    L { id: 0, input: vec!["self"], intro: vec![], ds: vec![], res: None, k }
}
pub fn f(l: L, input: N) -> F {
    F { l: Box::new(l), input: vec![v(input)], graph: None }
}
/// A part reached from the layout's input through one property.
pub fn part(name: N, layout: L, prop: &str) -> Part {
    Part { name, intro: vec!["value"], f: f(layout, "value"), ds: vec![q(v("self"), i(prop), v("value"))], required: false }
}
impl Part {
    pub fn req(mut self, r: bool) -> Part {
        self.required = r;
        self
    }
    pub fn graph(mut self, g: Option<P>) -> Part {
        self.f.graph = Some(g);
        self
    }
}
pub fn first() -> P {
    P::I("http://www.w3.org/1999/02/22-rdf-syntax-ns#first".into())
}
pub fn rest() -> P {
    P::I("http://www.w3.org/1999/02/22-rdf-syntax-ns#rest".into())
}
pub fn nil() -> P {
    P::I("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil".into())
}
pub fn list_of(layout: L) -> L {
    l(K::List {
        head: v("self"),
        tail: nil(),
        h: "head",
        r: "rest",
        node: Part {
            name: "",
            intro: vec!["value"],
            f: f(layout, "value"),
            ds: vec![q(v("head"), first(), v("value")), q(v("head"), rest(), v("rest"))],
            required: false,
        },
    })
}

// ---- document syntax -----------------------------------------------------------------------

fn js(x: &str) -> String {
    format!("\"{x}\"")
}
fn jp(p: &P) -> String {
    match p {
        P::V(x) => format!("\"_:{x}\""),
        P::I(x) => js(x),
        P::L(x, t) => format!(r#"{{"value":"{x}","type":"{XSD}{t}"}}"#),
    }
}
fn jv(x: &Value) -> String {
    match x {
        Value::Literal(Literal::Unit) => "null".into(),
        Value::Literal(Literal::Boolean(b)) => b.to_string(),
        Value::Literal(Literal::Number(n)) => n.decimal_representation().unwrap(),
        Value::Literal(Literal::TextString(s)) => js(s),
        Value::Literal(_) => unreachable!(),
        Value::List(x) => format!("[{}]", x.iter().map(jv).collect::<Vec<_>>().join(",")),
        Value::Map(x) => format!("{{{}}}", x.iter().map(|(k, v)| format!("{}:{}", jv(k), jv(v))).collect::<Vec<_>>().join(",")),
    }
}
fn jds(ds: &[Q]) -> String {
    let qs: Vec<String> = ds
        .iter()
        .map(|(a, b, c, g)| match g {
            None => format!("[{},{},{}]", jp(a), jp(b), jp(c)),
            Some(g) => format!("[{},{},{},{}]", jp(a), jp(b), jp(c), jp(g)),
        })
        .collect();
    format!("[{}]", qs.join(","))
}
fn jnames(x: &[N]) -> String {
    format!("[{}]", x.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}
fn jf(x: &F) -> String {
    let mut s = format!(r#"{{"layout":{},"input":[{}]"#, json(&x.l), x.input.iter().map(jp).collect::<Vec<_>>().join(","));
    match &x.graph {
        None => (),
        Some(None) => s += r#","graph":null"#,
        Some(Some(g)) => write!(s, r#","graph":{}"#, jp(g)).unwrap(),
    }
    s + "}"
}
fn jpart(p: &Part, required: bool) -> String {
    let mut s = format!(r#""intro":{},"value":{},"dataset":{}"#, jnames(&p.intro), jf(&p.f), jds(&p.ds));
    if required {
        write!(s, r#","required":{}"#, p.required).unwrap();
    }
    s
}
/// The layout document.
pub fn json(x: &L) -> String {
    let t = match &x.k {
        K::Never => "false".into(),
        K::Always => "true".into(),
        K::Unit(c) => format!(r#"{{"type":"unit","const":{}"#, jv(c)),
        K::Bool => r#"{"type":"boolean""#.into(),
        K::Str(None) => r#"{"type":"string""#.into(),
        K::Str(Some(d)) => format!(r#"{{"type":"string","datatype":"{d}""#),
        K::Num(d) => format!(r#"{{"type":"number","datatype":"{XSD}{d}""#),
        K::Id => r#"{"type":"id""#.into(),
        K::Record(fs) => format!(
            r#"{{"type":"record","fields":{{{}}}"#,
            fs.iter().map(|p| format!("\"{}\":{{{}}}", p.name, jpart(p, true))).collect::<Vec<_>>().join(",")
        ),
        K::Sum(vs) => format!(
            r#"{{"type":"sum","variants":{{{}}}"#,
            vs.iter().map(|p| format!("\"{}\":{{{}}}", p.name, jpart(p, false))).collect::<Vec<_>>().join(",")
        ),
        K::Set(p) => format!(r#"{{"type":"set","item":{{{}}}"#, jpart(p, false)),
        K::Tuple(ps) => format!(
            r#"{{"type":"tuple","items":[{}]"#,
            ps.iter().map(|p| format!("{{{}}}", jpart(p, false))).collect::<Vec<_>>().join(",")
        ),
        K::List { head, tail, h, r, node } => format!(
            r#"{{"type":"list","head":{},"tail":{},"node":{{"head":"{h}","rest":"{r}",{}}}"#,
            jp(head),
            jp(tail),
            jpart(node, false)
        ),
    };
    if matches!(x.k, K::Never | K::Always) {
        return t;
    }
    let mut t = t;
    if x.id > 0 {
        write!(t, r#","id":"https://ex.org/l/{}""#, x.id).unwrap();
    }
    if x.input != ["self"] {
        write!(t, r#","input":{}"#, jnames(&x.input)).unwrap();
    }
    if !x.intro.is_empty() {
        write!(t, r#","intro":{}"#, jnames(&x.intro)).unwrap();
    }
    if !x.ds.is_empty() {
        write!(t, r#","dataset":{}"#, jds(&x.ds)).unwrap();
    }
    if let Some(r) = &x.res {
        write!(t, r#","resource":{}"#, jp(r)).unwrap();
    }
    t + "}"
}
/// Name every layout, so that the types of a typed value can be told apart.
pub fn number(x: &mut L) {
    fn go(x: &mut L, n: &mut u32) {
        *n += 1;
        x.id = *n;
        let ps: Vec<&mut Part> = match &mut x.k {
            K::Record(p) | K::Sum(p) | K::Tuple(p) => p.iter_mut().collect(),
            K::Set(p) | K::List { node: p, .. } => vec![p],
            _ => vec![],
        };
        for p in ps {
            go(&mut p.f.l, n);
        }
    }
    go(x, &mut 0)
}

// ---- hydration -----------------------------------------------------------------------------

/// A tree with the number of the layout of each node and the chosen variants.
#[derive(Clone, PartialEq, Debug)]
pub enum T {
    Lit(Literal, u32),
    Const(Value, u32),
    Map(Vec<(String, T)>, u32),
    List(Vec<T>, u32),
    /// In no particular order.
    Set(Vec<T>, u32),
    Variant(Box<T>, u32, usize),
    Always,
}
impl T {
    pub fn untyped(&self) -> Value {
        match self {
            T::Lit(x, _) => Value::Literal(x.clone()),
            T::Const(x, _) => x.clone(),
            T::Map(x, _) => Value::Map(x.iter().map(|(k, v)| (Value::string(k.clone()), v.untyped())).collect()),
            T::List(x, _) | T::Set(x, _) => Value::List(x.iter().map(T::untyped).collect()),
            T::Variant(x, _, _) => x.untyped(),
            T::Always => Value::unit(),
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bad {
    Missing,
    Ambiguous,
    Other,
}
type Env = Vec<(N, Option<Term>)>;

pub fn term(p: &P) -> Term {
    match p {
        P::I(x) => iri(x),
        P::L(x, t) => lit(x, t),
        P::V(_) => unreachable!(),
    }
}
fn value_of(p: &P, e: &Env) -> Option<Term> {
    match p {
        P::V(x) => e.iter().rev().find(|(n, _)| n == x).unwrap().1.clone(),
        p => Some(term(p)),
    }
}
fn unify(p: &P, t: &Term, e: &mut Env) -> bool {
    match p {
        P::V(x) => {
            let slot = e.iter_mut().rev().find(|(n, _)| n == x).unwrap();
            match &slot.1 {
                Some(u) => u == t,
                None => {
                    slot.1 = Some(t.clone());
                    true
                }
            }
        }
        p => term(p) == *t,
    }
}
/// All solutions of a basic graph pattern.
pub fn solve(d: &[Quad], ps: &[Q], g: Option<&Term>, e: Env, out: &mut Vec<Env>) {
    let Some(((a, b, c, pg), more)) = ps.split_first() else {
        out.push(e);
        return;
    };
    for Quad(s, p, o, dg) in d {
        let mut e = e.clone();
        let same_graph = match (pg, dg, g) {
            (Some(pg), Some(dg), _) => unify(pg, dg, &mut e),
            (Some(_), None, _) => false,
            (None, dg, g) => dg.as_ref() == g,
        };
        if same_graph && unify(a, s, &mut e) && unify(b, p, &mut e) && unify(c, o, &mut e) {
            solve(d, more, g, e, out)
        }
    }
}
fn one(d: &[Quad], ps: &[Q], g: Option<&Term>, e: Env) -> Result<Option<Env>, Bad> {
    let mut o = vec![];
    solve(d, ps, g, e, &mut o);
    match o.len() {
        0 => Ok(None),
        1 => Ok(o.pop()),
        _ => Err(Bad::Ambiguous),
    }
}
fn intro(e: &mut Env, x: &[N]) {
    e.extend(x.iter().map(|n| (*n, None)))
}
fn sub(d: &[Quad], x: &F, g: Option<&Term>, e: &Env) -> Result<T, Bad> {
    let input = x.input.iter().map(|p| value_of(p, e).ok_or(Bad::Other)).collect::<Result<Vec<Term>, Bad>>()?;
    let g2 = match &x.graph {
        None => g.cloned(),
        Some(None) => None,
        Some(Some(p)) => Some(value_of(p, e).ok_or(Bad::Other)?),
    };
    hydrate(d, &x.l, g2.as_ref(), &input)
}
fn decimal(s: &str) -> Option<Number> {
    // -?[0-9]+(.[0-9]+)? of a few characters
    let (neg, m) = match s.strip_prefix('-') {
        Some(m) => (true, m),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    let (a, b) = m.split_once('.').unwrap_or((m, ""));
    if a.is_empty() && b.is_empty() || !a.bytes().chain(b.bytes()).all(|c| c.is_ascii_digit()) {
        return None;
    }
    let (mut n, mut k) = (0i64, 1i64);
    for c in a.bytes() {
        n = n * 10 + (c - b'0') as i64;
    }
    for c in b.bytes() {
        n = n * 10 + (c - b'0') as i64;
        k *= 10;
    }
    Some(Number::new(num_rational::BigRational::new(if neg { -n } else { n }.into(), k.into())))
}
/// What the layout reads from the dataset.
pub fn hydrate(d: &[Quad], x: &L, g: Option<&Term>, input: &[Term]) -> Result<T, Bad> {
    match x.k {
        K::Never => return Err(Bad::Other),
        K::Always => return Ok(T::Always),
        _ => (),
    }
    if x.input.len() != input.len() {
        return Err(Bad::Other);
    }
    let mut e: Env = x.input.iter().zip(input).map(|(n, t)| (*n, Some(t.clone()))).collect();
    intro(&mut e, &x.intro);
    let e = one(d, &x.ds, g, e)?.ok_or(Bad::Missing)?;
    let target = || value_of(&x.res.clone().unwrap_or_else(|| P::V(x.input[0])), &e);
    let literal = |dt: &str| match target()? {
        Term::Literal(rdf_types::Literal { value, type_: LiteralType::Any(t) }) if t == dt => Some(value),
        _ => None,
    };
    match &x.k {
        K::Never | K::Always => unreachable!(),
        K::Unit(c) => Ok(T::Const(c.clone(), x.id)),
        K::Bool => match literal(&format!("{XSD}boolean")).as_deref() {
            Some("true" | "1") => Ok(T::Lit(Literal::Boolean(true), x.id)),
            Some("false" | "0") => Ok(T::Lit(Literal::Boolean(false), x.id)),
            _ => Err(Bad::Other),
        },
        K::Str(dt) => match literal(dt.unwrap_or(&format!("{XSD}string"))) {
            Some(s) => Ok(T::Lit(Literal::TextString(s), x.id)),
            None => Err(Bad::Other),
        },
        K::Num(dt) => match literal(&format!("{XSD}{dt}")).as_deref().and_then(decimal) {
            Some(n) => Ok(T::Lit(Literal::Number(n), x.id)),
            None => Err(Bad::Other),
        },
        K::Id => match target() {
            Some(Term::Id(Id::Iri(i))) => Ok(T::Lit(Literal::TextString(i.to_string()), x.id)),
            _ => Err(Bad::Other),
        },
        K::Record(ps) => {
            let mut m = vec![];
            for p in ps {
                let mut e = e.clone();
                intro(&mut e, &p.intro);
                match one(d, &p.ds, g, e)? {
                    Some(e) => m.push((p.name.to_owned(), sub(d, &p.f, g, &e)?)),
                    None if p.required => return Err(Bad::Missing),
                    None => (),
                }
            }
            m.sort_by(|a, b| a.0.cmp(&b.0));
            Ok(T::Map(m, x.id))
        }
        K::Sum(ps) => {
            let mut found = vec![];
            for (i, p) in ps.iter().enumerate() {
                let mut e = e.clone();
                intro(&mut e, &p.intro);
                if let Some(e) = one(d, &p.ds, g, e)? {
                    if let Ok(t) = sub(d, &p.f, g, &e) {
                        found.push(T::Variant(Box::new(t), x.id, i));
                    }
                }
            }
            match found.len() {
                0 => Err(Bad::Other),
                1 => Ok(found.pop().unwrap()),
                _ => Err(Bad::Ambiguous),
            }
        }
        K::Set(p) => {
            let mut e = e;
            intro(&mut e, &p.intro);
            let mut o = vec![];
            solve(d, &p.ds, g, e, &mut o);
            let mut r = vec![];
            for e in o {
                r.push(sub(d, &p.f, g, &e)?);
            }
            Ok(T::Set(r, x.id))
        }
        K::Tuple(ps) => {
            let mut r = vec![];
            for p in ps {
                let mut e = e.clone();
                intro(&mut e, &p.intro);
                let e = one(d, &p.ds, g, e)?.ok_or(Bad::Missing)?;
                r.push(sub(d, &p.f, g, &e)?);
            }
            Ok(T::List(r, x.id))
        }
        K::List { head, tail, h, r, node } => {
            let (mut cur, end) = (value_of(head, &e).ok_or(Bad::Other)?, value_of(tail, &e).ok_or(Bad::Other)?);
            let mut items = vec![];
            while cur != end {
                if items.len() > d.len() {
                    return Err(Bad::Other); // a cycle
                }
                let mut e = e.clone();
                e.push((*h, Some(cur)));
                e.push((*r, None));
                intro(&mut e, &node.intro);
                let e = one(d, &node.ds, g, e)?.ok_or(Bad::Missing)?;
                items.push(sub(d, &node.f, g, &e)?);
                cur = value_of(&P::V(r), &e).ok_or(Bad::Other)?;
            }
            Ok(T::List(items, x.id))
        }
    }
}

/// Does the typed value say the same as the expected tree?
pub fn same(a: &TypedValue, b: &T) -> bool {
    let id = |t: &Term, n: u32| *t == iri(&format!("https://ex.org/l/{n}"));
    use treeldr_layouts::TypedLiteral as TL;
    match (a, b) {
        (TypedValue::Literal(l), T::Lit(x, n)) => match (l, x) {
            (TL::Boolean(u, r), Literal::Boolean(w)) => u == w && id(r.id(), *n),
            (TL::Number(u, r), Literal::Number(w)) => u == w && id(r.id(), *n),
            (TL::TextString(u, r), Literal::TextString(w)) => u == w && id(r.id(), *n),
            (TL::Id(u, r), Literal::TextString(w)) => u == w && id(r.id(), *n),
            _ => false,
        },
        (TypedValue::Literal(TL::Unit(u, r)), T::Const(w, n)) => u == w && id(r.id(), *n),
        (TypedValue::Variant(u, r, i), T::Variant(w, n, j)) => *i as usize == *j && id(r.id(), *n) && same(u, w),
        (TypedValue::Map(u, r), T::Map(w, n)) => {
            id(r.id(), *n) && u.len() == w.len() && u.iter().zip(w).all(|((k, u), (l, w))| k.as_str() == Some(l) && same(u, w))
        }
        (TypedValue::List(u, r), T::List(w, n)) => id(r.id(), *n) && u.len() == w.len() && u.iter().zip(w).all(|(u, w)| same(u, w)),
        (TypedValue::List(u, r), T::Set(w, n)) => {
            id(r.id(), *n) && u.len() == w.len() && {
                let mut used = vec![false; w.len()];
                u.iter().all(|x| match (0..w.len()).find(|&j| !used[j] && same(x, &w[j])) {
                    Some(j) => {
                        used[j] = true;
                        true
                    }
                    None => false,
                })
            }
        }
        (TypedValue::Always(u), T::Always) => u.is_unit(),
        _ => false,
    }
}

// ---- dehydration ---------------------------------------------------------------------------

#[derive(Clone, PartialEq, Debug)]
pub enum R {
    Input(usize),
    Fresh(usize),
    T(Term),
}
/// Statements to be written, and what is known of the resources.
#[derive(Clone, Default)]
pub struct Out {
    pub quads: Vec<(R, R, R, Option<R>)>,
    pub terms: Vec<(R, Term)>,
    pub fresh: usize,
}
type REnv = Vec<(N, R)>;
fn res(p: &P, e: &REnv) -> R {
    match p {
        P::V(x) => e.iter().rev().find(|(n, _)| n == x).unwrap().1.clone(),
        p => R::T(term(p)),
    }
}
impl Out {
    fn intro(&mut self, e: &mut REnv, x: &[N]) {
        for n in x {
            e.push((n, R::Fresh(self.fresh)));
            self.fresh += 1;
        }
    }
    fn write(&mut self, ds: &[Q], e: &REnv, g: Option<&R>) {
        for (a, b, c, pg) in ds {
            let g = pg.as_ref().map(|p| res(p, e)).or_else(|| g.cloned());
            self.quads.push((res(a, e), res(b, e), res(c, e), g));
        }
    }
    fn sub(&mut self, x: &F, val: &Value, g: Option<&R>, e: &REnv) -> Result<(), Bad> {
        let input: Vec<R> = x.input.iter().map(|p| res(p, e)).collect();
        let g = match &x.graph {
            None => g.cloned(),
            Some(None) => None,
            Some(Some(p)) => Some(res(p, e)),
        };
        self.value(&x.l, val, g.as_ref(), &input)
    }
    fn part(&mut self, p: &Part, val: &Value, g: Option<&R>, e: &REnv) -> Result<(), Bad> {
        let mut e = e.clone();
        self.intro(&mut e, &p.intro);
        self.write(&p.ds, &e, g);
        self.sub(&p.f, val, g, &e)
    }
    /// Write `val` the way the layout says.
    pub fn value(&mut self, x: &L, val: &Value, g: Option<&R>, input: &[R]) -> Result<(), Bad> {
        match x.k {
            K::Never => return Err(Bad::Other),
            K::Always => return Ok(()),
            _ => (),
        }
        if x.input.len() != input.len() {
            return Err(Bad::Other);
        }
        let mut e: REnv = x.input.iter().zip(input).map(|(n, t)| (*n, t.clone())).collect();
        self.intro(&mut e, &x.intro);
        self.write(&x.ds, &e, g);
        let target = match (&x.res, x.input.first()) {
            (Some(p), _) => res(p, &e),
            (None, Some(n)) => res(&P::V(n), &e),
            (None, None) => R::Fresh(usize::MAX), // a constant
        };
        let xsd = |v: &str, t: &str| lit(v, t);
        match (&x.k, val) {
            (K::Unit(c), v) if c == v => Ok(()),
            (K::Bool, Value::Literal(Literal::Boolean(b))) => {
                self.terms.push((target, xsd(if *b { "true" } else { "false" }, "boolean")));
                Ok(())
            }
            (K::Str(dt), Value::Literal(Literal::TextString(s))) => {
                let t = dt.map(str::to_owned).unwrap_or(format!("{XSD}string"));
                let t = LiteralType::Any(iref::IriBuf::new(t).unwrap());
                self.terms.push((target, Term::Literal(rdf_types::Literal::new(s.clone(), t))));
                Ok(())
            }
            (K::Num(dt), Value::Literal(Literal::Number(n))) => match n.decimal_representation() {
                Some(s) => {
                    self.terms.push((target, xsd(&s, dt)));
                    Ok(())
                }
                None => Err(Bad::Other),
            },
            (K::Id, Value::Literal(Literal::TextString(s))) => match iref::IriBuf::new(s.clone()) {
                Ok(i) => {
                    self.terms.push((target, Term::iri(i)));
                    Ok(())
                }
                Err(_) => Err(Bad::Other),
            },
            (K::Record(ps), Value::Map(m)) => {
                for (k, val) in m {
                    let p = ps.iter().find(|p| k.as_str() == Some(p.name)).ok_or(Bad::Other)?;
                    self.part(p, val, g, &e)?;
                }
                match ps.iter().all(|p| !p.required || m.contains_key(&s(p.name))) {
                    true => Ok(()),
                    false => Err(Bad::Missing),
                }
            }
            (K::Sum(ps), val) => {
                let mut found = None;
                for p in ps {
                    let mut o = self.clone();
                    if o.part(p, val, g, &e).is_ok() && found.replace(o).is_some() {
                        return Err(Bad::Ambiguous);
                    }
                }
                *self = found.ok_or(Bad::Other)?;
                Ok(())
            }
            (K::Set(p), Value::List(vs)) => vs.iter().try_for_each(|val| self.part(p, val, g, &e)),
            (K::Tuple(ps), Value::List(vs)) if ps.len() == vs.len() => {
                ps.iter().zip(vs).try_for_each(|(p, val)| self.part(p, val, g, &e))
            }
            (K::List { head, tail, h, r, node }, Value::List(vs)) => {
                let (mut cur, end) = (res(head, &e), res(tail, &e));
                if vs.is_empty() && cur != end {
                    // the empty list is its own end, which must have a name
                    match end {
                        R::T(t @ Term::Id(Id::Iri(_))) => self.terms.push((cur, t)),
                        _ => return Err(Bad::Other),
                    }
                    return Ok(());
                }
                for (i, val) in vs.iter().enumerate() {
                    let next = if i + 1 == vs.len() {
                        end.clone()
                    } else {
                        self.fresh += 1;
                        R::Fresh(self.fresh - 1)
                    };
                    let mut e = e.clone();
                    e.push((h, cur));
                    e.push((r, next.clone()));
                    self.part(node, val, g, &e)?;
                    cur = next;
                }
                Ok(())
            }
            _ => Err(Bad::Other),
        }
    }
    /// The statements as patterns: resources without a term are variables.
    /// Fails if a resource has several terms.
    pub fn finish(&self, inputs: usize) -> Result<(Vec<[D; 4]>, Vec<Term>), Bad> {
        for (r, t) in &self.terms {
            for (q, u) in &self.terms {
                if r == q && t != u {
                    return Err(Bad::Ambiguous);
                }
            }
            if let R::T(u) = r {
                if u != t {
                    return Err(Bad::Ambiguous);
                }
            }
        }
        let name = |r: &R| match (r, self.terms.iter().find(|(q, _)| q == r)) {
            (R::T(t), _) => D::T(t.clone()),
            (_, Some((_, t))) => D::T(t.clone()),
            (R::Input(i), None) => D::T(blank(&format!("_:input{i}"))),
            (R::Fresh(i), None) => D::V(*i),
        };
        let mut out: Vec<[D; 4]> = vec![];
        for (s, p, o, g) in &self.quads {
            let q = [name(s), name(p), name(o), g.as_ref().map(name).unwrap_or(D::None)];
            if !out.contains(&q) {
                out.push(q)
            }
        }
        let inputs = (0..inputs)
            .map(|i| match name(&R::Input(i)) {
                D::T(t) => t,
                _ => unreachable!(),
            })
            .collect();
        Ok((out, inputs))
    }
}
#[derive(Clone, PartialEq, Debug)]
pub enum D {
    T(Term),
    V(usize),
    None,
}
/// Is the dataset the given statements, up to the names of fresh blank nodes?
pub fn same_dataset(d: &[Quad], spec: &[[D; 4]], inputs: &[Term]) -> bool {
    fn bind(p: &D, t: Option<&Term>, e: &mut Vec<(usize, Term)>, inputs: &[Term]) -> bool {
        match (p, t) {
            (D::None, t) => t.is_none(),
            (D::T(u), Some(t)) => u == t,
            (D::V(x), Some(t)) => {
                if let Some((_, u)) = e.iter().find(|(y, _)| x == y) {
                    return u == t;
                }
                // fresh: a blank node that nothing else is called
                let fresh = matches!(t, Term::Id(Id::Blank(_))) && !inputs.contains(t) && e.iter().all(|(_, u)| u != t);
                e.push((*x, t.clone()));
                fresh
            }
            _ => false,
        }
    }
    fn go(d: &[Quad], used: &mut Vec<bool>, spec: &[[D; 4]], e: Vec<(usize, Term)>, inputs: &[Term]) -> bool {
        let Some((q, more)) = spec.split_first() else { return true };
        for i in 0..d.len() {
            if !used[i] {
                let Quad(s, p, o, g) = &d[i];
                let mut e = e.clone();
                if bind(&q[0], Some(s), &mut e, inputs)
                    && bind(&q[1], Some(p), &mut e, inputs)
                    && bind(&q[2], Some(o), &mut e, inputs)
                    && bind(&q[3], g.as_ref(), &mut e, inputs)
                {
                    used[i] = true;
                    if go(d, used, more, e, inputs) {
                        return true;
                    }
                    used[i] = false;
                }
            }
        }
        false
    }
    d.len() == spec.len() && go(d, &mut vec![false; d.len()], spec, vec![], inputs)
}
