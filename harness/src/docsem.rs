//! An independent reading of layout documents: the document as data, rendered to JSON for the code
//! under test, and turned here into the layouts it stands for.

use crate::tl::*;
use rdf_types::dataset::BTreeDataset as Ds;
use std::collections::BTreeSet;
use treeldr_layouts::layout::*;

pub const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";

#[derive(Clone, PartialEq)]
pub enum Pt {
    V(String),
    I(String),
    /// Value and type.
    L(String, String),
    /// Value and language.
    T(String, String),
}
pub fn var(x: &str) -> Pt {
    Pt::V(x.into())
}
pub fn ir(x: &str) -> Pt {
    Pt::I(x.into())
}
pub type Q4 = (Pt, Pt, Pt, Option<Pt>);

#[derive(Clone)]
pub enum Ex {
    B(bool),
    N(i64),
    S(String),
    T(String, String),
}
#[derive(Clone, Default)]
pub struct H {
    pub base: Option<String>,
    pub prefixes: Vec<(String, String)>,
    pub id: Option<String>,
    /// `None`: the default, `["self"]`.
    pub input: Option<Vec<String>>,
    pub intro: Vec<String>,
    pub ds: Vec<Q4>,
    pub extra: Vec<(String, Ex)>,
}
impl H {
    pub fn id(x: &str) -> H {
        H { id: Some(x.into()), ..H::default() }
    }
    fn inputs(&self) -> Vec<String> {
        self.input.clone().unwrap_or_else(|| vec!["self".into()])
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum LK {
    Unit,
    Bool,
    Num,
    Bytes,
    Str,
    Id,
}
#[derive(Clone)]
pub enum Doc {
    B(bool),
    Lit { h: H, k: LK, res: Option<Pt>, dt: Option<String> },
    Rec(H, Vec<(String, Part)>),
    Sum(H, Vec<(String, Part)>),
    Set(H, Box<Part>),
    Tup(H, Vec<Part>),
    List { h: H, head: Option<Pt>, tail: Option<Pt>, node: Box<Node> },
}
impl Doc {
    pub fn header(&self) -> H {
        match self {
            Doc::B(_) => H::default(),
            Doc::Lit { h, .. } | Doc::Rec(h, _) | Doc::Sum(h, _) | Doc::Set(h, _) | Doc::Tup(h, _) | Doc::List { h, .. } => h.clone(),
        }
    }
    pub fn inputs(&self) -> u32 {
        self.header().inputs().len() as u32
    }
}
#[derive(Clone)]
pub enum DocRef {
    R(String),
    D(Doc),
}
#[derive(Clone)]
pub struct Part {
    /// `None`: the default.
    pub intro: Option<Vec<String>>,
    pub val: Val,
    pub ds: Option<Vec<Q4>>,
    pub prop: Option<Pt>,
    pub required: bool,
}
#[derive(Clone)]
pub enum Val {
    Short(Box<DocRef>),
    Full { layout: Box<DocRef>, input: Option<Vec<Pt>>, graph: Option<Option<Pt>> },
}
#[derive(Clone)]
pub enum Node {
    Short(DocRef),
    Full { head: Option<String>, rest: Option<String>, part: Part },
}
pub fn short(d: DocRef) -> Part {
    Part { intro: None, val: Val::Short(Box::new(d)), ds: None, prop: None, required: false }
}
pub fn string(id: &str) -> DocRef {
    DocRef::D(Doc::Lit { h: H::id(id), k: LK::Str, res: None, dt: None })
}

// ---- rendering -----------------------------------------------------------------------------

fn js(x: &str) -> String {
    format!("\"{x}\"")
}
fn jpt(p: &Pt) -> String {
    match p {
        Pt::V(x) => format!("\"_:{x}\""),
        Pt::I(x) => js(x),
        Pt::L(x, t) => format!(r#"{{"value":"{x}","type":"{t}"}}"#),
        Pt::T(x, t) => format!(r#"{{"value":"{x}","language":"{t}"}}"#),
    }
}
fn jl<T>(x: &[T], f: impl Fn(&T) -> String) -> String {
    format!("[{}]", x.iter().map(f).collect::<Vec<_>>().join(","))
}
fn jq(x: &Q4) -> String {
    let (a, b, c, g) = x;
    match g {
        None => format!("[{},{},{}]", jpt(a), jpt(b), jpt(c)),
        Some(g) => format!("[{},{},{},{}]", jpt(a), jpt(b), jpt(c), jpt(g)),
    }
}
struct O(Vec<String>);
impl O {
    fn put(&mut self, k: &str, v: String) {
        self.0.push(format!("\"{k}\":{v}"))
    }
    fn opt(&mut self, k: &str, v: Option<String>) {
        if let Some(v) = v {
            self.put(k, v)
        }
    }
    fn end(self) -> String {
        format!("{{{}}}", self.0.join(","))
    }
}
fn jmap<T>(x: &[(String, T)], f: impl Fn(&T) -> String) -> String {
    format!("{{{}}}", x.iter().map(|(k, v)| format!("\"{k}\":{}", f(v))).collect::<Vec<_>>().join(","))
}
fn jh(o: &mut O, h: &H) {
    o.opt("base", h.base.as_deref().map(js));
    if !h.prefixes.is_empty() {
        o.put("prefixes", jmap(&h.prefixes, |x| js(x)))
    }
    o.opt("id", h.id.as_deref().map(js));
    o.opt("input", h.input.as_deref().map(|x| jl(x, |x| js(x))));
    if !h.intro.is_empty() {
        o.put("intro", jl(&h.intro, |x| js(x)))
    }
    if !h.ds.is_empty() {
        o.put("dataset", jl(&h.ds, jq))
    }
    if !h.extra.is_empty() {
        o.put(
            "extra",
            jmap(&h.extra, |x| match x {
                Ex::B(b) => b.to_string(),
                Ex::N(n) => n.to_string(),
                Ex::S(s) => js(s),
                Ex::T(s, t) => format!(r#"{{"value":"{s}","type":"{t}"}}"#),
            }),
        )
    }
}
fn jpart(p: &Part, mut o: O) -> String {
    o.opt("intro", p.intro.as_deref().map(|x| jl(x, |x| js(x))));
    let v = match &p.val {
        Val::Short(d) => jref(d),
        Val::Full { layout, input, graph } => {
            let mut o = O(vec![]);
            o.put("layout", jref(layout));
            o.opt("input", input.as_deref().map(|x| jl(x, jpt)));
            o.opt("graph", graph.as_ref().map(|g| g.as_ref().map(jpt).unwrap_or("null".into())));
            o.end()
        }
    };
    o.put("value", v);
    o.opt("dataset", p.ds.as_deref().map(|x| jl(x, jq)));
    o.opt("property", p.prop.as_ref().map(jpt));
    if p.required {
        o.put("required", "true".into())
    }
    o.end()
}
fn jref(x: &DocRef) -> String {
    match x {
        DocRef::R(i) => js(i),
        DocRef::D(d) => text(d),
    }
}
/// The text of the document.
pub fn text(x: &Doc) -> String {
    let mut o = O(vec![]);
    match x {
        Doc::B(b) => return b.to_string(),
        Doc::Lit { h, k, res, dt } => {
            let t = match k {
                LK::Unit => "unit",
                LK::Bool => "boolean",
                LK::Num => "number",
                LK::Bytes => "bytes",
                LK::Str => "string",
                LK::Id => "id",
            };
            o.put("type", js(t));
            jh(&mut o, h);
            o.opt("resource", res.as_ref().map(jpt));
            o.opt("datatype", dt.as_deref().map(js));
        }
        Doc::Rec(h, x) => {
            o.put("type", js("record"));
            jh(&mut o, h);
            o.put("fields", jmap(x, |p| jpart(p, O(vec![]))));
        }
        Doc::Sum(h, x) => {
            o.put("type", js("sum"));
            jh(&mut o, h);
            o.put("variants", jmap(x, |p| jpart(p, O(vec![]))));
        }
        Doc::Set(h, p) => {
            o.put("type", js("set"));
            jh(&mut o, h);
            o.put("item", jpart(p, O(vec![])));
        }
        Doc::Tup(h, x) => {
            o.put("type", js("tuple"));
            jh(&mut o, h);
            o.put("items", jl(x, |p| jpart(p, O(vec![]))));
        }
        Doc::List { h, head, tail, node } => {
            o.put("type", js("list"));
            jh(&mut o, h);
            o.opt("head", head.as_ref().map(jpt));
            o.opt("tail", tail.as_ref().map(jpt));
            let n = match &**node {
                Node::Short(d) => jref(d),
                Node::Full { head, rest, part } => {
                    let mut o = O(vec![]);
                    o.opt("head", head.as_deref().map(js));
                    o.opt("rest", rest.as_deref().map(js));
                    jpart(part, o)
                }
            };
            o.put("node", n);
        }
    }
    o.end()
}

// ---- what it means -------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum E {
    NoBase,
    Invalid,
    Undeclared,
    Redefinition,
    NoTarget,
    NoSubject,
    NoObject,
}
pub type Lay = Layout<Term>;
type Pat = Pattern<Term>;

#[derive(Clone, Default)]
struct Sc {
    base: Option<String>,
    prefixes: Vec<(String, String)>,
    vars: Vec<String>,
}
impl Sc {
    fn bind(&self, x: &[String]) -> Sc {
        let mut s = self.clone();
        s.vars.extend(x.iter().cloned());
        s
    }
}
/// Everything the documents define, and everything that is wrong with them.
#[derive(Default)]
pub struct Meaning {
    pub layouts: Vec<(Term, Lay)>,
    pub errors: BTreeSet<E>,
    pub anonymous: u32,
    /// A reference is resolved against something else than `scheme://host/...`.
    pub odd: bool,
}

/// Resolve a reference against a base of the form `scheme://host/dir/file`, for the references
/// that the checks use (RFC 3986, section 5.2).
pub fn resolve(base: &str, r: &str) -> String {
    let (scheme, after) = base.split_once("://").unwrap();
    let (host, path) = match after.find('/') {
        Some(i) => after.split_at(i),
        None => (after, ""),
    };
    let path = &path[..path.find(['?', '#']).unwrap_or(path.len())];
    let dir = &path[..path.rfind('/').map(|i| i + 1).unwrap_or(0)];
    let bare = &base[..base.find('#').unwrap_or(base.len())];
    let noquery = &bare[..bare.find('?').unwrap_or(bare.len())];
    if r.is_empty() {
        bare.to_owned()
    } else if r.starts_with("//") {
        format!("{scheme}:{r}")
    } else if r.starts_with('/') {
        format!("{scheme}://{host}{r}")
    } else if r.starts_with('#') {
        format!("{bare}{r}")
    } else if r.starts_with('?') {
        format!("{noquery}{r}")
    } else if let Some(up) = r.strip_prefix("../") {
        let d = dir.strip_suffix('/').unwrap_or("");
        let d = &d[..d.rfind('/').map(|i| i + 1).unwrap_or(0)];
        let d = if d.is_empty() { "/" } else { d };
        format!("{scheme}://{host}{d}{up}")
    } else if let Some(here) = r.strip_prefix("./") {
        format!("{scheme}://{host}{dir}{here}")
    } else if dir.is_empty() {
        format!("{scheme}://{host}/{r}")
    } else {
        format!("{scheme}://{host}{dir}{r}")
    }
}
fn scheme(x: &str) -> Option<&str> {
    let (a, _) = x.split_once(':')?;
    let mut c = a.chars();
    match c.next() {
        Some(f) if f.is_ascii_alphabetic() && c.all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c)) => Some(a),
        _ => None,
    }
}

impl Meaning {
    fn err(&mut self, e: E) {
        self.errors.insert(e);
    }
    fn iri_str(&mut self, x: &str, s: &Sc) -> String {
        match scheme(x) {
            Some(p) => match s.prefixes.iter().rev().find(|(n, _)| n == p) {
                Some((_, full)) => {
                    let r = format!("{full}{}", &x[p.len() + 1..]);
                    // the only way to go wrong with the texts that the checks use
                    let host = r.split_once("://").map(|(_, h)| &h[..h.find(['/', '?', '#']).unwrap_or(h.len())]);
                    let bad = r.matches('#').count() > 1 || host.is_some_and(|h| h.contains(':'));
                    if bad {
                        self.err(E::Invalid);
                        return "https://bad.org/".into();
                    }
                    r
                }
                None => x.to_owned(),
            },
            None => match &s.base {
                Some(b) if !b.contains("://") => {
                    self.odd = true;
                    x.to_owned()
                }
                Some(b) => resolve(b, x),
                None => {
                    self.err(E::NoBase);
                    "https://bad.org/".into()
                }
            },
        }
    }
    fn iri(&mut self, x: &str, s: &Sc) -> Term {
        let x = self.iri_str(x, s);
        iri(if self.odd { "https://odd.org/" } else { &x })
    }
    fn pat(&mut self, p: &Pt, s: &Sc) -> Pat {
        match p {
            Pt::V(x) => match s.vars.iter().rposition(|y| x == y) {
                Some(i) => Pattern::Var(i as u32),
                None => {
                    self.err(E::Undeclared);
                    Pattern::Var(0)
                }
            },
            Pt::I(x) => Pattern::Resource(self.iri(x, s)),
            Pt::L(x, t) => {
                let t = self.iri_str(t, s);
                Pattern::Resource(any(x, if self.odd { "https://odd.org/" } else { &t }))
            }
            Pt::T(x, t) => Pattern::Resource(Term::Literal(rdf_types::Literal::new(
                x.clone(),
                LiteralType::LangString(langtag::LangTagBuf::new(t.clone()).unwrap()),
            ))),
        }
    }
    fn ds(&mut self, x: &[Q4], s: &Sc) -> Ds<Pat> {
        let mut d = Ds::new();
        for (a, b, c, g) in x {
            let q = Quad(self.pat(a, s), self.pat(b, s), self.pat(c, s), g.as_ref().map(|g| self.pat(g, s)));
            d.insert(q);
        }
        d
    }
    fn header(&mut self, h: &H, s: &Sc) -> (Sc, Ds<Pat>, BTreeMap<Term, Term>) {
        let mut t = s.clone();
        if let Some(b) = &h.base {
            t.base = Some(self.iri_str(b, s));
        }
        for (n, p) in &h.prefixes {
            let full = self.iri_str(p, s);
            t.prefixes.push((n.clone(), full));
        }
        let t = t.bind(&h.inputs()).bind(&h.intro);
        let d = self.ds(&h.ds, &t);
        let mut extra = BTreeMap::new();
        for (k, x) in &h.extra {
            let k = self.iri(k, &t);
            let x = match x {
                Ex::B(b) => lit(&b.to_string(), "boolean"),
                Ex::N(n) => lit(&n.to_string(), integer_type(*n)),
                Ex::S(x) => lit(x, "string"),
                Ex::T(x, ty) => {
                    let ty = self.iri_str(ty, &t);
                    any(x, &ty)
                }
            };
            extra.insert(k, x);
        }
        (t, d, extra)
    }
    fn val(&mut self, v: &Val, s: &Sc, default: &str) -> treeldr_layouts::ValueFormat<Term> {
        let (layout, input, graph) = match v {
            Val::Short(d) => (d, None, &None),
            Val::Full { layout, input, graph } => (layout, input.as_ref(), graph),
        };
        let input = match input {
            None => vec![self.pat(&var(default), s)],
            Some(x) => x.iter().map(|p| self.pat(p, s)).collect(),
        };
        treeldr_layouts::ValueFormat {
            layout: self.reference(layout, s),
            input,
            graph: graph.as_ref().map(|g| g.as_ref().map(|g| self.pat(g, s))),
        }
    }
    fn reference(&mut self, d: &DocRef, s: &Sc) -> Ref<LayoutType> {
        let s = Sc { vars: vec![], ..s.clone() };
        Ref::new(match d {
            DocRef::R(x) => self.iri(x, &s),
            DocRef::D(d) => self.layout(d, &s),
        })
    }
    /// The pattern of a part that is tied to the layout by a property.
    fn part(&mut self, p: &Part, h: &H, s: &Sc, default: &str) -> (u32, treeldr_layouts::ValueFormat<Term>, Ds<Pat>) {
        let intro = p.intro.clone().unwrap_or_else(|| vec!["value".into()]);
        let t = s.bind(&intro);
        let mut d = self.ds(p.ds.as_deref().unwrap_or(&[]), &t);
        if let Some(prop) = &p.prop {
            if h.inputs().is_empty() {
                self.err(E::NoSubject)
            }
            if intro.is_empty() {
                self.err(E::NoObject)
            }
            let prop = self.pat(prop, &t);
            d.insert(Quad(Pattern::Var(0), prop, Pattern::Var(s.vars.len() as u32), None));
        }
        (intro.len() as u32, self.val(&p.val, &t, default), d)
    }
    /// Add the layout of a document, and those in it.
    fn layout(&mut self, d: &Doc, s: &Sc) -> Term {
        let h = match d {
            Doc::B(_) => &H::default(),
            Doc::Lit { h, .. } | Doc::Rec(h, _) | Doc::Sum(h, _) | Doc::Set(h, _) | Doc::Tup(h, _) | Doc::List { h, .. } => h,
        };
        let id = match &h.id {
            Some(x) => self.iri(x, s),
            None => {
                self.anonymous += 1;
                blank(&format!("_:anonymous{}", self.anonymous))
            }
        };
        let (t, dataset, extra_properties) = self.header(h, s);
        let (input, intro) = (h.inputs().len() as u32, h.intro.len() as u32);
        let layout = match d {
            Doc::B(true) => Layout::Always,
            Doc::B(false) => Layout::Never,
            Doc::Lit { k: LK::Unit, .. } => {
                Layout::Literal(LiteralLayout::Data(DataLayout::Unit(literal::UnitLayout { input, intro, dataset, const_: Value::unit(), extra_properties })))
            }
            Doc::Lit { k, res, dt, .. } => {
                let resource = match res {
                    Some(p) => self.pat(p, &t),
                    None => {
                        if input == 0 {
                            self.err(E::NoTarget)
                        }
                        Pattern::Var(0)
                    }
                };
                let default = match k {
                    LK::Bool => "boolean",
                    LK::Num => "decimal",
                    _ => "string",
                };
                let datatype = match dt {
                    Some(x) => self.iri(x, &t),
                    None => iri(&format!("{XSD}{default}")),
                };
                match k {
                    LK::Unit => unreachable!(),
                    LK::Bool => Layout::Literal(LiteralLayout::Data(DataLayout::Boolean(literal::BooleanLayout {
                        input,
                        intro,
                        dataset,
                        resource,
                        datatype,
                        extra_properties,
                    }))),
                    LK::Num => Layout::Literal(LiteralLayout::Data(DataLayout::Number(literal::NumberLayout {
                        input,
                        intro,
                        dataset,
                        resource,
                        datatype,
                        extra_properties,
                    }))),
                    LK::Bytes => Layout::Literal(LiteralLayout::Data(DataLayout::ByteString(literal::data::ByteStringLayout {
                        input,
                        intro,
                        dataset,
                        resource,
                        datatype,
                        extra_properties,
                    }))),
                    LK::Str => Layout::Literal(LiteralLayout::Data(DataLayout::TextString(literal::TextStringLayout {
                        input,
                        intro,
                        pattern: None,
                        dataset,
                        resource,
                        datatype,
                        extra_properties,
                    }))),
                    LK::Id => Layout::Literal(LiteralLayout::Id(IdLayout { input, intro, dataset, pattern: None, resource, extra_properties })),
                }
            }
            Doc::Rec(_, x) => {
                let mut fields = BTreeMap::new();
                for (n, p) in x {
                    let (intro, value, dataset) = self.part(p, h, &t, "value");
                    fields.insert(Value::string(n.clone()), product::Field { intro, value, dataset, required: p.required });
                }
                Layout::Product(ProductLayout { input, intro, fields, dataset, extra_properties })
            }
            Doc::Sum(_, x) => {
                let mut x = x.clone();
                x.sort_by(|a, b| a.0.cmp(&b.0));
                let mut variants = vec![];
                for (n, p) in &x {
                    let mut p = p.clone();
                    p.intro.get_or_insert_with(Vec::new); // nothing by default
                    let (intro, value, dataset) = self.part(&p, h, &t, "self");
                    variants.push(sum::Variant { name: n.clone(), intro, value, dataset });
                }
                Layout::Sum(SumLayout { input, intro, variants, dataset, extra_properties })
            }
            Doc::Set(_, p) => {
                let (n, value, ds) = self.part(p, h, &t, "value");
                let item = list::ItemLayout { intro: n, value, dataset: ds };
                Layout::List(ListLayout::Unordered(list::UnorderedListLayout { input, intro, item, dataset, extra_properties }))
            }
            Doc::Tup(_, x) => {
                let mut items = vec![];
                for p in x {
                    let (intro, value, dataset) = self.part(p, h, &t, "value");
                    items.push(list::ItemLayout { intro, value, dataset });
                }
                Layout::List(ListLayout::Sized(list::SizedListLayout { input, intro, items, dataset, extra_properties }))
            }
            Doc::List { head, tail, node, .. } => {
                let (hd, tl) = (head.clone().unwrap_or_else(|| var("self")), tail.clone().unwrap_or_else(|| Pt::I(format!("{RDF}nil"))));
                let n = t.vars.len() as u32;
                let plain = |item: Pat| {
                    let mut d = Ds::new();
                    d.insert(Quad(Pattern::Var(n), Pattern::Resource(iri(&format!("{RDF}first"))), item, None));
                    d.insert(Quad(Pattern::Var(n), Pattern::Resource(iri(&format!("{RDF}rest"))), Pattern::Var(n + 1), None));
                    d
                };
                let node = match &**node {
                    Node::Short(d) => list::ordered::NodeLayout {
                        intro: 1,
                        value: treeldr_layouts::ValueFormat { layout: self.reference(d, &t), input: vec![Pattern::Var(n + 2)], graph: None },
                        dataset: plain(Pattern::Var(n + 2)),
                    },
                    Node::Full { head, rest, part } => {
                        let names = [head.clone().unwrap_or("head".into()), rest.clone().unwrap_or("rest".into())];
                        let intro = part.intro.clone().unwrap_or_else(|| vec!["value".into()]);
                        let u = t.bind(&names).bind(&intro);
                        let value = self.val(&part.val, &u, "value");
                        let dataset = match &part.ds {
                            Some(x) => self.ds(x, &u),
                            None if value.input.len() == 1 => plain(value.input[0].clone()),
                            None => Ds::new(),
                        };
                        list::ordered::NodeLayout { intro: intro.len() as u32, value, dataset }
                    }
                };
                let (head, tail) = (self.pat(&hd, &t), self.pat(&tl, &t));
                Layout::List(ListLayout::Ordered(list::OrderedListLayout { input, intro, node, head, tail, dataset, extra_properties }))
            }
        };
        if self.layouts.iter().any(|(i, _)| *i == id) {
            self.err(E::Redefinition)
        }
        self.layouts.push((id.clone(), layout));
        id
    }
    pub fn of(&mut self, d: &Doc) -> Term {
        self.layout(d, &Sc::default())
    }
}
/// The most specific XSD integer type.
pub fn integer_type(n: i64) -> &'static str {
    match n {
        0..=255 => "unsignedByte",
        256..=65535 => "unsignedShort",
        65536..=4294967295 => "unsignedInt",
        4294967296.. => "unsignedLong",
        -128..=-1 => "byte",
        -32768..=-129 => "short",
        -2147483648..=-32769 => "int",
        _ => "long",
    }
}
pub fn any(x: &str, t: &str) -> Term {
    Term::Literal(rdf_types::Literal::new(x.to_owned(), LiteralType::Any(iref::IriBuf::new(t.to_owned()).unwrap())))
}
pub fn kind(e: &abs::syntax::BuildError) -> Option<E> {
    use abs::syntax::BuildError as B;
    Some(match e {
        B::NoBaseIri(_) => E::NoBase,
        B::InvalidIri(_) => E::Invalid,
        B::UndeclaredVariable(_) => E::Undeclared,
        B::LayoutRedefinition => E::Redefinition,
        B::MissingLiteralTargetResource => E::NoTarget,
        B::NoPropertySubject => E::NoSubject,
        B::NoPropertyObject => E::NoObject,
        _ => return None,
    })
}
