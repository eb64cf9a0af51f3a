//! P06 to P09: what layout documents mean, against an independent reading of them.
use harness::{docsem::*, holes::*, tl::*, *};
use json_syntax::{Parse, TryFromJson};

/// Build documents one after the other, and compare with what they stand for.
fn compare(docs: &[Doc]) {
    let mut m = Meaning::default();
    let mut b = abs::Builder::new();
    let mut failed = None;
    let mut last = None;
    for d in docs {
        m.of(d);
        if m.odd {
            return;
        }
        let src = text(d);
        let Ok(x) = serde_json::from_str::<abs::syntax::Layout>(&src) else {
            check(false, 1);
            return;
        };
        match x.build(&mut b) {
            Ok(r) => last = Some(r),
            Err(e) => {
                failed = Some(e);
                break;
            }
        }
    }
    match failed {
        Some(e) => {
            reach(2);
            check(!m.errors.is_empty(), 2);
            check(kind(&e).is_some_and(|k| m.errors.contains(&k)), 3)
        }
        None => {
            reach(1);
            check(m.errors.is_empty(), 4);
            let ls = b.build();
            check(same(&ls, &m), 5);
            check(last.is_some_and(|r| ls.layout(r.id()).is_some()), 5)
        }
    }
}
/// The same layouts, whatever the names of the anonymous ones (which are told apart by content).
fn same(ls: &Layouts, m: &Meaning) -> bool {
    let mut n = 0;
    for (id, l) in ls {
        n += 1;
        let known = match id.id() {
            Term::Id(Id::Blank(_)) => m.layouts.iter().any(|(i, x)| matches!(i, Term::Id(Id::Blank(_))) && x == l),
            id => m.layouts.iter().any(|(i, x)| i == id && x == l),
        };
        if !known {
            return false;
        }
    }
    n == m.layouts.len()
}
fn names(x: &[&str]) -> Vec<String> {
    x.iter().map(|s| s.to_string()).collect()
}
fn ex(x: &str) -> Pt {
    Pt::I(format!("https://ex.org/{x}"))
}
/// Any of some IRIs.
fn sym() -> Pt {
    Pt::I(format!("https://ex.org/{}", chars_in(1, b'a', b'z')))
}
fn quad(a: Pt, b: Pt, c: Pt) -> Q4 {
    (a, b, c, None)
}

// ---- P06: variables --------------------------------------------------------------------------

/// The variables of a layout.
fn header() -> H {
    H {
        input: match choose(5) {
            0 => None,
            1 => Some(names(&["a"])),
            2 => Some(names(&["a", "b"])),
            3 => Some(names(&["a", "a"])),
            _ => Some(vec![]),
        },
        intro: match choose(3) {
            0 => vec![],
            1 => names(&["b"]),
            _ => names(&["c", "a"]),
        },
        ..H::id("https://ex.org/main")
    }
}
fn intro() -> Option<Vec<String>> {
    match choose(4) {
        0 => None,
        1 => Some(names(&["b"])),
        2 => Some(names(&["d", "a"])),
        _ => Some(vec![]),
    }
}
fn name() -> Pt {
    var(["a", "b", "value", "self", "d"][choose(5) as usize])
}
/// A variable somewhere in a part (places below 8) or in the header.
fn place(h: &mut H, p: &mut Part) {
    let k = choose(9);
    reach(10 + k);
    let full = |input: Option<Vec<Pt>>, graph| Val::Full { layout: Box::new(string("https://ex.org/leaf")), input, graph };
    match k {
        0 => p.ds = Some(vec![quad(name(), sym(), ex("o"))]),
        1 => p.ds = Some(vec![quad(ex("s"), name(), ex("o"))]),
        2 => p.ds = Some(vec![(ex("s"), sym(), name(), Some(var("a")))]),
        3 => p.ds = Some(vec![(var("b"), sym(), ex("o"), Some(name()))]),
        4 => p.prop = Some(name()),
        5 => p.val = full(Some(vec![name(), sym()]), None),
        6 => p.val = full(Some(vec![sym()]), Some(Some(name()))),
        7 => h.ds = vec![(name(), sym(), name(), Some(ex("g")))],
        _ => {
            p.val = match choose(4) {
                0 => full(None, Some(None)),
                1 => full(None, None),
                2 => full(Some(vec![]), None),
                _ => return,
            }
        }
    }
    if k < 4 && flag() {
        p.prop = Some(ex("prop"))
    }
}
fn one_part() -> (H, Part) {
    let mut h = header();
    let mut p = short(string("https://ex.org/leaf"));
    p.intro = intro();
    // most of the ways to go wrong are covered without crossing them all
    place(&mut h, &mut p);
    (h, p)
}
#[no_mangle]
extern "C" fn h_sc_record(_t: u64) {
    let (h, mut p) = one_part();
    p.required = flag();
    compare(&[Doc::Rec(h, vec![("f".into(), p)])])
}
#[no_mangle]
extern "C" fn h_sc_sum(_t: u64) {
    let (h, mut p) = one_part();
    p.prop = None; // no such thing
    compare(&[Doc::Sum(h, vec![("v".into(), p)])])
}
#[no_mangle]
extern "C" fn h_sc_set(_t: u64) {
    let (h, p) = one_part();
    compare(&[if flag() { Doc::Set(h, Box::new(p)) } else { Doc::Tup(h, vec![p]) }])
}
#[no_mangle]
extern "C" fn h_sc_list(_t: u64) {
    let mut h = header();
    let mut p = short(string("https://ex.org/leaf"));
    let (mut head, mut tail) = (None, None);
    let cell = |k: u32| match k {
        0 => None,
        1 => Some("a".to_string()),
        _ => Some("b".to_string()),
    };
    let node = match choose(3) {
        0 => {
            reach(20);
            match choose(2) {
                0 => head = Some(name()),
                _ => tail = Some(name()),
            }
            Node::Short(string("https://ex.org/leaf"))
        }
        1 => {
            // how cells are tied together
            reach(21);
            p.intro = intro();
            let n = var(["a", "b", "value", "head", "rest"][choose(5) as usize]);
            match choose(4) {
                0 => p.ds = Some(vec![quad(n, sym(), ex("o"))]),
                1 => p.ds = Some(vec![]),
                2 => p.val = Val::Full { layout: Box::new(string("https://ex.org/leaf")), input: Some(vec![n]), graph: None },
                _ => (),
            }
            Node::Full { head: cell(choose(3)), rest: cell(choose(3)), part: p }
        }
        _ => {
            place(&mut h, &mut p);
            p.prop = None; // no such thing
            Node::Full { head: None, rest: None, part: p }
        }
    };
    compare(&[Doc::List { h, head, tail, node: Box::new(node) }])
}
#[no_mangle]
extern "C" fn h_sc_literal(_t: u64) {
    let mut h = header();
    let k = [LK::Unit, LK::Bool, LK::Num, LK::Bytes, LK::Str, LK::Id][choose(6) as usize];
    let res = match (k, choose(4)) {
        (LK::Unit, _) | (_, 0) => None,
        (_, 1) => Some(ex("r")),
        (_, 2) => Some(Pt::L(ascii_word(), format!("{XSD}string"))),
        _ => Some(name()),
    };
    if flag() {
        h.ds = vec![(name(), sym(), ex("o"), Some(var("a")))]
    }
    let dt = match k {
        LK::Unit | LK::Id => None,
        LK::Num | LK::Bytes => Some("https://ex.org/dt".to_string()),
        _ if flag() => Some("https://ex.org/dt".to_string()),
        _ => None,
    };
    compare(&[Doc::Lit { h, k, res, dt }])
}
fn ascii_word() -> String {
    chars_in(2, b'a', b'z')
}
/// Layouts in layouts see none of the variables around them.
#[no_mangle]
extern "C" fn h_sc_nested(_t: u64) {
    let mut inner = H { intro: names(&["c"]), ..H::id("https://ex.org/inner") };
    let n = var(["a", "b", "c", "d", "self", "value", "head", "rest"][choose(8) as usize]);
    let mut p = short(string("https://ex.org/leaf"));
    match choose(3) {
        0 => inner.ds = vec![quad(n, sym(), var("c"))],
        1 => p.ds = Some(vec![quad(var("value"), sym(), n)]),
        _ => p.val = Val::Full { layout: Box::new(string("https://ex.org/leaf")), input: Some(vec![n]), graph: None },
    }
    let inner = DocRef::D(Doc::Rec(inner, vec![("x".into(), p)]));
    let h = H { input: Some(names(&["self", "a"])), intro: names(&["b"]), ..H::id("https://ex.org/main") };
    let mut p = short(inner.clone());
    if flag() {
        p.val = Val::Full { layout: Box::new(inner.clone()), input: Some(vec![var("a")]), graph: None };
    }
    let k = choose(6);
    reach(10 + k);
    compare(&[match k {
        0 => Doc::Rec(h, vec![("f".into(), Part { intro: Some(names(&["value", "d"])), ..p })]),
        1 => Doc::Sum(h, vec![("f".into(), Part { intro: Some(names(&["value", "d"])), ..p })]),
        2 => Doc::Set(h, Box::new(Part { intro: Some(names(&["value", "d"])), ..p })),
        3 => Doc::Tup(h, vec![Part { intro: Some(names(&["value", "d"])), ..p }]),
        4 => Doc::List { h, head: None, tail: None, node: Box::new(Node::Full { head: None, rest: None, part: Part { intro: Some(names(&["value", "d"])), ..p } }) },
        _ => Doc::List { h, head: None, tail: None, node: Box::new(Node::Short(inner)) },
    }])
}
/// Parts see each other's variables no more than layouts in layouts do.
#[no_mangle]
extern "C" fn h_sc_parts(_t: u64) {
    let mk = |k: u32, h: H, a: Part, b: Part| match k {
        0 => Doc::Rec(h, vec![("f".into(), a), ("g".into(), b)]),
        1 => Doc::Sum(h, vec![("f".into(), a), ("g".into(), b)]),
        _ => Doc::Tup(h, vec![a, b]),
    };
    let part = |leaf: &str| Part { intro: intro(), ds: Some(vec![quad(var("self"), sym(), name())]), ..short(string(leaf)) };
    let (mut a, mut b) = (part("https://ex.org/l1"), part("https://ex.org/l2"));
    let k = choose(3);
    reach(10 + k);
    for p in [&mut a, &mut b] {
        if k == 0 || k == 2 {
            p.val = match &p.val {
                Val::Short(d) => Val::Full { layout: d.clone(), input: Some(vec![var("self")]), graph: None },
                v => v.clone(),
            }
        }
    }
    compare(&[mk(k, H { intro: names(&["b"]), ..H::id("https://ex.org/main") }, a, b)])
}

/// Any names at all.
#[no_mangle]
extern "C" fn h_sc_names(t: u64) {
    let n = || chars_in(1, b'a', b'z');
    let some = |k: u32| (0..k).map(|_| n()).collect::<Vec<_>>();
    let k = choose(6);
    reach(10 + k);
    let h = H { input: Some(some(1 + choose(2))), intro: some(choose(if t == 0 { 2 } else { 3 })), ..H::id("https://ex.org/main") };
    let p = Part { intro: Some(some(choose(3))), ..short(string("https://ex.org/leaf")) };
    let x = var(&n());
    compare(&[match k {
        0 => Doc::Rec(h, vec![("f".into(), Part { val: Val::Full { layout: Box::new(string("https://ex.org/leaf")), input: Some(vec![x]), graph: None }, ..p })]),
        1 => Doc::Tup(h, vec![Part { val: Val::Full { layout: Box::new(string("https://ex.org/leaf")), input: Some(vec![var("self")]), graph: Some(Some(x)) }, ..p }]),
        2 => Doc::Lit { h, k: LK::Str, res: Some(x), dt: None },
        3 => Doc::Rec(H { ds: vec![quad(x, ex("p"), ex("o"))], ..h }, vec![]),
        4 => Doc::Set(h, Box::new(Part { ds: Some(vec![quad(ex("s"), ex("p"), x)]), ..p })),
        _ => Doc::List { h, head: None, tail: None, node: Box::new(Node::Full { head: Some(n()), rest: Some(n()), part: Part { val: Val::Full { layout: Box::new(string("https://ex.org/leaf")), input: Some(vec![x]), graph: None }, ds: Some(vec![]), ..p } }) },
    }])
}

// ---- P07: IRIs -------------------------------------------------------------------------------

/// A layout with one reference to an IRI in it, in any of the places that take one.
fn site(h: H, r: String) -> Doc {
    let k = choose(20);
    reach(100 + k);
    let mut h = h;
    let mut p = short(string("https://ex.org/leaf"));
    let i = Pt::I(r.clone());
    let (s, o) = (var("self"), ex("o"));
    let full = |d: DocRef, input: Option<Vec<Pt>>, graph| Val::Full { layout: Box::new(d), input, graph };
    let leaf = || string("https://ex.org/leaf");
    match k {
        0 => h.ds = vec![quad(i, ex("p"), o)],
        1 => h.ds = vec![quad(s, i, o)],
        2 => h.ds = vec![quad(s, ex("p"), i)],
        3 => h.ds = vec![(s, ex("p"), o, Some(i))],
        4 => h.ds = vec![quad(s, ex("p"), Pt::L("x".into(), r))],
        5 => h.extra = vec![(r, Ex::B(true))],
        6 => h.extra = vec![("https://ex.org/e".into(), Ex::T("x".into(), r))],
        7 => return Doc::Lit { h, k: LK::Str, res: Some(i), dt: None },
        8 => return Doc::Lit { h, k: LK::Bool, res: None, dt: Some(r) },
        9 => return Doc::Lit { h, k: LK::Num, res: None, dt: Some(r) },
        10 => return Doc::Lit { h, k: LK::Bytes, res: None, dt: Some(r) },
        11 => return Doc::Lit { h, k: LK::Str, res: None, dt: Some(r) },
        12 => p.prop = Some(i),
        13 => p.val = full(leaf(), Some(vec![i]), None),
        14 => p.val = full(leaf(), None, Some(Some(i))),
        15 => p.val = Val::Short(Box::new(DocRef::R(r))),
        16 => p.val = full(DocRef::R(r), None, None),
        17 => p.val = Val::Short(Box::new(string(&r))),
        18 => return Doc::List { h, head: Some(i), tail: None, node: Box::new(Node::Short(leaf())) },
        _ => return Doc::List { h, head: None, tail: Some(i), node: Box::new(Node::Short(DocRef::R(r))) },
    }
    match choose(4) {
        0 => Doc::Rec(h, vec![("f".into(), p)]),
        1 if p.prop.is_none() => Doc::Sum(h, vec![("f".into(), Part { intro: Some(names(&["value"])), ..p })]),
        2 => Doc::Set(h, Box::new(p)),
        _ => Doc::Tup(h, vec![p]),
    }
}
/// A letter.
fn c() -> String {
    chars_in(1, b'a', b'z')
}
fn pre(x: &[(&str, &str)]) -> Vec<(String, String)> {
    x.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}
/// A layout in a record that sets up base and prefixes.
fn wrap(h: H, d: Doc) -> Doc {
    Doc::Rec(h, vec![("w".into(), short(DocRef::D(d)))])
}
/// Every kind of reference in every place.
#[no_mangle]
extern "C" fn h_iri_places(_t: u64) {
    let r = match choose(5) {
        0 => c(),
        1 => format!("p:{}", c()),
        2 => format!("q:{}", c()),
        3 => format!("#{}", c()),
        _ => format!("https://ex.org/{}", c()),
    };
    let mut h = H::id("https://ex.org/main");
    match choose(3) {
        0 => (),
        1 => h.base = Some("https://in.org/x/y".into()),
        _ => h.prefixes = pre(&[("p", "https://in.org/p#")]),
    }
    let d = site(h, r);
    match choose(3) {
        0 => compare(&[d]),
        1 => compare(&[wrap(H { base: Some("https://out.org/a/b".into()), ..H::id("https://ex.org/wrap") }, d)]),
        _ => compare(&[wrap(H { prefixes: pre(&[("p", "https://out.org/p#"), ("q", "https://out.org/q/")]), ..H::id("https://ex.org/wrap") }, d)]),
    }
}
/// Bases, prefixes and names of layouts that are references themselves.
#[no_mangle]
extern "C" fn h_iri_header(_t: u64) {
    let outer = match choose(4) {
        0 => H { base: Some("https://out.org/a/b".into()), ..H::id("https://ex.org/wrap") },
        1 => H { prefixes: pre(&[("p", "https://out.org/p#")]), ..H::id("https://ex.org/wrap") },
        2 => H { base: Some("https://out.org/".into()), prefixes: pre(&[("p", "https://out.org/p#"), ("q", "https://out.org/q/")]), ..H::id("https://ex.org/wrap") },
        _ => H::id("https://ex.org/wrap"),
    };
    let mut h = H::id("https://ex.org/main");
    let any = || match choose(4) {
        0 => c(),
        1 => format!("p:{}", c()),
        2 => format!("q:{}/", c()),
        _ => format!("https://in.org/{}/", c()),
    };
    match choose(6) {
        0 => h.id = Some(any()),
        1 => h.base = Some(any()),
        2 => h.prefixes = vec![("p".into(), any())],
        3 => h.prefixes = vec![("q".into(), any()), ("r".into(), any())],
        4 => {
            h.id = Some(any());
            h.base = Some(any());
        }
        _ => {
            h.base = Some(any());
            h.prefixes = vec![("p".into(), any())];
        }
    }
    h.ds = vec![quad(var("self"), Pt::I(match choose(4) {
        0 => c(),
        1 => format!("p:{}", c()),
        2 => format!("q:{}", c()),
        _ => format!("r:{}", c()),
    }), ex("o"))];
    compare(&[wrap(outer, Doc::Lit { h, k: LK::Str, res: None, dt: None })])
}
/// Relative references.
#[no_mangle]
extern "C" fn h_iri_relative(_t: u64) {
    let base = ["https://ex.org/", "https://ex.org/d/f", "https://ex.org/d/e/", "https://ex.org/d/f?q", "https://ex.org/d/f#g"][choose(5) as usize];
    let k = choose(11);
    reach(10 + k);
    let r = match k {
        0 => String::new(),
        1 => c(),
        2 => format!("{}/{}", c(), c()),
        3 => format!("/{}", c()),
        4 => format!("//{}.org/{}", c(), c()),
        5 => format!("#{}", c()),
        6 => format!("?{}", c()),
        7 => format!("../{}", c()),
        8 => format!("./{}", c()),
        9 => format!("{}?{}", c(), c()),
        _ => format!("{}#{}", c(), c()),
    };
    let h = H { base: Some(base.into()), ds: vec![quad(var("self"), Pt::I(r), ex("o"))], ..H::id("https://ex.org/main") };
    compare(&[Doc::Lit { h, k: LK::Str, res: None, dt: None }])
}
/// Compact IRIs.
#[no_mangle]
extern "C" fn h_iri_prefix(_t: u64) {
    let full = ["https://ex.org", "https://ex.org/ns#", "https://ex.org/n/", "urn:x:"][choose(4) as usize];
    let name = ["p", "https", "urn", "q"][choose(4) as usize];
    let k = choose(9);
    reach(10 + k);
    let r = match k {
        0 => format!("p:{}", c()),
        1 => "p:".to_owned(),
        2 => format!("p:#{}", c()),
        3 => format!("p::{}", c()),
        4 => format!("p:{}/{}", c(), c()),
        5 => format!("https:{}", c()),
        6 => format!("urn:{}", c()),
        7 => format!("P:{}", c()),
        _ => format!("p:{}:{}", c(), c()),
    };
    let h = H { ds: vec![quad(var("self"), Pt::I(r), var("self"))], ..H::default() };
    let h = H { prefixes: pre(&[(name, full), ("z", "https://ex.org/z")]), ..h };
    compare(&[Doc::Lit { h, k: LK::Id, res: None, dt: None }])
}

// ---- P08: reading and writing documents ------------------------------------------------------

type Src = abs::syntax::Layout;
fn by_serde(x: &str) -> Option<Src> {
    serde_json::from_str(x).ok()
}
fn by_json(x: &str) -> Option<Src> {
    let (json, map) = json_syntax::Value::parse_str(x).ok()?;
    Src::try_from_json(&json, &map).ok()
}
/// Both readers agree, and read what is written back.
fn agree(src: &str) -> bool {
    let must = |c: bool, id: u32, out: &str| {
        if !c {
            note(&format!("{src} {out}"))
        }
        check(c, id)
    };
    let (a, b) = (by_serde(src), by_json(src));
    must(a.is_none() || b.is_some(), 4, "");
    must(b.is_none() || a.is_some(), 5, "");
    let Some(a) = a else {
        reach(2);
        return false;
    };
    reach(1);
    must(Some(&a) == b.as_ref(), 1, "");
    let out = serde_json::to_string(&a).unwrap();
    must(by_serde(&out).is_some_and(|c| c == a), 2, &out);
    must(by_json(&out).is_some_and(|c| c == a), 3, &out);
    true
}
/// Something in the place of every part of a document.
#[no_mangle]
extern "C" fn h_rd_holes(_t: u64) {
    let k = choose(HOLES.len() as u32) as usize;
    let x = filler();
    // arrays for objects are outside
    if positional(HOLES[k], &x) {
        return;
    }
    agree(&HOLES[k].replace('@', &x));
}
/// Full documents.
#[no_mangle]
extern "C" fn h_rd_docs(_t: u64) {
    check(agree(&text(&document())), 6)
}
fn document() -> Doc {
    let mut h = H { input: if flag() { Some(names(&["self", "a"])) } else { None }, ..H::default() };
    match choose(6) {
        0 => (),
        1 => h.base = Some("x".into()),
        2 => h.prefixes = pre(&[("p", "x"), ("q", "y")]),
        3 => h.intro = names(&["b"]),
        4 => h.ds = vec![(var("self"), ir("p:x"), Pt::T("x".into(), "en".into()), Some(var("g")))],
        _ => h.extra = vec![("x".into(), Ex::N(-7)), ("d:d".into(), Ex::S("x".into()))],
    }
    if flag() {
        site(h, c())
    } else {
        let mut p = Part { intro: intro(), ..short(string("https://ex.org/leaf")) };
        place(&mut h, &mut p);
        match choose(4) {
            0 => Doc::Rec(h, vec![("f".into(), p), ("g".into(), short(string("k")))]),
            1 => Doc::Sum(h, vec![("f".into(), Part { prop: None, ..p }), ("g".into(), short(DocRef::D(Doc::B(flag()))))]),
            2 => Doc::Tup(h, vec![p, short(DocRef::R("k".into()))]),
            _ => Doc::List { h, head: None, tail: None, node: Box::new(Node::Full { head: Some("c".into()), rest: None, part: Part { prop: None, ..p } }) },
        }
    }
}

// ---- P09: names of layouts -------------------------------------------------------------------

use treeldr_layouts::{layout::{DataLayout, ListLayout, LiteralLayout, ProductLayoutType, SumLayoutType}, DerefResource, LayoutRegistry, LayoutRegistryUnion, Prelude, PresetLayout, Ref};

/// The layouts that a layout refers to, taken out of it.
fn refs(l: &mut Lay) -> Vec<Term> {
    let mut r = vec![];
    let mut out = |x: &mut treeldr_layouts::ValueFormat<Term>| r.push(std::mem::replace(&mut x.layout, Ref::new(blank("_:x"))).into_id());
    match l {
        Layout::Product(p) => p.fields.values_mut().for_each(|f| out(&mut f.value)),
        Layout::Sum(p) => p.variants.iter_mut().for_each(|f| out(&mut f.value)),
        Layout::List(ListLayout::Sized(p)) => p.items.iter_mut().for_each(|f| out(&mut f.value)),
        Layout::List(ListLayout::Unordered(p)) => out(&mut p.item.value),
        Layout::List(ListLayout::Ordered(p)) => out(&mut p.node.value),
        _ => (),
    }
    r
}
/// `a` in one collection is the same as `b` in the other, as far as one can go; `seen` pairs names.
fn follow(ls: &Layouts, m: &Meaning, a: Term, b: Term, seen: &mut Vec<(Term, Term)>) -> bool {
    let anonymous = |t: &Term| matches!(t, Term::Id(Id::Blank(_)));
    if anonymous(&a) != anonymous(&b) || !anonymous(&a) && a != b {
        return false;
    }
    if seen.iter().any(|(x, y)| *x == a && *y == b) {
        return true;
    }
    if seen.iter().any(|(x, y)| *x == a || *y == b) {
        return false;
    }
    seen.push((a.clone(), b.clone()));
    match (ls.layout(&a), m.layouts.iter().find(|(i, _)| *i == b)) {
        (Some(x), Some((_, y))) => {
            // what uses a layout can ask for the layouts it uses
            let mut deps = vec![];
            x.visit_dependencies(|d| deps.push(d.id().clone()));
            let (mut x, mut y) = (x.clone(), y.clone());
            let (p, q) = (refs(&mut x), refs(&mut y));
            deps == p && x == y && p.len() == q.len() && p.into_iter().zip(q).all(|(a, b)| follow(ls, m, a, b, seen))
        }
        (None, None) => true,
        _ => false,
    }
}
/// Build documents one after the other; each is still what it was in the end, in its place.
fn identify(docs: &[Doc]) {
    let mut m = Meaning::default();
    let mut b = abs::Builder::new();
    let mut roots = vec![];
    for d in docs {
        let t = m.of(d);
        match serde_json::from_str::<abs::syntax::Layout>(&text(d)).unwrap().build(&mut b) {
            Ok(r) => {
                check(m.errors.is_empty(), 6);
                roots.push((r.into_id(), t))
            }
            Err(e) => {
                reach(2);
                check(kind(&e).is_some_and(|k| m.errors.contains(&k)), 7);
                return;
            }
        }
    }
    reach(1);
    let ls = b.build();
    check(ls.iter().count() == m.layouts.len(), 8);
    let mut seen = vec![];
    for (a, t) in roots {
        check(follow(&ls, &m, a, t, &mut seen), 9)
    }
}
fn named(x: &str) -> H {
    H { id: Some(x.into()), ..H::default() }
}
/// A document in two levels, whose layouts have the names given, if any.
fn two(outer: Option<String>, inner: Option<String>, k: u32) -> Doc {
    let h = |x: &Option<String>| H { id: x.clone(), ..H::default() };
    let leaf = Doc::Lit { h: h(&inner), k: [LK::Str, LK::Id, LK::Bool][choose(3) as usize], res: None, dt: None };
    holder(h(&outer), DocRef::D(leaf), k)
}
fn holder(h: H, d: DocRef, k: u32) -> Doc {
    let p = short(d);
    match k {
        0 => Doc::Rec(h, vec![("f".into(), p)]),
        1 => Doc::Sum(h, vec![("f".into(), Part { intro: Some(names(&["value"])), ..p })]),
        2 => Doc::Set(h, Box::new(p)),
        3 => Doc::Tup(h, vec![p]),
        _ => {
            let Val::Short(d) = p.val else { return Doc::B(true) };
            Doc::List { h, head: None, tail: None, node: Box::new(Node::Short(*d)) }
        }
    }
}
fn maybe_name() -> Option<String> {
    if flag() {
        Some(format!("https://ex.org/{}", chars_in(1, b'a', b'c')))
    } else {
        None
    }
}
/// Names are given to one layout only.
#[no_mangle]
extern "C" fn h_id_redef(_t: u64) {
    let k = choose(5);
    let a = two(maybe_name(), maybe_name(), k);
    let b = match choose(3) {
        0 => two(maybe_name(), None, 0),
        1 => Doc::Lit { h: H { id: maybe_name(), ..H::default() }, k: LK::Id, res: None, dt: None },
        _ => return identify(&[a]),
    };
    identify(&[a, b])
}
/// References lead to the layouts that have these names, wherever they are.
#[no_mangle]
extern "C" fn h_id_ref(_t: u64) {
    let k = choose(5);
    let r = || DocRef::R(format!("https://ex.org/{}", chars_in(1, b'a', b'e')));
    let (x, y) = (r(), r());
    let a = holder(named("https://ex.org/a"), x, k);
    let b = Doc::Rec(named("https://ex.org/b"), vec![("f".into(), short(y.clone())), ("g".into(), short(DocRef::D(holder(named("https://ex.org/c"), y, choose(5)))))]);
    if flag() {
        identify(&[a, b])
    } else {
        identify(&[b, a])
    }
}
/// Anonymous layouts are all different.
#[no_mangle]
extern "C" fn h_id_anon(t: u64) {
    let doc = |k: u32| match choose(4) {
        0 => Doc::Rec(H::default(), vec![("f".into(), short(DocRef::D(two(None, None, k)))), ("g".into(), short(DocRef::D(two(None, maybe_name(), 2))))]),
        1 => two(None, None, k),
        2 => Doc::Tup(H::default(), vec![short(DocRef::D(Doc::B(flag()))), short(DocRef::D(Doc::B(flag())))]),
        _ => Doc::B(flag()),
    };
    let n = 2 + (t as usize);
    let k = choose(5);
    let docs: Vec<_> = (0..n).map(|_| doc(k)).collect();
    identify(&docs)
}
/// Layouts with blank identifiers, chosen by who uses the builder, are kept.
#[no_mangle]
extern "C" fn h_id_blank(_t: u64) {
    let mut b = abs::Builder::new();
    let ids: Vec<_> = (0..2).map(|_| blank(&format!("_:{}", chars_in(1, b'0', b'4')))).collect();
    for (i, id) in ids.iter().enumerate() {
        b.insert(id.clone(), if i == 0 { abs::Layout::Always } else { abs::Layout::Never });
    }
    let mut gen = rdf_types::generator::Blank::new_with_offset(choose(4) as usize);
    let doc = two(None, None, choose(5));
    let doc: abs::syntax::Layout = serde_json::from_str(&text(&doc)).unwrap();
    let r = doc.build_with_context(&mut b.with_generator_mut(&mut gen)).unwrap();
    let ls = b.build();
    let distinct = if ids[0] == ids[1] { 1 } else { 2 };
    reach(distinct);
    check(ls.iter().count() as u32 == distinct + 2, 8);
    check(ls.layout(&ids[1]).is_some_and(|l| *l == Layout::Never), 10);
    check(distinct == 1 || ls.layout(&ids[0]).is_some_and(|l| *l == Layout::Always), 10);
    check(!ids.contains(r.id()), 10);
    let mut n = 0;
    ls.layout(r.id()).unwrap().visit_dependencies(|d| {
        n += 1;
        check(!ids.contains(d.id()) && ls.layout(d.id()).is_some(), 10)
    });
    check(n == 1, 10)
}
/// Combined collections: the first one has the last word.
#[no_mangle]
extern "C" fn h_id_union(_t: u64) {
    let name = || iri(&format!("https://ex.org/{}", chars_in(1, b'a', b'd')));
    let mut what = vec![];
    let mut mk = |n: u32| {
        let mut ls = Layouts::new();
        let mut v: Vec<(Term, Lay)> = vec![];
        for _ in 0..choose(n) {
            let (id, l) = (name(), if flag() { Layout::Always } else { Layout::Never });
            let (r, old) = ls.insert(id.clone(), l.clone());
            check(*r.id() == id, 11);
            let before = v.iter().position(|x| x.0 == id).map(|i| v.remove(i).1);
            check(old == before, 11);
            v.push((id, l))
        }
        what.push(v);
        ls
    };
    let (a, b, c) = (mk(3), mk(3), mk(2));
    let get = |i: usize, id: &Term| what[i].iter().find(|x| x.0 == *id).map(|x| &x.1);
    let q = name();
    let r = Ref::<LayoutType>::new(q.clone());
    let same = |reg: &dyn Fn() -> (Option<Lay>, bool), order: &[usize]| {
        let want = order.iter().find_map(|i| get(*i, &q));
        let (l, has) = reg();
        check(l.as_ref() == want, 12);
        check(has == want.is_some(), 12)
    };
    macro_rules! reg {
        ($x:expr, $($o:expr),*) => {{
            let x = $x;
            same(&|| (LayoutRegistry::get(&x, &r).cloned(), LayoutRegistry::contains(&x, &r)), &[$($o),*])
        }};
    }
    let k = choose(8);
    reach(10 + k);
    match k {
        0 => reg!(&a, 0),
        1 => reg!(a.with(&b), 0, 1),
        2 => reg!((&a).into_with(&b), 0, 1),
        3 => reg!(a.with(b.with(&c)), 0, 1, 2),
        4 => reg!((&a).into_with(&b).into_with(&c), 0, 1, 2),
        5 => reg!(LayoutRegistryUnion(&b, &a), 0, 1),
        6 => reg!(Some(a).into_with(None::<Layouts>), 0),
        _ => reg!(None::<Layouts>.into_with(Some(b).into_with(c)), 1, 2),
    }
}
/// References lead to what has this very name, whatever type they pass through.
#[no_mangle]
extern "C" fn h_id_types(_t: u64) {
    let k = choose(13);
    let h = || H::id("https://ex.org/a");
    let d = match k {
        0..=5 => Doc::Lit { h: h(), k: [LK::Unit, LK::Bool, LK::Num, LK::Bytes, LK::Str, LK::Id][k as usize], res: None, dt: (k == 2 || k == 3).then(|| "https://ex.org/dt".to_string()) },
        6..=10 => holder(h(), DocRef::R("https://ex.org/a".into()), k - 6),
        _ => Doc::B(k == 11),
    };
    let mut b = abs::Builder::new();
    let doc: abs::syntax::Layout = serde_json::from_str(&text(&d)).unwrap();
    let r = doc.build(&mut b).unwrap();
    let ls = b.build();
    let l = ls.get(&r).unwrap();
    let id = if flag() { r.id().clone() } else { iri(&format!("https://ex.org/{}", chars_in(1, b'a', b'c'))) };
    let there = id == *r.id();
    reach(10 + k);
    let to = Ref::<LayoutType>::new(id.clone());
    check(ls.deref_resource(&to) == there.then_some(l), 13);
    check(ls.get(to.casted::<ProductLayoutType>().as_casted::<LayoutType>()) == there.then_some(l), 13);
    check((to == r) == there && *to.id() == id && to.cast::<SumLayoutType>().into_id() == id, 13);
    check(*Ref::<LayoutType>::new_ref(&id).id() == id, 13);
    check(l.input_count() == if k > 10 { None } else { Some(d.inputs()) }, 14)
}
/// The layouts of the prelude are there, under their names, and are what they are said to be.
#[no_mangle]
extern "C" fn h_id_prelude(_t: u64) {
    const NAMES: [(&str, &str); 12] = [
        ("id", ""), ("unit", ""), ("boolean", "boolean"), ("u8", "unsignedByte"), ("u16", "unsignedShort"), ("u32", "unsignedInt"), ("u64", "unsignedLong"),
        ("i8", "byte"), ("i16", "short"), ("i32", "int"), ("i64", "long"), ("string", "string"),
    ];
    let i = choose(12) as usize;
    let (n, t) = NAMES[i];
    let id = format!("https://treeldr.org/prelude#{n}");
    reach(10 + i as u32);
    let ls = Prelude::build();
    check(ls.iter().count() == 12, 15);
    let t = iri(&format!("{XSD}{t}"));
    let ok = |l: &Lay| match l {
        Layout::Literal(LiteralLayout::Id(x)) => i == 0 && x.input == 1 && x.resource == Pattern::Var(0),
        Layout::Literal(LiteralLayout::Data(DataLayout::Unit(x))) => i == 1 && x.const_ == Value::unit(),
        Layout::Literal(LiteralLayout::Data(DataLayout::Boolean(x))) => i == 2 && x.datatype == t && x.input == 1 && x.resource == Pattern::Var(0),
        Layout::Literal(LiteralLayout::Data(DataLayout::Number(x))) => (3..11).contains(&i) && x.datatype == t && x.input == 1 && x.resource == Pattern::Var(0),
        Layout::Literal(LiteralLayout::Data(DataLayout::TextString(x))) => i == 11 && x.datatype == t && x.input == 1 && x.resource == Pattern::Var(0),
        _ => false,
    };
    check(ls.layout(&iri(&id)).is_some_and(ok), 15);
    check(Prelude.get(&Ref::new(iri(&id))).is_some_and(ok), 15);
    let preset = |x: &str| {
        PresetLayout::from_iri(rdf_types::IriBuf::new(x.to_owned()).unwrap().as_iri()).map(|p| match p {
            PresetLayout::Id => 0,
            PresetLayout::Unit => 1,
            PresetLayout::Boolean => 2,
            PresetLayout::U8 => 3,
            PresetLayout::U16 => 4,
            PresetLayout::U32 => 5,
            PresetLayout::U64 => 6,
            PresetLayout::I8 => 7,
            PresetLayout::I16 => 8,
            PresetLayout::I32 => 9,
            PresetLayout::I64 => 10,
            PresetLayout::String => 11,
        })
    };
    check(preset(&id) == Some(i), 16);
    // any other name of the same length
    let other = chars_in(n.len(), b'0', b'z');
    let k = choose(13) as usize;
    if k == 12 {
        assume(NAMES.iter().all(|x| x.0 != other));
        for bad in ['<', '>', '\\', '^', '`', '[', ']'] {
            assume(!other.contains(bad))
        }
        let x = format!("https://treeldr.org/prelude#{other}");
        check(preset(&x).is_none(), 16);
        check(ls.layout(&iri(&x)).is_none(), 15)
    }
}
// ---- P21: built layouts, stored ---------------------------------------------------------------

fn stored(doc: &Doc) {
    let mut b = abs::Builder::new();
    let d: abs::syntax::Layout = serde_json::from_str(&text(doc)).unwrap();
    if d.build(&mut b).is_err() {
        return reach(1);
    }
    for (r, l) in b.build() {
        let Ok(x) = serde_cbor::to_vec(&l) else { return check(false, 20) };
        let back = serde_cbor::from_slice::<Lay>(&x);
        if back.as_ref().ok() != Some(&l) {
            note(&format!("{} {:?}", text(doc), back));
            check(false, 21)
        }
        let Ok(x) = serde_cbor::to_vec(&r) else { return check(false, 20) };
        check(serde_cbor::from_slice::<Ref<treeldr_layouts::layout::LayoutType>>(&x).is_ok_and(|s| s == r), 22);
        // as JSON, where the keys of maps are strings
        match serde_json::to_string(&l) {
            Ok(x) => {
                reach(2);
                check(serde_json::from_str::<Lay>(&x).is_ok_and(|m| m == l), 23)
            }
            Err(_) => {
                reach(3);
                check(l.extra_properties().len() > 0, 24)
            }
        }
    }
}
/// Documents of every kind.
#[no_mangle]
extern "C" fn h_ly_docs(_t: u64) {
    stored(&document())
}
/// Literal layouts.
#[no_mangle]
extern "C" fn h_ly_literals(_t: u64) {
    let k = choose(7);
    let x = chars_in(1, b'a', b'z');
    let c = chars_in(1, b'"', b'~');
    reach(10 + k);
    let part = match k {
        0 => format!(r#""type":"string","pattern":"[{x}-z]*(ab|{x})","datatype":"https://ex.org/{x}""#),
        1 => format!(r#""type":"string","pattern":"[^{x}]","resource":"https://ex.org/{x}""#),
        2 => format!(r#""type":"id","pattern":"{x}+.?""#),
        3 => format!(r#""type":"number","datatype":"https://ex.org/{x}","resource":{{"value":{c:?},"type":"https://ex.org/t"}}"#),
        4 => format!(r#""type":"boolean","resource":{{"value":{c:?},"language":"{x}n"}}"#),
        5 => format!(r#""type":"bytes","datatype":"https://ex.org/{x}""#),
        _ => format!(r#""type":"unit","const":[{c:?},{{{c:?}:1}},null,true,-2.5]"#),
    };
    let extra = ["", r#","extra":{"https://ex.org/e":"v","https://ex.org/f":3}"#][choose(2) as usize];
    let ds = ["", r#","intro":["i"],"dataset":[["_:i","https://ex.org/p",{"value":"x"},"https://ex.org/g"],["_:self","https://ex.org/p","_:i"]]"#][choose(2) as usize];
    let mut b = abs::Builder::new();
    let d: abs::syntax::Layout = serde_json::from_str(&format!("{{{part}{ds}{extra}}}")).unwrap();
    d.build(&mut b).unwrap();
    let ls = b.build();
    let l = ls.into_iter().next().unwrap().1;
    let Ok(x) = serde_cbor::to_vec(&l) else { return check(false, 20) };
    check(serde_cbor::from_slice::<Lay>(&x).is_ok_and(|m| m == l), 21);
    if extra.is_empty() {
        let Ok(x) = serde_json::to_string(&l) else { return check(false, 24) };
        check(serde_json::from_str::<Lay>(&x).is_ok_and(|m| m == l), 23)
    }
}

entries!(h_sc_record, h_sc_sum, h_sc_set, h_sc_list, h_sc_literal, h_sc_nested, h_sc_parts, h_sc_names, h_iri_places, h_iri_header, h_iri_relative, h_iri_prefix, h_rd_holes, h_rd_docs, h_id_redef, h_id_ref, h_id_anon, h_id_blank, h_id_union, h_id_types, h_id_prelude, h_ly_docs, h_ly_literals);
