//! P20: the command line tool: loading of layout files, diagnostics, formats.
use harness::{holes::*, tl::*, *};

#[allow(dead_code, unused_imports)]
mod tool {
    include!("/repo/src/main.rs");

    pub enum Outcome {
        Layout(Ref<LayoutType>),
        /// Message and labelled spans.
        Diagnostic(String, Vec<std::ops::Range<usize>>, bool),
    }
    #[derive(Default)]
    pub struct Session {
        pub layouts: Layouts,
        generator: Option<generator::Blank>,
        default: Option<DefaultLayoutRef>,
    }
    impl Session {
        /// What `run` does for each file.
        pub fn load(&mut self, source: &str) -> Outcome {
            let mut files = SimpleFiles::new();
            let id = files.add("file".to_owned(), source.to_owned());
            let generator = self.generator.get_or_insert_with(generator::Blank::new);
            match load_layout(&files, id, &mut self.layouts, generator) {
                Ok(r) => {
                    self.default.get_or_insert(DefaultLayoutRef::None).set(r.clone());
                    Outcome::Layout(r)
                }
                Err(e) => {
                    let redefinition = matches!(&e, Error::LayoutBuild(_, treeldr_layouts::abs::syntax::BuildError::LayoutRedefinition));
                    let d = e.into_diagnostic();
                    Outcome::Diagnostic(d.message, d.labels.into_iter().map(|l| l.range).collect(), redefinition)
                }
            }
        }
        pub fn selected(self, preferred: Option<Term>) -> Result<Ref<LayoutType>, bool> {
            self.default.unwrap_or(DefaultLayoutRef::None).get(preferred).map_err(|e| matches!(e, Error::AmbiguousDefaultLayout))
        }
    }
    pub use super::tool::format::{RDFFormat as Rdf, TreeFormat as Tree};
    pub use super::tool::rdf::parse_term as term;
}
use tool::{Outcome, Rdf, Session, Tree};

fn source(n: u32, x: String) -> Option<String> {
    let hole = HOLES[n as usize];
    if positional(hole, &x) {
        return None;
    }
    let doc = hole.replace('@', &x);
    Some(if hole.starts_with(r#"{"type":""#) { doc.replacen('{', r#"{"base":"https://ex.org/","#, 1) } else { doc })
}
/// Something in the place of every part of a file: either its layouts, or a message about a place in it.
#[no_mangle]
extern "C" fn h_cl_holes(_t: u64) {
    let Some(src) = source(choose(HOLES.len() as u32), filler()) else { return };
    let mut s = Session::default();
    let mut b = abs::Builder::new();
    let want = serde_json::from_str::<abs::syntax::Layout>(&src).ok().and_then(|d| d.build(&mut b).ok());
    match (s.load(&src), want) {
        (Outcome::Layout(r), Some(q)) => {
            reach(1);
            let ls = b.build();
            check(r == q && s.layouts.iter().eq(ls.iter()), 1);
            check(s.selected(None) == Ok(r), 2)
        }
        (Outcome::Diagnostic(_, spans, _), None) => {
            reach(2);
            check(spans.iter().all(|s| s.start <= s.end && s.end <= src.len() && src.is_char_boundary(s.start) && src.is_char_boundary(s.end)), 3)
        }
        _ => check(false, 4),
    }
}
/// Text that is no JSON.
#[no_mangle]
extern "C" fn h_cl_text(t: u64) {
    let x = ascii(if t > 0 { 4 } else { 3 });
    let src = match choose(4) {
        0 => x,
        1 => format!("{{{x}"),
        2 => format!("{{\"type\":\"é{x}"),
        _ => format!("{{\"é\":1,{x}"),
    };
    match Session::default().load(&src) {
        Outcome::Layout(_) => reach(1),
        Outcome::Diagnostic(m, spans, _) => {
            reach(2);
            check(!m.is_empty() && spans.iter().all(|s| s.start <= s.end && s.end <= src.len() && src.is_char_boundary(s.start) && src.is_char_boundary(s.end)), 3)
        }
    }
}
fn name(k: u32) -> Option<String> {
    match k {
        0 => None,
        _ => Some(format!("https://ex.org/{}", chars_in(1, b'a', b'c'))),
    }
}
/// Several files are one collection of layouts.
#[no_mangle]
extern "C" fn h_cl_files(t: u64) {
    let n = choose(if t > 0 { 4 } else { 3 });
    let mut s = Session::default();
    let mut named: Vec<String> = vec![];
    let mut roots = vec![];
    let (mut clash, mut failed) = (false, false);
    for _ in 0..n {
        let mut id = |x: Option<String>| match x {
            Some(x) => {
                clash |= named.contains(&x);
                named.push(x.clone());
                format!(r#""id":"{x}","#)
            }
            None => String::new(),
        };
        let inner = format!(r#"{{{}"type":"string"}}"#, id(name(choose(2))));
        let outer = id(name(choose(2)));
        let doc = if choose(2) == 0 { inner } else { format!(r#"{{{outer}"type":"tuple","items":[{{"value":{inner},"property":"https://ex.org/p"}}]}}"#) };
        match s.load(&doc) {
            Outcome::Layout(r) => roots.push(r),
            Outcome::Diagnostic(_, _, redefinition) => {
                check(redefinition, 5);
                failed = true;
                break;
            }
        }
    }
    if failed {
        reach(1);
        check(clash, 6)
    } else {
        reach(2);
        for (i, r) in roots.iter().enumerate() {
            check(s.layouts.get(r).is_some(), 7);
            check(!roots[..i].contains(r), 7)
        }
        let preferred = flag().then(|| iri("https://ex.org/x"));
        match (s.selected(preferred.clone()), preferred) {
            (Ok(r), Some(p)) => check(*r.id() == p, 8),
            (Ok(r), None) => check(roots == [r], 8),
            (Err(ambiguous), p) => check(p.is_none() && roots.len() != 1 && ambiguous == (roots.len() > 1), 8),
        }
    }
}
/// Terms given on the command line.
#[no_mangle]
extern "C" fn h_cl_terms(t: u64) {
    let n = choose(if t > 0 { 4 } else { 3 }) as usize;
    let x = ascii(n);
    let x = match choose(3) {
        0 => x,
        1 => format!("_:{x}"),
        _ => format!("a:{x}"),
    };
    match tool::term(&x) {
        Ok(Term::Id(Id::Blank(b))) => {
            reach(1);
            check(b.as_str() == x, 9)
        }
        Ok(Term::Id(Id::Iri(i))) => {
            reach(2);
            check(i.as_str() == x && !x.starts_with("_:"), 9)
        }
        Ok(_) => check(false, 9),
        Err(_) => {
            reach(3);
            check(iref::Iri::new(&x).is_err() && rdf_types::BlankId::new(&x).is_err(), 9)
        }
    }
}
/// Every name of a format stands for one format.
#[no_mangle]
extern "C" fn h_cl_names(_t: u64) {
    for n in Tree::POSSIBLE_VALUES {
        check(Tree::new(n).is_some_and(|f| f.as_str().ends_with(&n[n.len() - 4..]) && f.to_string() == f.as_str()), 10)
    }
    for n in Rdf::POSSIBLE_VALUES {
        check(Rdf::new(n).is_some_and(|f| f.as_str() == "application/n-quads" && f.to_string() == f.as_str()), 10)
    }
    let x = ascii(4);
    if let Some(f) = Tree::new(&x) {
        check(x == "json" && f.as_str() == "application/json" || x == "cbor" && f.as_str() == "application/cbor", 10)
    }
}
fn string(n: usize) -> String {
    match choose(3) {
        0 => ascii(n),
        1 => ["é", "\u{2028}", "\u{10ffff}", "\0"][choose(4) as usize].to_owned(),
        _ => String::new(),
    }
}
fn value(depth: u32) -> Value {
    match choose(if depth > 0 { 8 } else { 6 }) {
        0 => Value::unit(),
        1 => boolean(u8_() & 1 == 1),
        2 => num(u8_() as i8 as i64),
        3 => num(Number::new(num_rational::BigRational::new(((below(8) as i64 - 4) * 2 + 1).into(), 8.into()))),
        4 => Value::string(string(1)),
        5 => Value::Literal(Literal::ByteString(bytes(choose(2) as usize))),
        6 => list((0..choose(3)).map(|i| if i == 0 { value(depth - 1) } else { s("y") }).collect()),
        _ => {
            let m = choose(4);
            let mut r = BTreeMap::new();
            if m > 0 {
                r.insert(if m == 1 { value(0) } else { Value::string(string(1)) }, if m == 1 { s("y") } else { value(depth - 1) });
            }
            if m == 3 {
                r.insert(s("zz"), Value::unit());
            }
            Value::Map(r)
        }
    }
}
fn json_able(v: &Value) -> bool {
    match v {
        Value::Literal(Literal::ByteString(_)) => false,
        Value::Literal(_) => true,
        Value::List(x) => x.iter().all(json_able),
        Value::Map(x) => x.iter().all(|(k, v)| k.as_str().is_some() && json_able(v)),
    }
}
/// Trees are written, and read again.
#[no_mangle]
extern "C" fn h_cl_tree(t: u64) {
    let json = choose(2) == 0;
    let f = if json { Tree::Json } else { Tree::Cbor };
    let pretty = json && flag();
    let v = value(if t > 0 { 2 } else { 1 });
    let mut out = vec![];
    match f.write_untyped(v.clone(), pretty, &mut out) {
        Ok(()) => {
            reach(1);
            check(!json || json_able(&v), 11);
            check(f.load(&out[..]).is_ok_and(|w| w == v), 12)
        }
        Err(_) => {
            reach(2);
            check(json && !json_able(&v), 11)
        }
    }
}
fn object() -> Term {
    let tag = || rdf_types::LiteralType::LangString(langtag::LangTagBuf::new(format!("{}n", chars_in(1, b'd', b'f'))).unwrap());
    match choose(5) {
        0 => iri(&format!("https://ex.org/{}", chars_in(1, b'a', b'z'))),
        1 => blank(&format!("_:{}", chars_in(1, b'a', b'z'))),
        2 => lit(&string(2), "string"),
        3 => lit(&string(1), "integer"),
        _ => Term::Literal(rdf_types::Literal::new(string(1), tag())),
    }
}
/// Datasets are written, and read again.
#[no_mangle]
extern "C" fn h_cl_rdf(t: u64) {
    let n = choose(if t > 0 { 3 } else { 2 }) + 1;
    let f = Rdf::NQuads;
    let d: Vec<Quad> = (0..n)
        .map(|i| {
            let s = [iri("https://ex.org/s"), blank("_:s")][if i > 0 { 0 } else { choose(2) } as usize].clone();
            let g = [None, Some(iri("https://ex.org/g")), Some(blank("_:g"))][if i > 0 { 0 } else { choose(3) } as usize].clone();
            let o = if i > 0 { lit(&ascii(1), "string") } else { object() };
            Quad(s, iri(&format!("https://ex.org/{}", if i > 0 { "p".into() } else { chars_in(1, b'o', b'q') })), o, g)
        })
        .collect();
    let mut out = vec![];
    check(f.write(d.clone(), &mut out).is_ok(), 13);
    match f.load(&out[..]) {
        Ok(r) => {
            reach(1);
            let want: BTreeDataset = d.into_iter().collect();
            check(r.iter().map(|q| q.into_cloned()).collect::<Vec<_>>() == want.iter().map(|q| q.into_cloned()).collect::<Vec<_>>(), 14)
        }
        Err(_) => {
            note(&String::from_utf8_lossy(&out));
            check(false, 15)
        }
    }
}
/// A tree becomes a dataset and is the same tree again, with a file in between each time.
#[no_mangle]
extern "C" fn h_cl_trip(t: u64) {
    const LAYOUT: &str = r#"{"type":"record","prefixes":{"e":"https://ex.org/"},"id":"https://ex.org/l","fields":{
        "id":{"value":{"layout":{"type":"id"},"input":"_:self"}},
        "s":{"value":{"id":"https://ex.org/str","type":"string"},"property":"e:s"},
        "n":{"value":{"type":"number","datatype":"http://www.w3.org/2001/XMLSchema#integer"},"property":"e:n"},
        "b":{"value":{"type":"boolean"},"property":"e:b"},
        "l":{"value":{"type":"list","node":"https://ex.org/str"},"property":"e:l"},
        "g":{"value":{"layout":{"type":"record","fields":{"x":{"value":"https://ex.org/str","property":"e:x"}}},"graph":"_:value"},"property":"e:g"}}}"#;
    let mut session = Session::default();
    let Outcome::Layout(r) = session.load(LAYOUT) else { return check(false, 4) };
    let ls = session.layouts;
    let (which, n) = (choose(6), choose(if t > 0 { 4 } else { 3 }));
    let mut m: BTreeMap<Value, Value> = BTreeMap::new();
    m.insert(s("id"), s(&format!("https://ex.org/{}", chars_in(1, b'a', b'b'))));
    let mut add = |k: &str, v| m.insert(s(k), v);
    if which == 0 || which > 4 {
        add("s", if which == 0 { Value::string(string(2)) } else { s("x") });
    }
    if which == 1 || which > 4 {
        add("n", num(if which == 1 { below(16) as i64 - 8 } else { 12 }));
    }
    if which == 2 || which > 4 {
        add("b", boolean(flag()));
    }
    if which == 3 || which > 4 {
        add("l", list((0..n).map(|i| Value::string(if i == 0 && which == 3 { string(1) } else { "y".into() })).collect()));
    }
    if which == 4 {
        add("g", map([("x", Value::string(ascii(1)))]));
    }
    let v = Value::Map(m);
    let Ok((d, i)) = distill::dehydrate(&ls, &v, &r, Default::default()) else { return check(false, 16) };
    let mut out = vec![];
    check(Rdf::NQuads.write(d, &mut out).is_ok(), 13);
    let Ok(d) = Rdf::NQuads.load(&out[..]) else { return check(false, 15) };
    let d = d.into_indexed();
    let Ok(i) = tool::term(&i[0].to_string().trim_matches(['<', '>'])) else { return check(false, 9) };
    let Ok(x) = distill::hydrate(&ls, &d, &r, &[i]) else { return check(false, 17) };
    let f = if choose(2) == 0 { Tree::Json } else { Tree::Cbor };
    let mut out = vec![];
    check(f.write_typed(&ls, x, false, &mut out).is_ok(), 18);
    reach(10 + which);
    check(f.load(&out[..]).is_ok_and(|w| w == v), 19)
}

entries!(h_cl_trip, h_cl_holes, h_cl_text, h_cl_files, h_cl_terms, h_cl_names, h_cl_tree, h_cl_rdf);
