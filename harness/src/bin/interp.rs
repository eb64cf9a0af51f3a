//! P19: the result does not depend on how resources are represented.
use harness::{refsem::{same_dataset, D}, tl::*, *};
use rdf_types::{
    interpretation::{IriInterpretationMut, LiteralInterpretationMut, ReverseIriInterpretation, ReverseIriInterpretationMut, ReverseLiteralInterpretation, ReverseLiteralInterpretationMut},
    vocabulary::{IndexVocabulary, IriIndex, IriVocabulary, IriVocabularyMut, LiteralIndex, LiteralVocabulary, LiteralVocabularyMut},
    Interpretation, InterpretationMut, LiteralType,
};
use treeldr_layouts::{abs::syntax::Layout as Doc, distill::RdfContextMut, Prelude, TypedLiteral};

type Lit = rdf_types::Literal;
type Voc = IndexVocabulary;

/// Resources are numbers, known by any number of terms of the vocabulary.
#[derive(Default)]
struct Sim(Vec<(Vec<IriIndex>, Vec<LiteralIndex>)>);

impl Interpretation for Sim {
    type Resource = usize;
}
impl<V> InterpretationMut<V> for Sim {
    fn new_resource(&mut self, _: &mut V) -> usize {
        self.0.push((vec![], vec![]));
        self.0.len() - 1
    }
}
impl IriInterpretationMut<IriIndex> for Sim {
    fn interpret_iri(&mut self, i: IriIndex) -> usize {
        match self.0.iter().position(|r| r.0.contains(&i)) {
            Some(r) => r,
            None => {
                self.0.push((vec![i], vec![]));
                self.0.len() - 1
            }
        }
    }
}
impl LiteralInterpretationMut<LiteralIndex> for Sim {
    fn interpret_literal(&mut self, l: LiteralIndex) -> usize {
        match self.0.iter().position(|r| r.1.contains(&l)) {
            Some(r) => r,
            None => {
                self.0.push((vec![], vec![l]));
                self.0.len() - 1
            }
        }
    }
}
impl ReverseIriInterpretation for Sim {
    type Iri = IriIndex;
    type Iris<'a> = std::slice::Iter<'a, IriIndex>;
    fn iris_of<'a>(&'a self, r: &'a usize) -> Self::Iris<'a> {
        self.0[*r].0.iter()
    }
}
impl ReverseLiteralInterpretation for Sim {
    type Literal = LiteralIndex;
    type Literals<'a> = std::slice::Iter<'a, LiteralIndex>;
    fn literals_of<'a>(&'a self, r: &'a usize) -> Self::Literals<'a> {
        self.0[*r].1.iter()
    }
}
impl ReverseIriInterpretationMut for Sim {
    fn assign_iri(&mut self, r: &usize, i: IriIndex) -> bool {
        !self.0[*r].0.contains(&i) && {
            self.0[*r].0.push(i);
            true
        }
    }
}
impl ReverseLiteralInterpretationMut for Sim {
    fn assign_literal(&mut self, r: &usize, l: LiteralIndex) -> bool {
        !self.0[*r].1.contains(&l) && {
            self.0[*r].1.push(l);
            true
        }
    }
}

#[derive(Default)]
struct World {
    voc: Voc,
    sim: Sim,
    blanks: Vec<(BlankIdBuf, usize)>,
}
impl World {
    fn lit(&mut self, l: &Lit) -> LiteralIndex {
        let ty = match &l.type_ {
            LiteralType::Any(i) => LiteralType::Any(self.voc.insert(i)),
            LiteralType::LangString(t) => LiteralType::LangString(t.clone()),
        };
        self.voc.insert_owned_literal(rdf_types::Literal::new(l.value.clone(), ty))
    }
    fn of(&mut self, t: &Term) -> usize {
        match t {
            Term::Id(Id::Iri(i)) => {
                let i = self.voc.insert(i);
                self.sim.interpret_iri(i)
            }
            Term::Literal(l) => {
                let l = self.lit(l);
                self.sim.interpret_literal(l)
            }
            Term::Id(Id::Blank(b)) => match self.blanks.iter().find(|(c, _)| b == c) {
                Some((_, r)) => *r,
                None => {
                    let r = self.sim.new_resource(&mut ());
                    self.blanks.push((b.clone(), r));
                    r
                }
            },
        }
    }
    fn quad(&mut self, q: &Quad) -> Quad<usize, usize, usize, usize> {
        Quad(self.of(&q.0), self.of(&q.1), self.of(&q.2), q.3.as_ref().map(|g| self.of(g)))
    }
    fn terms(&self, r: usize) -> Vec<Term> {
        let (iris, lits) = &self.sim.0[r];
        let mut out: Vec<Term> = iris.iter().map(|i| Term::iri(self.voc.iri(i).unwrap().to_owned())).collect();
        for l in lits {
            let l = self.voc.literal(l).unwrap();
            let ty = match l.type_ {
                rdf_types::LiteralTypeRef::Any(i) => LiteralType::Any(self.voc.iri(i).unwrap().to_owned()),
                rdf_types::LiteralTypeRef::LangString(t) => LiteralType::LangString(t.to_owned()),
            };
            out.push(Term::Literal(Lit::new(l.value.to_owned(), ty)))
        }
        out
    }
    /// The first term of a resource, or a blank node of its own.
    fn term(&self, r: usize) -> Term {
        self.terms(r).pop().unwrap_or_else(|| match self.blanks.iter().find(|(_, s)| r == *s) {
            Some((b, _)) => Term::blank(b.clone()),
            None => blank(&format!("_:r{r}")),
        })
    }
    fn doc(&mut self, src: &str) -> (Layouts<usize>, Ref<LayoutType, usize>) {
        let d: Doc = parse(src);
        let mut b = abs::Builder::new();
        let r = d.build_with_interpretation(&mut self.voc, &mut self.sim, &mut b).unwrap();
        (b.build(), r)
    }
    fn is<A, B>(&self, a: &Ref<A, usize>, b: &Ref<B>) -> bool {
        self.term(*a.id()) == *b.id()
    }
    /// Same tree, with the same layouts? The items of sets come in no particular order.
    fn same(&self, a: &TypedValue<usize>, b: &TypedValue) -> bool {
        use TypedLiteral as TL;
        match (a, b) {
            (TypedValue::Literal(a), TypedValue::Literal(b)) => match (a, b) {
                (TL::Unit(x, r), TL::Unit(y, s)) => x == y && self.is(r, s),
                (TL::Boolean(x, r), TL::Boolean(y, s)) => x == y && self.is(r, s),
                (TL::Number(x, r), TL::Number(y, s)) => x == y && self.is(r, s),
                (TL::TextString(x, r), TL::TextString(y, s)) => x == y && self.is(r, s),
                (TL::Id(x, r), TL::Id(y, s)) => x == y && self.is(r, s),
                _ => false,
            },
            (TypedValue::Variant(x, r, i), TypedValue::Variant(y, s, j)) => i == j && self.is(r, s) && self.same(x, y),
            (TypedValue::Map(x, r), TypedValue::Map(y, s)) => self.is(r, s) && x.len() == y.len() && x.iter().zip(y).all(|((k, u), (l, w))| k == l && self.same(u, w)),
            (TypedValue::List(x, r), TypedValue::List(y, s)) => self.is(r, s) && x.len() == y.len() && x.iter().zip(y).all(|(u, w)| self.same(u, w)),
            (TypedValue::Always(x), TypedValue::Always(y)) => x == y,
            _ => false,
        }
    }
}

fn ex(x: &str) -> Term {
    iri(&format!("https://ex.org/{x}"))
}
const HEAD: &str = r#""prefixes":{"ex":"https://ex.org/","xsd":"http://www.w3.org/2001/XMLSchema#"}"#;
const STR: &str = r#"{"id":"ex:str","type":"string"}"#;
const NUM: &str = r#"{"id":"ex:num","type":"number","datatype":"xsd:byte"}"#;
const BOOL: &str = r#"{"id":"ex:bool","type":"boolean"}"#;
const ID: &str = r#"{"id":"ex:id","type":"id"}"#;

/// A layout document of each kind.
fn source(k: u32) -> String {
    match k {
        0 => format!(
            r#"{{"id":"https://ex.org/rec","type":"record",{HEAD},"fields":{{
            "a":{{"value":{STR},"property":"ex:a","required":true}},
            "b":{{"value":{NUM},"property":"ex:b"}},
            "c":{{"value":{ID},"property":"ex:c"}},
            "d":{{"value":{BOOL},"property":"ex:d"}}}}}}"#
        ),
        1 => format!(
            r#"{{"id":"https://ex.org/sum","type":"sum",{HEAD},"dataset":[["_:self","ex:t","ex:T"]],"variants":{{
            "a":{{"intro":["x"],"dataset":[["_:self","ex:a","_:x"]],"value":{{"layout":{STR},"input":["_:x"]}}}},
            "b":{{"intro":["x"],"dataset":[["_:self","ex:a","_:x"]],"value":{{"layout":{NUM},"input":["_:x"]}}}},
            "c":{{"intro":["x"],"dataset":[["_:self","ex:c","_:x"]],"value":{{"layout":{ID},"input":["_:x"]}}}}}}}}"#
        ),
        2 => format!(r#"{{"id":"https://ex.org/set","type":"set",{HEAD},"item":{{"value":{STR},"property":"ex:a"}}}}"#),
        3 => format!(r#"{{"id":"https://ex.org/list","type":"list",{HEAD},"node":{{"value":{STR}}}}}"#),
        4 => format!(r#"{{"id":"https://ex.org/pair","type":"tuple",{HEAD},"items":[{{"value":{STR},"property":"ex:a"}},{{"value":{ID},"property":"ex:b"}}]}}"#),
        5 => {
            let leaf = format!(r#"{{"id":"ex:leaf","type":"record","fields":{{"v":{{"value":{STR},"property":"ex:v"}}}}}}"#);
            format!(
                r#"{{"id":"https://ex.org/graphs","type":"record",{HEAD},"fields":{{
                "a":{{"value":{{"layout":{leaf}}},"property":"ex:a"}},
                "b":{{"value":{{"layout":"ex:leaf","graph":null}},"property":"ex:b"}},
                "c":{{"value":{{"layout":"ex:leaf","graph":"ex:g"}},"property":"ex:c"}},
                "d":{{"intro":["o","g"],"value":{{"layout":"ex:leaf","input":["_:o"],"graph":"_:g"}},"dataset":[["_:self","ex:d","_:o"],["_:o","ex:in","_:g"]]}}}}}}"#
            )
        }
        6 => format!(r#"{{"id":"https://ex.org/unit","type":"unit",{HEAD},"const":"u","dataset":[["_:self","ex:a",{{"value":"x"}}],["_:self","ex:b",{{"value":"y","type":"xsd:byte"}}]]}}"#),
        7 => format!(r#"{{"id":"https://ex.org/top",{HEAD},"type":"string","intro":["x"],"resource":"_:x","dataset":[["_:self","ex:a","_:x"]]}}"#),
        _ => format!(r#"{{"id":"https://ex.org/top",{HEAD},"type":"number","datatype":"xsd:byte","intro":["x"],"resource":"_:x","dataset":[["_:self","ex:a","_:x"]]}}"#),
    }
}
const KINDS: u32 = 9;

/// One of a range of names.
fn pick(lo: char, hi: char) -> Term {
    ex(&((lo as u8 + choose(hi as u32 - lo as u32 + 1) as u8) as char).to_string())
}
fn object(k: u32) -> Term {
    match k {
        0 => lit(&ascii(1), "string"),
        1 => lit(&ascii(1), "byte"),
        2 => pick('n', 'o'),
        3 => lit(["true", "0", "x"][choose(3) as usize], "boolean"),
        4 => blank("_:x"),
        _ => Term::Literal(Lit::new(ascii(1), LiteralType::LangString(langtag::LangTagBuf::new("en".to_owned()).unwrap()))),
    }
}
fn rdf(x: &str) -> Term {
    iri(&format!("http://www.w3.org/1999/02/22-rdf-syntax-ns#{x}"))
}
fn graph(n: u32) -> Option<Term> {
    [None, Some(ex("h")), Some(ex("g")), Some(ex("i"))][choose(n) as usize].clone()
}
/// Data that may suit the layout of this kind.
fn data(k: u32, n: u32) -> Vec<Quad> {
    let me = ex("s");
    let mut d: Vec<Quad> = vec![];
    for i in 0..n {
        let (s, p, o) = match k {
            0 => (me.clone(), pick('a', 'd'), object(choose(if i == 0 { 6 } else { 3 }))),
            1 if i == 0 => (me.clone(), ex("t"), pick('T', 'U')),
            1 => (me.clone(), pick('a', 'c'), object(choose(3))),
            2 => (pick('s', 't'), ex("a"), object(choose(2))),
            3 => {
                let node = |k: u32| [me.clone(), ex("n"), rdf("nil")][k as usize].clone();
                let s = node(if i == 0 { 0 } else { choose(2) });
                d.push(Quad(s.clone(), rdf("first"), object(choose(2)), None));
                (s, rdf("rest"), node(choose(3)))
            }
            4 => (me.clone(), pick('a', 'b'), object(choose(if i == 0 { 4 } else { 1 }))),
            5 if i == 0 => (me.clone(), pick('a', 'd'), ex("n")),
            5 if choose(2) == 0 => (ex("n"), ex("in"), pick('g', 'i')),
            5 => (ex("n"), ex("v"), object(0)),
            6 => (me.clone(), pick('a', 'b'), [lit(&chars_in(1, b'w', b'y'), "string"), lit(&chars_in(1, b'x', b'y'), "byte"), ex("x")][choose(3) as usize].clone()),
            _ => (me.clone(), pick('a', 'b'), object(choose(6))),
        };
        let g = if k == 5 { graph(if i == 0 { 3 } else { 4 }) } else if n == 1 { graph(2) } else { None };
        d.push(Quad(s, p, o, g))
    }
    let mut u: Vec<Quad> = vec![];
    for q in d {
        if !u.contains(&q) {
            u.push(q)
        }
    }
    u
}

/// Reading.
fn reads(k: u32, n: u32) {
    let src = source(k);
    let (ls, r) = build(&src);
    let mut w = World::default();
    if choose(2) == 1 {
        // what is interpreted first does not matter
        for t in [ex("n"), lit("x", "byte"), ex("a"), ex("s"), ex("str"), iri(&format!("{XSD}byte"))] {
            w.of(&t);
        }
    }
    let (here, q) = w.doc(&src);
    let d = data(k, n);
    let g = if k < 1 || k == 5 || n == 1 { graph(2) } else { None };
    let want = distill::hy::hydrate_with(&(), &(), &ls, &Plain(d.clone()), g.as_ref(), &r, &[ex("s")]);
    let d = Plain(d.iter().map(|q| w.quad(q)).collect());
    let (me, g) = (w.of(&ex("s")), g.map(|g| w.of(&g)));
    let (ls, r) = (here, q);
    check(w.terms(*r.id()) == [src_id(k)], 1);
    let got = distill::hy::hydrate_with(&w.voc, &w.sim, &ls, &d, g.as_ref(), &r, &[me]);
    match (got, want) {
        (Ok(a), Ok(b)) => {
            reach(k);
            if k == 2 {
                let (TypedValue::List(a, r), TypedValue::List(b, s)) = (a, b) else { return check(false, 2) };
                check(w.is(&r, &s) && a.len() == b.len() && a.iter().all(|x| b.iter().filter(|y| w.same(x, y)).count() == a.iter().filter(|y| x == *y).count()), 3)
            } else {
                check(w.same(&a, &b), 4)
            }
        }
        (Err(_), Err(_)) => reach(20 + k),
        _ => check(false, 5),
    }
}
fn src_id(k: u32) -> Term {
    ex(["rec", "sum", "set", "list", "pair", "graphs", "unit", "top", "top"][k as usize])
}
#[no_mangle]
extern "C" fn h_in_read(t: u64) {
    let k = choose(KINDS);
    reads(k, 1 + choose(if t > 0 { 3 } else { 2 }))
}

fn leafv(k: u32) -> Value {
    match k {
        9 => s("other"),
        0 => s(&ascii(1)),
        1 => num([0u8, 7, 119][choose(3) as usize]),
        2 => s(&format!("https://ex.org/{}", chars_in(1, b'r', b's'))),
        3 => boolean(flag()),
        _ => Value::unit(),
    }
}
/// A tree that may conform to the layout of this kind.
fn tree(k: u32) -> Value {
    match k {
        0 => {
            let mut m = std::collections::BTreeMap::new();
            let has = choose(6);
            for (i, x) in ["a", "b", "c", "d"].iter().enumerate() {
                if has == 5 || has == i as u32 || (has == 4 && i != 2) {
                    m.insert(Value::string(x.to_string()), leafv(if has == i as u32 { choose(4) } else { [0, 1, 2, 3][i] }));
                }
            }
            Value::Map(m)
        }
        1 => leafv(choose(5)),
        2 | 3 | 4 => list((0..choose(4)).map(|i| leafv(if i == 0 { choose(3) } else if k == 4 { 2 } else { 9 * choose(2) })).collect()),
        5 => {
            let mut m = std::collections::BTreeMap::new();
            let has = choose(5);
            for (i, x) in ["a", "b", "c", "d"].iter().enumerate() {
                if has == 4 || has == i as u32 {
                    m.insert(Value::string(x.to_string()), map([("v", leafv(if has == 4 { 9 } else { 0 }))]));
                }
            }
            Value::Map(m)
        }
        6 => s(&chars_in(1, b't', b'u')),
        _ => leafv(choose(4)),
    }
}
/// Writing, about a new resource or one that has a name already.
#[no_mangle]
extern "C" fn h_in_write(_: u64) {
    let k = choose(KINDS);
    let src = source(k);
    let (ls, r) = build(&src);
    let mut w = World::default();
    let (here, q) = w.doc(&src);
    let v = tree(k);
    let want = dehy(&ls, &v, &r);
    let named = choose(2) == 1;
    let me = if named { w.of(&ex("s")) } else { w.sim.new_resource(&mut ()) };
    let (ls, r) = (here, q);
    let other = w.quad(&Quad(ex("o"), ex("o"), ex("o"), None));
    let mut out = rdf_types::dataset::BTreeDataset::new();
    out.insert(other);
    let got = distill::de::dehydrate_with(&mut RdfContextMut::new(&mut w.voc, &mut w.sim), &ls, &v, None, &r, &[me], &mut out);
    // each resource has one name
    let several = (0..w.sim.0.len()).any(|r| w.terms(r).len() > 1);
    match (got, want) {
        (Ok(()), Ok((d, mine))) => {
            reach(k);
            let mine = match &mine[0] {
                Term::Id(Id::Blank(_)) if named => ex("s"),
                t => {
                    check(!(named && *t != ex("s")) || several, 10);
                    if several {
                        return;
                    }
                    t.clone()
                }
            };
            check(!several, 11);
            let mut blanks: Vec<Term> = vec![];
            let mut name = |t: &Term| match t {
                Term::Id(Id::Blank(b)) if named && b.as_str() == "_:input0" => D::T(ex("s")),
                Term::Id(Id::Blank(_)) => D::V(blanks.iter().position(|u| u == t).unwrap_or_else(|| {
                    blanks.push(t.clone());
                    blanks.len() - 1
                })),
                _ => D::T(t.clone()),
            };
            let mut spec: Vec<[D; 4]> = vec![];
            let mut add = |q: [D; 4]| {
                if !spec.contains(&q) {
                    spec.push(q)
                }
            };
            for q in d.iter() {
                add([name(q.0), name(q.1), name(q.2), q.3.map(&mut name).unwrap_or(D::None)])
            }
            let z = || D::T(ex("o"));
            add([z(), z(), z(), D::None]);
            add([name(&mine), z(), z(), D::None]);
            let mut got: Vec<Quad> = vec![];
            for q in out.iter() {
                let q = Quad(w.term(*q.0), w.term(*q.1), w.term(*q.2), q.3.map(|g| w.term(*g)));
                if !got.contains(&q) {
                    got.push(q)
                }
            }
            got.push(Quad(w.term(me), ex("o"), ex("o"), None));
            check(same_dataset(&got, &spec, &[]), 12);
        }
        (Err(_), Err(_)) => {
            reach(20 + k);
            check(out.iter().count() == 1, 13);
            check(w.terms(me).len() == named as usize, 14)
        }
        // names clash
        (Ok(()), Err(_)) => {
            reach(40);
            check(several, 15)
        }
        _ => check(false, 16),
    }
}

/// Resources, and datatypes, with several names.
#[no_mangle]
extern "C" fn h_in_names(t: u64) {
    let k = choose(4);
    let src = format!(r#"{{"id":"https://ex.org/top",{HEAD},"type":"{}","intro":["x"],"resource":"_:x","dataset":[["_:self","ex:a","_:x"]]{}}}"#, ["string", "number", "boolean", "id"][k as usize], if k == 1 { r#","datatype":"xsd:byte""# } else { "" });
    let mut w = World::default();
    let (ls, r) = w.doc(&src);
    let me = w.of(&ex("s"));
    let o = w.sim.new_resource(&mut ());
    let p = w.of(&ex("a"));
    let mut names: Vec<Term> = vec![];
    for _ in 0..choose(if t > 0 { 4 } else { 3 }) {
        let n = match choose(5) {
            0 => ex(&chars_in(1, b'n', b'o')),
            1 => lit(&chars_in(1, b'0', b'2'), ["string", "byte", "boolean", "text"][k as usize]),
            2 => lit(&chars_in(1, b'0', b'1'), ["byte", "string", "string", "text"][k as usize]),
            3 => Term::Literal(Lit::new(chars_in(1, b'0', b'1'), LiteralType::Any("https://ex.org/alias".parse::<iref::IriBuf>().unwrap()))),
            _ => Term::Literal(Lit::new(chars_in(1, b'0', b'1'), LiteralType::LangString(langtag::LangTagBuf::new("en".to_owned()).unwrap()))),
        };
        if !names.contains(&n) {
            names.push(n)
        }
    }
    for n in &names {
        match n {
            Term::Id(Id::Iri(i)) => {
                let i = w.voc.insert(i);
                w.sim.assign_iri(&o, i);
            }
            Term::Literal(l) => {
                let l = w.lit(l);
                w.sim.assign_literal(&o, l);
            }
            _ => (),
        }
    }
    // another name of the datatype
    let alias = k == 0 && choose(2) == 1;
    if alias {
        let ty = w.of(&iri(&format!("{XSD}string")));
        let i = w.voc.insert(&"https://ex.org/alias".parse::<iref::IriBuf>().unwrap());
        w.sim.assign_iri(&ty, i);
    }
    let got = distill::hy::hydrate_with(&w.voc, &w.sim, &ls, &Plain(vec![Quad(me, p, o, None)]), None, &r, &[me]).map(|v| v.into_untyped());
    let mut want: Vec<Value> = vec![];
    let mut bad = false;
    for n in &names {
        match n {
            Term::Id(Id::Iri(i)) if k == 3 => want.push(s(i)),
            Term::Literal(l) if k < 3 => {
                let LiteralType::Any(ty) = &l.type_ else { continue };
                if ty == ["string", "byte", "boolean"].map(|x| format!("{XSD}{x}"))[k as usize].as_str() || (alias && ty == "https://ex.org/alias") {
                    match k {
                        0 => want.push(s(&l.value)),
                        1 => want.push(num(l.value.as_bytes()[0] - b'0')),
                        _ => match l.value.as_str() {
                            "0" => want.push(boolean(false)),
                            "1" => want.push(boolean(true)),
                            _ => bad = true,
                        },
                    }
                }
            }
            _ => (),
        }
    }
    match got {
        Ok(v) => {
            reach(k);
            check(!bad && want.len() == 1 && v == want[0], 20)
        }
        Err(_) => {
            reach(10 + k);
            check(bad || want.len() != 1, 21)
        }
    }
}

/// The prelude, in any interpretation.
#[no_mangle]
extern "C" fn h_in_prelude(_: u64) {
    let mut w = World::default();
    if choose(2) == 1 {
        w.of(&lit("x", "string"));
        w.of(&blank("_:x"));
    }
    let here = Prelude::build_with(&mut w.voc, &mut w.sim);
    let there = Prelude::build();
    check(here.iter().count() == 12 && there.iter().count() == 12, 30);
    let names = ["unit", "boolean", "string", "id", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"];
    let x = names[choose(12) as usize];
    let name = iri(&format!("https://treeldr.org/prelude#{x}"));
    let r = Ref::<LayoutType>::new(name.clone());
    let i = w.of(&name);
    let q = Ref::<LayoutType, usize>::new(i);
    check(there.layout(&name).is_some() && here.layout(&i).is_some(), 31);
    let t = object(choose(6));
    let me = w.of(&t);
    let none: Vec<Quad> = vec![];
    let a = distill::hy::hydrate_with(&w.voc, &w.sim, &here, &Plain(vec![]), None, &q, &[me]);
    let b = distill::hy::hydrate_with(&(), &(), &there, &Plain(none), None, &r, &[t]);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            reach(1);
            check(w.same(&a, &b), 32)
        }
        (Err(_), Err(_)) => reach(2),
        _ => check(false, 33),
    }
}

entries!(h_in_read, h_in_write, h_in_names, h_in_prelude);
