//! P16, P17: the Rust run-time types and the derived (de)serializers, against the layouts they denote.
use harness::{tl::*, *};
use iref::IriBuf;
use rdf_types::{
    interpretation::{
        BlankIdInterpretation, BlankIdInterpretationMut, IriInterpretation, IriInterpretationMut, LiteralInterpretation,
        LiteralInterpretationMut, ReverseBlankIdInterpretation, ReverseBlankIdInterpretationMut, ReverseIriInterpretation,
        ReverseIriInterpretationMut, ReverseLiteralInterpretation, ReverseLiteralInterpretationMut,
    },
    Interpretation, InterpretationMut,
};
use treeldr::{DeserializeError, DeserializeLd, RdfContext, RdfContextMut, SerializeLd};

type Lit = rdf_types::Literal;

// ---- a plain interpretation --------------------------------------------------------------------

#[derive(Default)]
struct Names {
    iris: Vec<IriBuf>,
    blanks: Vec<BlankIdBuf>,
    lits: Vec<Lit>,
}
/// Resources are numbers, with any number of names.
#[derive(Default)]
struct Sim {
    names: Vec<Names>,
    by_term: Vec<(Term, usize)>,
}
impl Sim {
    fn fresh(&mut self) -> usize {
        self.names.push(Names::default());
        self.names.len() - 1
    }
    fn find(&self, t: &Term) -> Option<usize> {
        self.by_term.iter().find(|(u, _)| u == t).map(|(_, r)| *r)
    }
    fn get(&mut self, t: Term) -> usize {
        match self.find(&t) {
            Some(r) => r,
            None => {
                let r = self.fresh();
                self.name(r, t.clone());
                self.by_term.push((t, r));
                r
            }
        }
    }
    fn name(&mut self, r: usize, t: Term) -> bool {
        let n = &mut self.names[r];
        match t {
            Term::Id(Id::Iri(i)) => !n.iris.contains(&i) && { n.iris.push(i); true },
            Term::Id(Id::Blank(b)) => !n.blanks.contains(&b) && { n.blanks.push(b); true },
            Term::Literal(l) => !n.lits.contains(&l) && { n.lits.push(l); true },
        }
    }
    /// The only name of a resource, or a blank node of its own.
    fn term(&self, r: usize) -> Term {
        let n = &self.names[r];
        check(n.iris.len() + n.blanks.len() + n.lits.len() <= 1, 90);
        if let Some(i) = n.iris.first() {
            return Term::iri(i.clone());
        }
        if let Some(l) = n.lits.first() {
            return Term::Literal(l.clone());
        }
        match n.blanks.first() {
            Some(b) => Term::blank(b.clone()),
            None => blank(&format!("_:r{r}")),
        }
    }
}
impl Interpretation for Sim {
    type Resource = usize;
}
impl InterpretationMut<()> for Sim {
    fn new_resource(&mut self, _: &mut ()) -> usize {
        self.fresh()
    }
}
impl IriInterpretation<IriBuf> for Sim {
    fn iri_interpretation(&self, i: &IriBuf) -> Option<usize> {
        self.find(&Term::iri(i.clone()))
    }
}
impl IriInterpretationMut<IriBuf> for Sim {
    fn interpret_iri(&mut self, i: IriBuf) -> usize {
        self.get(Term::iri(i))
    }
}
impl BlankIdInterpretation<BlankIdBuf> for Sim {
    fn blank_id_interpretation(&self, b: &BlankIdBuf) -> Option<usize> {
        self.find(&Term::blank(b.clone()))
    }
}
impl BlankIdInterpretationMut<BlankIdBuf> for Sim {
    fn interpret_blank_id(&mut self, b: BlankIdBuf) -> usize {
        self.get(Term::blank(b))
    }
}
impl LiteralInterpretation<Lit> for Sim {
    fn literal_interpretation(&self, l: &Lit) -> Option<usize> {
        self.find(&Term::Literal(l.clone()))
    }
}
impl LiteralInterpretationMut<Lit> for Sim {
    fn interpret_literal(&mut self, l: Lit) -> usize {
        self.get(Term::Literal(l))
    }
}
impl ReverseIriInterpretation for Sim {
    type Iri = IriBuf;
    type Iris<'a> = std::slice::Iter<'a, IriBuf>;
    fn iris_of<'a>(&'a self, r: &'a usize) -> Self::Iris<'a> {
        self.names[*r].iris.iter()
    }
}
impl ReverseBlankIdInterpretation for Sim {
    type BlankId = BlankIdBuf;
    type BlankIds<'a> = std::slice::Iter<'a, BlankIdBuf>;
    fn blank_ids_of<'a>(&'a self, r: &'a usize) -> Self::BlankIds<'a> {
        self.names[*r].blanks.iter()
    }
}
impl ReverseLiteralInterpretation for Sim {
    type Literal = Lit;
    type Literals<'a> = std::slice::Iter<'a, Lit>;
    fn literals_of<'a>(&'a self, r: &'a usize) -> Self::Literals<'a> {
        self.names[*r].lits.iter()
    }
}
impl ReverseIriInterpretationMut for Sim {
    fn assign_iri(&mut self, r: &usize, i: IriBuf) -> bool {
        self.name(*r, Term::iri(i))
    }
}
impl ReverseBlankIdInterpretationMut for Sim {
    fn assign_blank_id(&mut self, r: &usize, b: BlankIdBuf) -> bool {
        self.name(*r, Term::blank(b))
    }
}
impl ReverseLiteralInterpretationMut for Sim {
    fn assign_literal(&mut self, r: &usize, l: Lit) -> bool {
        self.name(*r, Term::Literal(l))
    }
}

// ---- running the code under test ---------------------------------------------------------------

/// What `v` writes about a fresh subject, in the given graph.
fn write<T: SerializeLd<1, (), Sim>>(v: &T, graph: Option<&Term>) -> (Vec<Quad>, Term) {
    let mut sim = Sim::default();
    let g = graph.map(|g| sim.get(g.clone()));
    let me = sim.fresh();
    let mut out = BTreeDataset::new();
    let ok = v.serialize_ld_with(&mut RdfContextMut::new(&mut (), &mut sim), &[me], g.as_ref(), &mut out).is_ok();
    check(ok, 91);
    let mut d: Vec<Quad> = vec![];
    for q in out.iter() {
        let q = Quad(sim.term(*q.0), sim.term(*q.1), sim.term(*q.2), q.3.map(|g| sim.term(*g)));
        if !d.contains(&q) {
            d.push(q)
        }
    }
    (d, sim.term(me))
}
fn read<T: DeserializeLd<1, (), ()>>(d: &[Quad], graph: Option<&Term>, me: &Term) -> Result<T, DeserializeError> {
    T::deserialize_ld_with(RdfContext::new(&(), &()), &Plain(d.to_vec()), graph, &[me.clone()])
}
/// Reads in an interpretation that only knows the terms of the dataset.
fn read_known<T: DeserializeLd<1, (), Sim>>(d: &[Quad], graph: Option<&Term>, me: &Term) -> Result<T, DeserializeError> {
    let mut sim = Sim::default();
    let me = sim.get(me.clone());
    let g = graph.map(|g| sim.get(g.clone()));
    let d = d
        .iter()
        .map(|q| Quad(sim.get(q.0.clone()), sim.get(q.1.clone()), sim.get(q.2.clone()), q.3.as_ref().map(|g| sim.get(g.clone()))))
        .collect();
    T::deserialize_ld_with(RdfContext::new(&(), &sim), &Plain(d), g.as_ref(), &[me])
}
fn interpret(l: &(Layouts, Ref<LayoutType>), d: &[Quad], graph: Option<&Term>, me: &Term) -> Option<Value> {
    distill::hy::hydrate_with(&(), &(), &l.0, &Plain(d.to_vec()), graph, &l.1.clone(), &[me.clone()]).ok().map(|v| v.into_untyped())
}

/// A derived type, the tree it denotes and the layout it derives.
trait Tree: SerializeLd<1, (), Sim> + DeserializeLd<1, (), Sim> + DeserializeLd<1, (), ()> {
    const LAYOUT: &'static str;
    /// Can the layout tell how to write the tree?
    const WRITES: bool = true;
    fn tree(&self) -> Value;
}
fn ex(x: &str) -> Term {
    iri(&format!("https://ex.org/{x}"))
}
fn layout<T: Tree>() -> (Layouts, Ref<LayoutType>) {
    let mut x = T::LAYOUT.to_owned();
    for (k, l) in [("LEAF", Leaf::LAYOUT), ("SET", Set::LAYOUT), ("LIST", List::LAYOUT), ("SUM", Sum::LAYOUT), ("PAIR", Pair::LAYOUT), ("BOOL", Bool::LAYOUT)] {
        if x.contains(k) {
            x = x.replace(k, &l.replace(",PFX", ""))
        }
    }
    build(&x.replace("PFX", r#""prefixes":{"ex":"https://ex.org/","xsd":"http://www.w3.org/2001/XMLSchema#"}"#))
}
fn maybe_graph() -> Option<Term> {
    if choose(2) == 1 { Some(ex("h")) } else { None }
}

/// Write, and read back with the derived reader and with the layout; read what the layout writes.
fn there_and_back<T: Tree>(v: T) {
    let l = layout::<T>();
    let g = maybe_graph();
    let (d, me) = write(&v, g.as_ref());
    let tree = v.tree();
    match read::<T>(&d, g.as_ref(), &me) {
        Ok(w) => check(w.tree() == tree, 1),
        Err(_) => check(false, 2),
    }
    match read_known::<T>(&d, g.as_ref(), &me) {
        Ok(w) => check(w.tree() == tree, 3),
        Err(_) => check(false, 4),
    }
    check(interpret(&l, &d, g.as_ref(), &me) == Some(tree.clone()), 5);
    if g.is_none() && T::WRITES {
        match dehy(&l.0, &tree, &l.1) {
            Ok((d, me)) => {
                let d: Vec<Quad> = d.iter().map(|q| q.into_cloned()).collect();
                match read::<T>(&d, None, &me[0]) {
                    Ok(w) => check(w.tree() == tree, 6),
                    Err(_) => check(false, 7),
                }
            }
            Err(_) => check(false, 8),
        }
    }
    reach(1);
}
/// Read any dataset with the derived reader and with the layout.
fn agree<T: Tree>(d: Vec<Quad>, g: Option<Term>, me: Term) {
    let l = layout::<T>();
    let mut u: Vec<Quad> = vec![];
    for q in d {
        if !u.contains(&q) {
            u.push(q)
        }
    }
    let a = read::<T>(&u, g.as_ref(), &me).ok().map(|v| v.tree());
    let k = read_known::<T>(&u, g.as_ref(), &me).ok().map(|v| v.tree());
    match interpret(&l, &u, g.as_ref(), &me) {
        Some(b) => {
            reach(2);
            check(a == Some(b.clone()), 10);
            check(k == Some(b), 11);
        }
        None => {
            reach(3);
            check(a.is_none(), 12);
            check(k.is_none(), 13);
        }
    }
}

// ---- derived types -----------------------------------------------------------------------------

fn opt<const N: usize>(x: [(&str, Option<Value>); N]) -> Value {
    Value::Map(x.into_iter().filter_map(|(k, v)| v.map(|v| (s(k), v))).collect())
}
fn variant(n: &str, v: Value) -> Value {
    map([(n, v)])
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/"))]
struct Leaf {
    #[tldr("ex:v")]
    v: String,
}
impl Tree for Leaf {
    const LAYOUT: &'static str = r#"{"type":"record",PFX,"fields":{"v":{"property":"ex:v","value":{"type":"string"},"required":true}}}"#;
    fn tree(&self) -> Value {
        map([("v", s(&self.v))])
    }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/"))]
struct Rec {
    #[tldr("ex:a")]
    a: String,
    #[tldr("ex:b")]
    b: Option<String>,
    #[tldr("ex:c")]
    c: Option<i8>,
}
impl Tree for Rec {
    const LAYOUT: &'static str = r#"{"type":"record",PFX,"fields":{
        "a":{"property":"ex:a","value":{"type":"string"},"required":true},
        "b":{"property":"ex:b","value":{"type":"string"}},
        "c":{"property":"ex:c","value":{"type":"number","datatype":"xsd:byte"}}}}"#;
    fn tree(&self) -> Value {
        opt([("a", Some(s(&self.a))), ("b", self.b.as_ref().map(|x| s(x))), ("c", self.c.map(num))])
    }
}

/// Variants told apart by the property, and by the value.
#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/"))]
enum Sum {
    #[tldr(intro("x"), input("_:x"), dataset(("_:self", "ex:a", "_:x")))]
    A(String),
    #[tldr(intro("x"), input("_:x"), dataset(("_:self", "ex:a", "_:x")))]
    B(u8),
    #[tldr(intro("x"), input("_:x"), dataset(("_:self", "ex:b", "_:x")))]
    C(Leaf),
}
impl Tree for Sum {
    const LAYOUT: &'static str = r#"{"type":"sum",PFX,"variants":{
        "A":{"intro":["x"],"dataset":[["_:self","ex:a","_:x"]],"value":{"layout":{"type":"string"},"input":["_:x"]}},
        "B":{"intro":["x"],"dataset":[["_:self","ex:a","_:x"]],"value":{"layout":{"type":"number","datatype":"xsd:unsignedByte"},"input":["_:x"]}},
        "C":{"intro":["x"],"dataset":[["_:self","ex:b","_:x"]],"value":{"layout":{"type":"record","fields":{"v":{"property":"ex:v","value":{"type":"string"},"required":true}}},"input":["_:x"]}}}}"#;
    fn tree(&self) -> Value {
        // the tree of a variant is the tree of its value
        match self {
            Self::A(x) => s(x),
            Self::B(x) => num(*x),
            Self::C(x) => x.tree(),
        }
    }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set, prefix("ex" = "https://ex.org/"))]
struct Set(#[tldr("ex:a")] Vec<String>);
impl Tree for Set {
    const LAYOUT: &'static str = r#"{"type":"set",PFX,"item":{"property":"ex:a","value":{"type":"string"}}}"#;
    fn tree(&self) -> Value {
        let mut x: Vec<Value> = self.0.iter().map(|x| s(x)).collect();
        x.sort();
        list(x)
    }
}
#[derive(SerializeLd, DeserializeLd)]
#[tldr(set, prefix("ex" = "https://ex.org/"))]
struct SetOfLeaves(#[tldr("ex:a")] Vec<Leaf>);
impl Tree for SetOfLeaves {
    const LAYOUT: &'static str = r#"{"type":"set",PFX,"item":{"property":"ex:a","value":{"type":"record","fields":{"v":{"property":"ex:v","value":{"type":"string"},"required":true}}}}}"#;
    fn tree(&self) -> Value {
        let mut x: Vec<Value> = self.0.iter().map(|x| x.tree()).collect();
        x.sort();
        list(x)
    }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list)]
struct List(Vec<String>);
impl Tree for List {
    const LAYOUT: &'static str = r#"{"type":"list",PFX,"node":{"value":{"type":"string"}}}"#;
    fn tree(&self) -> Value {
        list(self.0.iter().map(|x| s(x)).collect())
    }
}
/// A list with its own node shape, ends and a common owner.
#[derive(SerializeLd, DeserializeLd)]
#[tldr(list, prefix("ex" = "https://ex.org/"), intro("first"), dataset(("_:self", "ex:items", "_:first")), head("_:first"), tail("ex:end"))]
struct Chain(
    #[tldr(head("h"), rest("t"), intro("x"), input("_:x"), dataset(("_:h", "ex:val", "_:x"), ("_:h", "ex:next", "_:t"), ("_:h", "ex:of", "_:self")))]
    Vec<u8>,
);
impl Tree for Chain {
    const LAYOUT: &'static str = r#"{"type":"list",PFX,"intro":["first"],"dataset":[["_:self","ex:items","_:first"]],"head":"_:first","tail":"ex:end",
        "node":{"head":"h","rest":"t","intro":["x"],"dataset":[["_:h","ex:val","_:x"],["_:h","ex:next","_:t"],["_:h","ex:of","_:self"]],
        "value":{"layout":{"type":"number","datatype":"xsd:unsignedByte"},"input":["_:x"]}}}"#;
    fn tree(&self) -> Value {
        list(self.0.iter().map(|x| num(*x)).collect())
    }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/"))]
struct Pair(#[tldr("ex:a")] String, #[tldr("ex:b")] i16);
impl Tree for Pair {
    const LAYOUT: &'static str = r#"{"type":"tuple",PFX,"items":[{"property":"ex:a","value":{"type":"string"}},{"property":"ex:b","value":{"type":"number","datatype":"xsd:short"}}]}"#;
    fn tree(&self) -> Value {
        list(vec![s(&self.0), num(self.1)])
    }
}
#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/"))]
struct One(#[tldr("ex:a")] String);
impl Tree for One {
    const LAYOUT: &'static str = r#"{"type":"tuple",PFX,"items":[{"property":"ex:a","value":{"type":"string"}}]}"#;
    fn tree(&self) -> Value {
        list(vec![s(&self.0)])
    }
}

/// Fields whose values live in the current graph, the default graph, a given one and one named in the data.
#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/"))]
struct Graphs {
    #[tldr("ex:keep")]
    keep: Option<Leaf>,
    #[tldr("ex:none", graph(None))]
    none: Option<Leaf>,
    #[tldr("ex:some", graph(Some("ex:g")))]
    some: Option<Leaf>,
    #[tldr(intro("x", "g"), input("_:x"), dataset(("_:self", "ex:var", "_:x"), ("_:x", "ex:in", "_:g", "ex:meta")), graph(Some("_:g")))]
    var: Option<Leaf>,
}
impl Tree for Graphs {
    const LAYOUT: &'static str = r#"{"type":"record",PFX,"fields":{
        "keep":{"property":"ex:keep","value":{"layout":LEAF,"input":["_:value"]}},
        "none":{"property":"ex:none","value":{"layout":LEAF,"input":["_:value"],"graph":null}},
        "some":{"property":"ex:some","value":{"layout":LEAF,"input":["_:value"],"graph":"ex:g"}},
        "var":{"intro":["x","g"],"dataset":[["_:self","ex:var","_:x"],["_:x","ex:in","_:g","ex:meta"]],"value":{"layout":LEAF,"input":["_:x"],"graph":"_:g"}}}}"#;
    fn tree(&self) -> Value {
        opt([
            ("keep", self.keep.as_ref().map(Tree::tree)),
            ("none", self.none.as_ref().map(Tree::tree)),
            ("some", self.some.as_ref().map(Tree::tree)),
            ("var", self.var.as_ref().map(Tree::tree)),
        ])
    }
}

/// Variants, items and nodes whose values live in other graphs.
#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/"))]
enum GraphSum {
    #[tldr(intro("x"), input("_:x"), dataset(("_:self", "ex:keep", "_:x")))]
    Keep(Leaf),
    #[tldr(intro("x"), input("_:x"), dataset(("_:self", "ex:none", "_:x")), graph(None))]
    None(Leaf),
    #[tldr(intro("x"), input("_:x"), dataset(("_:self", "ex:some", "_:x")), graph(Some("ex:g")))]
    Some(Leaf),
    #[tldr(intro("x", "g"), input("_:x"), dataset(("_:self", "ex:var", "_:x"), ("_:x", "ex:in", "_:g")), graph(Some("_:g")))]
    Var(Leaf),
}
impl Tree for GraphSum {
    const WRITES: bool = false; // the variants have the same value
    const LAYOUT: &'static str = r#"{"type":"sum",PFX,"variants":{
        "Keep":{"intro":["x"],"dataset":[["_:self","ex:keep","_:x"]],"value":{"layout":LEAF,"input":["_:x"]}},
        "None":{"intro":["x"],"dataset":[["_:self","ex:none","_:x"]],"value":{"layout":LEAF,"input":["_:x"],"graph":null}},
        "Some":{"intro":["x"],"dataset":[["_:self","ex:some","_:x"]],"value":{"layout":LEAF,"input":["_:x"],"graph":"ex:g"}},
        "Var":{"intro":["x","g"],"dataset":[["_:self","ex:var","_:x"],["_:x","ex:in","_:g"]],"value":{"layout":LEAF,"input":["_:x"],"graph":"_:g"}}}}"#;
    fn tree(&self) -> Value {
        match self {
            Self::Keep(x) | Self::None(x) | Self::Some(x) | Self::Var(x) => x.tree(),
        }
    }
}
#[derive(SerializeLd, DeserializeLd)]
#[tldr(set, prefix("ex" = "https://ex.org/"))]
struct GraphSet(#[tldr("ex:some", graph(Some("ex:g")))] Vec<Leaf>);
impl Tree for GraphSet {
    const LAYOUT: &'static str = r#"{"type":"set",PFX,"item":{"property":"ex:some","value":{"layout":LEAF,"input":["_:value"],"graph":"ex:g"}}}"#;
    fn tree(&self) -> Value {
        let mut x: Vec<Value> = self.0.iter().map(|x| x.tree()).collect();
        x.sort();
        list(x)
    }
}
#[derive(SerializeLd, DeserializeLd)]
#[tldr(list, prefix("ex" = "https://ex.org/"))]
struct GraphList(#[tldr(intro("x"), input("_:x"), dataset(("_:head", "ex:some", "_:x"), ("_:head", "ex:next", "_:rest")), graph(Some("ex:g")))] Vec<Leaf>);
impl Tree for GraphList {
    const LAYOUT: &'static str = r#"{"type":"list",PFX,"node":{"intro":["x"],"dataset":[["_:head","ex:some","_:x"],["_:head","ex:next","_:rest"]],"value":{"layout":LEAF,"input":["_:x"],"graph":"ex:g"}}}"#;
    fn tree(&self) -> Value {
        list(self.0.iter().map(|x| x.tree()).collect())
    }
}
#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/"))]
struct GraphPair(#[tldr("ex:some", graph(Some("ex:g")))] Leaf, #[tldr("ex:none", graph(None))] Leaf);
impl Tree for GraphPair {
    const LAYOUT: &'static str = r#"{"type":"tuple",PFX,"items":[{"property":"ex:some","value":{"layout":LEAF,"input":["_:value"],"graph":"ex:g"}},{"property":"ex:none","value":{"layout":LEAF,"input":["_:value"],"graph":null}}]}"#;
    fn tree(&self) -> Value {
        list(vec![self.0.tree(), self.1.tree()])
    }
}

// literal layouts with data of their own
#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/"), dataset(("_:self", "ex:is", "ex:unit")))]
struct Unit;
impl Tree for Unit {
    const LAYOUT: &'static str = r#"{"type":"unit",PFX,"dataset":[["_:self","ex:is","ex:unit"]]}"#;
    fn tree(&self) -> Value {
        Value::unit()
    }
}
#[derive(SerializeLd, DeserializeLd)]
#[tldr(boolean, prefix("ex" = "https://ex.org/"), intro("x"), dataset(("_:self", "ex:v", "_:x")), resource("_:x"))]
struct Bool(bool);
impl Tree for Bool {
    const LAYOUT: &'static str = r#"{"type":"boolean",PFX,"intro":["x"],"dataset":[["_:self","ex:v","_:x"]],"resource":"_:x"}"#;
    fn tree(&self) -> Value {
        boolean(self.0)
    }
}
#[derive(SerializeLd, DeserializeLd)]
#[tldr(number, prefix("ex" = "https://ex.org/", "xsd" = "http://www.w3.org/2001/XMLSchema#"), intro("x"), dataset(("_:self", "ex:v", "_:x")), resource("_:x"), datatype("xsd:short"))]
struct Short(i16);
impl Tree for Short {
    const LAYOUT: &'static str = r#"{"type":"number",PFX,"intro":["x"],"dataset":[["_:self","ex:v","_:x"]],"resource":"_:x","datatype":"xsd:short"}"#;
    fn tree(&self) -> Value {
        num(self.0)
    }
}
#[derive(SerializeLd, DeserializeLd)]
#[tldr(string, prefix("ex" = "https://ex.org/"), intro("x"), dataset(("_:self", "ex:v", "_:x")), resource("_:x"), datatype("ex:text"))]
struct Text(String);
impl Tree for Text {
    const LAYOUT: &'static str = r#"{"type":"string",PFX,"intro":["x"],"dataset":[["_:self","ex:v","_:x"]],"resource":"_:x","datatype":"ex:text"}"#;
    fn tree(&self) -> Value {
        s(&self.0)
    }
}
#[derive(SerializeLd, DeserializeLd)]
#[tldr(id, prefix("ex" = "https://ex.org/"), intro("x"), dataset(("_:self", "ex:v", "_:x")), resource("_:x"))]
struct Link(rdf_types::Id);
impl treeldr::AsId for Link {
    fn as_id(&self) -> rdf_types::Id<&iref::Iri, &rdf_types::BlankId> {
        self.0.as_lexical_id_ref()
    }
}
impl Tree for Link {
    const LAYOUT: &'static str = r#"{"type":"id",PFX,"intro":["x"],"dataset":[["_:self","ex:v","_:x"]],"resource":"_:x"}"#;
    fn tree(&self) -> Value {
        s(&self.0.to_string())
    }
}

/// A record with an identified subject that owns values of every other kind.
#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/"))]
struct All {
    #[tldr(input("_:self"))]
    id: SelfId,
    #[tldr("ex:set")]
    set: Option<Set>,
    #[tldr("ex:list")]
    list: Option<List>,
    #[tldr("ex:sum")]
    sum: Option<Sum>,
    #[tldr("ex:pair")]
    pair: Option<Pair>,
    #[tldr("ex:bool")]
    bool: Option<Bool>,
}
#[derive(SerializeLd, DeserializeLd)]
#[tldr(id)]
struct SelfId(rdf_types::Id);
impl treeldr::AsId for SelfId {
    fn as_id(&self) -> rdf_types::Id<&iref::Iri, &rdf_types::BlankId> {
        self.0.as_lexical_id_ref()
    }
}
impl Tree for All {
    const LAYOUT: &'static str = r#"{"type":"record",PFX,"fields":{
        "id":{"intro":[],"value":{"layout":{"type":"id"},"input":["_:self"]},"required":true},
        "set":{"property":"ex:set","value":SET},
        "list":{"property":"ex:list","value":LIST},
        "sum":{"property":"ex:sum","value":SUM},
        "pair":{"property":"ex:pair","value":PAIR},
        "bool":{"property":"ex:bool","value":BOOL}}}"#;
    fn tree(&self) -> Value {
        opt([
            ("id", Some(s(&self.id.0.to_string()))),
            ("set", self.set.as_ref().map(Tree::tree)),
            ("list", self.list.as_ref().map(Tree::tree)),
            ("sum", self.sum.as_ref().map(Tree::tree)),
            ("pair", self.pair.as_ref().map(Tree::tree)),
            ("bool", self.bool.as_ref().map(Tree::tree)),
        ])
    }
}

// ---- P17: writing and reading back --------------------------------------------------------------

fn leaf(n: usize) -> Leaf {
    Leaf { v: ascii(n) }
}
/// The middle and the ends of the 16-bit integers.
fn short() -> i16 {
    [-128i16, 0, i16::MIN, i16::MAX - 255][choose(4) as usize] + u8_() as i16
}
#[no_mangle]
extern "C" fn h_dv_record(t: u64) {
    let n = if t > 0 { 2 } else { 1 };
    let v = Rec {
        a: ascii(n),
        b: if choose(2) == 1 { Some(ascii(n)) } else { None },
        c: if choose(2) == 1 { Some(u8_() as i8) } else { None },
    };
    there_and_back(v)
}
#[no_mangle]
extern "C" fn h_dv_sum(t: u64) {
    let n = if t > 0 { 2 } else { 1 };
    let k = choose(3);
    reach(10 + k);
    there_and_back(match k {
        0 => Sum::A(ascii(n)),
        1 => Sum::B(u8_()),
        _ => Sum::C(leaf(n)),
    })
}
#[no_mangle]
extern "C" fn h_dv_set(t: u64) {
    let n = choose(if t > 0 { 4 } else { 3 });
    if choose(2) == 0 {
        // equal values of a set are one
        let v: Vec<String> = (0..n).map(|_| ascii(1)).collect();
        for i in 0..v.len() {
            for j in 0..i {
                assume(v[i] != v[j])
            }
        }
        reach(10);
        there_and_back(Set(v))
    } else {
        reach(11);
        there_and_back(SetOfLeaves((0..n).map(|_| leaf(1)).collect()))
    }
}
#[no_mangle]
extern "C" fn h_dv_list(t: u64) {
    let n = choose(if t > 0 { 4 } else { 3 });
    if choose(2) == 0 {
        reach(10);
        there_and_back(List((0..n).map(|_| ascii(1)).collect()))
    } else {
        reach(11);
        there_and_back(Chain((0..n).map(|_| u8_()).collect()))
    }
}
#[no_mangle]
extern "C" fn h_dv_tuple(t: u64) {
    let n = if t > 0 { 2 } else { 1 };
    if choose(2) == 0 {
        there_and_back(Pair(ascii(n), short()))
    } else {
        there_and_back(One(ascii(n)))
    }
}
#[no_mangle]
extern "C" fn h_dv_graphs(t: u64) {
    let n = if t > 0 { 2 } else { 1 };
    let f = || if choose(2) == 1 { Some(leaf(n)) } else { None };
    let k = choose(8);
    reach(10 + k);
    match k {
        0 => return there_and_back(GraphSum::Keep(leaf(n))),
        1 => return there_and_back(GraphSum::None(leaf(n))),
        2 => return there_and_back(GraphSum::Some(leaf(n))),
        3 => return there_and_back(GraphSum::Var(leaf(n))),
        4 => return there_and_back(GraphSet((0..choose(3)).map(|_| leaf(n)).collect())),
        5 => return there_and_back(GraphList((0..choose(3)).map(|_| leaf(n)).collect())),
        6 => return there_and_back(GraphPair(leaf(n), leaf(n))),
        _ => (),
    }
    there_and_back(Graphs { keep: f(), none: f(), some: f(), var: f() })
}
#[no_mangle]
extern "C" fn h_dv_literal(t: u64) {
    let n = choose(if t > 0 { 4 } else { 3 }) as usize;
    let k = choose(5);
    reach(10 + k);
    match k {
        0 => there_and_back(Unit),
        1 => there_and_back(Bool(flag())),
        2 => there_and_back(Short(short())),
        3 => there_and_back(Text(ascii(n))),
        _ => there_and_back(Link(Id::Iri(IriBuf::new(format!("https://ex.org/{}", chars_in(n, b'a', b'z'))).unwrap()))),
    }
}
#[no_mangle]
extern "C" fn h_dv_all(t: u64) {
    let mut i = 0;
    let mut one = || {
        i += 1;
        format!("{i}{}", ascii(1))
    };
    let k = choose(if t > 0 { 32 } else { 6 });
    let m = if t > 0 { k } else { [0, 3, 5, 8, 16, 31][k as usize] };
    let has = |i: u32| m >> i & 1 == 1;
    there_and_back(All {
        id: SelfId(Id::Iri(IriBuf::new(format!("https://ex.org/{}", chars_in(1, b'a', b'z'))).unwrap())),
        set: has(0).then(|| Set(vec![one()])),
        list: has(1).then(|| List(vec![one(), one()])),
        sum: has(2).then(|| Sum::B(u8_())),
        pair: has(3).then(|| Pair(one(), 5)),
        bool: has(4).then(|| Bool(flag())),
    })
}

// ---- P17: reading any data ----------------------------------------------------------------------

fn object(k: u32) -> Term {
    match k {
        0 => lit(&ascii(1), "string"),
        1 => lit(&ascii(1), "byte"),
        2 => ex(&chars_in(1, b'n', b'o')),
        3 => lit(&ascii(1), "unsignedByte"),
        _ => Term::Literal(Lit::new(ascii(1), LiteralType::LangString(langtag::LangTagBuf::new("en".to_owned()).unwrap()))),
    }
}
fn prop(lo: u8, hi: u8) -> Term {
    ex(&chars_in(1, lo, hi))
}
#[no_mangle]
extern "C" fn h_dr_record(t: u64) {
    let g = maybe_graph();
    let n = choose(if t > 0 { 4 } else { 3 });
    let d = (0..n).map(|i| Quad(ex("s"), prop(b'a', b'd'), object(choose(if i == 0 { 5 } else { 2 })), if i == 0 { g.clone() } else { maybe_graph() })).collect();
    agree::<Rec>(d, g, ex("s"))
}
#[no_mangle]
extern "C" fn h_dr_sum(t: u64) {
    let n = choose(if t > 0 { 4 } else { 3 });
    let mut d: Vec<Quad> = (0..n).map(|_| Quad(ex("s"), prop(b'a', b'b'), [object(0), object(3), ex("n"), blank("_:x")][choose(4) as usize].clone(), None)).collect();
    if choose(2) == 1 {
        d.push(Quad(ex("n"), prop(b'v', b'w'), object(choose(2)), None))
    }
    agree::<Sum>(d, None, ex("s"))
}
#[no_mangle]
extern "C" fn h_dr_set(t: u64) {
    let g = maybe_graph();
    let n = choose(if t > 0 { 4 } else { 3 });
    if choose(2) == 0 {
        let d = (0..n).map(|_| Quad(ex(&chars_in(1, b's', b't')), prop(b'a', b'b'), object(choose(3)), maybe_graph())).collect();
        agree::<Set>(d, g, ex("s"))
    } else {
        let mut d: Vec<Quad> = (0..n).map(|_| Quad(ex("s"), prop(b'a', b'b'), object(2), None)).collect();
        for _ in 0..choose(3) {
            d.push(Quad(object(2), prop(b'v', b'w'), object(choose(2)), None))
        }
        agree::<SetOfLeaves>(d, None, ex("s"))
    }
}
fn rdf(x: &str) -> Term {
    iri(&format!("http://www.w3.org/1999/02/22-rdf-syntax-ns#{x}"))
}
/// List nodes that may be shared, cyclic, cut or branching.
#[no_mangle]
extern "C" fn h_dr_list(t: u64) {
    let n = choose(if t > 0 { 4 } else { 3 });
    let mut d: Vec<Quad> = vec![];
    let node = |k: u32| [ex("s"), ex("n"), rdf("nil")][k as usize].clone();
    for i in 0..n {
        let me = node(if i == 0 { 0 } else { choose(2) });
        if choose(3) > 0 {
            d.push(Quad(me.clone(), rdf("first"), object(if i == 0 { choose(3) } else { 0 }), None));
        }
        d.push(Quad(me, rdf("rest"), node(choose(3)), None));
    }
    agree::<List>(d, None, if choose(3) == 0 { rdf("nil") } else { ex("s") })
}
#[no_mangle]
extern "C" fn h_dr_tuple(t: u64) {
    let n = choose(if t > 0 { 4 } else { 3 });
    let d = (0..n).map(|_| Quad(ex("s"), prop(b'a', b'c'), [object(0), lit(&ascii(1), "short"), object(2)][choose(3) as usize].clone(), None)).collect();
    if choose(2) == 0 { agree::<Pair>(d, None, ex("s")) } else { agree::<One>(d, None, ex("s")) }
}
#[no_mangle]
extern "C" fn h_dr_graphs(t: u64) {
    let g = maybe_graph();
    let name = |k: u32| [None, Some(ex("g")), Some(ex("h")), Some(ex("meta"))][k as usize].clone();
    let p = choose(4);
    let k = choose(if p == 2 { 5 } else { 3 });
    let mut d = vec![Quad(ex("s"), ex(["keep", "none", "some", "var"][p as usize]), ex("n"), name(choose(3)))];
    for _ in 0..choose(if t > 0 { 4 } else if k < 2 { 3 } else { 2 }) {
        if p == 3 && choose(2) == 0 {
            d.push(Quad(ex("n"), ex("in"), ex(&chars_in(1, b'g', b'i')), name(choose(4))))
        } else {
            d.push(Quad(ex("n"), ex("v"), object(0), name(choose(3))))
        }
    }
    match k {
        0 => agree::<Graphs>(d, g, ex("s")),
        1 => agree::<GraphSum>(d, g, ex("s")),
        2 => {
            d.push(Quad(ex("s"), ex("some"), ex("o"), name(choose(2))));
            d.push(Quad(ex("o"), ex("v"), lit("x", "string"), name(choose(2))));
            agree::<GraphPair>(d, g, ex("s"))
        }
        3 => agree::<GraphSet>(d, g, ex("s")),
        _ => {
            d.push(Quad(ex("s"), ex("next"), rdf("nil"), name(choose(2))));
            agree::<GraphList>(d, g, ex("s"))
        }
    }
}
#[no_mangle]
extern "C" fn h_dr_literal(t: u64) {
    let k = choose(5);
    reach(10 + k);
    let n = choose(if t > 0 { 4 } else { 3 }) as usize;
    let text = if choose(2) == 0 {
        ascii(n)
    } else {
        ["true", "false", "True", "32767", "32768", "-32768", "-32769", "+7", "007"][choose(9) as usize].to_owned()
    };
    let ty = choose(7);
    let o = match ty {
        0 => lit(&text, "string"),
        1 => lit(&text, "boolean"),
        2 => {
            // the interpreter reads ill-typed literals such as `.0` and `32768` as numbers
            assume(!text.contains('.') && text != "32768" && text != "-32769");
            lit(&text, "short")
        }
        3 => Term::Literal(Lit::new(text, LiteralType::Any(IriBuf::new("https://ex.org/text".to_owned()).unwrap()))),
        4 => ex("unit"),
        5 => blank("_:x"),
        _ => Term::Literal(Lit::new(text, LiteralType::LangString(langtag::LangTagBuf::new("en".to_owned()).unwrap()))),
    };
    let mut d = vec![Quad(ex("s"), if k == 0 { ex("is") } else { prop(b'v', b'w') }, o, None)];
    if choose(2) == 1 {
        d.push(Quad(ex("s"), ex("v"), ex("y"), None))
    }
    match k {
        0 => agree::<Unit>(d, None, ex("s")),
        1 => agree::<Bool>(d, None, ex("s")),
        2 => agree::<Short>(d, None, ex("s")),
        3 => agree::<Text>(d, None, ex("s")),
        _ => agree::<Link>(d, None, ex("s")),
    }
}

// ---- P16: the built-in Rust types ---------------------------------------------------------------

/// The terms a value gives to its resource.
fn named<T: SerializeLd<1, (), Sim>>(v: &T) -> (Names, usize) {
    let mut sim = Sim::default();
    let me = sim.fresh();
    let mut out = BTreeDataset::new();
    let ok = v.serialize_ld_with(&mut RdfContextMut::new(&mut (), &mut sim), &[me], None, &mut out).is_ok();
    check(ok && sim.names.len() == 1, 91);
    (sim.names.pop().unwrap(), out.iter().count())
}
fn of_term<T: DeserializeLd<1, (), ()>>(t: Term) -> Result<T, DeserializeError> {
    T::deserialize_ld_with(RdfContext::new(&(), &()), &Plain(vec![]), None, &[t])
}
fn of_names<T: DeserializeLd<1, (), Sim>>(ts: Vec<Term>) -> Result<T, DeserializeError> {
    let mut sim = Sim::default();
    let me = sim.fresh();
    for t in ts {
        sim.name(me, t);
    }
    T::deserialize_ld_with(RdfContext::new(&(), &sim), &Plain(vec![]), None, &[me])
}
/// The integer of a canonical lexical form.
fn canonical(x: &str) -> Option<i128> {
    let b = x.as_bytes();
    let (neg, d) = if !b.is_empty() && b[0] == b'-' { (true, &b[1..]) } else { (false, b) };
    if d.is_empty() || (d[0] == b'0' && (d.len() > 1 || neg)) {
        return None;
    }
    let mut n = 0i128;
    for c in d {
        if !c.is_ascii_digit() {
            return None;
        }
        n = n * 10 + (c - b'0') as i128;
    }
    Some(if neg { -n } else { n })
}
trait Int: SerializeLd<1, (), Sim> + DeserializeLd<1, (), ()> + DeserializeLd<1, (), Sim> + treeldr::de::FromRdfLiteral + Into<i128> + Copy {
    const TYPE: &'static str;
    const MIN: i128;
    const MAX: i128;
    fn cut(x: i128) -> Self;
}
macro_rules! ints {
    ($($t:ident $n:literal)*) => {
        $(impl Int for $t {
            const TYPE: &'static str = $n;
            const MIN: i128 = $t::MIN as i128;
            const MAX: i128 = $t::MAX as i128;
            fn cut(x: i128) -> Self {
                x as $t
            }
        })*
    };
}
ints!(u8 "unsignedByte" u16 "unsignedShort" u32 "unsignedInt" u64 "unsignedLong" i8 "byte" i16 "short" i32 "int" i64 "long");

/// An integer near zero or near an end of the type: 256 consecutive values each.
fn int_value<T: Int>(t: u64) -> T {
    let b = u8_() as i128;
    let k = choose(if t > 0 { 6 } else { 4 });
    T::cut(match k {
        0 => b,
        1 => if T::MIN < 0 { -1 - (b & 127) } else { b },
        2 => T::MAX - b,
        3 => T::MIN + b,
        4 => (T::MAX >> 1) + 1 - b,
        _ => (T::MAX / 1000) * 10 + b,
    })
}
fn int_round<T: Int>(t: u64) {
    let v: T = int_value(t);
    let (n, quads) = named(&v);
    check(quads == 0 && n.iris.is_empty() && n.blanks.is_empty() && n.lits.len() == 1, 20);
    let l = n.lits[0].clone();
    check(l.type_ == LiteralType::Any(IriBuf::new(format!("{XSD}{}", T::TYPE)).unwrap()), 21);
    let x: i128 = v.into();
    check(canonical(&l.value) == Some(x), 22);
    match of_term::<T>(Term::Literal(l.clone())) {
        Ok(w) => {
            let w: i128 = w.into();
            check(w == x, 23)
        }
        Err(_) => check(false, 24),
    }
    match T::from_rdf_literal(&l.value) {
        Ok(w) => {
            let w: i128 = w.into();
            check(w == x, 25)
        }
        Err(_) => check(false, 26),
    }
    reach(1)
}
macro_rules! each_int {
    ($f:ident $(, $x:expr)*) => {{
        let k = choose(8);
        reach(10 + k);
        match k {
            0 => $f::<u8>($($x),*),
            1 => $f::<u16>($($x),*),
            2 => $f::<u32>($($x),*),
            3 => $f::<u64>($($x),*),
            4 => $f::<i8>($($x),*),
            5 => $f::<i16>($($x),*),
            6 => $f::<i32>($($x),*),
            _ => $f::<i64>($($x),*),
        }
    }};
}
/// Every integer type writes its canonical literal, and reads it back.
#[no_mangle]
extern "C" fn h_dt_int(t: u64) {
    each_int!(int_round, t)
}
/// XSD integer: optional sign and digits.
fn lexical(x: &str) -> Option<i128> {
    let b = x.as_bytes();
    let (neg, d) = match b.first() {
        Some(b'-') => (true, &b[1..]),
        Some(b'+') => (false, &b[1..]),
        _ => (false, b),
    };
    if d.is_empty() {
        return None;
    }
    let mut n = 0i128;
    for c in d {
        if !c.is_ascii_digit() {
            return None;
        }
        n = n * 10 + (c - b'0') as i128;
    }
    Some(if neg { -n } else { n })
}
fn int_read<T: Int>(text: String) {
    // `xsd-types` does not read `-0` as an unsigned integer
    assume(T::MIN < 0 || !text.starts_with("-0"));
    let expect = lexical(&text).filter(|x| T::MIN <= *x && *x <= T::MAX);
    match (T::from_rdf_literal(&text), expect) {
        (Ok(v), Some(x)) => {
            let v: i128 = v.into();
            check(v == x, 31)
        }
        (Err(_), None) => (),
        _ => check(false, 32),
    }
    match (of_term::<T>(lit(&text, T::TYPE)), expect) {
        (Ok(v), Some(x)) => {
            reach(1);
            let v: i128 = v.into();
            check(v == x, 33)
        }
        (Err(e), None) => {
            reach(2);
            check(matches!(e, DeserializeError::InvalidLiteralValue), 34)
        }
        _ => check(false, 35),
    }
}
/// Reading any short text, and texts around the bounds of every type.
#[no_mangle]
extern "C" fn h_dt_text(t: u64) {
    let text = if choose(2) == 0 {
        ascii(choose(if t > 0 { 5 } else { 4 }) as usize)
    } else {
        let p = ["25", "-12", "6553", "-3276", "3276", "429496729", "-214748364", "214748364", "1844674407370955161", "-922337203685477580", "922337203685477580", "18446744073709551616"];
        format!("{}{}", p[choose(12) as usize], chars_in(1, b'0', b'9'))
    };
    each_int!(int_read, text)
}
fn int_other<T: Int>(k: u32) {
    let e = match k {
        0 => of_term::<T>(lit("1", "string")).err(),
        1 => of_term::<T>(lit("1", if T::TYPE == "int" { "long" } else { "int" })).err(),
        2 => of_term::<T>(Term::Literal(Lit::new("1".to_owned(), LiteralType::LangString(langtag::LangTagBuf::new("en".to_owned()).unwrap())))).err(),
        3 => of_term::<T>(ex("a")).err(),
        4 => of_term::<T>(blank("_:b")).err(),
        // two names
        5 => of_names::<T>(vec![lit("1", T::TYPE), lit("2", T::TYPE)]).err(),
        _ => {
            // other literals and names are ignored
            match of_names::<T>(vec![lit("x", "string"), lit("7", T::TYPE), ex("a")]) {
                Ok(x) => {
                    let x: i128 = x.into();
                    check(x == 7, 40)
                }
                Err(_) => check(false, 41),
            }
            return;
        }
    };
    match k {
        0..=2 => check(matches!(e, Some(DeserializeError::LiteralTypeMismatch)), 42),
        3 | 4 => check(matches!(e, Some(DeserializeError::ExpectedLiteral)), 43),
        _ => check(matches!(e, Some(DeserializeError::AmbiguousLiteralValue)), 44),
    }
    reach(1)
}
/// Resources that are not the literal of the type.
#[no_mangle]
extern "C" fn h_dt_other(_t: u64) {
    let k = choose(7);
    each_int!(int_other, k)
}
/// Strings: any text, the same way.
#[no_mangle]
extern "C" fn h_dt_string(t: u64) {
    let n = choose(if t > 0 { 5 } else { 3 }) as usize;
    let text = if choose(2) == 0 { ascii(n) } else { format!("{}\u{e9}\u{10ffff}\0", ascii(1)) };
    let (m, quads) = named(&text);
    check(quads == 0 && m.iris.is_empty() && m.blanks.is_empty() && m.lits.len() == 1, 50);
    check(m.lits[0].value == text && Term::<Id, Lit>::Literal(m.lits[0].clone()) == lit(&text, "string"), 51);
    check(of_term::<String>(lit(&text, "string")).ok().as_ref() == Some(&text), 52);
    check(<String as treeldr::de::FromRdfLiteral>::from_rdf_literal(&text).ok().as_ref() == Some(&text), 53);
    check(matches!(of_term::<String>(lit(&text, "token")), Err(DeserializeError::LiteralTypeMismatch)), 54);
    check(matches!(of_term::<String>(ex("a")), Err(DeserializeError::ExpectedLiteral)), 55);
    let other = ascii(n);
    match of_names::<String>(vec![lit(&text, "string"), lit(&other, "string")]) {
        Ok(x) => {
            reach(1);
            check(text == other && x == text, 56)
        }
        Err(e) => {
            reach(2);
            check(text != other && matches!(e, DeserializeError::AmbiguousLiteralValue), 57)
        }
    }
}
/// The lexical forms of booleans.
#[no_mangle]
extern "C" fn h_dt_bool(t: u64) {
    let text = if choose(2) == 0 {
        ascii(choose(if t > 0 { 6 } else { 5 }) as usize)
    } else {
        chars_in(5, b'a', b'v')
    };
    let expect = match text.as_str() {
        "true" | "1" => Some(true),
        "false" | "0" => Some(false),
        _ => None,
    };
    let got = <bool as treeldr::de::FromRdfLiteral>::from_rdf_literal(&text).ok();
    reach(match expect {
        Some(true) => 1,
        Some(false) => 2,
        None => 3,
    });
    check(got == expect, 60);
}
/// Identifiers: IRIs first, then blank nodes.
#[no_mangle]
extern "C" fn h_dt_id(t: u64) {
    let n = 1 + choose(if t > 0 { 3 } else { 2 }) as usize;
    let x = Id::Iri(IriBuf::new(format!("https://ex.org/{}", chars_in(n, b'a', b'z'))).unwrap());
    let b = Id::Blank(BlankIdBuf::new(format!("_:{}", chars_in(n, b'a', b'z'))).unwrap());
    let id = if choose(2) == 0 { x.clone() } else { b.clone() };
    let (m, quads) = named(&id);
    check(quads == 0 && m.lits.is_empty() && m.iris.len() + m.blanks.len() == 1, 70);
    check(of_term::<Id>(Term::Id(id.clone())).ok() == Some(id.clone()), 71);
    check(of_names::<Id>(m.iris.into_iter().map(Term::iri).chain(m.blanks.into_iter().map(Term::blank)).collect()).ok() == Some(id), 72);
    check(of_names::<Id>(vec![Term::Id(b), Term::Id(x.clone())]).ok() == Some(x.clone()), 73);
    check(matches!(of_term::<Id>(lit("a", "string")), Err(DeserializeError::MissingId)), 74);
    check(matches!(of_names::<Id>(vec![Term::Id(x), iri("https://ex.org/")]), Err(DeserializeError::AmbiguousId)), 75);
    reach(1)
}

entries!(h_dt_int, h_dt_text, h_dt_other, h_dt_string, h_dt_bool, h_dt_id, h_dv_record, h_dv_sum, h_dv_set, h_dv_list, h_dv_tuple, h_dv_graphs, h_dv_literal, h_dv_all, h_dr_record, h_dr_sum, h_dr_set, h_dr_list, h_dr_tuple, h_dr_graphs, h_dr_literal);
