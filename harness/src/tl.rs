//! Shorthands over the public API of the crates under test.

pub use rdf_types::{dataset::BTreeDataset, dataset::IndexedBTreeDataset, BlankIdBuf, Id, LiteralType, Quad, Term};
pub use treeldr_layouts::{
    abs, distill, layout::LayoutType, value::Literal, value::Number, Layout, LayoutRegistry, Layouts, Pattern, Ref, TypedValue, Value,
};
pub use std::collections::BTreeMap;

pub fn parse(src: &str) -> abs::syntax::Layout {
    serde_json::from_str(src).unwrap()
}
pub fn build(src: &str) -> (Layouts, Ref<LayoutType>) {
    let mut b = abs::Builder::new();
    let r = parse(src).build(&mut b).unwrap();
    (b.build(), r)
}
pub fn dehy(ls: &Layouts, v: &Value, r: &Ref<LayoutType>) -> Result<(BTreeDataset, Vec<Term>), distill::de::Error> {
    distill::dehydrate(ls, v, r, Default::default())
}
pub fn index(d: &BTreeDataset) -> IndexedBTreeDataset {
    d.iter().map(|q| q.into_cloned()).collect()
}
pub fn hy(ls: &Layouts, d: &BTreeDataset, r: &Ref<LayoutType>, i: &[Term]) -> Result<TypedValue, distill::hy::Error> {
    distill::hydrate(ls, &index(d), r, i)
}
pub fn s(x: &str) -> Value {
    Value::string(x.to_owned())
}
pub fn num(n: impl Into<Number>) -> Value {
    Value::Literal(Literal::Number(n.into()))
}
pub fn boolean(b: bool) -> Value {
    Value::Literal(Literal::Boolean(b))
}
pub fn map<const N: usize>(x: [(&str, Value); N]) -> Value {
    Value::Map(x.into_iter().map(|(k, v)| (s(k), v)).collect())
}
pub fn list(x: Vec<Value>) -> Value {
    Value::List(x)
}
pub fn iri(x: &str) -> Term {
    Term::iri(iref::IriBuf::new(x.to_owned()).unwrap())
}
pub fn blank(x: &str) -> Term {
    Term::blank(BlankIdBuf::new(x.to_owned()).unwrap())
}
pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
pub fn lit(v: &str, ty: &str) -> Term {
    Term::Literal(rdf_types::Literal::new(v.to_owned(), LiteralType::Any(iref::IriBuf::new(format!("{XSD}{ty}")).unwrap())))
}

/// A list of statements as a dataset, without any indexing.
///
/// (The indexed dataset of `rdf-types` 0.22.5 registers a resource that occurs twice in one statement
/// twice, and then misses matches.)
pub struct Plain<R = Term>(pub Vec<Quad<R, R, R, R>>);
pub struct PlainMatches<'a, 'p, R> {
    quads: std::slice::Iter<'a, Quad<R, R, R, R>>,
    pattern: rdf_types::pattern::CanonicalQuadPattern<&'p R>,
}
impl<'a, 'p, R: PartialEq> Iterator for PlainMatches<'a, 'p, R> {
    type Item = Quad<&'a R, &'a R, &'a R, &'a R>;
    fn next(&mut self) -> Option<Self::Item> {
        use rdf_types::pattern::quad::canonical::*;
        for q in self.quads.by_ref() {
            let Quad(s, p, o, g) = q;
            let ok = match self.pattern.into_predicate() {
                PatternPredicate::Any => true,
                PatternPredicate::SameAsSubject => p == s,
                PatternPredicate::Given(x) => p == x,
            } && match self.pattern.into_subject() {
                PatternSubject::Any => true,
                PatternSubject::Given(x) => s == x,
            } && match self.pattern.into_object() {
                PatternObject::Any => true,
                PatternObject::SameAsSubject => o == s,
                PatternObject::SameAsPredicate => o == p,
                PatternObject::Given(x) => o == x,
            } && match self.pattern.into_graph() {
                PatternGraph::Any => true,
                PatternGraph::SameAsSubject => g.as_ref() == Some(s),
                PatternGraph::SameAsPredicate => g.as_ref() == Some(p),
                PatternGraph::SameAsObject => g.as_ref() == Some(o),
                PatternGraph::Given(x) => g.as_ref() == x,
            };
            if ok {
                return Some(Quad(s, p, o, g.as_ref()));
            }
        }
        None
    }
}
impl<R> rdf_types::dataset::Dataset for Plain<R> {
    type Resource = R;
}
impl<R: PartialEq> rdf_types::dataset::PatternMatchingDataset for Plain<R> {
    type QuadPatternMatching<'a, 'p> = PlainMatches<'a, 'p, R> where R: 'a + 'p;
    fn quad_pattern_matching<'p>(&self, pattern: rdf_types::pattern::CanonicalQuadPattern<&'p R>) -> PlainMatches<'_, 'p, R> {
        PlainMatches { quads: self.0.iter(), pattern }
    }
}
