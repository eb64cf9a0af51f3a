//! P22: the Rust source generated for a layout denotes that layout.
use harness::{tl::*, *};
use quote::ToTokens;
use rdf_types::dataset::TraversableDataset;
use treeldr_layouts::layout::{list::ItemLayout, DataLayout, ListLayout, LiteralLayout};
use treeldr_layouts::ValueFormat;

#[allow(dead_code)]
#[path = "/repo/generators/rust/treeldr-rs-macros/src/parse.rs"]
mod parse;

type Ctx<'a> = treeldr_layouts::distill::RdfContext<'a, (), ()>;

// ---- documents --------------------------------------------------------------------------------

/// The variables in scope.
#[derive(Clone)]
struct Scope(Vec<&'static str>);

impl Scope {
    fn with(&self, names: &[&'static str]) -> Self {
        Scope(self.0.iter().chain(names).copied().collect())
    }
    /// A variable, or an IRI.
    fn pattern(&self) -> String {
        let k = choose(self.0.len() as u32 + 1) as usize;
        match self.0.get(k) {
            Some(x) => format!("_:{x}"),
            None => iri_(),
        }
    }
}
fn iri_() -> String {
    ["http://e/p", "http://e/#q"][choose(2) as usize].into()
}
fn arr(x: &[&str]) -> String {
    format!("[{}]", x.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(","))
}
/// Statements over what is in scope: any pattern anywhere.
fn dataset(sc: &Scope) -> String {
    let x = sc.0.last().map_or("http://e/s".to_string(), |x| format!("_:{x}"));
    let (p, o) = ("http://e/p", "http://e/o");
    match choose(8) {
        0 => "[]".into(),
        1 => format!(r#"[["{}","{p}","{o}"]]"#, sc.pattern()),
        2 => format!(r#"[["{x}","{}","{o}"]]"#, sc.pattern()),
        3 => format!(r#"[["{x}","{p}","{}"]]"#, sc.pattern()),
        4 => format!(r#"[["{x}","{p}","{o}",null]]"#),
        5 => format!(r#"[["{x}","{p}","{o}","{}"]]"#, sc.pattern()),
        6 => format!(r#"[["{x}","{p}","{o}"],["{o}","{p}","{x}"],["{x}","{p}","{o}","http://e/g"]]"#),
        _ => format!(r#"[["{x}","{p}","{o}","http://e/g"],["{x}","{p}","{x}","{x}"]]"#),
    }
}
const INPUTS: [&[&str]; 3] = [&["self"], &["a", "b"], &[]];
const INTROS: [&[&str]; 3] = [&[], &["x"], &["x", "y"]];

/// The layouts of the components: the document's name for them, and the Rust type.
const TYPES: [(&str, &str); 17] = [
    ("https://treeldr.org/prelude#id", ":: treeldr :: rdf_types :: Id"),
    ("https://treeldr.org/prelude#unit", "()"),
    ("https://treeldr.org/prelude#boolean", "bool"),
    ("https://treeldr.org/prelude#u8", "u8"),
    ("https://treeldr.org/prelude#u16", "u16"),
    ("https://treeldr.org/prelude#u32", "u32"),
    ("https://treeldr.org/prelude#u64", "u64"),
    ("https://treeldr.org/prelude#i8", "i8"),
    ("https://treeldr.org/prelude#i16", "i16"),
    ("https://treeldr.org/prelude#i32", "i32"),
    ("https://treeldr.org/prelude#i64", "i64"),
    ("https://treeldr.org/prelude#string", "String"),
    ("http://e/#foo", "Foo"),
    ("http://e/foo_bar", "FooBar"),
    ("http://e/x/y#z", "Z"),
    ("http://m/foo", "m :: Foo"),
    ("http://m/n/foo", "m :: n :: Foo"),
];
fn ty() -> &'static str {
    TYPES[choose(TYPES.len() as u32) as usize].0
}

/// How much varies.
#[derive(Clone, Copy)]
struct Vary {
    header: bool,
    types: bool,
    patterns: u32,
}

/// A component of a record, sum, list, set or tuple.
fn component(sc: &Scope, v: Vary, more: &str, property: bool) -> String {
    let layout = if v.types { ty() } else { TYPES[11].0 };
    if v.patterns == 0 {
        return format!(r#"{{"value":"{layout}","dataset":[]{more}}}"#);
    }
    let intro = INTROS[choose(3) as usize];
    let names = if intro.is_empty() { &["value"][..] } else { intro };
    let mut e = String::new();
    if !intro.is_empty() {
        e += &format!(r#","intro":{}"#, arr(intro))
    }
    let sc = sc.with(names);
    if property && choose(2) == 1 {
        e += &format!(r#","property":"{}""#, sc.pattern())
    } else {
        e += &format!(r#","dataset":{}"#, dataset(&sc))
    }
    let value = match choose(6) {
        0 => format!(r#""{layout}""#),
        1 => format!(r#"{{"layout":"{layout}","input":[]}}"#),
        2 => format!(r#"{{"layout":"{layout}","input":["{}","{}"]}}"#, sc.pattern(), sc.pattern()),
        3 => format!(r#"{{"layout":"{layout}","input":"_:{}"}}"#, names[0]),
        4 => format!(r#"{{"layout":"{layout}","input":"_:{}","graph":null}}"#, names[0]),
        _ => format!(r#"{{"layout":"{layout}","input":"_:{}","graph":"{}"}}"#, names[0], sc.pattern()),
    };
    format!(r#"{{"value":{value}{e}{more}}}"#)
}

const KINDS: [&str; 11] = ["record", "sum", "set", "list", "tuple", "unit", "boolean", "number", "string", "bytes", "id"];

/// A document.
fn document(kind: usize, v: Vary, n: u32) -> String {
    let mut d = format!(r#"{{"id":"http://e/#the_type","type":"{}""#, KINDS[kind]);
    let mut sc = Scope(vec!["self"]);
    if v.header {
        let i = choose(3) as usize;
        if i > 0 {
            d += &format!(r#","input":{}"#, arr(INPUTS[i]));
        }
        let j = choose(3) as usize;
        if j > 0 {
            d += &format!(r#","intro":{}"#, arr(INTROS[j]));
        }
        sc = Scope(INPUTS[i].to_vec()).with(INTROS[j]);
        d += &format!(r#","dataset":{}"#, dataset(&sc));
    }
    match kind {
        0 => {
            let f: Vec<_> = (0..n)
                .map(|i| {
                    let required = ["", r#","required":false"#, r#","required":true"#][choose(3) as usize];
                    format!(r#""{}":{}"#, ["g", "f_1"][i as usize], component(&sc, v, required, true))
                })
                .collect();
            d += &format!(r#","fields":{{{}}}"#, f.join(","))
        }
        1 => {
            let f: Vec<_> = (0..n).map(|i| format!(r#""{}":{}"#, ["W", "V1"][i as usize], component(&sc, v, "", false))).collect();
            d += &format!(r#","variants":{{{}}}"#, f.join(","))
        }
        2 => d += &format!(r#","item":{}"#, component(&sc, v, "", true)),
        3 => {
            let (n, names): (_, &[_]) = if !v.header && choose(2) == 1 { (r#","head":"h","rest":"r""#, &["h", "r"]) } else { ("", &["head", "rest"]) };
            let sc2 = sc.with(names);
            d += &format!(r#","node":{}"#, component(&sc2, v, n, false));
            if v.header {
                if choose(2) == 1 {
                    d += &format!(r#","head":"{}""#, sc.pattern())
                }
                if choose(2) == 1 {
                    d += &format!(r#","tail":"{}""#, sc.pattern())
                }
            }
        }
        4 => {
            let f: Vec<_> = (0..n).map(|_| component(&sc, v, "", true)).collect();
            d += &format!(r#","items":[{}]"#, f.join(","))
        }
        5 => (),
        _ => {
            if (kind == 7) | (kind == 9) || kind != 10 && choose(2) == 1 {
                d += &format!(r#","datatype":"{}""#, iri_())
            }
            if choose(2) == 1 || sc.0.first() != Some(&"self") {
                d += &format!(r#","resource":"{}""#, sc.pattern())
            }
        }
    }
    d + "}"
}

// ---- comparison -------------------------------------------------------------------------------

struct Cmp<'a> {
    types: &'a parse::TypeMap,
}
impl Cmp<'_> {
    fn ty(&self, a: &Ref<LayoutType>, b: &Ref<LayoutType>) -> bool {
        let Term::Id(Id::Iri(a)) = a.id() else { return false };
        let Term::Id(Id::Iri(b)) = b.id() else { return false };
        let Some((_, want)) = TYPES.iter().find(|t| t.0 == a.as_str()) else { return false };
        self.types.get(b).is_some_and(|t| t.to_token_stream().to_string() == *want)
    }
    fn value(&self, a: &ValueFormat<Term>, b: &ValueFormat<Term>) -> bool {
        self.ty(&a.layout, &b.layout) && a.input == b.input && a.graph == b.graph
    }
    fn item(&self, a: &ItemLayout<Term>, b: &ItemLayout<Term>) -> bool {
        a.intro == b.intro && data(&a.dataset, &b.dataset) && self.value(&a.value, &b.value)
    }
    fn layout(&self, a: &Layout<Term>, b: &Layout<Term>) -> bool {
        match (a, b) {
            (Layout::Literal(LiteralLayout::Id(a)), Layout::Literal(LiteralLayout::Id(b))) => {
                a.input == b.input && a.intro == b.intro && data(&a.dataset, &b.dataset) && a.resource == b.resource
            }
            (Layout::Literal(LiteralLayout::Data(a)), Layout::Literal(LiteralLayout::Data(b))) => match (a, b) {
                (DataLayout::Unit(a), DataLayout::Unit(b)) => a.input == b.input && a.intro == b.intro && data(&a.dataset, &b.dataset),
                (DataLayout::Boolean(a), DataLayout::Boolean(b)) => {
                    a.input == b.input && a.intro == b.intro && data(&a.dataset, &b.dataset) && a.resource == b.resource && a.datatype == b.datatype
                }
                (DataLayout::Number(a), DataLayout::Number(b)) => {
                    a.input == b.input && a.intro == b.intro && data(&a.dataset, &b.dataset) && a.resource == b.resource && a.datatype == b.datatype
                }
                (DataLayout::TextString(a), DataLayout::TextString(b)) => {
                    a.input == b.input && a.intro == b.intro && data(&a.dataset, &b.dataset) && a.resource == b.resource && a.datatype == b.datatype
                }
                (DataLayout::ByteString(a), DataLayout::ByteString(b)) => {
                    a.input == b.input && a.intro == b.intro && data(&a.dataset, &b.dataset) && a.resource == b.resource && a.datatype == b.datatype
                }
                _ => false,
            },
            (Layout::Product(a), Layout::Product(b)) => {
                a.input == b.input
                    && a.intro == b.intro
                    && data(&a.dataset, &b.dataset)
                    && a.fields.len() == b.fields.len()
                    && a.fields.iter().zip(&b.fields).all(|((k, f), (l, g))| {
                        k == l && f.intro == g.intro && f.required == g.required && data(&f.dataset, &g.dataset) && self.value(&f.value, &g.value)
                    })
            }
            (Layout::Sum(a), Layout::Sum(b)) => {
                a.input == b.input
                    && a.intro == b.intro
                    && data(&a.dataset, &b.dataset)
                    && a.variants.len() == b.variants.len()
                    && a.variants.iter().all(|f| {
                        b.variants.iter().any(|g| {
                            f.name == g.name && f.intro == g.intro && data(&f.dataset, &g.dataset) && self.value(&f.value, &g.value)
                        })
                    })
            }
            (Layout::List(a), Layout::List(b)) => match (a, b) {
                (ListLayout::Unordered(a), ListLayout::Unordered(b)) => {
                    a.input == b.input && a.intro == b.intro && data(&a.dataset, &b.dataset) && self.item(&a.item, &b.item)
                }
                (ListLayout::Sized(a), ListLayout::Sized(b)) => {
                    a.input == b.input
                        && a.intro == b.intro
                        && data(&a.dataset, &b.dataset)
                        && a.items.len() == b.items.len()
                        && a.items.iter().zip(&b.items).all(|(a, b)| self.item(a, b))
                }
                (ListLayout::Ordered(a), ListLayout::Ordered(b)) => {
                    a.input == b.input
                        && a.intro == b.intro
                        && data(&a.dataset, &b.dataset)
                        && a.head == b.head
                        && a.tail == b.tail
                        && a.node.intro == b.node.intro
                        && data(&a.node.dataset, &b.node.dataset)
                        && self.value(&a.node.value, &b.node.value)
                }
                _ => false,
            },
            _ => false,
        }
    }
}
type Patterns = rdf_types::dataset::BTreeDataset<Pattern<Term>>;
fn data(a: &Patterns, b: &Patterns) -> bool {
    let has = |d: &Patterns, q: Quad<&Pattern<Term>, &Pattern<Term>, &Pattern<Term>, &Pattern<Term>>| d.quads().any(|r| r == q);
    a.quads().all(|q| has(b, q)) && b.quads().all(|q| has(a, q))
}

fn round(src: &str) {
    full(src, false)
}
/// (`fails`: the names may be refused)
fn full(src: &str, fails: bool) {
    note(src);
    let mut b = abs::Builder::new();
    let Ok(l) = serde_json::from_str::<abs::syntax::Layout>(src) else { return };
    let Ok(r) = l.build(&mut b) else {
        // a literal, or nothing, where a resource has to be
        reach(3);
        return;
    };
    let ls = b.build();
    let mut o = treeldr_gen_rust::Options::<Term>::new();
    let m: [(&str, &str); 2] = [("http://m/", "m"), ("http://m/n/", "m::n")];
    for (p, x) in m {
        check(o.use_module(p.to_owned(), syn::parse_str(x).unwrap()).is_ok(), 1);
    }
    let rdf = Ctx { vocabulary: &(), interpretation: &() };
    let tokens = match treeldr_gen_rust::generate(rdf, &ls, &r, &o) {
        Ok(t) => t,
        Err(_) => {
            reach(2);
            check(fails, 2);
            return;
        }
    };
    note(&tokens.to_string());
    let Ok(item) = syn::parse2::<syn::DeriveInput>(tokens) else {
        check(false, 3);
        return;
    };
    check(item.ident == "TheType", 4);
    let Ok(p) = parse::parse(item) else {
        check(false, 5);
        return;
    };
    let mut b = abs::Builder::new();
    let Ok(q) = p.layout.build(&mut b) else {
        check(false, 6);
        return;
    };
    let ls2 = b.build();
    let c = Cmp { types: &p.type_map };
    reach(1);
    check(c.layout(ls.get(&r).unwrap(), ls2.get(&q).unwrap()), 7);
}

#[no_mangle]
extern "C" fn h_cg_header(_t: u64) {
    let kind = choose(11) as usize;
    reach(10 + kind as u32);
    round(&document(kind, Vary { header: true, types: false, patterns: 0 }, 0))
}
#[no_mangle]
extern "C" fn h_cg_parts(_t: u64) {
    let kind = choose(5) as usize;
    reach(10 + kind as u32);
    round(&document(kind, Vary { header: false, types: false, patterns: 1 }, 1))
}
#[no_mangle]
extern "C" fn h_cg_types(_t: u64) {
    let kind = choose(5) as usize;
    reach(10 + kind as u32);
    round(&document(kind, Vary { header: false, types: true, patterns: 0 }, 1 + choose(2)))
}

/// The characters of IRIs, field names and layout names.
#[no_mangle]
extern "C" fn h_cg_chars(_t: u64) {
    let k = choose(3);
    reach(10 + k);
    let c = match choose(3) {
        0 => {
            let b = u8_();
            assume((b > 0x20) & (b < 0x7f) & (b != b'"') & (b != b'\\') & (b != b'/') & (b != b'#') & (b != b'?'));
            b as char
        }
        1 => 'é',
        _ => '漢',
    };
    round(&match k {
        0 => format!(r#"{{"id":"http://e/#the_type","type":"record","fields":{{"g":{{"property":"http://e/a{c}b","value":"http://e/#foo"}}}}}}"#),
        1 => format!(r#"{{"id":"http://e/#the_type","type":"string","datatype":"http://e/a#{c}b"}}"#),
        _ => format!(r#"{{"id":"http://e/#the_type","type":"set","item":{{"value":{{"layout":"http://e/#foo","graph":"http://{c}/?b"}}}}}}"#),
    })
}
/// The names of fields and variants.
#[no_mangle]
extern "C" fn h_cg_names(_t: u64) {
    let b = u8_();
    assume((b >= 0x20) & (b < 0x7f) & (b != b'"') & (b != b'\\'));
    let c = b as char;
    let (name, fine) = match choose(3) {
        0 => (format!("x{c}"), c.is_ascii_alphanumeric() | (c == '_')),
        1 => (format!("{c}x"), c.is_ascii_alphabetic() | (c == '_')),
        _ => (["type", "é", "r#type", "", "x y", "_", "self"][choose(7) as usize].to_string(), false),
    };
    full(
        &if choose(2) == 0 {
            format!(r#"{{"id":"http://e/#the_type","type":"record","fields":{{"{name}":{{"property":"http://e/p","value":"http://e/#foo"}}}}}}"#)
        } else {
            format!(r#"{{"id":"http://e/#the_type","type":"sum","variants":{{"{name}":{{"value":"http://e/#foo"}}}}}}"#)
        },
        !fine,
    )
}

entries!(h_cg_names, h_cg_chars, h_cg_header, h_cg_parts, h_cg_types);
