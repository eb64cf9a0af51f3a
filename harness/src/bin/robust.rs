//! P18: every document, layout, dataset, tree and list of inputs has a result or an error.
use harness::{holes::*, refsem::T, tl::*, *};

const E: &str = "https://ex.org/";
fn ex(x: &str) -> Term {
    iri(&format!("{E}{x}"))
}
fn all(docs: &[&str]) -> Layouts {
    let mut b = abs::Builder::new();
    for d in docs {
        parse(d).build(&mut b).unwrap();
    }
    b.build()
}
fn layout(n: u32) -> Ref<LayoutType> {
    Ref::new(ex(&format!("l/{n}")))
}
const STRING: &str = r#"{"type":"string","id":"https://ex.org/l/2"}"#;

// ---- recursive layouts on any graph of resources ---------------------------------------------

struct Data {
    /// (subject, predicate, object, graph): nodes are numbers, 9 is a string.
    quads: Vec<(u32, u8, u32, Option<u32>)>,
}
type Path<'a> = &'a [(u32, u32, Option<u32>)];
fn node(n: u32) -> Term {
    match n {
        9 => lit("x", "string"),
        8 => iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"),
        n => {
            // may be symbolic
            let mut x = E.as_bytes().to_vec();
            x.extend([b'n', b'0' + n as u8]);
            iri(std::str::from_utf8(&x).unwrap())
        }
    }
}
fn pred(p: u8) -> Term {
    match p {
        b'f' => iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#first"),
        b'r' => iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#rest"),
        p => ex(&(p as char).to_string()),
    }
}
impl Data {
    fn get(&self, s: u32, p: u8, g: Option<u32>) -> Vec<u32> {
        self.quads.iter().filter(|q| q.0 == s && q.1 == p && q.3 == g).map(|q| q.2).collect()
    }
    fn one(&self, s: u32, p: u8, g: Option<u32>) -> Result<Option<u32>, ()> {
        let r = self.get(s, p, g);
        match r.len() {
            0 => Ok(None),
            1 => Ok(Some(r[0])),
            _ => Err(()),
        }
    }
    fn rdf(&self) -> Plain {
        Plain(self.quads.iter().map(|q| Quad(node(q.0), pred(q.1), node(q.2), q.3.map(node))).collect())
    }
}
fn text(n: u32) -> Result<T, ()> {
    if n == 9 { Ok(T::Lit(Literal::TextString("x".into()), 2)) } else { Err(()) }
}
/// What layout `l` of family `k` reads at `n`; `path` leads here.
fn spec(d: &Data, k: u32, l: u32, n: u32, g: Option<u32>, path: Path) -> Result<T, ()> {
    if path.contains(&(l, n, g)) {
        return Err(());
    }
    let path = &[path, &[(l, n, g)]].concat()[..];
    let record = |fields: &[(&str, u8, u32, bool, bool)]| {
        let mut r = BTreeMap::new();
        for (key, p, l, graph, required) in fields {
            match d.one(n, *p, g)? {
                Some(o) => {
                    let x = if *l == 2 { text(o)? } else { spec(d, k, *l, o, if *graph { Some(o) } else { g }, path)? };
                    r.insert(key.to_string(), x);
                }
                None if *required => return Err(()),
                None => (),
            }
        }
        Ok(T::Map(r.into_iter().collect(), l))
    };
    match (k, l) {
        (0, _) => record(&[("n", b'n', 1, false, false), ("v", b'v', 2, false, false)]),
        (1, _) => record(&[("n", b'n', 1, false, true)]),
        (2, _) => Ok(T::Set(d.get(n, b'n', g).into_iter().map(|o| spec(d, k, 1, o, g, path)).collect::<Result<_, _>>()?, l)),
        (3, 1) => {
            let v: Vec<(usize, T)> = [spec(d, k, 3, n, g, path), text(n), spec(d, k, 1, n, g, path)].into_iter().enumerate().filter_map(|(i, x)| Some((i, x.ok()?))).collect();
            let [(i, x)] = <[_; 1]>::try_from(v).map_err(|_| ())?;
            Ok(T::Variant(Box::new(x), l, i))
        }
        (3, _) => record(&[("n", b'n', 1, false, true)]),
        (4, 1) => record(&[("n", b'n', 3, false, false)]),
        (4, _) => record(&[("m", b'n', 1, false, false)]),
        (5, _) => record(&[("n", b'n', 1, true, false)]),
        _ => {
            // a list of lists
            let (mut items, mut seen, mut cell) = (vec![], vec![], n);
            while cell != 8 {
                if seen.contains(&cell) {
                    return Err(());
                }
                seen.push(cell);
                let (Some(x), Some(r)) = (d.one(cell, b'f', g)?, d.one(cell, b'r', g)?) else { return Err(()) };
                items.push(spec(d, k, 1, x, g, path)?);
                cell = r
            }
            Ok(T::List(items, l))
        }
    }
}
fn family(k: u32) -> Layouts {
    let f = r#"{"value":{"layout":"https://ex.org/l/1"},"property":"https://ex.org/n""#;
    let docs = match k {
        0 => vec![format!(r#"{{"type":"record","id":"{E}l/1","fields":{{"n":{f}}},"v":{{"value":"{E}l/2","property":"{E}v"}}}}}}"#), STRING.into()],
        1 => vec![format!(r#"{{"type":"record","id":"{E}l/1","fields":{{"n":{f},"required":true}}}}}}"#)],
        2 => vec![format!(r#"{{"type":"set","id":"{E}l/1","item":{f}}}}}"#)],
        3 => vec![
            format!(r#"{{"type":"sum","id":"{E}l/1","variants":{{"a":{{"value":{{"layout":"{E}l/3","input":"_:self"}}}},"b":{{"value":{{"layout":"{E}l/2","input":"_:self"}}}},"c":{{"value":{{"layout":"{E}l/1","input":"_:self"}}}}}}}}"#),
            STRING.into(),
            format!(r#"{{"type":"record","id":"{E}l/3","fields":{{"n":{f},"required":true}}}}}}"#),
        ],
        4 => vec![
            format!(r#"{{"type":"record","id":"{E}l/1","fields":{{"n":{{"value":"{E}l/3","property":"{E}n"}}}}}}"#),
            format!(r#"{{"type":"record","id":"{E}l/3","fields":{{"m":{f}}}}}}}"#),
        ],
        5 => vec![format!(r#"{{"type":"record","id":"{E}l/1","fields":{{"n":{{"value":{{"layout":"{E}l/1","graph":"_:value"}},"property":"{E}n"}}}}}}"#)],
        _ => vec![format!(r#"{{"type":"list","id":"{E}l/1","node":"{E}l/1"}}"#)],
    };
    all(&docs.iter().map(|x| &x[..]).collect::<Vec<_>>())
}
/// Layouts that include themselves, on any graph of a few resources.
#[no_mangle]
extern "C" fn h_rb_cycle(t: u64) {
    let k = choose(7);
    reach(10 + k);
    let ls = family(k);
    let mut d = Data { quads: vec![] };
    let nodes = if (k < 5) & (k != 2) | (t > 0) { 4 } else { 3 };
    let any = || below(nodes as u8) as u32;
    for a in 0..nodes {
        match k {
            2 => {
                for b in 0..nodes {
                    if flag() {
                        d.quads.push((a, b'n', b, None))
                    }
                }
            }
            5 => {
                for g in [None, Some(a)] {
                    if flag() {
                        d.quads.push((a, b'n', any(), g))
                    }
                }
            }
            6 => {
                // every cell has one item and one rest: `rdf:nil` or a cell
                d.quads.push((a, b'f', if flag() { 8 } else { any() }, None));
                d.quads.push((a, b'r', if flag() { 8 } else { any() }, None))
            }
            _ => {
                match choose(3) {
                    0 => d.quads.push((a, b'n', any(), None)),
                    1 => d.quads.push((a, if k == 3 { b'n' } else { b'v' }, 9, None)),
                    _ => (),
                }
            }
        }
    }
    if t > 0 && k < 2 && flag() {
        d.quads.push((0, b'n', 7, None))
    }
    let a = distill::hydrate(&ls, &d.rdf(), &layout(1), &[node(0)]);
    match (a, spec(&d, k, 1, 0, None, &[])) {
        (Ok(a), Ok(b)) => {
            reach(1);
            check(harness::refsem::same(&a, &b), 3)
        }
        (Err(_), Err(_)) => reach(2),
        (Ok(_), Err(_)) => check(false, 1),
        (Err(_), Ok(_)) => check(false, 2),
    }
}

/// Layouts that include themselves, for any tree: what is written is read again.
#[no_mangle]
extern "C" fn h_rb_trees(t: u64) {
    let k = choose(7);
    reach(10 + k);
    let ls = family(k);
    fn tree(depth: u32, k: u32, odd: bool) -> Value {
        let more = depth > 0;
        match k {
            2 | 6 => list((0..if more { choose(3) } else { 0 }).map(|_| tree(depth - 1, k, odd)).collect()),
            _ => match choose(if more { 4 } else { 3 }) {
                0 => Value::string(ascii(1)),
                1 => Value::Map(BTreeMap::new()),
                2 if odd => list(vec![]),
                2 => map([("v", Value::string(ascii(1)))]),
                _ => map([(if k == 4 && (depth & 1 == 1) { "m" } else { "n" }, tree(depth - 1, k, odd))]),
            },
        }
    }
    let val = tree(if t > 0 { 3 } else { 2 }, k, flag());
    /// Does layout `l` describe the tree?
    fn fits(k: u32, l: u32, v: &Value) -> bool {
        match (k, l, v) {
            (0, _, Value::Map(m)) => m.iter().all(|(a, x)| match a.as_str() {
                Some("n") => fits(k, 1, x),
                Some("v") => x.as_str().is_some(),
                _ => false,
            }),
            (1, _, Value::Map(m)) => m.len() == 1 && m.get(&s("n")).is_some_and(|x| fits(k, 1, x)),
            (2 | 6, _, Value::List(x)) => x.iter().all(|x| fits(k, l, x)),
            (3, 1, v) => v.as_str().is_some() || fits(k, 3, v),
            (3, _, Value::Map(m)) => m.len() == 1 && m.get(&s("n")).is_some_and(|x| fits(k, 1, x)),
            (4, l, Value::Map(m)) => m.iter().all(|(a, x)| a.as_str() == Some(if l == 1 { "n" } else { "m" }) && fits(k, 4 - l, x)),
            (5, _, Value::Map(m)) => m.iter().all(|(a, x)| a.as_str() == Some("n") && fits(k, 1, x)),
            _ => false,
        }
    }
    match distill::dehydrate(&ls, &val, &layout(1), Default::default()) {
        Ok((d, i)) => {
            check(fits(k, 1, &val), 4);
            let d = Plain(d.iter().map(|q| q.into_cloned()).collect());
            match distill::hydrate(&ls, &d, &layout(1), &i) {
                Ok(x) => {
                    reach(1);
                    // the items of a set may come back in any order
                    check(k == 2 || x.into_untyped() == val, 5)
                }
                Err(_) => check(false, 5),
            }
        }
        Err(_) => {
            reach(2);
            check(!fits(k, 1, &val), 6)
        }
    }
}

// ---- inputs and layouts that are not there ----------------------------------------------------

/// Any number of inputs, and layouts that are defined or not.
#[no_mangle]
extern "C" fn h_rb_inputs(_t: u64) {
    use distill::{de, hy};
    let k = choose(9);
    let n = choose(3);
    let names = [r#"[]"#, r#"["a"]"#, r#"["a","b"]"#][n as usize];
    let on = |x: &str| if n > 0 { format!(r#""{x}":"_:a","#) } else { format!(r#""{x}":"{E}r","#) };
    let doc = match k {
        0 => format!(r#"{{"type":"string","id":"{E}l/1","input":{names},{}"pattern":"x"}}"#, on("resource")),
        1 => format!(r#"{{"type":"id","id":"{E}l/1",{}"input":{names}}}"#, on("resource")),
        2 => format!(r#"{{"type":"unit","id":"{E}l/1","input":{names}}}"#),
        3 => format!(r#"{{"type":"record","id":"{E}l/1","input":{names},"fields":{{}}}}"#),
        4 => format!(r#"{{"type":"sum","id":"{E}l/1","input":{names},"variants":{{"a":{{"value":{{"layout":{{"type":"unit","input":[]}},"input":[]}}}}}}}}"#),
        5 => format!(r#"{{"type":"list","id":"{E}l/1","input":{names},"head":"{E}nil","tail":"{E}nil","node":{{"value":{{"layout":{{"type":"unit","input":[]}},"input":[]}},"dataset":[]}}}}"#),
        6 => format!(r#"{{"type":"set","id":"{E}l/1","input":{names},"item":{{"value":{{"layout":{{"type":"unit","input":[]}},"input":[]}},"intro":[],"dataset":[]}}}}"#),
        7 => format!(r#"{{"type":"tuple","id":"{E}l/1","input":{names},"items":[]}}"#),
        _ => format!(r#"{{"type":"unit","id":"{E}l/2","input":{names}}}"#),
    };
    let val = match k {
        0 => s("x"),
        1 => s("https://ex.org/r"),
        2 | 4 => Value::unit(),
        3 => Value::Map(BTreeMap::new()),
        _ => list(vec![]),
    };
    let given = choose(4);
    // as an item of a tuple, and at the top
    let all_self = vec![r#""_:self""#; given as usize].join(",");
    let outer = format!(r#"{{"type":"tuple","id":"{E}l/9","items":[{{"value":{{"layout":"{E}l/1","input":[{all_self}]}},"intro":[],"dataset":[]}}]}}"#);
    let ls = all(&[&doc, &outer]);
    let entry = if k == 0 { lit("x", "string") } else { ex("i") };
    let a = if flag() {
        distill::hydrate(&ls, &Plain(vec![]), &layout(9), &[entry])
    } else {
        distill::hydrate(&ls, &Plain(vec![]), &layout(1), &vec![entry; given as usize])
    };
    let b = distill::dehydrate(&ls, &list(vec![val]), &layout(9), Default::default());
    if k == 8 {
        reach(1);
        check(matches!(&a, Err(hy::Error::LayoutNotFound(r)) if *r == layout(1)), 7);
        check(matches!(&b, Err(de::Error::LayoutNotFound(r)) if *r == layout(1)), 7);
    } else if given != n {
        reach(2);
        check(matches!(&a, Err(hy::Error::InvalidInputCount { expected, found }) if (*expected, *found) == (n, given)), 8);
        check(matches!(&b, Err(de::Error::InvalidInputCount { expected, found }) if (*expected, *found) == (n, given)), 8);
    } else {
        reach(3);
        check(!matches!(&a, Err(hy::Error::InvalidInputCount { .. } | hy::Error::LayoutNotFound(_))), 9);
        check(!matches!(&b, Err(de::Error::InvalidInputCount { .. } | de::Error::LayoutNotFound(_))), 9);
        // these layouts ask for nothing
        check(a.is_ok() || k < 2 && n == 0, 10);
        check(b.is_ok() || k < 2, 10)
    }
}

// ---- documents --------------------------------------------------------------------------------

/// Something in the place of every part of a document: built, if it can be, and used both ways.
#[no_mangle]
extern "C" fn h_rb_build(_t: u64) {
    let hole = HOLES[choose(HOLES.len() as u32) as usize];
    let x = filler();
    let doc = hole.replace('@', &x);
    let doc = if hole.starts_with(r#"{"type":""#) { doc.replacen('{', r#"{"base":"https://ex.org/","#, 1) } else { doc };
    let Ok(doc) = serde_json::from_str::<abs::syntax::Layout>(&doc) else {
        reach(1);
        return;
    };
    let mut b = abs::Builder::new();
    parse(r#"{"type":"string","id":"https://ex.org/l"}"#).build(&mut b).unwrap();
    let Ok(r) = doc.build(&mut b) else {
        reach(2);
        return;
    };
    let ls = b.build();
    let n = ls.get(&r).and_then(Layout::input_count).unwrap_or(1);
    let inputs: Vec<Term> = (0..n).map(|i| ex(&format!("i{i}"))).collect();
    let quads = vec![
        Quad(ex("i0"), ex("p"), lit("x", "string"), None),
        Quad(ex("i0"), pred(b'f'), lit("x", "string"), None),
        Quad(ex("i0"), pred(b'r'), node(8), None),
        Quad(ex("i0"), ex("b"), ex("i0"), None),
    ];
    reach(if distill::hydrate(&ls, &Plain(quads), &r, &inputs).is_ok() { 3 } else { 4 });
    for v in [s("x"), Value::unit(), num(1u8), list(vec![]), list(vec![s("x")]), map([]), map([("f", s("x"))])] {
        if let Ok((d, i)) = distill::dehydrate(&ls, &v, &r, Default::default()) {
            reach(5);
            let d = Plain(d.iter().map(|q| q.into_cloned()).collect());
            let _ = distill::hydrate(&ls, &d, &r, &i);
        }
    }
}

entries!(h_rb_cycle, h_rb_trees, h_rb_inputs, h_rb_build);
