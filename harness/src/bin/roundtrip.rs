//! P01: a tree that conforms to a layout survives the trip to RDF and back.
use harness::{gen::*, refsem, tl::*, *};

/// Dehydrate, hydrate with the returned inputs, compare.
fn trip(src: &str, v: Value) {
    trip2(src, &v, &v)
}
fn trip2(src: &str, v: &Value, e: &Value) {
    let (ls, r) = build(src);
    match dehy(&ls, v, &r) {
        Err(_) => check(false, 1),
        Ok((d, i)) => {
            reach(1);
            match hy(&ls, &d, &r, &i) {
                Err(_) => check(false, 2),
                Ok(w) => {
                    reach(2);
                    check(w.into_untyped() == *e, 3)
                }
            }
        }
    }
}
const P: &str = "https://ex.org/";

fn in_record(layout: &str, v: Value) {
    trip(&format!(r#"{{"type":"record","fields":{{"a":{{"value":{layout},"property":"https://ex.org/a"}}}}}}"#), map([("a", v)]))
}

/// Every literal layout, in a field.
#[no_mangle]
extern "C" fn h_rt_literals(t: u64) {
    let k = choose(8);
    reach(10 + k);
    match k {
        0 => {
            let n = choose(if t > 0 { 9 } else { 5 }) as usize;
            in_record(r#"{"type":"string"}"#, Value::string(ascii(n)))
        }
        1 => in_record(r#"{"type":"boolean"}"#, boolean(u8_() & 1 == 1)),
        2 => in_record(r#"{"type":"number","datatype":"http://www.w3.org/2001/XMLSchema#integer"}"#, num(if t > 0 { u16_() as i16 as i32 } else { u8_() as i8 as i32 })),
        // decimals n/2^k, n/10^k: exact in both directions
        3 => {
            let d = [2i64, 4, 5, 10, 20, 100][choose(6) as usize];
            let n = num_rational::BigRational::new((u8_() as i8 as i64).into(), d.into());
            in_record(r#"{"type":"number","datatype":"http://www.w3.org/2001/XMLSchema#decimal"}"#, num(Number::new(n)))
        }
        4 => {
            let id = format!("{P}{}", chars_in(2, b'a', b'z'));
            trip(r#"{"type":"record","fields":{"id":{"intro":[],"value":{"layout":{"type":"id"},"input":"_:self"}}}}"#, map([("id", s(&id))]))
        }
        5 => in_record(r#"{"type":"id"}"#, s(&format!("{P}{}", chars_in(2, b'0', b'9')))),
        6 => in_record(r#"{"type":"string","datatype":"https://ex.org/T"}"#, Value::string(ascii(3))),
        _ => {
            // a unit layout stands for its constant
            let (c, v) = match choose(4) {
                0 => ("null", Value::unit()),
                1 => ("true", boolean(true)),
                2 => ("\"k\"", s("k")),
                _ => ("[1]", list(vec![num(1u8)])),
            };
            in_record(&format!(r#"{{"type":"unit","const":{c}}}"#), v)
        }
    }
}

/// Records with required and optional fields, present or not.
#[no_mangle]
extern "C" fn h_rt_record(_t: u64) {
    let (a, b) = (leaf(choose(LEAVES)), leaf(choose(LEAVES)));
    let req = choose(2) == 1;
    let (ha, hb) = (req || choose(2) == 1, choose(2) == 1);
    let src = format!(
        r#"{{"type":"record","fields":{{"x":{{"value":{},"property":"{}","required":{req}}},"y":{{"value":{},"property":"{}"}}}}}}"#,
        a.src, prop(1), b.src, prop(2)
    );
    let mut m = BTreeMap::new();
    if ha {
        m.insert(s("x"), a.v);
        reach(11)
    }
    if hb {
        m.insert(s("y"), b.v);
        reach(12)
    }
    trip(&src, Value::Map(m))
}

/// Nested records, with the subject's identifier in the tree or not.
#[no_mangle]
extern "C" fn h_rt_nested(_t: u64) {
    let a = leaf(choose(LEAVES));
    let with_id = choose(2) == 1;
    let inner = if with_id {
        format!(r#"{{"type":"record","fields":{{"id":{{"intro":[],"value":{{"layout":{{"type":"id"}},"input":"_:self"}}}},"v":{{"value":{},"property":"{}"}}}}}}"#, a.src, prop(1))
    } else {
        format!(r#"{{"type":"record","fields":{{"v":{{"value":{},"property":"{}"}}}}}}"#, a.src, prop(1))
    };
    let src = format!(
        r#"{{"type":"record","fields":{{"l":{{"value":{inner},"property":"{}"}},"r":{{"value":{inner},"property":"{}"}}}}}}"#,
        prop(2), prop(3)
    );
    let mk = |v: Value| {
        let mut m = BTreeMap::new();
        if with_id {
            // distinct subjects
            m.insert(s("id"), Value::string(format!("https://ex.org/s{}", chars_in(1, b'a', b'z'))));
        }
        m.insert(s("v"), v);
        Value::Map(m)
    };
    let l = mk(a.v.clone());
    if choose(2) == 1 {
        reach(11);
        trip(&src, map([("l", l)]))
    } else {
        let mut r = mk(a.v);
        if with_id {
            if let Value::Map(m) = &mut r {
                m.insert(s("id"), s("https://ex.org/other"));
            }
        }
        reach(12);
        trip(&src, map([("l", l), ("r", r)]))
    }
}

fn items(k: u32, n: u32) -> Vec<Value> {
    (0..n).map(|_| again(k)).collect()
}

/// Ordered lists of literals, at the root and in a field.
#[no_mangle]
extern "C" fn h_rt_list(t: u64) {
    let k = choose(LEAVES);
    let g = leaf(k);
    let n = choose(if t > 0 { 5 } else { 4 });
    reach(10 + n);
    let mut v = items(k, n);
    if n > 1 && choose(2) == 1 {
        v[1] = v[0].clone();
    }
    let l = format!(r#"{{"type":"list","node":{}}}"#, g.src);
    if choose(2) == 1 {
        in_record(&l, list(v))
    } else {
        trip(&l, list(v))
    }
}

/// Lists of lists and lists of records.
#[no_mangle]
extern "C" fn h_rt_list2(t: u64) {
    let k = choose(2);
    let g = leaf(k);
    let items = |k: u32, n: u32| -> Vec<Value> {
        if k == 0 && t == 0 {
            // shorter strings
            (0..n).map(|_| Value::string(ascii(1))).collect()
        } else {
            items(k, n)
        }
    };
    if choose(2) == 0 {
        let l = format!(r#"{{"type":"list","node":{{"type":"list","node":{}}}}}"#, g.src);
        let n = choose(3);
        let v = (0..n).map(|_| list(items(k, choose(3)))).collect();
        reach(11);
        in_record(&l, list(v))
    } else {
        let l = format!(r#"{{"type":"list","node":{{"type":"record","fields":{{"v":{{"value":{},"property":"{}"}}}}}}}}"#, g.src, prop(1));
        let n = choose(3);
        let v = items(k, n).into_iter().map(|x| if choose(2) == 1 { map([("v", x)]) } else { map([]) }).collect();
        reach(12);
        in_record(&l, list(v))
    }
}

/// Sets come back sorted, each literal once.
#[no_mangle]
extern "C" fn h_rt_set(t: u64) {
    let k = choose(LEAVES - 1);
    let g = leaf(k);
    let n = choose(if t > 0 { 4 } else { 3 });
    reach(10 + n);
    let v = items(k, n);
    let mut e = v.clone();
    e.sort();
    e.dedup();
    let l = format!(r#"{{"type":"set","item":{{"value":{},"property":"{}"}}}}"#, g.src, prop(1));
    if choose(2) == 1 {
        let l = format!(r#"{{"type":"record","fields":{{"a":{{"value":{l},"property":"{}"}}}}}}"#, prop(2));
        trip2(&l, &map([("a", list(v))]), &map([("a", list(e))]))
    } else {
        trip2(&l, &list(v), &list(e))
    }
}

/// Sets of records: equal items stay apart (each is its own resource).
#[no_mangle]
extern "C" fn h_rt_set2(_t: u64) {
    let k = choose(2);
    let g = leaf(k);
    let n = choose(3);
    reach(10 + n);
    let v: Vec<Value> = items(k, n).into_iter().map(|x| map([("v", x)])).collect();
    let mut e = v.clone();
    e.sort();
    let l = format!(
        r#"{{"type":"set","item":{{"value":{{"type":"record","fields":{{"v":{{"value":{},"property":"{}"}}}}}},"property":"{}"}}}}"#,
        g.src, prop(1), prop(2)
    );
    trip2(&l, &list(v), &list(e))
}

/// Tuples.
#[no_mangle]
extern "C" fn h_rt_tuple(_t: u64) {
    let n = choose(4);
    reach(10 + n);
    let mut its = vec![];
    let mut v = vec![];
    for i in 0..n {
        let g = leaf(if i == 0 { choose(LEAVES) } else { choose(2) });
        its.push(format!(r#"{{"value":{},"property":"{}"}}"#, g.src, prop(i)));
        v.push(g.v);
    }
    let l = format!(r#"{{"type":"tuple","items":[{}]}}"#, its.join(","));
    trip(&l, list(v))
}

/// Sums: told apart by a discriminating pattern, by literal type, by a record's required field.
#[no_mangle]
extern "C" fn h_rt_sum(_t: u64) {
    let which = choose(2);
    let how = choose(4);
    reach(10 + how);
    match how {
        0 => {
            // a property per variant
            let (a, b) = (leaf(0), leaf(1));
            let l = format!(
                r#"{{"type":"sum","variants":{{"a":{{"intro":["x"],"value":{{"layout":{},"input":"_:x"}},"dataset":[["_:self","{}","_:x"]]}},"b":{{"intro":["y"],"value":{{"layout":{},"input":"_:y"}},"dataset":[["_:self","{}","_:y"]]}}}}}}"#,
                a.src, prop(1), b.src, prop(2)
            );
            trip(&l, if which == 0 { a.v } else { b.v })
        }
        1 => {
            // by the type of the literal
            let (a, b) = (leaf(0), leaf(1));
            let l = format!(r#"{{"type":"sum","variants":{{"a":{{"value":{{"layout":{},"input":"_:self"}}}},"b":{{"value":{{"layout":{},"input":"_:self"}}}}}}}}"#, a.src, b.src);
            in_record(&l, if which == 0 { a.v } else { b.v })
        }
        2 => {
            // by type triple
            let rdf = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type";
            let l = format!(
                r#"{{"type":"sum","variants":{{"a":{{"value":{{"layout":{{"type":"record","dataset":[["_:self","{rdf}","https://ex.org/A"]],"fields":{{"u":{{"value":{{"type":"string"}},"property":"{}","required":true}}}}}},"input":"_:self"}}}},"b":{{"value":{{"layout":{{"type":"record","dataset":[["_:self","{rdf}","https://ex.org/B"]],"fields":{{"w":{{"value":{{"type":"string"}},"property":"{}"}}}}}},"input":"_:self"}}}}}}}}"#,
                prop(1), prop(1)
            );
            let x = Value::string(ascii(2));
            trip(&l, if which == 0 { map([("u", x)]) } else { map([("w", x)]) })
        }
        _ => {
            // a variant that fails only after part of it has been written
            let l = format!(
                r#"{{"type":"sum","variants":{{"a":{{"value":{{"layout":{{"type":"record","fields":{{"u":{{"value":{{"type":"string"}},"property":"{}"}},"w":{{"value":{{"type":"boolean"}},"property":"{}","required":true}}}}}},"input":"_:self"}}}},"b":{{"value":{{"layout":{{"type":"record","fields":{{"u":{{"value":{{"type":"string"}},"property":"{}","required":true}}}}}},"input":"_:self"}}}}}}}}"#,
                prop(1), prop(2), prop(3)
            );
            let x = Value::string(ascii(2));
            trip(&l, if which == 0 { map([("u", x), ("w", boolean(u8_() & 1 == 1))]) } else { map([("u", x)]) })
        }
    }
}

/// Data kept in a named graph.
#[no_mangle]
extern "C" fn h_rt_graph(_t: u64) {
    let k = choose(3);
    let g = leaf(k);
    let how = choose(3);
    reach(10 + how);
    let l = match how {
        // the field's value lives in the graph `g`
        0 => format!(
            r#"{{"type":"record","fields":{{"a":{{"value":{{"layout":{{"type":"record","fields":{{"v":{{"value":{},"property":"{}"}}}}}},"input":"_:value","graph":"https://ex.org/g"}},"property":"{}"}}}}}}"#,
            g.src, prop(1), prop(2)
        ),
        // in a graph named by a resource of the data
        1 => format!(
            r#"{{"type":"record","fields":{{"a":{{"value":{{"layout":{{"type":"record","fields":{{"v":{{"value":{},"property":"{}"}}}}}},"input":"_:value","graph":"_:value"}},"property":"{}"}}}}}}"#,
            g.src, prop(1), prop(2)
        ),
        // the pattern itself names the graph
        _ => format!(
            r#"{{"type":"record","fields":{{"a":{{"intro":["value","n"],"value":{{"layout":{{"type":"record","fields":{{"v":{{"value":{},"property":"{}"}}}}}},"input":"_:value"}},"dataset":[["_:self","{}","_:value","https://ex.org/g"]]}}}}}}"#,
            g.src, prop(1), prop(2)
        ).replace(",\"n\"", ""),
    };
    trip(&l, map([("a", map([("v", g.v)]))]))
}

/// The graph of a part's value, for every kind of layout, in the default and in a named graph.
#[no_mangle]
extern "C" fn h_rt_graphs(_t: u64) {
    use refsem::{l, part, v as var, K};
    let x = l(K::Record(vec![part("v", l(K::Str(None)), "v")]));
    let mut p = part("a", x, "p");
    p.f.graph = match choose(4) {
        0 => None,
        1 => Some(None),
        2 => Some(Some(refsem::i("g"))),
        _ => Some(Some(var("value"))),
    };
    let k = choose(5);
    reach(10 + k);
    let item = || map([("v", Value::string(ascii(1)))]);
    let (layout, v) = match k {
        0 => (l(K::Record(vec![p])), map([("a", item())])),
        1 => (l(K::Sum(vec![p])), item()),
        2 => (l(K::Set(p)), list(vec![item()])),
        3 => (l(K::Tuple(vec![p])), list(vec![item()])),
        _ => {
            let mut n = refsem::list_of(l(K::Never));
            if let K::List { node, .. } = &mut n.k {
                node.f = p.f;
            }
            (n, list(vec![item(), item()]))
        }
    };
    let (layout, v) = match choose(3) {
        0 => (layout, v),
        1 => (l(K::Record(vec![part("o", layout, "q").graph(Some(refsem::i("h")))])), map([("o", v)])),
        _ => (l(K::Record(vec![part("o", layout, "q").graph(Some(var("self")))])), map([("o", v)])),
    };
    trip(&refsem::json(&layout), v)
}

/// Patterns with introduced variables and constants, several inputs, extra quads.
#[no_mangle]
extern "C" fn h_rt_pattern(_t: u64) {
    let k = choose(3);
    let g = leaf(k);
    let how = choose(4);
    reach(10 + how);
    match how {
        // two hops between the record and the value
        0 => trip(
            &format!(
                r#"{{"type":"record","fields":{{"a":{{"intro":["m","value"],"value":{{"layout":{},"input":"_:value"}},"dataset":[["_:self","{}","_:m"],["_:m","{}","_:value"]]}}}}}}"#,
                g.src, prop(1), prop(2)
            ),
            map([("a", g.v)]),
        ),
        // a record whose own pattern introduces a resource used by a field
        1 => trip(
            &format!(
                r#"{{"type":"record","intro":["m"],"dataset":[["_:self","{}","_:m"]],"fields":{{"a":{{"intro":["v"],"value":{{"layout":{},"input":"_:v"}},"dataset":[["_:m","{}","_:v"]]}}}}}}"#,
                prop(1), g.src, prop(2)
            ),
            map([("a", g.v)]),
        ),
        // a layout with two inputs, the second is the object of the first
        2 => trip(
            &format!(
                r#"{{"type":"record","fields":{{"a":{{"intro":["m"],"value":{{"layout":{{"type":"record","input":["p","q"],"fields":{{"b":{{"intro":["v"],"value":{{"layout":{},"input":"_:v"}},"dataset":[["_:q","{}","_:v"],["_:p","{}","_:v"]]}}}}}},"input":["_:self","_:m"]}},"dataset":[["_:self","{}","_:m"]]}}}}}}"#,
                g.src, prop(1), prop(2), prop(3)
            ),
            map([("a", map([("b", g.v)]))]),
        ),
        // a list with its own node pattern
        _ => {
            let n = choose(3);
            trip(
                &format!(
                    r#"{{"type":"list","input":"start","head":"_:start","tail":"https://ex.org/end","node":{{"head":"h","rest":"r","intro":["i","n"],"value":{{"layout":{},"input":"_:i"}},"dataset":[["_:h","{}","_:n"],["_:n","{}","_:i"],["_:h","{}","_:r"]]}}}}"#,
                    g.src, prop(1), prop(2), prop(3)
                ),
                list(items(k, n)),
            )
        }
    }
}
entries!(h_rt_literals, h_rt_record, h_rt_nested, h_rt_list, h_rt_list2, h_rt_set, h_rt_set2, h_rt_tuple, h_rt_sum, h_rt_graph, h_rt_graphs, h_rt_pattern);
