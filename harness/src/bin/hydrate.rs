//! P02: what a layout reads from a dataset, against a naive reading of the layout.
use harness::{refsem::*, tl::*, *};

fn obj(k: u32) -> Term {
    match k {
        0 => iri(&format!("https://ex.org/{}", chars_in(1, b'a', b'c'))),
        1 => lit(&ascii(1), "string"),
        2 => lit(["true", "false", "1", "0", "yes"][choose(5) as usize], "boolean"),
        3 => lit(&ascii(1), "integer"),
        _ => blank("_:b"),
    }
}
fn prop(lo: u8, hi: u8) -> Term {
    iri(&format!("https://ex.org/{}", chars_in(1, lo, hi)))
}
fn ex(x: &str) -> Term {
    iri(&format!("https://ex.org/{x}"))
}
fn compare(mut x: L, d: Vec<Quad>, input: &[Term]) {
    number(&mut x);
    let mut u: Vec<Quad> = vec![];
    for q in d {
        if !u.contains(&q) {
            u.push(q)
        }
    }
    let (ls, r) = build(&json(&x));
    let ds = Plain(u);
    let a = distill::hydrate(&ls, &ds, &r, input);
    let b = hydrate(&ds.0, &x, None, input);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            reach(1);
            check(same(&a, &b), 3)
        }
        (Err(_), Err(_)) => reach(2),
        (Ok(_), Err(_)) => check(false, 1),
        (Err(_), Ok(_)) => check(false, 2),
    }
}
fn leaf(k: u32) -> L {
    l(match k {
        0 => K::Id,
        1 => K::Str(None),
        2 => K::Bool,
        3 => K::Num("integer"),
        _ => K::Unit(Value::unit()),
    })
}

/// One field of every literal layout over every kind of object; the kind of error too.
#[no_mangle]
extern "C" fn h_hy_literals(t: u64) {
    let (k, o) = (choose(5), choose(6));
    let n = 1 + choose(if t > 0 { 3 } else { 2 }) as usize;
    let term = match o {
        0 => iri(&format!("https://ex.org/{}", chars_in(n, b'a', b'z'))),
        1 => lit(&ascii(n), "string"),
        2 => lit(&ascii(n), "boolean"),
        3 => lit(&ascii(n), "integer"),
        4 => Term::Literal(rdf_types::Literal::new(ascii(n), LiteralType::LangString(langtag::LangTagBuf::new("en".to_owned()).unwrap()))),
        _ => blank("_:b"),
    };
    let x = l(K::Record(vec![part("a", leaf(k), "a").req(choose(2) == 1)]));
    reach(10 + k);
    compare(x, vec![Quad(ex("s"), ex("a"), term, None)], &[ex("s")])
}

/// Two fields, up to three statements with any of the predicates.
#[no_mangle]
extern "C" fn h_hy_record(t: u64) {
    let (k, j) = (choose(2), choose(if t > 0 { 3 } else { 2 }));
    let x = l(K::Record(vec![part("x", leaf(k), "b").req(flag()), part("y", leaf(j), "c").req(flag())]));
    let n = choose(4);
    let d = (0..n).map(|_| Quad(ex("s"), prop(b'a', b'c'), obj(choose(2)), None)).collect();
    compare(x, d, &[ex("s")])
}

/// A record under a record: the data may be shared, missing or about something else.
#[no_mangle]
extern "C" fn h_hy_nested(_t: u64) {
    let inner = l(K::Record(vec![part("v", leaf(1), "p").req(flag())]));
    let x = l(K::Record(vec![part("l", inner.clone(), "a").req(true), part("r", inner, "b")]));
    let mut d = vec![Quad(ex("s"), prop(b'a', b'b'), obj(0), None), Quad(ex("s"), prop(b'a', b'b'), obj(0), None)];
    let n = choose(3);
    for _ in 0..n {
        d.push(Quad(obj(0), ex("p"), obj(1), None));
    }
    compare(x, d, &[ex("s")])
}

/// Sums: by property, by literal kind, by the shape of a record, nested in a record or not.
#[no_mangle]
extern "C" fn h_hy_sum(_t: u64) {
    let how = choose(4);
    reach(10 + how);
    let by = |n: N, k: u32| {
        let mut p = part(n, leaf(k), n);
        p.ds = vec![];
        p.intro = vec![];
        p.f.input = vec![v("self")];
        p
    };
    match how {
        0 => {
            let x = l(K::Sum(vec![part("a", leaf(1), "a"), part("b", leaf(0), "b"), part("c", leaf(1), "b")]));
            let n = choose(3);
            let d = (0..n).map(|_| Quad(ex("s"), prop(b'a', b'c'), obj(choose(2)), None)).collect();
            compare(x, d, &[ex("s")])
        }
        1 => {
            let s = l(K::Sum(vec![by("a", 1), by("b", 0), by("c", 2), by("d", 3)]));
            let x = l(K::Record(vec![part("f", s, "f").req(flag())]));
            compare(x, vec![Quad(ex("s"), ex("f"), obj(choose(5)), None)], &[ex("s")])
        }
        2 => {
            let rec = |p: &'static str| {
                let mut r = l(K::Record(vec![part("v", leaf(1), p).req(true)]));
                r.ds = vec![q(v("self"), i("t"), i(&p.to_uppercase()))];
                r
            };
            let mut vs = vec![by("a", 0), by("b", 0)];
            *vs[0].f.l = rec("a");
            *vs[1].f.l = rec("b");
            let x = l(K::Sum(vs));
            let n = 1 + choose(2);
            let mut d: Vec<Quad> = (0..n).map(|_| Quad(ex("s"), ex("t"), iri(&format!("https://ex.org/{}", chars_in(1, b'A', b'C'))), None)).collect();
            d.push(Quad(ex("s"), prop(b'a', b'c'), obj(1), None));
            compare(x, d, &[ex("s")])
        }
        _ => {
            // two variants that read the same data, the second with a constraint of its own
            let mut vs = vec![by("a", 1), by("b", 1)];
            vs[1].intro = vec!["w"];
            vs[1].ds = vec![q(v("w"), i("p"), v("self"))];
            let x = l(K::Record(vec![part("f", l(K::Sum(vs)), "f")]));
            let o = obj(1);
            let mut d = vec![Quad(ex("s"), ex("f"), o, None)];
            let n = choose(3);
            for _ in 0..n {
                d.push(Quad(obj(0), ex("p"), obj(1), None))
            }
            compare(x, d, &[ex("s")])
        }
    }
}

/// Sets: every match is an item, and an item that cannot be read is an error.
#[no_mangle]
extern "C" fn h_hy_set(_t: u64) {
    let how = choose(3);
    reach(10 + how);
    match how {
        0 => {
            let k = choose(2);
            let x = l(K::Set(part("", leaf(k), "a")));
            let n = choose(4);
            let d = (0..n).map(|_| Quad(ex("s"), prop(b'a', b'b'), obj(choose(2)), None)).collect();
            compare(x, d, &[ex("s")])
        }
        1 => {
            // two hops: one item per way to get there
            let mut p = part("", leaf(1), "a");
            p.intro = vec!["m", "value"];
            p.ds = vec![q(v("self"), i("a"), v("m")), q(v("m"), i("b"), v("value"))];
            let x = l(K::Set(p));
            let mut d = vec![];
            for _ in 0..choose(3) {
                d.push(Quad(ex("s"), ex("a"), obj(0), None));
            }
            for _ in 0..choose(3) {
                d.push(Quad(obj(0), ex("b"), obj(1), None));
            }
            compare(x, d, &[ex("s")])
        }
        _ => {
            // items of several values
            let mut p = part("", l(K::Record(vec![part("u", leaf(1), "u"), part("w", leaf(1), "w").req(true)])), "a");
            p.ds = vec![q(v("self"), i("a"), v("value")), q(v("value"), i("w"), P::L("x".into(), "string"))];
            let x = l(K::Set(p));
            let mut d = vec![Quad(ex("s"), ex("a"), obj(0), None), Quad(ex("s"), ex("a"), obj(0), None)];
            for _ in 0..choose(3) {
                d.push(Quad(obj(0), prop(b'v', b'w'), obj(1), None));
            }
            compare(x, d, &[ex("s")])
        }
    }
}

fn rdf(x: &str) -> Term {
    iri(&format!("http://www.w3.org/1999/02/22-rdf-syntax-ns#{x}"))
}
/// Lists over arbitrary cells: shared, cyclic, branching, cut short.
#[no_mangle]
extern "C" fn h_hy_list(t: u64) {
    let mut d = vec![];
    let n = choose(if t > 0 { 4 } else { 3 });
    for k in 0..n {
        let cell = if k == 0 { ex("a") } else { obj(0) };
        let item = obj(1);
        let next = if flag() { rdf("nil") } else { obj(0) };
        d.push(Quad(cell.clone(), rdf("first"), item, None));
        d.push(Quad(cell, rdf("rest"), next, None));
    }
    let x = list_of(leaf(1));
    let start = if flag() { rdf("nil") } else { ex("a") };
    compare(x, d, &[start])
}

/// Lists with their own cells and end; loose statements.
#[no_mangle]
extern "C" fn h_hy_list2(_t: u64) {
    let mut x = list_of(leaf(1));
    if let K::List { head, tail, h, r, node } = &mut x.k {
        *head = v("start");
        *tail = v("end");
        *h = "c";
        *r = "n";
        node.intro = vec!["m", "value"];
        node.ds = vec![q(v("c"), i("i"), v("m")), q(v("m"), i("v"), v("value")), q(v("c"), i("n"), v("n"))];
    }
    x.intro = vec!["start", "end"];
    x.ds = vec![q(v("self"), i("s"), v("start")), q(v("self"), i("e"), v("end"))];
    let mut d = vec![Quad(ex("l"), ex("s"), ex("a"), None), Quad(ex("l"), ex("e"), obj(0), None)];
    let n = choose(3);
    for k in 0..n {
        let cell = if k == 0 { ex("a") } else { obj(0) };
        let m = obj(0);
        d.push(Quad(cell.clone(), ex("i"), m.clone(), None));
        d.push(Quad(m, ex("v"), obj(1), None));
        d.push(Quad(cell, ex("n"), obj(0), None));
    }
    compare(x, d, &[ex("l")])
}

/// Tuples.
#[no_mangle]
extern "C" fn h_hy_tuple(_t: u64) {
    let k = choose(2);
    let x = l(K::Tuple(vec![part("", leaf(k), "a"), part("", leaf(1), "b")]));
    let n = choose(4);
    let d = (0..n).map(|_| Quad(ex("s"), prop(b'a', b'c'), obj(choose(2)), None)).collect();
    compare(x, d, &[ex("s")])
}

/// Named graphs: where each part looks, for every kind of layout.
#[no_mangle]
extern "C" fn h_hy_graph(_t: u64) {
    let mut p = part("a", l(K::Record(vec![part("v", leaf(1), "v")])), "p");
    p.f.graph = match choose(4) {
        0 => None,
        1 => Some(None),
        2 => Some(Some(i("g"))),
        _ => Some(Some(v("value"))),
    };
    match choose(3) {
        0 => (),
        1 => p.ds[0].3 = Some(i("g")),
        _ => {
            p.intro.push("h");
            p.ds[0].3 = Some(v("h"))
        }
    }
    let k = choose(5);
    reach(10 + k);
    let x = match k {
        0 => l(K::Record(vec![p])),
        1 => l(K::Sum(vec![p])),
        2 => l(K::Set(p)),
        3 => l(K::Tuple(vec![p])),
        _ => {
            let mut x = list_of(leaf(1));
            if let K::List { node, .. } = &mut x.k {
                node.ds = p.ds;
                node.ds[0].0 = v("head");
                node.ds.push(q(v("head"), rest(), v("rest")));
                node.f = p.f;
                node.intro = p.intro;
            }
            x
        }
    };
    let outer = choose(2) == 1;
    let x = if outer { l(K::Record(vec![part("o", x, "o").graph(Some(i("h")))])) } else { x };
    let graph = || match choose(2) {
        0 => None,
        _ => Some(prop(b'g', b'h')),
    };
    let mut d = vec![];
    if outer {
        d.push(Quad(ex("t"), ex("o"), ex("s"), None));
    }
    d.push(Quad(ex("s"), ex("p"), ex("g"), graph()));
    if k == 4 {
        d.push(Quad(ex("s"), rdf("rest"), rdf("nil"), if outer { Some(ex("h")) } else { None }));
    }
    d.push(Quad(ex("g"), ex("v"), obj(1), graph()));
    compare(x, d, &[ex(if outer { "t" } else { "s" })])
}

/// Patterns: joins, repeated variables, constants, several inputs, variables that nothing binds.
#[no_mangle]
extern "C" fn h_hy_pattern(_t: u64) {
    let how = choose(6);
    reach(10 + how);
    match how {
        0 => {
            // a variable twice in one statement pattern
            let mut x = l(K::Record(vec![part("v", leaf(0), "a")]));
            if let K::Record(p) = &mut x.k {
                p[0].ds = vec![q(v("value"), i("a"), v("value"))];
            }
            let n = choose(4);
            let d = (0..n).map(|_| Quad(obj(0), prop(b'a', b'b'), obj(0), None)).collect();
            compare(x, d, &[ex("s")])
        }
        1 => {
            // a join of two statements over the predicate
            let mut x = l(K::Record(vec![part("v", leaf(1), "a")]));
            if let K::Record(p) = &mut x.k {
                p[0].intro = vec!["p", "value"];
                p[0].ds = vec![q(v("self"), i("a"), v("p")), q(v("self"), v("p"), v("value"))];
            }
            let n = choose(3);
            let mut d: Vec<Quad> = (0..n).map(|_| Quad(ex("s"), prop(b'a', b'c'), obj(1), None)).collect();
            for _ in 0..1 + choose(2) {
                d.push(Quad(ex("s"), ex("a"), obj(0), None));
            }
            compare(x, d, &[ex("s")])
        }
        2 => {
            // the record's own pattern must match exactly once
            let mut x = l(K::Record(vec![part("v", leaf(1), "b")]));
            x.intro = vec!["m"];
            x.ds = vec![q(v("self"), i("a"), v("m"))];
            if let K::Record(p) = &mut x.k {
                p[0].ds = vec![q(v("m"), i("b"), v("value"))];
            }
            let mut d = vec![];
            for _ in 0..choose(3) {
                d.push(Quad(ex("s"), ex("a"), obj(0), None));
            }
            for _ in 0..choose(3) {
                d.push(Quad(obj(0), ex("b"), obj(1), None));
            }
            compare(x, d, &[ex("s")])
        }
        3 => {
            // two inputs, in either order, or too few
            let mut inner = l(K::Record(vec![part("v", leaf(1), "b")]));
            inner.input = vec!["u", "w"];
            if let K::Record(p) = &mut inner.k {
                p[0].ds = vec![q(v("u"), i("b"), v("value")), q(v("w"), i("c"), v("value"))];
            }
            let mut p = part("x", inner, "a");
            p.f.input = match choose(3) {
                0 => vec![v("self"), v("value")],
                1 => vec![v("value"), v("self")],
                _ => vec![v("value")],
            };
            let x = l(K::Record(vec![p]));
            let d = vec![
                Quad(ex("s"), ex("a"), ex("o"), None),
                Quad(iri(&format!("https://ex.org/{}", if flag() { "s" } else { "o" })), prop(b'b', b'c'), obj(1), None),
                Quad(iri(&format!("https://ex.org/{}", if flag() { "s" } else { "o" })), prop(b'b', b'c'), obj(1), None),
            ];
            compare(x, d, &[ex("s")])
        }
        4 => {
            // constants in every position
            let mut x = l(K::Unit(Value::string("yes".to_owned())));
            x.ds = vec![q(v("self"), i("a"), P::L("k".into(), "string")), q(i("b"), v("self"), i("c"))];
            let d = vec![Quad(ex("s"), prop(b'a', b'b'), obj(choose(2)), None), Quad(obj(0), ex("s"), obj(0), None)];
            compare(x, d, &[ex("s")])
        }
        _ => {
            // a variable that no statement binds
            let mut p = part("x", leaf(choose(5)), "a");
            p.intro = vec!["m", "value"];
            p.ds = vec![q(v("self"), i("a"), v("m"))];
            match choose(3) {
                0 => (),
                1 => {
                    p.f.input = vec![v("m")];
                    p.f.graph = Some(Some(v("value")))
                }
                _ => p.f.input = vec![v("m")],
            }
            let x = match choose(4) {
                0 => l(K::Record(vec![p])),
                1 => l(K::Sum(vec![p])),
                2 => l(K::Tuple(vec![p])),
                _ => l(K::Set(p)),
            };
            compare(x, vec![Quad(ex("s"), ex("a"), obj(choose(3)), None)], &[ex("s")])
        }
    }
}
/// Literals that are the value of something else than their only input.
#[no_mangle]
extern "C" fn h_hy_resource(_t: u64) {
    let (k, how) = (choose(5), choose(6));
    let mut x = leaf(k);
    let term = match how {
        0 => None,
        1 => Some(i("b")),
        2 => Some(P::L("5".into(), "integer")),
        3 => Some(P::L("b".into(), "string")),
        4 => Some(v("w")),
        _ => Some(v("m")),
    };
    if k < 4 {
        x.res = term;
    }
    let n = choose(3) as usize;
    if n == 1 {
        x.input = vec!["u"];
    } else {
        x.input = vec!["u", "w"][..n].to_vec();
    }
    if how == 4 && n < 2 || how == 0 && n == 0 && k < 4 {
        return; // not a layout
    }
    if how == 5 {
        x.intro = vec!["m"];
        x.ds = match choose(2) {
            0 if n > 0 => vec![q(v("u"), i("n"), v("m"))],
            _ => vec![q(i("s"), i("n"), v("m"))],
        };
    }
    reach(10 + k);
    reach(20 + n as u32);
    let obj = |j: u32| match j {
        0 => iri(&format!("https://ex.org/{}", chars_in(1, b'a', b'z'))),
        1 => lit(&ascii(1), ["string", "string", "boolean", "integer", "string"][k as usize]),
        _ => blank("_:b"),
    };
    let o = obj(choose(3));
    let mut d = vec![Quad(ex("s"), ex("a"), o.clone(), None)];
    if how == 5 {
        for k in 0..choose(3) {
            d.push(Quad(ex("s"), ex("n"), obj(k), None));
        }
    }
    let m = choose(3) as usize;
    let given = [ex("s"), o];
    match choose(2) {
        0 => compare(x, d, &given[..m]),
        _ => {
            let mut p = part("f", x, "a").req(true);
            p.f.input = vec![v("self"), v("value")][..m].to_vec();
            compare(l(K::Record(vec![p])), d, &[ex("s")])
        }
    }
}
/// The indexed dataset of `rdf-types` instead of the plain one.
#[no_mangle]
extern "C" fn h_hy_indexed(_t: u64) {
    let mut inner = l(K::Record(vec![part("v", leaf(1), "p").req(flag())]));
    number(&mut inner);
    let x = l(K::Record(vec![part("l", inner, "a").req(true), part("r", leaf(0), "b")]));
    let mut x = x;
    number(&mut x);
    let o = || iri(&format!("https://ex.org/o/{}", chars_in(1, b'a', b'c')));
    let mut d: BTreeDataset = BTreeDataset::new();
    for _ in 0..2 {
        d.insert(Quad(ex("s"), prop(b'a', b'b'), o(), None));
    }
    for _ in 0..choose(3) {
        d.insert(Quad(o(), ex("p"), lit(&ascii(1), "string"), None));
    }
    let quads: Vec<Quad> = d.iter().map(|q| q.into_cloned()).collect();
    let (ls, r) = build(&json(&x));
    let a = distill::hydrate(&ls, &d.into_indexed(), &r, &[ex("s")]);
    let b = hydrate(&quads, &x, None, &[ex("s")]);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            reach(1);
            check(same(&a, &b), 3)
        }
        (Err(_), Err(_)) => reach(2),
        (Ok(_), Err(_)) => check(false, 1),
        (Err(_), Ok(_)) => check(false, 2),
    }
}
entries!(h_hy_indexed, h_hy_literals, h_hy_record, h_hy_nested, h_hy_sum, h_hy_set, h_hy_list, h_hy_list2, h_hy_tuple, h_hy_graph, h_hy_pattern, h_hy_resource);
