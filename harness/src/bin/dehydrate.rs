//! P03, P04: which trees a layout accepts, and which statements it writes for them, against a
//! naive reading of the layout.
use harness::{refsem::*, tl::*, *};

/// `full`: compare the statements too, else only whether the value is accepted.
fn compare(mut x: L, val: Value, full: bool) {
    number(&mut x);
    let n = if matches!(x.k, K::Never | K::Always) { 1 } else { x.input.len() };
    let (ls, r) = build(&json(&x));
    let a = distill::dehydrate(&ls, &val, &r, Default::default());
    let mut o = Out::default();
    let inputs: Vec<R> = (0..n).map(R::Input).collect();
    let b = o.value(&x, &val, None, &inputs).and_then(|()| o.finish(n));
    match (a, b) {
        (Ok((d, i)), Ok((spec, j))) => {
            reach(1);
            if full {
                let d: Vec<Quad> = d.iter().map(|q| q.into_cloned()).collect();
                check(i == j, 3);
                check(same_dataset(&d, &spec, &i), 4)
            }
        }
        (Err(_), Err(_)) => reach(2),
        (Ok(_), Err(_)) => check(full, 1),
        (Err(_), Ok(_)) => check(full, 2),
    }
}
fn leaf(k: u32) -> L {
    l(match k {
        0 => K::Str(None),
        1 => K::Id,
        2 => K::Bool,
        3 => K::Num("integer"),
        4 => K::Unit(Value::string("k".to_owned())),
        5 => K::Always,
        _ => K::Never,
    })
}
fn text() -> Value {
    match choose(2) {
        0 => Value::string(ascii(1)),
        _ => Value::string(format!("https://ex.org/{}", chars_in(1, b'a', b'z'))),
    }
}
fn literal() -> Value {
    match choose(6) {
        0 | 1 => text(),
        2 => boolean(u8_() & 1 == 1),
        3 => num(below(10)),
        4 => Value::unit(),
        _ => Value::Literal(Literal::ByteString(vec![1])),
    }
}
fn any(depth: u32) -> Value {
    match choose(if depth == 0 { 1 } else { 3 }) {
        0 => literal(),
        1 => {
            let n = choose(3);
            list((0..n).map(|_| any(depth - 1)).collect())
        }
        _ => map_of(&["x", "y"], |_| any(depth - 1)),
    }
}
/// A map over any of the keys.
fn map_of(keys: &[&str], mut f: impl FnMut(&str) -> Value) -> Value {
    let mut m = BTreeMap::new();
    for k in keys {
        if flag() {
            m.insert(s(k), f(k));
        }
    }
    Value::Map(m)
}
macro_rules! two {
    ($($f:ident $de:ident $dq:ident;)*) => {
        $(#[no_mangle] extern "C" fn $de(t: u64) { $f(t, false) }
          #[no_mangle] extern "C" fn $dq(t: u64) { $f(t, true) })*
        entries!($($de, $dq),*);
    };
}

/// Every literal layout on every kind of value.
fn literals(t: u64, full: bool) {
    let k = choose(8);
    reach(10 + k);
    let x = match k {
        7 => l(K::Unit(list(vec![num(1u8)]))),
        k => leaf(k),
    };
    let x = if flag() { l(K::Record(vec![part("x", x, "p")])) } else { x };
    let val = any(if t > 0 { 2 } else { 1 });
    compare(x, val, full)
}
/// Records: required and optional fields, unknown keys, values of the wrong kind.
fn records(_t: u64, full: bool) {
    let x = l(K::Record(vec![part("x", leaf(choose(4)), "p").req(flag()), part("y", leaf(choose(2)), "q").req(flag())]));
    let mut val = map_of(&["x", "y", "z"], |k| if k == "z" { boolean(true) } else { literal() });
    if let Value::Map(m) = &mut val {
        if flag() {
            m.insert(num(1u8), s("z"));
        }
    }
    compare(x, val, full)
}
/// Records in records; identifiers of the subjects.
fn nested(t: u64, full: bool) {
    let id = Part { name: "id", intro: vec![], f: f(l(K::Id), "self"), ds: vec![], required: flag() };
    let mut inner = l(K::Record(vec![id.clone(), part("v", leaf(0), "v").req(flag())]));
    if flag() {
        inner.intro = vec!["t"];
        inner.ds = vec![q(v("self"), i("t"), v("t")), q(v("self"), i("t"), i("T"))];
    }
    let x = l(K::Record(vec![id, part("a", inner.clone(), "a"), part("b", inner, "b")]));
    let sub = |k: u32| {
        map_of(&["id", "v"], |n| match (n, k) {
            ("id", _) => text(),
            (_, 0) => Value::string(ascii(1)),
            _ => boolean(true),
        })
    };
    let (ka, kb) = (choose(2), if t > 0 { choose(2) } else { 0 });
    let val = map_of(&["id", "a", "b"], |n| match n {
        "id" => text(),
        "a" => sub(ka),
        _ if t > 0 => sub(kb),
        _ => map([("id", s("https://ex.org/b")), ("v", Value::string(ascii(1)))]),
    });
    compare(x, val, full)
}
/// Sums: none, one or several variants fit; what rejected variants would have written stays out.
fn sums(_t: u64, full: bool) {
    let on_self = |n: N, x: L| Part { name: n, intro: vec![], f: f(x, "self"), ds: vec![], required: false };
    let how = choose(4);
    reach(10 + how);
    match how {
        0 => {
            let (i, j, k) = (choose(4), choose(4), choose(3));
            let x = l(K::Sum(vec![on_self("a", leaf(i)), on_self("b", leaf(j)), part("c", leaf(k), "c")]));
            let x = if flag() { l(K::Record(vec![part("x", x, "p")])) } else { x };
            let val = literal();
            let val = if matches!(x.k, K::Record(_)) { map([("x", val)]) } else { val };
            compare(x, val, full)
        }
        1 => {
            // records told apart by their fields, that share a subject and its identifier
            let id = |x: L| Part { name: "id", intro: vec![], f: f(x, "self"), ds: vec![], required: false };
            let name = |k: u32| if k == 0 { id(leaf(1)) } else { part("id", leaf(0), "n") };
            let a = l(K::Record(vec![name(choose(2)), part("u", leaf(0), "u").req(true)]));
            let b = l(K::Record(vec![name(choose(2)), part("w", leaf(0), "w").req(flag()), part("u", leaf(2), "u2")]));
            let mut b = b;
            b.ds = vec![q(v("self"), i("t"), i("B"))];
            let x = l(K::Sum(vec![on_self("a", a), on_self("b", b)]));
            let val = map_of(&["id", "u", "w"], |n| match n {
                "id" => text(),
                "u" => literal(),
                _ => Value::string(ascii(1)),
            });
            compare(x, val, full)
        }
        2 => {
            // a sum inside of a sum
            let inner = l(K::Sum(vec![on_self("a", leaf(choose(3))), part("b", leaf(choose(3)), "b")]));
            let x = l(K::Sum(vec![on_self("c", inner), part("d", leaf(choose(4)), "d")]));
            compare(x, literal(), full)
        }
        _ => {
            // variables of a variant, and the sum's own statements
            let mut p = part("a", leaf(0), "a");
            p.intro = vec!["m", "value"];
            p.ds = vec![q(v("self"), i("a"), v("m")), q(v("m"), v("n"), v("value"))];
            let mut r = part("b", leaf(1), "b");
            r.intro = vec!["value", "m"];
            r.ds = vec![q(v("self"), v("m"), v("value"))];
            let mut x = l(K::Sum(vec![p, r]));
            x.intro = vec!["n"];
            x.ds = vec![q(v("n"), i("t"), i("T"))];
            compare(x, literal(), full)
        }
    }
}
/// Lists, sets and tuples, with the wrong number or kind of items.
fn lists(t: u64, full: bool) {
    let k = choose(3);
    let which = choose(3);
    reach(10 + which);
    let item = if flag() { leaf(k) } else { l(K::Record(vec![part("x", leaf(k), "x")])) };
    let mut x = match which {
        0 => l(K::Set(part("", item.clone(), "p"))),
        1 => list_of(item.clone()),
        _ => l(K::Tuple(vec![part("", item.clone(), "p"), part("", leaf(0), "q")])),
    };
    if flag() {
        x.ds = vec![q(v("self"), i("t"), i("L"))];
    }
    let x = if flag() { l(K::Record(vec![part("x", x, "o")])) } else { x };
    let n = choose(if t > 0 || which == 2 { 4 } else { 3 });
    let is_rec = matches!(item.k, K::Record(_));
    let val = (0..n)
        .map(|i| {
            if is_rec && (which < 2 || i == 0) {
                map_of(&["x"], |_| if i < 2 { literal() } else { text() })
            } else if i < 2 {
                literal()
            } else {
                text()
            }
        })
        .collect();
    let val = list(val);
    let val = if matches!(x.k, K::Record(_)) { map([("x", val)]) } else { val };
    compare(x, val, full)
}
/// Lists with their own cells: several statements per node, an end that is not `rdf:nil`.
fn cells(_t: u64, full: bool) {
    let mut x = list_of(leaf(0));
    let named = flag();
    if let K::List { head, tail, h, r, node } = &mut x.k {
        *head = if flag() { v("start") } else { v("self") };
        *tail = if named { i("end") } else { v("self") };
        *h = "c";
        *r = "n";
        node.intro = vec!["m", "value"];
        node.ds = vec![q(v("c"), i("i"), v("m")), q(v("m"), i("v"), v("value")), q(v("c"), i("n"), v("n")), q(v("self"), i("has"), v("value"))];
    }
    x.intro = vec!["start"];
    x.ds = vec![q(v("self"), i("s"), v("start"))];
    let n = choose(4);
    compare(x, list((0..n).map(|_| Value::string(ascii(1))).collect()), full)
}
/// Named graphs, for every kind of layout.
fn graphs(_t: u64, full: bool) {
    let mut rec = l(K::Record(vec![part("v", leaf(0), "v")]));
    if flag() {
        rec.ds = vec![q(v("self"), i("t"), i("R"))];
    }
    let mut p = part("a", rec, "p");
    p.f.graph = match choose(4) {
        0 => None,
        1 => Some(None),
        2 => Some(Some(i("g"))),
        _ => Some(Some(v("value"))),
    };
    match choose(3) {
        0 => (),
        1 => p.ds[0].3 = Some(i("k")),
        _ => {
            p.intro.push("h");
            p.ds[0].3 = Some(v("h"))
        }
    }
    let k = choose(5);
    reach(10 + k);
    let item = || map([("v", Value::string(ascii(1)))]);
    let (x, val) = match k {
        0 => (l(K::Record(vec![p])), map([("a", item())])),
        1 => (l(K::Sum(vec![p])), item()),
        2 => (l(K::Set(p)), list(vec![item(), item()])),
        3 => (l(K::Tuple(vec![p])), list(vec![item()])),
        _ => {
            let mut x = list_of(leaf(0));
            if let K::List { node, .. } = &mut x.k {
                node.ds = p.ds;
                node.ds[0].0 = v("head");
                node.ds.push(q(v("head"), rest(), v("rest")));
                node.f = p.f;
                node.intro = p.intro;
            }
            (x, list(vec![item(), item()]))
        }
    };
    let mut x = x;
    if flag() {
        x.intro = vec!["w"];
        x.ds = vec![q(v("self"), i("t"), v("w"))];
    }
    match choose(3) {
        0 => compare(x, val, full),
        1 => compare(l(K::Record(vec![part("o", x, "o").graph(Some(i("h")))])), map([("o", val)]), full),
        _ => compare(l(K::Record(vec![part("o", x, "o").graph(Some(v("self")))])), map([("o", val)]), full),
    }
}
/// Several inputs, shared resources, constants as inputs.
fn inputs(_t: u64, full: bool) {
    let mut inner = l(K::Record(vec![part("v", leaf(choose(3)), "b")]));
    inner.input = vec!["u", "w"];
    if let K::Record(p) = &mut inner.k {
        p[0].ds = vec![q(v("u"), i("b"), v("value")), q(v("w"), i("c"), v("value"))];
        if flag() {
            p[0].f.input = vec![v("w")];
        }
    }
    let how = choose(6);
    reach(10 + how);
    let mut p = part("x", inner, "a");
    p.f.input = match how {
        0 => vec![v("self"), v("value")],
        1 => vec![v("value"), v("self")],
        2 => vec![v("value")],
        3 => vec![v("value"), v("value")],
        4 => vec![i("c"), v("value")],
        _ => vec![v("value"), P::L("d".into(), "string")],
    };
    let val = map([("v", literal())]);
    if flag() {
        let L { k, .. } = *p.f.l.clone();
        let mut x = l(k);
        x.input = vec!["u", "w"];
        compare(x, val, full)
    } else {
        compare(l(K::Record(vec![p])), map([("x", val)]), full)
    }
}
/// Literals that are the value of something else than their only input.
fn resource(_t: u64, full: bool) {
    let (k, how) = (choose(5), choose(6));
    let mut x = leaf(k);
    x.res = match how {
        _ if k == 4 => None,
        0 => None,
        1 => Some(i("b")),
        2 => Some(P::L("5".into(), "integer")),
        3 => Some(P::L("b".into(), "string")),
        4 => Some(v("w")),
        _ => Some(v("m")),
    };
    let n = choose(3) as usize;
    x.input = vec!["u", "w"][..n].to_vec();
    if how == 4 && n < 2 || how == 0 && n == 0 && k < 4 {
        return; // not a layout
    }
    if how == 5 {
        x.intro = vec!["m"];
        x.ds = match n {
            0 => vec![q(i("s"), i("n"), v("m"))],
            _ => vec![q(v("u"), i("n"), v("m"))],
        };
    }
    reach(10 + k);
    reach(20 + n as u32);
    let val = match choose(2) {
        0 => Value::string(format!("https://ex.org/{}", chars_in(1, b'a', b'c'))),
        _ => match k {
            2 => boolean(u8_() & 1 == 1),
            3 => num(below(10)),
            _ => Value::string(chars_in(1, b'a', b'z')),
        },
    };
    match choose(2) {
        0 => compare(x, val, full),
        _ => {
            let m = choose(3) as usize;
            let mut p = part("f", x, "a");
            p.f.input = vec![v("self"), v("value")][..m].to_vec();
            compare(l(K::Record(vec![p])), map([("f", val)]), full)
        }
    }
}
two! {
    literals h_de_literals h_dq_literals;
    records h_de_records h_dq_records;
    nested h_de_nested h_dq_nested;
    sums h_de_sums h_dq_sums;
    lists h_de_lists h_dq_lists;
    cells h_de_cells h_dq_cells;
    graphs h_de_graphs h_dq_graphs;
    inputs h_de_inputs h_dq_inputs;
    resource h_de_resource h_dq_resource;
}
