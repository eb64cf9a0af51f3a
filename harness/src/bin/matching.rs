//! Pattern matching (P05): the interpreter's `Matching` and the one generated code uses.
//!
//! Resources are symbolic numbers. The matches are compared with those found by trying every way to
//! assign one statement to each pattern.

use harness::tl::{Plain, Quad};
use harness::*;

type Q = Quad<u8, u8, u8, u8>;
/// A position of a pattern: a resource or a variable.
#[derive(Clone, Copy)]
enum X {
    R(u8),
    V(u32),
}
type PQ = Quad<X, X, X, X>;
type Subst = Vec<Option<u8>>;

fn res() -> u8 {
    below(4)
}
fn quad(graphs: bool) -> Q {
    Quad(res(), res(), res(), if graphs && flag() { Some(res()) } else { None })
}
/// A set of `n` statements.
fn dataset(n: usize, graphs: bool) -> Vec<Q> {
    let qs: Vec<Q> = (0..n).map(|_| quad(graphs)).collect();
    for i in 0..n {
        for j in 0..i {
            let (a, b) = (&qs[i], &qs[j]);
            let g = match (a.3, b.3) {
                (None, None) => true,
                (Some(x), Some(y)) => x == y,
                _ => false,
            };
            assume(!((a.0 == b.0) & (a.1 == b.1) & (a.2 == b.2) & g));
        }
    }
    qs
}
fn x(vars: u32) -> X {
    match choose(vars + 1) {
        0 => X::R(res()),
        i => X::V(i - 1),
    }
}

/// Every way to assign one statement to each pattern.
fn reference(qs: &[Q], init: &Subst, ps: &[PQ]) -> Vec<Subst> {
    let Some((p, rest)) = ps.split_first() else { return vec![init.clone()] };
    let mut r = Vec::new();
    for q in qs {
        let mut s = init.clone();
        let mut ok = true;
        let mut pos = |p: &X, v: u8| match p {
            X::R(c) => ok &= *c == v,
            X::V(i) => match s[*i as usize] {
                Some(o) => ok &= o == v,
                None => s[*i as usize] = Some(v),
            },
        };
        pos(&p.0, q.0);
        pos(&p.1, q.1);
        pos(&p.2, q.2);
        match (&p.3, q.3) {
            (Some(p), Some(v)) => pos(p, v),
            (None, None) => {}
            _ => ok = false,
        }
        if ok {
            r.extend(reference(qs, &s, rest));
        }
    }
    r
}

macro_rules! under_test {
    ($m:ident, $pattern:path, $subst:path, $matching:path) => {
        mod $m {
            use super::*;
            use $matching as Matching;
            use $pattern as Pattern;
            use $subst as Substitution;

            fn subst(init: &Subst) -> Substitution<u8> {
                let mut s = Substitution::new();
                for v in init {
                    s.push(*v);
                }
                s
            }
            fn back(s: &Substitution<u8>) -> Subst {
                (0..s.len()).map(|i| s.get(i).copied()).collect()
            }
            fn pat(x: &X) -> Pattern<u8> {
                match x {
                    X::R(r) => Pattern::Resource(*r),
                    X::V(i) => Pattern::Var(*i),
                }
            }
            fn pats(ps: &[PQ]) -> Vec<Quad<Pattern<u8>, Pattern<u8>, Pattern<u8>, Pattern<u8>>> {
                ps.iter().map(|Quad(a, b, c, d)| Quad(pat(a), pat(b), pat(c), d.as_ref().map(pat))).collect()
            }
            pub fn all(qs: &[Q], init: &Subst, ps: &[PQ]) -> Vec<Subst> {
                let d = Plain(qs.to_vec());
                let ps = pats(ps);
                let it = ps.iter().map(|q| Quad(q.0.as_ref(), q.1.as_ref(), q.2.as_ref(), q.3.as_ref().map(|g| g.as_ref())));
                Matching::new(&d, subst(init), it).map(|s| back(&s)).collect()
            }
            /// 0, 1 or 2 for none, one and several matches.
            pub fn count(qs: &[Q], init: &Subst, ps: &[PQ]) -> (u8, Option<Subst>, u8) {
                let d = Plain(qs.to_vec());
                let ps = pats(ps);
                let it = ps.iter().map(|q| Quad(q.0.as_ref(), q.1.as_ref(), q.2.as_ref(), q.3.as_ref().map(|g| g.as_ref())));
                let (a, s) = match Matching::new(&d, subst(init), it.clone()).into_unique() {
                    Ok(None) => (0, None),
                    Ok(Some(s)) => (1, Some(back(&s))),
                    Err(_) => (2, None),
                };
                let b = match Matching::new(&d, subst(init), it).into_required_unique() {
                    Ok(_) => 1,
                    Err(e) => errkind(e.into()),
                };
                (a, s, b)
            }
            pub fn with_graph(g: Option<u8>, ps: &[PQ]) -> Vec<PQ> {
                let ps = pats(ps);
                let un = |p: Pattern<&u8>| match p {
                    Pattern::Resource(r) => X::R(*r),
                    Pattern::Var(i) => X::V(i),
                };
                let it = ps.iter().map(|q| q.as_ref());
                let r = QuadsExt::with_default_graph(it, g.as_ref()).map(|Quad(a, b, c, d)| Quad(un(a), un(b), un(c), d.map(un))).collect();
                r
            }
            pub fn operations() {
                let a = [res(), res(), res()];
                let n = choose(4) as usize;
                let mut s = Substitution::from_inputs(&a[..n]);
                let mut m: Subst = a[..n].iter().map(|x| Some(*x)).collect();
                for _ in 0..3 {
                    match choose(5) {
                        0 => {
                            let k = choose(3);
                            check(s.intro(k) == m.len() as u32, 5);
                            m.extend((0..k).map(|_| None));
                        }
                        1 => {
                            let v = if flag() { Some(res()) } else { None };
                            check(s.push(v) == m.len() as u32, 5);
                            m.push(v);
                        }
                        2 if !m.is_empty() => {
                            let i = choose(m.len() as u32);
                            let v = if flag() { Some(res()) } else { None };
                            let o = std::mem::replace(&mut m[i as usize], v);
                            check(s.set(i, v) == o, 5);
                        }
                        3 => {
                            let i = choose(m.len() as u32 + 2);
                            let want = m.get(i as usize).copied().flatten();
                            match Pattern::Var(i).apply(&s) {
                                Pattern::Resource(r) => check(want == Some(r), 5),
                                Pattern::Var(j) => check(want.is_none() && i == j, 5),
                            }
                            let r = res();
                            check(Pattern::Resource(r).apply(&s) == Pattern::Resource(r), 5);
                        }
                        _ => {}
                    }
                    check(s.len() == m.len() as u32 && s.is_empty() == m.is_empty(), 5);
                }
                check(back(&s) == m, 5);
                check(s.get(m.len() as u32).is_none(), 5);
                reach(1);
            }
        }
    };
}
mod a {
    use super::*;
    use treeldr_layouts::utils::QuadsExt;
    fn errkind(e: treeldr_layouts::matching::Error) -> u8 {
        match e {
            treeldr_layouts::matching::Error::Empty => 0,
            treeldr_layouts::matching::Error::Ambiguity => 2,
        }
    }
    under_test!(imp, treeldr_layouts::Pattern, treeldr_layouts::pattern::Substitution, treeldr_layouts::Matching);
    pub use imp::*;
}
mod b {
    use super::*;
    use treeldr::utils::QuadsExt;
    fn errkind(e: treeldr::DeserializeError) -> u8 {
        match e {
            treeldr::DeserializeError::MissingData => 0,
            treeldr::DeserializeError::DataAmbiguity => 2,
            _ => 9,
        }
    }
    under_test!(imp, treeldr::Pattern, treeldr::pattern::Substitution, treeldr::de::Matching);
    pub use imp::*;
}

fn same(a: &[Subst], b: &[Subst]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut used = vec![false; b.len()];
    a.iter().all(|x| match (0..b.len()).find(|i| !used[*i] && b[*i] == *x) {
        Some(i) => {
            used[i] = true;
            true
        }
        None => false,
    })
}
fn compare(qs: &[Q], init: &Subst, ps: &[PQ]) {
    let want = reference(qs, init, ps);
    let rust = flag();
    let got = if rust { b::all(qs, init, ps) } else { a::all(qs, init, ps) };
    check(got.len() >= want.len(), 1);
    check(got.len() <= want.len(), 2);
    check(same(&got, &want), 3);
    match want.len() {
        0 => reach(1),
        1 => reach(2),
        _ => reach(3),
    }
    let (u, s, r) = if rust { b::count(qs, init, ps) } else { a::count(qs, init, ps) };
    let n = want.len().min(2) as u8;
    check(u == n && r == n, 4);
    if n == 1 {
        check(s.as_ref() == Some(&want[0]), 4);
    }
}
fn init(vars: u32) -> Subst {
    (0..vars).map(|_| if flag() { Some(res()) } else { None }).collect()
}

/// One pattern of any shape.
#[no_mangle]
extern "C" fn h_pm_one(t: u64) {
    let qs = dataset(3 + t as usize, false);
    let p = Quad(x(3), x(3), x(3), None);
    compare(&qs, &init(3), &[p]);
}
/// One pattern in a graph.
#[no_mangle]
extern "C" fn h_pm_graph(t: u64) {
    let qs = dataset(2, true);
    let v = 1 + t as u32;
    let p = Quad(x(v), x(v), x(v), if flag() { Some(x(v + 1)) } else { None });
    compare(&qs, &init(v + 1), &[p]);
}
/// Two patterns sharing variables.
#[no_mangle]
extern "C" fn h_pm_join(t: u64) {
    let qs = dataset(3 + t as usize, false);
    let c = X::R(res());
    let pick = |k: u32| match k {
        0 => X::V(0),
        1 => X::V(1),
        _ => c,
    };
    let p1 = Quad(pick(choose(3)), c, pick(choose(3)), None);
    let p2 = Quad(pick(choose(3)), X::V(2), pick(choose(3)), None);
    let i = vec![if flag() { Some(res()) } else { None }, None, None];
    compare(&qs, &i, &[p1, p2]);
}
/// A chain of patterns, possibly through graphs; possibly no pattern at all.
#[no_mangle]
extern "C" fn h_pm_chain(t: u64) {
    let n = choose(4);
    let qs = dataset(3 + (t as usize & (n < 3) as usize), false);
    let c = X::R(res());
    let ps: Vec<PQ> = (0..n).map(|i| Quad(X::V(i), c, X::V(if flag() { i + 1 } else { 0 }), None)).collect();
    let mut i = vec![None; 4];
    i[choose(4) as usize] = Some(res());
    compare(&qs, &i, &ps);
}
/// Joins over graph names.
#[no_mangle]
extern "C" fn h_pm_graphs(t: u64) {
    let qs = dataset(3 + t as usize, true);
    let g = |k: u32| match k {
        0 => None,
        1 => Some(X::V(0)),
        2 => Some(X::V(1)),
        _ => Some(X::R(1)),
    };
    let c = X::R(res());
    let p1 = Quad(X::V(0), c, X::V(2), g(choose(4)));
    let p2 = Quad(X::V(3), c, X::V(1), g(choose(4)));
    let mut i = vec![None; 4];
    if flag() {
        i[choose(2) as usize] = Some(res());
    }
    compare(&qs, &i, &[p1, p2]);
}
/// The current graph is used by the patterns that have none.
#[no_mangle]
extern "C" fn h_pm_default(_t: u64) {
    let p = |g: Option<X>| Quad(X::R(res()), X::V(0), X::R(res()), g);
    let ps = vec![p(if flag() { Some(x(2)) } else { None }), p(if flag() { Some(x(2)) } else { None })];
    let g = if flag() { Some(res()) } else { None };
    let got = if flag() { b::with_graph(g, &ps) } else { a::with_graph(g, &ps) };
    check(got.len() == 2, 6);
    let eq = |a: &X, b: &X| match (a, b) {
        (X::R(x), X::R(y)) => x == y,
        (X::V(x), X::V(y)) => x == y,
        _ => false,
    };
    for (a, b) in got.iter().zip(&ps) {
        check(eq(&a.0, &b.0) && eq(&a.1, &b.1) && eq(&a.2, &b.2), 6);
        let want = match (&b.3, g) {
            (Some(x), _) => Some(*x),
            (None, Some(g)) => Some(X::R(g)),
            (None, None) => None,
        };
        check(
            match (&a.3, &want) {
                (None, None) => true,
                (Some(a), Some(b)) => eq(a, b),
                _ => false,
            },
            6,
        );
    }
    reach(1);
}
#[no_mangle]
extern "C" fn h_pm_subst(_t: u64) {
    if flag() {
        a::operations()
    } else {
        b::operations()
    }
}

entries!(h_pm_one, h_pm_graph, h_pm_join, h_pm_chain, h_pm_graphs, h_pm_default, h_pm_subst);
