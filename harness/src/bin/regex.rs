//! P14 (regular expressions) and P15 (automata and character sets).
//!
//! The reference works on its own syntax tree. Matching is done on sets of positions of the word, kept
//! as bit sets, so that symbolic characters do not split paths on the reference's side.

use btree_range_map::{AnyRange, RangeSet};
use harness::{tl::*, *};
use std::collections::{BTreeSet, HashMap};
use treeldr_layouts::abs::regexp::RegExp;
use treeldr_layouts::utils::{charset_intersection, Automaton, DetAutomaton};

// ---- reference -------------------------------------------------------------------------------

#[derive(Clone)]
enum R {
    Any,
    Set(bool, Vec<(u32, u32)>),
    Seq(Vec<R>),
    Alt(Vec<R>),
    /// (expression, minimum, maximum), `u32::MAX` meaning no maximum
    Rep(Box<R>, u32, u32),
}
fn ch(c: u32) -> R {
    R::Set(false, vec![(c, c)])
}
fn has(neg: bool, set: &[(u32, u32)], c: u32) -> bool {
    let mut r = false;
    for (a, b) in set {
        r |= (*a <= c) & (c <= *b);
    }
    r != neg
}
/// Ends of the matches of `e` starting from the positions `from`. Bit `i` is position `i`.
fn ends(e: &R, w: &[u32], from: u32) -> u32 {
    match e {
        R::Any => (from << 1) & ((1 << (w.len() + 1)) - 1),
        R::Set(neg, set) => {
            let mut r = 0;
            for (i, c) in w.iter().enumerate() {
                r |= ((from >> i) & 1 & has(*neg, set, *c) as u32) << (i + 1);
            }
            r
        }
        R::Seq(es) => es.iter().fold(from, |f, e| ends(e, w, f)),
        R::Alt(es) => es.iter().fold(0, |r, e| r | ends(e, w, from)),
        R::Rep(e, min, max) => {
            let mut now = from;
            for _ in 0..*min {
                now = ends(e, w, now);
            }
            let mut all = now;
            // more turns than characters reach nothing new
            let more = if *max == u32::MAX { w.len() as u32 + 1 } else { max - min };
            for _ in 0..more {
                now = ends(e, w, now);
                all |= now;
            }
            all
        }
    }
}
fn matches(e: &R, w: &[u32]) -> bool {
    (ends(e, w, 1) >> w.len()) & 1 == 1
}

/// Independent reading of a pattern: alternatives of sequences of repeated items.
struct Reader<'a> {
    s: &'a [u8],
    i: usize,
}
impl Reader<'_> {
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }
    fn alternatives(&mut self) -> Option<R> {
        let mut alts = vec![self.sequence()?];
        while self.peek() == Some(b'|') {
            self.i += 1;
            alts.push(self.sequence()?);
        }
        Some(R::Alt(alts))
    }
    fn sequence(&mut self) -> Option<R> {
        let mut seq = Vec::new();
        loop {
            let Some(c) = self.peek() else { break };
            if c == b'|' || c == b')' {
                break;
            }
            // a repetition sign that follows nothing repeats the empty sequence
            let mut e = if c == b'*' || c == b'+' || c == b'?' { R::Seq(vec![]) } else { self.item()? };
            while let Some(c) = self.peek() {
                let (min, max) = match c {
                    b'*' => (0, u32::MAX),
                    b'+' => (1, u32::MAX),
                    b'?' => (0, 1),
                    _ => break,
                };
                self.i += 1;
                e = R::Rep(Box::new(e), min, max);
            }
            seq.push(e);
        }
        Some(R::Seq(seq))
    }
    fn item(&mut self) -> Option<R> {
        let c = self.peek()?;
        self.i += 1;
        Some(match c {
            b'(' => {
                let e = self.alternatives()?;
                if self.peek() != Some(b')') {
                    return None;
                }
                self.i += 1;
                e
            }
            b'.' => R::Any,
            b'\\' => ch(self.escaped()?),
            b'[' => self.set()?,
            c => ch(c as u32),
        })
    }
    fn escaped(&mut self) -> Option<u32> {
        let c = self.peek()?;
        self.i += 1;
        Some(match c {
            b'0' => 0,
            b'a' => 7,
            b'b' => 8,
            b't' => 9,
            b'n' => 10,
            b'v' => 11,
            b'f' => 12,
            b'r' => 13,
            b'e' => 27,
            c => c as u32,
        })
    }
    fn set(&mut self) -> Option<R> {
        let neg = self.peek() == Some(b'^');
        if neg {
            self.i += 1
        }
        let mut set = Vec::new();
        loop {
            let c = self.peek()?;
            self.i += 1;
            if c == b']' {
                break;
            }
            let a = if c == b'\\' { self.escaped()? } else { c as u32 };
            if self.peek() == Some(b'-') {
                if self.s.get(self.i + 1) == Some(&b']') {
                    self.i += 2;
                    set.push((a, a));
                    set.push((b'-' as u32, b'-' as u32));
                    break;
                }
                self.i += 1;
                let c = self.peek()?;
                self.i += 1;
                let b = if c == b'\\' { self.escaped()? } else { c as u32 };
                set.push((a, b));
            } else {
                set.push((a, a));
            }
        }
        Some(R::Set(neg, set))
    }
}
fn read(s: &str) -> Option<R> {
    let mut r = Reader { s: s.as_bytes(), i: 0 };
    let e = r.alternatives()?;
    if r.i == s.len() {
        Some(e)
    } else {
        None
    }
}

// ---- inputs ----------------------------------------------------------------------------------

/// A word of `n` symbolic characters between `lo` and `hi`, as text and as code points.
fn word(n: usize, lo: u8, hi: u8) -> (String, Vec<u32>) {
    let s = chars_in(n, lo, hi);
    let w = s.bytes().map(|b| b as u32).collect();
    (s, w)
}
fn letter() -> u8 {
    b'a' + below(3)
}
/// Any character; paths split on the length of its encoding.
fn any_char() -> char {
    let c = u32_();
    assume((c < 0xd800) | ((c > 0xdfff) & (c <= 0x10ffff)));
    unsafe { char::from_u32_unchecked(c) }
}

/// An expression and the text that denotes it.
fn item(depth: u32, out: &mut String) -> R {
    match choose(if depth > 0 { 7 } else { 4 }) {
        0 => {
            let c = letter();
            out.push(c as char);
            ch(c as u32)
        }
        1 => {
            out.push('.');
            R::Any
        }
        2 => {
            let (a, b) = (letter(), letter());
            assume(a <= b);
            let neg = flag();
            out.push_str(if neg { "[^" } else { "[" });
            out.push(a as char);
            out.push('-');
            out.push(b as char);
            out.push(']');
            R::Set(neg, vec![(a as u32, b as u32)])
        }
        3 => {
            out.push_str("()");
            R::Seq(vec![])
        }
        4 => {
            let inner = choose(2) == 0;
            out.push('(');
            let mut alts = vec![item(depth - 1, out)];
            out.push(if inner { '|' } else { ' ' });
            if !inner {
                out.pop();
            }
            alts.push(item(depth - 1, out));
            out.push(')');
            if inner {
                R::Alt(alts)
            } else {
                R::Seq(alts)
            }
        }
        k => {
            out.push('(');
            let e = item(depth - 1, out);
            out.push(')');
            rep(e, if k == 5 { choose(2) } else { 2 }, out)
        }
    }
}
fn rep(e: R, k: u32, out: &mut String) -> R {
    let (c, min, max) = [('*', 0, u32::MAX), ('+', 1, u32::MAX), ('?', 0, 1)][k as usize];
    out.push(c);
    R::Rep(Box::new(e), min, max)
}

/// A letter, or any simple item in the thorough tier.
fn lead(t: u64, out: &mut String) -> R {
    if t > 0 {
        return item(0, out);
    }
    let c = letter();
    out.push(c as char);
    ch(c as u32)
}

fn same_language(e: &RegExp, r: &R, w: &str, cs: &[u32], id: u32) {
    check(e.build().recognizes(w) == matches(r, cs), id);
}

/// Composed expressions: what is recognized is what the expression denotes.
#[no_mangle]
pub extern "C" fn h_re_lang(t: u64) {
    let mut s = String::new();
    // item, repetition of an item, sequence (the second item may be repeated), alternatives of sequences
    let d = if t > 0 { 2 } else { 1 };
    let r = match choose(4) {
        0 => {
            reach(1);
            item(d, &mut s)
        }
        1 => {
            reach(2);
            let a = item(d - 1, &mut s);
            let b = item(1, &mut s);
            R::Seq(vec![a, b])
        }
        2 => {
            reach(3);
            let a = lead(t, &mut s);
            let b = item(0, &mut s);
            let k = choose(3);
            let b = rep(b, k, &mut s);
            let c = lead(t, &mut s);
            R::Seq(vec![a, b, c])
        }
        _ => {
            reach(4);
            let a = lead(t, &mut s);
            let b = lead(t, &mut s);
            s.push('|');
            let c = item(0, &mut s);
            let k = choose(3);
            let c = rep(c, k, &mut s);
            R::Alt(vec![R::Seq(vec![a, b]), c])
        }
    };
    let n = choose(if t > 0 { 4 } else { 3 });
    let (w, cs) = word(n as usize, b'a', b'd');
    let e = RegExp::parse(&s).unwrap();
    same_language(&e, &r, &w, &cs, 1);
}

/// Any short text: accepted when it is an expression, denotes what it says, and is written back as itself.
#[no_mangle]
pub extern "C" fn h_re_text(t: u64) {
    let n = 1 + choose(if t > 0 { 4 } else { 3 });
    let s = ascii(n as usize);
    match (RegExp::parse(&s), read(&s)) {
        (Ok(e), Some(r)) => {
            reach(1);
            let n = choose(if n > 2 { 2 } else { 3 });
            let (w, cs) = word(n as usize, 0, 127);
            same_language(&e, &r, &w, &cs, 1);
            let text = e.to_string();
            match RegExp::parse(&text) {
                Ok(f) => same_language(&f, &r, &w, &cs, 2),
                Err(_) => check(false, 3),
            }
        }
        (Err(_), None) => reach(2),
        _ => check(false, 4),
    }
}

/// Sets of characters.
#[no_mangle]
pub extern "C" fn h_re_set(t: u64) {
    let n = 1 + choose(if t > 0 { 4 } else { 3 });
    let inside = ascii(n as usize);
    let mut s = String::from(if flag() { "[^" } else { "[" });
    s.push_str(&inside);
    s.push(']');
    match (RegExp::parse(&s), read(&s)) {
        (Ok(e), Some(r)) => {
            reach(1);
            let c = u8_();
            assume(c < 128);
            let w = unsafe { String::from_utf8_unchecked(vec![c]) };
            let cs = [c as u32];
            if n == 3 && t == 0 {
                same_language(&e, &r, &w, &cs, 1);
                return;
            }
            match RegExp::parse(&e.to_string()) {
                Ok(f) => same_language(&f, &r, &w, &cs, 2),
                Err(_) => check(false, 3),
            }
        }
        (Err(_), None) => reach(2),
        _ => check(false, 4),
    }
}

/// Sets of characters beyond ASCII, and their complements.
#[no_mangle]
pub extern "C" fn h_re_unicode(t: u64) {
    let neg = flag();
    let mut s = String::from(if neg { "[^" } else { "[" });
    let mut set = vec![];
    let k = 1 + choose(if t > 0 { 2 } else { 1 });
    for _ in 0..k {
        let (a, b) = (any_char(), any_char());
        assume((a <= b) & (a >= '\u{80}'));
        s.push(a);
        s.push('-');
        s.push(b);
        set.push((a as u32, b as u32));
    }
    s.push(']');
    let c = any_char();
    let mut w = String::new();
    w.push(c);
    let r = R::Set(neg, set);
    let e = RegExp::parse(&s).unwrap();
    reach(1);
    same_language(&e, &r, &w, &[c as u32], 1);
    match RegExp::parse(&e.to_string()) {
        Ok(f) => same_language(&f, &r, &w, &[c as u32], 2),
        Err(_) => check(false, 3),
    }
}

/// Expressions made through the API, with counted repetitions.
fn api(depth: u32, counted: &mut bool) -> (RegExp, R) {
    match choose(if depth > 0 { 6 } else { 2 }) {
        0 => {
            let c = letter();
            let mut s = RangeSet::new();
            s.insert(c as char);
            (RegExp::Set(s), ch(c as u32))
        }
        1 => match choose(if depth > 0 { 3 } else { 2 }) {
            0 => (RegExp::Set(RangeSet::new()), R::Set(false, vec![])),
            1 => (RegExp::Any, R::Any),
            _ => {
                let (a, b) = (letter(), letter());
                assume(a <= b);
                let mut s = RangeSet::new();
                s.insert(a as char..=b as char);
                (RegExp::Set(s), R::Set(false, vec![(a as u32, b as u32)]))
            }
        },
        2 | 3 => {
            let seq = flag();
            let n = if depth > 1 { choose(3) } else { 2 * choose(2) };
            let (mut es, mut rs) = (vec![], vec![]);
            for i in 0..n {
                let (e, r) = api(if i == 0 { depth - 1 } else { 0 }, counted);
                es.push(e);
                rs.push(r);
            }
            if seq {
                (RegExp::Sequence(es), R::Seq(rs))
            } else {
                (RegExp::Union(es), R::Alt(rs))
            }
        }
        k => {
            let (e, r) = api(depth - 1, counted);
            let (min, max) = if k == 4 {
                [(0, 1), (0, u32::MAX), (1, u32::MAX)][choose(3) as usize]
            } else {
                *counted = true;
                [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (2, u32::MAX)][choose(6) as usize]
            };
            (RegExp::Repeat(Box::new(e), min, max), R::Rep(Box::new(r), min, max))
        }
    }
}
#[no_mangle]
pub extern "C" fn h_re_api(t: u64) {
    let mut counted = false;
    let (e, r) = api(2, &mut counted);
    let n = choose(if t > 0 { 4 } else { 3 });
    let (w, cs) = word(n as usize, b'a', b'd');
    match choose(4) {
        0 => {
            reach(1);
            same_language(&e, &r, &w, &cs, 1);
            same_language(&e.simplified(), &r, &w, &cs, 2);
        }
        1 => {
            reach(2);
            if let Some(s) = e.as_singleton() {
                reach(3);
                check((s == w) == matches(&r, &cs), 3);
            }
            if e.is_empty() {
                check((n == 0) == matches(&r, &cs), 4);
            }
        }
        2 => {
            // `b` after, and repeated
            let (f, g) = (RegExp::from("b"), ch(b'b' as u32));
            let (mut x, y) = (e, R::Seq(vec![r, g]));
            if matches!(&x, RegExp::Union(u) if u.is_empty()) {
                return;
            }
            x.push(f);
            same_language(&x, &y, &w, &cs, 5);
        }
        _ => {
            let id = if counted { 7 } else { 6 };
            match RegExp::parse(&e.to_string()) {
                Ok(f) => same_language(&f, &r, &w, &cs, id),
                Err(_) => check(false, id),
            }
        }
    }
}
/// A string as an expression: matches itself only, and is written so that it is read back.
#[no_mangle]
pub extern "C" fn h_re_str(t: u64) {
    let n = choose(if t > 0 { 4 } else { 3 });
    let s = ascii(n as usize);
    let e = RegExp::from(&s);
    let (w, _) = word(n as usize, 0, 127);
    reach(1);
    check(e.build().recognizes(&w) == (s == w), 1);
    check(e.as_singleton().as_ref() == Some(&s), 2);
    match RegExp::parse(&e.to_string()) {
        Ok(f) => check(f.build().recognizes(&w) == (s == w), 3),
        Err(_) => check(false, 4),
    }
}

// ---- layouts with a pattern -------------------------------------------------------------------

const PATTERNS: [&str; 5] = ["a*b", "[b-c]+", "(ab|c)?", "a.", "[^a]"];
fn pattern() -> (&'static str, R) {
    let p = PATTERNS[choose(PATTERNS.len() as u32) as usize];
    (p, read(p).unwrap())
}
/// A text string layout with a pattern accepts the matching strings, both ways.
#[no_mangle]
pub extern "C" fn h_re_layout(t: u64) {
    let (p, r) = pattern();
    let n = choose(if t > 0 { 4 } else { 3 });
    let (w, cs) = word(n as usize, b'a', b'd');
    let ok = matches(&r, &cs);
    let (ls, l) = build(&format!(r#"{{"type":"record","fields":{{"x":{{"property":"http://e/p","value":{{"type":"string","pattern":"{p}"}}}}}}}}"#));
    let v = map([("x", s(&w))]);
    if flag() {
        reach(1);
        check(dehy(&ls, &v, &l).is_ok() == ok, 1);
    } else {
        let mut d = BTreeDataset::new();
        d.insert(Quad(iri("http://e/s"), iri("http://e/p"), lit(&w, "string"), None));
        let r = hy(&ls, &d, &l, &[iri("http://e/s")]);
        if ok {
            reach(2);
            match r {
                Ok(x) => check(x.into_untyped() == v, 2),
                Err(_) => check(false, 3),
            }
        } else {
            reach(3);
            // the field is optional in reading only when nothing is there
            match r {
                Ok(x) => check(x.into_untyped() == map([]), 4),
                Err(_) => (),
            }
        }
    }
}
/// The same for identifier layouts.
#[no_mangle]
pub extern "C" fn h_re_id(t: u64) {
    let n = 1 + choose(if t > 0 { 3 } else { 2 });
    let tail = chars_in(n as usize, b'a', b'd');
    let k = choose(3) as usize;
    let p = ["a:a*b", "a:[b-c]+", "a:."][k];
    let r = read(p).unwrap();
    let mut i = String::from("a:");
    i.push_str(&tail);
    let cs: Vec<u32> = i.bytes().map(|b| b as u32).collect();
    let ok = matches(&r, &cs);
    let (ls, l) = build(&format!(r#"{{"type":"id","pattern":"{p}"}}"#));
    if flag() {
        reach(1);
        check(dehy(&ls, &s(&i), &l).is_ok() == ok, 1);
    } else {
        reach(2);
        let d = BTreeDataset::new();
        match hy(&ls, &d, &l, &[iri(&i)]) {
            Ok(x) => {
                check(ok, 2);
                check(x.into_untyped() == s(&i), 3)
            }
            Err(_) => check(!ok, 4),
        }
    }
}

// ---- automata --------------------------------------------------------------------------------

type Nfa = (Automaton<u8>, Vec<(u8, Option<(u32, u32)>, u8)>, u32, u32);
/// An automaton over states `0..q` with `k` transitions, and the same as plain data:
/// transitions, initial states, final states.
fn nfa(q: u32, k: u32, finals: bool) -> Nfa {
    let mut a = Automaton::new();
    let mut ts = Vec::new();
    for _ in 0..k {
        let (s, t) = (choose(q) as u8, choose(q) as u8);
        let l = if flag() {
            None
        } else {
            let (x, y) = (letter(), letter());
            assume(x <= y);
            Some((x, y))
        };
        a.add(
            s,
            l.map(|(x, y)| {
                let mut r = RangeSet::new();
                r.insert(x as char..=y as char);
                r
            }),
            t,
        );
        ts.push((s, l.map(|(x, y)| (x as u32, y as u32)), t));
    }
    a.add_initial_state(0);
    // any set of final states, or the last state only
    let f = if finals { choose(1 << q) } else { 1 << (q - 1) };
    for i in 0..q {
        if f >> i & 1 == 1 {
            a.add_final_state(i as u8);
        }
    }
    (a, ts, 1, f)
}
fn close(ts: &[(u8, Option<(u32, u32)>, u8)], q: u32, mut s: u32) -> u32 {
    for _ in 0..q {
        for (a, l, b) in ts {
            if l.is_none() {
                s |= (s >> a & 1) << b;
            }
        }
    }
    s
}
fn accepts(n: &Nfa, q: u32, w: &[u32]) -> bool {
    let ts = &n.1;
    let mut s = close(ts, q, n.2);
    for c in w {
        let mut next = 0;
        for (a, l, b) in ts {
            if let Some((x, y)) = l {
                next |= ((s >> a & 1) & ((*x <= *c) & (*c <= *y)) as u32) << b;
            }
        }
        s = close(ts, q, next);
    }
    s & n.3 != 0
}

/// Determinization keeps the language.
#[no_mangle]
pub extern "C" fn h_au_det(t: u64) {
    let (q, k) = if flag() { (2, choose(3)) } else { (3, choose(if t > 0 { 4 } else { 3 })) };
    let n = nfa(q, k, q == 2);
    let len = choose(if t > 0 { 4 } else { 3 });
    let (w, cs) = word(len as usize, b'a', b'd');
    let d = n.0.determinize();
    reach(1);
    check(d.recognizes(&w) == accepts(&n, q, &cs), 1);
}
/// Transitions that overlap, from the same state, and one more from anywhere.
#[no_mangle]
pub extern "C" fn h_au_overlap(t: u64) {
    let mut a = Automaton::new();
    let mut ts = Vec::new();
    let mut add = |s: u8, l: Option<(u8, u8)>, d: u8| {
        a.add(
            s,
            l.map(|(x, y)| {
                let mut r = RangeSet::new();
                r.insert(x as char..=y as char);
                r
            }),
            d,
        );
        ts.push((s, l.map(|(x, y)| (x as u32, y as u32)), d));
    };
    let range = || {
        let (x, y) = (letter(), letter());
        assume(x <= y);
        Some((x, y))
    };
    let q = if t > 0 { 4 } else { 3 };
    add(0, range(), choose(q) as u8);
    add(0, range(), choose(q) as u8);
    let l = if flag() { None } else { Some((b'b', b'b')) };
    add(choose(q) as u8, l, choose(q) as u8);
    let f = choose(q);
    a.add_initial_state(0);
    a.add_final_state(f as u8);
    let n = (a, ts, 1, 1 << f);
    let (w, cs) = word(1 + choose(2) as usize, b'a', b'd');
    let d = n.0.determinize();
    reach(1);
    check(d.recognizes(&w) == accepts(&n, q, &cs), 1);
}
/// The product recognizes what both recognize.
#[no_mangle]
pub extern "C" fn h_au_product(t: u64) {
    let q = 2;
    let a = nfa(q, 1 + choose(2), t > 0);
    let b = nfa(q, 1 + choose(if t > 0 { 2 } else { 1 }), true);
    let len = choose(3);
    let (w, cs) = word(len as usize, b'a', b'd');
    let p = a.0.product(&b.0, |x, y| (*x, *y));
    reach(1);
    check(p.determinize().recognizes(&w) == (accepts(&a, q, &cs) & accepts(&b, q, &cs)), 1);
}

type Dfa = (DetAutomaton<u8, u8>, [[Option<u8>; 2]; 3], u32);
/// A partial deterministic automaton over states `0..q` and the labels 0 and 1.
fn dfa(q: u32) -> Dfa {
    let mut a = DetAutomaton::new(0);
    let mut ts = [[None; 2]; 3];
    for s in 0..q as usize {
        for l in 0..2 {
            let t = choose(q + 1) as u8;
            if (t as u32) < q {
                a.add(s as u8, l as u8, t);
                ts[s][l] = Some(t)
            }
        }
    }
    let f = choose(1 << q);
    for i in 0..q {
        if f >> i & 1 == 1 {
            a.add_final_state(i as u8);
        }
    }
    (a, ts, f)
}
/// Another automaton: one of a few (quick) or any of two states (thorough).
fn other(t: u64) -> Dfa {
    if t > 0 {
        return dfa(2);
    }
    let ts = [
        [[Some(0), Some(1)], [Some(1), Some(0)]],
        [[Some(1), Some(0)], [None, Some(1)]],
        [[None, Some(1)], [Some(0), None]],
    ][choose(3) as usize];
    let f = 1 + choose(3);
    let mut a = DetAutomaton::new(0);
    for s in 0..2 {
        for l in 0..2 {
            if let Some(t) = ts[s][l] {
                a.add(s as u8, l as u8, t)
            }
        }
        if f >> s & 1 == 1 {
            a.add_final_state(s as u8);
        }
    }
    (a, [ts[0], ts[1], [None; 2]], f)
}
fn run_ref(d: &Dfa, w: &[u8]) -> bool {
    let mut s = 0;
    for l in w {
        match d.1[s as usize][*l as usize] {
            Some(t) => s = t,
            None => return false,
        }
    }
    d.2 >> s & 1 == 1
}
/// Runs an automaton over its labels.
fn run<Q: Ord, L: Ord>(d: &DetAutomaton<Q, L>, w: &[u8], is: impl Fn(&L, u8) -> bool) -> bool {
    let mut q = d.initial_state();
    for c in w {
        match d.transitions_from(q).find(|(l, _)| is(l, *c)) {
            Some((_, t)) => q = t,
            None => return false,
        }
    }
    d.is_final_state(q)
}
fn labels(n: usize) -> Vec<u8> {
    (0..n).map(|_| below(2)).collect()
}
/// Labels distinguish states: every pair of distinct members of the minimized automaton is told apart.
fn distinct(d: &Dfa, q: u32) -> usize {
    // classes by refinement
    let mut class: Vec<usize> = (0..q).map(|i| (d.2 >> i & 1) as usize).collect();
    for _ in 0..q {
        let sig: Vec<_> = (0..q as usize)
            .map(|s| (class[s], d.1[s].map(|t| t.map(|t| class[t as usize]))))
            .collect();
        let mut seen: Vec<_> = Vec::new();
        for (i, s) in sig.iter().enumerate() {
            let k = match seen.iter().position(|x| x == s) {
                Some(k) => k,
                None => {
                    seen.push(*s);
                    seen.len() - 1
                }
            };
            class[i] = k;
        }
    }
    let mut reached = vec![0usize];
    let mut i = 0;
    while i < reached.len() {
        for t in d.1[reached[i]].into_iter().flatten() {
            if !reached.contains(&(t as usize)) {
                reached.push(t as usize)
            }
        }
        i += 1;
    }
    if reached.len() == q as usize {
        class.iter().collect::<BTreeSet<_>>().len()
    } else {
        0
    }
}
/// Minimization keeps the language and merges what cannot be told apart.
#[no_mangle]
pub extern "C" fn h_au_min(t: u64) {
    let q = if t > 0 { 3 } else { 2 };
    let d = dfa(q);
    // every state, final or not
    let finals: BTreeSet<&u8> = d.0.final_states().iter().collect();
    static STATES: [u8; 3] = [0, 1, 2];
    let others: BTreeSet<&u8> = STATES[..q as usize].iter().filter(|x| !d.0.is_final_state(x)).collect();
    let m = d.0.minimize([finals, others].into_iter().filter(|x| !x.is_empty()));
    let w = labels(choose(4) as usize);
    reach(1);
    check(run(&m, &w, |l, c| **l == c) == run_ref(&d, &w), 1);
    let k = distinct(&d, q);
    if k > 0 {
        reach(2);
        check(m.states().len() == k, 2);
    }
}
/// Product, renaming and compression of deterministic automata.
#[no_mangle]
pub extern "C" fn h_au_dfa(t: u64) {
    let q = if t > 0 { 3 } else { 2 };
    let d = dfa(q);
    match choose(4) {
        0 => {
            reach(1);
            let w = labels(choose(4) as usize);
            let e = other(t);
            let p = d.0.product(&e.0, |a, b| (*a, *b), |a, b| if a == b { Some(*a) } else { None });
            check(run(&p, &w, |l, c| *l == c) == (run_ref(&d, &w) & run_ref(&e, &w)), 1);
        }
        1 => {
            reach(2);
            let w = labels(choose(4) as usize);
            let m = d.0.map(|q| 7 - *q as u32, |l| *l as u32 + 3);
            check(run(&m, &w, |l, c| *l == c as u32 + 3) == run_ref(&d, &w), 2);
            let m = d.0.try_map(|q| Ok::<_, ()>(7 - *q as u32), |l| Ok(*l as u32 + 3)).unwrap();
            check(run(&m, &w, |l, c| *l == c as u32 + 3) == run_ref(&d, &w), 3);
            // one failure fails it all
            let bad = choose(q) as u8;
            let used = d.0.initial_state() == &bad
                || d.0.is_final_state(&bad)
                || d.0.transitions().get(&bad).is_some()
                || d.0.transitions().values().any(|m| m.values().any(|t| *t == bad));
            let m = d.0.try_map(|q| if *q == bad { Err(*q) } else { Ok(*q) }, |l| Ok(*l));
            check(m.is_err() == used, 4);
        }
        2 => {
            reach(3);
            // labels become the words along chains
            let w = labels(choose(4) as usize);
            let m = d.0.compress(|word: &mut Vec<u8>, l: &u8| word.push(*l));
            let mut q = m.initial_state();
            let mut i = 0;
            let ok = loop {
                if i == w.len() {
                    break m.is_final_state(q);
                }
                match m.transitions_from(q).find(|(l, _)| !l.is_empty() && w[i..].starts_with(l)) {
                    Some((l, t)) => {
                        i += l.len();
                        q = t
                    }
                    None => break false,
                }
            };
            check(ok == run_ref(&d, &w), 5);
        }
        _ => {
            reach(4);
            // states reached from any state, and their partition
            let from = choose(q) as u8;
            let mut reached = vec![from];
            let mut i = 0;
            while i < reached.len() {
                for t in d.1[reached[i] as usize].into_iter().flatten() {
                    if !reached.contains(&t) {
                        reached.push(t)
                    }
                }
                i += 1;
            }
            let got: Vec<u8> = d.0.reachable_states_from(&from).copied().collect();
            check(got.len() == reached.len(), 6);
            check(got.iter().all(|x| reached.contains(x)), 7);
            if from == 0 {
                let got = d.0.states();
                check(got.len() == reached.len() && got.iter().all(|x| reached.contains(x)), 8);
                let got = d.0.select_states(|x| d.0.is_final_state(x));
                check(reached.iter().all(|x| got.contains(x) == (d.2 >> x & 1 == 1)), 9);
                let got: HashMap<bool, BTreeSet<&u8>> = d.0.partition(|x| d.0.is_final_state(x));
                for x in &reached {
                    let f = d.2 >> x & 1 == 1;
                    check(got.get(&f).map(|s| s.contains(x)) == Some(true), 10);
                    check(got.get(&!f).map(|s| s.contains(x)) != Some(true), 11);
                }
            }
        }
    }
}
/// A pattern's automaton survives being written and read with serde.
#[no_mangle]
pub extern "C" fn h_au_serde(_: u64) {
    let d = dfa(2);
    let text = serde_json::to_string(&d.0).unwrap();
    let e: DetAutomaton<u8, u8> = serde_json::from_str(&text).unwrap();
    let w = labels(choose(4) as usize);
    reach(1);
    check(run(&e, &w, |l, c| *l == c) == run_ref(&d, &w), 1);
}
#[no_mangle]
pub extern "C" fn h_au_serde_chars(_: u64) {
    let (p, r) = pattern();
    let a = RegExp::parse(p).unwrap().build();
    let text = serde_json::to_string(&a).unwrap();
    let b: DetAutomaton<usize> = serde_json::from_str(&text).unwrap();
    let n = choose(4);
    let (w, cs) = word(n as usize, b'a', b'd');
    reach(1);
    check(b.recognizes(&w) == matches(&r, &cs), 1);
}

/// Intersections of character sets.
#[no_mangle]
pub extern "C" fn h_cs_inter(t: u64) {
    // two ranges of letters, or one range of any characters
    let any = flag();
    let some_char = || if any { any_char() } else { below(8) as char };
    let set = |n: u32| {
        let mut s = RangeSet::new();
        let mut rs = vec![];
        for _ in 0..n {
            let (a, b) = (some_char(), some_char());
            assume(a <= b);
            s.insert(a..=b);
            rs.push((a as u32, b as u32));
        }
        (s, rs)
    };
    let n = choose(if any && t == 0 { 2 } else { 3 });
    let m = 1 + choose(if t == 0 { 1 } else { 2 });
    let (a, ra) = set(n);
    let (b, rb) = set(m);
    let i = charset_intersection(&a, &b);
    let c = some_char();
    reach(1);
    let got = i.iter().any(|r: &AnyRange<char>| {
        use std::ops::Bound::*;
        let lo = match r.start {
            Included(x) => x <= c,
            Excluded(x) => x < c,
            Unbounded => true,
        };
        let hi = match r.end {
            Included(x) => c <= x,
            Excluded(x) => c < x,
            Unbounded => true,
        };
        lo & hi
    });
    check(got == (has(false, &ra, c as u32) & has(false, &rb, c as u32)), 1);
}

entries!(
    h_re_lang,
    h_re_text,
    h_re_set,
    h_re_unicode,
    h_re_api,
    h_re_str,
    h_re_layout,
    h_re_id,
    h_au_det,
    h_au_overlap,
    h_au_product,
    h_au_min,
    h_au_dfa,
    h_au_serde,
    h_au_serde_chars,
    h_cs_inter,
);
