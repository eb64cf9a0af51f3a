//! P10 (numbers), P11 (JSON), P12 (CBOR) and P13 (serde).

use harness::{tl::*, *};
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::ToPrimitive;

// ---- numbers ---------------------------------------------------------------------------------

/// `m / d`, not reduced.
#[derive(Clone, Copy)]
struct Q {
    m: i64,
    d: i64,
}
fn is(n: &Number, q: Q) -> bool {
    // comparing two `BigRational` divides
    let r = n.as_big_rational();
    if q.d == 1 {
        return *r.numer() == BigInt::from(q.m) && *r.denom() == BigInt::from(1);
    }
    r.numer() * BigInt::from(q.d) == r.denom() * BigInt::from(q.m)
}
fn pow10(n: u32) -> i64 {
    let mut r = 1;
    for _ in 0..n {
        r *= 10;
    }
    r
}
/// A JSON number, read digit by digit. `None` if it is not one, or if its exponent has more than one digit.
fn json_number(s: &[u8]) -> Option<Q> {
    let mut i = 0;
    let at = |i: usize| s.get(i).copied().unwrap_or(0);
    let digit = |i: usize| at(i).is_ascii_digit();
    let neg = at(0) == b'-';
    if neg {
        i += 1
    }
    let mut m: i64 = 0;
    let mut d: i64 = 1;
    if !digit(i) {
        return None;
    }
    if at(i) == b'0' {
        i += 1
    } else {
        while digit(i) {
            m = m * 10 + (at(i) - b'0') as i64;
            i += 1
        }
    }
    if at(i) == b'.' {
        i += 1;
        if !digit(i) {
            return None;
        }
        while digit(i) {
            m = m * 10 + (at(i) - b'0') as i64;
            d *= 10;
            i += 1
        }
    }
    if at(i) == b'e' || at(i) == b'E' {
        i += 1;
        let en = at(i) == b'-';
        if en || at(i) == b'+' {
            i += 1
        }
        if !digit(i) || i + 1 != s.len() {
            return None;
        }
        let p = pow10((at(i) - b'0') as u32);
        if en {
            d *= p
        } else {
            m *= p
        }
        i += 1
    }
    if i != s.len() {
        return None;
    }
    Some(Q { m: if neg { -m } else { m }, d })
}
/// A decimal written without exponent, read digit by digit.
fn plain_decimal(s: &str) -> Option<Q> {
    if s.contains(['e', 'E']) {
        return None;
    }
    json_number(s.as_bytes())
}
fn digits(n: usize) -> Vec<u8> {
    chars_in(n, b'0', b'9').into_bytes()
}
/// A number written like JSON numbers are, with symbolic digits.
fn number_text(int: usize, frac: usize, exp: bool) -> Vec<u8> {
    let mut s = Vec::new();
    if flag() {
        s.push(b'-')
    }
    let d = digits(int);
    s.extend(&d);
    if frac > 0 {
        // reducing a fraction whose digits are symbolic is out of reach: these are split upon
        s.push(b'.');
        s.extend((0..frac).map(|_| b'0' + choose(10) as u8))
    }
    if exp {
        s.push([b'e', b'E'][choose(2) as usize]);
        match choose(3) {
            0 => s.push(b'+'),
            1 => s.push(b'-'),
            _ => {}
        }
        s.push(b'0' + choose(10) as u8)
    }
    s
}

/// Numbers of JSON documents.
#[no_mangle]
extern "C" fn h_nu_json(t: u64) {
    let (i, f, e) = match choose(6) {
        0 => (1, 0, false),
        1 => (2 + t as usize, 0, false),
        2 => (1, 1, false),
        3 => (1, 2, false),
        4 => (1, 0, true),
        _ => (1, 1, true),
    };
    let s = number_text(i, f, e);
    let Some(q) = json_number(&s) else {
        assume(false);
        return;
    };
    let js = json_syntax::Number::new(&s);
    match js {
        Ok(n) => {
            reach(1);
            check(is(&Number::from(n), q), 1);
            let b = json_syntax::NumberBuf::new(s.clone().into()).unwrap();
            check(is(&Number::from(b), q), 1);
        }
        Err(_) => check(false, 2),
    }
}
/// Integers of any size, as `serde_json` reads them.
#[no_mangle]
extern "C" fn h_nu_native(_t: u64) {
    use treeldr_layouts::value::NativeNumber;
    match choose(4) {
        0 => {
            let u = u64_();
            let n = Number::from(u);
            check(n.is_integer() && n.as_integer().and_then(|i| i.to_u64()) == Some(u), 3);
            check(matches!(n.as_native(), NativeNumber::U64(v) if v == u), 3);
            reach(1)
        }
        1 => {
            let i = u64_() as i64;
            let n = Number::from(i);
            check(n.as_integer().and_then(|i| i.to_i64()) == Some(i), 3);
            check(
                match n.as_native() {
                    NativeNumber::U64(v) => i >= 0 && v == i as u64,
                    NativeNumber::I64(v) => i < 0 && v == i,
                    NativeNumber::F64(_) => false,
                },
                3,
            );
            reach(2)
        }
        2 => {
            let x = u32_();
            let y = x as i32;
            let z = u16_();
            let w = u8_() as i8;
            let q = |m: i64| Q { m, d: 1 };
            check(is(&Number::from(x), q(x as i64)), 3);
            check(is(&Number::from(y), q(y as i64)), 3);
            check(is(&Number::from(z), q(z as i64)), 3);
            check(is(&Number::from(z as i16), q(z as i16 as i64)), 3);
            check(is(&Number::from(w), q(w as i64)), 3);
            check(is(&Number::from(w as u8), q(w as u8 as i64)), 3);
            reach(3)
        }
        _ => {
            // beyond 64 bits there is no native integer
            let hi = 1 + choose(3) as i128;
            let lo = [0i128, 1, 2047, 2048, 4096, 6144, u64::MAX as i128][choose(7) as usize];
            let v = (hi << 64) + lo;
            let v = if flag() { -v } else { v };
            let n = Number::from(BigRational::from_integer(BigInt::from(v)));
            match n.as_native() {
                NativeNumber::F64(f) => check(f == v as f64, 3),
                _ => check(false, 3),
            }
            reach(4)
        }
    }
}
fn small_number(t: u64) -> (Number, i64, i64) {
    let d = [1i64, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 25, 40, 125][choose(16) as usize];
    let m = if t > 0 { u16_() as i16 as i64 % 2000 } else { u8_() as i8 as i64 };
    (Number::new(BigRational::new(m.into(), d.into())), m as i64, d as i64)
}
/// Decimal representations: exact, or absent when there is none.
#[no_mangle]
extern "C" fn h_nu_decimal(t: u64) {
    let (n, m, d) = small_number(t);
    let finite = (m * pow10(8)) % d == 0;
    match n.decimal_representation() {
        Some(s) => {
            reach(1);
            check(finite, 4);
            match plain_decimal(&s) {
                Some(q) => {
                    check(q.m * d == m * q.d, 5);
                    // `-0` and trailing zeros would not be canonical
                    check(m != 0 || s == "0", 5);
                    check(!s.contains('.') || !s.ends_with('0'), 5);
                }
                None => check(false, 5),
            }
            let js: Result<json_syntax::NumberBuf, _> = n.clone().try_into();
            check(js.is_ok_and(|j| j.as_str() == s), 6);
        }
        None => {
            reach(2);
            check(!finite, 4);
            let js: Result<json_syntax::NumberBuf, _> = n.clone().try_into();
            check(js.is_err(), 6);
            let sj: Result<serde_json::Number, _> = n.clone().try_into();
            check(sj.is_err(), 6);
        }
    }
    check(n.is_integer() == (m % d == 0), 5);
}
/// Floats are converted exactly, and back.
#[no_mangle]
extern "C" fn h_nu_float(_t: u64) {
    let (f, q): (f64, Q) = match choose(4) {
        0 => {
            let m = u8_() as i8;
            let e = choose(9) as i32 - 4;
            let f = m as f64;
            if e < 0 {
                (f / (1 << -e) as f64, Q { m: m as i64, d: 1 << -e })
            } else {
                (f * (1 << e) as f64, Q { m: (m as i64) << e, d: 1 })
            }
        }
        1 => {
            let k = choose(3) as usize;
            check(Number::try_from([f64::NAN, f64::INFINITY, f64::NEG_INFINITY][k]).is_err(), 7);
            check(Number::try_from([f32::NAN, f32::INFINITY, f32::NEG_INFINITY][k]).is_err(), 7);
            return reach(2);
        }
        2 => {
            let k = choose(2) as usize;
            ([0.1f64, -1e15][k], [Q { m: 3602879701896397, d: 36028797018963968 }, Q { m: -1000000000000000, d: 1 }][k])
        }
        _ => {
            let f = (u8_() as i8) as f32 / 8.0;
            let n = Number::try_from(f);
            match n {
                Ok(n) => check(is(&n, Q { m: (f * 8.0) as i64, d: 8 }), 7),
                Err(_) => check(false, 7),
            }
            return reach(3);
        }
    };
    reach(1);
    match Number::try_from(f) {
        Ok(n) => {
            check(is(&n, q), 7);
            check(n.to_f64() == f, 8);
        }
        Err(_) => check(false, 7),
    }
}
/// Decimals of RDF literals and back.
#[no_mangle]
extern "C" fn h_nu_rdf(t: u64) {
    let (i, f) = match choose(5) {
        0 => (1, 0),
        1 => (2 + t as usize, 0),
        2 => (1, 1),
        3 => (0, 2),
        _ => (1, 2),
    };
    let mut s = Vec::new();
    match choose(3) {
        0 => s.push(b'-'),
        1 => s.push(b'+'),
        _ => {}
    }
    s.extend(digits(i));
    let dot = f > 0 || (i > 0 && flag());
    if dot {
        s.push(b'.')
    }
    s.extend((0..f).map(|_| b'0' + choose(10) as u8));
    let (mut m, mut d) = (0i64, 1i64);
    let mut after = false;
    for c in &s {
        match c {
            b'.' => after = true,
            b'0'..=b'9' => {
                m = m * 10 + (*c - b'0') as i64;
                if after {
                    d *= 10
                }
            }
            _ => {}
        }
    }
    if s[0] == b'-' {
        m = -m
    }
    let (ls, r) = build(r#"{"type":"number","datatype":"http://www.w3.org/2001/XMLSchema#decimal"}"#);
    let text = String::from_utf8(s).unwrap();
    let ds = Plain(vec![]);
    match treeldr_layouts::hydrate(&ls, &ds, &r, &[lit(&text, "decimal")]) {
        Ok(v) => match v.into_untyped() {
            Value::Literal(Literal::Number(n)) => {
                reach(1);
                check(is(&n, Q { m, d }), 9);
                match dehy(&ls, &num(n), &r) {
                    Ok((_, i)) => match &i[..] {
                        [Term::Literal(l)] => match plain_decimal(&l.value) {
                            Some(q) => check(q.m * d == m * q.d, 9),
                            None => check(false, 9),
                        },
                        _ => check(false, 9),
                    },
                    Err(_) => check(false, 9),
                }
            }
            _ => check(false, 9),
        },
        Err(_) => check(false, 9),
    }
}

// ---- JSON ------------------------------------------------------------------------------------

/// A JSON tree, and the value it stands for.
fn json(depth: u32, t: u64) -> (serde_json::Value, json_syntax::Value, Value) {
    use json_syntax::Value as J;
    use serde_json::Value as S;
    match choose(if depth > 0 { 6 } else { 4 }) {
        0 => (S::Null, J::Null, Value::unit()),
        1 => {
            let b = u8_() & 1 == 1;
            (S::Bool(b), J::Boolean(b), boolean(b))
        }
        2 => {
            let x = match t {
                0 => below(4) as i64 - 1,
                1 => below(100) as i64 - 50,
                _ => u8_() as i8 as i64,
            };
            (S::Number(x.into()), J::Number(json_syntax::NumberBuf::from(x)), num(x))
        }
        3 => {
            let x = ascii(choose(2 + (t > 0) as u32) as usize);
            (S::String(x.clone()), J::String(x.as_str().into()), Value::string(x))
        }
        4 => {
            let mut r = (vec![], vec![], vec![]);
            for _ in 0..choose(3) {
                let (a, b, c) = json(depth - 1, t);
                r.0.push(a);
                r.1.push(b);
                r.2.push(c);
            }
            (S::Array(r.0), J::Array(r.1), Value::List(r.2))
        }
        _ => {
            let mut r = (serde_json::Map::new(), json_syntax::Object::new(), BTreeMap::new());
            let n = choose(3);
            let k0 = ascii(1);
            let k1 = chars_in(1, b'a', b'b');
            assume(k0 != k1);
            for i in 0..n {
                let k = [&k0, &k1][i as usize];
                let (a, b, c) = json(depth - 1, t);
                r.0.insert(k.clone(), a);
                r.1.insert(k.as_str().into(), b);
                r.2.insert(Value::string(k.clone()), c);
            }
            (S::Object(r.0), J::Object(r.1), Value::Map(r.2))
        }
    }
}
/// JSON trees of two libraries become the same value, and come back.
#[no_mangle]
extern "C" fn h_js_trip(t: u64) {
    let (a, b, v) = json(1, t + 1);
    if flag() {
        check(Value::from(a.clone()) == v, 1);
        match serde_json::Value::try_from(v) {
            Ok(x) => {
                reach(1);
                check(x == a, 2)
            }
            Err(_) => check(false, 3),
        }
    } else {
        check(Value::from(b.clone()) == v, 1);
        match json_syntax::Value::try_from(v) {
            Ok(x) => {
                reach(2);
                use json_syntax::BorrowUnordered;
                check(x.as_unordered() == b.as_unordered(), 2)
            }
            Err(_) => check(false, 3),
        }
    }
}
/// The reader that keeps track of positions agrees.
#[no_mangle]
extern "C" fn h_js_read(t: u64) {
    use json_syntax::{Parse, Print, TryFromJson};
    let (_, b, v) = json(1, t);
    let text = b.compact_print().to_string();
    let (j, map) = json_syntax::Value::parse_str(&text).unwrap();
    let Ok(w) = Value::try_from_json(&j, &map);
    check(w == v, 4);
    reach(1)
}
/// Values that are not JSON are refused, the others are converted.
#[no_mangle]
extern "C" fn h_js_partial(t: u64) {
    fn go(depth: u32) -> (Value, bool) {
        match choose(if depth > 0 { 7 } else { 5 }) {
            0 => (Value::unit(), true),
            1 => (s("a"), true),
            2 => (num(Number::new(BigRational::new(1.into(), 3.into()))), false),
            3 => (num(Number::new(BigRational::new(1.into(), 4.into()))), true),
            4 => (Value::Literal(Literal::ByteString(bytes(1))), false),
            5 => {
                let (a, x) = go(depth - 1);
                let (b, y) = if flag() { go(0) } else { (Value::unit(), true) };
                (list(vec![a, b]), x && y)
            }
            _ => {
                let (a, x) = go(depth - 1);
                let (k, y) = match choose(4) {
                    0 => (s("k"), true),
                    1 => (Value::unit(), false),
                    2 => (num(1u8), false),
                    _ => (list(vec![]), false),
                };
                (Value::Map([(k, a)].into_iter().collect()), x && y)
            }
        }
    }
    let (v, ok) = go(1 + t as u32);
    let a = serde_json::Value::try_from(v.clone());
    let b = json_syntax::Value::try_from(v.clone());
    check(a.is_ok() == ok, 5);
    check(b.is_ok() == ok, 5);
    if let Ok(b) = b {
        reach(1);
        check(Value::from(b) == v, 6);
        check(Value::from(a.unwrap()) == v, 6)
    } else {
        reach(2)
    }
}
/// The displayed form of a value with integers is the JSON text of that value.
#[no_mangle]
extern "C" fn h_js_display(t: u64) {
    use json_syntax::Parse;
    let (_, b, v) = json(1, t);
    match json_syntax::Value::parse_str(&v.to_string()) {
        Ok((j, _)) => {
            use json_syntax::BorrowUnordered;
            check(j.as_unordered() == b.as_unordered(), 7);
            reach(1)
        }
        Err(_) => check(false, 7),
    }
}
/// Typed trees become the same JSON as their untyped form.
#[no_mangle]
extern "C" fn h_js_typed(_t: u64) {
    use treeldr_layouts::TypedLiteral as T;
    let x = iri("https://ex.org/l");
    let r = || Ref::new(x.clone());
    let (l, v): (T, Value) = match choose(6) {
        0 => {
            let (_, _, v) = json(1, 0);
            (T::Unit(v.clone(), Ref::new(x.clone())), v)
        }
        1 => {
            let b = flag();
            (T::Boolean(b, Ref::new(x.clone())), boolean(b))
        }
        2 => {
            let n = Number::from(u8_());
            (T::Number(n.clone(), Ref::new(x.clone())), num(n))
        }
        3 => {
            let b = bytes(2);
            (T::ByteString(b.clone(), Ref::new(x.clone())), Value::Literal(Literal::ByteString(b)))
        }
        4 => {
            let a = ascii(2);
            (T::TextString(a.clone(), Ref::new(x.clone())), Value::string(a))
        }
        _ => {
            let a = ascii(2);
            (T::Id(a.clone(), Ref::new(x.clone())), Value::string(a))
        }
    };
    check(l.type_().id() == &x, 8);
    check(l.clone().into_untyped() == v, 8);
    match serde_json::Value::try_from(l.clone()) {
        Ok(j) => {
            reach(1);
            check(Value::from(j) == v, 8)
        }
        Err(_) => {
            reach(2);
            check(matches!(l, T::ByteString(_, _)), 8)
        }
    }
    let inner = TypedValue::Literal(l);
    let tv = match choose(4) {
        0 => (inner, v),
        1 => (TypedValue::Variant(Box::new(inner), Ref::new(x.clone()), 3), v),
        2 => (TypedValue::List(vec![inner.clone(), TypedValue::Always(s("z")), inner], Ref::new(x.clone())), list(vec![v.clone(), s("z"), v])),
        _ => (TypedValue::Map([(s("k"), inner)].into_iter().collect(), Ref::new(x.clone())), map([("k", v)])),
    };
    check(tv.0.type_() == Some(&r()), 8);
    check(tv.0.into_untyped() == tv.1, 8)
}

// ---- CBOR ------------------------------------------------------------------------------------

use serde_cbor::Value as C;
fn leaf(n: u32, t: u64) -> (Value, C) {
    match n {
        0 => (Value::unit(), C::Null),
        1 => {
            let b = u8_() & 1 == 1;
            (boolean(b), C::Bool(b))
        }
        2 => {
            let i = u64_() as i64;
            (num(i), C::Integer(i as i128))
        }
        3 => {
            let i = u64_();
            (num(i), C::Integer(i as i128))
        }
        4 => {
            let b = bytes(choose(3) as usize);
            (Value::Literal(Literal::ByteString(b.clone())), C::Bytes(b))
        }
        5 => {
            let x = ascii(choose(3) as usize);
            (Value::string(x.clone()), C::Text(x))
        }
        _ => {
            let m = if t > 0 { u8_() as i8 } else { below(16) as i8 - 8 } as i64;
            assume(m & 1 == 1);
            // few digits, or as many as a float has
            let (n, e) = [(m, 2), ((1 << 51) + m, 60), (m - (1 << 30), 3)][choose(3) as usize];
            (num(Number::new(BigRational::new(n.into(), (1i64 << e).into()))), C::Float(n as f64 / (1i64 << e) as f64))
        }
    }
}
fn cbor(depth: u32, t: u64) -> (Value, C) {
    match choose(if depth > 0 { 9 } else { 7 }) {
        7 => {
            let r: Vec<(Value, C)> = (0..choose(3)).map(|_| cbor(depth - 1, t)).collect();
            (Value::List(r.iter().map(|x| x.0.clone()).collect()), C::Array(r.into_iter().map(|x| x.1).collect()))
        }
        8 => {
            let (k, kc) = cbor(depth - 1, t);
            let (v, vc) = cbor(depth - 1, t);
            (Value::Map([(k, v)].into_iter().collect()), C::Map([(kc, vc)].into_iter().collect()))
        }
        k => leaf(k, t),
    }
}
fn same(a: &C, b: &C) -> bool {
    match (a, b) {
        (C::Null, C::Null) => true,
        (C::Bool(x), C::Bool(y)) => x == y,
        (C::Integer(x), C::Integer(y)) => x == y,
        (C::Float(x), C::Float(y)) => x == y,
        (C::Bytes(x), C::Bytes(y)) => x == y,
        (C::Text(x), C::Text(y)) => x == y,
        (C::Array(x), C::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (C::Map(x), C::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|((a, b), (c, d))| same(a, c) && same(b, d)),
        (C::Tag(x, a), C::Tag(y, b)) => x == y && same(a, b),
        _ => false,
    }
}
/// Values written as CBOR.
#[no_mangle]
extern "C" fn h_cb_value(t: u64) {
    let (v, c) = cbor(1, t);
    check(same(&C::from(v), &c), 1);
    reach(1)
}
/// Integers of any size: CBOR integers, or big numbers.
#[no_mangle]
extern "C" fn h_cb_integer(_t: u64) {
    let lo = u64_() as i128;
    let hi = choose(3) as i128;
    let v = ((hi << 64) | lo) * if flag() { -1 } else { 1 };
    match C::from(Number::from(BigRational::from_integer(BigInt::from(v)))) {
        C::Integer(i) => {
            reach(1);
            check(i == v && i < 1 << 64 && i >= -(1 << 64), 2)
        }
        C::Tag(t, b) => {
            reach(2);
            let C::Bytes(b) = *b else { return check(false, 2) };
            check(b.len() <= 16, 2);
            let mut n = 0i128;
            for x in b {
                n = (n << 8) | x as i128
            }
            check((t == 2 && n == v) || (t == 3 && -1 - n == v), 2)
        }
        _ => check(false, 2),
    }
}
/// Tags of layouts, on every kind of node.
#[no_mangle]
extern "C" fn h_cb_tags(t: u64) {
    const INT: &str = r#""type":"number","datatype":"http://www.w3.org/2001/XMLSchema#integer""#;
    // the tag of the layout number `i`
    let tagged: Vec<Option<u8>> = (0..3).map(|_| if flag() { Some(choose(2 + t as u32) as u8 + 40) } else { None }).collect();
    let l = |i: usize, body: &str| match tagged[i] {
        Some(t) => format!(r#"{{{body},"extra":{{"https://schema.treeldr.org/cbor#tag":{t}}}}}"#),
        None => format!(r#"{{{body},"extra":{{"https://schema.treeldr.org/other":7}}}}"#),
    };
    let tag = |i: usize, c: C| match tagged[i] {
        Some(t) => C::Tag(t as u64, Box::new(c)),
        None => c,
    };
    let x = ascii(1);
    let n = u8_();
    let (src, v, want) = match choose(7) {
        0 => (l(0, r#""type":"string""#), s(&x), tag(0, C::Text(x.clone()))),
        1 => (l(0, INT), num(n), tag(0, C::Integer(n as i128))),
        2 => (l(0, r#""type":"boolean""#), boolean(n & 1 == 1), tag(0, C::Bool(n & 1 == 1))),
        3 => (l(0, r#""type":"unit","const":[null]"#), list(vec![Value::unit()]), tag(0, C::Array(vec![C::Null]))),
        4 => {
            let f = l(1, r#""type":"string""#);
            let b = format!(r#""type":"record","fields":{{"a":{{"value":{f},"property":"https://ex.org/a"}}}}"#);
            (l(0, &b), map([("a", s(&x))]), tag(0, C::Map([(C::Text("a".into()), tag(1, C::Text(x.clone())))].into_iter().collect())))
        }
        5 => {
            let f = l(1, INT);
            let b = format!(r#""type":"list","node":{{"head":"h","intro":["h"],"value":{{"layout":{f},"input":["h"]}}}}"#);
            let b = if t == 0 { format!(r#""type":"list","node":{{"value":{f}}}"#) } else { b };
            (l(0, &b), list(vec![num(n)]), tag(0, C::Array(vec![tag(1, C::Integer(n as i128))])))
        }
        _ => {
            let (f, g) = (l(1, r#""type":"string""#), l(2, INT));
            let b = format!(r#""type":"sum","variants":{{"s":{{"value":{{"layout":{f},"input":"_:self"}}}},"n":{{"value":{{"layout":{g},"input":"_:self"}}}}}}"#);
            if flag() {
                (l(0, &b), s(&x), tag(0, tag(1, C::Text(x.clone()))))
            } else {
                (l(0, &b), num(n), tag(0, tag(2, C::Integer(n as i128))))
            }
        }
    };
    let (ls, r) = build(&src);
    let Ok((d, i)) = dehy(&ls, &v, &r) else { return check(false, 3) };
    let Ok(w) = treeldr_layouts::hydrate(&ls, &index(&d), &r, &i) else { return check(false, 3) };
    check(w.clone().into_untyped() == v, 3);
    check(same(&C::from(w.clone()), &C::from(v)), 5);
    match w.try_into_tagged_serde_cbor(&ls) {
        Ok(c) => {
            reach(1);
            check(same(&c, &want), 4)
        }
        Err(_) => check(false, 4),
    }
}
/// A tag that is not an unsigned integer is an error.
#[no_mangle]
extern "C" fn h_cb_badtag(_t: u64) {
    let digit = chars_in(1, b'0', b'9');
    let any = ascii(2);
    let num_ty = |ty: &str, v: &str| format!(r#"{{"type":"http://www.w3.org/2001/XMLSchema#{ty}","value":"{v}"}}"#);
    let k = choose(6);
    let tag = match k {
        0 => digit.clone(),
        1 => {
            // not an integer for `serde_json`
            assume(digit != "0");
            format!("-{digit}")
        }
        2 => format!("\"{digit}\""),
        3 => num_ty("unsignedInt", &digit),
        4 => num_ty("string", &digit),
        _ => {
            assume(!any.contains(['"', '\\']) && !any.bytes().any(|c| c < 32));
            num_ty("unsignedLong", &any)
        }
    };
    let (ls, r) = build(&format!(r#"{{"type":"string","extra":{{"https://schema.treeldr.org/cbor#tag":{tag}}}}}"#));
    let Ok((_, i)) = dehy(&ls, &s("a"), &r) else { return check(false, 3) };
    let Ok(w) = treeldr_layouts::hydrate(&ls, &Plain(vec![]), &r, &i) else { return check(false, 3) };
    let want = match k {
        0 | 3 => Some(digit.as_bytes()[0] - b'0'),
        5 => {
            let b = any.as_bytes();
            let d = |c: u8| c.is_ascii_digit();
            if d(b[0]) && d(b[1]) {
                Some((b[0] - b'0') * 10 + b[1] - b'0')
            } else if b[0] == b'+' && d(b[1]) {
                Some(b[1] - b'0')
            } else {
                None
            }
        }
        _ => None,
    };
    match (w.try_into_tagged_serde_cbor(&ls), want) {
        (Ok(C::Tag(t, c)), Some(n)) => {
            reach(1);
            check(t == n as u64 && same(&c, &C::Text("a".into())), 4)
        }
        (Err(_), None) => reach(2),
        _ => check(false, 6),
    }
}

// ---- serde -----------------------------------------------------------------------------------

/// Values written and read through serde.
#[no_mangle]
extern "C" fn h_sd_cbor(t: u64) {
    let (v, _) = cbor(1, t);
    let Ok(b) = serde_cbor::to_vec(&v) else { return check(false, 1) };
    match serde_cbor::from_slice::<Value>(&b) {
        Ok(w) => {
            reach(1);
            check(w == v, 2)
        }
        Err(_) => check(false, 1),
    }
}
#[no_mangle]
extern "C" fn h_sd_json(t: u64) {
    let (a, _, v) = json(1, t);
    match choose(3) {
        0 => {
            reach(1);
            check(serde_json::to_value(&v).is_ok_and(|x| x == a), 3)
        }
        1 => {
            reach(2);
            check(serde_json::from_value::<Value>(a).is_ok_and(|x| x == v), 4)
        }
        _ => {
            reach(3);
            let Ok(text) = serde_json::to_string(&v) else { return check(false, 3) };
            check(serde_json::from_str::<Value>(&text).is_ok_and(|x| x == v), 5)
        }
    }
}
/// CBOR documents with integers of any size, floats, tags and undefined.
#[no_mangle]
extern "C" fn h_sd_read(_t: u64) {
    let b = |n: usize| bytes(n);
    let (doc, want): (Vec<u8>, Option<Value>) = match choose(10) {
        0 => {
            let u = u64_();
            ([vec![0x1b], u.to_be_bytes().to_vec()].concat(), Some(num(u)))
        }
        1 => {
            let u = u64_();
            let n = Number::new(BigRational::from_integer(BigInt::from(-1 - (u as i128))));
            ([vec![0x3b], u.to_be_bytes().to_vec()].concat(), Some(num(n)))
        }
        2 => {
            let u = u8_();
            (vec![0x38, u], Some(num(-1 - (u as i64))))
        }
        3 => (vec![0xf7 - choose(2) as u8], Some(Value::unit())),
        4 => {
            let x = ascii(1);
            let c = x.as_bytes()[0];
            (vec![0xd8, u8_(), 0x61, c], Some(s(&x)))
        }
        5 => {
            let x = b(2);
            (vec![0x42, x[0], x[1]], Some(Value::Literal(Literal::ByteString(x))))
        }
        8 => {
            let k = choose(3) as usize;
            (vec![0xf9, [0x7e, 0x7c, 0xfc][k], 0], None)
        }
        6 => {
            // single floats
            let m = (1i64 << 23) + u8_() as i64;
            let n = Number::new(BigRational::new(m.into(), (1i64 << 24).into()));
            (vec![0xfa, 0x3f, 0, 0, m as u8], Some(num(n)))
        }
        7 => {
            // double floats, down to the last bit
            let m = (1i64 << 52) + u8_() as i64;
            let neg = flag();
            let n = Number::new(BigRational::new(if neg { -m } else { m }.into(), (1i64 << 54).into()));
            (vec![0xfb, if neg { 0xbf } else { 0x3f }, 0xd0, 0, 0, 0, 0, 0, m as u8], Some(num(n)))
        }
        _ => {
            // half floats, exactly
            let m = below(8);
            let n = Number::new(BigRational::new((m as i64 + 8).into(), 8.into()));
            (vec![0xf9, 0x3c | (m >> 1), (m & 1) << 7], Some(num(n)))
        }
    };
    match (serde_cbor::from_slice::<Value>(&doc), want) {
        (Ok(v), Some(w)) => {
            reach(1);
            check(v == w, 6)
        }
        (Err(_), None) => reach(2),
        (Ok(_), None) => check(false, 7),
        (Err(_), Some(_)) => check(false, 8),
    }
}
/// Big numbers of CBOR.
#[no_mangle]
extern "C" fn h_sd_bignum(_t: u64) {
    let x = [1 + below(200), u8_()];
    let mut doc = vec![0xc2, 0x49, x[0]];
    doc.extend([0; 7]);
    doc.push(x[1]);
    let n: BigInt = (BigInt::from(x[0]) << 64) + x[1];
    let want = num(Number::new(BigRational::from_integer(n)));
    match serde_cbor::from_slice::<Value>(&doc) {
        Ok(v) => {
            reach(1);
            check(v == want, 9)
        }
        Err(_) => check(false, 10),
    }
}

entries!(
    h_nu_json, h_nu_native, h_nu_decimal, h_nu_float, h_nu_rdf, h_js_trip, h_js_read, h_js_partial, h_js_display, h_js_typed, h_cb_value, h_cb_integer,
    h_cb_tags, h_cb_badtag, h_sd_cbor, h_sd_json, h_sd_read, h_sd_bignum
);
