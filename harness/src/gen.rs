//! Layouts together with conforming values, chosen and filled symbolically.

use crate::{tl::*, *};

/// A layout (JSON syntax), a conforming value and the value expected back from RDF.
pub struct G {
    pub src: String,
    pub v: Value,
    /// `v` with its sets sorted and without duplicated literals.
    pub e: Value,
    /// Two of these with the same content denote one RDF resource.
    pub literal: bool,
}

fn lit_g(src: &str, v: Value) -> G {
    G { src: src.to_owned(), e: v.clone(), v, literal: true }
}
pub const LEAVES: u32 = 5;
/// A literal layout. The contents of strings and identifiers and the numbers are symbolic.
pub fn leaf(kind: u32) -> G {
    match kind {
        0 => lit_g(r#"{"type":"string"}"#, Value::string(ascii(2))),
        1 => lit_g(r#"{"type":"boolean"}"#, boolean(u8_() & 1 == 1)),
        2 => lit_g(r#"{"type":"number","datatype":"http://www.w3.org/2001/XMLSchema#integer"}"#, num(below(10))),
        3 => lit_g(r#"{"type":"id"}"#, Value::string(format!("https://ex.org/{}", chars_in(1, b'a', b'z')))),
        _ => lit_g(r#"{"type":"unit"}"#, Value::unit()),
    }
}
/// The same layout again with another value.
pub fn again(kind: u32) -> Value {
    leaf(kind).v
}
pub fn prop(n: u32) -> String {
    format!("https://ex.org/p{n}")
}
