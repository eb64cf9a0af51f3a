//! Documents with something in the place of every one of their parts.
use crate::*;

/// One to two characters that need no escape.
pub fn plain() -> String {
    let b = bytes(1 + choose(2) as usize);
    for x in &b {
        assume((*x >= 0x20) & (*x < 0x7f) & (*x != b'"') & (*x != b'\\'));
    }
    String::from_utf8(b).unwrap()
}
pub fn filler() -> String {
    let k = choose(42);
    match k {
        0 => "null".into(),
        1 => "true".into(),
        2 => "12".into(),
        3 => "-1".into(),
        4 => "1.5".into(),
        5 => "12345678901234567890".into(),
        6 => format!("\"{}\"", plain()),
        7 => format!("\"_:{}\"", plain()),
        8 => "\"\"".into(),
        9 => "[]".into(),
        10 => format!("[\"{}\"]", plain()),
        11 => "[\"a\",\"_:b\"]".into(),
        12 => "[1]".into(),
        13 => "{}".into(),
        14 => r#"{"value":"x"}"#.into(),
        15 => format!(r#"{{"value":"x","type":"{}"}}"#, plain()),
        16 => format!(r#"{{"value":"x","language":"{}"}}"#, plain()),
        17 => r#"{"value":"x","type":"t","language":"en"}"#.into(),
        18 => r#"{"value":"x","zz":1}"#.into(),
        19 => r#"{"value":1}"#.into(),
        20 => r#"{"type":"string"}"#.into(),
        21 => r#"{"type":"t"}"#.into(),
        22 => r#"{"layout":"l"}"#.into(),
        23 => r#"{"layout":{"type":"id"},"input":"_:a","graph":null}"#.into(),
        24 => r#"{"layout":true,"input":["_:a","b"],"graph":"_:g"}"#.into(),
        25 => r#"["a","b","c"]"#.into(),
        26 => r#"["_:a","b","c","d","e"]"#.into(),
        27 => r#"[["_:a","b",{"value":"x"}],["a","b","c",null]]"#.into(),
        28 => r#"[["a","b"]]"#.into(),
        29 => r#"{"a":"b"}"#.into(),
        30 => r#"{"value":{"type":"id"}}"#.into(),
        31 => r#"{"value":"l","intro":[],"property":"p","dataset":[]}"#.into(),
        32 => r#"{"value":"l","intro":["a","b"],"required":true}"#.into(),
        33 => r#"{"value":"l","head":"h","rest":"r"}"#.into(),
        34 => r#"{"v":{"value":"l"},"w":{"value":{"layout":"m"}}}"#.into(),
        35 => r#"[{"value":"l"},{"value":false,"property":"p"}]"#.into(),
        36 => r#"{"type":"unit","const":{"a":[1,null,"x"]}}"#.into(),
        // what is used by default, and a little more
        37 => r#"["value","x"]"#.into(),
        38 => r#"["self","x"]"#.into(),
        39 => r#""_:value""#.into(),
        40 => r#"["_:value","_:self"]"#.into(),
        _ => r#"["l",{"type":"boolean"},true]"#.into(),
    }
}
/// Documents with a hole.
pub const HOLES: &[&str] = &[
    "@",
    r#"{"type":@}"#,
    r#"{"base":@}"#,
    r#"{"type":"string","base":@}"#,
    r#"{"type":"string","prefixes":@}"#,
    r#"{"type":"string","prefixes":{"p":@}}"#,
    r#"{"type":"string","id":@}"#,
    r#"{"type":"string","input":@}"#,
    r#"{"type":"string","intro":@}"#,
    r#"{"type":"string","dataset":@}"#,
    r#"{"type":"string","dataset":[@]}"#,
    r#"{"type":"string","dataset":[[@,"b","c"]]}"#,
    r#"{"type":"string","dataset":[["a","b",@]]}"#,
    r#"{"type":"string","dataset":[["a","b","c",@]]}"#,
    r#"{"type":"string","extra":@}"#,
    r#"{"type":"string","extra":{"p":@}}"#,
    r#"{"type":"string","resource":@}"#,
    r#"{"type":"string","datatype":@}"#,
    r#"{"type":"string","const":@}"#,
    r#"{"type":"string","zz":@}"#,
    r#"{"type":"number","datatype":@}"#,
    r#"{"type":"number","resource":@}"#,
    r#"{"type":"bytes","datatype":@}"#,
    r#"{"type":"bytes","datatype":"d","resource":@}"#,
    r#"{"type":"boolean","datatype":@}"#,
    r#"{"type":"boolean","resource":@}"#,
    r#"{"type":"id","resource":@}"#,
    r#"{"type":"id","datatype":@}"#,
    r#"{"type":"unit","const":@}"#,
    r#"{"type":"unit","resource":@}"#,
    r#"{"type":"record","fields":@}"#,
    r#"{"type":"record","fields":{"f":@}}"#,
    r#"{"type":"record","fields":{"f":{"value":@}}}"#,
    r#"{"type":"record","fields":{"f":{"value":{"layout":@}}}}"#,
    r#"{"type":"record","fields":{"f":{"value":{"layout":"l","input":@}}}}"#,
    r#"{"type":"record","fields":{"f":{"value":{"layout":"l","graph":@}}}}"#,
    r#"{"type":"record","fields":{"f":{"value":{"layout":"l","zz":@}}}}"#,
    r#"{"type":"record","fields":{"f":{"value":"l","intro":@}}}"#,
    r#"{"type":"record","fields":{"f":{"value":"l","dataset":@}}}"#,
    r#"{"type":"record","fields":{"f":{"value":"l","property":@}}}"#,
    r#"{"type":"record","fields":{"f":{"value":"l","required":@}}}"#,
    r#"{"type":"record","fields":{"f":{"value":"l","zz":@}}}"#,
    r#"{"type":"record","zz":@}"#,
    r#"{"type":"sum","variants":@}"#,
    r#"{"type":"sum","variants":{"v":@}}"#,
    r#"{"type":"sum","variants":{"v":{"value":@}}}"#,
    r#"{"type":"sum","variants":{"v":{"value":{"layout":"l","input":@}}}}"#,
    r#"{"type":"sum","variants":{"v":{"value":{"layout":"l","graph":@}}}}"#,
    r#"{"type":"sum","variants":{"v":{"value":"l","intro":@}}}"#,
    r#"{"type":"sum","variants":{"v":{"value":"l","dataset":@}}}"#,
    r#"{"type":"sum","variants":{"v":{"value":"l","property":@}}}"#,
    r#"{"type":"list","node":@}"#,
    r#"{"type":"list","node":{"value":@}}"#,
    r#"{"type":"list","node":{"value":"l","head":@}}"#,
    r#"{"type":"list","node":{"value":"l","rest":@}}"#,
    r#"{"type":"list","node":{"value":"l","intro":@}}"#,
    r#"{"type":"list","node":{"value":"l","dataset":@}}"#,
    r#"{"type":"list","node":{"value":"l","zz":@}}"#,
    r#"{"type":"list","node":"l","head":@}"#,
    r#"{"type":"list","node":"l","tail":@}"#,
    r#"{"type":"list","node":"l","zz":@}"#,
    r#"{"type":"list","head":@}"#,
    r#"{"type":"set","item":@}"#,
    r#"{"type":"set","item":{"value":@}}"#,
    r#"{"type":"set","item":{"value":"l","property":@}}"#,
    r#"{"type":"set","intro":@}"#,
    r#"{"type":"tuple","items":@}"#,
    r#"{"type":"tuple","items":[@]}"#,
    r#"{"type":"tuple","zz":@}"#,
    r#"{"type":"union","layouts":@}"#,
    r#"{"type":"intersection","layouts":@}"#,
];
/// What derives from serde takes arrays for objects, the items for the entries.
pub fn positional(hole: &str, x: &str) -> bool {
    let object = ["\"value\":@", "\"items\":@", "\"items\":[@", "\"f\":@", "\"v\":@", "\"node\":@", "\"item\":@"];
    x.starts_with('[') && object.iter().any(|o| hole.contains(o)) || hole.contains("\"extra\":") && x.contains("[\"")
}
