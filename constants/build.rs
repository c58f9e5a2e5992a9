//! Writes one row per field of the shipped dictionary.  A name without a generated type resolves to the stand-in of the
//! outer scope, so that a missing type is an observation of the run and not a compile error.
use std::fmt::Write;
fn main() {
    let path = "/repo/resources/FIX43.xml";
    println!("cargo:rerun-if-changed={path}");
    let text = std::fs::read_to_string(path).unwrap();
    let doc = roxmltree::Document::parse(&text).unwrap();
    let mut names: Vec<(String, String)> = vec![];
    for s in doc.root_element().children().filter(|n| n.has_tag_name("fields")) {
        for f in s.children().filter(|n| n.has_tag_name("field")) {
            if let Some(n) = f.attribute("name") { if !names.iter().any(|x| x.0 == n) { names.push((n.into(), f.attribute("type").unwrap_or("").to_lowercase())) } }
        }
    }
    let mut o = String::from("pub fn rows() -> Vec<Row> {\n    let mut v: Vec<Row> = Vec::new();\n");
    let mut standins = String::from("pub mod standins {\n");
    for (n, t) in &names {
        writeln!(standins, "pub struct {n}; impl {n} {{ pub fn field() -> u32 {{ u32::MAX }} pub fn new<T>(_: T) -> super::Nothing {{ super::Nothing }} }}").unwrap();
        let val = match t.as_str() {
            "char" | "float" | "price" | "amt" | "qty" | "priceoffset" | "int" | "length" | "numingroup" | "seqnum" | "tagnum" => "1u8",
            "boolean" => "true",
            _ => "\"x\"",
        };
        writeln!(o, "    {{ use standins::*; {{ use fix_rs::fields::*; v.push(Row {{ name: \"{n}\", tag: || {n}::field() as u64, shown: shown!({n}::new({val})) }}); }} }}").unwrap();
    }
    o.push_str("    v\n}\n");
    standins.push_str("}\n");
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("rows.rs"), o + &standins).unwrap();
}
