//! C30: the generated constants, the loaded dictionary and an independent reading of the dictionary file must agree.
use fix_rs::verif::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

pub struct Row { name: &'static str, tag: fn() -> u64, shown: Option<fn() -> String> }
#[derive(Debug)]
pub struct Nothing;
#[cfg(feature = "instances")]
macro_rules! shown { ($e:expr) => { Some(|| format!("{:?}", $e)) } }
#[cfg(not(feature = "instances"))]
macro_rules! shown { ($e:expr) => { None } }
include!(concat!(env!("OUT_DIR"), "/rows.rs"));

fn main() {
    let t0 = std::time::Instant::now();
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.into());
    let (seed, tier) = (get("--seed", "1").parse::<i64>().unwrap_or(1), get("--tier", "quick"));
    let verif = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
    let path = "/repo/resources/FIX43.xml";
    let text = std::fs::read_to_string(path).unwrap();
    let doc = roxmltree::Document::parse(&text).unwrap();
    let mut declared: BTreeMap<String, BTreeSet<u64>> = BTreeMap::new();
    let mut uses: BTreeMap<String, u64> = BTreeMap::new();
    for s in doc.root_element().children().filter(|n| n.is_element()) {
        if s.has_tag_name("fields") {
            for f in s.children().filter(|n| n.has_tag_name("field")) {
                declared.entry(f.attribute("name").unwrap_or("").into()).or_default().insert(f.attribute("number").and_then(|n| n.parse().ok()).unwrap_or(0));
            }
        }
    }
    // where the file places a field: section and, for messages, their type
    let mut header: BTreeSet<String> = BTreeSet::new();
    let mut trailer: BTreeSet<String> = BTreeSet::new();
    let mut bodies: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for s in doc.root_element().children().filter(|n| n.is_element()) {
        let direct = |n: roxmltree::Node| n.children().filter(|f| f.has_tag_name("field") || f.has_tag_name("group")).filter_map(|f| f.attribute("name").map(String::from)).collect::<Vec<_>>();
        if s.has_tag_name("header") { header.extend(direct(s)) }
        if s.has_tag_name("trailer") { trailer.extend(direct(s)) }
        if s.has_tag_name("messages") {
            for m in s.children().filter(|n| n.has_tag_name("message")) { bodies.entry(m.attribute("msgtype").unwrap_or("").into()).or_default().extend(direct(m)) }
        }
    }
    let dd = std::panic::catch_unwind(|| DataDictionary::from_xml(path)).ok();
    let rows: BTreeMap<&str, Row> = rows().into_iter().map(|r| (r.name, r)).collect();
    let mut bad: Vec<String> = vec![];
    let (mut n, mut instances) = (0u64, 0u64);
    let mut samples = vec![];
    for (name, numbers) in &declared {
        n += 1;
        let Some(r) = rows.get(name.as_str()) else { bad.push(format!("{name} is declared but not in the table built from the file")); continue };
        let tag = match std::panic::catch_unwind(|| (r.tag)()) { Ok(t) => t, Err(_) => { bad.push(format!("{name}::field() panicked")); continue } };
        if tag == u32::MAX as u64 { bad.push(format!("no generated type for declared field {name}")); continue }
        if !numbers.contains(&tag) { bad.push(format!("{name}::field() is {tag}, the file declares {numbers:?}")) }
        if samples.len() < 5 || n % 150 == 0 { samples.push(json!({"type": name, "field()": tag, "declared": numbers})) }
        if let Some(f) = r.shown {
            if let Ok(s) = std::panic::catch_unwind(|| f()) {
                if let Some(at) = s.find("tag: ") {
                    instances += 1;
                    let got: String = s[at + 5..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    if got.parse::<u64>().ok().map_or(true, |g| !numbers.contains(&g)) { bad.push(format!("an instance of {name} carries tag {got}, the file declares {numbers:?}")) }
                }
            }
        }
        // the loaded dictionary means the same field by that number
        if let Some(dd) = &dd {
            let t = tag as u32;
            let mut is = |what: &str, want: bool, got: bool| {
                *uses.entry(what.into()).or_default() += 1;
                if want && !got { bad.push(format!("the file places {name} in the {what}, the loaded dictionary does not know {tag} there")) }
                if !want && got && declared.values().filter(|x| x.contains(&tag)).count() < 2 { bad.push(format!("the loaded dictionary knows {tag} in the {what}, where the file does not place {name}")) }
            };
            is("header", header.contains(name), dd.is_header_field(t));
            is("trailer", trailer.contains(name), dd.is_trailer_field(t));
            is("list of types", true, dd.get_field_type(t).is_some());
            for (m, fields) in &bodies { if fields.contains(name) { is("body of a message", true, dd.is_msg_field(m, t)) } }
        }
    }
    if n < 50 { println!("INCONCLUSIVE property=C30 only {n} fields are declared"); std::process::exit(2) }
    let evidence = json!({"property": "C30", "tier": tier, "seed": seed, "level": "exploration", "violations": bad.len().min(1), "wall_s": t0.elapsed().as_secs_f64(), "assumptions": [],
        "coverage": {"evaluations": n, "distinct_nontrivial": declared.len(), "rule": "every field declared in the shipped dictionary, read independently: number of the generated type, tag of an instance of it, and what the loaded dictionary answers for that number; distinct = field names; this is all of them",
            "samples": samples, "observed": {"instances compared": instances, "dictionary loaded": dd.is_some(), "dictionary answers compared": uses}}});
    let out = get("--evidence", &format!("{verif}/evidence/C30.json"));
    if !out.is_empty() { std::fs::write(&out, serde_json::to_string_pretty(&evidence).unwrap()).unwrap() }
    if let Some(first) = bad.first() {
        let replay = format!("{verif}/replays/C30-seed{seed}.json");
        std::fs::write(&replay, serde_json::to_string_pretty(&json!({"property": "C30", "violations": bad, "replay_cmd": "/verif/check C30"})).unwrap()).unwrap();
        println!("violated: {first}");
        println!("VIOLATION property=C30 replay={replay}");
        std::process::exit(1);
    }
    println!("C30: {n} cases, {instances} instances compared, quiet");
}
