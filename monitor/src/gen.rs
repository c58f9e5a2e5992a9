//! C32: the code generator run over other dictionary files; the generated code is compiled and run.
use crate::absdict::ADict;
use crate::report::*;
use crate::viol;
use serde_json::json;
use std::collections::BTreeSet;
use std::fmt::Write;
use std::process::{Command, Stdio};

/// what a field of this dictionary type takes, as an expression, and how that value reads
fn value(ty: &str, r: &mut crate::rng::Rng) -> (String, String) {
    match ty.to_uppercase().as_str() {
        "CHAR" => { let c = *r.pick(&['x', 'Q', '7']); (format!("{c:?}"), c.to_string()) }
        "BOOLEAN" => { let b = r.chance(1, 2); (b.to_string(), b.to_string()) }
        "FLOAT" | "PRICE" | "AMT" | "QTY" | "PRICEOFFSET" => { let v = *r.pick(&["1.5", "-0.25", "1024.125"]); (format!("{v}f32"), v.into()) }
        "INT" => { let v = r.below(2_000_000) as i64 - 1_000_000; (format!("({v}i32)"), v.to_string()) }
        "LENGTH" | "NUMINGROUP" | "SEQNUM" | "TAGNUM" => { let v = r.next() as u32; (format!("{v}u32"), v.to_string()) }
        _ => { let v = *r.pick(&["text", "a b", "x=y", "20221006-08:43:36.522", "0"]); (format!("{v:?}"), v.into()) }
    }
}
fn sh(cmd: &mut Command) -> Result<(bool, String), String> {
    let o = cmd.stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
    match o.status.code() { Some(k) => Ok((k == 0, format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)))), None => Err(format!("ended by a signal: {}", o.status)) }
}
pub fn c32(o: &Opts) -> Outcome {
    let work = std::env::var("VERIF_WORK").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().to_string());
    let gen = std::env::var("VERIF_GENERATOR").unwrap_or_default();
    let mut out = run_cases(o, o.pick(220, 12_000), 20, o.pick(75, 3600), |c| {
        let mut d = ADict::random(&mut c.rng);
        let mut seen: BTreeSet<u32> = d.fields.iter().map(|f| f.num).collect();
        for k in 0..c.rng.below(12) { // user defined and very large numbers, other styles of names
            let num = match c.rng.below(4) { 0 => 5000 + c.rng.below(5000) as u32, 1 => 10_000 + c.rng.below(50_000) as u32, 2 => c.rng.next() as u32 | 1 << 31, _ => 65_530 + c.rng.below(12) as u32 };
            if !seen.insert(num) { continue }
            let name = match c.rng.below(5) { 0 => format!("NoThings{k}"), 1 => format!("X_{k}_y"), 2 => format!("xmlName{k}"), 3 => format!("{}{k}", "VeryLongFieldName".repeat(4)), _ => format!("T{k}ABC") };
            let ty = { let t = *c.rng.pick(crate::absdict::TYPES); if c.rng.chance(1, 3) { t.to_lowercase() } else { t.into() } };
            let values = if c.rng.chance(1, 3) { (0..1 + c.rng.below(40)).map(|v| format!("{v}")).collect() } else { vec![] };
            d.fields.push(crate::absdict::FieldDecl { num, name, ty, values });
        }
        if c.rng.chance(1, 2) { c.rng.shuffle(&mut d.fields) }
        let xml = d.to_xml(&mut c.rng);
        let dir = format!("{work}/gen{}-{}", std::process::id(), c.idx);
        for p in ["resources", "out"] { std::fs::create_dir_all(format!("{dir}/{p}")).expect("scratch") }
        std::fs::write(format!("{dir}/resources/FIX43.xml"), &xml).expect("scratch");
        let mut src = String::from("include!(\"out/mod.rs\");\nfn show<T: std::fmt::Debug>(n: &str, tag: u32, v: T) { println!(\"{n}\\u{1}{tag}\\u{1}{v:?}\"); }\nfn main() {\n");
        let mut want = vec![];
        for f in &d.fields { let (e, v) = value(&f.ty, &mut c.rng); writeln!(src, "    show(\"{0}\", fields::{0}::field(), fields::{0}::new({e}));", f.name).unwrap(); want.push((f.name.clone(), f.num, v)) }
        src += "}\n";
        std::fs::write(format!("{dir}/main.rs"), &src).expect("scratch");
        let w = |more: &str| json!({"dictionary": show(&xml, 6000), "detail": show(more, 3000)});
        let res = (|| -> CaseResult {
            let run = |c: &mut Command, what: &str| sh(c).unwrap_or_else(|e| panic!("{what}: {e}"));
            let (ok, text) = run(Command::new(&gen).env("CARGO_MANIFEST_DIR", &dir).env("OUT_DIR", format!("{dir}/out")).current_dir(&dir), "generator");
            if !ok { viol!(w(&text), "the code generator fails on a valid dictionary") }
            let (ok, text) = run(Command::new("rustc").args(["--edition", "2021", "-Awarnings", "-Cdebuginfo=0", "-o", "prog", "main.rs"]).current_dir(&dir), "rustc");
            if !ok { if !text.contains("error") { panic!("rustc: {text}") } viol!(w(&text), "the code generated for a valid dictionary lacks a field, does not take a value of its kind, or does not compile") }
            let (ok, text) = run(&mut Command::new(format!("{dir}/prog")), "generated program");
            if !ok { viol!(w(&text), "the generated code fails when used") }
            let rows: Vec<Vec<&str>> = text.lines().map(|l| l.split('\u{1}').collect()).collect();
            for ((name, num, val), row) in want.iter().zip(&rows) {
                if row[0] != name || row[1] != num.to_string() { viol!(w(name), "{name}::field() is {}, the dictionary declares {num}", row[1]) }
                let digits: Vec<&str> = row[2].split(|c: char| !c.is_ascii_digit()).collect();
                if !digits.contains(&num.to_string().as_str()) { viol!(w(row[2]), "an instance of {name} does not carry tag {num}: {}", row[2]) }
                if !row[2].contains(&format!("{val:?}")) { viol!(w(row[2]), "an instance of {name} made from {val} holds something else: {}", row[2]) }
                c.stats.count("generated types compared", 1);
            }
            assert_eq!(rows.len(), want.len());
            Ok(())
        })();
        let _ = std::fs::remove_dir_all(&dir);
        c.stats.nontrivial(&d.fields.iter().map(|f| format!("{}:{}:{}", f.num, f.name, f.ty)).collect::<Vec<_>>().join(" "));
        res
    });
    out.rule = "dictionary files with 14 to 70 fields of all types; the generated code is compiled and every type's number, an instance's tag and value are compared; distinct = different sets of fields".into();
    out
}
