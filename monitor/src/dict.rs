//! C12..C14: the data dictionary loader against the abstract dictionary its XML was rendered from.
use crate::absdict::*;
use crate::report::*;
use crate::rng::Rng;
use crate::viol;
use fix_rs::verif::DataDictionary;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::str::FromStr;

fn set(s: Option<&HashSet<u32>>) -> BTreeSet<u32> { s.map(|x| x.iter().copied().collect()).unwrap_or_default() }
fn short(a: &BTreeSet<u32>, b: &BTreeSet<u32>) -> String { format!("missing {:?}, extra {:?}", b.difference(a).take(12).collect::<Vec<_>>(), a.difference(b).take(12).collect::<Vec<_>>()) }
/// compares one scope of the loaded dictionary; returns the number of facts compared
fn scope(dd: &DataDictionary, ty: &str, s: &Scope, path: &str, universe: &[u32], is_group: bool, st: &mut Stats) -> Result<(), String> {
    let want = s.tags();
    if dd.get_msg_fields(ty).is_none() && !want.is_empty() { return Err(format!("{path}: no field set")) }
    let got = set(dd.get_msg_fields(ty));
    if got != want { return Err(format!("{path}: fields differ: {}", short(&got, &want))) }
    let wreq: BTreeSet<u32> = s.members.iter().filter(|m| m.required).map(|m| m.tag).collect();
    let greq = set(dd.get_msg_required_field(ty));
    if greq != wreq { return Err(format!("{path}: required fields differ: {}", short(&greq, &wreq))) }
    for t in universe {
        if dd.is_msg_field(ty, *t) != want.contains(t) { return Err(format!("{path}: is_msg_field({t}) = {}", !want.contains(t))) }
        if dd.is_msg_req_field(ty, *t) != wreq.contains(t) { return Err(format!("{path}: is_msg_req_field({t}) = {}", !wreq.contains(t))) }
        let g = s.get(*t).and_then(|m| m.group.as_ref());
        if dd.is_msg_group(ty, *t) != g.is_some() || dd.get_msg_group(ty, *t).is_some() != g.is_some() { return Err(format!("{path}: field {t} group: {}, expected {}", dd.is_msg_group(ty, *t), g.is_some())) }
    }
    st.count("membership facts", 3 * universe.len() as u64);
    if is_group {
        let o = dd.get_ordered_fields();
        if o != s.order() { return Err(format!("{path}: member order {:?}, expected {:?}", o, s.order())) }
        st.count("member orders", 1);
    }
    for m in &s.members { if let Some(g) = &m.group {
        let gi = dd.get_msg_group(ty, m.tag).unwrap();
        if gi.delimiter() != g.delim() { return Err(format!("{path}/{}: delimiter {}, expected {}", m.tag, gi.delimiter(), g.delim())) }
        st.count("groups compared", 1);
        scope(gi.data_dictionary(), ty, g, &format!("{path}/{}", m.tag), universe, true, st)?;
    } }
    Ok(())
}
fn universe(a: &ADict, r: &mut Rng, all: bool) -> Vec<u32> {
    let mut u: Vec<u32> = if all { a.fields.iter().map(|f| f.num).collect() } else { a.fields.iter().map(|f| f.num).filter(|_| r.chance(1, 3)).collect() };
    for _ in 0..6 { u.push(r.below(100_000) as u32) } u.push(0); u.push(u32::MAX);
    u
}
fn source(c: &mut Case) -> (ADict, String) {
    if c.idx % 2000 == 0 { let xml = std::fs::read_to_string(crate::codec::shipped_path()).unwrap(); (ADict::read(&xml), xml) }
    else { let mut a = ADict::random(&mut c.rng); if c.rng.chance(1, 4) { a.overlap(&mut c.rng) } let x = a.to_xml(&mut c.rng); (a, x) }
}
fn load(xml: &str) -> Result<DataDictionary, String> { match guard(|| DataDictionary::from_str(xml)) { Err(p) => Err(format!("loading panicked: {p}")), Ok(Err(e)) => Err(format!("valid dictionary refused: {e}")), Ok(Ok(d)) => Ok(d) } }

pub fn c12(o: &Opts) -> Outcome {
    let mut out = run_cases(o, o.pick(16_000, 800_000), o.pick(500, 10_000), o.pick(60, 500), |c| {
        let (a, xml) = source(c);
        let shipped = c.idx % 2000 == 0;
        let wit = || json!({"dictionary": if shipped { "resources/FIX43.xml".to_string() } else { show(&xml, 20000) }});
        let dd = match load(&xml) { Ok(d) => d, Err(e) => viol!(wit(), "{e}") };
        let dd = if c.rng.chance(1, 4) { c.stats.count("cloned dictionaries", 1); dd.clone() } else { dd };
        let r = a.resolve();
        let u = universe(&a, &mut c.rng, !shipped || c.thorough);
        let mut scopes: Vec<(&str, &Scope)> = vec![("header", &r.header), ("trailer", &r.trailer)];
        for (t, s) in &r.msgs { scopes.push((t, s)) }
        for (t, s) in scopes { if let Err(e) = guard(|| scope(&dd, t, s, t, &u, false, c.stats)).unwrap_or_else(Err) { viol!(wit(), "{e}") } }
        for t in ["ZZ", "", "Header"] { if !r.msgs.contains_key(t) && (dd.get_msg_fields(t).is_some() || dd.get_msg_required_field(t).is_some() || dd.is_msg_group(t, 73)) { viol!(wit(), "undeclared message type {t:?} has fields") } }
        c.stats.count(if shipped { "loads of the shipped file" } else { "random dictionaries" }, 1);
        c.stats.count("messages compared", r.msgs.len() as u64);
        c.stats.nontrivial(&xml);
        Ok(())
    });
    out.rule = "dictionaries rendered from random abstract ones (nested components and groups) plus the shipped file read independently; all member, required, group, delimiter and order answers compared at every nesting level; distinct = different dictionary texts".into();
    out
}

pub fn c13(o: &Opts) -> Outcome {
    let mut out = run_cases(o, o.pick(32_000, 1_000_000), o.pick(500, 10_000), o.pick(60, 500), |c| {
        let (a, xml) = source(c);
        let wit = || json!({"dictionary": show(&xml, 20000)});
        let dd = match load(&xml) { Ok(d) => d, Err(e) => viol!(wit(), "{e}") };
        let dds = [dd.clone(), dd];
        let r = a.resolve();
        let decl: BTreeMap<u32, &FieldDecl> = a.fields.iter().map(|f| (f.num, f)).collect();
        let mut probes: Vec<u32> = decl.keys().copied().collect();
        for _ in 0..40 { probes.push(c.rng.below(80_000) as u32) }
        probes.extend((0..60).collect::<Vec<u32>>()); probes.push(u32::MAX);
        for (k, dd) in dds.iter().enumerate() {
            for t in &probes {
                let ty = dd.get_field_type(*t).map(|x| x.to_string());
                let want = decl.get(t).map(|f| if TYPES.contains(&f.ty.as_str()) { f.ty.clone() } else { "UNKNOWN".to_string() });
                if ty != want { viol!(wit(), "type of field {t} is {ty:?}, expected {want:?}") }
                let got: Option<BTreeSet<String>> = dd.get_field_values(*t).map(|s| s.iter().cloned().collect());
                let want: Option<BTreeSet<String>> = decl.get(t).filter(|f| !f.values.is_empty()).map(|f| f.values.iter().cloned().collect());
                if got.clone().unwrap_or_default() != want.clone().unwrap_or_default() || (want.is_some() != got.is_some()) { viol!(wit(), "values of field {t} are {got:?}, expected {want:?}") }
                let (h, tr) = (dd.is_header_field(*t), dd.is_trailer_field(*t));
                if h != r.header.get(*t).is_some() { viol!(wit(), "is_header_field({t}) = {h}") }
                if tr != r.trailer.get(*t).is_some() { viol!(wit(), "is_trailer_field({t}) = {tr}") }
            }
            c.stats.count(if k == 0 { "answers from a clone" } else { "answers" }, 4 * probes.len() as u64);
        }
        c.stats.count("declared fields", decl.len() as u64);
        c.stats.nontrivial(&xml);
        Ok(())
    });
    out.rule = "random dictionaries and the shipped file; type, values, header and trailer membership of every declared number and many undeclared ones, original and clone; distinct = different dictionary texts".into();
    out
}

// ---- C14 ---------------------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct El { name: String, attrs: Vec<(String, String)>, kids: Vec<El> }
fn to_el(n: roxmltree::Node) -> El { El { name: n.tag_name().name().into(), attrs: n.attributes().iter().map(|a| (a.name().to_string(), a.value().to_string())).collect(), kids: n.children().filter(|c| c.is_element()).map(to_el).collect() } }
impl El {
    fn attr(&self, k: &str) -> Option<&str> { self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str()) }
    fn set(&mut self, k: &str, v: &str) { for a in self.attrs.iter_mut() { if a.0 == k { a.1 = v.to_string() } } }
    fn render(&self, s: &mut String) {
        *s += &format!("<{}", self.name);
        for (k, v) in &self.attrs { *s += &format!(" {k}=\"{}\"", esc(v)) }
        if self.kids.is_empty() { *s += "/>" } else { *s += ">"; for k in &self.kids { k.render(s) } *s += &format!("</{}>", self.name) }
    }
    fn sec(&mut self, n: &str) -> &mut El { self.kids.iter_mut().find(|k| k.name == n).unwrap() }
}
/// paths of all content elements (below header, trailer, messages and the components in use) with a flag: container or reference
fn content(root: &El, used: &BTreeSet<String>) -> Vec<Vec<usize>> {
    fn walk(e: &El, path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) { for (i, k) in e.kids.iter().enumerate() { path.push(i); out.push(path.clone()); walk(k, path, out); path.pop(); } }
    let mut out = vec![];
    for (i, s) in root.kids.iter().enumerate() {
        match s.name.as_str() {
            "header" | "trailer" => walk(s, &mut vec![i], &mut out),
            "messages" => for (j, m) in s.kids.iter().enumerate() { walk(m, &mut vec![i, j], &mut out) },
            "components" => for (j, m) in s.kids.iter().enumerate() { if used.contains(m.attr("name").unwrap()) { walk(m, &mut vec![i, j], &mut out) } },
            _ => {}
        }
    }
    out
}
fn used(root: &El) -> BTreeSet<String> {
    fn refs(e: &El, out: &mut BTreeSet<String>) { for k in &e.kids { if k.name == "component" { out.insert(k.attr("name").unwrap().into()); } refs(k, out) } }
    let mut u = BTreeSet::new();
    for s in &root.kids { if s.name == "header" || s.name == "trailer" || s.name == "messages" { refs(s, &mut u) } }
    loop {
        let mut v = u.clone();
        for s in &root.kids { if s.name == "components" { for c in &s.kids { if u.contains(c.attr("name").unwrap()) { refs(c, &mut v) } } } }
        if v == u { return u } u = v;
    }
}
fn at<'a>(root: &'a mut El, p: &[usize]) -> &'a mut El { let mut e = root; for i in p { e = &mut e.kids[*i] } e }
/// (defective text, allowed error variants, kind)
fn defect(r: &mut Rng, xml: &str) -> Option<(String, Vec<&'static str>, String)> {
    let doc = roxmltree::Document::parse(xml).ok()?;
    let mut root = to_el(doc.root_element());
    let paths = content(&root, &used(&root));
    let (exp, kind): (Vec<&'static str>, String) = match r.below(17) {
        0 => { let mut s = String::new(); root.render(&mut s);
               let bad = match r.below(5) { 0 => { let mut i = r.below(s.len()); while !s.is_char_boundary(i) { i -= 1 } s[..i].to_string() } 1 => s.replacen("</", "<", 1), 2 => format!("{s}<x/>"), 3 => s.replacen('"', "", 1), _ => r.pick(&["", "   ", "not xml", "<fix", "8=FIX.4.3"]).to_string() };
               if roxmltree::Document::parse(&bad).is_ok() { return None }
               return Some((bad, vec!["DocumentNotParsed"], "not XML".into())) }
        1 => { let i = r.below(root.kids.len()); let n = root.kids.remove(i).name; (vec!["XmlNodeNotFound"], format!("section {n} missing")) }
        2 => { let k = *r.pick(&["type", "major", "minor"]); if r.chance(1, 2) { root.attrs.retain(|a| a.0 != k) } else { root.set(k, "") } (vec!["AttributeNotFound"], format!("root {k}")) }
        3 => { let f = root.sec("fields"); let i = r.below(f.kids.len()); let k = *r.pick(&["number", "name", "type"]); if r.chance(1, 2) { f.kids[i].attrs.retain(|a| a.0 != k) } else { f.kids[i].set(k, "") } (vec!["AttributeNotFound"], format!("field {k}")) }
        4 => { let f = root.sec("fields"); let v: Vec<usize> = (0..f.kids.len()).filter(|i| !f.kids[*i].kids.is_empty()).collect(); if v.is_empty() { return None } let i = *r.pick(&v); let j = r.below(f.kids[i].kids.len());
               if r.chance(1, 3) { let x = f.kids[i].kids[j].clone(); let at = r.below(f.kids[i].kids.len() + 1); f.kids[i].kids.insert(at, x); (vec!["DuplicateField"], "duplicate allowed value".into()) }
               else { if r.chance(1, 2) { f.kids[i].kids[j].attrs.retain(|a| a.0 != "enum") } else { f.kids[i].kids[j].set("enum", "") } (vec!["AttributeNotFound"], "value enum".into()) } }
        5 => { let m = root.sec("messages"); if m.kids.is_empty() { return None } let i = r.below(m.kids.len()); let k = *r.pick(&["name", "msgtype", "msgcat"]); if r.chance(1, 2) { m.kids[i].attrs.retain(|a| a.0 != k) } else { m.kids[i].set(k, "") } (vec!["AttributeNotFound"], format!("message {k}")) }
        6 => { let m = root.sec("components"); if m.kids.is_empty() { return None } let i = r.below(m.kids.len()); if r.chance(1, 2) { m.kids[i].attrs.retain(|a| a.0 != "name") } else { m.kids[i].set("name", "") } (vec!["AttributeNotFound", "XmlNodeNotFound"], "component name".into()) }
        7 | 8 => { if paths.is_empty() { return None } let p = r.pick(&paths).clone(); let e = at(&mut root, &p); let k = *r.pick(&["name", "required"]); let kind = format!("{} reference {k}", e.name); if r.chance(1, 2) { e.attrs.retain(|a| a.0 != k) } else { e.set(k, "") } (vec!["AttributeNotFound"], kind) }
        9 => { let f = root.sec("fields"); let i = r.below(f.kids.len()); let v = *r.pick(&["abc", "-1", "4294967296", "1.5", "0x10", "12 ", "1e3"]); f.kids[i].set("number", v); (vec!["FieldNotParsed"], "field number".into()) }
        10 => { let f = root.sec("fields"); if f.kids.len() < 2 { return None } let i = r.below(f.kids.len()); let j = (i + 1 + r.below(f.kids.len() - 1)) % f.kids.len(); let k = *r.pick(&["number", "name"]); let v = f.kids[i].attr(k).unwrap().to_string(); f.kids[j].set(k, &v); (vec!["DuplicateField"], format!("duplicate field {k}")) }
        11 => { let m = root.sec("messages"); if m.kids.len() < 2 { return None } let i = r.below(m.kids.len()); let j = (i + 1 + r.below(m.kids.len() - 1)) % m.kids.len(); let k = *r.pick(&["msgtype", "name"]); let v = m.kids[i].attr(k).unwrap().to_string(); m.kids[j].set(k, &v); (vec!["DuplicateMessage"], format!("duplicate message {k}")) }
        12 => { // a field repeated in one scope
                let v: Vec<Vec<usize>> = paths.iter().filter(|p| { let mut e = &root; for i in *p { e = &e.kids[*i] } e.name != "component" }).cloned().collect();
                if v.is_empty() { return None } let p = r.pick(&v).clone(); let e = at(&mut root, &p).clone(); let (pp, _) = p.split_at(p.len() - 1); let par = at(&mut root, pp);
                let mut x = e.clone(); if x.name == "group" && r.chance(1, 2) { x.name = "field".into(); x.kids.clear() }
                let i = r.below(par.kids.len() + 1); par.kids.insert(i, x); (vec!["DuplicateField"], "field repeated in a scope".into()) }
        13 => { let v: Vec<Vec<usize>> = paths.iter().filter(|p| { let mut e = &root; for i in *p { e = &e.kids[*i] } e.name != "component" }).cloned().collect(); if v.is_empty() { return None }
                let p = r.pick(&v).clone(); at(&mut root, &p).set("name", "NoSuchField"); (vec!["XmlNodeNotFound"], "undeclared field".into()) }
        14 => { if paths.is_empty() { return None } let p = r.pick(&paths).clone(); let (pp, last) = p.split_at(p.len() - 1);
                let par = at(&mut root, pp);
                let c = El { name: "component".into(), attrs: vec![("name".into(), "NoSuchComponent".into()), ("required".into(), "N".into())], kids: vec![] };
                if r.chance(1, 2) { par.kids.insert(last[0], c) } else { par.kids.push(c) } (vec!["XmlNodeNotFound"], "undeclared component".into()) }
        15 => { // a component that contains itself, directly, in a group of its own or through others
                let u: Vec<String> = used(&root).into_iter().collect(); if u.is_empty() { return None }
                let to = r.pick(&u).clone();
                let reach = |root: &El, from: &str| { let mut only = root.clone(); only.kids.retain(|s| s.name == "components"); let body: Vec<El> = only.kids[0].kids.iter().filter(|k| k.attr("name") == Some(from)).cloned().collect(); only.kids.push(El { name: "messages".into(), attrs: vec![], kids: body }); used(&only) };
                let mut within = reach(&root, &to); within.insert(to.clone());
                let within: Vec<String> = within.into_iter().collect();
                let host = r.pick(&within).clone();
                let comps = root.sec("components");
                let h = comps.kids.iter_mut().find(|k| k.attr("name") == Some(&host))?;
                let c = El { name: "component".into(), attrs: vec![("name".into(), to.clone()), ("required".into(), "N".into())], kids: vec![] };
                let groups: Vec<usize> = (0..h.kids.len()).filter(|i| h.kids[*i].name == "group").collect();
                if !groups.is_empty() && r.chance(1, 2) { let g = &mut h.kids[*r.pick(&groups)]; let i = r.below(g.kids.len() + 1); g.kids.insert(i, c) } else { let i = r.below(h.kids.len() + 1); h.kids.insert(i, c) }
                (vec!["RecursiveComponent", "DuplicateField"], format!("component that contains itself{}", if host == to { "" } else { " through another" })) }
        _ => { if paths.is_empty() { return None } let p = r.pick(&paths).clone(); let (pp, last) = p.split_at(p.len() - 1);
               let par = at(&mut root, pp);
               let c = El { name: r.pick(&["wibble", "value", "message", "fields", "Field"]).to_string(), attrs: vec![("name".into(), "BeginString".into()), ("required".into(), "N".into()), ("enum".into(), "x".into())], kids: vec![] };
               let kind = format!("unknown element in {}", par.name);
               if r.chance(1, 2) { par.kids.insert(last[0], c) } else { par.kids.push(c) } (vec!["UnknownXmlTag"], kind) }
    };
    let mut s = String::new(); root.render(&mut s);
    Some((s, exp, kind))
}
pub fn c14(o: &Opts) -> Outcome {
    let mut out = run_cases(o, o.pick(16_000, 800_000), o.pick(500, 10_000), o.pick(60, 500), |c| {
        let (_, xml) = source(c);
        for k in 0..10 {
            let Some((bad, exp, kind)) = defect(&mut c.rng, &xml) else { continue };
            let wit: Value = json!({"defect": kind, "dictionary": show(&bad, 20000)});
            match guard(|| DataDictionary::from_str(&bad).map(|_| ())) {
                Err(p) => viol!(wit, "{kind}: loading panicked: {p}"),
                Ok(Ok(())) => viol!(wit, "{kind}: loaded without an error"),
                Ok(Err(e)) => { let v = format!("{e:?}"); if !exp.iter().any(|x| v.starts_with(x)) { viol!(wit, "{kind}: error {v}, expected {exp:?}") } c.stats.count(&kind, 1) }
            }
            c.stats.nontrivial(&bad);
            if k == 0 && c.rng.chance(1, 8) { // the same file loads from disk without the defect and is refused with it
                if let Err(e) = load(&xml) { viol!(json!({"dictionary": show(&xml, 20000)}), "{e}") }
            }
        }
        Ok(())
    });
    out.rule = "one defect of a known kind introduced at a random place of a valid dictionary (including inside components, groups, header and trailer); error variant compared; distinct = different defective texts".into();
    out
}
