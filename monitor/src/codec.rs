//! C01..C09: the message codec against independent oracles over bytes, tokens, abstract messages and reference maps.
use crate::absdict::{ADict, RDict, Scope};
use crate::absmsg::{self, *};
use crate::report::*;
use crate::rng::Rng;
use crate::viol;
use fix_rs::verif::{DataDictionary, FieldMap, Message, SessionId, StringField, SOH};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;
use std::sync::OnceLock;

pub struct Dict { pub dd: DataDictionary, pub r: RDict, pub xml: String }
pub fn shipped() -> &'static Dict {
    static S: OnceLock<Dict> = OnceLock::new();
    S.get_or_init(|| {
        let xml = std::fs::read_to_string(shipped_path()).expect("shipped dictionary");
        let r = ADict::read(&xml).resolve();
        let dd = DataDictionary::from_str(&xml).expect("shipped dictionary loads");
        Dict { dd, r, xml: "resources/FIX43.xml".into() }
    })
}
pub fn shipped_path() -> String { std::env::var("FIXRS_REPO").unwrap_or_else(|_| "/repo".into()) + "/resources/FIX43.xml" }
pub enum D { Shipped, Own(Box<Dict>) }
impl std::ops::Deref for D { type Target = Dict; fn deref(&self) -> &Dict { match self { D::Shipped => shipped(), D::Own(d) => d } } }
/// the shipped dictionary or a random one; None when the random one does not load (that is C12's business)
pub fn pick_dict(c: &mut Case) -> Option<D> {
    shipped();
    if c.rng.chance(1, 3) { return Some(D::Shipped) }
    let a = ADict::random(&mut c.rng);
    let xml = a.to_xml(&mut c.rng);
    match guard(|| DataDictionary::from_str(&xml)) { Ok(Ok(dd)) => Some(D::Own(Box::new(Dict { dd, r: a.resolve(), xml }))), _ => { c.stats.count("dictionaries that did not load", 1); None } }
}
pub fn parse(text: &str, dd: &DataDictionary) -> Result<Result<Message, String>, String> { guard(|| Message::from_str(text, dd).map_err(|e| e.to_string())) }
fn reason(e: &str) -> &str { e.rsplit(" - ").next().unwrap_or(e) }
fn w(text: &str, d: &Dict) -> serde_json::Value { json!({"input": show(text, 4000), "dictionary": show(&d.xml, 6000)}) }

// ---- building messages through the API --------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct Built { header: Vec<Node>, body: Vec<Node>, trailer: Vec<Node> }
fn tag_pool(rng: &mut Rng, n: usize) -> Vec<u32> {
    let mut s = BTreeSet::new();
    while s.len() < n { let t = match rng.below(4) { 0 => 1 + rng.below(100) as u32, 1 => 1 + rng.below(1000) as u32, 2 => 5000 + rng.below(5000) as u32, _ => 1 + (rng.next() >> 33) as u32 }; if ![8, 9, 10, 35, 93, 89].contains(&t) { s.insert(t); } }
    let mut v: Vec<u32> = s.into_iter().collect(); rng.shuffle(&mut v); v
}
fn free_group(rng: &mut Rng, depth: usize) -> (u32, Vec<Vec<Node>>) {
    let np = 2 + rng.below(5);
    let pool = tag_pool(rng, np);
    let many = depth == 0 && rng.chance(1, 300);
    let n = if many { if rng.chance(1, 8) { 65_536 + rng.below(500) } else { 200 + rng.below(4000) } } else { match rng.below(10) { 0 => 0, 1 => 3 + rng.below(if depth == 0 { 30 } else { 4 }), _ => 1 + rng.below(3) } };
    let inst = (0..n).map(|_| {
        let mut v = vec![Node::leaf(pool[0], value(rng))];
        for t in &pool[1..] { if rng.chance(1, if many { 4 } else { 2 }) { if depth < 3 && !many && rng.chance(1, 4) { let (_, g) = free_group(rng, depth + 1); v.push(Node { tag: *t, value: g.len().to_string(), group: Some(g) }) } else { v.push(Node::leaf(*t, value(rng))) } } }
        v
    }).collect();
    (pool[0], inst)
}
fn free_nodes(rng: &mut Rng, n: usize, groups: bool) -> Vec<Node> {
    tag_pool(rng, n).into_iter().map(|t| if groups && rng.chance(1, 5) { let (_, g) = free_group(rng, 0); Node { tag: t, value: g.len().to_string(), group: Some(g) } } else { Node::leaf(t, value(rng)) }).collect()
}
fn free_msg(rng: &mut Rng) -> Built {
    let mut header = vec![Node::leaf(8, *rng.pick(&["FIX.4.2", "FIX.4.3", "FIX.4.4", "FIXT.1.1"])), Node::leaf(35, *rng.pick(&["A", "D", "0", "AE", "8"]))];
    let (hg, bg, mut nh, mut nb, mut nt) = (rng.chance(1, 4), rng.chance(2, 3), rng.below(8), rng.below(16), rng.below(4));
    let wide = rng.chance(1, 250);
    if wide { let k = 200 + rng.below(3000); match rng.below(5) { 0 => nh = k, 1 => nt = k, _ => nb = k } }
    header.extend(free_nodes(rng, nh, hg && !wide));
    let body = free_nodes(rng, nb, bg && !wide);
    let mut trailer = free_nodes(rng, nt, false);
    if rng.chance(1, 3) { let s = value(rng); trailer.push(Node::leaf(93, s.len().to_string())); trailer.push(Node::leaf(89, s)) }
    let mut b = Built { header, body, trailer };
    if rng.chance(1, 3) { // the same tag in two sections is legal through the API
        if let Some(n) = b.header.iter().find(|n| n.tag > 100 && n.group.is_none() && !b.body.iter().any(|m| m.tag == n.tag)).cloned() { b.body.push(Node::leaf(n.tag, value(rng))) }
    }
    b
}
/// writes the nodes into a field map in random order, sometimes setting a field twice
/// adding: some instances are added to the group after it was set
fn put(rng: &mut Rng, fm: &mut FieldMap, nodes: &[Node], order: bool) { put_with(rng, fm, nodes, order, false) }
fn put_with(rng: &mut Rng, fm: &mut FieldMap, nodes: &[Node], order: bool, adding: bool) {
    let mut idx: Vec<usize> = (0..nodes.len()).collect();
    if !order { rng.shuffle(&mut idx) }
    for i in idx {
        let n = &nodes[i];
        match &n.group {
            None => { if rng.chance(1, 10) { fm.set_field(StringField::new(n.tag, &value(rng))) } fm.set_field(StringField::new(n.tag, &n.value)) }
            Some(inst) => {
                let delim = inst.first().map_or(n.tag.wrapping_add(1), |x| x[0].tag);
                let now = if adding { rng.below(inst.len() + 1) } else { inst.len() };
                let g = fm.set_group(n.tag, now as u32, delim);
                for (k, x) in inst.iter().enumerate() {
                    if k >= now { g.add_group(FieldMap::default()) }
                    put_with(rng, &mut g[k], x, order, adding)
                }
                if now < inst.len() { fm.set_field(StringField::new(n.tag, &n.value)) }
            }
        }
    }
}
fn build(rng: &mut Rng, b: &Built) -> Message { build_with(rng, b, false) }
fn build_with(rng: &mut Rng, b: &Built, adding: bool) -> Message {
    let mut m = Message::new();
    let mut parts = [0, 1, 2]; rng.shuffle(&mut parts);
    for p in parts { match p { 0 => put_with(rng, m.header_mut(), &b.header, false, adding), 1 => put_with(rng, m.body_mut(), &b.body, false, adding), _ => put_with(rng, m.trailer_mut(), &b.trailer, false, adding) } }
    m
}

pub fn free_message(rng: &mut Rng) -> Message { let b = free_msg(rng); build(rng, &b) }

// ---- C01 ---------------------------------------------------------------------------------------------------------
/// recomputes both totals from the bytes alone
pub fn check_totals(text: &str) -> Result<(usize, u32), String> {
    let b = text.as_bytes();
    let f1 = b.iter().position(|x| *x == 1).ok_or("no SOH")?;
    if !b[f1 + 1..].starts_with(b"9=") { return Err("the second field is not BodyLength".into()) }
    let f2 = f1 + 1 + b[f1 + 1..].iter().position(|x| *x == 1).ok_or("BodyLength not terminated")?;
    let len_text = std::str::from_utf8(&b[f1 + 3..f2]).map_err(|e| e.to_string())?;
    if b.last() != Some(&1) { return Err("last field not terminated".into()) }
    let last = b[..b.len() - 1].iter().rposition(|x| *x == 1).map_or(0, |p| p + 1);
    if !b[last..].starts_with(b"10=") { return Err("the last field is not CheckSum".into()) }
    let ck = &b[last + 3..b.len() - 1];
    if ck.len() != 3 || !ck.iter().all(|c| c.is_ascii_digit()) { return Err(format!("CheckSum {:?} is not three digits", String::from_utf8_lossy(ck))) }
    let want_len = last - (f2 + 1);
    if len_text != want_len.to_string() { return Err(format!("BodyLength is {len_text:?} but {want_len} bytes lie between it and CheckSum")) }
    let sum = b[..last].iter().map(|x| *x as u64).sum::<u64>() % 256;
    if std::str::from_utf8(ck).unwrap() != format!("{sum:03}") { return Err(format!("CheckSum is {} but the bytes sum to {sum:03}", String::from_utf8_lossy(ck))) }
    Ok((want_len, sum as u32))
}
pub fn c01(o: &Opts) -> Outcome {
    let mut out = run_cases(o, o.pick(120_000, 4_000_000), o.pick(4_000, 40_000), o.pick(60, 500), |c| {
        let mut msgs: Vec<(&str, Message)> = vec![];
        let b = free_msg(&mut c.rng);
        if c.rng.chance(2, 3) {
            let mut m = build(&mut c.rng, &b);
            if c.rng.chance(1, 3) { m.set_sending_time() }
            msgs.push(("built", m));
        } else if let Some(d) = pick_dict(c) {
            let a = gen_msg_retry(&mut c.rng, &d.r);
            if let Ok(Ok(m)) = parse(&a.text(), &d.dd) { msgs.push(("parsed", m)) }
        }
        if cfg!(feature = "countalloc") && c.idx % 40_000 == 777 { // sums that no 32 bit number holds
            let mut m = build(&mut c.rng, &b);
            let k = 8 + c.rng.below(4);
            for i in 0..k as u32 { m.set_field(StringField::new(20_000 + i, &"\u{3ffff}".repeat(800_000))) }
            m.set_body_len();
            m.set_checksum();
            let text = m.to_string();
            if let Err(e) = check_totals(&text) { viol!(json!({"fields of 3.2 MB": k, "message begins": show(&text, 500)}), "message of {} bytes: {e}", text.len()) }
            c.stats.count("messages of 25 MB and more", 1);
        }
        for (kind, mut m) in msgs {
            for round in 0..3 {
                m.set_body_len();
                m.set_checksum();
                let text = m.to_string();
                match check_totals(&text) {
                    Err(e) => viol!(json!({"message": show(&text, 4000), "kind": kind, "round": round}), "{kind} message, totals set {} time(s): {e}", round + 1),
                    Ok((len, ck)) => { c.stats.count("totals recomputed from bytes", 2); c.stats.count(if ck < 10 { "checksums below 10" } else if ck < 100 { "checksums 10..99" } else { "checksums 100..255" }, 1);
                        if len >= 1000 { c.stats.count("body lengths of 4+ digits", 1) } if text.len() != text.chars().count() { c.stats.count("multi-byte messages", 1) } }
                }
                c.stats.nontrivial(&text);
                c.stats.count(if kind == "built" { "built messages" } else { "parsed messages" }, 1);
                // change the message and set the totals again
                match c.rng.below(4) {
                    0 => { let v = value(&mut c.rng); m.set_field(StringField::new(58, &v)) }
                    1 => { let v = value(&mut c.rng); m.trailer_mut().set_field(StringField::new(93, &v)) }
                    2 => { let v = value(&mut c.rng); let n = c.rng.below(4) as u32; let g = m.set_group(453, n, 448); for i in 0..n as usize { g[i].set_field(StringField::new(448, &v)) } }
                    _ => { let v = value(&mut c.rng); m.header_mut().set_field(StringField::new(49, &v)) }
                }
            }
        }
        Ok(())
    });
    out.rule = "random messages (built through the API in random order or parsed, with groups, trailer fields, multi-byte text), totals set, changed and set again; both totals recomputed from the serialised bytes; distinct = different serialised texts".into();
    out
}

// ---- C02 ---------------------------------------------------------------------------------------------------------
pub fn c02(o: &Opts) -> Outcome {
    let mut out = run_cases(o, o.pick(80_000, 4_000_000), o.pick(4_000, 40_000), o.pick(60, 500), |c| {
        let (m, mut b, kind) = if c.rng.chance(2, 3) {
            let mut b = free_msg(&mut c.rng);
            // BodyLength and CheckSum written like any other field, before, between or after the others
            if c.rng.chance(1, 3) { b.trailer.push(Node::leaf(10, format!("{:03}", c.rng.below(256)))); c.stats.count("checksums written as fields", 1) }
            if c.rng.chance(1, 6) { b.header.push(Node::leaf(9, c.rng.below(5000).to_string())) }
            let adding = c.rng.chance(1, 4);
            if adding { c.stats.count("messages with instances added to their groups", 1) }
            (build_with(&mut c.rng, &b, adding), b, "built")
        } else {
            let Some(d) = pick_dict(c) else { return Ok(()) };
            let a = gen_msg_retry(&mut c.rng, &d.r);
            let Ok(Ok(m)) = parse(&a.text(), &d.dd) else { return Ok(()) };
            (m, Built { header: a.header, body: a.body, trailer: a.trailer }, "parsed")
        };
        let mut m = m;
        if c.rng.chance(1, 4) { // the count of a group written as a field of its own: the instances are still there
            for (fm, sec) in [(0, &mut b.header), (1, &mut b.body)] {
                for n in sec.iter_mut().filter(|n| n.group.is_some()) {
                    if !c.rng.chance(1, 2) { continue }
                    n.value = match c.rng.below(6) { 0 => "0".into(), 1 => "1".into(), 2 => "x".into(), 3 => n.group.as_ref().unwrap().len().to_string(), 4 => c.rng.below(100).to_string(), _ => "4294967296".into() };
                    let f = StringField::new(n.tag, &n.value);
                    if fm == 0 { m.header_mut().set_field(f) } else { m.set_field(f) }
                    c.stats.count("group counts written", 1);
                }
            }
        }
        let mut totals = false;
        if c.rng.chance(1, 2) { if c.rng.chance(1, 4) { m.set_checksum(); m.set_body_len() } else { m.set_body_len(); m.set_checksum() } totals = true }
        let text = m.to_string();
        let wit = || json!({"message": show(&text, 4000), "kind": kind});
        let Some(toks) = tokenize(&text) else { viol!(wit(), "serialised text is not a sequence of tag=value fields each ended by SOH") };
        if totals { // their values are C01's business
            for (sec, t) in [(&mut b.header, 9), (&mut b.trailer, 10)] {
                let v = toks.iter().find(|x| x.0 == t).map(|x| x.1.clone()).unwrap_or_default();
                sec.retain(|n| n.tag != t); sec.push(Node::leaf(t, v));
            }
        }
        let has9 = b.header.iter().any(|n| n.tag == 9);
        let lead: Vec<u32> = toks.iter().take(3).map(|t| t.0).collect();
        if has9 && lead != [8, 9, 35] { viol!(wit(), "first fields are {lead:?}, expected 8, 9, 35") }
        if !has9 && lead[..2] != [8, 35] { viol!(wit(), "first fields are {lead:?}, expected 8, 35") }
        let (h, bd, t) = (toks_of(&b.header), toks_of(&b.body), toks_of(&b.trailer));
        if let Some(e) = diff(&[h.clone(), bd.clone(), t.clone()].concat(), &toks) { viol!(wit(), "{e}") }
        if let Some(e) = diff(&h, &toks[..h.len()]) { viol!(wit(), "the first {} fields are not the header: {e}", h.len()) }
        if let Some(e) = diff(&bd, &toks[h.len()..h.len() + bd.len()]) { viol!(wit(), "the body is not between header and trailer: {e}") }
        if b.trailer.iter().any(|n| n.tag == 10) {
            c.stats.count("messages with a checksum", 1);
            if toks.last().unwrap().0 != 10 { viol!(wit(), "CheckSum is not the last field") }
            if t.len() > 1 { c.stats.count("checksum with other trailer fields", 1) }
        }
        c.stats.count("fields located", toks.len() as u64);
        c.stats.nontrivial(&text);
        Ok(())
    });
    out.rule = "random built and parsed messages; every field located in its section of the serialised token sequence; distinct = different serialised texts".into();
    out
}

// ---- C03 ---------------------------------------------------------------------------------------------------------
pub fn c03(o: &Opts) -> Outcome {
    let mut out = run_cases(o, o.pick(16_000, 800_000), o.pick(1000, 20_000), o.pick(60, 500), |c| {
        let Some(d) = pick_dict(c) else { return Ok(()) };
        if c.idx % 1600 == 7 { return vast(c) }
        for _ in 0..12 {
            let a = gen_msg_retry(&mut c.rng, &d.r);
            let mut text = a.text();
            if c.rng.chance(1, 20) { text.pop(); } // the last SOH is optional for the parser's callers
            let m = match parse(&text, &d.dd) {
                Err(p) => viol!(w(&text, &d), "conforming message: the parser panicked: {p}"),
                Ok(Err(e)) => viol!(w(&text, &d), "conforming message rejected: {e}"),
                Ok(Ok(m)) => m,
            };
            match guard(|| compare(&m, &a)) {
                Err(p) => viol!(w(&text, &d), "reading the parsed message panicked: {p}"),
                Ok(Err(e)) => viol!(w(&text, &d), "conforming message read back differently: {e}"),
                Ok(Ok(n)) => c.stats.count("fields read back", n),
            }
            c.stats.count("messages", 1);
            let depth = a.group_depth();
            if depth > 0 { c.stats.count(&format!("messages with group depth {depth}"), 1); c.stats.count("group instances", a.instances() as u64) }
            c.stats.nontrivial(&text);
        }
        Ok(())
    });
    out.rule = "messages generated from random dictionaries and the shipped one (groups nested to depth 4, in header and body, empty and large groups); every field and instance read back; distinct = different message texts".into();
    out
}

/// a group with very many instances
fn vast(c: &mut Case) -> CaseResult {
    let Some(a) = (0..200).find_map(|_| { let a = gen_msg_retry(&mut c.rng, &shipped().r); if a.body.iter().any(|n| n.group.as_ref().map_or(false, |g| !g.is_empty())) { Some(a) } else { None } }) else { return Ok(()) };
    let mut a = a;
    let n = [255usize, 256, 257, 9_999, 10_000, 32_768, 65_535, 65_536, 65_537, 100_001][(c.idx / 1600 % 10) as usize];
    let all: Vec<&mut Node> = a.body.iter_mut().filter(|n| n.group.as_ref().map_or(false, |g| !g.is_empty())).collect();
    let k = c.rng.below(all.len());
    let node = all.into_iter().nth(k).unwrap();
    let g = node.group.as_mut().unwrap();
    let few: Vec<Vec<Node>> = g.iter().map(|i| i.iter().filter(|x| x.group.is_none()).take(3).cloned().collect()).collect();
    *g = (0..n).map(|i| { let mut v = few[i % few.len()].clone(); v[0].value = format!("i{i}"); v }).collect();
    node.value = n.to_string();
    let text = a.text();
    let w = || json!({"input": show(&text, 2000), "instances": n, "bytes": text.len()});
    let m = match parse(&text, &shipped().dd) { Err(p) => viol!(w(), "conforming message with {n} group instances: the parser panicked: {p}"), Ok(Err(e)) => viol!(w(), "conforming message with {n} group instances rejected: {e}"), Ok(Ok(m)) => m };
    match guard(|| compare(&m, &a)) { Err(p) => viol!(w(), "reading the parsed message panicked: {p}"), Ok(Err(e)) => viol!(w(), "message with {n} group instances read back differently: {e}"), Ok(Ok(k)) => c.stats.count("fields read back", k) }
    c.stats.count("messages with hundreds to a hundred thousand group instances", 1);
    c.stats.nontrivial(&text);
    Ok(())
}

// ---- C05: single faults ------------------------------------------------------------------------------------------
fn fname(f: Fault) -> String { format!("{f:?}") }
/// (mutated raw text, allowed reasons, operator); None when the random choice does not apply
pub fn fault(rng: &mut Rng, d: &RDict, a: &AMsg) -> Option<(String, Vec<Fault>, &'static str)> {
    let toks = a.tokens();
    let n = toks.len();
    let (hn, tn) = (toks_of(&a.header).len(), toks_of(&a.trailer).len());
    let raw = |i: usize, repl: String| -> String { let mut s = String::new(); for (k, (t, v)) in toks.iter().enumerate() { if k == i { s += &repl } else { s += &format!("{t}={v}") } s.push(SOH) } s };
    let via_ref = |ts: Vec<Tok>, own: Option<Fault>, op: &'static str| -> Option<(String, Vec<Fault>, &'static str)> {
        match ref_parse(&ts, d) { Ok(_) => None, Err(mut f) => { if let Some(x) = own { if !f.contains(&x) { f.push(x) } } Some((render(&ts), f, op)) } }
    };
    match rng.below(16) {
        0 => { let i = rng.below(n); let bad = ["", "abc", "1a", "-5", "99999999999", "4 9", " 8", "8 ", "+35", "035", "0x1", "1.5", "\u{663}"]; let t = *rng.pick(&bad); Some((raw(i, format!("{t}={}", toks[i].1)), vec![Fault::InvalidTag], "bad tag")) }
        1 => { let i = rng.below(n); let s = format!("{}{}", toks[i].0, toks[i].1.replace('=', "")); Some((raw(i, s), vec![Fault::InvalidTag], "missing =")) }
        2 => { let i = rng.below(n); Some((raw(i, format!("{}=", toks[i].0)), vec![Fault::TagSpecifiedWithoutValue], "empty value")) }
        3 => { let i = rng.below(n); let s = render(&toks[..i].to_vec()) + "\u{1}" + &render(&toks[i..].to_vec()); Some((s, vec![Fault::InvalidTag], "empty field")) }
        4 => { let mut t = toks.clone(); let i = rng.below(2); let j = i + 1 + rng.below(2 - i); t.swap(i, j); via_ref(t, Some(Fault::TagSpecifiedOutOfOrder), "leading fields swapped") }
        5 => { let mut t = toks.clone(); let i = rng.below(3); t.remove(i); via_ref(t, Some(Fault::TagSpecifiedOutOfOrder), "leading field removed") }
        6 => { let mut t = toks.clone(); let i = 1 + rng.below(2); let m = rng.pick(&d.header.members); if [8, 9, 35].contains(&m.tag) { return None } t.insert(i, (m.tag, value(rng))); via_ref(t, Some(Fault::TagSpecifiedOutOfOrder), "field among the leading three") }
        7 => { if n == hn { return None } let m = rng.pick(&d.header.members); if m.group.is_some() || a.header.iter().any(|x| x.tag == m.tag) { return None }
               let mut t = toks.clone(); let i = hn + 1 + rng.below(n - hn); t.insert(i.min(n), (m.tag, value(rng)));
               via_ref(t, Some(Fault::TagSpecifiedOutOfOrder), "header field after the header") }
        8 => { if tn == 0 { return None } let mut t = toks.clone(); let tag = rng.range(60000, 69999) as u32; let i = n - tn + 1 + rng.below(tn); t.insert(i.min(n), (tag, value(rng))); via_ref(t, Some(Fault::TagSpecifiedOutOfOrder), "foreign field in the trailer") }
        9 | 10 => { let (i, cnt) = pick_count(rng, a)?; let mut t = toks.clone();
               let new = match rng.below(6) { 0 => cnt + 1, 1 => cnt.saturating_sub(1), 2 => 0, 3 => cnt + 1 + rng.below(1000), 4 => 4294967295, _ => cnt + 2 };
               if new == cnt { return None } t[i].1 = new.to_string(); via_ref(t, Some(Fault::IncorrectNumInGroupCountForRepeatingGroup), "group count changed") }
        11 => { let (i, _) = pick_count(rng, a)?; let mut t = toks.clone(); t[i].1 = rng.pick(&["x", "-1", "1.0", "two", "1 ", " 1", "0x2", "99999999999", "-0", "\u{662}"]).to_string();
               let big = t[i].1 == "99999999999"; via_ref(t, if big { Some(Fault::IncorrectNumInGroupCountForRepeatingGroup) } else { None }, "group count not a number") }
        12 => { // drop the delimiter of one instance
               let (inst, off) = pick_instance(rng, a)?; let k = inst.1; let mut t = toks.clone(); t.remove(off);
               let mut r = via_ref(t, Some(Fault::RequiredTagMissing), "delimiter removed")?;
               if k > 0 { r.1.extend([Fault::IncorrectNumInGroupCountForRepeatingGroup, Fault::RepeatingGroupsOutOfOrder, Fault::TagAppearsMoreThanOnce]) }
               Some(r) }
        13 | 14 => { // swap two members of one instance (a nested group moves with its count)
               let mut b = a.clone(); let all = instances_mut(&mut b); let mut all: Vec<&mut Vec<Node>> = all.into_iter().filter(|i| i.len() >= 3).collect();
               if all.is_empty() { return None } let k = rng.below(all.len()); let inst = &mut all[k];
               let i = 1 + rng.below(inst.len() - 2); let j = i + 1 + rng.below(inst.len() - i - 1); inst.swap(i, j);
               via_ref(b.tokens(), Some(Fault::RepeatingGroupsOutOfOrder), "group members out of order") }
        _ => { // repeat a field inside its own section or instance
               let mut b = a.clone();
               match rng.below(4) {
                   0 => { let i = 3 + rng.below(b.header.len().max(4) - 3); let n = b.header.get(i)?.clone(); let j = 3 + rng.below(b.header.len() - 2); let v = if rng.chance(1, 2) { n.value.clone() } else { value(rng) }; b.header.insert(j, if n.group.is_some() { n } else { Node::leaf(n.tag, v) }) }
                   1 => { if b.body.is_empty() { return None } let n = rng.pick(&b.body).clone(); let j = rng.below(b.body.len() + 1); let v = if rng.chance(1, 2) { n.value.clone() } else { value(rng) }; b.body.insert(j, if n.group.is_some() { n } else { Node::leaf(n.tag, v) }) }
                   2 => { if tn == 0 { return None } let n = rng.pick(&b.trailer).clone(); let j = rng.below(b.trailer.len() + 1); b.trailer.insert(j, Node::leaf(n.tag, value(rng))) }
                   _ => { let mut all: Vec<&mut Vec<Node>> = instances_mut(&mut b).into_iter().filter(|i| i.len() >= 2).collect(); if all.is_empty() { return None } let k = rng.below(all.len()); let i = 1 + rng.below(all[k].len() - 1); let n = all[k][i].clone(); all[k].insert(i + 1, if n.group.is_some() { n } else { Node::leaf(n.tag, value(rng)) }) }
               }
               via_ref(b.tokens(), Some(Fault::TagAppearsMoreThanOnce), "field repeated") }
    }
}
fn pick_count(rng: &mut Rng, a: &AMsg) -> Option<(usize, usize)> {
    fn walk(nodes: &[Node], pos: &mut usize, out: &mut Vec<(usize, usize)>) { for n in nodes { let p = *pos; *pos += 1; if let Some(g) = &n.group { out.push((p, g.len())); for i in g { walk(i, pos, out) } } } }
    let (mut p, mut v) = (0, vec![]);
    walk(&a.header, &mut p, &mut v); walk(&a.body, &mut p, &mut v);
    if v.is_empty() { None } else { Some(*rng.pick(&v)) }
}
/// ((group count offset, instance number), token offset of the delimiter)
fn pick_instance(rng: &mut Rng, a: &AMsg) -> Option<((usize, usize), usize)> {
    fn walk(nodes: &[Node], pos: &mut usize, out: &mut Vec<((usize, usize), usize)>) { for n in nodes { let p = *pos; *pos += 1; if let Some(g) = &n.group { for (k, i) in g.iter().enumerate() { out.push(((p, k), *pos)); walk(i, pos, out) } } } }
    let (mut p, mut v) = (0, vec![]);
    walk(&a.header, &mut p, &mut v); walk(&a.body, &mut p, &mut v);
    if v.is_empty() { None } else { Some(*rng.pick(&v)) }
}
fn instances_mut(a: &mut AMsg) -> Vec<&mut Vec<Node>> {
    // collects leaf-most first so that no reference overlaps: an instance containing groups is offered only when none of its groups is
    fn walk<'a>(nodes: &'a mut Vec<Node>, out: &mut Vec<&'a mut Vec<Node>>) { for n in nodes.iter_mut() { if let Some(g) = &mut n.group { for i in g.iter_mut() { if i.len() % 2 == 1 && i.iter().any(|x| x.group.is_some()) { walk(i, out) } else { out.push(i) } } } } }
    let mut v = vec![];
    walk(&mut a.header, &mut v); walk(&mut a.body, &mut v); v
}
pub fn c05(o: &Opts) -> Outcome {
    let mut out = run_cases(o, o.pick(16_000, 800_000), o.pick(1000, 20_000), o.pick(60, 500), |c| {
        let Some(d) = pick_dict(c) else { return Ok(()) };
        for _ in 0..30 {
            let mut a = gen_msg_retry(&mut c.rng, &d.r);
            if c.rng.chance(1, 5) { // the message may also end with its body
                a.trailer.clear();
                if c.rng.chance(1, 2) { if let Some(k) = (0..a.body.len()).rev().find(|k| a.body[*k].group.is_some()) { let g = a.body.remove(k); a.body.push(g) } }
                if !matches!(parse(&a.text(), &d.dd), Ok(Ok(_))) { c.stats.count("not accepted without a trailer", 1); continue }
            }
            if c.rng.chance(1, 1500) { if !widen(&mut c.rng, &mut a, &d.r) || !matches!(parse(&a.text(), &d.dd), Ok(Ok(_))) { continue } c.stats.count("faults in messages of hundreds of fields", 1) }
            let Some((text, allowed, op)) = fault(&mut c.rng, &d.r, &a) else { continue };
            let names: Vec<String> = allowed.iter().map(|f| fname(*f)).collect();
            match parse(&text, &d.dd) {
                Err(p) => viol!(w(&text, &d), "{op}: the parser panicked: {p}"),
                Ok(Ok(_)) => viol!(w(&text, &d), "{op}: accepted, expected rejection as {names:?}"),
                Ok(Err(e)) => if !names.iter().any(|x| x == reason(&e)) { viol!(w(&text, &d), "{op}: rejected as {:?}, expected {names:?}", reason(&e)) } else {
                    c.stats.count(&format!("{op} -> {}", reason(&e)), 1); c.stats.nontrivial(&text);
                },
            }
        }
        Ok(())
    });
    out.rule = "one structural fault of a known kind introduced at a random place of a conforming message; reason compared with the reason that applies; distinct = different faulty texts".into();
    out
}

// ---- C04 / C06 / C07: hostile text -------------------------------------------------------------------------------
pub fn hostile(rng: &mut Rng, d: &RDict) -> String {
    let a = gen_msg_retry(rng, d);
    let mut s = a.text();
    if rng.chance(1, 10) { return s }
    if rng.chance(1, 2) { if let Some((t, _, _)) = fault(rng, d, &a) { s = t; if rng.chance(1, 2) { return s } } }
    for _ in 0..1 + rng.below(3) {
        let cut = |rng: &mut Rng, s: &str| -> usize { let mut i = rng.below(s.len() + 1); while !s.is_char_boundary(i) { i -= 1 } i };
        let mut f: Vec<String> = s.split_terminator(SOH).map(|x| x.to_string()).collect();
        if f.is_empty() { f.push("8=X".into()) }
        let n = f.len();
        match rng.below(17) {
            16 => { // a number written in another way, so that a count is still the count
                let at: Vec<usize> = (0..n).filter(|i| f[*i].split_once('=').map_or(false, |x| !x.1.is_empty() && x.1.bytes().all(|b| b.is_ascii_digit()))).collect();
                for _ in 0..1 + rng.below(4) { if at.is_empty() { break } let i = *rng.pick(&at); let Some((t, v)) = f[i].split_once('=') else { continue }; f[i] = format!("{t}={}", match rng.below(6) { 0 | 1 => format!("+{v}"), 2 | 3 => format!("00{v}"), 4 => format!(" {v}"), _ => format!("{v}.0") }) } }
            0 => { let i = cut(rng, &s); s.truncate(i); continue }
            1 => { let i = cut(rng, &s); s = s[i..].to_string(); continue }
            2 => { let o = gen_msg_retry(rng, d).text(); let (i, j) = (cut(rng, &s), cut(rng, &o)); s = format!("{}{}", &s[..i], &o[j..]); continue }
            3 => { let i = cut(rng, &s); let g: String = (0..rng.below(8)).map(|_| *rng.pick(&['\u{1}', '=', '8', '9', '1', '0', 'A', '|', '\u{e9}', '\u{0}', ' '])).collect(); s.insert_str(i, &g); continue }
            4 => { let i = rng.below(n); let x = f[i].clone(); let j = rng.below(n + 1); f.insert(j, x) }
            5 => { let i = rng.below(n); f.remove(i); }
            6 => { let (i, j) = (rng.below(n), rng.below(n)); f.swap(i, j) }
            7 => { let i = rng.below(n); let t = f[i].split('=').next().unwrap().to_string(); f[i] = format!("{t}={}", rng.pick(&["0", "1", "2", "3", "99999999", "4294967295", "4294967296", "-1", "2147483648", "65535", "01", "007"])) }
            8 => { let i = rng.below(n); let v = f[i].split_once('=').map_or("", |x| x.1).to_string(); f[i] = format!("{}={v}", rng.pick(&["+8", "08", "0", "10", "8", "35", "9", "4294967295", "4294967296", "00035", "1e3"])) }
            9 => { let i = rng.below(n); let m: Vec<u32> = d.header.tags().into_iter().chain(d.trailer.tags()).chain(d.msgs.values().flat_map(|s| s.tags())).collect(); f.insert(i, format!("{}={}", rng.pick(&m), value(rng))) }
            10 => { let (i, j) = (rng.below(n), rng.below(n)); let (i, j) = (i.min(j), i.max(j)); let part: Vec<String> = f[i..=j].to_vec(); for (k, x) in part.into_iter().enumerate() { f.insert(j + 1 + k, x) } }
            11 => { f.truncate(rng.below(5)) }
            12 => { f[rng.below(n)] = String::new() }
            13 => { // a group tag with a count out of nowhere
                let g: Vec<u32> = d.header.members.iter().chain(d.msgs.values().flat_map(|s| s.members.iter())).filter(|m| m.group.is_some()).map(|m| m.tag).collect();
                if !g.is_empty() { let i = rng.below(n + 1); f.insert(i, format!("{}={}", rng.pick(&g), rng.pick(&["0", "1", "9", "999999999", "4000000000"]))) } }
            14 => { rng.shuffle(&mut f) }
            _ => { if n > 3 { rng.shuffle(&mut f[3..]) } }
        }
        s = f.join("\u{1}"); if rng.chance(5, 6) { s.push(SOH) }
    }
    s
}
/// hundreds or thousands of fields the dictionary says nothing about, in the body; false if the message no longer reads as meant
fn widen(rng: &mut Rng, a: &mut AMsg, d: &RDict) -> bool {
    let n = 100 + rng.below(3000);
    let mut taken: BTreeSet<u32> = toks_of(&a.body).iter().chain(&toks_of(&a.header)).map(|t| t.0).collect();
    let mut body = std::mem::take(&mut a.body);
    for _ in 0..n { let t = 100_000 + rng.below(1_000_000) as u32; if taken.insert(t) { let v = if rng.chance(1, 10) { value(rng) } else { rng.below(100_000).to_string() }; body.push(Node::leaf(t, v)) } }
    rng.shuffle(&mut body);
    a.body = body;
    matches!(ref_parse(&a.tokens(), d), Ok(r) if r == *a)
}
fn raw_pairs(s: &str) -> Vec<(String, String)> { s.split_terminator(SOH).map(|f| f.split_once('=').map_or((f.to_string(), String::new()), |(a, b)| (a.to_string(), b.to_string()))).collect() }
pub fn c04(o: &Opts) -> Outcome {
    let mut out = run_cases(o, o.pick(16_000, 800_000), o.pick(1000, 20_000), o.pick(60, 500), |c| {
        let Some(d) = pick_dict(c) else { return Ok(()) };
        for _ in 0..30 {
            let text = if c.rng.chance(1, 1500) { let mut a = gen_msg_retry(&mut c.rng, &d.r); if !widen(&mut c.rng, &mut a, &d.r) { continue } a.text() } else { hostile(&mut c.rng, &d.r) };
            c.stats.count("inputs", 1);
            let Ok(Ok(m)) = parse(&text, &d.dd) else { continue };
            if text.len() > 20_000 { c.stats.count("accepted inputs of more than 20 kB", 1) }
            c.stats.count("accepted inputs", 1);
            let mut want: BTreeMap<(String, String), i64> = BTreeMap::new();
            for p in raw_pairs(&text) { *want.entry(p).or_insert(0) += 1 }
            for (t, v) in msg_toks(&m) { *want.entry((t.to_string(), v)).or_insert(0) -= 1 }
            if let Some(((t, v), n)) = want.iter().find(|(_, n)| **n != 0) {
                viol!(w(&text, &d), "accepted, but the message holds field {t}={} {} than the input", show(v, 200), if *n > 0 { "fewer times" } else { "more often" })
            }
            c.stats.count("fields conserved", want.len() as u64);
            if c.stats.nontrivial(&text) { if ref_parse(&msg_toks(&m), &d.r).is_ok() { c.stats.count("accepted inputs that conform", 1) } }
        }
        Ok(())
    });
    out.rule = "mutated, spliced, truncated and reordered messages; for each accepted one the multiset of fields held is compared with the input's; distinct = different accepted texts".into();
    out
}
pub fn c06(o: &Opts) -> Outcome {
    let mut out = run_cases(o, o.pick(12_000, 600_000), o.pick(500, 10_000), o.pick(60, 500), |c| {
        let Some(d) = pick_dict(c) else { return Ok(()) };
        for k in 0..30 {
            let text = match k {
                0 => { let n = c.rng.below(200); (0..n).map(|_| char::from_u32(c.rng.below(0x110000) as u32).unwrap_or('\u{1}')).collect() }
                1 => { let n = c.rng.below(400); (0..n).map(|_| *c.rng.pick(&['\u{1}', '=', '8', '9', '1', '0', '3', '5', 'A', '4'])).collect() }
                2 => c.rng.pick(&["", "\u{1}", "=", "8=", "8", "8=FIX.4.3", "8=FIX.4.3\u{1}", "8=FIX.4.3\u{1}9=1", "8=a\u{1}9=1\u{1}", "8=a\u{1}9=1\u{1}35=A", "\u{1}49=", "8=A\u{1}49", "49=\u{1}56=", "\u{1}\u{1}\u{1}", "8=a\u{1}9=1\u{1}35=D\u{1}10=0"]).to_string(),
                3 => { let mut t = gen_msg_retry(&mut c.rng, &d.r).text(); let mut i = c.rng.below(t.len()); while !t.is_char_boundary(i) { i -= 1 } t.truncate(i); t }
                4 if c.idx % 10 == 0 => { // large inputs
                    let u = gen_msg_retry(&mut c.rng, &d.r).text(); let mut t = u.clone(); while t.len() < 200_000 { t += &u } t }
                _ => hostile(&mut c.rng, &d.r),
            };
            let bound = (1u64 << 20) + 4000 * text.len() as u64;
            let (r, peak) = crate::alloc::measure(|| parse(&text, &d.dd).map(|r| r.is_ok()));
            match r { Err(p) => viol!(w(&text, &d), "parsing panicked: {p}"), Ok(true) => c.stats.count("accepted", 1), Ok(false) => c.stats.count("rejected", 1) }
            if peak > bound { viol!(w(&text, &d), "parsing {} bytes of input allocated {} bytes at once (bound {})", text.len(), peak, bound) }
            for (name, f) in [("get_session_id", Message::get_session_id as fn(&str) -> SessionId), ("get_reverse_session_id", Message::get_reverse_session_id as fn(&str) -> SessionId)] {
                let (r, peak) = crate::alloc::measure(|| guard(|| f(&text).to_string().len()));
                if let Err(p) = r { viol!(w(&text, &d), "{name} panicked: {p}") }
                if peak > bound { viol!(w(&text, &d), "{name} allocated {peak} bytes for {} bytes of input", text.len()) }
            }
            if peak > 0 { c.stats.count("allocation peaks observed", 1); c.stats.count("bytes of input", text.len() as u64); c.stats.count("peak bytes (sum)", peak) }
            c.stats.nontrivial(&text);
        }
        Ok(())
    });
    out.rule = "arbitrary and hostile text through the parser and both identity extractors under a panic monitor and a counting allocator (bound 1 MiB + 4000 bytes per input byte); distinct = different inputs".into();
    out
}
fn canon(nodes: &[Node]) -> Vec<Node> {
    let mut v: Vec<Node> = nodes.iter().map(|n| Node { tag: n.tag, value: n.value.clone(), group: n.group.as_ref().map(|g| g.iter().map(|i| canon(i)).collect()) }).collect();
    v.sort_by_key(|n| n.tag); v
}
pub fn c07(o: &Opts) -> Outcome {
    let mut out = run_cases(o, o.pick(16_000, 800_000), o.pick(1000, 20_000), o.pick(60, 500), |c| {
        let Some(d) = pick_dict(c) else { return Ok(()) };
        for k in 0..16 {
            let text = if k % 2 == 0 { let mut a = gen_msg_retry(&mut c.rng, &d.r); if c.rng.chance(1, 500) && !widen(&mut c.rng, &mut a, &d.r) { continue } a.text() } else { hostile(&mut c.rng, &d.r) };
            let Ok(Ok(m)) = parse(&text, &d.dd) else { continue };
            let Some(t0) = tokenize_lenient(&text) else { continue };
            let Ok(want) = ref_parse(&t0, &d.r) else { c.stats.count("accepted though faulty (C05)", 1); continue };
            let ser = m.to_string();
            let wit = json!({"input": show(&text, 3000), "serialised": show(&ser, 3000), "dictionary": show(&d.xml, 6000)});
            let m2 = match parse(&ser, &d.dd) {
                Ok(Ok(x)) => x,
                Ok(Err(e)) => viol!(wit, "the serialised form of an accepted message is rejected: {e}"),
                Err(p) => viol!(wit, "parsing the serialised form panicked: {p}"),
            };
            if let Err(e) = compare(&m2, &want) { viol!(wit, "parsing the serialised form gives a different message: {e}") }
            let Some(t1) = tokenize(&ser) else { viol!(wit, "serialised form is not a token sequence") };
            match ref_parse(&t1, &d.r) {
                Err(f) => viol!(wit, "serialised form has faults {f:?}"),
                Ok(got) => for (n, a, b) in [("header", &want.header, &got.header), ("body", &want.body, &got.body), ("trailer", &want.trailer, &got.trailer)] {
                    if canon(a) != canon(b) { viol!(wit, "{n} of the serialised form differs from the input's") }
                },
            }
            let again = m2.to_string();
            if parse(&again, &d.dd).map_or(true, |r| r.map_or(true, |m3| compare(&m3, &want).is_err())) { viol!(wit, "serialising a second time gives a different message") }
            c.stats.count("round trips", 1);
            if want.group_depth() > 0 { c.stats.count("round trips with groups", 1); c.stats.count("group instances", want.instances() as u64) }
            c.stats.nontrivial(&text);
        }
        Ok(())
    });
    out.rule = "accepted inputs (generated and hostile) serialised, re-parsed twice and compared node by node with an independent reading of the input; distinct = different inputs".into();
    out
}
fn tokenize_lenient(s: &str) -> Option<Vec<Tok>> { if s.ends_with(SOH) { tokenize(s) } else { tokenize(&format!("{s}\u{1}")) } }

// ---- C08 ---------------------------------------------------------------------------------------------------------
/// expects `nodes` (unordered, groups contiguous behind their count, delimiter first) at the front of toks
fn match_nodes(nodes: &[Node], toks: &[Tok], first: Option<u32>) -> Result<usize, String> {
    let mut left: Vec<&Node> = nodes.iter().collect();
    let mut pos = 0;
    if let (Some(f), Some(t)) = (first, toks.first()) { if t.0 != f { return Err(format!("a group instance starts with {} instead of its delimiter {f}", t.0)) } }
    while !left.is_empty() {
        let Some(t) = toks.get(pos) else { return Err(format!("fields missing: {:?}", left.iter().map(|n| n.tag).collect::<Vec<_>>())) };
        let Some(i) = left.iter().position(|n| n.tag == t.0) else { return Err(format!("field {}={:?} where one of {:?} is expected", t.0, show(&t.1, 60), left.iter().map(|n| n.tag).collect::<Vec<_>>())) };
        let n = left.remove(i);
        if n.value != t.1 { return Err(format!("field {} is {:?}, expected {:?}", t.0, show(&t.1, 60), show(&n.value, 60))) }
        pos += 1;
        if let Some(g) = &n.group { for (k, inst) in g.iter().enumerate() { pos += match_nodes(inst, &toks[pos..], Some(inst[0].tag)).map_err(|e| format!("group {} instance {k}: {e}", n.tag))? } }
    }
    Ok(pos)
}
fn dict_put(rng: &mut Rng, fm: &mut FieldMap, nodes: &[Node], scope: &Scope) {
    let mut idx: Vec<usize> = (0..nodes.len()).collect(); rng.shuffle(&mut idx);
    for i in idx {
        let n = &nodes[i];
        match &n.group {
            None => fm.set_field(StringField::new(n.tag, &n.value)),
            Some(inst) => {
                let s = scope.get(n.tag).unwrap().group.as_ref().unwrap();
                if rng.chance(1, 6) { let k = rng.below(5) as u32; let g = fm.set_group(n.tag, k, s.delim()); for j in 0..k as usize { g[j].set_field(StringField::new(s.delim(), "OLD")) } }
                let g = fm.set_group(n.tag, inst.len() as u32, s.delim());
                for (k, x) in inst.iter().enumerate() { if rng.chance(1, 2) { g[k].set_field_order(&s.order()); dict_put(rng, &mut g[k], x, s) } else { dict_put(rng, &mut g[k], x, s); g[k].set_field_order(&s.order()) } }
            }
        }
    }
}
fn norm_counts(nodes: &mut [Node]) { for n in nodes { if let Some(g) = &mut n.group { n.value = g.len().to_string(); for i in g { norm_counts(i) } } } }
fn inner_tags(nodes: &[Node], top: bool, scope: Option<&Scope>, out: &mut BTreeSet<u32>) {
    for n in nodes { if !top { out.insert(n.tag); } if let Some(g) = &n.group { let s = scope.and_then(|s| s.get(n.tag)).and_then(|m| m.group.as_ref()); if let Some(s) = s { all_tags(s, out) } for i in g { inner_tags(i, false, s, out) } } }
}
fn all_tags(s: &Scope, out: &mut BTreeSet<u32>) { for m in &s.members { out.insert(m.tag); if let Some(g) = &m.group { all_tags(g, out) } } }
pub fn c08(o: &Opts) -> Outcome {
    let mut out = run_cases(o, o.pick(100_000, 3_000_000), o.pick(2000, 40_000), o.pick(60, 500), |c| {
        if c.rng.chance(1, 2) {
            // free-form groups: framing of count, instances and delimiter
            let mut b = free_msg(&mut c.rng);
            if !b.body.iter().any(|n| n.group.is_some()) { let (_, g) = free_group(&mut c.rng, 0); let t = 70001; b.body.push(Node { tag: t, value: g.len().to_string(), group: Some(g) }) }
            let mut m = build(&mut c.rng, &b);
            if c.rng.chance(1, 2) { // replace some groups by new content
                let gs: Vec<usize> = (0..b.body.len()).filter(|i| b.body[*i].group.is_some()).collect();
                for i in gs { if c.rng.chance(1, 2) {
                    let (_, g) = free_group(&mut c.rng, 0);
                    b.body[i].value = g.len().to_string(); b.body[i].group = Some(g);
                    let n = b.body[i].clone(); put(&mut c.rng, m.body_mut(), &[n], false);
                    c.stats.count("groups set again", 1);
                } }
            }
            let text = m.body().to_string();
            let wit = json!({"body": show(&text, 4000)});
            let Some(toks) = tokenize(&text) else { viol!(wit, "body is not a token sequence") };
            match match_nodes(&b.body, &toks, None) { Err(e) => viol!(wit, "{e}"), Ok(p) if p != toks.len() => viol!(wit, "{} extra fields after the expected ones", toks.len() - p), Ok(_) => {} }
            for n in &b.body { if let Some(g) = &n.group { match m.get_group(n.tag) { Some(x) if x.size() as usize == g.len() => {}, x => viol!(wit, "group {} has size {:?}, expected {}", n.tag, x.map(|x| x.size()), g.len()) } } }
            c.stats.count("free-form messages", 1);
            c.stats.nontrivial(&text);
        } else {
            let Some(d) = pick_dict(c) else { return Ok(()) };
            let mut a = gen_msg_retry(&mut c.rng, &d.r);
            if a.group_depth() == 0 { return Ok(()) }
            norm_counts(&mut a.header); norm_counts(&mut a.body);
            let scope = &d.r.msgs[a.msg_type()];
            let mut m = Message::new();
            dict_put(&mut c.rng, m.header_mut(), &a.header, &d.r.header);
            dict_put(&mut c.rng, m.body_mut(), &a.body, scope);
            dict_put(&mut c.rng, m.trailer_mut(), &a.trailer, &d.r.trailer);
            let text = m.to_string();
            // a tag that is both a top-level field and a member of a group present reads differently by position
            let mut inner = BTreeSet::new();
            inner_tags(&a.header, true, Some(&d.r.header), &mut inner); inner_tags(&a.body, true, Some(scope), &mut inner);
            if a.header.iter().chain(&a.body).any(|n| inner.contains(&n.tag)) { c.stats.count("positionally ambiguous, framing only", 1) }
            else {
                let wit = w(&text, &d);
                match parse(&text, &d.dd) {
                    Ok(Ok(x)) => if let Err(e) = compare(&x, &a) { viol!(wit, "built message parses back differently: {e}") },
                    Ok(Err(e)) => viol!(wit, "built message is rejected: {e}"),
                    Err(p) => viol!(wit, "parsing the built message panicked: {p}"),
                }
                c.stats.count("dictionary messages parsed back", 1);
                c.stats.count(&format!("group depth {}", a.group_depth()), 1);
                c.stats.nontrivial(&text);
            }
        }
        Ok(())
    });
    out.rule = "messages with groups built through the API in random order (nested, many instances, set again); serialised instances located behind their count, and parsed back where a dictionary order was given; distinct = different serialised texts".into();
    out
}

// ---- C09 ---------------------------------------------------------------------------------------------------------
#[derive(Clone, Default, Debug)]
struct Model { fields: BTreeMap<u32, String>, groups: BTreeMap<u32, Vec<Model>> }
fn check_field(fm: &FieldMap, md: &Model, t: u32) -> Result<(), String> {
    let want = md.fields.get(&t);
    let got = fm.get_field::<String>(t);
    if got.as_ref().ok() != want { return Err(format!("field {t} reads {got:?}, last set {want:?}")) }
    macro_rules! ty { ($($t:ty),*) => { $( { let g = fm.get_field::<$t>(t).ok().map(|x| x.to_string()); let e = want.and_then(|v| v.parse::<$t>().ok()).map(|x| x.to_string()); if g != e { return Err(format!("field {t} = {want:?} as {} reads {g:?}, expected {e:?}", stringify!($t))) } } )* } }
    ty!(u32, i64, u8, f64, char, bool);
    Ok(())
}
fn check_all(fm: &FieldMap, md: &Model, tags: &[u32], n: &mut u64) -> Result<(), String> {
    for t in tags { check_field(fm, md, *t)?; *n += 1;
        match (fm.get_group(*t), md.groups.get(t)) {
            (None, None) => {}
            (Some(g), Some(mg)) => { if g.size() as usize != mg.len() { return Err(format!("group {t} has {} instances, expected {}", g.size(), mg.len())) } for (i, x) in mg.iter().enumerate() { check_all(&g[i], x, tags, n).map_err(|e| format!("group {t} instance {i}: {e}"))? } }
            (a, b) => return Err(format!("group {t} present: {}, expected {}", a.is_some(), b.is_some())),
        }
    }
    Ok(())
}
/// very many fields in one section or instance, or very many instances
fn crowd(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let most = if r.chance(1, 10) { 20_000 } else { 2500 };
    let n = 100 + r.below(most);
    let tags = tag_pool(r, n);
    let mut m = Message::new();
    let mut want: BTreeMap<u32, String> = BTreeMap::new();
    let sec = r.below(4);
    m.set_group(70_000, 3, 1); // used when the fields are those of an instance
    if sec == 3 { m = Message::new() }
    let inst = r.below(3);
    let mut other = Message::new();
    macro_rules! at { ($m:expr) => { match sec { 0 => $m.header_mut(), 1 => $m.body_mut(), _ => $m.trailer_mut() } } }
    if sec == 3 {
        let g = m.set_group(70_000, 3, 1);
        for t in &tags { let v = typed(r); g[inst].set_field(StringField::new(*t, &v)); want.insert(*t, v); if r.chance(1, 3) { let t = *r.pick(&tags); let v = typed(r); g[inst].set_field(StringField::new(t, &v)); want.insert(t, v); } }
        for _ in 0..200 { let i = r.below(3); if i != inst { let t = *r.pick(&tags); g[i].set_field(StringField::new(t, "other")) } }
    } else {
        for (k, t) in tags.iter().enumerate() {
            let v = typed(r); at!(m).set_field(StringField::new(*t, &v)); want.insert(*t, v);
            if r.chance(1, 3) { let t = *r.pick(&tags[..=k]); let v = typed(r); at!(m).set_field(StringField::new(t, &v)); want.insert(t, v); }
            if r.chance(1, 40) { let t = tags[r.below(k + 1)]; let got = at!(m).get_field::<String>(t).ok(); if got.as_ref() != want.get(&t) { viol!(json!({"fields": n, "set so far": k + 1}), "field {t} reads {got:?} with {} fields set, last set {:?}", k + 1, want.get(&t)) } }
            if k == n / 2 { other = m.clone(); other.set_field(StringField::new(tags[0], "elsewhere")); other.header_mut().set_field(StringField::new(tags[0], "elsewhere")); other.trailer_mut().set_field(StringField::new(tags[0], "elsewhere")) }
        }
    }
    let copy = m.clone();
    for m in [&m, &copy] {
        let fm: &FieldMap = match sec { 0 => m.header(), 1 => m.body(), 2 => m.trailer(), _ => &m.get_group(70_000).unwrap()[inst] };
        for t in &tags { let got = fm.get_field::<String>(*t).ok(); if got.as_ref() != want.get(t) { viol!(json!({"fields": n, "section": sec}), "field {t} of {n} reads {got:?}, last set {:?}", want.get(t)) } }
        for t in tag_pool(&mut c.rng, 50) { if !want.contains_key(&t) && !(sec == 1 && t == 70_000) { if let Ok(v) = fm.get_field::<String>(t) { viol!(json!({"fields": n}), "field {t} was never set and reads {v:?}") } } }
        let held = fm.iter().into_iter().count();
        let extra = if sec == 1 { 1 } else { 0 }; // the empty group's count
        if held != want.len() + extra { viol!(json!({"fields": n, "section": sec}), "{held} fields are held, {} were set", want.len() + extra) }
    }
    c.stats.count("reads compared", 2 * n as u64);
    c.stats.count("histories with hundreds to thousands of fields in one place", 1);
    c.stats.nontrivial(&format!("{n} {sec} {:?}", tags.first()));
    Ok(())
}
pub fn c09(o: &Opts) -> Outcome {
    let mut out = run_cases(o, o.pick(300_000, 8_000_000), o.pick(2000, 40_000), o.pick(60, 500), |c| {
        if c.rng.chance(1, 150) { return crowd(c) }
        let nt = 3 + c.rng.below(5);
        let mut tags = tag_pool(&mut c.rng, nt); tags.extend([8, 10, 35]);
        let mut msgs: Vec<(Message, [Model; 3])> = vec![(Message::new(), Default::default())];
        let mut log: Vec<String> = vec![];
        let mut checks = 0;
        for _ in 0..10 + c.rng.below(50) {
            let k = c.rng.below(msgs.len());
            let sec = c.rng.below(3);
            let t = *c.rng.pick(&tags);
            if c.rng.chance(1, 25) && msgs.len() < 4 { log.push(format!("clone {k}")); let x = (msgs[k].0.clone(), msgs[k].1.clone()); msgs.push(x); continue }
            let (m, md) = &mut msgs[k];
            let top = c.rng.chance(1, 2);
            let use_msg_api = sec == 1 && c.rng.chance(1, 2);
            // walk to a random instance
            let (fm, mm): (&mut FieldMap, &mut Model) = match sec { 0 => (m.header_mut(), &mut md[0]), 1 => (m.body_mut(), &mut md[1]), _ => (m.trailer_mut(), &mut md[2]) };
            let mut path = format!("msg {k} {}", ["header", "body", "trailer"][sec]);
            let mut at_top = true;
            if !top { for _ in 0..3 {
                let gs: Vec<(u32, usize)> = mm.groups.iter().filter(|g| !g.1.is_empty()).map(|g| (*g.0, g.1.len())).collect();
                if gs.is_empty() || c.rng.chance(1, 3) { break }
                let (g, n) = *c.rng.pick(&gs); let i = c.rng.below(n);
                path += &format!("/{g}[{i}]"); at_top = false;
                // mutable access to an instance goes through set_group only; replace it and rebuild would change state,
                // so instances are reached right after set_group below; here only reads are checked
                let (Some(grp), Some(mg)) = (fm.get_group(g), mm.groups.get(&g)) else { viol!(json!({"history": log}), "{path}: group disappeared") };
                if grp.size() as usize != n { viol!(json!({"history": log}), "{path}: group {g} has {} instances, expected {n}", grp.size()) }
                if let Err(e) = check_field(&grp[i], &mg[i], t) { viol!(json!({"history": log}), "{path}: {e}") }
                checks += 1;
                break;
            } }
            if !at_top { continue }
            match c.rng.below(6) {
                0 | 1 | 2 => {
                    if mm.groups.contains_key(&t) { continue } // the count of a group is set by set_group
                    // at times a value close to the one the field has
                    let v = match mm.fields.get(&t) { Some(v) if c.rng.chance(1, 3) => near(&mut c.rng, v), _ => typed(&mut c.rng) };
                    log.push(format!("{path} set {t}={v:?}"));
                    mm.fields.insert(t, v.clone());
                    if use_msg_api { m.set_field(StringField::new(t, &v)) } else { fm.set_field(StringField::new(t, &v)) }
                }
                3 => {
                    let n = c.rng.below(4); log.push(format!("{path} group {t} x{n}"));
                    let mut inst = vec![Model::default(); n];
                    let g = if use_msg_api { m.set_group(t, n as u32, 1) } else { fm.set_group(t, n as u32, 1) };
                    if g.size() as usize != n { viol!(json!({"history": log}), "set_group({t}, {n}) gives a group of {} instances", g.size()) }
                    for _ in 0..c.rng.below(2 * n + 1) {
                        let i = c.rng.below(n); let t2 = *c.rng.pick(&tags);
                        if c.rng.chance(1, 5) {
                            let n2 = c.rng.below(3); let sg = g[i].set_group(t2, n2 as u32, 1); let mut si = vec![Model::default(); n2];
                            for j in 0..n2 { let v = typed(&mut c.rng); sg[j].set_field(StringField::new(1, &v)); si[j].fields.insert(1, v); }
                            inst[i].fields.insert(t2, n2.to_string()); inst[i].groups.insert(t2, si);
                            log.push(format!("  [{i}] group {t2} x{n2}"));
                        } else if !inst[i].groups.contains_key(&t2) { let v = typed(&mut c.rng); log.push(format!("  [{i}] set {t2}={v}")); g[i].set_field(StringField::new(t2, &v)); inst[i].fields.insert(t2, v); }
                    }
                    mm.fields.insert(t, n.to_string()); mm.groups.insert(t, inst);
                }
                _ => { if let Err(e) = check_field(fm, mm, t) { viol!(json!({"history": log}), "{path}: {e}") } checks += 1;
                       if use_msg_api { let want = md[1].fields.get(&t); let got = m.get_field::<String>(t); if got.as_ref().ok() != want { viol!(json!({"history": log}), "{path}: Message::get_field({t}) reads {got:?}, last set {want:?}") } } }
            }
        }
        let mut all = tags.clone(); all.push(1); all.sort(); all.dedup();
        for (k, (m, md)) in msgs.iter().enumerate() {
            for (n, fm, mm) in [("header", m.header(), &md[0]), ("body", m.body(), &md[1]), ("trailer", m.trailer(), &md[2])] {
                if let Err(e) = check_all(fm, mm, &all, &mut checks) { viol!(json!({"history": log}), "at the end, msg {k} {n}: {e}") }
            }
        }
        c.stats.count("reads compared", checks); c.stats.count("operations", log.len() as u64);
        if msgs.len() > 1 { c.stats.count("histories with clones", 1) }
        c.stats.nontrivial(&log.join(";"));
        Ok(())
    });
    out.rule = "random histories of set/get/group/clone over header, body, trailer and group instances against a reference map; distinct = different histories".into();
    out
}
/// a text that some careless comparison takes for `v`
fn near(rng: &mut Rng, v: &str) -> String {
    let mut cs: Vec<char> = v.chars().collect();
    match rng.below(9) {
        0 => format!("{v} "), 1 => format!(" {v}"), 2 => format!("0{v}"), 3 => format!("{v}0"),
        4 => if v.to_uppercase() == v { v.to_lowercase() } else { v.to_uppercase() },
        5 => { cs.reverse(); cs.into_iter().collect() }
        6 => v.trim().to_string(),
        7 => { if let Some(k) = cs.last_mut() { *k = *rng.pick(&[' ', '\t', '0', 'x', '\u{a0}']) } cs.into_iter().collect() } // another last character
        _ => { if !cs.is_empty() { let i = rng.below(cs.len()); cs[i] = *rng.pick(&[' ', '1', 'y']) } cs.into_iter().collect() }
    }
}
fn typed(rng: &mut Rng) -> String { match rng.below(8) { 0 => rng.below(300).to_string(), 1 => "true".into(), 2 => "false".into(), 3 => "x".into(), 4 => rng.range(-5_000_000_000, 5_000_000_000).to_string(), 5 => format!("{}.5", rng.below(100)), 6 => "".into(), _ => absmsg::value(rng) } }
