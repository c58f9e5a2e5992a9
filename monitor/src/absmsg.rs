//! Abstract messages, their generation from a resolved dictionary, an independent reference parser that says what
//! a token sequence means (or which faults it has), and comparison with what the real parser produced.
use crate::absdict::{RDict, Scope};
use crate::rng::Rng;
use fix_rs::verif::{FieldMap, Message};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Node { pub tag: u32, pub value: String, pub group: Option<Vec<Vec<Node>>> }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct AMsg { pub header: Vec<Node>, pub body: Vec<Node>, pub trailer: Vec<Node> }
pub type Tok = (u32, String);

impl Node { pub fn leaf(tag: u32, v: impl Into<String>) -> Node { Node { tag, value: v.into(), group: None } } }
pub fn flatten(nodes: &[Node], out: &mut Vec<Tok>) {
    for n in nodes { out.push((n.tag, n.value.clone())); if let Some(g) = &n.group { for i in g { flatten(i, out) } } }
}
pub fn toks_of(nodes: &[Node]) -> Vec<Tok> { let mut v = vec![]; flatten(nodes, &mut v); v }
pub fn render(toks: &[Tok]) -> String { let mut s = String::new(); for (t, v) in toks { s += &format!("{t}={v}\u{1}") } s }
impl AMsg {
    pub fn tokens(&self) -> Vec<Tok> { let mut v = toks_of(&self.header); v.extend(toks_of(&self.body)); v.extend(toks_of(&self.trailer)); v }
    pub fn text(&self) -> String { render(&self.tokens()) }
    pub fn msg_type(&self) -> &str { self.header.iter().find(|n| n.tag == 35).map_or("", |n| &n.value) }
    pub fn group_depth(&self) -> usize { fn d(n: &[Node]) -> usize { n.iter().filter_map(|x| x.group.as_ref()).map(|g| 1 + g.iter().map(|i| d(i)).max().unwrap_or(0)).max().unwrap_or(0) } d(&self.header).max(d(&self.body)) }
    pub fn instances(&self) -> usize { fn c(n: &[Node]) -> usize { n.iter().filter_map(|x| x.group.as_ref()).map(|g| g.len() + g.iter().map(|i| c(i)).sum::<usize>()).sum() } c(&self.header) + c(&self.body) }
}

pub fn value(rng: &mut Rng) -> String {
    const ALPHA: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 .,:;-+_/!?#%&*()[]{}<>~@^$'\"\\";
    match rng.below(16) {
        0 => rng.range(-1000000, 1000000).to_string(),
        1 => format!("{}.{}", rng.below(10000), rng.below(100)),
        2 => format!("{}={}", rng.below(100), rng.below(100)),
        3 => "=".into(),
        4 => { let k = *rng.pick(&["10=123", "8=FIX.4.3", "49=SPOOF", "35=A", "10=", "56=X", "==", "9=5", "10=000|"]); match rng.below(4) { 0 | 1 => k.into(), 2 => format!("{}{k}", rng.pick(&[" ", "see ", "x,", "|", "1", "=", "a b  ", "^A", "\\x01", "\n", "\r\n", "\t", ";", "\u{2}", "\u{0}"])), _ => format!("{}{k}{}", rng.pick(&[" ", "|", "7", ""]), rng.pick(&[" ", "|", " 10=001", "9"])) } }
        5 => rng.pick(&["\u{e9}\u{df}\u{4e2d}\u{6587}", "\u{1F600}x", "\u{7f}", "\u{80}", "na\u{ef}ve", "\u{2028}", "\t", "a\nb", " lead", "trail ", "\u{0}", "\u{10FFFF}"]).to_string(),
        6 => "Y".into(),
        7 => "20221006-08:43:36.522".into(),
        8 => { let n = 1 + rng.below(300); (0..n).map(|_| *rng.pick(ALPHA) as char).collect() }
        9 => "0".repeat(1 + rng.below(4)) + &rng.below(10).to_string(),
        _ => { let n = 1 + rng.below(12); (0..n).map(|_| *rng.pick(ALPHA) as char).collect() }
    }
}
/// group sizes: mostly small, sometimes larger
fn gsize(rng: &mut Rng, depth: usize) -> usize { if depth == 0 && rng.chance(1, 2500) { return 256 + rng.below(1000) } match rng.below(20) { 0 => 0, 1 if depth == 0 => 5 + rng.below(40), 2 | 3 => 3 + rng.below(3), _ => 1 + rng.below(2) } }
fn count_text(rng: &mut Rng, n: usize) -> String { match rng.below(50) { 0 => format!("0{n}"), 1 => format!("000{n}"), _ => n.to_string() } }

thread_local! { /// fields that may still be generated for the current message before its groups become minimal
    static BUDGET: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }
pub fn gen_group(rng: &mut Rng, scope: &Scope, depth: usize) -> Vec<Vec<Node>> {
    let n = gsize(rng, depth);
    let poor = BUDGET.with(|b| { b.set(b.get().saturating_sub(1 + n)); b.get() == 0 });
    let n = if poor { n.min(1) } else { n };
    let dens = 1 + rng.below(4) as u32;
    (0..n).map(|_| scope.members.iter().enumerate().filter_map(|(i, m)| {
        if i == 0 || !poor && (if n >= 256 { m.group.is_none() && rng.chance(1, 8) } else { rng.chance(dens, 4) }) { Some(gen_node(rng, m.tag, m.group.as_ref(), depth + 1)) } else { None }
    }).collect()).collect()
}
pub fn gen_node(rng: &mut Rng, tag: u32, g: Option<&Scope>, depth: usize) -> Node {
    match g {
        None => Node::leaf(tag, value(rng)),
        Some(s) => { let inst = gen_group(rng, s, depth); Node { tag, value: count_text(rng, inst.len()), group: Some(inst) } }
    }
}
/// a message conforming to the dictionary; None if the random choice came out ambiguous (a field after a group that
/// also belongs to that group), which FIX dictionaries resolve by position and a sender must therefore avoid
pub fn gen_msg(rng: &mut Rng, d: &RDict) -> Option<AMsg> { gen_msg_sized(rng, d, 3000, false) }
fn gen_msg_sized(rng: &mut Rng, d: &RDict, budget: usize, plain: bool) -> Option<AMsg> {
    BUDGET.with(|b| b.set(budget));
    let (ty, body_scope) = { let k: Vec<&String> = d.msgs.keys().collect(); let t = *rng.pick(&k); (t.clone(), &d.msgs[t]) };
    let mut m = AMsg::default();
    m.header = vec![Node::leaf(8, *rng.pick(&["FIX.4.2", "FIX.4.3", "FIX.4.4"])), Node::leaf(9, rng.below(5000).to_string()), Node::leaf(35, ty)];
    let dens = rng.below(5) as u32;
    let mut rest = vec![];
    for mem in &d.header.members {
        if [8, 9, 35].contains(&mem.tag) { continue }
        let must = [49, 56].contains(&mem.tag);
        if must || !plain && rng.chance(dens, 5) { rest.push(gen_node(rng, mem.tag, mem.group.as_ref(), 0)) }
    }
    if rng.chance(2, 3) { rng.shuffle(&mut rest) }
    m.header.extend(rest);
    let dens = 1 + rng.below(5) as u32;
    for mem in &body_scope.members {
        let p = if plain && mem.group.is_some() { 0 } else if mem.group.is_some() { dens.max(3) } else { dens };
        if rng.chance(p, 5) { m.body.push(gen_node(rng, mem.tag, mem.group.as_ref(), 0)) }
    }
    if rng.chance(2, 3) { rng.shuffle(&mut m.body) }
    for mem in &d.trailer.members { if mem.tag != 10 && rng.chance(1, 2) { m.trailer.push(Node::leaf(mem.tag, value(rng))) } }
    if rng.chance(1, 2) { rng.shuffle(&mut m.trailer) }
    m.trailer.push(Node::leaf(10, format!("{:03}", rng.below(256))));
    match ref_parse(&m.tokens(), d) { Ok(r) if r == m => Some(m), _ => None }
}
pub fn gen_msg_retry(rng: &mut Rng, d: &RDict) -> AMsg {
    // in some dictionaries nearly every random choice is ambiguous: smaller messages then, in the end without groups
    let mut k = 0;
    loop { if let Some(m) = gen_msg_sized(rng, d, if k < 20 { 3000 } else { 100 }, k > 60) { return m } k += 1; }
}

// ---- reference parser -------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fault { InvalidTag, TagSpecifiedWithoutValue, TagSpecifiedOutOfOrder, IncorrectDataFormatForValue, IncorrectNumInGroupCountForRepeatingGroup, RequiredTagMissing, RepeatingGroupsOutOfOrder, TagAppearsMoreThanOnce }
use Fault::*;
type R<T> = Result<T, Vec<Fault>>;

fn ref_group(ts: &[Tok], pos: &mut usize, count: &str, scope: &Scope) -> R<Vec<Vec<Node>>> {
    let left = ts.len() - *pos;
    // a count that the rest of the message cannot meet is wrong whatever else is wrong in there: either may be named
    ref_group_at(ts, pos, count, scope).map_err(|mut f| { if count.parse::<u32>().map_or(false, |n| n as usize > left) && !f.contains(&IncorrectNumInGroupCountForRepeatingGroup) { f.push(IncorrectNumInGroupCountForRepeatingGroup) } f })
}
fn ref_group_at(ts: &[Tok], pos: &mut usize, count: &str, scope: &Scope) -> R<Vec<Vec<Node>>> {
    if !count.bytes().all(|b| b.is_ascii_digit()) || count.is_empty() { return Err(vec![IncorrectDataFormatForValue]) }
    let Ok(n) = count.parse::<u32>() else { return Err(vec![IncorrectDataFormatForValue]) };
    let mut out: Vec<Vec<Node>> = vec![];
    let mut last = 0usize;
    while let Some((tag, v)) = ts.get(*pos) {
        let Some(off) = scope.pos(*tag) else { break };
        if off == 0 {
            if out.len() as u64 >= n as u64 { return Err(vec![IncorrectNumInGroupCountForRepeatingGroup]) }
            out.push(vec![]);
        } else if out.is_empty() {
            return Err(if n == 0 { vec![RequiredTagMissing, IncorrectNumInGroupCountForRepeatingGroup] } else { vec![RequiredTagMissing] });
        } else {
            let dup = out.last().unwrap().iter().any(|x| x.tag == *tag);
            if off < last && dup { return Err(vec![RepeatingGroupsOutOfOrder, TagAppearsMoreThanOnce]) }
            if off < last { return Err(vec![RepeatingGroupsOutOfOrder]) }
            if dup { return Err(vec![TagAppearsMoreThanOnce]) }
        }
        last = off;
        *pos += 1;
        let g = match &scope.members[off].group { Some(s) => Some(ref_group(ts, pos, v, s)?), None => None };
        out.last_mut().unwrap().push(Node { tag: *tag, value: v.clone(), group: g });
    }
    if out.len() as u64 != n as u64 { return Err(vec![IncorrectNumInGroupCountForRepeatingGroup]) }
    Ok(out)
}
pub fn ref_parse(ts: &[Tok], d: &RDict) -> R<AMsg> {
    let mut m = AMsg::default();
    if ts.len() < 3 || ts[0].0 != 8 || ts[1].0 != 9 || ts[2].0 != 35 { return Err(vec![TagSpecifiedOutOfOrder, RequiredTagMissing]) }
    let mut pos = 0;
    while pos < ts.len() {
        let (tag, v) = ts[pos].clone();
        let Some(mem) = d.header.get(tag) else { break };
        if m.header.iter().any(|n| n.tag == tag) { return Err(vec![TagAppearsMoreThanOnce]) }
        pos += 1;
        let g = match &mem.group { Some(s) => Some(ref_group(ts, &mut pos, &v, s)?), None => None };
        m.header.push(Node { tag, value: v, group: g });
    }
    let empty = Scope::default();
    let body = d.msgs.get(m.msg_type()).unwrap_or(&empty);
    while pos < ts.len() {
        let (tag, v) = ts[pos].clone();
        if d.header.get(tag).is_some() { return Err(vec![TagSpecifiedOutOfOrder, TagAppearsMoreThanOnce]) }
        if d.trailer.get(tag).is_some() { break }
        if m.body.iter().any(|n| n.tag == tag) { return Err(vec![TagAppearsMoreThanOnce]) }
        pos += 1;
        let g = match body.get(tag).and_then(|x| x.group.as_ref()) { Some(s) => Some(ref_group(ts, &mut pos, &v, s)?), None => None };
        m.body.push(Node { tag, value: v, group: g });
    }
    while pos < ts.len() {
        let (tag, v) = ts[pos].clone();
        if d.trailer.get(tag).is_none() { return Err(vec![TagSpecifiedOutOfOrder]) }
        if m.trailer.iter().any(|n| n.tag == tag) { return Err(vec![TagAppearsMoreThanOnce]) }
        pos += 1;
        m.trailer.push(Node::leaf(tag, v));
    }
    Ok(m)
}

// ---- comparison with the real thing ----------------------------------------------------------------------------
pub fn iter_toks(fm: &FieldMap) -> Vec<Tok> { fm.iter().into_iter().map(|f| (f.tag(), f.value().clone())).collect() }
pub fn msg_toks(m: &Message) -> Vec<Tok> { let mut v = iter_toks(m.header()); v.extend(iter_toks(m.body())); v.extend(iter_toks(m.trailer())); v }
pub fn multiset(t: &[Tok]) -> BTreeMap<Tok, usize> { let mut m = BTreeMap::new(); for x in t { *m.entry(x.clone()).or_insert(0) += 1 } m }
pub fn diff(expected: &[Tok], actual: &[Tok]) -> Option<String> {
    let (e, a) = (multiset(expected), multiset(actual));
    for (k, n) in &e { let g = a.get(k).copied().unwrap_or(0); if g != *n { return Some(format!("field {}={:?} occurs {} time(s), expected {}", k.0, k.1, g, n)) } }
    for (k, n) in &a { if !e.contains_key(k) { return Some(format!("unexpected field {}={:?} occurs {} time(s)", k.0, k.1, n)) } }
    None
}
/// compares one field map with the expected nodes; `absent` lists tags that must not be readable unless expected
pub fn compare_map(fm: &FieldMap, nodes: &[Node], absent: &[u32], path: &str) -> Result<u64, String> {
    let mut checks = 0;
    for n in nodes {
        match fm.get_field::<String>(n.tag) { Ok(v) if v == n.value => {}, o => return Err(format!("{path}: field {} reads {:?}, expected {:?}", n.tag, o, n.value)) }
        checks += 1;
        match (&n.group, fm.get_group(n.tag)) {
            (None, None) => {}
            (None, Some(_)) => return Err(format!("{path}: field {} is reported as a group", n.tag)),
            (Some(_), None) => return Err(format!("{path}: group {} is missing", n.tag)),
            (Some(inst), Some(g)) => {
                if g.size() as usize != inst.len() { return Err(format!("{path}: group {} has {} instances, expected {}", n.tag, g.size(), inst.len())) }
                let all: Vec<u32> = { let mut v: Vec<u32> = inst.iter().flatten().map(|x| x.tag).collect(); v.sort(); v.dedup(); v };
                for (i, want) in inst.iter().enumerate() { checks += compare_map(&g[i], want, &all, &format!("{path}/{}[{}]", n.tag, i))? }
            }
        }
    }
    for t in absent { if !nodes.iter().any(|n| n.tag == *t) { if let Ok(v) = fm.get_field::<String>(*t) { return Err(format!("{path}: field {t} reads {v:?} but was not sent there")) } if fm.get_group(*t).is_some() { return Err(format!("{path}: group {t} present but was not sent there")) } } }
    if let Some(e) = diff(&toks_of(nodes), &iter_toks(fm)) { return Err(format!("{path}: {e}")) }
    Ok(checks)
}
pub fn compare(m: &Message, want: &AMsg) -> Result<u64, String> {
    let h: Vec<u32> = want.header.iter().map(|n| n.tag).collect();
    let b: Vec<u32> = want.body.iter().map(|n| n.tag).collect();
    let t: Vec<u32> = want.trailer.iter().map(|n| n.tag).collect();
    let cat = |x: &[u32], y: &[u32]| -> Vec<u32> { x.iter().chain(y.iter()).copied().collect() };
    Ok(compare_map(m.header(), &want.header, &cat(&b, &t), "header")? + compare_map(m.body(), &want.body, &cat(&h, &t), "body")? + compare_map(m.trailer(), &want.trailer, &cat(&h, &b), "trailer")?)
}
/// splits serialised text into tokens; None if it is not a sequence of tag=value SOH
pub fn tokenize(s: &str) -> Option<Vec<Tok>> {
    if s.is_empty() { return Some(vec![]) }
    let body = s.strip_suffix('\u{1}')?;
    body.split('\u{1}').map(|f| { let (t, v) = f.split_once('=')?; if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) || (t.len() > 1 && t.starts_with('0')) { return None } Some((t.parse().ok()?, v.to_string())) }).collect()
}
