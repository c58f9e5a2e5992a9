//! C10, C11: session identities.
use crate::absmsg::{value, Tok, render};
use crate::report::*;
use crate::rng::Rng;
use crate::viol;
use fix_rs::verif::{Message, SessionId, SessionIdBuilder};
use serde_json::json;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};

/// normalised components: an empty optional one is absent
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Ident { pub begin: String, pub s: String, pub ss: Option<String>, pub sl: Option<String>, pub t: String, pub ts: Option<String>, pub tl: Option<String>, pub q: Option<String> }
impl Ident {
    pub fn reverse(&self) -> Ident { Ident { begin: self.begin.clone(), s: self.t.clone(), ss: self.ts.clone(), sl: self.tl.clone(), t: self.s.clone(), ts: self.ss.clone(), tl: self.sl.clone(), q: self.q.clone() } }
    pub fn print(&self) -> String {
        let p = |x: &Option<String>| x.as_ref().map_or(String::new(), |v| format!("/{v}"));
        format!("{}:{}{}{}->{}{}{}", self.begin, self.s, p(&self.ss), p(&self.sl), self.t, p(&self.ts), p(&self.tl))
    }
    pub fn of(id: &SessionId) -> Ident { Ident { begin: id.begin_string().clone(), s: id.sender_compid().clone(), ss: id.sender_subid().clone(), sl: id.sender_locationid().clone(), t: id.target_compid().clone(), ts: id.target_subid().clone(), tl: id.target_locationid().clone(), q: id.session_qualifier().clone() } }
    /// the header fields of a message sent on this session
    pub fn toks(&self) -> Vec<Tok> {
        let mut v = vec![(8, self.begin.clone()), (49, self.s.clone()), (56, self.t.clone())];
        for (t, x) in [(50, &self.ss), (142, &self.sl), (57, &self.ts), (143, &self.tl)] { if let Some(x) = x { v.push((t, x.clone())) } }
        v
    }
}

pub fn c10(o: &Opts) -> Outcome {
    let mut out = run_cases(o, o.pick(1_000_000, 16_000_000), o.pick(10_000, 100_000), o.pick(60, 400), |c| {
        let mut id = Ident::default();
        let r = &mut c.rng;
        let mut toks: Vec<Tok> = vec![];
        if !r.chance(1, 20) { id.begin = if r.chance(1, 3) { value(r) } else { r.pick(&["FIX.4.2", "FIX.4.3", "FIX.4.4"]).to_string() }; toks.push((8, id.begin.clone())); }
        toks.push((9, r.below(900).to_string())); toks.push((35, "D".into()));
        let mut rest: Vec<Tok> = vec![];
        macro_rules! opt { ($f:expr, $t:expr, $p:expr) => { if r.chance($p, 4) { if r.chance(1, 8) { rest.push(($t, String::new())) } else { let v = if r.chance(1, 3) { r.pick(&["A", "B", "BANZAI", "49", "50=X", "56", "A/B", "->", "8=FIX.4.2"]).to_string() } else if r.chance(1, 60) { value(r).repeat(1 + r.below(200)) } else { value(r) }; rest.push(($t, v.clone())); $f = v.into(); } } } }
        opt!(id.s, 49, 4); opt!(id.t, 56, 4); opt!(id.ss, 50, 2); opt!(id.sl, 142, 2); opt!(id.ts, 57, 2); opt!(id.tl, 143, 2);
        // tags whose text ends in an identity tag, and values that look like identity fields
        for _ in 0..r.below(8) {
            let t = *r.pick(&[149u32, 1149, 150, 1142, 2142, 156, 556, 157, 1143, 3143, 34, 52, 115, 128, 98, 108, 18, 28, 88, 148, 4957, 5749, 5, 4, 14, 43]);
            let v = r.pick(&["49=SPOOF", "56=SPOOF", "50=SPOOF", "57=S", "142=S", "143=S", "8=FIX.9", "x=49=SPOOF", "plain"]).to_string();
            rest.push((t, v));
        }
        if r.chance(1, 100) { for _ in 0..50 + r.below(2000) { rest.push((5000 + r.below(90_000) as u32, if r.chance(1, 5) { value(r) } else { r.below(1000).to_string() })) } c.stats.count("identities among hundreds of other fields", 1) }
        r.shuffle(&mut rest);
        toks.extend(rest);
        for _ in 0..r.below(4) { toks.push((*r.pick(&[58u32, 354, 355, 11, 38]), r.pick(&["8=FIX.0", "49=LATE", "=56=LATE", "57=LATE", "\u{e9}50=x"]).to_string())) }
        // identity tags once more, after those of the header
        if r.chance(1, 3) { for t in [49u32, 50, 142, 56, 57, 143] { if r.chance(1, 3) && toks.iter().any(|x| x.0 == t) { toks.push((t, r.pick(&["LATER", "A", "B", ""]).to_string())) } } }
        toks.push((10, "123".into()));
        let text = render(&toks);
        let wit = json!({"message": show(&text, 3000)});
        for (name, got, want) in [("identity", guard(|| Message::get_session_id(&text)), id.clone()), ("reverse identity", guard(|| Message::get_reverse_session_id(&text)), id.reverse())] {
            match got {
                Err(p) => viol!(wit, "extracting the {name} panicked: {p}"),
                Ok(g) => { if Ident::of(&g) != want { viol!(wit, "{name} is {:?}, expected {:?}", Ident::of(&g), want) }
                    if g.to_string() != want.print() { viol!(wit, "{name} prints as {:?}, expected {:?}", g.to_string(), want.print()) } }
            }
        }
        c.stats.count("identities compared", 2);
        if id.ss.is_some() || id.sl.is_some() || id.ts.is_some() || id.tl.is_some() { c.stats.count("with sub or location ids", 1) }
        c.stats.nontrivial(&text);
        Ok(())
    });
    out.rule = "raw messages with any subset and order of identity fields, look-alike tags and look-alike values; identity compared with an independent reading of the tokens; distinct = different messages".into();
    out
}

fn comp(r: &mut Rng) -> String { if r.chance(1, 25) { return long(r) } r.pick(&["A", "B", "AB", "A/B", "B/C", "", "A->B", "\u{e9}", "BANZAI", "FIXIMULATOR", "A:B", " A", "a", " "]).to_string() }
/// long ones that differ only at their end
fn long(r: &mut Rng) -> String { let n = *r.pick(&[15usize, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 1000, 5000]); let mut s = "L".repeat(n); s.push_str(*r.pick(&["", "A", "B", "/"])); s }
fn opt(r: &mut Rng) -> Option<String> { if r.chance(1, 40) { return Some(long(r)) } match r.below(5) { 0 | 1 => None, 2 => Some(String::new()), _ => Some(r.pick(&["A", "B", "S", "S/L", "A->B", "x", " ", "\t", "x "]).to_string()) } }
fn norm(x: &Option<String>) -> Option<String> { x.clone().filter(|s| !s.is_empty()) }
fn hash(id: &SessionId) -> u64 { let mut h = DefaultHasher::new(); id.hash(&mut h); h.finish() }

pub fn c11(o: &Opts) -> Outcome {
    let mut out = run_cases(o, o.pick(60_000, 2_000_000), o.pick(4_000, 40_000), o.pick(60, 400), |c| {
        let r = &mut c.rng;
        let mut ids: Vec<(Ident, SessionId, &'static str)> = vec![];
        let n = 2 + r.below(8);
        let mut raw: Vec<[Option<String>; 8]> = vec![];
        for _ in 0..n {
            let mut x = [Some(r.pick(&["FIX.4.2", "FIX.4.3", "X"]).to_string()), Some(comp(r)), opt(r), opt(r), Some(comp(r)), opt(r), opt(r), if r.chance(1, 6) { Some("Q".to_string()) } else { None }];
            if !raw.is_empty() && r.chance(2, 3) { // close relatives of an earlier one
                x = r.pick(&raw).clone();
                for _ in 0..r.below(3) { let k = r.below(8); x[k] = match k { 0 => Some(r.pick(&["FIX.4.2", "FIX.4.3"]).to_string()), 1 | 4 => Some(comp(r)), 7 => if r.chance(1, 2) { Some("Q".into()) } else { None }, _ => opt(r) } }
                if r.chance(1, 4) { let (a, b) = *r.pick(&[(2usize, 3usize), (5, 6), (2, 5)]); x.swap(a, b) }
            }
            raw.push(x);
        }
        for x in &raw {
            let want = Ident { begin: x[0].clone().unwrap(), s: x[1].clone().unwrap(), ss: norm(&x[2]), sl: norm(&x[3]), t: x[4].clone().unwrap(), ts: norm(&x[5]), tl: norm(&x[6]), q: x[7].clone() };
            let mut ways: Vec<&'static str> = vec!["builder", "setters"];
            if want.q.is_none() { ways.push("from_map"); ways.push("message") }
            for way in ways {
                let id = guard(|| match way {
                    "builder" | "setters" => {
                        let mut b = if way == "builder" { SessionIdBuilder::new(want.begin.clone(), want.s.clone(), want.t.clone()) } else { let mut b = SessionIdBuilder::default(); b.target_compid(want.t.as_str()).begin_string(want.begin.as_str()).sender_compid(want.s.as_str()); b };
                        if let Some(v) = &x[2] { b.sender_subid(v.as_str()); } if let Some(v) = &x[3] { b.sender_locationid(v.as_str()); }
                        if let Some(v) = &x[5] { b.target_subid(v.as_str()); } if let Some(v) = &x[6] { b.target_locationid(v.as_str()); }
                        if let Some(v) = &x[7] { b.session_qualifier(v.as_str()); }
                        b.build().unwrap()
                    }
                    "from_map" => {
                        let keys = ["begin_string", "sender_comp_id", "sender_sub_id", "sender_location_id", "target_comp_id", "target_sub_id", "target_location_id"];
                        let (mut own, mut def) = (HashMap::new(), HashMap::new());
                        for (i, k) in keys.iter().enumerate() { if let Some(v) = &x[i] { let h = crate::rng::hash_str(&format!("{v}{k}{}", x[1].as_ref().unwrap())); if h % 3 == 0 { def.insert(k.to_string(), v.clone()); } else { own.insert(k.to_string(), v.clone()); if h % 3 == 1 { def.insert(k.to_string(), "SHADOWED".to_string()); } } } }
                        SessionId::from_map(&own, &def)
                    }
                    _ => { let mut t = want.toks(); t.insert(1, (35, "0".into())); Message::get_session_id(&render(&t)) }
                });
                let id = match id { Ok(i) => i, Err(p) => viol!(json!({"components": format!("{want:?}"), "way": way}), "constructing the identity by {way} panicked: {p}") };
                if way == "message" && (want.s.is_empty() || want.t.is_empty()) { /* same as absent */ }
                if Ident::of(&id) != want { viol!(json!({"components": format!("{want:?}"), "way": way}), "identity built by {way} has components {:?}", Ident::of(&id)) }
                if id.to_string() != want.print() { viol!(json!({"components": format!("{want:?}"), "way": way}), "identity prints as {:?}, expected {:?}", id.to_string(), want.print()) }
                ids.push((want.clone(), id, way));
            }
        }
        let mut map: HashMap<SessionId, Ident> = HashMap::new();
        let mut model: BTreeMap<Ident, ()> = BTreeMap::new();
        for (w, id, _) in &ids { map.insert(id.clone(), w.clone()); model.insert(w.clone(), ()); }
        if map.len() != model.len() { viol!(json!({"identities": format!("{:?}", model.keys().collect::<Vec<_>>())}), "{} distinct identities make {} map entries", model.len(), map.len()) }
        let mut pairs = 0;
        for (w1, a, way1) in &ids {
            if map.get(a) != Some(w1) { viol!(json!({"components": format!("{w1:?}"), "way": way1}), "map lookup by an identity built by {way1} finds {:?}", map.get(a)) }
            for (w2, b, way2) in &ids {
                pairs += 1;
                if (a == b) != (w1 == w2) { viol!(json!({"a": format!("{w1:?}"), "b": format!("{w2:?}"), "ways": [way1, way2]}), "identities compare {} but their components are {}", if a == b { "equal" } else { "different" }, if w1 == w2 { "equal" } else { "different" }) }
                if w1 == w2 && hash(a) != hash(b) { viol!(json!({"a": format!("{w1:?}"), "ways": [way1, way2]}), "equal identities hash differently") }
                if w1 == w2 && a.to_string() != b.to_string() { viol!(json!({"a": format!("{w1:?}"), "ways": [way1, way2]}), "equal identities print differently") }
                if w1 != w2 && a.to_string() == b.to_string() { c.stats.count("different identities that print alike", 1) }
                if w1 == w2 && way1 != way2 { c.stats.count("equal pairs built in different ways", 1) }
            }
        }
        c.stats.count("pairs compared", pairs);
        c.stats.nontrivial(&format!("{raw:?}"));
        Ok(())
    });
    out.rule = "families of closely related component tuples, each built by builder, configuration map and message; all pairs compared, hashed, printed and looked up; distinct = different families".into();
    out
}
