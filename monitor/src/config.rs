//! C15, C16: configuration texts rendered from an abstract configuration.
use crate::ident::Ident;
use crate::report::*;
use crate::rng::Rng;
use crate::viol;
use fix_rs::verif::{Properties, SessionId, SessionIdBuilder};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

pub type Sec = BTreeMap<String, String>;
#[derive(Clone, Debug, Default)]
pub struct Cfg { pub default: Sec, pub sessions: Vec<Sec> }
const ID_KEYS: [&str; 7] = ["begin_string", "sender_comp_id", "sender_sub_id", "sender_location_id", "target_comp_id", "target_sub_id", "target_location_id"];
impl Cfg {
    pub fn eff<'a>(&'a self, i: usize, k: &str) -> Option<&'a String> { self.sessions[i].get(k).or_else(|| self.default.get(k)) }
    pub fn ident(&self, i: usize) -> Ident {
        let g = |k: &str| self.eff(i, k).cloned(); let n = |k: &str| g(k).filter(|s| !s.is_empty());
        Ident { begin: g("begin_string").unwrap_or_default(), s: g("sender_comp_id").unwrap_or_default(), ss: n("sender_sub_id"), sl: n("sender_location_id"), t: g("target_comp_id").unwrap_or_default(), ts: n("target_sub_id"), tl: n("target_location_id"), q: None }
    }
    pub fn valid(&self) -> bool {
        let mut seen = BTreeSet::new();
        let Some(ct) = self.default.get("connection_type") else { return false };
        for i in 0..self.sessions.len() {
            if ID_KEYS[..].iter().filter(|k| ["begin_string", "sender_comp_id", "target_comp_id"].contains(k)).any(|k| self.eff(i, k).is_none()) { return false }
            if !["FIX.4.2", "FIX.4.3", "FIX.4.4"].contains(&self.eff(i, "begin_string").unwrap().as_str()) { return false }
            if !seen.insert(self.ident(i)) { return false }
            let port = |k: &str| self.eff(i, k).map_or(false, |p| p.parse::<u16>().is_ok());
            match ct.as_str() { "acceptor" => if !port("socket_accept_port") { return false }, "initiator" => if !port("socket_connect_port") || self.eff(i, "socket_connect_host").is_none() { return false }, _ => return false }
        }
        true
    }
    fn sec_lines(s: &Sec, r: &mut Rng, out: &mut Vec<String>) {
        let mut ks: Vec<&String> = s.keys().collect(); r.shuffle(&mut ks);
        for k in ks {
            let v = &s[k];
            let (a, b) = (*r.pick(&["", " ", "   ", "\t"]), *r.pick(&["", " ", "  ", "\t"]));
            let key = if r.chance(1, 6) { format!("\"{k}\"") } else { k.clone() };
            let q = "\"".repeat(if r.chance(1, 25) { 2 } else { 1 });
            let val = if v.is_empty() || r.chance(1, 2) { format!("{q}{v}{q}") } else { v.clone() };
            out.push(format!("{}{key}{a}={b}{val}{}", r.pick(&["", "  ", "\t", "            "]), r.pick(&["", " ", "\t"])));
            if r.chance(1, 5) { out.push(r.pick(&["", "   ", "\t"]).to_string()) }
        }
    }
    pub fn sections(&self, r: &mut Rng) -> Vec<Vec<String>> {
        let mut v = vec![];
        let pad = |r: &mut Rng, s: &str| format!("{}{s}{}", r.pick(&["", " ", "    "]), r.pick(&["", " "]));
        let mut d = vec![pad(r, "[Default]")]; Self::sec_lines(&self.default, r, &mut d); v.push(d);
        for s in &self.sessions { let h = if r.chance(1, 20) { *r.pick(&["[Session.1]", "[a = b]", "[session]", "[ Session ]", "[x=\"y\"]"]) } else { "[Session]" }; let mut x = vec![pad(r, h)]; Self::sec_lines(s, r, &mut x); v.push(x) }
        v
    }
    pub fn join(secs: &[Vec<String>], r: &mut Rng) -> String {
        let nl = if r.chance(1, 5) { "\r\n" } else { "\n" };
        let mut s = String::new();
        if r.chance(1, 3) { s += nl }
        let airy = r.chance(1, 6); // empty lines anywhere
        for x in secs { for l in x { s += l; s += nl; if airy && r.chance(1, 3) { s += *r.pick(&["", " ", "\t"]); s += nl } } if r.chance(1, 3) { s += nl } }
        if r.chance(1, 3) { s = s.trim_end().to_string() }
        s
    }
    pub fn text(&self, r: &mut Rng) -> String { let s = self.sections(r); Self::join(&s, r) }
}
fn val(r: &mut Rng) -> String { r.pick(&["A", "B", "BANZAI", "FIXIMULATOR", "x y", "a=b", "k=\"v\"x", "[x]", "\u{e9}", "10117", "0", "true", "false", "3.5", "-7", "http://h:1/p?q=1", "a\"b", "#x", "\u{4e2d}\u{6587}", "65536"]).to_string() }
pub fn gen(r: &mut Rng) -> Cfg {
    loop {
        let acc = r.chance(2, 3);
        let mut c = Cfg::default();
        c.default.insert("connection_type".into(), if acc { "acceptor" } else { "initiator" }.into());
        let crowd = r.chance(1, 80); // hundreds of sessions, or settings, or characters
        let n = if crowd && r.chance(1, 2) { 17 + r.below(250) } else { match r.below(8) { 0 => 0, 1 => 4 + r.below(6), _ => 1 + r.below(3) } };
        c.sessions = vec![Sec::new(); n];
        let mut place = |r: &mut Rng, c: &mut Cfg, k: &str, must: bool, f: &dyn Fn(&mut Rng) -> String| {
            let in_def = r.chance(1, 2);
            if in_def { c.default.insert(k.into(), f(r)); }
            for s in c.sessions.iter_mut() { if (must && !in_def) || r.chance(1, 2) { s.insert(k.into(), f(r)); } }
        };
        place(r, &mut c, "begin_string", true, &|r| r.pick(&["FIX.4.2", "FIX.4.3", "FIX.4.4"]).to_string());
        for k in ["sender_comp_id", "target_comp_id"] { place(r, &mut c, k, true, &|r| r.pick(&["A", "B", "C", "BANZAI", "a b", "x=y", "\u{e9}"]).to_string()) }
        for k in ["sender_sub_id", "sender_location_id", "target_sub_id", "target_location_id"] { if r.chance(1, 2) { place(r, &mut c, k, false, &|r| r.pick(&["A", "B", "", "S/L"]).to_string()) } }
        let port = |r: &mut Rng| r.pick(&["0", "1", "10117", "65535", "8080"]).to_string();
        if acc || r.chance(1, 4) { place(r, &mut c, "socket_accept_port", acc, &port) }
        if !acc || r.chance(1, 4) { place(r, &mut c, "socket_connect_port", !acc, &port); place(r, &mut c, "socket_connect_host", !acc, &|r| r.pick(&["localhost", "127.0.0.1", "example.com"]).to_string()) }
        for k in ["heartbeat_interval", "reset_on_logon", "data_dictionary", "start_time", "custom_a", "Custom", "session_qualifier"] { if r.chance(1, 3) { place(r, &mut c, k, false, &|r| val(r)) } }
        if r.chance(1, 4) { place(r, &mut c, "empty_one", false, &|_| String::new()) }
        if n > 16 { c.default.remove("target_comp_id"); let same = r.chance(1, 3); for (i, s) in c.sessions.iter_mut().enumerate() { s.insert(if same { "target_sub_id" } else { "target_comp_id" }.into(), format!("P{i}")); if same { s.insert("target_comp_id".into(), "A".into()); } } }
        if crowd && n < 17 { if r.chance(1, 2) { for i in 0..20 + r.below(400) { let k = format!("custom_{i}"); if r.chance(1, 2) { c.default.insert(k.clone(), val(r)); } for s in c.sessions.iter_mut() { if r.chance(1, 2) { s.insert(k.clone(), val(r)); } } } } else { let v = val(r).replace('"', "q"); place(r, &mut c, "custom_a", false, &|r| { let mut s = v.repeat(1 + r.below(5000)); s.push('.'); s }) } }
        if c.valid() { return c }
    }
}
fn to_id(i: &Ident) -> SessionId {
    let mut b = SessionIdBuilder::new(i.begin.clone(), i.s.clone(), i.t.clone());
    if let Some(v) = &i.ss { b.sender_subid(v.as_str()); } if let Some(v) = &i.sl { b.sender_locationid(v.as_str()); }
    if let Some(v) = &i.ts { b.target_subid(v.as_str()); } if let Some(v) = &i.tl { b.target_locationid(v.as_str()); }
    b.build().unwrap()
}

pub fn c15(o: &Opts) -> Outcome {
    let mut out = run_cases(o, o.pick(40_000, 2_000_000), o.pick(2_000, 20_000), o.pick(60, 500), |c| {
        let cfg = gen(&mut c.rng);
        let text = cfg.text(&mut c.rng);
        let wit = json!({"configuration": text});
        let p = match guard(|| Properties::from_str(&text)) { Ok(p) => p, Err(e) => viol!(wit, "well-formed configuration refused: {e}") };
        let want: BTreeSet<Ident> = (0..cfg.sessions.len()).map(|i| cfg.ident(i)).collect();
        let got: Vec<Ident> = p.session_ids().into_iter().map(Ident::of).collect();
        if got.len() != want.len() || got.iter().cloned().collect::<BTreeSet<_>>() != want { viol!(wit, "sessions are {got:?}, expected {want:?}") }
        let mut keys: BTreeSet<&str> = cfg.default.keys().map(|s| s.as_str()).collect();
        for s in &cfg.sessions { keys.extend(s.keys().map(|k| k.as_str())) }
        keys.extend(["missing", "", "custom_b", "heartbeat_interval"]);
        let did = SessionId::default();
        let mut n = 0u64;
        for k in &keys {
            let d = cfg.default.get(*k);
            if p.get_property(&did, k) != d { viol!(wit, "default section's {k} reads {:?}, expected {d:?}", p.get_property(&did, k)) }
            if p.get_default_config::<String>(k).ok().as_ref() != d { viol!(wit, "get_default_config({k}) expected {d:?}") }
            for i in 0..cfg.sessions.len() {
                let id = to_id(&cfg.ident(i));
                let own = cfg.sessions[i].get(*k); let eff = cfg.eff(i, k);
                if p.get_property(&id, k) != own { viol!(wit, "session {id}: own {k} reads {:?}, expected {own:?}", p.get_property(&id, k)) }
                if p.get_config::<String>(&id, k).ok().as_ref() != own { viol!(wit, "session {id}: get_config({k}) expected {own:?}") }
                if p.get_or_default_config::<String>(&id, k).ok().as_ref() != eff { viol!(wit, "session {id}: get_or_default_config({k}) expected {eff:?}") }
                match guard(|| p.get_optional_config::<String>(&id, k)) { Ok(v) if v.as_ref() == eff => {}, v => viol!(wit, "session {id}: get_optional_config({k}) gives {v:?}, expected {eff:?}") }
                macro_rules! typed { ($($t:ty),*) => { $( {
                    let (eo, ee) = (own.map(|v| v.parse::<$t>().ok().map(|x| x.to_string())), eff.map(|v| v.parse::<$t>().ok().map(|x| x.to_string())));
                    let g = p.get_config::<$t>(&id, k).ok().map(|x| x.to_string()); if g != eo.flatten() { viol!(wit, "session {id}: get_config::<{}>({k}) gives {g:?}", stringify!($t)) }
                    let g = p.get_or_default_config::<$t>(&id, k).ok().map(|x| x.to_string()); if g != ee.clone().flatten() { viol!(wit, "session {id}: get_or_default_config::<{}>({k}) gives {g:?}", stringify!($t)) }
                    let g = guard(|| p.get_optional_config::<$t>(&id, k).map(|x| x.to_string()));
                    match (&g, &ee) { (Ok(None), None) => {}, (Ok(Some(a)), Some(Some(b))) if a == b => {}, (Err(_), Some(None)) => c.stats.count("unparsable values reported", 1), _ => viol!(wit, "session {id}: get_optional_config::<{}>({k}) gives {g:?}, expected {ee:?}", stringify!($t)) }
                } )* } }
                typed!(u16, u32, bool, f64);
                n += 8;
                if own.is_some() && d.is_some() && own != d { c.stats.count("session overrides default", 1) }
                if own.is_none() && d.is_some() { c.stats.count("default used", 1) }
            }
            if p.get_property(&SessionIdBuilder::new("FIX.4.2", "NO", "SUCH").build().unwrap(), k).is_some() { viol!(wit, "an undeclared session has its own {k}") }
        }
        c.stats.count("lookups compared", n);
        c.stats.count("sessions", cfg.sessions.len() as u64);
        if c.idx % 64 == 0 { // through a file
            let path = std::env::temp_dir().join(format!("fixrs-cfg-{}-{}.toml", std::process::id(), c.idx));
            std::fs::write(&path, &text).unwrap();
            let r = guard(|| Properties::new(&path).session_ids().len());
            let _ = std::fs::remove_file(&path);
            if r != Ok(want.len()) { viol!(wit, "loading the configuration from a file gives {r:?}") }
        }
        c.stats.nontrivial(&text);
        Ok(())
    });
    out.rule = "random configurations rendered with random layout; every lookup form, section and type compared with the abstract configuration; distinct = different texts".into();
    out
}

pub fn c16(o: &Opts) -> Outcome {
    let mut out = run_cases(o, o.pick(500_000, 8_000_000), o.pick(4_000, 40_000), o.pick(60, 500), |c| {
        let r = &mut c.rng;
        let mut cfg = gen(r);
        if r.chance(1, 6) {
            let text = cfg.text(r);
            if let Err(e) = guard(|| Properties::from_str(&text)) { viol!(json!({"configuration": text}), "configuration without a defect refused: {e}") }
            c.stats.count("sound configurations loaded", 1);
            return Ok(());
        }
        let n = cfg.sessions.len();
        let drop_all = |cfg: &mut Cfg, k: &str| { cfg.default.remove(k); for s in cfg.sessions.iter_mut() { s.remove(k); } };
        let corrupt = |cfg: &mut Cfg, r: &mut Rng, k: &str, v: &str| { let i = r.below(cfg.sessions.len()); if cfg.sessions[i].contains_key(k) || r.chance(1, 2) || !cfg.default.contains_key(k) { cfg.sessions[i].insert(k.into(), v.into()); } else { for s in cfg.sessions.iter_mut() { s.remove(k); } cfg.default.insert(k.into(), v.into()); } };
        let acc = cfg.default["connection_type"] == "acceptor";
        let kind = r.below(12);
        let mut text = None;
        let what: String = match kind {
            0 => { let s = cfg.sections(r); if n == 0 && r.chance(1, 2) { text = Some(String::new()) } else if n > 0 && r.chance(1, 2) {
                       // every session has all it needs, only the section itself is not there
                       let mut k = cfg.clone(); for s in k.sessions.iter_mut() { for (a, b) in &cfg.default { s.entry(a.clone()).or_insert_with(|| b.clone()); } }
                       let s = k.sections(r); text = Some(Cfg::join(&s[1..], r)) } else { text = Some(Cfg::join(&s[1..], r)) } "no default section".into() }
            1 => { let mut s = cfg.sections(r); let d = s[0].clone(); let i = 1 + r.below(s.len()); let d = if r.chance(1, 2) { vec![d[0].clone()] } else { d }; s.insert(i, d); text = Some(Cfg::join(&s, r)); "default section repeated".into() }
            2 => { if n == 0 { return Ok(()) } let mut s = cfg.sections(r); let d = s.remove(0); let i = 1 + r.below(s.len()); s.insert(i, d); text = Some(Cfg::join(&s, r)); "default section not first".into() }
            3 => { cfg.default.remove("connection_type"); "connection type missing".into() }
            4 => { let v = *r.pick(&["server", "acceptorx", "", "accept", "initiator acceptor", "0"]); cfg.default.insert("connection_type".into(), v.into()); "connection type invalid".into() }
            5 | 6 => { if n == 0 { return Ok(()) } let k = *r.pick(&["begin_string", "sender_comp_id", "target_comp_id"]);
                   let i = r.below(n); // only session i lacks it: the others get their own copy
                   let d = cfg.default.remove(k); for (j, s) in cfg.sessions.iter_mut().enumerate() { if j == i { s.remove(k); } else if let Some(v) = &d { s.entry(k.to_string()).or_insert_with(|| v.clone()); } } format!("{k} missing") }
            7 => { if n == 0 { return Ok(()) } let v = *r.pick(&["FIX.4.0", "FIXT.1.1", "FIX.4.22", "FIX42", "", "FIX.5.0", "xFIX.4.2"]); corrupt(&mut cfg, r, "begin_string", v); "begin string unsupported".into() }
            8 | 9 => { if n == 0 { return Ok(()) } let k = if acc { "socket_accept_port" } else if r.chance(1, 2) { "socket_connect_port" } else { "socket_connect_host" };
                   let i = r.below(n); let d = cfg.default.remove(k); for (j, s) in cfg.sessions.iter_mut().enumerate() { if j == i { s.remove(k); } else if let Some(v) = &d { s.entry(k.to_string()).or_insert_with(|| v.clone()); } } format!("{k} missing") }
            10 => { if n == 0 { return Ok(()) } let k = if acc { "socket_accept_port" } else { "socket_connect_port" }; let v = *r.pick(&["65536", "-1", "abc", "", "70000", "80.5", "0x50", "4294967376"]); corrupt(&mut cfg, r, k, v); format!("{k} not a port") }
            _ => { if n == 0 { return Ok(()) } // a session with the identity of another one, spelled differently where possible
                   let i = r.below(n); let mut s = cfg.sessions[i].clone(); for k in ID_KEYS { if r.chance(1, 2) { if let Some(v) = cfg.eff(i, k).cloned() { s.insert(k.into(), v); } } }
                   s.insert("custom_dup".into(), "1".into()); let at = r.below(n + 1); cfg.sessions.insert(at, s); "identity used twice".into() }
        };
        let _ = drop_all;
        if text.is_none() && kind >= 5 && cfg.valid() { return Ok(()) }
        let text = text.unwrap_or_else(|| cfg.text(r));
        if guard(|| Properties::from_str(&text)).is_ok() { viol!(json!({"defect": what, "configuration": text}), "{what}: the configuration was loaded") }
        c.stats.count(&format!("refused: {what}"), 1);
        c.stats.nontrivial(&text);
        Ok(())
    });
    out.rule = "one defect of a known kind introduced into a sound random configuration, and sound ones as control; distinct = different defective texts".into();
    out
}
