//! C33: the answer to a question is that of a process that was asked nothing else.  A workload of closely related questions
//! is put to one process, in random order, repeatedly and from several threads; each question alone to a fresh process.
use crate::absdict::{ADict, Item};
use crate::absmsg::*;
use crate::report::*;
use crate::rng::Rng;
use crate::{codec, config, vclock, viol};
use fix_rs::verif::{test_logon, DataDictionary, Message, Properties, SessionIdBuilder, SessionSchedule, StringField};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::str::FromStr;
use std::sync::OnceLock;

// ---- the process that answers -------------------------------------------------------------------------------------
type Lazy<T> = OnceLock<Result<T, String>>;
struct World { w: Value, dicts: Vec<Lazy<DataDictionary>>, cfgs: Vec<Lazy<Properties>>, scheds: Vec<Lazy<SessionSchedule>>, msgs: Vec<Lazy<Message>> }
fn s<'a>(v: &'a Value, k: &str) -> &'a str { v[k].as_str().unwrap_or("") }
fn n(v: &Value, k: &str) -> usize { v[k].as_u64().unwrap_or(0) as usize }
fn tags(x: Option<&std::collections::HashSet<u32>>) -> BTreeSet<u32> { x.map(|x| x.iter().copied().collect()).unwrap_or_default() }
fn describe(dd: &DataDictionary, types: &[String], all: &[u32], depth: usize, out: &mut String) {
    *out += &format!("order {:?};", dd.get_ordered_fields());
    for t in types {
        *out += &format!("{t}: {:?} req {:?};", tags(dd.get_msg_fields(t)), tags(dd.get_msg_required_field(t)));
        for k in all { if let Some(g) = dd.get_msg_group(t, *k) { *out += &format!("group {k} of {t} delimiter {} ", g.delimiter()); if depth < 4 { describe(g.data_dictionary(), std::slice::from_ref(t), all, depth + 1, out) } } }
    }
    if depth == 0 { for k in all { *out += &format!("{k}: {:?} {:?} {} {};", dd.get_field_type(*k), dd.get_field_values(*k).map(|v| v.iter().cloned().collect::<BTreeSet<_>>()), dd.is_header_field(*k), dd.is_trailer_field(*k)) } }
}
fn digest(m: &Message) -> String { format!("{:?} {:?} {:?} -> {m}", iter_toks(m.header()), iter_toks(m.body()), iter_toks(m.trailer())) }
impl World {
    fn xml(&self, i: usize) -> &str { self.w["dicts"][i].as_str().unwrap() }
    fn load(&self, i: usize) -> Result<DataDictionary, String> { guard(|| DataDictionary::from_str(self.xml(i)).map_err(|_| "dictionary refused".to_string())).unwrap_or_else(|_| Err("loading panicked".into())) }
    fn dict(&self, i: usize) -> &Result<DataDictionary, String> { self.dicts[i].get_or_init(|| self.load(i)) }
    fn settings(&self, i: usize) -> Result<Properties, String> { let t = self.w["cfgs"][i].as_str().unwrap(); guard(|| Properties::from_str(t)).map_err(|_| "configuration refused".into()) }
    fn schedule(&self, i: usize) -> Result<SessionSchedule, String> {
        let p = self.settings(i)?;
        let id = SessionIdBuilder::new("FIX.4.3", "ME", "PEER").build().unwrap();
        guard(|| SessionSchedule::create_schedule(&id, &p)).map_err(|_| "settings refused".into())
    }
    fn parse(&self, op: &Value, dd: &DataDictionary) -> Result<Message, String> {
        match guard(|| Message::from_str(s(op, "text"), dd).map_err(|e| e.to_string())) { Err(_) => Err("parsing panicked".into()), Ok(Err(e)) => Err(format!("refused: {}", e.rsplit(" - ").next().unwrap_or(""))), Ok(Ok(m)) => Ok(m) }
    }
    fn run(&self, at: usize) -> String {
        let op = &self.w["ops"][at];
        let (kept, i) = (op["kept"] == true, n(op, "i"));
        let r: Result<String, String> = (|| match s(op, "op") {
            "dict" => {
                let all: Vec<u32> = op["tags"].as_array().unwrap().iter().map(|t| t.as_u64().unwrap() as u32).collect();
                let types: Vec<String> = op["types"].as_array().unwrap().iter().map(|t| t.as_str().unwrap().to_string()).collect();
                let mut o = String::new();
                if kept { describe(self.dict(i).as_ref().map_err(|e| e.clone())?, &types, &all, 0, &mut o) } else { describe(&self.load(i)?, &types, &all, 0, &mut o) }
                Ok(o)
            }
            "parse" => { let own; let dd = if kept { self.dict(i).as_ref().map_err(|e| e.clone())? } else { own = self.load(i)?; &own }; let m = self.parse(op, dd)?; Ok(digest(&m)) }
            "edit" => { // a message parsed once and kept is copied, and the copy is changed
                let m = self.msgs[at].get_or_init(|| self.dict(i).as_ref().map_err(|e| e.clone()).and_then(|dd| self.parse(op, dd))).as_ref().map_err(|e| e.clone())?;
                let before = digest(m);
                let mut k = m.clone();
                for e in op["edits"].as_array().unwrap() { let f = StringField::new(n(e, "tag") as u32, s(e, "value")); match n(e, "part") { 0 => k.header_mut().set_field(f), 1 => k.set_field(f), _ => k.trailer_mut().set_field(f) } }
                k.set_body_len(); k.set_checksum();
                Ok(format!("{before} / {} / {}", digest(&k), digest(m)))
            }
            "build" => { let mut r = Rng::new(op["seed"].as_u64().unwrap(), "hist", 0); let mut m = codec::free_message(&mut r); let a = m.to_string(); m.set_body_len(); m.set_checksum(); Ok(format!("{a} {}", digest(&m))) }
            "ident" => { let t = s(op, "text"); Ok(format!("{} {}", Message::get_session_id(t), Message::get_reverse_session_id(t))) }
            "config" => {
                let own;
                let p = if kept { self.cfgs[i].get_or_init(|| self.settings(i)).as_ref().map_err(|e| e.clone())? } else { own = self.settings(i)?; &own };
                let ids: BTreeMap<String, _> = p.session_ids().into_iter().map(|x| (format!("{:?}", crate::ident::Ident::of(x)), x)).collect(); // some print alike
                let mut o = String::new();
                for k in op["keys"].as_array().unwrap() { let k = k.as_str().unwrap(); o += &format!("{k}: {:?};", p.get_default_config::<String>(k).ok()); for (name, x) in &ids { o += &format!("{name} {:?} {:?} {:?};", p.get_property(x, k), p.get_or_default_config::<String>(x, k).ok(), p.get_or_default_config::<u16>(x, k).ok()) } }
                Ok(o)
            }
            "schedule" => {
                let own; let sc = if kept { self.scheds[i].get_or_init(|| self.schedule(i)).as_ref().map_err(|e| e.clone())? } else { own = self.schedule(i)?; &own };
                vclock::set(op["s"].as_i64().unwrap(), op["ns"].as_i64().unwrap());
                let r = guard(|| sc.is_session_time()); vclock::clear();
                r.map(|b| format!("open {b}")).map_err(|_| "asking panicked".into())
            }
            "stamp" => {
                let mut m = Message::new(); m.header_mut().set_field(StringField::new(8, "FIX.4.3")); m.header_mut().set_field(StringField::new(35, "0"));
                vclock::set(op["s"].as_i64().unwrap(), op["ns"].as_i64().unwrap());
                let r = guard(|| { m.set_sending_time(); test_logon() }); vclock::clear();
                r.map(|l| format!("{} {}", digest(&m), digest(&l))).map_err(|_| "stamping panicked".into())
            }
            x => panic!("operation {x}"),
        })();
        match r { Ok(s) => s, Err(s) => s }
    }
}
/// `monitor answer`: reads a workload, prints per question what was answered
pub fn answer() -> i32 {
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).expect("workload");
    let w: Value = serde_json::from_str(&t).expect("workload");
    let len = |k: &str| w[k].as_array().map_or(0, |a| a.len());
    fn lazies<T>(n: usize) -> Vec<Lazy<T>> { (0..n).map(|_| OnceLock::new()).collect() }
    let (nd, nc, no) = (len("dicts"), len("cfgs"), len("ops"));
    let world = World { dicts: lazies(nd), cfgs: lazies(nc), scheds: lazies(nc), msgs: lazies(no), w: Value::Null };
    let runs: Vec<Vec<usize>> = w["runs"].as_array().unwrap().iter().map(|r| r.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()).collect();
    let world = World { w, ..world };
    let mut found: Vec<BTreeMap<String, (usize, usize)>> = (0..no).map(|_| BTreeMap::new()).collect(); // answer -> first position, times
    let all: Vec<Vec<(usize, String)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = runs.iter().map(|r| { let world = &world; std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || r.iter().map(|i| (*i, world.run(*i))).collect::<Vec<_>>()).unwrap() }).collect();
        hs.into_iter().map(|h| h.join().expect("answering")).collect()
    });
    for r in all { for (pos, (i, a)) in r.into_iter().enumerate() { let e = found[i].entry(a).or_insert((pos, 0)); e.0 = e.0.min(pos); e.1 += 1 } }
    let out: Vec<Value> = found.iter().map(|f| f.iter().map(|(a, (p, k))| json!([a, p, k])).collect()).collect();
    let _ = std::io::stdout().write_all(Value::from(out).to_string().as_bytes());
    0
}
fn put(w: &Value) -> Result<Value, String> {
    let mut p = Command::new(std::env::current_exe().expect("own path")).arg("answer").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("process");
    let t = w.to_string();
    let mut i = p.stdin.take().unwrap();
    std::thread::spawn(move || { let _ = i.write_all(t.as_bytes()); });
    let (pid, done) = (p.id() as i32, std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false)));
    let d = done.clone();
    let watch = std::thread::spawn(move || { let t = std::time::Instant::now(); while t.elapsed().as_secs() < 150 { std::thread::park_timeout(std::time::Duration::from_millis(500)); if d.load(std::sync::atomic::Ordering::SeqCst) { return } } unsafe { libc::kill(pid, libc::SIGKILL); } });
    let o = p.wait_with_output().expect("process");
    done.store(true, std::sync::atomic::Ordering::SeqCst);
    watch.thread().unpark();
    let _ = watch.join();
    if !o.status.success() { return Err(o.status.to_string()) }
    serde_json::from_slice(&o.stdout).map_err(|e| e.to_string())
}

// ---- closely related questions ------------------------------------------------------------------------------------
fn alter(items: &mut Vec<Item>, r: &mut Rng) {
    if items.len() < 2 { return }
    let k = r.below(items.len());
    match (&mut items[k], r.below(4)) {
        (Item::Group { items, .. }, 0 | 1) => { let before = items.len(); alter(items, r); if items.len() == before { let a = r.below(items.len()); items.swap(0, a) } }
        (_, 0) => { items.remove(k); }
        (Item::Field { req, .. } | Item::Comp { req, .. } | Item::Group { req, .. }, 1) => *req = !*req,
        (_, 2) => { let b = r.below(items.len()); items.swap(k, b) }
        (Item::Group { num, req, .. }, _) => { let (num, req) = (*num, *req); items[k] = Item::Field { num, req } }
        _ => { items.remove(k); }
    }
}
fn relative(d: &ADict, r: &mut Rng) -> ADict {
    let mut k = d.clone();
    for _ in 0..1 + r.below(3) {
        match r.below(4) {
            0 if !k.comps.is_empty() => { let i = r.below(k.comps.len()); if k.comps[i].items.len() > 1 && !k.comps[i].name.starts_with("Trl") { alter(&mut k.comps[i].items, r) } }
            1 => { let i = r.below(k.fields.len()); let t = r.pick(crate::absdict::TYPES).to_string(); k.fields[i].ty = t; }
            2 => { let mut h = k.header.split_off(3); alter(&mut h, r); k.header.append(&mut h) }
            _ if !k.msgs.is_empty() => { let i = r.below(k.msgs.len()); alter(&mut k.msgs[i].items, r) }
            _ => {}
        }
    }
    k
}
/// components that contain themselves: no dictionary
fn cyclic(xml: &str) -> bool {
    let Ok(doc) = roxmltree::Document::parse(xml) else { return false };
    let mut uses: BTreeMap<&str, BTreeSet<&str>> = BTreeMap::new();
    for k in doc.descendants().filter(|k| k.has_tag_name("component") && k.parent().map_or(false, |p| p.has_tag_name("components"))) {
        uses.entry(k.attribute("name").unwrap_or("")).or_default().extend(k.descendants().skip(1).filter(|x| x.has_tag_name("component")).map(|x| x.attribute("name").unwrap_or("")));
    }
    fn reaches(of: &str, from: &str, uses: &BTreeMap<&str, BTreeSet<&str>>, seen: &mut BTreeSet<String>) -> bool { uses.get(from).map_or(false, |u| u.iter().any(|x| *x == of || (seen.insert(x.to_string()) && reaches(of, x, uses, seen)))) }
    uses.keys().any(|k| reaches(k, k, &uses, &mut BTreeSet::new()))
}
/// the same text but for a few characters: a flag, a digit, or two names of equal length exchanged
fn touched(xml: &str, r: &mut Rng) -> String {
    let mut t = xml.to_string();
    for _ in 0..1 + r.below(2) {
        let b = t.as_bytes();
        match r.below(3) {
            0 => { // a flag
                let at: Vec<usize> = (0..b.len().saturating_sub(2)).filter(|i| matches!(b[*i], b'"' | b'\'') && b[*i + 2] == b[*i] && matches!(b[*i + 1], b'Y' | b'N')).collect();
                if at.is_empty() { continue }
                let i = *r.pick(&at) + 1;
                let to = if b[i] == b'Y' { "N" } else { "Y" };
                t.replace_range(i..i + 1, to);
            }
            1 => { // a digit of a number
                let at: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_digit()).collect();
                if at.is_empty() { continue }
                let i = *r.pick(&at);
                t.replace_range(i..i + 1, r.pick(&["1", "2", "3", "7", "9"]));
            }
            _ => { // two quoted words of one length
                let mut words: Vec<(usize, usize)> = vec![];
                let mut open = None;
                for (i, c) in b.iter().enumerate() { match (open, *c) { (None, b'"' | b'\'') => open = Some((i, *c)), (Some((s, q)), c) if c == q => { words.push((s + 1, i)); open = None } _ => {} } }
                if words.len() < 2 { continue }
                let x = *r.pick(&words);
                let same: Vec<(usize, usize)> = words.iter().copied().filter(|w| w.1 - w.0 == x.1 - x.0 && t[w.0..w.1] != t[x.0..x.1]).collect();
                if same.is_empty() { continue }
                let y = *r.pick(&same);
                let (p, q) = (t[x.0..x.1].to_string(), t[y.0..y.1].to_string());
                t.replace_range(x.0..x.1, &q); t.replace_range(y.0..y.1, &p);
            }
        }
    }
    t
}
pub fn c33(o: &Opts) -> Outcome {
    let mut out = run_cases(o, o.pick(1000, 60_000), o.pick(20, 400), o.pick(60, 900), |c| {
        let r = &mut c.rng;
        // dictionaries of one family, messages of each of them put to all
        let d0 = ADict::random(r);
        let mut ds = vec![d0.clone()];
        for _ in 0..1 + r.below(3) { let k = relative(if r.chance(1, 2) { &d0 } else { ds.last().unwrap() }, r); ds.push(k) }
        if r.chance(1, 5) { ds.push(ADict::random(r)) }
        let rs: Vec<_> = ds.iter().map(|d| d.resolve()).collect();
        let mut dicts: Vec<String> = ds.iter().map(|d| d.to_xml(r)).collect();
        // and texts of one length, differing in a few characters somewhere
        for _ in 0..r.below(3) { let k = touched(r.pick(&dicts), r); if !dicts.contains(&k) { dicts.push(k) } }
        let nd = dicts.len();
        let mut ops: Vec<Value> = vec![];
        let mut texts: Vec<String> = vec![];
        for x in &rs { for _ in 0..1 + r.below(3) {
            let m = gen_msg_retry(r, x); texts.push(m.text());
            let mut k = m.clone(); // another message of the same shape
            fn redo(v: &mut [Node], r: &mut Rng) { for n in v { if let Some(g) = &mut n.group { for i in g { redo(i, r) } } else if ![8, 9, 35, 93].contains(&n.tag) && r.chance(1, 3) { let l = n.value.chars().count(); n.value = (0..l.max(1)).map(|_| *r.pick(&['a', 'Z', '5'])).collect() } } }
            redo(&mut k.header, r); redo(&mut k.body, r); texts.push(k.text());
            if r.chance(1, 2) { texts.push(codec::hostile(r, x)) }
        } }
        let types: BTreeSet<String> = rs.iter().flat_map(|x| x.msgs.keys().cloned()).collect();
        let all: BTreeSet<u32> = ds.iter().flat_map(|d| d.fields.iter().map(|f| f.num)).collect();
        for i in 0..nd { for kept in [true, false] { if r.chance(1, 2) { ops.push(json!({"op": "dict", "i": i, "kept": kept, "types": types, "tags": all})) } } }
        for t in &texts { for i in 0..nd { if r.chance(1, 2) { ops.push(json!({"op": "parse", "i": i, "kept": r.chance(2, 3), "text": t})) } } }
        for t in &texts { if r.chance(1, 4) { let i = r.below(nd); let edits: Vec<Value> = (0..1 + r.below(4)).map(|_| json!({"tag": *r.pick(&[49u32, 56, 34, 52, 58, 11, 5001, 93, 10]), "value": value(r), "part": r.below(3)})).collect(); ops.push(json!({"op": "edit", "i": i, "text": t, "edits": edits})) } }
        let b0 = r.next();
        for k in 0..r.below(4) { ops.push(json!({"op": "build", "seed": b0.wrapping_add(k as u64)})) }
        // messages of related identities
        for t in &texts { if r.chance(1, 3) { ops.push(json!({"op": "ident", "text": t})) } }
        let id0: Vec<(u32, String)> = vec![(8, "FIX.4.3".into()), (35, "A".into()), (49, "AB".into()), (56, "CD".into()), (50, "S".into()), (57, "T".into())];
        for _ in 0..r.below(6) { let mut v = id0.clone(); match r.below(4) { 0 => { v.remove(2 + r.below(4)); } 1 => { let k = 2 + r.below(4); v[k].1 = r.pick(&["AB", "CD", "S", "T", "BA"]).to_string() } 2 => v.swap(2, 3), _ => { let (a, b) = (v[2].1.clone(), v[3].1.clone()); v[2].1 = b; v[3].1 = a } } ops.push(json!({"op": "ident", "text": render(&v)})) }
        // configurations of one family
        let mut cfgs: Vec<String> = vec![];
        let c0 = config::gen(r);
        for k in 0..1 + r.below(3) {
            let mut cf = c0.clone();
            if k > 0 { for _ in 0..1 + r.below(3) {
                let keys: Vec<String> = cf.default.keys().chain(cf.sessions.iter().flat_map(|s| s.keys())).cloned().collect(); let key = r.pick(&keys).clone(); let v = r.pick(&["A", "B", "7", "true", "10117", "FIX.4.2"]).to_string();
                match r.below(4) { 0 => { cf.default.remove(&key); } 1 => { cf.default.insert(key, v); } 2 if !cf.sessions.is_empty() => { let i = r.below(cf.sessions.len()); cf.sessions[i].insert(key, v); } _ if !cf.sessions.is_empty() => { let i = r.below(cf.sessions.len()); cf.sessions[i].remove(&key); } _ => {} }
            } }
            if !cf.sessions.is_empty() && r.chance(1, 8) { let at = r.below(cf.sessions.len()); let s = cf.sessions[at].clone(); cf.sessions.push(s) } // refused
            cfgs.push(cf.text(r));
        }
        let keys: BTreeSet<String> = c0.default.keys().chain(c0.sessions.iter().flat_map(|s| s.keys())).cloned().chain(["missing".to_string()]).collect();
        for i in 0..cfgs.len() { for kept in [true, false] { if r.chance(2, 3) { ops.push(json!({"op": "config", "i": i, "kept": kept, "keys": keys})) } } }
        // schedules of one session, asked at moments close to each other and far apart
        let base = 1_600_000_000 + r.range(0, 400) * 86_400;
        let zone = *r.pick(&["UTC", "America/New_York", "Asia/Tokyo", "Europe/London", "Asia/Kolkata"]);
        for _ in 0..1 + r.below(3) {
            let hm = |r: &mut Rng| format!("{:02}:{:02}:{:02}", r.below(24), r.below(2) * 30, 0);
            let mut t = "[Default]\nconnection_type = acceptor\nbegin_string = FIX.4.3\nsender_comp_id = ME\nsocket_accept_port = 7000\n".to_string();
            t += &format!("default_timezone = {}\n", if r.chance(2, 3) { zone } else { "Australia/Sydney" });
            t += "[Session]\ntarget_comp_id = PEER\n";
            match r.below(6) { 0 => {} 1 => t += &format!("start_time = {}\n", hm(r)), 2 | 3 => t += &format!("start_time = {}\nend_time = {}\nstart_day = {}\nend_day = {}\n", hm(r), hm(r), r.pick(&["Mon", "Sun", "Wed"]), r.pick(&["Tue", "Fri", "Sat"])), _ => t += &format!("start_time = {}\nend_time = {}\n", hm(r), hm(r)) }
            let i = cfgs.len(); cfgs.push(t);
            for _ in 0..2 + r.below(6) { ops.push(json!({"op": "schedule", "i": i, "kept": r.chance(2, 3), "s": base + r.range(0, 10) * 86_400 + *r.pick(&[0i64, 0, 91, 182, 365]) * 86_400 + r.range(0, 47) * 1800 + r.range(-1, 1), "ns": r.below(2) * 999_999_999})) }
        }
        for _ in 0..r.below(6) { ops.push(json!({"op": "stamp", "s": base + r.range(0, 3) * 86_400 + r.range(0, 2), "ns": *r.pick(&[0i64, 1_000_000, 999_000_000, 500_000_000])})) }
        r.shuffle(&mut ops);
        ops.truncate(16 + r.below(60));
        let threads = *r.pick(&[1usize, 1, 2, 3, 6]);
        let runs: Vec<Vec<usize>> = (0..threads).map(|_| { let mut v: Vec<usize> = vec![]; for _ in 0..2 + r.below(3) { let mut o: Vec<usize> = (0..ops.len()).collect(); r.shuffle(&mut o); v.extend(o) } v }).collect();
        let w = json!({"dicts": dicts, "cfgs": cfgs, "ops": ops, "runs": runs});
        let got = match put(&w) { Ok(v) => v, Err(e) => viol!(json!({"workload": w}), "the process that was asked everything died: {e}") };
        // a sample of them alone, each in a process of its own; and all must have been answered alike throughout
        let mut alone: Vec<usize> = (0..ops.len()).collect(); r.shuffle(&mut alone); alone.truncate(8);
        for (i, a) in got.as_array().unwrap().iter().enumerate() {
            let a = a.as_array().unwrap();
            c.stats.count("answers", a.iter().map(|x| x[2].as_u64().unwrap()).sum());
            c.stats.count(&format!("questions: {}", s(&ops[i], "op")), 1);
            let about = || json!({"question": ops[i], "dictionary": w["dicts"][n(&ops[i], "i")], "configuration": w["cfgs"][n(&ops[i], "i")], "answers": a, "threads": threads});
            if a.len() != 1 { viol!(about(), "one question ({}) was answered in {} different ways: {}  AND  {}", s(&ops[i], "op"), a.len(), show(a[0][0].as_str().unwrap(), 500), show(a[1][0].as_str().unwrap(), 500)) }
            let first = a[0][0].as_str().unwrap();
            c.stats.count(if ["refused", "dictionary refused", "configuration refused", "settings refused"].iter().any(|p| first.starts_with(p)) { "questions answered with a refusal" } else { "questions answered with a result" }, 1);
            if !alone.contains(&i) { continue }
            let one = match put(&json!({"dicts": dicts, "cfgs": cfgs, "ops": ops, "runs": [[i]]})) { Ok(v) => v, Err(e) => viol!(about(), "the process that was asked only this died: {e}") };
            let want = one[i][0][0].as_str().unwrap().to_string();
            if want != first { viol!(about(), "a question ({}) was answered {} after others, but {} in a fresh process", s(&ops[i], "op"), show(first, 600), show(&want, 600)) }
            c.stats.count("answers compared with a fresh process", 1);
        }
        c.stats.nontrivial(&format!("{ops:?}"));
        Ok(())
    });
    out.rule = "workloads of 16 to 75 related questions (dictionaries differing in a few places, the same texts against each, copies of messages edited, identities, configurations of the same sessions, schedules and stamps at nearby moments), asked 2 to 4 times in random order on 1 to 6 threads of one process; all answers to a question must be the same, and a sample of 8 equals that of a fresh process; distinct = different workloads".into();
    out
}
