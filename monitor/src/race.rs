//! C27: histories of the session registry, checked for linearizability per identity.
//! C28: concurrent use of independent messages and one shared dictionary gives what sequential use gives.
use crate::absdict::*;
use crate::absmsg::*;
use crate::codec;
use crate::config;
use crate::report::*;
use crate::rng::{hash_str, Rng};
use crate::viol;
use fix_rs::verif::{DataDictionary, Message, Properties, Session, SessionId, SessionIdBuilder, SessionMap};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Barrier, Mutex};

// ---- C27 --------------------------------------------------------------------------------------------------------
/// one operation as it looked from outside: values are stamps, 0 is "not registered"
#[derive(Clone, Debug)]
enum Op { Write(u64), Read(u64), Swap { old: u64, new: u64 }, SwapNone, Offer { mine: u64, seen: u64 } }
#[derive(Clone, Debug)]
struct Ev { inv: u64, ret: u64, thread: usize, op: Op, how: &'static str }

fn apply(cur: u64, op: &Op) -> Option<u64> {
    match op {
        Op::Write(v) => Some(*v),
        Op::Read(v) => if *v == cur { Some(cur) } else { None },
        Op::Swap { old, new } => if *old == cur && cur != 0 { Some(*new) } else { None },
        Op::SwapNone => if cur == 0 { Some(0) } else { None },
        Op::Offer { mine, seen } => if cur == 0 { if seen == mine { Some(*mine) } else { None } } else if *seen == cur { Some(cur) } else { None },
    }
}
/// is there one order of the operations, compatible with real time, that a single register explains?
fn linearizable(init: u64, evs: &[Ev]) -> bool {
    let n = evs.len();
    assert!(n <= 128);
    let full: u128 = if n == 128 { !0 } else { (1 << n) - 1 };
    let mut seen: HashSet<(u128, u64)> = HashSet::new();
    let mut stack: Vec<(u128, u64)> = vec![(0, init)];
    while let Some((mask, cur)) = stack.pop() {
        if mask == full { return true }
        if !seen.insert((mask, cur)) { continue }
        let first_ret = (0..n).filter(|i| mask >> i & 1 == 0).map(|i| evs[i].ret).min().unwrap();
        for i in 0..n { if mask >> i & 1 == 0 && evs[i].inv <= first_ret { if let Some(v) = apply(cur, &evs[i].op) { stack.push((mask | 1 << i, v)) } } }
    }
    false
}
fn pool(r: &mut Rng, n: usize) -> Vec<SessionId> {
    let mut seen = HashSet::new();
    let mut v = vec![];
    while v.len() < n {
        let parts = (r.pick(&["FIX.4.2", "FIX.4.3"]).to_string(), r.pick(&["ME", "M", "A"]).to_string(), r.pick(&["PEER", "PEE", "A", "B", "PEER1"]).to_string(), if r.chance(1, 3) { Some(r.pick(&["S1", "S", "1"]).to_string()) } else { None }, if r.chance(1, 3) { Some(r.pick(&["S1", "S", "1"]).to_string()) } else { None });
        if !seen.insert(parts.clone()) { continue }
        let mut b = SessionIdBuilder::new(parts.0, parts.1, parts.2);
        if let Some(x) = parts.3 { b.sender_subid(x); }
        if let Some(x) = parts.4 { b.target_subid(x); }
        v.push(b.build().unwrap());
    }
    v
}
/// a session of its own for every registration: the stamp travels in its qualifier, the identity in the other components
fn stamped(base: &Session, id: &SessionId, stamp: u64) -> Session {
    let mut b = SessionIdBuilder::new(id.begin_string().clone(), id.sender_compid().clone(), id.target_compid().clone());
    if let Some(x) = id.sender_subid() { b.sender_subid(x.clone()); }
    if let Some(x) = id.target_subid() { b.target_subid(x.clone()); }
    b.session_qualifier(format!("v{stamp}"));
    let mut s = base.clone();
    s.session_id = b.build().unwrap();
    s
}
/// (stamp, true if the session belongs to this identity)
fn read_stamp(s: &Session, id: &SessionId) -> (u64, bool) {
    let i = &s.session_id;
    let st = i.session_qualifier().as_ref().and_then(|q| q[1..].parse().ok()).unwrap_or(u64::MAX);
    (st, i.begin_string() == id.begin_string() && i.sender_compid() == id.sender_compid() && i.target_compid() == id.target_compid() && i.sender_subid() == id.sender_subid() && i.target_subid() == id.target_subid())
}
#[derive(Clone, Copy, Debug)]
enum Plan { Insert, Get, Update, Register, Replace, List }
pub fn base_session() -> Session { Session::default() }

pub fn c27_history(c: &mut Case) -> CaseResult {
    let most = if c.rng.chance(1, 3) { 12 } else { 4 };
    let nk = 1 + c.rng.below(most);
    let ids = pool(&mut c.rng, nk);
    let nt = 2 + c.rng.below(5);
    let per = 2 + c.rng.below((110 / nt).min(24));
    let stamps = AtomicU64::new(1);
    let base = base_session();
    let mut init = vec![0u64; nk];
    let mut initial = vec![];
    for k in 0..nk { if c.rng.chance(1, 2) { init[k] = stamps.fetch_add(1, SeqCst); initial.push((ids[k].clone(), stamped(&base, &ids[k], init[k]))) } }
    let map = if initial.is_empty() && c.rng.chance(1, 2) { SessionMap::default() } else { SessionMap::from_iter(initial) };
    let hot = c.rng.chance(1, 2);
    let plans: Vec<Vec<(Plan, usize, u64)>> = (0..nt).map(|_| {
        let style = c.rng.below(4);
        (0..per).map(|_| {
            let p = match (style, c.rng.below(20)) { (0, x) if x < 14 => Plan::Get, (1, x) if x < 10 => Plan::Update, (_, x) => match x { 0..=4 => Plan::Insert, 5..=9 => Plan::Get, 10..=13 => Plan::Update, 14..=15 => Plan::Register, 16..=17 => Plan::Replace, _ => Plan::List } };
            (p, if hot && c.rng.chance(2, 3) { 0 } else { c.rng.below(nk) }, c.rng.next())
        }).collect()
    }).collect();
    let clock = AtomicU64::new(1);
    let barrier = Barrier::new(nt);
    let log: Mutex<Vec<(usize, Ev)>> = Mutex::new(vec![]);
    let fail: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|sc| for (t, plan) in plans.into_iter().enumerate() {
        let handle = if t % 2 == 0 { map.clone() } else { map.clone().clone() };
        let (ids, base, stamps, clock, barrier, log, fail) = (&ids, &base, &stamps, &clock, &barrier, &log, &fail);
        sc.spawn(move || {
            let mut mine: Vec<(usize, Ev)> = vec![];
            barrier.wait();
            let r = guard(|| for (p, k, rnd) in plan {
                let id = &ids[k];
                match rnd % 7 { 0 => std::thread::yield_now(), 1 => for _ in 0..rnd / 7 % 300 { std::hint::spin_loop() }, _ => {} }
                let dwell = || match rnd / 7 % 5 { 0 => std::thread::yield_now(), 1 => for _ in 0..rnd / 35 % 500 { std::hint::spin_loop() }, _ => {} };
                let fresh = || { let v = stamps.fetch_add(1, SeqCst); (v, stamped(base, id, v)) };
                let wrong = |what: &str| { fail.lock().unwrap().get_or_insert(format!("{what} of {id} gives a session of another identity")); };
                match p {
                    Plan::Insert => { let (v, s) = fresh(); let inv = clock.fetch_add(1, SeqCst); handle.insert_session(id.clone(), s); let ret = clock.fetch_add(1, SeqCst); mine.push((k, Ev { inv, ret, thread: t, op: Op::Write(v), how: "insert_session" })) }
                    Plan::Get => {
                        let inv = clock.fetch_add(1, SeqCst);
                        let got = handle.get_session(id).map(|s| { dwell(); read_stamp(&s, id) });
                        let ret = clock.fetch_add(1, SeqCst);
                        if matches!(got, Some((_, false))) { wrong("a lookup") }
                        mine.push((k, Ev { inv, ret, thread: t, op: Op::Read(got.map_or(0, |g| g.0)), how: "get_session" }))
                    }
                    Plan::Update => {
                        let (v, s) = fresh();
                        let mut old = None; let mut s = Some(s);
                        let inv = clock.fetch_add(1, SeqCst);
                        { let _ = handle.entry(id).and_modify(|x| { old = Some(read_stamp(x, id)); dwell(); if let Some(s) = s.take() { *x = s } }); }
                        let ret = clock.fetch_add(1, SeqCst);
                        if matches!(old, Some((_, false))) { wrong("an update") }
                        mine.push((k, Ev { inv, ret, thread: t, op: match old { Some((o, _)) => Op::Swap { old: o, new: v }, None => Op::SwapNone }, how: "entry().and_modify" }))
                    }
                    Plan::Register => {
                        let (v, s) = fresh();
                        let inv = clock.fetch_add(1, SeqCst);
                        let seen = { let x = handle.entry(id).or_insert(s); dwell(); read_stamp(&x, id) };
                        let ret = clock.fetch_add(1, SeqCst);
                        if !seen.1 { wrong("a registration") }
                        mine.push((k, Ev { inv, ret, thread: t, op: Op::Offer { mine: v, seen: seen.0 }, how: "entry().or_insert" }))
                    }
                    Plan::Replace => {
                        let (v, s) = fresh();
                        let inv = clock.fetch_add(1, SeqCst);
                        { let _ = handle.entry(id).insert(s); }
                        let ret = clock.fetch_add(1, SeqCst);
                        mine.push((k, Ev { inv, ret, thread: t, op: Op::Write(v), how: "entry().insert" }))
                    }
                    Plan::List => {
                        let inv = clock.fetch_add(1, SeqCst);
                        let all = handle.key_values_map();
                        let ret = clock.fetch_add(1, SeqCst);
                        for (key, s) in &all { match ids.iter().position(|x| x == key) { None => { fail.lock().unwrap().get_or_insert(format!("the list holds {key}, which nobody registered")); } Some(k) => if !read_stamp(s, &ids[k]).1 { wrong("the list entry") } } }
                        for (k, x) in ids.iter().enumerate() { mine.push((k, Ev { inv, ret, thread: t, op: Op::Read(all.get(x).map_or(0, |s| read_stamp(s, x).0)), how: "key_values_map" })) }
                    }
                }
            });
            if let Err(p) = r { fail.lock().unwrap().get_or_insert(format!("a registry operation panicked: {p}")); }
            log.lock().unwrap().extend(mine);
        });
    });
    let log = log.into_inner().unwrap();
    let mut by_key: Vec<Vec<Ev>> = vec![vec![]; nk];
    let nops = log.len();
    for (k, e) in log { by_key[k].push(e) }
    // after everything has ended, what any handle finds is the last word
    let last = clock.load(SeqCst) + 10;
    let listed = map.key_values_map();
    for k in 0..nk {
        let got = map.get_session(&ids[k]).map_or(0, |s| read_stamp(&s, &ids[k]).0);
        by_key[k].push(Ev { inv: last, ret: last + 1, thread: 99, op: Op::Read(got), how: "get_session at the end" });
        let l = listed.get(&ids[k]).map_or(0, |s| read_stamp(s, &ids[k]).0);
        by_key[k].push(Ev { inv: last + 2, ret: last + 3, thread: 99, op: Op::Read(l), how: "key_values_map at the end" });
    }
    if let Some(f) = fail.into_inner().unwrap() { viol!(json!({"threads": nt, "identities": nk}), "{f}") }
    let mut order: Vec<(u64, usize, usize)> = vec![];
    let (mut overlapping, mut skipped) = (0u64, 0u64);
    for k in 0..nk {
        let evs = &mut by_key[k];
        evs.sort_by_key(|e| e.inv);
        for (i, e) in evs.iter().enumerate() { order.push((e.inv, e.thread, k)); if evs[i + 1..].iter().take_while(|f| f.inv < e.ret).next().is_some() { overlapping += 1 } }
        if evs.len() > 128 { skipped += 1; continue }
        if !linearizable(init[k], evs) {
            let h: Vec<Value> = evs.iter().map(|e| json!(format!("[{}..{}] thread {} {} {:?}", e.inv, e.ret, e.thread, e.how, e.op))).collect();
            viol!(json!({"identity": ids[k].to_string(), "registered at first": init[k], "history": h}), "the operations on session {} have no order that a single map explains", ids[k]);
        }
        c.stats.count("per-identity histories explained", 1);
    }
    c.stats.count("operations", nops as u64);
    c.stats.count("operations overlapping another on the same identity", overlapping);
    c.stats.count("histories too long to check", skipped);
    order.sort();
    let mut sig = String::new();
    for (_, t, k) in &order { sig += &format!("{t}:{k} ") }
    c.stats.nontrivial(&sig);
    Ok(())
}

/// thousands of identities, each registered by one thread; all must be found, by every handle and in the list, as last registered
pub fn c27_many(c: &mut Case) -> CaseResult {
    let n = if cfg!(feature = "countalloc") { 2000 + c.rng.below(6000) } else { 500 };
    let nt = 1 + c.rng.below(6);
    let base = base_session();
    let tails = ["", "0", "A", "/1", ":1"];
    let ids: Vec<SessionId> = (0..n).map(|i| {
        let mut b = SessionIdBuilder::new(["FIX.4.2", "FIX.4.3"][i & 1].to_string(), format!("S{}{}", i / 64, tails[i % 5]), format!("T{}", i / 2 % 32));
        if i % 3 == 0 { b.sender_subid(format!("{}", i / 64)); }
        if i % 7 == 0 { b.target_subid(format!("{}", i / 64)); }
        b.build().unwrap()
    }).collect();
    let mut seen = HashSet::new();
    let ids: Vec<SessionId> = ids.into_iter().filter(|i| seen.insert(format!("{i:?}"))).collect();
    let n = ids.len();
    let kinds: Vec<u64> = (0..n).map(|_| c.rng.next()).collect();
    let initial = if c.rng.chance(1, 2) { c.rng.below(n) } else { 0 };
    let map = SessionMap::from_iter((0..initial).map(|i| (ids[i].clone(), stamped(&base, &ids[i], 1 + i as u64))).collect::<Vec<_>>());
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let want = |i: usize| -> u64 { let first = 1 + i as u64; let second = 1_000_000 + i as u64; match kinds[i] % 4 { 0 if i >= initial => first, 0 => second, 1 => second, 2 => second, _ if i < initial => first, _ => second } };
    std::thread::scope(|sc| for t in 0..nt {
        let (map, ids, base, kinds, bad) = (map.clone(), &ids, &base, &kinds, &bad);
        sc.spawn(move || {
            let r = guard(|| for i in (t..n).step_by(nt) {
                let id = &ids[i];
                let (first, second) = (stamped(base, id, 1 + i as u64), stamped(base, id, 1_000_000 + i as u64));
                match kinds[i] % 4 {
                    0 => map.insert_session(id.clone(), if i >= initial { first } else { second }),
                    1 => { map.insert_session(id.clone(), first); map.insert_session(id.clone(), second) }
                    2 => { map.entry(id).or_insert(first); map.entry(id).and_modify(|s| *s = second); }
                    _ => { map.entry(id).or_insert(second); }
                }
                if map.get_session(id).is_none() { bad.lock().unwrap().get_or_insert(format!("{id} is not found right after its registration")); }
            });
            if let Err(p) = r { bad.lock().unwrap().get_or_insert(format!("a registry operation panicked: {p}")); }
        });
    });
    let w = json!({"identities": n, "threads": nt, "registered at first": initial});
    if let Some(b) = bad.into_inner().unwrap() { viol!(w, "{b}") }
    let all = map.key_values_map();
    if all.len() != n { viol!(w, "{} sessions are listed, {n} are registered", all.len()) }
    for (i, id) in ids.iter().enumerate() {
        let got = match map.get_session(id) { Some(s) => read_stamp(&s, id), None => viol!(w, "{id}, one of {n} registered, is not found") };
        if got != (want(i), true) { viol!(w, "{id}, one of {n}: the session found is number {} (of this identity: {}), registered was {}", got.0, got.1, want(i)) }
        match all.get(id) { Some(s) if read_stamp(s, id) == (want(i), true) => {} _ => viol!(w, "{id}, one of {n}: the list does not hold the session registered") }
    }
    c.stats.count("registries of thousands", 1);
    c.stats.count("identities of them looked up", n as u64);
    c.stats.nontrivial(&format!("{n} {nt} {initial} {}", kinds[0]));
    Ok(())
}

// ---- C28 --------------------------------------------------------------------------------------------------------
/// everything a dictionary answers about these message types and tags, in a fixed order
fn describe(dd: &DataDictionary, types: &[String], tags: &[u32]) -> String {
    let sorted = |s: Option<&HashSet<u32>>| s.map(|x| x.iter().copied().collect::<BTreeSet<u32>>());
    let mut t = String::new();
    for ty in types {
        t += &format!("{ty}: {:?} req {:?}\n", sorted(dd.get_msg_fields(ty)), sorted(dd.get_msg_required_field(ty)));
        for g in tags {
            let b = [dd.is_msg_field(ty, *g), dd.is_msg_req_field(ty, *g), dd.is_msg_group(ty, *g), dd.is_header_field(*g), dd.is_trailer_field(*g)];
            t += &format!("{g}{b:?}");
            if let Some(gi) = dd.get_msg_group(ty, *g) { t += &format!("(delimiter {} order {:?} fields {:?})", gi.delimiter(), gi.data_dictionary().get_ordered_fields(), sorted(gi.data_dictionary().get_msg_fields(ty))) }
        }
    }
    for g in tags { t += &format!("{g} {:?} {:?};", dd.get_field_type(*g), dd.get_field_values(*g).map(|v| v.iter().cloned().collect::<BTreeSet<String>>())) }
    t
}
fn read_all(m: &Message) -> String {
    let mut t = format!("{:?}\n{m}\n", msg_toks(m));
    for (tag, _) in msg_toks(m) {
        t += &format!("{tag}:{:?}/{:?}", m.body().get_field::<String>(tag).ok(), m.header().get_field::<i64>(tag).ok());
        if let Some(g) = m.get_group(tag) { t += &format!(" group of {}", g.size()); for i in 0..g.size() as usize { t += &format!(" [{:?}]", iter_toks(&g[i])) } for i in [g.size() as usize, g.size() as usize + 3] { t += &match guard(|| iter_toks(&g[i]).len()) { Ok(n) => format!(" past the end: {n}"), Err(_) => " past the end: panic".into() } } }
    }
    t
}
enum Work { Parse(String), Ids(String), Build(u64), Ask(Vec<String>, Vec<u32>), Load(String, Vec<String>, Vec<u32>), Config(String, Vec<(SessionId, Vec<String>)>), Shared(usize), When(i64) }
fn perform(w: &Work, dd: &DataDictionary, shared: &[Message]) -> String {
    guard(|| match w {
        Work::Parse(t) => match Message::from_str(t, dd) { Ok(m) => read_all(&m), Err(e) => { let e = e.to_string(); e.rsplit(" - ").next().unwrap_or("").to_string() } },
        Work::Ids(t) => format!("{} {}", Message::get_session_id(t), Message::get_reverse_session_id(t)),
        Work::Build(seed) => { let mut r = Rng::new(*seed, "build", 0); let mut m = codec::free_message(&mut r); m.set_body_len(); m.set_checksum(); let a = m.to_string(); m.set_body_len(); m.set_checksum(); format!("{a}\n{}", read_all(&m)) }
        Work::Ask(ty, tags) => describe(dd, ty, tags),
        Work::Load(x, ty, tags) => match DataDictionary::from_str(x) { Ok(d) => describe(&d, ty, tags), Err(_) => "refused".into() },
        Work::Config(t, q) => { let p = Properties::from_str(t); let mut s: Vec<String> = p.session_ids().iter().map(|i| i.to_string()).collect(); s.sort(); for (id, ks) in q { for k in ks { s.push(format!("{k}={:?}", p.get_property(id, k))); s.push(format!("{:?}", p.get_optional_config::<u16>(id, k))) } } s.join(";") }
        Work::Shared(i) => { let m = &shared[*i]; format!("{}\n{}", read_all(m), m.clone()) }
        Work::When(t) => { crate::vclock::set(*t, 5_000_000); let mut m = Message::new(); m.set_sending_time(); crate::vclock::clear(); m.to_string() }
    }).unwrap_or_else(|p| format!("panic {p}"))
}
pub fn c28(o: &Opts) -> Outcome {
    let mut out = run_cases(o, o.pick(3000, 200_000), 20, o.pick(60, 600), |c| {
        let small = cfg!(miri);
        let Some(d) = (if small { small_dict(c) } else { codec::pick_dict(c) }) else { return Ok(()) };
        let r = &mut c.rng;
        let mut tags: Vec<u32> = d.r.header.order().into_iter().chain(d.r.trailer.order()).chain(d.r.msgs.values().flat_map(|s| s.order())).collect();
        tags.sort(); tags.dedup(); r.shuffle(&mut tags); tags.truncate(if small { 6 } else { 25 });
        let mut types: Vec<String> = d.r.msgs.keys().cloned().collect(); r.shuffle(&mut types); types.truncate(3); types.push("header".into()); types.push("NOPE".into());
        let mut shared = vec![];
        for _ in 0..if small { 1 } else { 3 } { if let Ok(m) = Message::from_str(&gen_msg_retry(r, &d.r).text(), &d.dd) { shared.push(m) } }
        let mut work = vec![];
        let n = if small { 6 } else { 8 + r.below(24) };
        for _ in 0..n {
            work.push(match r.below(if small { 11 } else { 14 }) {
                0..=3 => Work::Parse(gen_msg_retry(r, &d.r).text()),
                4 | 5 => Work::Parse(codec::hostile(r, &d.r)),
                6 => Work::Ids(codec::hostile(r, &d.r)),
                7 => Work::Build(r.next()),
                8 | 9 => Work::Ask(types.clone(), tags.clone()),
                10 if !shared.is_empty() => Work::Shared(r.below(shared.len())),
                11 => { let a = ADict::random(r); let tg: Vec<u32> = a.fields.iter().map(|f| f.num).take(8).collect(); let ty: Vec<String> = a.msgs.iter().map(|m| m.ty.clone()).collect(); Work::Load(a.to_xml(r), ty, tg) }
                12 => { let k = config::gen(r); let q = (0..k.sessions.len()).filter(|_| k.valid()).map(|i| (crate::net::sid_of(&k.ident(i)), vec!["socket_accept_port".to_string(), "data_dictionary".into(), "start_time".into(), "nope".into()])).collect(); Work::Config(k.text(r), q) }
                _ if cfg!(feature = "vclock") => Work::When(r.range(0, 4_000_000_000)),
                _ => Work::Build(r.next()),
            })
        }
        // sequential results, twice in different orders: what came before must not matter
        let want: Vec<String> = work.iter().map(|w| perform(w, &d.dd, &shared)).collect();
        let mut again: Vec<usize> = (0..work.len()).collect(); r.shuffle(&mut again);
        if small { again.truncate(2) }
        let tell = |i: usize, got: &str| { let at = got.bytes().zip(want[i].bytes()).position(|(a, b)| a != b).unwrap_or(0); let from = at.saturating_sub(200); json!({"work": match &work[i] { Work::Parse(t) => format!("parse {}", show(t, 3000)), Work::Ids(t) => format!("session identities of {}", show(t, 2000)), Work::Build(_) => "build a message through the API".into(), Work::Ask(..) => "dictionary answers".into(), Work::Load(x, ..) => format!("load {}", show(x, 4000)), Work::Config(t, _) => format!("configuration {}", show(t, 3000)), Work::Shared(_) => "read a shared message".into(), Work::When(t) => format!("set_sending_time at {t}") },
            "sequential": show(&want[i].chars().skip(from).collect::<String>(), 1500), "otherwise": show(&got.chars().skip(from).collect::<String>(), 1500), "dictionary": show(&d.xml, 4000)}) };
        for i in &again { let g = perform(&work[*i], &d.dd, &shared); if g != want[*i] { viol!(tell(*i, &g), "the same work gives another result after other work was done") } }
        let nt = if small { 2 } else { 2 + r.below(6) };
        let rounds = if small { 1 } else { 1 + r.below(4) };
        let barrier = Barrier::new(nt);
        let bad: Mutex<Option<(usize, String)>> = Mutex::new(None);
        let done = AtomicU64::new(0);
        let trace: Mutex<Vec<u8>> = Mutex::new(vec![]);
        let seeds: Vec<u64> = (0..nt).map(|_| r.next()).collect();
        std::thread::scope(|sc| for (t, seed) in seeds.into_iter().enumerate() {
            let (d, work, shared, want, barrier, bad, done, trace) = (&d.dd, &work, &shared, &want, &barrier, &bad, &done, &trace);
            sc.spawn(move || {
                let mut r = Rng::new(seed, "racer", t as u64);
                let own = if r.chance(1, 3) { Some(d.clone()) } else { None };
                let dd = own.as_ref().unwrap_or(d);
                barrier.wait();
                for _ in 0..rounds {
                    let mut order: Vec<usize> = (0..work.len()).collect(); r.shuffle(&mut order);
                    for i in order {
                        let g = perform(&work[i], dd, shared);
                        done.fetch_add(1, Relaxed);
                        if let Ok(mut x) = trace.try_lock() { x.push(t as u8) }
                        if g != want[i] { bad.lock().unwrap().get_or_insert((i, g)); return }
                    }
                }
            });
        });
        if let Some((i, g)) = bad.into_inner().unwrap() { viol!(tell(i, &g), "concurrent work gives another result than sequential work") }
        c.stats.count("threads", nt as u64);
        c.stats.count("results compared", done.load(SeqCst) + again.len() as u64);
        let t = trace.into_inner().unwrap();
        c.stats.count("switches between threads observed", t.windows(2).filter(|w| w[0] != w[1]).count() as u64);
        c.stats.nontrivial(&format!("{:x} {:?}", hash_str(&want.concat()), t));
        Ok(())
    });
    out.rule = "random work (parsing, reading, building, dictionary answers, dictionary and configuration loading, identities, timestamps) done sequentially twice and then by 2-7 threads at once on shared dictionaries and messages, every result compared; distinct = different work and order in which threads finished items".into();
    out
}
/// a dictionary small enough for an interpreter
fn small_dict(c: &mut Case) -> Option<codec::D> {
    for _ in 0..200 {
        let a = ADict::random(&mut c.rng);
        let xml = a.to_xml(&mut c.rng);
        if xml.len() > 4500 { continue }
        if let Ok(Ok(dd)) = guard(|| DataDictionary::from_str(&xml)) { return Some(codec::D::Own(Box::new(codec::Dict { dd, r: a.resolve(), xml }))) }
    }
    None
}
#[allow(unused)]
fn unused(_: HashMap<u8, u8>, _: Arc<u8>) {}

// ---- C28 inside the interpreter: one small workload, every schedule and mutation chosen by the seed ---------------
const TINY: &str = r#"<fix type='FIX' major='4' minor='3'><header><field name='BeginString' required='Y'/><field name='BodyLength' required='Y'/><field name='MsgType' required='Y'/><field name='Sender' required='Y'/><field name='Target' required='Y'/></header><trailer><field name='CheckSum' required='Y'/></trailer><messages><message name='Order' msgtype='D' msgcat='app'><field name='Text' required='N'/><component name='Parts' required='N'/></message></messages><components><component name='Parts'><group name='NoA' required='N'><field name='A1' required='Y'/><group name='NoB' required='N'><field name='B1' required='Y'/></group></group></component></components><fields><field number='8' name='BeginString' type='STRING'/><field number='9' name='BodyLength' type='LENGTH'/><field number='35' name='MsgType' type='STRING'><value enum='D' description='ORDER'/></field><field number='49' name='Sender' type='STRING'/><field number='56' name='Target' type='STRING'/><field number='58' name='Text' type='STRING'/><field number='10' name='CheckSum' type='STRING'/><field number='73' name='NoA' type='NUMINGROUP'/><field number='11' name='A1' type='STRING'/><field number='78' name='NoB' type='NUMINGROUP'/><field number='79' name='B1' type='STRING'/></fields></fix>"#;
pub fn tiny(seed: u64) -> i32 {
    let dd = DataDictionary::from_str(TINY).expect("tiny dictionary");
    let mut r = Rng::new(seed, "tiny", 0);
    let head = "8=FIX.4.3\u{1}9=5\u{1}35=D\u{1}49=A\u{1}56=B\u{1}";
    let mut texts: Vec<String> = ["58=x\u{1}", "", "73=2\u{1}11=a\u{1}78=1\u{1}79=q\u{1}11=\u{e9}b\u{1}58=last\u{1}", "73=3\u{1}11=a\u{1}", "58=\u{1}"].iter().map(|b| format!("{head}{b}10=001\u{1}")).collect();
    for _ in 0..5 { // cut, spliced and damaged ones
        let mut s = r.pick(&texts).clone();
        let at = |r: &mut Rng, s: &str| { let mut i = r.below(s.len() + 1); while !s.is_char_boundary(i) { i -= 1 } i };
        match r.below(4) { 0 => { let i = at(&mut r, &s); s.truncate(i) } 1 => { let i = at(&mut r, &s); s = s[i..].into() } 2 => { let i = at(&mut r, &s); s.insert_str(i, *r.pick(&["\u{1}", "=", "\u{e9}", "73=9\u{1}", "10=1\u{1}"])) } _ => { let i = at(&mut r, &s); let j = at(&mut r, &s); s = format!("{}{}", &s[..i], &s[j..]) } }
        texts.push(s);
    }
    let m0 = Message::from_str(&texts[2], &dd).ok();
    let shared: Vec<Message> = m0.into_iter().collect();
    let mut work: Vec<Work> = texts.iter().map(|t| Work::Parse(t.clone())).collect();
    for _ in 0..2 { work.push(Work::Ids(r.pick(&texts).clone())) }
    work.push(Work::Build(r.next()));
    if !shared.is_empty() { work.push(Work::Shared(0)) }
    work.push(Work::Ask(vec!["D".into(), "header".into(), "X".into()], vec![8, 35, 73, 78, 58, 1]));
    let id = SessionIdBuilder::new("FIX.4.3", "A", "B").build().unwrap();
    work.push(Work::Config("[Default]\nconnection_type=acceptor\nbegin_string=FIX.4.3\n[Session]\nsender_comp_id=A\ntarget_comp_id=B\nsocket_accept_port=70\n".into(), vec![(id, vec!["socket_accept_port".into(), "none".into()])]));
    let want: Vec<String> = work.iter().map(|w| perform(w, &dd, &shared)).collect();
    let bad = AtomicU64::new(0);
    std::thread::scope(|sc| for t in 0..2u64 {
        let (work, want, dd, shared, bad) = (&work, &want, &dd, &shared, &bad);
        sc.spawn(move || {
            let mut r = Rng::new(seed, "tiny", 1 + t);
            let mut order: Vec<usize> = (0..work.len()).collect(); r.shuffle(&mut order);
            for i in order { if perform(&work[i], dd, shared) != want[i] { eprintln!("different result of item {i}"); bad.fetch_add(1, SeqCst); } }
        });
    });
    println!("tiny: {} items interpreted in 2 threads", work.len());
    if bad.load(SeqCst) > 0 { 1 } else { 0 }
}
