//! C21..C26 and C29: scenarios with the engine, and the parent that runs them in child processes.
use crate::absmsg::{gen_msg_retry, render, value, AMsg};
use crate::codec;
use crate::ident::Ident;
use crate::net::*;
use crate::report::*;
use crate::rng::Rng;
use fix_rs::verif::{DataDictionary, Message, Properties, Session, SessionId, SessionIdBuilder};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::io::{Read, Write};
use std::net::Shutdown;
use std::str::FromStr;
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn nap(r: &mut Rng, max_us: usize) { if max_us > 0 { std::thread::sleep(Duration::from_micros(r.below(max_us) as u64)) } }
fn grow(r: &mut Rng, m: &mut AMsg, mode: usize) { // some messages are larger than any buffer on the way
    if let Some(n) = m.body.iter_mut().find(|n| n.group.is_none() && n.tag != ID) { let k = *r.pick(&[1100usize, 5000, 70_000, 200_000, if [0, 4, 5].contains(&mode) { 2_500_000 } else { 200_000 }]); n.value = format!("{}{}", n.value, "y".repeat(k)); }
    seal(m);
}

// ---- C21 ------------------------------------------------------------------------------------------------------
/// a connection that has been in use for long: more messages than any small counter holds
fn long_haul(c: &mut Ctx) -> Res {
    let np = 1 + c.rng.below(2);
    let spec = c.spec(2, np, 1);
    let e = Engine::start(c, spec)?;
    let mut inb = Inbound::default();
    let n = 66_000 + c.rng.below(2000);
    let mut plans = vec![];
    for s in 0..2usize {
        let conn = inb.conn();
        let (d, id) = (&e.spec.dicts[0].r, &e.spec.sess[s].id);
        let small: AMsg = (0..40).map(|_| peer_msg(&mut c.rng, d, id, "0")).min_by_key(|m| m.text().len()).unwrap();
        let mut bytes = vec![];
        for i in 0..if s == 0 { n } else { 200 } {
            let uid = format!("L{s}-{i}");
            let mut m = small.clone();
            m.body.iter_mut().find(|x| x.tag == ID).unwrap().value = uid.clone();
            seal(&mut m);
            bytes.extend_from_slice(m.text().as_bytes());
            inb.add(conn, uid, s, m);
        }
        plans.push((e.spec.sess[s].port, bytes, Rng::new(c.rng.next(), "send", s as u64)));
    }
    let total = inb.total() as u64;
    let fails: Mutex<Vec<String>> = Mutex::new(vec![]);
    let mut peers: Vec<Peer> = vec![];
    for p in &plans { peers.push(Peer::connect(p.0, None)?) }
    let res = std::thread::scope(|sc| {
        for ((_, bytes, mut r), p) in plans.into_iter().zip(&peers) {
            let (mut st, fails) = (p.s.try_clone().expect("clone"), &fails);
            sc.spawn(move || if let Err(x) = send_split(&mut st, &bytes, &mut r, 4) { fails.lock().unwrap().push(format!("sending failed: {x}")) });
        }
        let w = wait_for("not every message of a long-lived connection was delivered", &|| e.delivered(), &|| e.delivered() >= total || !fails.lock().unwrap().is_empty());
        for p in &peers { let _ = p.s.shutdown(std::net::Shutdown::Both); }
        w
    });
    let next = inb.check(&e, &mut c.stats)?;
    if let Some(f) = fails.into_inner().unwrap().first() { return badw(f.clone(), e.wit()) }
    if res.is_err() { return annotate(res, &format!("{} of {total}", next.iter().sum::<usize>()), e.wit()) }
    if e.delivered() != total { return badw("more messages were delivered than sent", e.wit()) }
    c.stats.count("connections that carried more than 65,536 messages", 1);
    Ok(())
}
/// two engines of one process that serve the same identities on ports of their own, by dictionaries of their own
fn twins(c: &mut Ctx) -> Res {
    let (ns, np) = (1 + c.rng.below(4), 1 + c.rng.below(2));
    let spec = c.spec(ns.max(np), np, 2);
    let ns = spec.sess.len();
    let other = { let k = 1 + c.rng.below(2); c.twin(&spec, k.min(ns), 2) };
    let es = vec![Engine::start(c, spec)?, Engine::start(c, other)?];
    let mut inbs = vec![Inbound::default(), Inbound::default()];
    let mut peers: Vec<(usize, usize, Peer, usize)> = vec![]; // engine, session, peer, connection
    let mut order: Vec<(usize, usize)> = (0..2).flat_map(|k| (0..ns).map(move |s| (k, s))).collect();
    c.rng.shuffle(&mut order);
    for (k, s) in order { let (p, conn) = join(c, &es[k], &mut inbs[k], s, &format!("{k}hello-{s}"), None)?; peers.push((k, s, p, conn)); }
    let maps: Vec<_> = es.iter().map(|e| e.map()).collect();
    // inbound: every peer sends on its connection
    let mut writes = vec![];
    for (k, s, p, conn) in &peers {
        let mut bytes = vec![];
        for i in 0..1 + c.rng.below(30) { let uid = format!("{k}c{conn}-{i}"); let m = peer_msg(&mut c.rng, &es[*k].spec.dicts[es[*k].spec.sess[*s].dict].r, &es[*k].spec.sess[*s].id, &uid); bytes.extend_from_slice(m.text().as_bytes()); inbs[*k].add(*conn, uid, *s, m); }
        writes.push((p.s.try_clone().expect("clone"), bytes, Rng::new(c.rng.next(), "send", *conn as u64)));
    }
    // outbound: threads of which each sends through both engines
    let mut outs: Vec<Outbound> = peers.iter().map(|_| Outbound::default()).collect();
    let mut plans = vec![];
    for t in 0..1 + c.rng.below(4) {
        let mut plan = vec![];
        for i in 0..1 + c.rng.below(60) {
            let at = c.rng.below(peers.len());
            let (k, s) = (peers[at].0, peers[at].1);
            let m = app_msg(&mut c.rng, &es[k].spec.sess[s].id, &format!("{k}t{t}-{i}"), 0);
            outs[at].add(t, m.to_string());
            plan.push((k, es[k].spec.sess[s].sid.clone(), m));
        }
        plans.push(plan);
    }
    let totals: Vec<u64> = inbs.iter().map(|i| i.total() as u64).collect();
    let panics: Mutex<Vec<String>> = Mutex::new(vec![]);
    let res = std::thread::scope(|sc| {
        for (mut st, bytes, mut r) in writes { let panics = &panics; let mode = 2 + r.below(4); sc.spawn(move || if let Err(x) = send_split(&mut st, &bytes, &mut r, mode) { panics.lock().unwrap().push(format!("a well-behaved peer cannot send: {x}")) }); }
        for plan in plans { let (maps, panics) = (&maps, &panics); sc.spawn(move || for (k, sid, m) in plan { if let Err(p) = guard(|| Session::sync_send_to_target(&sid, &maps[k], m)) { panics.lock().unwrap().push(format!("sending panicked: {p}")); return } }); }
        let all = || es.iter().map(|e| e.delivered()).sum::<u64>();
        wait_for("two engines in one process: not every message was delivered", &all, &|| (0..2).all(|k| es[k].delivered() >= totals[k]) || !panics.lock().unwrap().is_empty())
    });
    let wit = json!([es[0].wit(), es[1].wit()]);
    for k in 0..2 { match inbs[k].check(&es[k], &mut c.stats) { Ok(_) => {} x => return annotate(x.map(|_| ()), "two engines in one process", wit) } }
    if let Some(p) = panics.lock().unwrap().first() { return badw(p.clone(), wit) }
    if res.is_err() { return res }
    let mut trace = String::new();
    for (at, (k, s, p, _)) in peers.iter().enumerate() {
        let who = format!("two engines in one process: peer of {} of engine {k}", es[*k].spec.sess[*s].sid);
        let got = wait_for(&format!("{who} did not receive everything sent"), &|| p.got(), &|| p.got() >= outs[at].bytes || p.lost().is_some());
        outs[at].check(&p.text(), &who, false, &mut trace)?;
        if let Some(l) = p.lost() { return badw(format!("{who}: connection ended ({l})"), wit) }
        got?;
    }
    std::thread::sleep(Duration::from_millis(10));
    for (at, (k, s, p, _)) in peers.iter().enumerate() { let n = outs[at].check(&p.text(), &format!("two engines in one process: peer of {} of engine {k}", es[*k].spec.sess[*s].sid), true, &mut String::new())?; c.stats.count("messages received and compared", n) }
    for k in 0..2 { if es[k].delivered() != totals[k] { return badw("two engines in one process: more messages were delivered than sent", wit) } }
    c.stats.count("pairs of engines in one process", 1);
    c.stats.nontrivial(&format!("twins {totals:?} {trace}"));
    Ok(())
}
fn c21(c: &mut Ctx) -> Res {
    if c.idx % 200 == 9 { return long_haul(c) }
    if c.idx % 24 == 13 { return twins(c) }
    let (ns, np, nd) = (1 + c.rng.below(6), 1 + c.rng.below(3), 1 + c.rng.below(3));
    let spec = c.spec(ns.max(np), np, nd);
    let e = Engine::start(c, spec)?;
    let slow = c.rng.chance(1, 3);
    if slow { e.app.delay_us.store(*c.rng.pick(&[300, 2000, 5000]), Relaxed) }
    let mut inb = Inbound::default();
    let nconn = 1 + c.rng.below(8);
    let per = if slow { 5 + c.rng.below(25) } else { *c.rng.pick(&[3, 20, 60, 150]) };
    let mut plans = vec![];
    for k in 0..nconn {
        let conn = inb.conn();
        let port = e.spec.sess[c.rng.below(e.spec.sess.len())].port;
        let mine: Vec<usize> = (0..e.spec.sess.len()).filter(|s| e.spec.sess[*s].port == port).collect();
        let many = c.rng.chance(1, 3); // a connection carrying several of the port's sessions
        let one = *c.rng.pick(&mine);
        let mut bytes = vec![];
        let mode = c.rng.below(6);
        let n = if mode == 1 { per.min(12) } else { per };
        for i in 0..n {
            let s = if many { *c.rng.pick(&mine) } else { one };
            let uid = format!("c{k}-{i}");
            let mut m = peer_msg(&mut c.rng, &e.spec.dicts[e.spec.sess[s].dict].r, &e.spec.sess[s].id, &uid);
            if mode != 1 && c.rng.chance(1, 60) { grow(&mut c.rng, &mut m, mode); c.stats.count("messages over 1 kB appended to", 1) }
            bytes.extend_from_slice(m.text().as_bytes());
            inb.add(conn, uid, s, m);
            if c.rng.chance(1, 25) { // the same message once more, right away or later
                for _ in 0..1 + c.rng.below(2) { let all = &inb.conns[conn]; let (u, s, m) = if c.rng.chance(1, 2) { all.last().unwrap() } else { c.rng.pick(all) }.clone(); bytes.extend_from_slice(m.text().as_bytes()); inb.add(conn, u, s, m); c.stats.count("messages repeated", 1) }
            }
        }
        c.stats.count("bytes sent", bytes.len() as u64);
        plans.push((conn, port, bytes, mode, c.rng.chance(1, 3), Rng::new(c.rng.next(), "send", k as u64)));
    }
    c.stats.count("connections", nconn as u64);
    let total = inb.total() as u64;
    let fails: Mutex<Vec<String>> = Mutex::new(vec![]);
    let res = std::thread::scope(|sc| {
        let done = Arc::new(AtomicBool::new(false));
        let mut hs = vec![];
        for (_, port, bytes, mode, close, mut r) in plans {
            let (done, fails) = (done.clone(), &fails);
            hs.push(sc.spawn(move || -> Res {
                nap(&mut r, 4000);
                let mut p = Peer::connect(port, None)?;
                if let Err(x) = send_split(&mut p.s, &bytes, &mut r, mode) { fails.lock().unwrap().push(format!("sending failed: {x}, {:?}", p.lost())) }
                if close { p.close(); return Ok(()) }
                while !done.load(Relaxed) { std::thread::sleep(Duration::from_millis(5)) }
                drop(p);
                Ok(())
            }));
        }
        let w = wait_for("not every message was delivered", &|| e.delivered(), &|| e.delivered() >= total || !fails.lock().unwrap().is_empty());
        done.store(true, SeqCst);
        let mut first = w;
        for h in hs { match h.join() { Ok(r) => if first.is_ok() { first = r }, Err(_) => first = Err(Fail::Suspect("a monitor thread panicked".into())) } }
        first
    });
    let next = inb.check(&e, &mut c.stats)?;
    if let Some(f) = fails.into_inner().unwrap().first() { return badw(f.clone(), e.wit()) }
    if res.is_err() { let miss: Vec<String> = next.iter().enumerate().filter(|(k, n)| **n < inb.conns[*k].len()).map(|(k, n)| format!("connection {k}: {n} of {}", inb.conns[k].len())).collect(); return annotate(res, &miss.join(", "), e.wit()) }
    std::thread::sleep(Duration::from_millis(20)); // anything delivered twice shows up now
    inb.check(&e, &mut c.stats)?;
    if e.delivered() != total { return badw("more messages were delivered than sent", e.wit()) }
    Ok(())
}
fn annotate(r: Res, more: &str, w: Value) -> Res { match r { Err(Fail::Violation(a, _)) => badw(format!("{a}; {more}"), w), Err(Fail::Suspect(a)) => Err(Fail::Suspect(format!("{a}; {more}"))), x => x } }

/// connects a peer and makes it known to the engine by one delivered message
fn join(c: &mut Ctx, e: &Engine, inb: &mut Inbound, s: usize, uid: &str, rcvbuf: Option<i32>) -> Res<(Peer, usize)> {
    let mut p = Peer::connect(e.spec.sess[s].port, rcvbuf)?;
    let conn = inb.conn();
    hello(c, e, inb, &mut p, conn, s, uid)?;
    Ok((p, conn))
}
fn hello(c: &mut Ctx, e: &Engine, inb: &mut Inbound, p: &mut Peer, conn: usize, s: usize, uid: &str) -> Res {
    let m = peer_msg(&mut c.rng, &e.spec.dicts[e.spec.sess[s].dict].r, &e.spec.sess[s].id, uid);
    let t = m.text();
    inb.add(conn, uid.to_string(), s, m);
    if let Err(x) = p.s.write_all(t.as_bytes()) { return badw(format!("a connection that did nothing wrong failed: {x}; {:?}", p.lost()), e.wit()) }
    let seen = |e: &Engine| e.app.log.lock().unwrap().iter().any(|d| d.uid.as_deref() == Some(uid));
    match wait_for("first message of a peer not delivered", &|| e.delivered(), &|| seen(e) || p.lost().is_some()) { Ok(()) => {} x => return annotate(x, uid, e.wit()) }
    if !seen(e) && p.lost().is_some() { return badw(format!("the connection of a well-behaved peer was ended: {}", p.lost().unwrap()), e.wit()) }
    Ok(())
}

// ---- C22 ------------------------------------------------------------------------------------------------------
fn c22(c: &mut Ctx) -> Res {
    if c.idx % 40 == 13 { return twins(c) }
    let (ns, np) = (1 + c.rng.below(4), 1 + c.rng.below(2));
    let spec = c.spec(ns.max(np), np, 1);
    let e = Engine::start(c, spec)?;
    let ns = e.spec.sess.len();
    let mut inb = Inbound::default();
    let mut peers: Vec<(Peer, usize)> = vec![];
    let mut home: Vec<Vec<usize>> = vec![]; // session -> peers
    let haul = c.idx % 250 == 11; // more messages than any small counter holds
    let big = !haul && c.rng.chance(1, 4);
    // messages that do not fit into any socket buffer: every write of them is a partial one
    let huge = if haul { 0 } else if c.rng.chance(1, 10) { *c.rng.pick(&[100_000usize, 400_000, 1_000_000, 4_000_000]) } else { 0 };
    let per = if haul { c.stats.count("bursts of more than 65,536 messages", 1); 66_000 + c.rng.below(2000) } else if huge > 0 { 1 + c.rng.below((6_000_000 / huge).clamp(1, 12)) } else if big { 100 + c.rng.below(200) } else if c.rng.chance(1, 30) { 12_000 } else { *c.rng.pick(&[1usize, 10, 40, 200, 1500]) };
    for s in 0..ns {
        // one connection may carry several sessions
        let mates: Vec<usize> = (0..s).filter(|t| e.spec.sess[*t].port == e.spec.sess[s].port).collect();
        if !mates.is_empty() && c.rng.chance(1, 3) {
            let k = home[*c.rng.pick(&mates)][0];
            home.push(vec![k]);
            let (paused, slow) = { let rx = &peers[k].0.rx; (rx.pause.swap(false, SeqCst), rx.slow_us.swap(0, SeqCst)) };
            let conn = peers[k].1;
            hello(c, &e, &mut inb, &mut peers[k].0, conn, s, &format!("hello-{s}"))?;
            peers[k].0.rx.pause.store(paused, SeqCst); peers[k].0.rx.slow_us.store(slow, SeqCst);
            c.stats.count("sessions sharing a connection", 1);
            continue;
        }
        // a small receive buffer makes the engine's writes block, at the price of throughput
        let rcv = if c.rng.chance(1, 3) { Some(if big || huge > 0 || per > 300 { 65536 } else { 4096 }) } else { None };
        let (p, conn) = join(c, &e, &mut inb, s, &format!("hello-{s}"), rcv)?;
        match c.rng.below(4) { 0 => p.rx.pause.store(true, SeqCst), 1 if huge == 0 && !haul => p.rx.slow_us.store(200, SeqCst), _ => {} }
        home.push(vec![peers.len()]);
        peers.push((p, conn));
    }
    // some sessions have several peers at once, on connections of their own or on one that carries another session
    if !haul && c.rng.chance(1, 3) {
        for i in 0..1 + c.rng.below(3) {
            let s = c.rng.below(ns);
            let others: Vec<usize> = (0..ns).filter(|t| e.spec.sess[*t].port == e.spec.sess[s].port).flat_map(|t| home[t].clone()).filter(|k| !home[s].contains(k) && !peers[*k].0.rx.pause.load(SeqCst)).collect();
            let k = if !others.is_empty() && c.rng.chance(1, 3) {
                let k = *c.rng.pick(&others); let conn = peers[k].1;
                hello(c, &e, &mut inb, &mut peers[k].0, conn, s, &format!("also-{i}-{s}"))?; k
            } else {
                let rcv = if c.rng.chance(1, 3) { Some(65536) } else { None };
                let (p, conn) = join(c, &e, &mut inb, s, &format!("more-{i}-{s}"), rcv)?;
                if c.rng.chance(1, 4) { p.rx.pause.store(true, SeqCst) }
                peers.push((p, conn)); peers.len() - 1
            };
            home[s].push(k);
            c.stats.count("sessions with several peers", 1);
        }
    }
    let map = e.map();
    let nt = if haul { 1 } else if per > 10_000 || huge > 0 { 1 + c.rng.below(2) } else { 1 + c.rng.below(6) };
    let mut outs: Vec<Outbound> = peers.iter().map(|_| Outbound::default()).collect(); // by connection; order is owed per sender and session
    let mut plans: Vec<Vec<(usize, Message)>> = vec![];
    for t in 0..nt {
        let focus = if haul || c.rng.chance(1, 2) { Some(c.rng.below(ns)) } else { None };
        let mut plan: Vec<(usize, Message)> = vec![];
        for i in 0..per {
            let s = focus.unwrap_or_else(|| c.rng.below(ns));
            let size = if huge > 0 && !c.rng.chance(1, 3) { c.stats.count("messages larger than socket buffers", 1); huge / 2 + c.rng.below(huge) } else if big { 500 + i * 17 % 4000 } else { 0 };
            let m = app_msg(&mut c.rng, &e.spec.sess[s].id, &format!("t{t}-{i}"), size);
            for k in &home[s] { outs[*k].add(t * 64 + s, m.to_string()) }
            plan.push((s, m));
            if c.rng.chance(1, 30) { // the same message once more, right away or later
                let (s, m) = if c.rng.chance(1, 2) { plan.last().unwrap() } else { c.rng.pick(&plan) }.clone();
                for k in &home[s] { outs[*k].add(t * 64 + s, m.to_string()) }
                plan.push((s, m)); c.stats.count("messages sent again", 1);
            }
        }
        plans.push(plan);
    }
    // replies from inside the callback run at the same time as one more sender per session
    let echo = if c.rng.chance(1, 2) { 1 + c.rng.below(40) } else { 0 };
    let mut echo_bytes: Vec<Vec<u8>> = vec![vec![]; peers.len()];
    let base = inb.total() as u64;
    if echo > 0 {
        e.app.reply.store(true, SeqCst);
        for i in 0..echo { for s in 0..ns { let uid = format!("e{s}-{i}"); let m = peer_msg(&mut c.rng, &e.spec.dicts[e.spec.sess[s].dict].r, &e.spec.sess[s].id, &uid); let k = *c.rng.pick(&home[s]); echo_bytes[k].extend_from_slice(m.text().as_bytes()); inb.add(peers[k].1, uid, s, m); } }
    }
    let barrier = std::sync::Barrier::new(nt + 1);
    let panics: Mutex<Vec<String>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for (t, plan) in plans.into_iter().enumerate() {
            let (map, e, b, panics) = (map.clone(), &e, &barrier, &panics);
            let mut r = Rng::new(c.rng.next(), "sender", t as u64);
            let pace = if per > 300 { 0 } else { *r.pick(&[0usize, 0, 50, 400]) };
            sc.spawn(move || {
                b.wait();
                for (s, m) in plan {
                    if let Err(p) = guard(|| Session::sync_send_to_target(&e.spec.sess[s].sid, &map, m)) { panics.lock().unwrap().push(p); return }
                    match r.below(20) { 0 => std::thread::yield_now(), 1 => nap(&mut r, pace), _ => {} }
                }
            });
        }
        barrier.wait();
        if echo > 0 { for k in 0..peers.len() { let mut st = peers[k].0.s.try_clone().unwrap(); let b = std::mem::take(&mut echo_bytes[k]); let mut r = Rng::new(c.rng.next(), "echo", k as u64); sc.spawn(move || { let _ = send_split(&mut st, &b, &mut r, 5); }); } }
    });
    if let Some(p) = panics.lock().unwrap().first() { return badw(format!("sending to a session with a connected peer panicked: {p}"), e.wit()) }
    if echo > 0 {
        let want = base + (echo * ns) as u64;
        wait_for("inbound messages not delivered while sending", &|| e.delivered(), &|| e.delivered() >= want)?;
        wait_for("replies not made", &|| e.app.replies.lock().unwrap().len() as u64, &|| e.app.replies.lock().unwrap().len() >= echo * ns)?;
        e.app.reply.store(false, SeqCst);
        for (sid, _, bytes) in e.app.replies.lock().unwrap().iter() { let s = e.spec.sess.iter().position(|x| x.sid == *sid).unwrap(); for k in &home[s] { outs[*k].add(900 * 64 + s, bytes.clone()) } }
        // the last reply has been recorded but is possibly still being handed over: it comes before the final message only per sender
        std::thread::sleep(Duration::from_millis(30));
    }
    for (p, _) in &peers { p.rx.pause.store(false, SeqCst) }
    for s in 0..ns { let m = app_msg(&mut c.rng, &e.spec.sess[s].id, &format!("last-{s}"), 0); for k in &home[s] { outs[*k].add(999 * 64 + s, m.to_string()) } if let Err(p) = guard(|| Session::sync_send_to_target(&e.spec.sess[s].sid, &map, m)) { return badw(format!("sending to a session with a connected peer panicked: {p}"), e.wit()) } }
    let who = |k: usize| format!("peer of {}", (0..ns).filter(|s| home[*s].contains(&k)).map(|s| e.spec.sess[s].sid.to_string()).collect::<Vec<_>>().join(" and "));
    let mut res = Ok(());
    for k in 0..peers.len() {
        let p = &peers[k].0;
        res = wait_for(&format!("{} did not receive everything sent", who(k)), &|| p.got(), &|| p.got() >= outs[k].bytes || p.lost().is_some());
        if res.is_err() { break }
    }
    std::thread::sleep(Duration::from_millis(10));
    let mut order = String::new();
    for k in 0..peers.len() {
        let p = &peers[k].0;
        let text = p.text();
        let who = who(k);
        let n = match outs[k].check(&text, &who, false, &mut order) { Ok(n) => n, Err(Fail::Violation(a, b)) => return badw(a, json!({"detail": b, "engine": e.wit()})), Err(x) => return Err(x) };
        if let Some(l) = p.lost() { return badw(format!("{who}: connection ended ({l}) after {n} messages"), e.wit()) }
        if res.is_ok() { outs[k].check(&text, &who, true, &mut String::new())?; }
        c.stats.count("messages received and compared", n);
    }
    if res.is_err() { return annotate(res, "", e.wit()) }
    c.stats.count("sender threads", nt as u64 + if echo > 0 { 1 } else { 0 });
    c.stats.nontrivial(&format!("{} workers, arrivals by sender: {order}", e.workers));
    inb.check(&e, &mut Stats::default())?;
    Ok(())
}

// ---- C23 ------------------------------------------------------------------------------------------------------
struct Live { p: Peer, sess: Option<usize>, conn: usize, tag: String }
fn c23(c: &mut Ctx) -> Res {
    if c.idx % 24 == 13 { return twins(c) }
    let (ns, np) = if c.idx % 40 == 7 { (20 + c.rng.below(100), 1 + c.rng.below(12)) } else { (2 + c.rng.below(5), 1 + c.rng.below(2)) };
    if ns >= 20 { c.stats.count("scenarios with many sessions", 1) }
    let spec = c.spec(ns, np, 1);
    let e = Engine::start(c, spec)?;
    let mut inb = Inbound::default();
    let mut live: Vec<Live> = vec![];
    let mut seen: Vec<(String, Option<usize>, Arc<Rx>)> = vec![]; // every connection ever: name, identity, what it received
    let mut uid = 0;
    let owner: Arc<Mutex<HashMap<String, usize>>> = Arc::new(Mutex::new(HashMap::new())); // bytes -> session
    let reply = c.rng.chance(1, 2);
    e.app.reply.store(reply, SeqCst);
    // one session is joined at once so that the application can send
    let (p, conn) = join(c, &e, &mut inb, 0, "u0", None)?;
    seen.push(("first".into(), Some(0), p.rx.clone()));
    live.push(Live { p, sess: Some(0), conn, tag: "first".into() });
    let map = e.map();
    let stop = Arc::new(AtomicBool::new(false));
    let sids: Vec<(SessionId, Ident)> = e.spec.sess.iter().map(|s| (s.sid.clone(), s.id.clone())).collect();
    let sent = Arc::new(std::sync::atomic::AtomicU64::new(0));
    let mut hs = vec![];
    for t in 0..1 + c.rng.below(3) {
        let (map, stop, sids, owner, sent) = (map.clone(), stop.clone(), sids.clone(), owner.clone(), sent.clone());
        let mut r = Rng::new(c.rng.next(), "c23", t as u64);
        hs.push(std::thread::spawn(move || {
            let mut i = 0;
            while !stop.load(Relaxed) && i < 4000 {
                let s = r.below(sids.len());
                let m = app_msg(&mut r, &sids[s].1, &format!("x{t}-{i}"), 0);
                owner.lock().unwrap().insert(m.to_string(), s);
                let _ = guard(|| Session::sync_send_to_target(&sids[s].0, &map, m)); // a session without a peer: C24's business
                sent.fetch_add(1, Relaxed);
                i += 1;
                if r.chance(1, 3) { nap(&mut r, 1500) }
            }
        }));
    }
    let steps = 10 + c.rng.below(25);
    let mut r = Rng::new(c.rng.next(), "steps", 0);
    let result = (|| -> Res {
        for k in 0..steps {
            match r.below(10) {
                0..=3 if live.len() < 12 => { // connect a new peer, for a session without one
                    let more = r.chance(1, 4);
                    let free: Vec<usize> = (0..ns).filter(|s| more || !live.iter().any(|l| l.sess == Some(*s))).collect();
                    if free.is_empty() { continue }
                    let s = *r.pick(&free);
                    let p = Peer::connect(e.spec.sess[s].port, None)?;
                    let tag = format!("connection {k} for session {s}");
                    let conn = inb.conn();
                    nap(&mut r, 4000); // not identified yet, traffic is running
                    seen.push((tag.clone(), None, p.rx.clone()));
                    let at = seen.len() - 1;
                    if !p.rx.data.lock().unwrap().is_empty() { return Ok(()) } // judged below
                    let mut l = Live { p, sess: Some(s), conn, tag };
                    uid += 1;
                    seen[at].1 = Some(s);
                    hello(c, &e, &mut inb, &mut l.p, conn, s, &format!("u{uid}"))?;
                    live.push(l);
                }
                4 | 5 => { // a connection that never identifies itself
                    let s = r.below(ns);
                    let mut p = Peer::connect(e.spec.sess[s].port, None)?;
                    let t = match r.below(5) {
                        0 => vec![],
                        1 => { let m = peer_msg(&mut c.rng, &e.spec.dicts[0].r, &e.spec.sess[s].id, "never").text(); let cut = m.rfind("\u{1}10=").unwrap() + 1; m.as_bytes()[..r.below(cut)].to_vec() } // unfinished
                        2 => { let mut id = e.spec.sess[s].id.clone(); id.t = format!("{}-STRANGER", id.t); peer_msg(&mut c.rng, &e.spec.dicts[0].r, &id, "stranger").text().into_bytes() }
                        3 => b"hello\x0110=000\x01".to_vec(),
                        _ => { let mut id = e.spec.sess[s].id.reverse(); if e.spec.sess.iter().any(|x| x.id == id) { id.s = "NOBODY".into() } peer_msg(&mut c.rng, &e.spec.dicts[0].r, &id, "mirrored").text().into_bytes() } // the engine's own direction
                    };
                    let _ = p.s.write_all(&t);
                    seen.push((format!("unidentified connection {k}"), None, p.rx.clone()));
                    live.push(Live { p, sess: None, conn: usize::MAX, tag: format!("unidentified connection {k}") });
                }
                6 | 7 if !live.is_empty() => { let i = r.below(live.len()); let l = live.swap_remove(i); if r.chance(1, 2) { l.p.close(); } else { l.p.reset(); } nap(&mut r, 3000) }
                8 => { let with: Vec<usize> = (0..live.len()).filter(|i| live[*i].sess.is_some()).collect(); if with.is_empty() { continue } let i = *r.pick(&with); uid += 1; let (s, conn) = (live[i].sess.unwrap(), live[i].conn); if live[i].p.lost().is_some() { continue } hello(c, &e, &mut inb, &mut live[i].p, conn, s, &format!("u{uid}"))?; }
                _ => nap(&mut r, 6000),
            }
        }
        Ok(())
    })();
    stop.store(true, SeqCst);
    for h in hs { let _ = h.join(); }
    e.app.reply.store(false, SeqCst);
    // a last message to every session: it must arrive where that session's peer is and nowhere else
    let mut last = HashMap::new();
    if result.is_ok() {
        std::thread::sleep(Duration::from_millis(30));
        for (i, s) in e.spec.sess.iter().enumerate() { let m = app_msg(&mut r, &s.id, &format!("last-{i}"), 0); owner.lock().unwrap().insert(m.to_string(), i); last.insert(i, m.to_string()); let _ = guard(|| Session::sync_send_to_target(&s.sid, &map, m)); }
    }
    let mut arrived = Ok(());
    if result.is_ok() {
        for l in &live { if let Some(s) = l.sess { if l.p.lost().is_some() { continue } let w = &last[&s]; arrived = wait_for(&format!("{}: the last message to its session did not arrive", l.tag), &|| l.p.got(), &|| l.p.text().contains(w.as_str())); if arrived.is_err() { break } } }
        std::thread::sleep(Duration::from_millis(40));
    }
    for (sid, _, b) in e.app.replies.lock().unwrap().iter() { let s = e.spec.sess.iter().position(|x| x.sid == *sid).unwrap(); owner.lock().unwrap().insert(b.clone(), s); }
    let own = owner.lock().unwrap();
    let mut trace = String::new();
    for (tag, ident, rx) in &seen {
        let text = String::from_utf8_lossy(&rx.data.lock().unwrap()).to_string();
        let w = |f: &str| json!({"received": show(f, 3000), "engine": e.wit()});
        let Some(s) = ident else { if !text.is_empty() { return badw(format!("{tag} received {} bytes although it never identified itself", text.len()), w(&text)) } c.stats.count("unidentified connections that received nothing", 1); continue };
        let (fs, rest) = frames(&text);
        let mut dup = HashSet::new();
        for f in &fs {
            match own.get(*f) { None => return badw(format!("{tag} received something that was never sent"), w(f)), Some(o) if o != s => return badw(format!("{tag} ({}) received a message sent to session {}", e.spec.sess[*s].sid, e.spec.sess[*o].sid), w(f)), _ => {} }
            if !dup.insert(*f) { return badw(format!("{tag} received a message twice"), w(f)) }
        }
        if !rest.is_empty() { let hit = own.iter().find(|(k, _)| k.starts_with(rest)); match hit { None => return badw(format!("{tag} received bytes that belong to no message"), w(rest)), Some((_, o)) if o != s && !own.iter().any(|(k, o2)| o2 == s && k.starts_with(rest)) => return badw(format!("{tag} received part of a message sent to another session"), w(rest)), _ => {} } }
        c.stats.count("messages received by their own session", fs.len() as u64);
        trace += &format!("{}:{} ", s, fs.len());
    }
    result?;
    if arrived.is_err() { return annotate(arrived, "", e.wit()) }
    inb.check(&e, &mut c.stats)?;
    c.stats.count("connections", seen.len() as u64);
    c.stats.count("messages sent", sent.load(Relaxed));
    c.stats.nontrivial(&format!("{steps} steps, received per connection: {trace}"));
    Ok(())
}

// ---- C24 ------------------------------------------------------------------------------------------------------
/// a message with one fault, that still ends in its CheckSum field
pub fn malformed(c: &mut Ctx, spec: &Spec, s: usize, uid: &str) -> Option<String> {
    let d = &spec.dicts[spec.sess[s].dict].r;
    for _ in 0..50 {
        let a = peer_msg(&mut c.rng, d, &spec.sess[s].id, uid);
        if c.rng.chance(1, 15) { let t = a.text(); let at = t.rfind("\u{1}10=").unwrap(); return Some(format!("{}10=\u{1}", &t[..at + 1])) } // CheckSum without a value
        let Some((t, _, _)) = codec::fault(&mut c.rng, d, &a) else { continue };
        let toks: Vec<&str> = t.split_terminator('\u{1}').collect();
        if t.ends_with('\u{1}') && toks.iter().filter(|x| x.starts_with("10=")).count() == 1 && toks.last().unwrap().starts_with("10=") && toks[0].starts_with("8=") { return Some(t) }
    }
    None
}
fn c24(c: &mut Ctx) -> Res {
    let (ns, np) = (3 + c.rng.below(3), 1 + c.rng.below(2));
    let spec = c.spec(ns, np, 2);
    let e = Engine::start(c, spec)?;
    let mut inb = Inbound::default();
    // sessions 0 and 1 belong to well-behaved peers, the others to hostile ones; the last one never connects
    let mut good = vec![];
    for s in 0..2 { let (p, conn) = join(c, &e, &mut inb, s, &format!("g{s}-hello"), None)?; good.push((p, conn)); }
    let map = e.map();
    let mut outs: Vec<Outbound> = (0..2).map(|_| Outbound::default()).collect();
    let rounds = 3 + c.rng.below(5);
    let mut trace = String::new();
    let mut hostile: Vec<(Peer, usize)> = vec![]; // connections that stay open, and their session
    let mut per_conn: Vec<(usize, usize)> = vec![]; // hostile connections whose well-formed messages must all arrive: (conn, expected)
    let mut n = 0;
    let mut sends: Vec<std::thread::JoinHandle<Option<String>>> = vec![];
    let replies0 = |e: &Engine| e.app.replies.lock().unwrap().len();
    let _ = replies0;
    for round in 0..rounds {
        for _ in 0..1 + c.rng.below(3) {
            let hs = 2 + c.rng.below((ns - 2).max(1));
            let hs = hs.min(ns - 1);
            let port = e.spec.sess[hs].port;
            n += 1;
            let kind = c.rng.below(11);
            c.stats.count(["garbage", "malformed then well-formed", "unknown session", "truncated", "reset", "never reads", "reply to departed", "session without peer", "bytes that are no text", "unterminated flood", "cut inside the CheckSum field"][kind], 1);
            trace += &format!("{kind}.");
            match kind {
                0 => { let mut p = Peer::connect(port, None)?; let k = 1 + c.rng.below(4000); let g: Vec<u8> = (0..k).map(|_| match c.rng.below(12) { 0 => 1, 1 => b'=', 2 => b'1', 3 => b'0', 4 => b'8', _ => c.rng.next() as u8 }).collect(); let _ = p.s.write_all(&g); let _ = p.s.write_all(b"\x0110=000\x01"); if c.rng.chance(1, 2) { p.reset(); } else { hostile.push((p, hs)) } }
                1 => {
                    let mut p = Peer::connect(port, None)?;
                    let conn = inb.conn();
                    let mut t = String::new();
                    for i in 0..1 + c.rng.below(4) {
                        for _ in 0..1 + c.rng.below(3) { if let Some(b) = malformed(c, &e.spec, hs, &format!("bad{n}-{i}")) { let k = if c.rng.chance(1, 12) && b.len() < 3000 { 60 + c.rng.below(240) } else { 1 }; for _ in 0..k { t += &b } c.stats.count("malformed messages sent", k as u64) } }
                        let uid = format!("h{n}-{i}");
                        let m = peer_msg(&mut c.rng, &e.spec.dicts[e.spec.sess[hs].dict].r, &e.spec.sess[hs].id, &uid);
                        t += &m.text(); inb.add(conn, uid, hs, m);
                    }
                    per_conn.push((conn, inb.conns[conn].len()));
                    let mode = c.rng.below(6); let mode = if mode == 1 { 2 } else { mode };
                    if let Err(x) = send_split(&mut p.s, t.as_bytes(), &mut c.rng, mode) { return badw(format!("a connection carrying malformed and well-formed messages was ended: {x}"), e.wit()) }
                    hostile.push((p, hs));
                }
                2 => { let mut p = Peer::connect(port, None)?; let mut id = e.spec.sess[hs].id.clone(); match c.rng.below(3) { 0 => id.t = "STRANGER".into(), 1 => { id.s = "STRANGER".into() } _ => { id.ts = Some("NOSUB".into()) } } for i in 0..1 + c.rng.below(3) { let m = peer_msg(&mut c.rng, &e.spec.dicts[0].r, &id, &format!("unk{n}-{i}")); let _ = p.s.write_all(m.text().as_bytes()); } if c.rng.chance(1, 2) { p.close(); } else { hostile.push((p, hs)) } }
                3 | 10 => {
                    let mut p = Peer::connect(port, None)?;
                    let m = peer_msg(&mut c.rng, &e.spec.dicts[e.spec.sess[hs].dict].r, &e.spec.sess[hs].id, &format!("cut{n}")).text();
                    let ck = m.rfind("\u{1}10=").unwrap() + 1;
                    let cut = if kind == 3 { c.rng.below(ck) } else { ck + c.rng.below(m.len() - ck) };
                    let _ = send_split(&mut p.s, &m.as_bytes()[..cut], &mut c.rng, 3);
                    nap(&mut c.rng, 2000);
                    p.close();
                }
                4 => { let mut p = Peer::connect(port, None)?; if c.rng.chance(1, 2) { let m = peer_msg(&mut c.rng, &e.spec.dicts[e.spec.sess[hs].dict].r, &e.spec.sess[hs].id, &format!("rst{n}")); let conn = inb.conn(); let t = m.text(); inb.add(conn, format!("rst{n}"), hs, m); let k = c.rng.below(t.len() + 1); let _ = p.s.write_all(&t.as_bytes()[..k]); } p.reset(); }
                5 => { // identifies itself, then never reads while much is sent to it
                    if hostile.iter().any(|h| h.1 == hs && h.0.rx.pause.load(Relaxed)) { continue }
                    let (p, _) = join(c, &e, &mut inb, hs, &format!("deaf{n}"), Some(2048))?;
                    p.rx.pause.store(true, SeqCst);
                    let (map, sid, id) = (map.clone(), e.spec.sess[hs].sid.clone(), e.spec.sess[hs].id.clone());
                    let k = 300 + c.rng.below(1500); let mut r = Rng::new(c.rng.next(), "deaf", 0);
                    sends.push(std::thread::spawn(move || guard(|| for i in 0..k { let m = app_msg(&mut r, &id, &format!("deaf-{i}"), 3000); Session::sync_send_to_target(&sid, &map, m) }).err()));
                    hostile.push((p, hs));
                }
                6 => { // sends requests that are answered late, and is gone by then
                    e.app.reply_delay_us.store(3000, SeqCst); e.app.reply.store(true, SeqCst);
                    let mut p = Peer::connect(port, None)?; let conn = inb.conn();
                    for i in 0..1 + c.rng.below(4) { let uid = format!("gone{n}-{i}"); let m = peer_msg(&mut c.rng, &e.spec.dicts[e.spec.sess[hs].dict].r, &e.spec.sess[hs].id, &uid); let t = m.text(); inb.add(conn, uid, hs, m); let _ = p.s.write_all(t.as_bytes()); }
                    if c.rng.chance(1, 2) { p.reset(); } else { p.close(); }
                    nap(&mut c.rng, 5000);
                }
                7 => { let s = ns - 1; for i in 0..1 + c.rng.below(40) { let m = app_msg(&mut c.rng, &e.spec.sess[s].id, &format!("nobody{n}-{i}"), 0); if let Err(p) = guard(|| Session::sync_send_to_target(&e.spec.sess[s].sid, &map, m)) { return badw(format!("sending to a session whose peer is not connected panicked: {p}"), e.wit()) } } }
                8 => { let mut p = Peer::connect(port, None)?; let m = peer_msg(&mut c.rng, &e.spec.dicts[e.spec.sess[hs].dict].r, &e.spec.sess[hs].id, &format!("bytes{n}")).text(); let mut b = m.into_bytes(); let ck = b.len() - 7; for _ in 0..1 + c.rng.below(6) { let i = c.rng.below(ck); b[i] = *c.rng.pick(&[0xffu8, 0xc3, 0x80, 0xfe, 0xed]) }
                    if c.rng.chance(1, 2) { let k: u32 = b[..ck].iter().map(|x| *x as u32).sum(); let t = format!("10={:03}\u{1}", k % 256); b.truncate(ck); b.extend(t.bytes()) } // with a true CheckSum
                    let _ = p.s.write_all(&b); hostile.push((p, hs)) }
                _ => { let mut p = Peer::connect(port, None)?; let b = vec![b'z'; 300_000]; let _ = p.s.write_all(b"8=FIX.4.3\x019=5\x01"); let _ = p.s.write_all(&b); if c.rng.chance(1, 2) { p.close(); } else { hostile.push((p, hs)) } }
            }
        }
        // the well-behaved sessions in the meantime
        for s in 0..2 {
            let mut t = String::new();
            for i in 0..1 + c.rng.below(6) { let uid = format!("g{s}-{round}-{i}"); let m = peer_msg(&mut c.rng, &e.spec.dicts[e.spec.sess[s].dict].r, &e.spec.sess[s].id, &uid); t += &m.text(); inb.add(good[s].1, uid, s, m); }
            if let Err(x) = good[s].0.s.write_all(t.as_bytes()) { return badw(format!("the connection of a well-behaved peer failed: {x}"), e.wit()) }
            for i in 0..1 + c.rng.below(10) { let m = app_msg(&mut c.rng, &e.spec.sess[s].id, &format!("o{s}-{round}-{i}"), 0); outs[s].add(0, m.to_string()); if let Err(p) = guard(|| Session::sync_send_to_target(&e.spec.sess[s].sid, &map, m)) { return badw(format!("sending to a well-behaved session panicked: {p}"), e.wit()) } }
        }
    }
    // everything owed to the well-behaved peers and to well-formed messages arrives
    let owed = |e: &Engine| -> Vec<String> {
        let log: HashSet<String> = e.app.log.lock().unwrap().iter().filter_map(|d| d.uid.clone()).collect();
        let mut miss = vec![];
        for c in good.iter().map(|g| g.1).chain(per_conn.iter().map(|p| p.0)) { for (u, _, _) in &inb.conns[c] { if !log.contains(u) { miss.push(u.clone()) } } }
        miss
    };
    let mut res = wait_for("messages of well-behaved peers not delivered", &|| e.delivered(), &|| owed(&e).is_empty());
    if res.is_err() { let m = owed(&e); res = annotate(res, &format!("missing {} messages, first {:?}; hostile acts {trace}", m.len(), m.first()), e.wit()) }
    inb.check(&e, &mut c.stats)?;
    res?;
    let thread_wait = Instant::now();
    while sends.iter().any(|h| !h.is_finished()) && thread_wait.elapsed() < Duration::from_secs(2) { std::thread::sleep(Duration::from_millis(5)) }
    for h in sends { if h.is_finished() { if let Ok(Some(p)) = h.join() { return badw(format!("sending to a peer that does not read panicked: {p}"), e.wit()) } } } // blocking there is allowed
    // replies to the well-behaved peers (made inside the callback) are outbound traffic as well
    e.app.reply.store(false, SeqCst);
    let nreply = { let want = e.app.log.lock().unwrap().len(); let _ = want; std::thread::sleep(Duration::from_millis(40)); e.app.replies.lock().unwrap().len() };
    let _ = nreply;
    for s in 0..2 { for (sid, _, b) in e.app.replies.lock().unwrap().iter() { if *sid == e.spec.sess[s].sid { outs[s].add(900, b.clone()) } } }
    for s in 0..2 { let m = app_msg(&mut c.rng, &e.spec.sess[s].id, &format!("final-{s}"), 0); outs[s].add(0, m.to_string()); if let Err(p) = guard(|| Session::sync_send_to_target(&e.spec.sess[s].sid, &map, m)) { return badw(format!("sending to a well-behaved session panicked: {p}"), e.wit()) } }
    for s in 0..2 {
        let p = &good[s].0;
        let w = wait_for(&format!("well-behaved peer of {} did not receive everything", e.spec.sess[s].sid), &|| p.got(), &|| p.got() >= outs[s].bytes || p.lost().is_some());
        let who = format!("well-behaved peer of {}", e.spec.sess[s].sid);
        let n = outs[s].check(&p.text(), &who, false, &mut String::new())?;
        if let Some(l) = p.lost() { return badw(format!("{who}: connection ended ({l}); hostile acts {trace}"), e.wit()) }
        if w.is_err() { return annotate(w, &format!("hostile acts {trace}"), e.wit()) }
        outs[s].check(&p.text(), &who, true, &mut String::new())?;
        c.stats.count("messages received and compared", n);
    }
    // a newcomer is still served
    let (p, _) = join(c, &e, &mut inb, 0, "newcomer", None)?;
    drop(p);
    inb.check(&e, &mut Stats::default())?;
    if let Some(p) = PANICS.lock().unwrap().first() { return badw(format!("a part of the engine crashed: {p}; hostile acts {trace}"), e.wit()) }
    c.stats.count("hostile acts", n as u64);
    c.stats.nontrivial(&trace);
    Ok(())
}

/// no descriptor can be opened while this lives
#[cfg(feature = "countalloc")]
struct Limit(libc::rlimit);
#[cfg(feature = "countalloc")]
impl Limit {
    fn none_left() -> Limit {
        unsafe {
            let mut l: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
            let next = libc::dup(2);
            assert!(next >= 0);
            libc::close(next);
            libc::setrlimit(libc::RLIMIT_NOFILE, &libc::rlimit { rlim_cur: next as u64, rlim_max: l.rlim_max });
            Limit(l)
        }
    }
}
#[cfg(feature = "countalloc")]
impl Drop for Limit { fn drop(&mut self) { unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &self.0); } } }
/// waits until the reply to this message has arrived
fn answered(e: &Engine, p: &Peer, uid: &str, who: &str) -> Res {
    let want = |e: &Engine| e.app.replies.lock().unwrap().iter().find(|r| r.1 == format!("re-{uid}")).map(|r| r.2.clone());
    let ok = wait_for(&format!("{who} is ignored"), &|| e.delivered() + p.got(), &|| p.lost().is_some() || want(e).map_or(false, |w| p.text().contains(&w)));
    if let Some(l) = p.lost() { return badw(format!("{who}: {l} without being served"), e.wit()) }
    annotate(ok, uid, e.wit())
}
fn serve(c: &mut Ctx, e: &Engine, s: usize, uid: &str) -> Res<Peer> {
    let mut p = Peer::connect(e.spec.sess[s].port, None)?;
    let m = peer_msg(&mut c.rng, &e.spec.dicts[e.spec.sess[s].dict].r, &e.spec.sess[s].id, uid);
    if let Err(x) = p.s.write_all(m.text().as_bytes()) { return badw(format!("peer {uid}: {x}"), e.wit()) }
    answered(e, &p, uid, "a peer of another port")?;
    Ok(p)
}

// ---- C34 ------------------------------------------------------------------------------------------------------
/// bytes in use on the heap of this process
fn heap() -> i64 { let m = unsafe { libc::mallinfo2() }; m.uordblks as i64 + m.hblkhd as i64 }
fn c34(c: &mut Ctx) -> Res {
    let (ns, np, nd) = (1 + c.rng.below(4), 1 + c.rng.below(2), 1 + c.rng.below(2));
    let spec = c.spec(ns.max(np), np, nd);
    let e = Engine::start(c, spec)?;
    let ns = e.spec.sess.len();
    let mut inb = Inbound::default();
    let (mut first, conn0) = join(c, &e, &mut inb, 0, "hello", None)?;
    let rounds = if c.rng.chance(1, 5) { 2 } else { 1 };
    let mut trace = String::new();
    for round in 0..rounds {
        // what will be offered: tens of megabytes on a few connections
        let nconn = 2 + c.rng.below(4);
        let size = *c.rng.pick(&[4000usize, 4000, 16_000, 16_000, 60_000]);
        let per = 24_000_000 / nconn;
        let mut loads: Vec<(u16, Vec<u8>)> = vec![];
        for k in 0..nconn {
            let s = c.rng.below(ns);
            let conn = inb.conn();
            let mut bytes: Vec<u8> = vec![];
            let mut i = 0;
            while bytes.len() < per {
                let uid = format!("r{round}c{k}n{i}"); i += 1;
                let mut m = peer_msg(&mut c.rng, &e.spec.dicts[e.spec.sess[s].dict].r, &e.spec.sess[s].id, &uid);
                let l = m.text().len();
                // the text made longer here is not looked at field by field: the count and order are what matters
                if l < size { if let Some(n) = m.body.iter_mut().find(|n| n.group.is_none() && n.tag != ID) { n.value += &"z".repeat(size - l) } seal(&mut m); }
                bytes.extend_from_slice(m.text().as_bytes());
                inb.add(conn, uid, s, m);
            }
            loads.push((e.spec.sess[s].port, bytes));
        }
        let offered: usize = loads.iter().map(|l| l.1.len()).sum();
        // the application stops
        e.app.hold.store(true, SeqCst);
        { let uid = format!("stop{round}"); let m = peer_msg(&mut c.rng, &e.spec.dicts[e.spec.sess[0].dict].r, &e.spec.sess[0].id, &uid); let t = m.text(); inb.add(conn0, uid, 0, m); if let Err(x) = first.s.write_all(t.as_bytes()) { return badw(format!("sending failed: {x}"), e.wit()) } }
        wait_for("a message was not delivered", &|| e.delivered(), &|| e.app.held.load(SeqCst))?;
        let mut peers: Vec<(Peer, Vec<u8>)> = vec![];
        for (port, b) in loads { let p = Peer::connect(port, None)?; set_buf(&p.s, libc::SO_SNDBUF, 65_536); let _ = p.s.set_write_timeout(None); peers.push((p, b)) }
        let taken = std::sync::atomic::AtomicU64::new(0);
        let fails: Mutex<Vec<String>> = Mutex::new(vec![]);
        let before = heap();
        let (mut worst, mut steady) = (0i64, 0);
        // however long it stands still
        let at_least = Duration::from_millis(if c.rng.chance(1, 3) { 4000 + c.rng.below(if c.thorough { 40_000 } else { 8000 }) as u64 } else { 0 });
        if !at_least.is_zero() { c.stats.count("standstills of many seconds", 1) }
        std::thread::scope(|sc| {
            for (p, b) in peers.iter_mut() { let (taken, fails) = (&taken, &fails); sc.spawn(move || for part in b.chunks(32_768) { if let Err(x) = p.s.write_all(part) { fails.lock().unwrap().push(x.to_string()); return } taken.fetch_add(part.len() as u64, SeqCst); }); }
            let (mut last, t0) = (0, Instant::now());
            while (steady < 60 && t0.elapsed() < Duration::from_secs(60)) || t0.elapsed() < at_least {
                std::thread::sleep(Duration::from_millis(20));
                worst = worst.max(heap() - before);
                let t = taken.load(SeqCst);
                if t == last { steady += 1 } else { steady = 0; last = t }
                if t as usize >= offered { steady += 1 }
            }
            c.stats.count("megabytes offered", offered as u64 / 1_000_000);
            c.stats.count("megabytes that left the peers while the application stood still", taken.load(SeqCst) / 1_000_000);
            e.app.hold.store(false, SeqCst);
        });
        if let Some(f) = fails.lock().unwrap().first() { return badw(format!("the connection of a peer that only sent was ended: {f}"), e.wit()) }
        c.stats.count("kilobytes the engine's heap grew by (sum of the worst)", worst.max(0) as u64 / 1000);
        if worst > 12_000_000 { return badw(format!("the application stood still and {} peers offered {} MB: the engine's heap grew by {} MB instead of holding them back", peers.len(), offered / 1_000_000, worst / 1_000_000), e.wit()) }
        let total = inb.total() as u64;
        let res = wait_for("not everything that was held back was delivered", &|| e.delivered(), &|| e.delivered() >= total);
        inb.check(&e, &mut c.stats)?;
        annotate(res, &format!("{} of {total}", e.delivered()), e.wit())?;
        if e.delivered() != total { return badw("more messages were delivered than sent", e.wit()) }
        trace += &format!("{} connections, {size} bytes; ", peers.len());
    }
    c.stats.nontrivial(&format!("{trace} {} workers {ns} sessions", e.workers));
    Ok(())
}

// ---- C35 ------------------------------------------------------------------------------------------------------
/// Bytes that are still in use when nothing is in flight any more: the least of many looks.
fn settled(progress: &dyn Fn() -> u64) -> i64 {
    let (mut last, mut same, mut least) = (progress(), 0, i64::MAX);
    let t0 = Instant::now();
    while same < 25 && t0.elapsed() < Duration::from_secs(20) {
        std::thread::sleep(Duration::from_millis(10));
        let h = crate::alloc::IN_USE.load(Relaxed);
        if progress() != last || h < least { same = 0 } else { same += 1 }
        last = progress();
        least = least.min(h);
    }
    least
}
/// The same work over and over: what is in use afterwards must not grow with how much of it was done.  `work` does one
/// portion and returns how many events it consisted of.
fn no_growth(c: &mut Ctx, what: &str, (slack, each): (i64, i64), wit: Value, work: &mut dyn FnMut(&mut Ctx) -> Res<(u64, i64)>) -> Res {
    let (_, mut at) = work(c)?; // whatever is set up once
    let mut marks = vec![at];
    let mut events = 0;
    for round in 0..2 {
        let (start, mut n) = (at, 0);
        for _ in 0..if round == 0 { 3 } else { 6 } { let (k, h) = work(c)?; n += k; at = h; marks.push(h); }
        events += n;
        // growth is held against the code only when it goes on as the history gets longer
        if at - start < slack + each * n as i64 {
            c.stats.count("events after which nothing more was in use", n);
            c.stats.count("bytes in use more afterwards (sum)", (at - start).max(0) as u64);
            return Ok(())
        }
        c.stats.count("rounds repeated for a longer history", 1);
    }
    badw(format!("{what}: what the process holds on to grows with its history: {} bytes more after {events} events", at - marks[0]), json!({"bytes in use after each portion": marks, "engine": wit}))
}
fn c35(c: &mut Ctx) -> Res {
    crate::alloc::EVERYTHING.store(true, SeqCst);
    if c.idx % 4 == 3 { return c35_library(c) }
    let (ns, np, nd) = (2 + c.rng.below(4), 1 + c.rng.below(2), 1 + c.rng.below(2));
    let spec = c.spec(ns.max(np), np, nd);
    let e = Engine::start(c, spec)?;
    let ns = e.spec.sess.len();
    e.app.forget.store(true, SeqCst);
    e.app.reply.store(c.rng.chance(1, 3), SeqCst);
    const T: &str = "uuuuuuuuuuuu";
    // messages to draw from; each is sent with an id of its own
    let good: Vec<Vec<AMsg>> = (0..ns).map(|s| (0..6).map(|_| peer_msg(&mut c.rng, &e.spec.dicts[e.spec.sess[s].dict].r, &e.spec.sess[s].id, T)).collect()).collect();
    let wrong: Vec<Vec<String>> = (0..ns).map(|s| (0..5).filter_map(|_| malformed(c, &e.spec, s, T)).collect()).collect();
    let mut n = 0u64;
    let mut fresh = |c: &mut Ctx, s: usize| { n += 1; let mut m = c.rng.pick(&good[s]).clone(); for x in m.body.iter_mut().filter(|x| x.tag == ID) { x.value = format!("{n:012}") } seal(&mut m); (m, format!("{n:012}")) };
    // peers that stay
    let mut home: Vec<(usize, Peer)> = vec![];
    for s in 0..1 + c.rng.below(ns) { let p = Peer::connect(e.spec.sess[s].port, None)?; p.rx.forget.store(true, SeqCst); home.push((s, p)); }
    let mut due = 0u64;
    for (s, p) in home.iter_mut() { let (m, _) = fresh(c, *s); due += 1; if let Err(x) = p.s.write_all(m.text().as_bytes()) { return badw(format!("a connection that did nothing wrong failed: {x}"), e.wit()) } }
    let arrived = |due: u64| annotate(wait_for("a message was not delivered", &|| e.delivered(), &|| e.delivered() >= due), &format!("{} of {due}", e.delivered()), e.wit());
    arrived(due)?;
    let base = fds();
    let kind = c.rng.below(4); // what the history consists of
    let (traffic, visits, sends) = match kind { 0 => (1200, 0, 0), 1 => (0, 250, 0), 2 => (0, 0, 1200), _ => (400, 80, 400) };
    let scale = if c.thorough { 5 } else { 1 };
    let wit = e.wit();
    no_growth(c, &format!("{} messages in, {} connections that came and went, {} messages out at a time", traffic * scale, visits * scale, sends * scale), (12_000, 4), wit, &mut |c| {
        for i in 0..traffic * scale {
            let k = c.rng.below(home.len());
            let s = home[k].0;
            let t = match c.rng.below(8) {
                0 if !wrong[s].is_empty() => { let t = c.rng.pick(&wrong[s]).clone(); t.replace(T, &format!("w{i:011}")) }
                2 => format!("8=G{i}\u{1}9=1\u{1}{}=y\u{1}10=0\u{1}", 5000 + due),
                1 => { // nobody's
                    let (mut m, u) = fresh(c, s);
                    for x in m.header.iter_mut().filter(|x| x.tag == 49) { x.value = format!("X{u}") }
                    seal(&mut m); m.text()
                }
                _ => { due += 1; fresh(c, s).0.text() }
            };
            if let Err(x) = home[k].1.s.write_all(t.as_bytes()) { return badw(format!("a connection that did nothing wrong failed: {x}"), e.wit()) }
        }
        for _ in 0..visits * scale {
            let s = c.rng.below(ns);
            let mut p = match raw_connect(e.spec.sess[s].port, None) { Ok(p) => p, Err(x) => return Err(Fail::Suspect(format!("port {} does not accept connections: {x}", e.spec.sess[s].port))) };
            let _ = p.set_nodelay(true);
            let kind = c.rng.below(6);
            let mine: Vec<usize> = (0..ns).filter(|t| e.spec.sess[*t].port == e.spec.sess[s].port).collect();
            for _ in 0..match kind { 0 => 0, 1 | 2 => 1, _ => c.rng.below(4) } { let t = *c.rng.pick(&mine); let (m, _) = fresh(c, t); if p.write_all(m.text().as_bytes()).is_ok() { due += 1 } }
            if kind == 5 { let (m, _) = fresh(c, s); let t = m.text(); let _ = p.write_all(&t.as_bytes()[..c.rng.below(t.len() - 4)]); }
            // all of it is read before the connection ends
            arrived(due)?;
            if c.rng.chance(1, 3) { let _ = p.shutdown(Shutdown::Write); let mut b = [0u8; 4096]; let _ = p.set_read_timeout(Some(Duration::from_secs(2))); while matches!(p.read(&mut b), Ok(k) if k > 0) {} }
            else if c.rng.chance(1, 2) { use std::os::unix::io::AsRawFd; let l = libc::linger { l_onoff: 1, l_linger: 0 }; unsafe { libc::setsockopt(p.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32); } }
        }
        if sends > 0 {
            let map = e.map();
            for i in 0..sends * scale {
                let s = c.rng.below(ns);
                if c.rng.chance(1, 10) { // no such session
                    let mut id = e.spec.sess[s].id.clone(); id.t = format!("NOBODY{i}-{due}");
                    let m = app_msg(&mut c.rng, &id, "none", 0);
                    Session::sync_send_to_target(&sid_of(&id), &map, m);
                    continue;
                }
                if c.rng.chance(1, 10) { // registered again
                    let again = map.get_session(&e.spec.sess[s].sid).map(|x| x.clone());
                    if let Some(x) = again { map.insert_session(e.spec.sess[s].sid.clone(), x) }
                    std::hint::black_box(map.key_values_map().len());
                }
                let size = if c.rng.chance(1, 10) { c.rng.below(3000) } else { 0 };
                let m = app_msg(&mut c.rng, &e.spec.sess[s].id, &format!("o{i}-{due}"), size);
                Session::sync_send_to_target(&e.spec.sess[s].sid, &map, m);
            }
        }
        for (s, p) in home.iter_mut() { let (m, _) = fresh(c, *s); due += 1; if let Err(x) = p.s.write_all(m.text().as_bytes()) { return badw(format!("a connection that did nothing wrong failed: {x}"), e.wit()) } }
        arrived(due)?;
        let t0 = Instant::now();
        while fds() > base && t0.elapsed() < Duration::from_secs(10) { std::thread::sleep(Duration::from_millis(10)) }
        let h = settled(&|| e.delivered() + home.iter().map(|h| h.1.got()).sum::<u64>());
        Ok(((traffic + visits + sends) * scale, h))
    })?;
    c.stats.count("messages delivered in them", due);
    c.stats.count("connections that stayed", home.len() as u64);
    c.stats.nontrivial(&format!("{kind} {} workers {ns} sessions {} homes {due} delivered", e.workers, home.len()));
    Ok(())
}
/// dictionaries, configurations and messages that are read, used and dropped
fn c35_library(c: &mut Ctx) -> Res {
    let spec = c.spec(4, 2, 2);
    let names = c.rng.chance(1, 2); // other texts every time
    no_growth(c, "dictionaries, configurations and messages read and dropped", (1500, 0), json!(spec.config), &mut |c| {
        let mut n = 0;
        for _ in 0..if c.thorough { 40 } else { 8 } {
            let nd = c.dict();
            let _ = std::fs::remove_file(&nd.path);
            let Ok(dd) = DataDictionary::from_str(&nd.xml) else { continue };
            let _ = DataDictionary::from_str(nd.xml.get(..nd.xml.len() / 2).unwrap_or(""));
            for _ in 0..4 { let t = spec.config.replace("PEER", &if names { format!("PEER{}", c.rng.next() % 1_000_000) } else { "PEER".into() }); if let Ok(p) = guard(|| Properties::from_str(&t)) { for s in p.session_ids() { std::hint::black_box(s.to_string()); } } n += 1; }
            for k in 0..20 {
                let s = c.rng.below(spec.sess.len());
                let u = format!("l{k}-{}", c.rng.next());
                let m = peer_msg(&mut c.rng, &nd.r, &spec.sess[s].id, &u);
                let t = m.text();
                std::hint::black_box(Message::get_reverse_session_id(&t));
                if let Ok(x) = Message::from_str(&t, &dd) { std::hint::black_box(x.clone().to_string()); }
                let _ = Message::from_str(t.get(..c.rng.below(t.len())).unwrap_or(""), &dd);
                std::hint::black_box(app_msg(&mut c.rng, &spec.sess[s].id, "x", 10).to_string());
                n += 3;
            }
            n += 2;
        }
        Ok((n, settled(&|| 0)))
    })?;
    c.stats.count("library histories", 1);
    c.stats.nontrivial(&format!("library {names} {}", spec.config));
    Ok(())
}

// ---- C36 ------------------------------------------------------------------------------------------------------
/// processor time of the whole engine against the size of what it is given
fn c36(c: &mut Ctx) -> Res {
    let mut spec = c.spec(2, 1, 1);
    std::fs::write(&spec.dicts[0].path, crate::work::SPEC).expect("scratch");
    spec.dicts[0].xml = crate::work::SPEC.into();
    let e = Engine::start(c, spec)?;
    e.app.forget.store(true, SeqCst);
    let id = e.spec.sess[0].id.clone();
    let head: String = id.reverse().toks().iter().map(|(t, v)| format!("{t}={v}\u{1}")).collect::<Vec<_>>().join("");
    // the sample messages carry other company ids; this session's replace them
    let mine = |t: String| t.replacen("8=FIX.4.3\u{1}9=5\u{1}35=M\u{1}49=A\u{1}56=B\u{1}", &{ let (b, rest) = head.split_once('\u{1}').unwrap(); format!("{b}\u{1}9=5\u{1}35=M\u{1}{}", rest) }, 1);
    let mut p = Peer::connect(e.spec.sess[0].port, None)?;
    p.rx.forget.store(true, SeqCst);
    let kind = c.rng.below(4);
    let (mut due, mut bytes) = (0u64, 0u64);
    let scale = if c.thorough { 3 } else { 1 };
    let shape = *c.rng.pick(&[0usize, 1, 5, 5]);
    let seg = *c.rng.pick(&[300usize, 1000, 4000]);
    let what = match kind { 0 | 1 => format!("receiving a message of many {} in pieces of {seg} bytes", crate::work::SHAPES[shape]), 2 => "receiving many messages on one connection".to_string(), _ => "sending many messages to a peer that reads late".to_string() };
    p.s.write_all(mine(crate::work::text(&mut c.rng, 1, 5)).as_bytes()).map_err(|x| Fail::Suspect(x.to_string()))?;
    due += 1;
    let arrived = |due: u64| annotate(wait_for("a message was not delivered", &|| e.delivered(), &|| e.delivered() >= due), &format!("{} of {due}", e.delivered()), e.wit());
    arrived(due)?;
    let map = e.map();
    let mut fail = None;
    let mut rng = c.rng.clone();
    let r = crate::work::growth(&mut c.stats, &what, if kind == 3 { 2.2 } else { 4.0 }, &mut |big| {
        let k = scale * if big { crate::work::RATIO } else { 1 };
        let mut go = || -> Res<f64> {
            match kind {
                0 | 1 => {
                    let t = mine(crate::work::text(&mut rng, k * if shape == 5 { 30_000 } else { 8_000 }, shape));
                    let c0 = cpu_seconds();
                    for x in t.as_bytes().chunks(seg) { p.s.write_all(x).map_err(|x| Fail::Suspect(x.to_string()))?; if seg < 1000 { std::thread::yield_now() } }
                    due += 1;
                    arrived(due)?;
                    Ok(cpu_seconds() - c0)
                }
                2 => {
                    let t: String = (0..400).map(|_| mine(crate::work::text(&mut rng, 3, 0))).collect();
                    let c0 = cpu_seconds();
                    for _ in 0..k { p.s.write_all(t.as_bytes()).map_err(|x| Fail::Suspect(x.to_string()))?; }
                    due += 400 * k as u64;
                    arrived(due)?;
                    Ok(cpu_seconds() - c0)
                }
                _ => {
                    let ms: Vec<Message> = (0..200).map(|i| app_msg(&mut rng, &id, &format!("m{i}"), 100)).collect();
                    p.rx.pause.store(true, SeqCst);
                    std::thread::sleep(Duration::from_millis(5));
                    let c0 = cpu_seconds();
                    for i in 0..k * 8000 { let m = &ms[i % 200]; bytes += m.to_string().len() as u64; Session::sync_send_to_target(&e.spec.sess[0].sid, &map, m.clone()); }
                    p.rx.pause.store(false, SeqCst);
                    wait_for("messages were not sent", &|| p.got(), &|| p.got() >= bytes)?;
                    Ok(cpu_seconds() - c0)
                }
            }
        };
        match go() { Ok(t) => Ok(t), Err(f) => { fail = Some(f); Err(Violation::new("", json!(null))) } }
    });
    if let Some(f) = fail { return Err(f) }
    if let Err(v) = r { return badw(v.what, json!({"measured": v.witness, "engine": e.wit()})) }
    c.stats.count("engines measured", 1);
    c.stats.nontrivial(&format!("{what} {} workers {}", e.workers, c.idx));
    Ok(())
}

// ---- C37 ------------------------------------------------------------------------------------------------------
const OVERTAKEN: u64 = 1500;
/// peers that never pause; a message of another peer must have its turn
fn c37(c: &mut Ctx) -> Res {
    let (ns, np, nd) = (2 + c.rng.below(4), 1 + c.rng.below(3), 1 + c.rng.below(2));
    let spec = c.spec(ns.max(np), np, nd);
    let e = Engine::start(c, spec)?;
    let ns = e.spec.sess.len();
    let replies = c.rng.chance(1, 2);
    let mut inb = Inbound::default();
    let mut quiet: Vec<(Peer, usize, usize)> = vec![];
    for s in 0..ns { let (p, conn) = join(c, &e, &mut inb, s, &format!("hello{s}"), None)?; quiet.push((p, conn, s)) }
    e.app.delay_us.store(if c.rng.chance(1, 2) { 600 } else { 300 }, SeqCst);
    e.app.reply.store(replies, SeqCst);
    let nf = 1 + c.rng.below(7);
    let one = c.rng.below(ns);
    let together = c.rng.chance(1, 3);
    let mut what = String::new();
    for k in 0..nf {
        let s = if together { one } else { c.rng.below(ns) };
        let mut batch = vec![];
        let mut malformed_ones = 0;
        while batch.len() < 40_000 {
            let m = peer_msg(&mut c.rng, &e.spec.dicts[e.spec.sess[s].dict].r, &e.spec.sess[s].id, &format!("flood{k}"));
            batch.extend_from_slice(m.text().as_bytes());
            if k % 3 == 2 && c.rng.chance(1, 4) { if let Some(t) = malformed(c, &e.spec, s, "bad") { if t.ends_with('\u{1}') && t.contains("\u{1}10=") { batch.extend_from_slice(t.as_bytes()); malformed_ones += 1 } } }
        }
        let mut p = Peer::connect(e.spec.sess[s].port, None)?;
        p.rx.forget.store(true, SeqCst);
        if c.rng.chance(1, 4) { p.rx.pause.store(true, SeqCst); }
        let _ = p.s.set_write_timeout(None);
        let pause = if k > 0 && c.rng.chance(1, 4) { 3 } else { 0 };
        what += &format!("{s}{}", if malformed_ones > 0 { "m" } else if pause > 0 { "p" } else { "" });
        // until the process ends
        std::thread::spawn(move || while p.s.write_all(&batch).is_ok() { if pause > 0 { std::thread::sleep(Duration::from_millis(pause)) } });
    }
    let full = e.delivered() + 300;
    wait_for("messages were not delivered", &|| e.delivered(), &|| e.delivered() >= full)?;
    let (mut late, mut worst, mut worst_reply) = (vec![], 0, 0);
    let n = if c.thorough { 16 } else { 6 };
    for i in 0..n {
        let uid = format!("probe{i}");
        let fresh = c.rng.chance(1, 3);
        let s = if c.rng.chance(1, 3) { one } else { c.rng.below(ns) };
        if fresh { let p = Peer::connect(e.spec.sess[s].port, None)?; let conn = inb.conn(); quiet.push((p, conn, s)) }
        let at = if fresh { quiet.len() - 1 } else { s };
        let m = peer_msg(&mut c.rng, &e.spec.dicts[e.spec.sess[s].dict].r, &e.spec.sess[s].id, &uid);
        let got = quiet[at].0.got();
        if let Err(x) = quiet[at].0.s.write_all(m.text().as_bytes()) { return badw(format!("sending failed: {x}"), e.wit()) }
        let before = e.delivered();
        let mut seen = 0; // entries of the log looked at
        let mut found = None;
        let t0 = Instant::now();
        let mut move_at = (before, Instant::now());
        while found.is_none() {
            { let log = e.app.log.lock().unwrap(); while seen < log.len() { if log[seen].uid.as_deref() == Some(&uid) { found = Some(seen as u64) } seen += 1 } }
            if found.is_some() { break }
            let d = e.delivered();
            if d > before + OVERTAKEN { break }
            if d != move_at.0 { move_at = (d, Instant::now()) }
            if move_at.1.elapsed() > Duration::from_secs(40) { return Err(Fail::Suspect(format!("nothing was delivered for {:.0} s while peers never pause", t0.elapsed().as_secs_f64()))) }
            std::thread::sleep(Duration::from_millis(1));
        }
        let how = if fresh { "the first message of a new connection" } else { "a message on a connection that was quiet" };
        match found {
            None => late.push(format!("{how} was not delivered while {OVERTAKEN} messages of others were")),
            Some(k) => {
                worst = worst.max(k.saturating_sub(before));
                c.stats.count("messages that had their turn", 1);
                if fresh { c.stats.count("of them the first of a new connection", 1) }
                if replies {
                    let d0 = e.delivered();
                    let t1 = Instant::now();
                    while quiet[at].0.got() == got && e.delivered() < d0 + OVERTAKEN && t1.elapsed() < Duration::from_secs(60) { std::thread::sleep(Duration::from_micros(500)) }
                    if quiet[at].0.got() == got { late.push(format!("the answer to {how} was not sent while {OVERTAKEN} messages of others were delivered")) } else { worst_reply = worst_reply.max(e.delivered() - d0); c.stats.count("answers that were sent in time", 1) }
                }
            }
        }
        if late.len() >= 3 { break }
    }
    c.stats.count("messages delivered meanwhile", e.delivered());
    c.stats.count("deliveries before a message's turn (sum of the worst)", worst);
    c.stats.count("deliveries before an answer was there (sum of the worst)", worst_reply);
    if late.len() >= 3 { return Err(Fail::Suspect(format!("{} peers never pause, and another one has to wait, several times: {}; {}", nf, late.join("; "), e.wit()))) }
    c.stats.nontrivial(&format!("flood {what} replies {replies} {ns} sessions {} workers", e.workers));
    Ok(())
}

// ---- C25 ------------------------------------------------------------------------------------------------------
fn c25(c: &mut Ctx) -> Res {
    let (ns, np) = if c.idx % 25 == 4 { (60 + c.rng.below(240), 1 + c.rng.below(36)) } else { (8 + c.rng.below(40), 1 + c.rng.below(6)) };
    if ns >= 60 { c.stats.count("scenarios with many sessions", 1) }
    let spec = c.spec(ns, np, 1);
    // a port that somebody else still has at start is served as soon as it is free
    let busy = if c.rng.chance(1, 6) { let port = spec.sess[c.rng.below(ns)].port; std::net::TcpListener::bind(("127.0.0.1", port)).ok().map(|l| (l, port)) } else { None };
    let mut e = Engine::start(c, spec)?;
    e.app.reply.store(true, SeqCst);
    // the engine may not be the first one of its configuration: an earlier one has ended, with peers still connected
    if busy.is_none() && c.rng.chance(1, 3) {
        for r in 0..1 + c.rng.below(2) {
            let mut left = vec![];
            for k in 0..1 + c.rng.below(12) { let s = c.rng.below(ns); left.push(serve(c, &e, s, &format!("earlier{r}-{k}"))?) }
            if c.rng.chance(1, 3) { while let Some(p) = left.pop() { p.close(); } }
            let (spec, _) = e.end();
            let after = c.rng.chance(1, 2); // whether those peers leave before or after the next engine starts
            if !after { left.clear() }
            e = Engine::start(c, spec)?;
            e.app.reply.store(true, SeqCst);
            left.clear();
            c.stats.count("engines started after an earlier one on the same ports", 1);
        }
    }
    if let Some((l, port)) = busy {
        if let Some(s) = e.spec.sess.iter().position(|s| s.port != port) { serve(c, &e, s, "meanwhile")?.close(); } // the others do not wait for it
        let long = c.rng.chance(1, 3);
        std::thread::sleep(Duration::from_millis(if long { 2000 + c.rng.below(5000) } else { c.rng.below(400) } as u64));
        if long { c.stats.count("ports busy for seconds", 1) }
        drop(l);
        c.stats.count("ports busy at start", 1);
    }
    // every configured port listens
    for s in &e.spec.sess {
        let t0 = Instant::now();
        loop { match raw_connect(s.port, None) { Ok(_) => break, Err(x) => { if t0.elapsed() > Duration::from_secs(20) { return badw(format!("port {} of session {} does not accept connections: {x}", s.port, s.sid), e.wit()) } std::thread::sleep(Duration::from_millis(5)) } } }
    }
    c.stats.count("ports listening", np as u64);
    // what earlier connections leave behind must not add up, and silent ones must not use up a turn
    if c.rng.chance(1, 8) {
        let n = 600 + c.rng.below(1200);
        for _ in 0..n { let port = e.spec.sess[c.rng.below(ns)].port; match raw_connect(port, None) { Ok(s) => if c.rng.chance(1, 2) { Peer::of(s).reset(); } else { drop(s) }, Err(x) => return badw(format!("a connection to port {port} was refused: {x}"), e.wit()) } }
        c.stats.count("connections that came and went", n as u64);
    }
    let mut idle = vec![];
    if c.rng.chance(1, 6) {
        for _ in 0..100 + c.rng.below(200) { let port = e.spec.sess[c.rng.below(ns)].port; match raw_connect(port, None) { Ok(mut s) => { if c.rng.chance(1, 4) { let _ = s.write_all(b"8=FIX.4.3\x019=12"); } idle.push(s) } Err(x) => return badw(format!("a connection to port {port} was refused: {x}"), e.wit()) } }
        c.stats.count("connections held open and silent", idle.len() as u64);
    }
    // peers that connect while the process has no descriptor left are served when it has some again
    #[cfg(feature = "countalloc")]
    if c.rng.chance(1, 6) {
        let n = 1 + c.rng.below(6);
        let socks: Vec<(usize, std::net::TcpStream)> = (0..n).map(|_| (c.rng.below(ns), unconnected().expect("socket"))).collect();
        let lim = Limit::none_left();
        let mut late = vec![];
        for (k, (s, sock)) in socks.into_iter().enumerate() {
            let port = e.spec.sess[s].port;
            match connect_to(sock, port) { Ok(x) => late.push((s, format!("late{k}"), x)), Err(x) => return badw(format!("a connection to port {port} was refused while descriptors were short: {x}"), e.wit()) }
        }
        let long = c.rng.chance(1, 3);
        std::thread::sleep(Duration::from_millis(20 + if long { 2000 + c.rng.below(5000) } else { c.rng.below(300) } as u64));
        if long { c.stats.count("descriptor shortages of seconds", 1) }
        drop(lim);
        for (s, uid, x) in late {
            let mut p = Peer::of(x);
            let m = peer_msg(&mut c.rng, &e.spec.dicts[e.spec.sess[s].dict].r, &e.spec.sess[s].id, &uid);
            if let Err(x) = p.s.write_all(m.text().as_bytes()) { return badw(format!("a peer that connected while descriptors were short: {x}"), e.wit()) }
            answered(&e, &p, &uid, "a peer that connected while descriptors were short")?;
            p.close();
            c.stats.count("peers that connected while descriptors were short", 1);
        }
    }
    let waves = 2 + c.rng.below(4);
    let mut trace = String::new();
    let mut total = 0;
    for w in 0..waves {
        // earlier connections that come and go in several ways
        for _ in 0..c.rng.below(40) {
            let port = e.spec.sess[c.rng.below(ns)].port;
            match raw_connect(port, None) { Ok(mut s) => { let p = match c.rng.below(4) { 0 => Peer::of(s), 1 => { let _ = s.write_all(b"8=FIX.4.3\x01"); Peer::of(s) } 2 => { let _ = s.write_all(b"junk\x0110=1\x01"); Peer::of(s) } _ => { drop(s); continue } }; if c.rng.chance(1, 2) { p.reset(); } else { p.close(); } }
                Err(x) => return badw(format!("a connection to port {port} was refused: {x}"), e.wit()) }
            c.stats.count("connections that came and went", 1);
        }
        let mut order: Vec<usize> = (0..ns).collect();
        c.rng.shuffle(&mut order);
        let k = if c.rng.chance(1, 3) { 1 } else { 2 + c.rng.below(ns - 1) };
        let chosen: Vec<usize> = order[..k.min(ns)].to_vec();
        trace += &format!("{} ", chosen.len());
        let msgs: Vec<(usize, String, String)> = chosen.iter().map(|s| { let uid = format!("w{w}-{s}"); let m = peer_msg(&mut c.rng, &e.spec.dicts[e.spec.sess[*s].dict].r, &e.spec.sess[*s].id, &uid); (*s, uid, m.text()) }).collect();
        let barrier = std::sync::Barrier::new(msgs.len());
        let silent_first = c.rng.chance(1, 4); // all connect before anybody says anything
        let e2 = &e;
        let rs: Vec<Res<Peer>> = std::thread::scope(|sc| {
            let hs: Vec<_> = msgs.iter().map(|(s, uid, text)| { let b = &barrier; std::thread::Builder::new().stack_size(256 << 10).spawn_scoped(sc, move || -> Res<Peer> {
                b.wait();
                let port = e2.spec.sess[*s].port;
                let who = format!("peer {uid} on port {port}");
                let st = match raw_connect(port, None) { Ok(s) => s, Err(x) => { b.wait(); return badw(format!("{who}: connection refused: {x}"), e2.wit()) } };
                let mut p = Peer::of(st);
                if silent_first { b.wait(); }
                if let Err(x) = p.s.write_all(text.as_bytes()) { return badw(format!("{who}: {x}"), e2.wit()) }
                let want = |e: &Engine| e.app.replies.lock().unwrap().iter().find(|r| r.1 == format!("re-{uid}")).map(|r| r.2.clone());
                let ok = wait_for(&format!("{who} is ignored"), &|| e2.delivered() + p.got(), &|| p.lost().is_some() || want(e2).map_or(false, |w| p.text().contains(&w)));
                if let Some(l) = p.lost() { return badw(format!("{who}: {l} without being served"), e2.wit()) }
                ok?;
                Ok(p)
            }).unwrap() }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail::Suspect("monitor thread".into())))).collect()
        });
        let mut peers = vec![];
        let mut susp = None;
        for r in rs { match r { Ok(p) => peers.push(p), Err(Fail::Violation(a, b)) => return Err(Fail::Violation(a, b)), Err(x) => susp = Some(x) } }
        if let Some(x) = susp { return Err(x) }
        total += peers.len();
        for p in peers { if c.rng.chance(1, 3) { p.reset(); } else { p.close(); } }
    }
    c.stats.count("peers served", total as u64);
    c.stats.count("bursts", waves as u64);
    c.stats.nontrivial(&format!("{ns} sessions on {np} ports, waves {trace}"));
    Ok(())
}

// ---- C26 ------------------------------------------------------------------------------------------------------
fn fds() -> usize { std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count()) }
fn c26(c: &mut Ctx) -> Res {
    let (ns, np) = (1 + c.rng.below(5), 1 + c.rng.below(2));
    let spec = c.spec(ns.max(np), np, 1);
    let e = Engine::start(c, spec)?;
    let ns = e.spec.sess.len();
    let mut inb = Inbound::default();
    let (keep, kconn) = join(c, &e, &mut inb, 0, "keep", None)?;
    for s in &e.spec.sess { Peer::connect(s.port, None)?.close(); }
    std::thread::sleep(Duration::from_millis(100));
    let base = fds();
    e.app.reply.store(c.rng.chance(1, 2), SeqCst);
    let total = if c.idx % 30 == 5 { 1500 } else { *c.rng.pick(&[5usize, 20, 60, 120]) };
    let mut kinds = [0u64; 7];
    let mut held: Vec<Peer> = vec![];
    for i in 0..total {
        let s = if ns > 1 { 1 + c.rng.below(ns - 1) } else { 0 };
        let mut p = Peer::connect(e.spec.sess[s].port, None)?;
        let k = c.rng.below(7);
        kinds[k] += 1;
        let whole = |c: &mut Ctx, inb: &mut Inbound, p: &mut Peer| { let uid = format!("p{i}"); let m = peer_msg(&mut c.rng, &e.spec.dicts[e.spec.sess[s].dict].r, &e.spec.sess[s].id, &uid); let t = m.text(); let conn = inb.conn(); inb.add(conn, uid, s, m); let _ = p.s.write_all(t.as_bytes()); };
        match k {
            0 => { p.close(); }
            1 => { p.reset(); }
            2 => { let _ = p.s.write_all(b"8=FIX.4.3\x019=10\x0135"); p.close(); }
            3 => { whole(c, &mut inb, &mut p); p.close(); }
            4 => { whole(c, &mut inb, &mut p); nap(&mut c.rng, 3000); p.reset(); }
            6 => { // one connection that carries several sessions
                let port = e.spec.sess[s].port; let mine: Vec<usize> = (0..ns).filter(|t| e.spec.sess[*t].port == port).collect();
                let conn = inb.conn(); let mut t = String::new();
                for j in 0..1 + c.rng.below(2 * mine.len()) { let s = *c.rng.pick(&mine); let uid = format!("p{i}-{j}"); let m = peer_msg(&mut c.rng, &e.spec.dicts[e.spec.sess[s].dict].r, &e.spec.sess[s].id, &uid); t += &m.text(); inb.add(conn, uid, s, m); }
                let _ = p.s.write_all(t.as_bytes()); nap(&mut c.rng, 3000);
                if c.rng.chance(1, 3) { held.push(p) } else { p.close(); }
            }
            _ => { whole(c, &mut inb, &mut p); nap(&mut c.rng, 3000); held.push(p); }
        }
        if held.len() > 5 { held.swap_remove(0).close(); }
    }
    for p in held { p.close(); }
    let t0 = Instant::now();
    let mut f = fds();
    while f > base + 3 && t0.elapsed() < Duration::from_secs(20) { std::thread::sleep(Duration::from_millis(20)); f = fds() }
    if f > base + 3 { return badw(format!("{total} peers have come and gone, {} file descriptors are still held for them after 20 s ({base} before, {f} now)", f - base), json!({"kinds of departure": kinds, "engine": e.wit()})) }
    let settle = t0.elapsed();
    // idle: no processor time beyond the monitor's own few wake-ups
    let mut worst = f64::MAX;
    for _ in 0..4 { let c0 = cpu_seconds(); let t = Instant::now(); std::thread::sleep(Duration::from_millis(700)); let u = (cpu_seconds() - c0) / t.elapsed().as_secs_f64(); worst = worst.min(u); if u < 0.2 { break } }
    if worst >= 0.2 { return badw(format!("after {total} peers have left, the idle engine uses {:.0} % of a processor", worst * 100.0), json!({"kinds of departure": kinds, "engine": e.wit()})) }
    // and it still works
    let mut keep = keep;
    hello(c, &e, &mut inb, &mut keep, kconn, 0, "keep-after")?;
    inb_check_loose(&inb, &e)?;
    c.stats.count("departed peers", total as u64);
    c.stats.count("descriptors back to the baseline", 1);
    c.stats.count("idle processor share, per mille (sum)", (worst * 1000.0) as u64);
    c.stats.count("settling time ms (sum)", settle.as_millis() as u64);
    c.stats.nontrivial(&format!("{total} peers, departures {kinds:?}, {} workers", e.workers));
    Ok(())
}
fn inb_check_loose(inb: &Inbound, e: &Engine) -> Res { inb.check(e, &mut Stats::default()).map(|_| ()) }

// ---- C29 ------------------------------------------------------------------------------------------------------
fn c29(c: &mut Ctx) -> Res {
    let ns = if c.idx % 40 == 3 { 15 + c.rng.below(35) } else { 2 + c.rng.below(5) };
    let port = c.port();
    // dictionaries derived from one another so that the same bytes mean different things
    let mut dicts = vec![c.dict()];
    for _ in 0..if ns > 14 { 12 } else { 1 + c.rng.below(3) } { let d = c.dict(); dicts.push(d) }
    for _ in 0..1 + c.rng.below(3) { let x = variant(c, &dicts[0].xml); if let Some((r, xml)) = x { let d = c.keep(r, xml); dicts.push(d); c.stats.count("variants of a dictionary", 1) } }
    let shipped = codec::shipped();
    let nd = dicts.len();
    let ids = c.idents(ns);
    // where each session's dictionary is named: in its own section, in the default one, or nowhere (the shipped one)
    let default = if c.rng.chance(2, 3) { Some(c.rng.below(nd)) } else { None };
    let mut cfg = format!("[Default]\nconnection_type = acceptor\nsocket_accept_port = {port}\n");
    if let Some(d) = default { cfg += &format!("data_dictionary = {}\n", dicts[d].path) }
    let mut sess = vec![];
    let mut which: Vec<Option<usize>> = vec![];
    for id in ids {
        let own = if c.rng.chance(2, 3) { Some(c.rng.below(nd)) } else { None };
        cfg += &format!("[Session]\nbegin_string = {}\nsender_comp_id = {}\ntarget_comp_id = {}\n", id.begin, id.s, id.t);
        for (k, v) in [("sender_sub_id", &id.ss), ("sender_location_id", &id.sl), ("target_sub_id", &id.ts), ("target_location_id", &id.tl)] { if let Some(v) = v { cfg += &format!("{k} = {v}\n") } }
        if let Some(d) = own { cfg += &format!("data_dictionary = \"{}\"\n", dicts[d].path) }
        let w = own.or(default);
        c.stats.count(if own.is_some() { "dictionary of its own" } else if default.is_some() { "dictionary of the default section" } else { "shipped dictionary" }, 1);
        which.push(w);
        sess.push(Sess { sid: sid_of(&id), id, port, dict: w.unwrap_or(0) });
    }
    let loaded: Vec<DataDictionary> = dicts.iter().map(|d| DataDictionary::from_str(&d.xml).unwrap()).collect();
    let rd = |w: Option<usize>| match w { Some(d) => &dicts[d].r, None => &shipped.r };
    let own_dd = |w: Option<usize>| match w { Some(d) => &loaded[d], None => &shipped.dd };
    // messages conforming to some dictionary of the configuration, re-addressed to every session
    let mut plan: Vec<(usize, String, String)> = vec![]; // session, unique id, text
    let mut expect: HashMap<String, (usize, Result<Message, String>)> = HashMap::new();
    let mut uses: Vec<Option<usize>> = which.clone(); uses.sort(); uses.dedup();
    let mut n = 0;
    for _ in 0..6 + c.rng.below(10) {
        let src = *c.rng.pick(&uses);
        let a = gen_msg_retry(&mut c.rng, rd(src));
        for s in 0..ns {
            let uid = format!("m{n}"); n += 1;
            let mut m = a.clone();
            m.header.retain(|x| ![49, 56, 50, 142, 57, 143].contains(&x.tag));
            for (t, v) in sess[s].id.reverse().toks() { if t == 8 { m.header[0].value = v } else { m.header.insert(3, crate::absmsg::Node::leaf(t, v)) } }
            m.body.retain(|x| x.tag != ID);
            m.body.insert(0, crate::absmsg::Node::leaf(ID, uid.clone()));
            seal(&mut m);
            let text = m.text();
            let want = Message::from_str(&text, own_dd(which[s])).map_err(|e| e.to_string());
            c.stats.count(if want.is_ok() { "to be accepted" } else { "to be rejected" }, 1);
            expect.insert(uid.clone(), (s, want));
            plan.push((s, uid, text));
        }
    }
    let spec = Spec { dicts: vec![], sess, config: cfg };
    let e = Engine::start(c, spec)?;
    let mut peers: Vec<Peer> = vec![];
    for _ in 0..ns { peers.push(Peer::connect(port, None)?) }
    let mut r = Rng::new(c.rng.next(), "c29", 0);
    // order of arrival mixed over the sessions; each session has its own connection
    let mut q: Vec<std::collections::VecDeque<(String, String)>> = vec![Default::default(); ns];
    for (s, u, t) in plan { q[s].push_back((u, t)) }
    let mut sent: Vec<Vec<String>> = vec![vec![]; ns];
    loop { let open: Vec<usize> = (0..ns).filter(|s| !q[*s].is_empty()).collect(); if open.is_empty() { break } let s = *r.pick(&open); let (u, t) = q[s].pop_front().unwrap(); if let Err(x) = peers[s].s.write_all(t.as_bytes()) { return badw(format!("sending failed: {x}"), e.wit()) } sent[s].push(u); }
    // a message every dictionary accepts closes each connection's sequence
    for s in 0..ns {
        let uid = format!("end{s}");
        let m = loop { let mut m = gen_msg_retry(&mut c.rng, rd(which[s])); m.header.retain(|x| ![49, 56, 50, 142, 57, 143].contains(&x.tag)); for (t, v) in e.spec.sess[s].id.reverse().toks() { if t == 8 { m.header[0].value = v } else { m.header.insert(3, crate::absmsg::Node::leaf(t, v)) } } m.body.retain(|x| x.tag != ID); m.body.insert(0, crate::absmsg::Node::leaf(ID, uid.clone())); seal(&mut m); if let Ok(x) = Message::from_str(&m.text(), own_dd(which[s])) { expect.insert(uid.clone(), (s, Ok(x))); break m } };
        if let Err(x) = peers[s].s.write_all(m.text().as_bytes()) { return badw(format!("sending failed: {x}"), e.wit()) }
        sent[s].push(uid);
    }
    let ended = |e: &Engine| e.app.log.lock().unwrap().iter().filter(|d| d.uid.as_deref().map_or(false, |u| u.starts_with("end"))).count();
    let res = wait_for("the last messages were not delivered", &|| e.delivered(), &|| ended(&e) >= ns);
    let log = e.app.log.lock().unwrap();
    let mut got: HashSet<String> = HashSet::new();
    for d in log.iter() {
        let u = d.uid.clone().unwrap_or_default();
        let Some((s, want)) = expect.get(&u) else { return badw(format!("unknown message {u} delivered"), e.wit()) };
        let w = || json!({"message": show(&d.msg.to_string(), 3000), "dictionary": which[*s].map_or("shipped".into(), |d| show(&dicts[d].xml, 8000)), "configuration": e.spec.config});
        if d.sid != e.spec.sess[*s].sid { return badw(format!("{u} delivered under {} instead of {}", d.sid, e.spec.sess[*s].sid), w()) }
        match want {
            Err(x) => return badw(format!("session {}: a message its own dictionary rejects ({x}) was delivered", d.sid), w()),
            Ok(m) => { if shape(m) != shape(&d.msg) { return badw(format!("session {}: a message was not interpreted by the session's own dictionary", d.sid), json!({"w": w(), "expected": format!("{:?}", shape(m)), "got": format!("{:?}", shape(&d.msg))})) } }
        }
        got.insert(u);
        c.stats.count("deliveries compared", 1);
    }
    if res.is_err() { return annotate(res, &format!("{} delivered", got.len()), e.wit()) }
    for (u, (s, want)) in &expect { if want.is_ok() && !got.contains(u) { return badw(format!("session {}: a message its own dictionary accepts was not delivered", e.spec.sess[*s].sid), json!({"dictionary": which[*s].map_or("shipped".into(), |d| show(&dicts[d].xml, 8000)), "id": u, "configuration": e.spec.config})) } if want.is_err() { c.stats.count("rejections observed", 1) } }
    c.stats.nontrivial(&format!("{which:?} {}", expect.len()));
    Ok(())
}
/// everything a message says: fields per section and the structure of its groups
fn shape(m: &Message) -> Vec<String> {
    fn walk(fm: &fix_rs::verif::FieldMap, path: &str, out: &mut Vec<String>) {
        let toks = crate::absmsg::iter_toks(fm);
        let mut seen = HashSet::new();
        for (t, v) in &toks { out.push(format!("{path}:{t}={v}")); if seen.insert(*t) { if let Some(g) = fm.get_group(*t) { for i in 0..g.size() as usize { walk(&g[i], &format!("{path}/{t}[{i}]"), out) } } } }
    }
    let mut v = vec![];
    walk(m.header(), "h", &mut v); walk(m.body(), "b", &mut v); walk(m.trailer(), "t", &mut v);
    v.sort();
    v
}
/// the same dictionary with groups flattened to plain fields, members reversed or a group's members moved out
fn variant(c: &mut Ctx, xml: &str) -> Option<(crate::absdict::RDict, String)> {
    use crate::absdict::{ADict, Item};
    let mut a = ADict::read(xml);
    fn twist(r: &mut Rng, items: &mut Vec<Item>) {
        for it in items.iter_mut() { if let Item::Group { num, req, items: inner } = it { match r.below(3) { 0 => { let (n, q) = (*num, *req); *it = Item::Field { num: n, req: q } } 1 => inner.reverse(), _ => twist(r, inner) } } }
    }
    for m in &mut a.msgs { twist(&mut c.rng, &mut m.items) }
    for k in &mut a.comps { twist(&mut c.rng, &mut k.items) }
    twist(&mut c.rng, &mut a.header);
    let x = a.to_xml(&mut c.rng);
    if matches!(guard(|| DataDictionary::from_str(&x)), Ok(Ok(_))) { Some((a.resolve(), x)) } else { None }
}

// ---- C27 ------------------------------------------------------------------------------------------------------
/// what is registered through any handle while the engine runs is what the engine and its application use next
fn c27(c: &mut Ctx) -> Res {
    let (ns, nd) = (2 + c.rng.below(4), 2 + c.rng.below(2));
    let spec = c.spec(ns, 1, nd);
    let e = Engine::start(c, spec)?;
    let port = e.spec.sess[0].port;
    let mut inb = Inbound::default();
    let (_keep, _) = join(c, &e, &mut inb, 0, "hello", None)?;
    let map = if c.rng.chance(1, 2) { e.map() } else { e.map().clone() };
    let loaded: Vec<DataDictionary> = e.spec.dicts.iter().map(|d| DataDictionary::from_str(&d.xml).unwrap()).collect();
    let mut who: Vec<(Ident, Option<usize>)> = e.spec.sess.iter().map(|s| (s.id.clone(), Some(s.dict))).collect();
    for id in c.idents(12) { if who.len() < ns + 3 && !who.iter().any(|w| w.0 == id) { who.push((id, None)) } }
    let mut p = Peer::connect(port, None)?;
    let mut want: Vec<(String, SessionId, Message)> = vec![];
    let mut trace = String::new();
    let mut n = 0;
    for round in 0..4 + c.rng.below(6) {
        // one identity is registered anew or its session replaced
        let k = c.rng.below(who.len());
        let d = c.rng.below(nd);
        if round > 0 {
            let (id, path) = (&who[k].0, &e.spec.dicts[d].path);
            let mut t = format!("[Default]\nconnection_type = acceptor\nsocket_accept_port = {port}\n[Session]\nbegin_string = {}\nsender_comp_id = {}\ntarget_comp_id = {}\ndata_dictionary = {path}\n", id.begin, id.s, id.t);
            for (k, v) in [("sender_sub_id", &id.ss), ("sender_location_id", &id.sl), ("target_sub_id", &id.ts), ("target_location_id", &id.tl)] { if let Some(v) = v { t += &format!("{k} = {v}\n") } }
            let sid = sid_of(id);
            let s = match guard(|| Session::with_settings(&sid, &fix_rs::verif::Properties::from_str(&t))) { Ok(s) => s, Err(p) => return badw(format!("creating a session panicked: {p}"), json!({"configuration": t})) };
            let how = c.rng.below(3);
            match how { 0 => map.insert_session(sid.clone(), s), 1 => { let s2 = s.clone(); let _ = map.entry(&sid).and_modify(|x| *x = s2).or_insert(s); } _ => { let _ = map.entry(&sid).insert(s); } }
            trace += &format!("{}{}", if who[k].1.is_none() { "new" } else { "replaced" }, how);
            c.stats.count(if who[k].1.is_none() { "sessions registered while running" } else { "sessions replaced while running" }, 1);
            who[k].1 = Some(d);
        }
        // every identity is addressed by messages of every dictionary
        let mut t = String::new();
        for (id, dict) in &who {
            for x in 0..nd {
                let uid = format!("r{n}"); n += 1;
                let m = peer_msg(&mut c.rng, &e.spec.dicts[x].r, id, &uid);
                t += &m.text();
                if let Some(d) = dict { if let Ok(v) = Message::from_str(&m.text(), &loaded[*d]) { want.push((uid, sid_of(id), v)) } }
            }
        }
        // a message that is certain to be delivered ends the round
        let uid = format!("end{round}");
        let m = peer_msg(&mut c.rng, &e.spec.dicts[who[0].1.unwrap()].r, &who[0].0, &uid);
        t += &m.text();
        want.push((uid.clone(), sid_of(&who[0].0), Message::from_str(&m.text(), &loaded[who[0].1.unwrap()]).map_err(|x| Fail::Suspect(x.to_string()))?));
        if let Err(x) = p.s.write_all(t.as_bytes()) { return badw(format!("sending failed: {x}"), e.wit()) }
        wait_for("the last message of a round was not delivered", &|| e.delivered(), &|| e.app.log.lock().unwrap().iter().any(|d| d.uid.as_deref() == Some(&uid)))?;
    }
    let log = e.app.log.lock().unwrap();
    let got: Vec<&Deliv> = log.iter().filter(|d| d.uid.as_deref() != Some("hello")).collect();
    for (i, d) in got.iter().enumerate() {
        let u = d.uid.clone().unwrap_or_default();
        let Some((wu, ws, wm)) = want.get(i) else { return badw(format!("message {u} was delivered without a session registered that accepts it"), e.wit()) };
        if *wu != u { return badw(format!("message {u} was delivered where {wu} is next: the sessions registered while running are not the ones used"), e.wit()) }
        if d.sid != *ws { return badw(format!("message {u} was delivered under {} instead of {ws}", d.sid), e.wit()) }
        if shape(&d.msg) != shape(wm) { return badw(format!("message {u} was not read by the dictionary of the session registered last"), e.wit()) }
    }
    if got.len() != want.len() { return badw(format!("{} messages delivered, expected {}", got.len(), want.len()), e.wit()) }
    c.stats.count("deliveries explained by the latest registration", got.len() as u64);
    c.stats.nontrivial(&trace);
    Ok(())
}

// ---- child and parent -----------------------------------------------------------------------------------------
pub fn child(prop: &str, seed: u64, idx: u64, ports: Vec<u16>, thorough: bool, dir: &str, out: &str) -> i32 {
    unsafe { let mut l: libc::rlimit = std::mem::zeroed(); if libc::getrlimit(libc::RLIMIT_NOFILE, &mut l) == 0 { l.rlim_cur = l.rlim_max; libc::setrlimit(libc::RLIMIT_NOFILE, &l); } }
    let mut c = Ctx { rng: Rng::new(seed, prop, idx), stats: Stats::default(), dir: dir.to_string(), ports, thorough, idx };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match prop { "C21" => c21(&mut c), "C22" => c22(&mut c), "C23" => c23(&mut c), "C24" => c24(&mut c), "C25" => c25(&mut c), "C26" => c26(&mut c), "C29" => c29(&mut c), "C34" => c34(&mut c), "C35" => c35(&mut c), "C36" => c36(&mut c), "C37" => c37(&mut c), "C27" => c27(&mut c), "C31" => crate::program::c31(&mut c), _ => Err(Fail::Suspect("unknown scenario".into())) }));
    let (verdict, what, w) = match r { Ok(Ok(())) => ("ok", String::new(), json!(null)), Ok(Err(Fail::Violation(a, b))) => ("violation", a, b), Ok(Err(Fail::Suspect(a))) => ("suspect", a, json!(null)), Err(_) => ("error", "the monitor panicked".into(), json!(null)) };
    let (verdict, what, w) = match NO_TEXT.lock().unwrap().take() { Some(b) => ("violation", "undefined behaviour: a message was delivered whose text is a String that does not hold UTF-8".to_string(), json!({"bytes": b, "besides": what})), None => (verdict, what, w) };
    let panics = PANICS.lock().unwrap().clone();
    let v = json!({"verdict": verdict, "what": what, "witness": w, "panics": panics, "counters": c.stats.counters, "distinct": c.stats.distinct.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "samples": c.stats.samples});
    std::fs::write(out, v.to_string()).expect("result file");
    0
}
/// leases a range of loopback ports below the ephemeral ones, so that concurrent runs do not meet
fn lease() -> (std::fs::File, u16) {
    use std::os::unix::io::AsRawFd;
    let d = std::env::temp_dir().join("fixrs-verif-ports");
    let _ = std::fs::create_dir_all(&d);
    loop {
        for k in 0..7u16 {
            let f = std::fs::OpenOptions::new().create(true).write(true).open(d.join(format!("{k}"))).expect("port lease");
            if unsafe { libc::flock(f.as_raw_fd(), libc::LOCK_EX | libc::LOCK_NB) } == 0 { return (f, 10_000 + k * 3000) }
        }
        std::thread::sleep(Duration::from_millis(200));
    }
}
enum Ran { Done(Value), Died(String), Hung }
fn run_child(o: &Opts, idx: u64, ports: &[u16], limit: Duration) -> Ran {
    let work = std::env::var("VERIF_WORK").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().to_string());
    let dir = format!("{work}/s{}-{}-{}", std::process::id(), idx, ports[0]);
    std::fs::create_dir_all(&dir).expect("scratch");
    let outf = format!("{dir}/out.json");
    let err = std::fs::File::create(format!("{dir}/stderr")).expect("scratch");
    let ps = ports.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(",");
    let mut ch = std::process::Command::new(std::env::current_exe().expect("exe")).args(["scenario", &o.prop, &o.seed.to_string(), &idx.to_string(), &ps, &o.tier, &dir, &outf])
        .stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(err).spawn().expect("spawn scenario");
    let t0 = Instant::now();
    let status = loop { match ch.try_wait().expect("wait") { Some(s) => break Some(s), None => { if t0.elapsed() > limit { let _ = ch.kill(); let _ = ch.wait(); break None } std::thread::sleep(Duration::from_millis(5)) } } };
    let out = std::fs::read_to_string(&outf).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok());
    let errs = std::fs::read_to_string(format!("{dir}/stderr")).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);
    match (status, out) { (Some(s), Some(v)) if s.success() => Ran::Done(v), (None, _) => Ran::Hung, (Some(s), _) => Ran::Died(format!("{s}: {}", show(&errs, 1500))) }
}
pub fn net_check(o: &Opts) -> Outcome {
    let (quick, secs) = match o.prop.as_str() { "C21" => (480, 75), "C22" => (600, 75), "C23" => (400, 75), "C24" => (400, 90), "C25" => (200, 75), "C26" => (120, 75), "C27" => (24000, 75), "C31" => (240, 75), "C34" => (32, 75), "C35" => (96, 75), "C36" => (200, 75), "C37" => (360, 75), _ => (300, 60) };
    let (_lease, base) = lease();
    let free: Mutex<Vec<u16>> = Mutex::new((0..SLOTS as u16).collect());
    let turn: Vec<std::sync::atomic::AtomicU64> = (0..SLOTS).map(|_| std::sync::atomic::AtomicU64::new(0)).collect();
    let mut out = run_cases(o, o.pick(quick, quick * 100), o.pick(10, 100), o.pick(secs, 3600), |c| {
        if o.prop == "C27" && c.idx % 120 != 0 { return if c.idx % 1200 == 7 { crate::race::c27_many(c) } else { crate::race::c27_history(c) } }
        if o.prop == "C36" && c.idx % 8 != 0 { return crate::work::case(c) }
        let slot = free.lock().unwrap().pop().expect("slot");
        let res = (|| -> CaseResult {
            for attempt in 0..3 {
                // 180 ports per slot, used round robin
                let k = turn[slot as usize].fetch_add(1, Relaxed);
                let ports: Vec<u16> = (0..60u16).map(|i| base + slot * 180 + ((k * 20) as u16 % 180 + i) % 180).collect();
                let ran = run_child(o, c.idx, &ports, Duration::from_secs(240));
                let why = match ran {
                    Ran::Done(v) => {
                        let txt = |k: &str| v[k].as_str().unwrap_or("").to_string();
                        match v["verdict"].as_str().unwrap_or("") {
                            "ok" => {
                                for (k, n) in v["counters"].as_object().unwrap() { c.stats.count(k, n.as_u64().unwrap_or(0)) }
                                for d in v["distinct"].as_array().unwrap() { if let Ok(x) = d.as_str().unwrap_or("").parse() { c.stats.trials += 1; c.stats.distinct.insert(x); } }
                                for s in v["samples"].as_array().unwrap() { if c.stats.samples.len() < 2 { c.stats.samples.push(s.as_str().unwrap_or("").into()) } }
                                if attempt > 0 { c.stats.count("scenarios repeated", 1) }
                                return Ok(());
                            }
                            "violation" => return Err(Violation::new(txt("what"), json!({"detail": v["witness"], "panics in the process": v["panics"]}))),
                            _ => txt("what"),
                        }
                    }
                    Ran::Hung => "the scenario did not end within 240 s".to_string(),
                    Ran::Died(s) => format!("the engine's process died: {s}"),
                };
                c.stats.count("suspect runs", 1);
                if attempt == 2 || (attempt == 1 && c.stats.counters.get("suspect runs").copied().unwrap_or(0) >= 2) { return Err(Violation::new(format!("{why} (observed again on repeating the scenario)"), json!(null))) }
            }
            Ok(())
        })();
        free.lock().unwrap().push(slot);
        res
    });
    out.rule = match o.prop.as_str() {
        "C21" => "scenarios: a real engine (1-8 workers, several sessions, ports and dictionaries) and up to 8 peers sending up to 150 conforming messages each in random segmentation; every delivery is compared with what was sent; distinct = different interleavings of deliveries by connection",
        "C22" => "scenarios: up to 6 threads and the application callback sending bursts to up to 4 connected peers, some slow or paused; every received byte is compared; distinct = different interleavings of arrivals by sender",
        "C23" => "scenarios: peers of sessions sharing ports connect, identify, leave and return while threads send to all sessions; every received message is compared with its addressee; distinct = different distributions of received messages over connections",
        "C24" => "scenarios: hostile acts of eleven kinds next to two well-behaved sessions with traffic in both directions; distinct = different sequences of hostile acts",
        "C25" => "scenarios: up to 48 sessions on up to 6 ports, connections that come and go, bursts of simultaneous peers that must each be served; distinct = different burst shapes",
        "C27" => "histories: 2-6 threads registering, updating, looking up and listing up to 12 sessions through clones, checked for linearizability per identity; scenarios: sessions registered or replaced while a live engine runs, whose next messages must be served by them; distinct = different orders of operations",
        "C31" => "scenarios: the shipped program as a process of its own with a random configuration, peers that come, send well-formed, malformed and unaddressed messages and go; every byte received is judged; distinct = different orders of acts",
        "C34" => "scenarios: the application stands still while 2 to 5 peers offer 24 MB in messages of 4 to 60 kB, once or twice; the heap of the engine's process is sampled every 20 ms, and afterwards every message must be delivered once, in order; distinct = different mixes",
        "C36" => "one operation on an input and on one sixteen times as large, by processor time of the thread or of the engine: parsing, rejecting, serialising, totals, copies and building of messages of six shapes, identities of long raw messages, configurations with many entries, a large message arriving in pieces, many messages in and out; distinct = different operations and contents",
        "C37" => "scenarios: 1 to 7 peers that send without pause and an application that takes a fraction of a millisecond per message; messages of other peers, on old and new connections, must be delivered, and answered, before 1500 others are; distinct = different floods and engines",
        "C35" => "scenarios: one warm-up portion of work and 3 more (9 when the heap has grown): messages in over lasting connections, connections that come and go, messages out, mixtures of them, or dictionaries, configurations and messages read and dropped; the bytes in use by the process when nothing is in flight are compared between portions; distinct = different kinds of history and engines",
        "C26" => "scenarios: up to 120 peers that leave in six ways, then descriptors and processor time of the idle engine; distinct = different departure mixes",
        _ => "scenarios: several sessions with different dictionaries, the same message bodies sent to all; what is delivered is compared with a parse under the session's own dictionary; distinct = different assignments of dictionaries",
    }.into();
    out.assumptions = vec!["loopback TCP delivers in order and without loss while both ends are open".into()];
    out
}
#[allow(unused)]
fn unused(_: SessionIdBuilder) { let _ = (render as fn(&[crate::absmsg::Tok]) -> String, value as fn(&mut Rng) -> String); }
