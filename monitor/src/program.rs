//! C31: the shipped program itself, as a process of its own, between peers on loopback sockets.
use crate::codec;
use crate::ident::Ident;
use crate::net::*;
use crate::netprops::malformed;
use crate::report::*;
use serde_json::json;
use std::io::Write;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

struct Running(Child);
impl Drop for Running { fn drop(&mut self) { let _ = self.0.kill(); let _ = self.0.wait(); } }
fn now_ms() -> i64 { SystemTime::now().duration_since(UNIX_EPOCH).map_or(0, |d| d.as_millis() as i64) }

/// one answer: a complete logon message with right totals, stamped between these times
fn judge(f: &str, from: i64, to: i64) -> Result<(), String> {
    let toks: Vec<(&str, &str)> = f.split_terminator('\u{1}').map(|t| t.split_once('=').unwrap_or((t, ""))).collect();
    let get = |k: &str| { let v: Vec<&str> = toks.iter().filter(|t| t.0 == k).map(|t| t.1).collect(); if v.len() == 1 { Ok(v[0]) } else { Err(format!("tag {k} occurs {} times", v.len())) } };
    if !f.ends_with('\u{1}') || toks.len() < 5 || toks[0].0 != "8" || toks[1].0 != "9" || toks[2].0 != "35" || toks.last().unwrap().0 != "10" { return Err("it is not framed as a message".into()) }
    if toks[2].1 != "A" { return Err(format!("it is of type {}, not a logon", toks[2].1)) }
    for k in ["49", "56", "34", "98", "108"] { if get(k)?.is_empty() { return Err(format!("tag {k}, which a logon requires, is empty")) } }
    let body = f.find("\u{1}35=").unwrap() + 1;
    let ck = f.rfind("\u{1}10=").unwrap() + 1;
    if get("9")? != (ck - body).to_string() { return Err(format!("its body length is {}, not {}", get("9")?, ck - body)) }
    let sum = f.as_bytes()[..ck].iter().map(|b| *b as u32).sum::<u32>() % 256;
    if get("10")? != format!("{sum:03}") { return Err(format!("its checksum is {}, not {sum:03}", get("10")?)) }
    let t = chrono::NaiveDateTime::parse_from_str(get("52")?, "%Y%m%d-%H:%M:%S%.3f").map_err(|e| format!("its sending time {:?}: {e}", get("52")))?;
    let t = t.timestamp_millis();
    if t < from - 2 || t > to + 2 { return Err(format!("its sending time {} is not the time it was sent", get("52")?)) }
    Ok(())
}

/// a configuration the program must not run with; it ends with an error
fn refused(c: &mut Ctx, spec: &Spec, cwd: &str, program: &str) -> Res {
    let parts: Vec<String> = spec.config.split("[Session]").map(String::from).collect();
    let without = |p: &str, key: &str| p.lines().filter(|l| !l.trim_start().starts_with(key)).collect::<Vec<_>>().join("\n") + "\n";
    let i = 1 + c.rng.below(parts.len() - 1);
    let mut bad = parts.clone();
    let what = match c.rng.below(8) {
        0 => { bad[0] = String::new(); "no default section" }
        1 => { for p in bad.iter_mut() { *p = without(p, "connection_type") } "no connection type" }
        2 => { for p in bad.iter_mut() { *p = without(p, "sender_comp_id") } "no sender" }
        3 => { bad[i] = without(&bad[i], "begin_string"); bad[i] += "begin_string = FIX.9.9\n"; "unsupported version" }
        4 => { bad[i] = without(&bad[i], "socket_accept_port"); bad[i] += "socket_accept_port = none\n"; "port that is no number" }
        5 => { let d = bad[i].clone(); bad.push(d); "identity used twice" }
        6 => { bad[i] = without(&bad[i], "data_dictionary"); bad[i] += "data_dictionary = resources/none.xml\n"; "dictionary that is not there" }
        _ => { std::fs::write(format!("{cwd}/resources/broken.xml"), *c.rng.pick(&["", "<fix", "<fix type='FIX' major='4' minor='3'/>", "no xml"])).expect("scratch"); bad[i] = without(&bad[i], "data_dictionary"); bad[i] += "data_dictionary = resources/broken.xml\n"; "dictionary that is none" }
    };
    let text = bad.join("[Session]");
    std::fs::write(format!("{cwd}/src/FixConfig.toml"), &text).expect("scratch");
    let mut cmd = Command::new(program);
    cmd.current_dir(cwd).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    unsafe { use std::os::unix::process::CommandExt; cmd.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }); }
    let mut run = Running(cmd.spawn().map_err(|e| Fail::Suspect(format!("the program cannot be started: {e}")))?);
    let t0 = Instant::now();
    loop {
        if let Ok(Some(st)) = run.0.try_wait() {
            if st.success() { return badw(format!("{what}: the program ended as if all were well"), json!({"configuration": text})) }
            c.stats.count(&format!("not started: {what}"), 1);
            return Ok(());
        }
        if t0.elapsed() > Duration::from_secs(30) { return badw(format!("{what}: the program runs all the same"), json!({"configuration": text})) }
        std::thread::sleep(Duration::from_millis(3));
    }
}
struct Conn { p: Peer, s: usize, due: usize, t0: i64 }
pub fn c31(c: &mut Ctx) -> Res {
    let Ok(program) = std::env::var("VERIF_PROGRAM") else { return Err(Fail::Suspect("the program has not been built".into())) };
    let (ns, np, nd) = (1 + c.rng.below(5), 1 + c.rng.below(3), 1 + c.rng.below(2));
    let mut spec = c.spec(ns.max(np), np, nd);
    // the shipped dictionary where none is named
    let cwd = format!("{}/where it runs", c.dir);
    std::fs::create_dir_all(format!("{cwd}/src")).expect("scratch");
    std::fs::create_dir_all(format!("{cwd}/resources")).expect("scratch");
    let xml = std::fs::read_to_string(codec::shipped_path()).expect("shipped dictionary");
    std::fs::write(format!("{cwd}/resources/FIX43.xml"), &xml).expect("scratch");
    if !spec.config.split("[Session]").next().unwrap().contains("data_dictionary") {
        let at = spec.dicts.len();
        spec.dicts.push(NetDict { r: crate::absdict::ADict::read(&xml).resolve(), xml: String::new(), path: "resources/FIX43.xml".into() });
        let mut parts: Vec<String> = spec.config.split("[Session]").map(String::from).collect();
        for (i, part) in parts.iter_mut().enumerate().skip(1) { if c.rng.chance(1, 2) { *part = part.lines().filter(|l| !l.starts_with("data_dictionary")).collect::<Vec<_>>().join("\n") + "\n"; spec.sess[i - 1].dict = at; } }
        spec.config = parts.join("[Session]");
    }
    if c.rng.chance(1, 2) { refused(c, &spec, &cwd, &program)? }
    std::fs::write(format!("{cwd}/src/FixConfig.toml"), &spec.config).expect("scratch");
    let mut cmd = Command::new(&program);
    cmd.current_dir(&cwd).stdin(Stdio::null()).stdout(Stdio::null()).stderr(std::fs::File::create(format!("{}/program", c.dir)).expect("scratch"));
    unsafe { use std::os::unix::process::CommandExt; cmd.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }); }
    let mut run = Running(cmd.spawn().map_err(|e| Fail::Suspect(format!("the program cannot be started: {e}")))?);
    let errfile = format!("{}/program", c.dir);
    let cfg = spec.config.clone();
    let wit = |more: &str| json!({"configuration": cfg, "stderr of the program": std::fs::read_to_string(&errfile).unwrap_or_default(), "detail": show(more, 3000)});
    let t0 = Instant::now();
    for s in &spec.sess {
        loop {
            if let Ok(Some(st)) = run.0.try_wait() { return badw(format!("the program ended by itself at start: {st}"), wit("")) }
            if raw_connect(s.port, None).is_ok() { break }
            if t0.elapsed() > Duration::from_secs(40) { return Err(Fail::Suspect(format!("the program does not listen on port {}", s.port))) }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    c.stats.count("programs run", 1);
    let mut live: Vec<Conn> = vec![];
    let mut gone: Vec<(String, Vec<u8>, usize, i64)> = vec![];
    let mut silent: Vec<Peer> = vec![];
    let mut n = 0;
    let mut trace = String::new();
    let ns = spec.sess.len();
    let mut old: Vec<Vec<String>> = vec![vec![]; ns];
    let mut texts = |c: &mut Ctx, spec: &Spec, s: usize, n: &mut usize, k: usize| -> (String, usize) {
        let (mut t, mut due) = (String::new(), 0);
        for _ in 0..k {
            *n += 1;
            match c.rng.below(9) {
                8 if !old[s].is_empty() => { t += if c.rng.chance(1, 2) { old[s].last().unwrap() } else { c.rng.pick(&old[s]) }; due += 1; c.stats.count("messages sent again", 1) } // answered again
                0 => if let Some(b) = malformed(c, spec, s, &format!("bad{n}")) { t += &b; c.stats.count("malformed messages sent", 1) },
                1 => { let mut id: Ident = spec.sess[s].id.clone(); id.t = format!("{}-STRANGER", id.t); t += &peer_msg(&mut c.rng, &spec.dicts[spec.sess[s].dict].r, &id, &format!("unk{n}")).text(); c.stats.count("messages of unknown sessions sent", 1) }
                _ => { let m = peer_msg(&mut c.rng, &spec.dicts[spec.sess[s].dict].r, &spec.sess[s].id, &format!("m{n}")).text(); t += &m; due += 1; old[s].push(m) }
            }
        }
        (t, due)
    };
    for step in 0..4 + c.rng.below(14) {
        match c.rng.below(10) {
            0..=3 if live.len() < ns => { // a peer for a session without one
                let free: Vec<usize> = (0..ns).filter(|s| !live.iter().any(|l| l.s == *s)).collect();
                let s = *c.rng.pick(&free);
                live.push(Conn { p: Peer::connect(spec.sess[s].port, None)?, s, due: 0, t0: now_ms() });
                trace.push('+');
            }
            4 => { let s = c.rng.below(ns); let mut p = Peer::connect(spec.sess[s].port, None)?; match c.rng.below(4) { 0 => {} 1 => { let _ = p.s.write_all(b"junk\x0110=000\x01"); } 2 => { let (t, _) = texts(c, &spec, s, &mut n, 1); let cut = t.rfind("\u{1}10=").map_or(0, |x| x + 1); let _ = p.s.write_all(&t.as_bytes()[..c.rng.below(cut + 1)]); } _ => { p.reset(); continue } } silent.push(p); trace.push('s') }
            5 if !live.is_empty() => { // everything owed has arrived, then it goes
                let l = live.swap_remove(c.rng.below(live.len()));
                settle(&mut run, &l, &wit)?;
                let (data, due, t) = { let x = l.p.rx.data.lock().unwrap().clone(); (x, l.due, l.t0) };
                gone.push((format!("peer of {} in step {step}", spec.sess[l.s].sid), data, due, t));
                if c.rng.chance(1, 2) { l.p.close(); } else { l.p.reset(); }
                trace.push('-');
            }
            _ => {
                if live.is_empty() { continue }
                let i = c.rng.below(live.len());
                let k = *c.rng.pick(&[1usize, 1, 3, 10, 40]);
                let (t, due) = texts(c, &spec, live[i].s, &mut n, k);
                let mode = c.rng.below(6); let mode = if mode == 1 { 2 } else { mode };
                if let Err(x) = send_split(&mut live[i].p.s, t.as_bytes(), &mut c.rng, mode) { return badw(format!("a connection was ended: {x}; {:?}", live[i].p.lost()), wit("")) }
                live[i].due += due;
                c.stats.count("messages to be answered", due as u64);
                trace += &format!("{k}.");
            }
        }
    }
    // a last message of every configured session
    for s in 0..ns {
        let i = match live.iter().position(|l| l.s == s) { Some(i) => i, None => { live.push(Conn { p: Peer::connect(spec.sess[s].port, None)?, s, due: 0, t0: now_ms() }); live.len() - 1 } };
        n += 1;
        let t = peer_msg(&mut c.rng, &spec.dicts[spec.sess[s].dict].r, &spec.sess[s].id, &format!("m{n}")).text();
        if let Err(x) = live[i].p.s.write_all(t.as_bytes()) { return badw(format!("a connection was ended: {x}"), wit("")) }
        live[i].due += 1;
        c.stats.count("messages to be answered", 1);
    }
    for l in &live { settle(&mut run, l, &wit)?; }
    std::thread::sleep(Duration::from_millis(40));
    let end = now_ms();
    if let Ok(Some(st)) = run.0.try_wait() { return badw(format!("the program ended by itself: {st}"), wit("")) }
    for l in live { let x = l.p.rx.data.lock().unwrap().clone(); gone.push((format!("peer of {}", spec.sess[l.s].sid), x, l.due, l.t0)) }
    for p in silent { let x = p.rx.data.lock().unwrap().clone(); if !x.is_empty() { return badw("a connection that sent nothing to be answered received something", wit(&String::from_utf8_lossy(&x))) } c.stats.count("silent connections", 1) }
    for (who, data, due, t) in &gone {
        let text = String::from_utf8_lossy(data).to_string();
        let (fs, rest) = frames(&text);
        if !rest.is_empty() { return badw(format!("{who}: received bytes that are no complete message"), wit(rest)) }
        if fs.len() != *due { return badw(format!("{who}: {} answers to {due} messages", fs.len()), wit(&text)) }
        for f in fs { if let Err(e) = judge(f, *t, end) { return badw(format!("{who}: an answer is wrong: {e}"), wit(f)) } c.stats.count("answers judged", 1) }
    }
    c.stats.nontrivial(&trace);
    Ok(())
}
/// waits until everything owed to a connection has arrived
fn settle(run: &mut Running, l: &Conn, wit: &dyn Fn(&str) -> serde_json::Value) -> Res {
    let (mut last, mut t) = (0, Instant::now());
    loop {
        if frames(&l.p.text()).0.len() >= l.due { return Ok(()) }
        if let Ok(Some(st)) = run.0.try_wait() { return badw(format!("the program ended by itself: {st}"), wit("")) }
        if let Some(x) = l.p.lost() { return badw(format!("the connection of a peer was ended: {x}"), wit("")) }
        if l.p.got() != last { last = l.p.got(); t = Instant::now() }
        if t.elapsed() > Duration::from_secs(20) { return Err(Fail::Suspect(format!("{} of {} messages answered, then nothing for 20 s", frames(&l.p.text()).0.len(), l.due))) }
        std::thread::sleep(Duration::from_millis(2));
    }
}
