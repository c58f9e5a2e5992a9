//! C36: processor time against the size of what is worked on.
use crate::report::*;
use crate::rng::Rng;
use crate::viol;
use fix_rs::verif::{DataDictionary, Message, Properties, StringField};
use serde_json::json;
use std::str::FromStr;
use std::sync::OnceLock;

fn cpu() -> f64 { unsafe { let mut ts: libc::timespec = std::mem::zeroed(); libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts); ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9 } }
type Job = Box<dyn FnMut() -> bool>;

pub const SPEC: &str = "<fix type=\"FIX\" major=\"4\" minor=\"3\"><header><field name=\"BeginString\" required=\"Y\"/><field name=\"BodyLength\" required=\"Y\"/><field name=\"MsgType\" required=\"Y\"/><field name=\"S\" required=\"Y\"/><field name=\"T\" required=\"Y\"/></header>\
<trailer><field name=\"CheckSum\" required=\"Y\"/></trailer><messages><message name=\"M\" msgtype=\"M\" msgcat=\"app\"><field name=\"Text\" required=\"N\"/><group name=\"NoA\" required=\"N\"><field name=\"A\" required=\"Y\"/><field name=\"B\" required=\"N\"/><group name=\"NoC\" required=\"N\"><field name=\"C\" required=\"Y\"/><group name=\"NoD\" required=\"N\"><field name=\"D\" required=\"Y\"/><field name=\"E\" required=\"N\"/></group></group><field name=\"F\" required=\"N\"/></group></message></messages><components/>\
<fields><field number=\"8\" name=\"BeginString\" type=\"STRING\"/><field number=\"9\" name=\"BodyLength\" type=\"LENGTH\"/><field number=\"35\" name=\"MsgType\" type=\"STRING\"/><field number=\"49\" name=\"S\" type=\"STRING\"/><field number=\"56\" name=\"T\" type=\"STRING\"/><field number=\"10\" name=\"CheckSum\" type=\"STRING\"/><field number=\"58\" name=\"Text\" type=\"STRING\"/>\
<field number=\"100\" name=\"NoA\" type=\"NUMINGROUP\"/><field number=\"101\" name=\"A\" type=\"STRING\"/><field number=\"102\" name=\"B\" type=\"STRING\"/><field number=\"110\" name=\"NoC\" type=\"NUMINGROUP\"/><field number=\"111\" name=\"C\" type=\"STRING\"/><field number=\"120\" name=\"NoD\" type=\"NUMINGROUP\"/><field number=\"121\" name=\"D\" type=\"STRING\"/><field number=\"122\" name=\"E\" type=\"STRING\"/><field number=\"130\" name=\"F\" type=\"STRING\"/></fields></fix>";
fn small() -> &'static DataDictionary { static D: OnceLock<DataDictionary> = OnceLock::new(); D.get_or_init(|| DataDictionary::from_str(SPEC).expect("small dictionary loads")) }

/// a body of about n fields in one of several shapes
fn body(r: &mut Rng, n: usize, shape: usize) -> String {
    let mut s = String::new();
    match shape {
        0 => for i in 0..n { s += &format!("{}=v{}\u{1}", 5000 + i, r.below(1000)) },
        1 => { s += &format!("58=x\u{1}100={}\u{1}", n / 2); for i in 0..n / 2 { s += &format!("101=a{i}\u{1}102=b\u{1}") } }
        2 => { let k = (n / 10).max(1); s += &format!("100={k}\u{1}"); for i in 0..k { s += &format!("101={i}\u{1}110=2\u{1}111=c\u{1}120=2\u{1}121=d\u{1}121=d\u{1}122=e\u{1}111=c\u{1}130=f\u{1}") } }
        3 => { s += &format!("100=1\u{1}101=a\u{1}110=1\u{1}111=c\u{1}120={}\u{1}", n / 2); for _ in 0..n / 2 { s += "121=d\u{1}122=e\u{1}" } }
        4 => { s += &format!("100={n}\u{1}"); for _ in 0..n { s += "101=a\u{1}" } }
        _ => { s += "58="; while s.len() < n * 12 { s.push(*r.pick(&['a', '=', '4', '9', '\u{e9}', ' '])) } s += "\u{1}" }
    }
    s
}
pub const SHAPES: [&str; 6] = ["fields", "instances of a group", "groups nested three deep", "instances of an inner group", "instances of one field", "bytes of a value"];
pub fn text(r: &mut Rng, n: usize, shape: usize) -> String { format!("8=FIX.4.3\u{1}9=5\u{1}35=M\u{1}49=A\u{1}56=B\u{1}{}10=000\u{1}", body(r, n, shape)) }
fn job(r: &mut Rng, kind: usize, shape: usize, n: usize) -> (String, Job) {
    let what = SHAPES[shape];
    match kind {
        0 | 1 => { let t = text(r, n, shape); (format!("parsing a message of many {what}"), Box::new(move || Message::from_str(&t, small()).is_ok())) }
        2 => {
            let tail = *r.pick(&["101=z\u{1}101=y\u{1}", "58=a\u{1}58=b\u{1}", "x=1\u{1}", "77777\u{1}", "6=\u{1}", "49=late\u{1}"]);
            let mut t = text(r, n, shape);
            let at = t.rfind("10=000").unwrap(); t.insert_str(at, tail);
            (format!("rejecting a message of many {what}"), Box::new(move || Message::from_str(&t, small()).is_err()))
        }
        3 => { let m = Message::from_str(&text(r, n, shape), small()); (format!("serialising a message of many {what}"), Box::new(move || { let Ok(m) = &m else { return false }; std::hint::black_box(m.to_string()); true })) }
        4 => { let m = Message::from_str(&text(r, n, shape), small()); (format!("totals and a copy of a message of many {what}"), Box::new(move || { let Ok(m) = &m else { return false }; let mut m = m.clone(); m.set_body_len(); m.set_checksum(); std::hint::black_box(m); true })) }
        5 => {
            let place = r.below(3);
            let pad = match r.below(4) { 0 => body(r, n, shape), 1 => "\u{1}4".repeat(n * 5), 2 => format!("58={}\u{1}", "49=56=50=".repeat(n)), _ => "149=x\u{1}156=y\u{1}".repeat(n / 2) };
            let s = match place { 0 => format!("8=FIX.4.3\u{1}49=A\u{1}56=B\u{1}{pad}"), 1 => format!("8=FIX.4.3\u{1}{pad}49=A\u{1}56=B\u{1}10=0\u{1}"), _ => pad };
            ("reading the identities of a long raw message".into(), Box::new(move || { std::hint::black_box((Message::get_session_id(&s).to_string().len(), Message::get_reverse_session_id(&s).to_string().len())); true }))
        }
        6 => { let k = n; let again = r.chance(1, 2); (format!("setting and reading many fields{}", if again { ", several times" } else { "" }), Box::new(move || {
            let mut m = Message::new();
            for i in 0..k { let t = if again { 5000 + (i % (k / 4 + 1)) as u32 } else { 5000 + i as u32 }; m.set_field(StringField::new(t, "v")); }
            (0..k / 4).all(|i| m.get_field::<String>(5000 + i as u32).is_ok()) })) }
        7 => { let k = n; let inner = r.chance(1, 2); ("building a group of many instances".into(), Box::new(move || {
            let mut m = Message::new();
            let g = if inner { m.set_group(100, 1, 101)[0].set_group(110, k as u32, 111) } else { m.set_group(110, k as u32, 111) };
            for i in 0..k { g[i].set_field(StringField::new(111, "a")); g[i].set_field(StringField::new(112, "b")); }
            let mut ok = true; for i in 0..k { ok &= g[i].get_field::<String>(112).is_ok() }
            m.set_body_len(); m.set_checksum(); ok && m.to_string().len() > k })) }
        _ => { // many sessions, many settings, many lines
            let mut t = String::from("[Default]\nconnection_type=acceptor\nbegin_string=FIX.4.3\nsender_comp_id=ME\nsocket_accept_port=1234\n");
            let how = r.below(3);
            match how { 0 => for i in 0..n / 8 { t += &format!("[Session]\ntarget_comp_id=P{i}\n") }, 1 => { t += "[Session]\ntarget_comp_id=P\n"; for i in 0..n { t += &format!("setting_{i}={i}\n") } } _ => { for i in 0..n { t += &format!("setting_{i}={i}\n") } t += "[Session]\ntarget_comp_id=P\n" } }
            (format!("loading a configuration of many {}", ["sessions", "settings of a session", "default settings"][how]), Box::new(move || { let p = Properties::from_str(&t); let mut k = 0; for s in p.session_ids() { k += p.get_optional_config::<u16>(s, "socket_accept_port").map_or(0, |p| p as usize) } k >= 1234 }))
        }
    }
}
pub const RATIO: usize = 16;
/// the least of several measurements of how many times the processor time a job sixteen times as large takes
pub fn growth(stats: &mut Stats, what: &str, factor: f64, measure: &mut dyn FnMut(bool) -> Result<f64, Violation>) -> CaseResult {
    let mut best = f64::MAX;
    let mut seen = vec![];
    for attempt in 0..6 {
        let (mut a, mut b) = (f64::MAX, f64::MAX);
        for _ in 0..3 { a = a.min(measure(false)?) }
        for _ in 0..if attempt == 0 { 1 } else { 2 } { b = b.min(measure(true)?); if b > 60.0 { break } }
        seen.push(format!("{:.3} ms and {:.3} ms", a * 1e3, b * 1e3));
        best = best.min(b / a.max(2e-4));
        if best < factor * RATIO as f64 { break }
        stats.count("measured again", 1);
    }
    if best >= factor * RATIO as f64 { viol!(json!({"measured": seen}), "{what}: {RATIO} times the size takes {best:.0} times the processor time") }
    stats.count("pairs of sizes measured", 1);
    stats.count("growth of time for 16 times the size (sum)", best as u64);
    Ok(())
}
pub fn case(c: &mut Case) -> CaseResult {
    small();
    let kind = c.rng.below(9);
    let shape = c.rng.below(6);
    let n = if kind >= 8 { 48_000 } else { 128_000 } * if c.thorough && c.rng.chance(1, 8) { 8 } else { 1 };
    let seed = c.rng.clone();
    let (what, mut little) = job(&mut seed.clone(), kind, shape, n / RATIO);
    let (_, mut large) = job(&mut seed.clone(), kind, shape, n);
    growth(c.stats, &what, 6.0, &mut |big| { let t = cpu(); if !if big { large() } else { little() } { viol!(json!({"size": n}), "{what}: it failed") } Ok(cpu() - t) })?;
    c.stats.nontrivial(&format!("{what} {}", seed.clone().next()));
    Ok(())
}
