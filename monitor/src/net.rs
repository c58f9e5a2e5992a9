//! The engine under observation: a real SocketAcceptor on a tokio runtime, real loopback peers, an application that
//! records every delivery, and the checks over what was recorded.  One scenario runs in one child process.
use crate::absdict::{ADict, FieldDecl, Item, RDict};
use crate::absmsg::{compare, gen_msg_retry, ref_parse, render, value, AMsg, Node, Tok};
use crate::ident::Ident;
use crate::report::*;
use crate::rng::Rng;
use fix_rs::verif::{Application, DataDictionary, Message, Properties, Session, SessionId, SessionIdBuilder, SessionMap, SocketAcceptor, StringField};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::str::FromStr;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const ID: u32 = 90001; // body field carrying the unique id of a monitored message
pub enum Fail { Violation(String, Value), Suspect(String) }
pub type Res<T = ()> = Result<T, Fail>;
pub fn bad<T>(what: impl Into<String>) -> Res<T> { Err(Fail::Violation(what.into(), json!(null))) }
pub fn badw<T>(what: impl Into<String>, w: Value) -> Res<T> { Err(Fail::Violation(what.into(), w)) }

// ---- what is configured ---------------------------------------------------------------------------------------
pub struct NetDict { pub r: RDict, pub xml: String, pub path: String }
pub struct Sess { pub id: Ident, pub sid: SessionId, pub port: u16, pub dict: usize }
pub struct Spec { pub dicts: Vec<NetDict>, pub sess: Vec<Sess>, pub config: String }

pub struct Ctx { pub rng: Rng, pub stats: Stats, pub dir: String, pub ports: Vec<u16>, pub thorough: bool, pub idx: u64 }
impl Ctx {
    pub fn port(&mut self) -> u16 {
        loop {
            let p = self.ports.pop().expect("ports of this slot used up");
            if TcpListener::bind(("127.0.0.1", p)).is_ok() && TcpListener::bind(("0.0.0.0", p)).is_ok() { return p }
        }
    }
    pub fn dict(&mut self) -> NetDict {
        loop {
            let mut a = ADict::random(&mut self.rng);
            a.fields.push(FieldDecl { num: ID, name: "MonitorId".into(), ty: "STRING".into(), values: vec![] });
            for m in &mut a.msgs { m.items.push(Item::Field { num: ID, req: true }) }
            let xml = a.to_xml(&mut self.rng);
            if !matches!(guard(|| DataDictionary::from_str(&xml)), Ok(Ok(_))) { self.stats.count("dictionaries that did not load", 1); continue }
            return self.keep(a.resolve(), xml);
        }
    }
    pub fn keep(&mut self, r: RDict, xml: String) -> NetDict {
        // often the same file name in different directories
        let n = self.rng.next();
        let path = match self.rng.below(4) { 0 | 1 => format!("{}/dict{n}.xml", self.dir), 2 => format!("{}/{n}/FIX43.xml", self.dir), _ => format!("{}/v {n}/spec.d/FIX43.xml", self.dir) };
        std::fs::create_dir_all(std::path::Path::new(&path).parent().unwrap()).expect("scratch");
        std::fs::write(&path, &xml).expect("scratch");
        NetDict { r, xml, path }
    }
    /// distinct session identities, easily confused with one another
    pub fn idents(&mut self, n: usize) -> Vec<Ident> {
        let r = &mut self.rng;
        let mut seen = HashSet::new();
        let mut v: Vec<Ident> = vec![];
        while v.len() < n {
            let s = |r: &mut Rng| r.pick(&["ME", "M", "MEE", "ENGINE", "A"]).to_string();
            let t = |r: &mut Rng, k: usize| if r.chance(1, 3) || k > 8 { format!("PEER{k}") } else { r.pick(&["PEER", "PEER1", "PEE", "A", "B", "ME"]).to_string() };
            let o = |r: &mut Rng| if r.chance(1, 4) { Some(r.pick(&["S1", "S2", "S", "DESK", "1"]).to_string()) } else { None };
            let id = Ident { begin: r.pick(&["FIX.4.2", "FIX.4.3", "FIX.4.4"]).to_string(), s: s(r), ss: o(r), sl: o(r), t: { let k = v.len(); t(r, k) }, ts: o(r), tl: o(r), q: None };
            // one that reads like an earlier one: a part written into another place
            let id = if !v.is_empty() && r.chance(1, 3) {
                let mut k = r.pick(&v).clone();
                match r.below(6) {
                    0 => std::mem::swap(&mut k.ss, &mut k.sl),
                    1 => std::mem::swap(&mut k.ts, &mut k.tl),
                    2 => if let Some(x) = k.ss.take() { k.s += &format!("/{x}") } else { k.s += "/S1" },
                    3 => if let Some(x) = k.ts.take() { k.t += &format!("/{x}") } else { k.t += "/S1" },
                    4 => if let Some((a, b)) = k.s.clone().split_once('/') { k.s = a.into(); if k.ss.is_none() { k.ss = Some(b.into()) } else { k.sl = Some(b.into()) } } else { k.s = k.s.to_lowercase() },
                    _ => if let Some((a, b)) = k.t.clone().split_once('/') { k.t = a.into(); if k.ts.is_none() { k.ts = Some(b.into()) } else { k.tl = Some(b.into()) } } else { k.t = k.t.to_lowercase() },
                }
                k
            } else { id };
            if seen.insert(id.clone()) { v.push(id) }
        }
        v
    }
    /// a random engine configuration with these session counts
    pub fn spec(&mut self, nsess: usize, nports: usize, ndicts: usize) -> Spec {
        let dicts: Vec<NetDict> = (0..ndicts).map(|_| self.dict()).collect();
        let ports: Vec<u16> = (0..nports).map(|_| self.port()).collect();
        let ids = self.idents(nsess);
        let sess = ids.into_iter().enumerate().map(|(i, id)| Sess { sid: sid_of(&id), id, port: if i < nports { ports[i] } else { *self.rng.pick(&ports) }, dict: self.rng.below(ndicts) }).collect();
        let mut s = Spec { dicts, sess, config: String::new() };
        s.config = self.config(&s);
        s
    }
    /// another engine's configuration for the same identities: other ports, other dictionaries
    pub fn twin(&mut self, of: &Spec, nports: usize, ndicts: usize) -> Spec {
        let dicts: Vec<NetDict> = (0..ndicts).map(|_| self.dict()).collect();
        let ports: Vec<u16> = (0..nports).map(|_| self.port()).collect();
        let mut ids: Vec<Ident> = of.sess.iter().map(|s| s.id.clone()).collect();
        self.rng.shuffle(&mut ids);
        let sess = ids.into_iter().enumerate().map(|(i, id)| Sess { sid: sid_of(&id), id, port: if i < nports { ports[i] } else { *self.rng.pick(&ports) }, dict: self.rng.below(ndicts) }).collect();
        let mut s = Spec { dicts, sess, config: String::new() };
        s.config = self.config(&s);
        s
    }
    fn config(&mut self, s: &Spec) -> String {
        let r = &mut self.rng;
        let mut t = String::from("[Default]\nconnection_type = \"acceptor\"\n");
        let def_port = if r.chance(1, 2) { Some(s.sess[0].port) } else { None };
        let def_dict = if r.chance(1, 2) { Some(s.sess[0].dict) } else { None };
        if let Some(p) = def_port { t += &format!("socket_accept_port = {p}\n") }
        if let Some(d) = def_dict { t += &format!("data_dictionary = \"{}\"\n", s.dicts[d].path) }
        for x in &s.sess {
            t += "\n[Session]\n";
            let mut l = vec![format!("begin_string = \"{}\"", x.id.begin), format!("sender_comp_id = \"{}\"", x.id.s), format!("target_comp_id = \"{}\"", x.id.t)];
            for (k, v) in [("sender_sub_id", &x.id.ss), ("sender_location_id", &x.id.sl), ("target_sub_id", &x.id.ts), ("target_location_id", &x.id.tl)] { if let Some(v) = v { l.push(format!("{k} = \"{v}\"")) } }
            if def_port != Some(x.port) || r.chance(1, 3) { l.push(format!("socket_accept_port = {}", x.port)) }
            if def_dict != Some(x.dict) || r.chance(1, 3) { l.push(format!("data_dictionary = \"{}\"", s.dicts[x.dict].path)) }
            r.shuffle(&mut l);
            t += &l.join("\n"); t.push('\n');
        }
        t
    }
}
pub fn sid_of(id: &Ident) -> SessionId {
    let mut b = SessionIdBuilder::new(id.begin.clone(), id.s.clone(), id.t.clone());
    if let Some(x) = &id.ss { b.sender_subid(x.clone()); }
    if let Some(x) = &id.sl { b.sender_locationid(x.clone()); }
    if let Some(x) = &id.ts { b.target_subid(x.clone()); }
    if let Some(x) = &id.tl { b.target_locationid(x.clone()); }
    b.build().unwrap()
}

// ---- messages -------------------------------------------------------------------------------------------------
/// sets true BodyLength and CheckSum
pub fn seal(m: &mut AMsg) {
    let toks = m.tokens();
    let len: usize = toks.iter().filter(|t| ![8, 9, 10].contains(&t.0)).map(|t| render(std::slice::from_ref(t)).len()).sum();
    if let Some(n) = m.header.iter_mut().find(|n| n.tag == 9) { n.value = len.to_string() }
    let text = render(&m.tokens().into_iter().filter(|t| t.0 != 10).collect::<Vec<Tok>>());
    let sum: u32 = text.bytes().map(|b| b as u32).sum::<u32>() % 256;
    if let Some(n) = m.trailer.iter_mut().find(|n| n.tag == 10) { n.value = format!("{sum:03}") }
}
/// a conforming message a peer of session `id` would send, carrying the unique id
pub fn peer_msg(r: &mut Rng, d: &RDict, id: &Ident, uid: &str) -> AMsg {
    loop {
        let mut m = gen_msg_retry(r, d);
        m.header.retain(|n| ![49, 56, 50, 142, 57, 143].contains(&n.tag));
        for (t, v) in id.reverse().toks() { if t == 8 { m.header[0].value = v } else { let at = 3 + r.below(m.header.len() - 2); m.header.insert(at, Node::leaf(t, v)) } }
        m.body.retain(|n| n.tag != ID);
        let at = r.below(m.body.len() + 1);
        m.body.insert(at, Node::leaf(ID, uid));
        seal(&mut m);
        if matches!(ref_parse(&m.tokens(), d), Ok(p) if p == m) { return m }
    }
}
/// a message the application sends on session `id`
pub fn app_msg(r: &mut Rng, id: &Ident, uid: &str, size: usize) -> Message {
    let mut m = Message::new();
    m.header_mut().set_field(StringField::new(35, *r.pick(&["0", "8", "D"])));
    for (t, v) in id.toks() { m.header_mut().set_field(StringField::new(t, &v)) }
    m.set_field(StringField::new(ID, uid));
    m.set_field(StringField::new(58, &if size > 0 && r.chance(1, 3) { let mut t = "x".repeat(r.below(4)); let c = *r.pick(&["\u{e9}", "\u{20ac}", "\u{1d11e}", "a\u{20ac}"]); while t.len() < size { t += c } t } else if size > 0 { "x".repeat(size) } else { value(r) }));
    if r.chance(1, 4) { let g = m.set_group(73, 2, 11); for i in 0..2usize { g[i].set_field(StringField::new(11, &format!("o{i}"))); g[i].set_field(StringField::new(67, &i.to_string())) } }
    m.set_body_len();
    m.set_checksum();
    m
}

// ---- the application ------------------------------------------------------------------------------------------
pub struct Deliv { pub sid: SessionId, pub uid: Option<String>, pub msg: Message }
#[derive(Default)]
pub struct AppState {
    pub log: Mutex<Vec<Deliv>>,
    pub count: AtomicU64,
    pub map: Mutex<Option<SessionMap>>,
    pub delay_us: AtomicU64,
    pub hold: AtomicBool,                                    // the callback does not return while this is set
    pub held: AtomicBool,
    pub reply: AtomicBool,                                   // answer every message from inside the callback
    pub reply_size: AtomicU64,
    pub reply_delay_us: AtomicU64,
    pub replies: Mutex<Vec<(SessionId, String, String)>>,    // (session, unique id, bytes) handed to the engine, in order
    pub rng: Mutex<Option<Rng>>,
    pub forget: AtomicBool,                                  // record nothing but the count
}
pub struct App(pub Arc<AppState>);
/// a text of the crate that is not UTF-8: undefined behaviour has happened
pub static NO_TEXT: Mutex<Option<String>> = Mutex::new(None);
fn look_at(m: &Message) {
    let t = m.to_string();
    // the standard library takes a String's bytes for UTF-8 without looking
    if std::str::from_utf8(std::hint::black_box(t.as_bytes())).is_err() { NO_TEXT.lock().unwrap().get_or_insert(format!("{:02x?}", &t.as_bytes()[..t.len().min(400)])); }
}
impl Application for App {
    fn to_app(_msg: String) {}
    fn from_app(&self, sid: &SessionId, sessions: &SessionMap, msg: Message) {
        let s = &self.0;
        { let mut m = s.map.lock().unwrap(); if m.is_none() { *m = Some(sessions.clone()) } }
        look_at(&msg);
        let uid = msg.body().get_field::<String>(ID).ok();
        let (mut d, mut out) = (0, None);
        {
            let mut g = s.rng.lock().unwrap();
            let r = g.as_mut().unwrap();
            let max = s.delay_us.load(Relaxed);
            if max > 0 { d = r.next() % (max + 1) }
            if s.reply.load(Relaxed) {
                let u = format!("re-{}", uid.clone().unwrap_or_default());
                let m = app_msg(r, &Ident::of(sid), &u, s.reply_size.load(Relaxed) as usize);
                if !s.forget.load(Relaxed) { s.replies.lock().unwrap().push((sid.clone(), u, m.to_string())) }
                out = Some(m);
            }
        }
        if s.forget.load(Relaxed) { drop((uid, msg)) } else { s.log.lock().unwrap().push(Deliv { sid: sid.clone(), uid, msg }) }
        s.count.fetch_add(1, SeqCst);
        if d > 0 { std::thread::sleep(Duration::from_micros(d)) }
        while s.hold.load(SeqCst) { s.held.store(true, SeqCst); std::thread::sleep(Duration::from_millis(1)) }
        s.held.store(false, SeqCst);
        if let Some(m) = out {
            let w = s.reply_delay_us.load(Relaxed);
            if w > 0 { std::thread::sleep(Duration::from_micros(w)) }
            Session::sync_send_to_target(sid, sessions, m);
        }
    }
}

pub struct Engine { _rt: tokio::runtime::Runtime, pub app: Arc<AppState>, pub spec: Spec, pub workers: usize }
impl Engine {
    pub fn start(c: &mut Ctx, spec: Spec) -> Res<Engine> {
        let workers = *c.rng.pick(&[1usize, 1, 2, 3, 4, 8]);
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_all().build().expect("runtime");
        let app = Arc::new(AppState::default());
        *app.rng.lock().unwrap() = Some(c.rng.clone());
        let a2 = app.clone();
        let cfg = spec.config.clone();
        let _g = rt.enter();
        let started = guard(move || {
            let mut acc = SocketAcceptor::new(Properties::from_str(&cfg), App(a2));
            acc.start_accepting_connections();
            std::mem::forget(acc); // lives as long as the process, like the one in main()
        });
        drop(_g);
        if let Err(p) = started { return badw(format!("the engine could not be started: {p}"), json!({"configuration": spec.config})) }
        c.stats.count("engines started", 1);
        c.stats.count("sessions configured", spec.sess.len() as u64);
        Ok(Engine { _rt: rt, app, spec, workers })
    }
    /// stops the engine, as the end of its process would: everything it runs is dropped, its sockets are closed
    pub fn end(self) -> (Spec, Arc<AppState>) { drop(self._rt); (self.spec, self.app) }
    pub fn map(&self) -> SessionMap { self.app.map.lock().unwrap().clone().expect("a message has been delivered") }
    pub fn delivered(&self) -> u64 { self.app.count.load(SeqCst) }
    pub fn wit(&self) -> Value { json!({"configuration": self.spec.config, "runtime workers": self.workers}) }
}

// ---- peers ----------------------------------------------------------------------------------------------------
#[derive(Default)]
pub struct Rx { pub data: Mutex<Vec<u8>>, pub len: AtomicU64, pub eof: AtomicBool, pub err: Mutex<Option<String>>, pub pause: AtomicBool, pub slow_us: AtomicU64, pub forget: AtomicBool, stop: AtomicBool }
pub struct Peer { pub s: TcpStream, pub rx: Arc<Rx>, reader: Option<std::thread::JoinHandle<()>> }
pub fn raw_connect(port: u16, rcvbuf: Option<i32>) -> std::io::Result<TcpStream> {
    let Some(sz) = rcvbuf else { return TcpStream::connect(("127.0.0.1", port)) };
    let s = unconnected()?;
    set_buf(&s, libc::SO_RCVBUF, sz);
    connect_to(s, port)
}
pub fn set_buf(s: &TcpStream, which: i32, size: i32) { use std::os::unix::io::AsRawFd; unsafe { libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, which, &size as *const _ as *const _, 4); } }
/// a socket that is not connected yet
pub fn unconnected() -> std::io::Result<TcpStream> {
    use std::os::unix::io::FromRawFd;
    let fd = unsafe { libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0) };
    if fd < 0 { return Err(std::io::Error::last_os_error()) }
    Ok(unsafe { TcpStream::from_raw_fd(fd) })
}
pub fn connect_to(s: TcpStream, port: u16) -> std::io::Result<TcpStream> {
    use std::os::unix::io::AsRawFd;
    let fd = s.as_raw_fd();
    unsafe {
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        a.sin_family = libc::AF_INET as u16; a.sin_port = port.to_be(); a.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
        if libc::connect(fd, &a as *const _ as *const _, std::mem::size_of::<libc::sockaddr_in>() as u32) != 0 { return Err(std::io::Error::last_os_error()) }
        Ok(s)
    }
}
impl Peer {
    /// connects, waiting for the port to be listened on
    pub fn connect(port: u16, rcvbuf: Option<i32>) -> Res<Peer> {
        let t0 = Instant::now();
        loop {
            match raw_connect(port, rcvbuf) {
                Ok(s) => return Ok(Peer::of(s)),
                Err(e) => { if t0.elapsed() > Duration::from_secs(30) { return Err(Fail::Suspect(format!("port {port} does not accept connections: {e}"))) } std::thread::sleep(Duration::from_millis(3)) }
            }
        }
    }
    pub fn of(s: TcpStream) -> Peer {
        let _ = s.set_nodelay(true);
        let _ = s.set_write_timeout(Some(Duration::from_secs(60)));
        let rx = Arc::new(Rx::default());
        let (mut rd, rx2) = (s.try_clone().expect("clone"), rx.clone());
        let _ = rd.set_read_timeout(Some(Duration::from_millis(20)));
        let reader = std::thread::Builder::new().stack_size(128 << 10).spawn(move || {
            let mut buf = vec![0u8; 16384];
            while !rx2.stop.load(Relaxed) {
                if rx2.pause.load(Relaxed) { std::thread::sleep(Duration::from_millis(1)); continue }
                let slow = rx2.slow_us.load(Relaxed);
                let n = if slow > 0 { std::thread::sleep(Duration::from_micros(slow)); 700 } else { buf.len() };
                match rd.read(&mut buf[..n]) {
                    Ok(0) => { rx2.eof.store(true, SeqCst); break }
                    Ok(k) => { if !rx2.forget.load(Relaxed) { rx2.data.lock().unwrap().extend_from_slice(&buf[..k]); } rx2.len.fetch_add(k as u64, SeqCst); }
                    Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted) => {}
                    Err(e) => { *rx2.err.lock().unwrap() = Some(e.to_string()); rx2.eof.store(true, SeqCst); break }
                }
            }
        }).expect("thread");
        Peer { s, rx, reader: Some(reader) }
    }
    pub fn port(&self) -> u16 { self.s.local_addr().map_or(0, |a| a.port()) }
    pub fn got(&self) -> u64 { self.rx.len.load(SeqCst) }
    pub fn lost(&self) -> Option<String> { if self.rx.eof.load(SeqCst) { Some(self.rx.err.lock().unwrap().clone().unwrap_or_else(|| "closed by the engine".into())) } else { None } }
    pub fn text(&self) -> String { String::from_utf8_lossy(&self.rx.data.lock().unwrap()).to_string() }
    fn halt(&mut self) { self.rx.stop.store(true, SeqCst); if let Some(h) = self.reader.take() { let _ = h.join(); } }
    /// orderly close with everything sent
    pub fn close(mut self) -> Arc<Rx> { self.halt(); let _ = self.s.shutdown(Shutdown::Both); self.rx.clone() }
    /// reset the connection
    pub fn reset(mut self) -> Arc<Rx> {
        use std::os::unix::io::AsRawFd;
        self.halt();
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe { libc::setsockopt(self.s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32); }
        self.rx.clone()
    }
}
impl Drop for Peer { fn drop(&mut self) { self.halt() } }

/// writes bytes in some segmentation
pub fn send_split(s: &mut TcpStream, bytes: &[u8], r: &mut Rng, mode: usize) -> std::io::Result<()> {
    let mut i = 0;
    while i < bytes.len() {
        let n = match mode { 0 => bytes.len(), 1 => 1, 2 => 1 + r.below(7), 3 => 1 + r.below(200), 4 => 1000 + r.below(3000), _ => match r.below(4) { 0 => 1, 1 => 1 + r.below(20), 2 => 1 + r.below(500), _ => 1 + r.below(8000) } }.min(bytes.len() - i);
        s.write_all(&bytes[i..i + n])?;
        i += n;
        match r.below(if mode == 1 { 400 } else { 60 }) { 0 => std::thread::sleep(Duration::from_micros(r.below(3000) as u64)), 1 => std::thread::yield_now(), _ => {} }
    }
    Ok(())
}

// ---- waiting --------------------------------------------------------------------------------------------------
fn me() -> i32 { unsafe { libc::syscall(libc::SYS_gettid) as i32 } }
/// every other thread of this process is asleep
fn all_asleep() -> bool {
    let Ok(d) = std::fs::read_dir("/proc/self/task") else { return false };
    for e in d.flatten() {
        if e.file_name().to_string_lossy().parse::<i32>().ok() == Some(me()) { continue }
        let Ok(s) = std::fs::read_to_string(e.path().join("stat")) else { continue };
        let st = s.rsplit(')').next().and_then(|x| x.trim().chars().next()).unwrap_or('?');
        if st != 'S' { return false }
    }
    true
}
pub fn cpu_seconds() -> f64 { unsafe { let mut ts: libc::timespec = std::mem::zeroed(); libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts); ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9 } }
/// Waits for `done`.  Without progress for long enough with all threads of the process asleep, nothing is in flight
/// any more, so it cannot happen: the caller's description becomes a violation.  Otherwise it is only suspect.
pub fn wait_for(what: &str, progress: &dyn Fn() -> u64, done: &dyn Fn() -> bool) -> Res {
    let (mut last, mut t) = (progress(), Instant::now());
    loop {
        if done() { return Ok(()) }
        std::thread::sleep(Duration::from_millis(2));
        let p = progress();
        if p != last { last = p; t = Instant::now(); continue }
        if t.elapsed() > Duration::from_secs(10) {
            // readers of the monitor wake every 20 ms; sample often and require nearly all samples asleep and little processor time
            let (c0, mut asleep) = (cpu_seconds(), 0);
            for _ in 0..100 { std::thread::sleep(Duration::from_millis(20)); if all_asleep() { asleep += 1 } if progress() != last || done() { break } }
            if done() { return Ok(()) }
            if progress() != last { continue }
            if asleep >= 80 && cpu_seconds() - c0 < 0.5 { return bad(format!("{what}: nothing happened for {:.0} s and the engine is idle", t.elapsed().as_secs_f64())) }
            if t.elapsed() > Duration::from_secs(50) { return Err(Fail::Suspect(format!("{what}: nothing happened for {:.0} s", t.elapsed().as_secs_f64()))) }
        }
    }
}

// ---- inbound check --------------------------------------------------------------------------------------------
pub struct Sent { pub conn: usize, pub sess: usize, pub msg: AMsg }
/// what well-formed messages were sent, by unique id, and per connection in order
#[derive(Default)]
pub struct Inbound { pub by_id: HashMap<String, (usize, usize)>, pub conns: Vec<Vec<(String, usize, AMsg)>> }
impl Inbound {
    pub fn conn(&mut self) -> usize { self.conns.push(vec![]); self.conns.len() - 1 }
    pub fn add(&mut self, conn: usize, uid: String, sess: usize, m: AMsg) { let at = self.conns[conn].len(); self.by_id.entry(uid.clone()).or_insert((conn, at)); self.conns[conn].push((uid, sess, m)) }
    /// every delivery so far must be the next message of its connection, intact, under its session
    pub fn check(&self, e: &Engine, st: &mut Stats) -> Res<Vec<usize>> {
        let log = e.app.log.lock().unwrap();
        let mut next = vec![0usize; self.conns.len()];
        let mut order = String::new();
        for (n, d) in log.iter().enumerate() {
            let w = |m: Option<&AMsg>| json!({"delivery": n, "session": d.sid.to_string(), "delivered": show(&d.msg.to_string(), 3000), "sent": m.map(|m| show(&m.text(), 3000)), "configuration": e.spec.config});
            // a message holding bytes that are no text (C24) is not judged: neither rejecting it nor delivering it with replacement characters is prescribed
            if d.uid.as_ref().map_or(true, |u| !self.by_id.contains_key(u)) && d.msg.to_string().contains('\u{fffd}') { st.count("messages with bytes that are no text, delivered", 1); continue }
            let Some(uid) = &d.uid else { return badw("a message that nobody sent was delivered", w(None)) };
            let Some((c, k)) = self.by_id.get(uid) else { return badw(format!("message {uid} was delivered although no well-formed message with that id was sent"), w(None)) };
            // a message may have been sent several times on its connection: the one that is due now counts
            let due = next[*c];
            let k = &if self.conns[*c].get(due).map_or(false, |x| x.0 == *uid) { due } else { *k };
            let (_, sess, m) = &self.conns[*c][*k];
            if d.sid != e.spec.sess[*sess].sid || Ident::of(&d.sid) != e.spec.sess[*sess].id { return badw(format!("message {uid} was delivered under session {} instead of {}", d.sid, e.spec.sess[*sess].sid), w(Some(m))) }
            if *k < next[*c] { return badw(format!("message {uid} was delivered again or late: message {} of its connection came before it", next[*c] - 1), w(Some(m))) }
            if *k > next[*c] { return badw(format!("message {uid} (number {k} of its connection) was delivered before number {}: lost or overtaken", next[*c]), w(Some(m))) }
            next[*c] += 1;
            match compare(&d.msg, m) { Ok(k) => st.count("fields compared", k), Err(x) => return badw(format!("message {uid} was altered on the way to the application: {x}"), w(Some(m))) }
            order.push((b'a' + (*c % 26) as u8) as char);
        }
        st.count("messages delivered and compared", log.len() as u64);
        st.nontrivial(&format!("{} workers, deliveries by connection: {order}", e.workers));
        Ok(next)
    }
    pub fn total(&self) -> usize { self.conns.iter().map(|c| c.len()).sum() }
}

// ---- outbound check -------------------------------------------------------------------------------------------
/// splits a received byte stream into messages; the rest after the last complete one comes second
pub fn frames(s: &str) -> (Vec<&str>, &str) {
    let (mut v, mut start, mut at) = (vec![], 0, 0);
    for f in s.split_inclusive('\u{1}') {
        at += f.len();
        if f.starts_with("10=") && f.ends_with('\u{1}') { v.push(&s[start..at]); start = at }
    }
    (v, &s[start..])
}
/// messages handed to the engine for one session: bytes -> (sender, number)
#[derive(Default)]
pub struct Outbound { pub by_bytes: HashMap<String, (usize, usize)>, pub per_sender: BTreeMap<usize, Vec<String>>, pub bytes: u64 }
impl Outbound {
    pub fn add(&mut self, sender: usize, bytes: String) { let v = self.per_sender.entry(sender).or_default(); self.bytes += bytes.len() as u64; let at = (sender, v.len()); self.by_bytes.entry(bytes.clone()).or_insert(at); v.push(bytes) }
    /// the received stream must be an interleaving of the senders' sequences; returns how many of each arrived
    pub fn check(&self, text: &str, who: &str, complete: bool, order: &mut String) -> Res<u64> {
        let (fs, rest) = frames(text);
        let mut next: BTreeMap<usize, usize> = BTreeMap::new();
        for (i, f) in fs.iter().enumerate() {
            let Some((s, k)) = self.by_bytes.get(*f) else { return badw(format!("{who}: message {i} received is not one that was sent to this session"), json!({"received": show(f, 3000)})) };
            let n = next.entry(*s).or_insert(0);
            let k = &if self.per_sender[s].get(*n).map_or(false, |x| x == f) { *n } else { *k }; // possibly sent several times
            if k != n { return badw(format!("{who}: received message {k} of sender {s} where message {n} was due ({})", if k < n { "duplicated or reordered" } else { "lost or overtaken" }), json!({"received": show(f, 2000)})) }
            *n += 1;
            order.push((b'a' + (*s % 26) as u8) as char);
        }
        if complete {
            if !rest.is_empty() { return badw(format!("{who}: trailing bytes that are not a message"), json!({"rest": show(rest, 2000)})) }
            for (s, v) in &self.per_sender { let n = next.get(s).copied().unwrap_or(0); if n != v.len() { return badw(format!("{who}: {n} of {} messages of sender {s} arrived", v.len()), json!({"first missing": show(&v[n], 2000)})) } }
        }
        Ok(fs.len() as u64)
    }
}
