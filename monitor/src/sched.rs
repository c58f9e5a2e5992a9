//! C17..C20: schedules and sending time under a virtual clock.
use crate::absmsg::{iter_toks, value};
use crate::config::{self, Cfg, Sec};
use crate::report::*;
use crate::rng::Rng;
use crate::{viol, vclock};
use chrono::{Datelike, Duration, LocalResult, NaiveDate, NaiveDateTime, NaiveTime, TimeZone, Timelike, Weekday};
use chrono_tz::{Tz, TZ_VARIANTS};
use fix_rs::verif::{Message, Properties, SessionId, SessionSchedule, StringField};
use serde_json::json;

#[derive(Clone, Debug)]
pub struct Sch { start: NaiveTime, end: NaiveTime, days: Option<(Weekday, Weekday)>, tz: Tz, non_stop: bool }
fn secs(t: NaiveTime) -> i64 { t.num_seconds_from_midnight() as i64 * 1_000_000_000 + t.nanosecond() as i64 }
const DAY: i64 = 86_400_000_000_000;
impl Sch {
    fn build(&self, r: &mut Rng) -> SessionSchedule {
        if r.chance(2, 3) { return self.make() }
        let mut b = fix_rs::verif::SessionScheduleBuilder::default();
        b.start_time(self.start).end_time(self.end);
        if let Some((a, z)) = self.days { b.start_day(a).end_day(z); }
        if self.tz != Tz::GMT || r.chance(1, 2) { b.time_zone(self.tz); }
        if self.non_stop || r.chance(1, 2) { b.is_non_stop(self.non_stop); }
        b.build().expect("complete schedule")
    }
    fn make(&self) -> SessionSchedule { SessionSchedule::new(self.start, self.days.map(|d| d.0), self.end, self.days.map(|d| d.1), self.tz, self.non_stop) }
    /// open at this local wall-clock instant?
    fn open(&self, local: NaiveDateTime) -> bool {
        if self.non_stop { return true }
        let t = secs(local.time());
        let (s, e) = (secs(self.start), secs(self.end));
        let (p, s, e) = match self.days { None => (t, s, e), Some((a, b)) => (local.weekday().num_days_from_sunday() as i64 * DAY + t, a.num_days_from_sunday() as i64 * DAY + s, b.num_days_from_sunday() as i64 * DAY + e) };
        if s <= e { s <= p && p <= e } else { p >= s || p <= e }
    }
    fn local(&self, utc: NaiveDateTime) -> NaiveDateTime { self.tz.from_utc_datetime(&utc).naive_local() }
}
fn time(r: &mut Rng) -> NaiveTime { match r.below(9) { 8 => NaiveTime::from_num_seconds_from_midnight_opt(r.below(86_400) as u32, *r.pick(&[500_000_000, 999_000_000, 1, 999_999_999])).unwrap(), 0 => NaiveTime::from_hms_opt(0, 0, 0).unwrap(), 1 => NaiveTime::from_hms_opt(23, 59, 59).unwrap(), 2 => NaiveTime::from_hms_opt(r.below(24) as u32, 0, 0).unwrap(), 3 => NaiveTime::from_hms_opt(1 + r.below(2) as u32, 30, 0).unwrap(), _ => NaiveTime::from_hms_opt(r.below(24) as u32, r.below(60) as u32, r.below(60) as u32).unwrap() } }
fn day(r: &mut Rng) -> Weekday { *r.pick(&[Weekday::Mon, Weekday::Tue, Weekday::Wed, Weekday::Thu, Weekday::Fri, Weekday::Sat, Weekday::Sun]) }
fn zone(r: &mut Rng) -> Tz { if r.chance(1, 2) { *r.pick(&[Tz::UTC, Tz::GMT, Tz::Europe__London, Tz::America__New_York, Tz::Asia__Kolkata, Tz::Asia__Tokyo, Tz::America__Sao_Paulo, Tz::Australia__Lord_Howe, Tz::Asia__Kathmandu, Tz::Pacific__Apia, Tz::America__St_Johns, Tz::Asia__Beirut, Tz::Africa__Cairo, Tz::Pacific__Kiritimati]) } else { *r.pick(&TZ_VARIANTS) } }
fn sch(r: &mut Rng, weekly: bool) -> Sch {
    {
        let (start, end) = if r.chance(1, 4) { let s = time(r); (s, s.overflowing_add_signed(Duration::seconds(r.range(-3600, 3600))).0) } else { (time(r), time(r)) };
        let days = if weekly { let a = day(r); Some((a, if r.chance(1, 4) { a } else { day(r) })) } else { None };
        // a window that starts and ends at the same moment holds that moment only
        let end = if r.chance(1, 12) { start } else { end };
        return Sch { start, end, days, tz: zone(r), non_stop: false };
    }
}
/// the last moment before and the first after an offset change of the zone near a random date
fn transition(r: &mut Rng, tz: Tz) -> Option<NaiveDateTime> {
    use chrono::Offset;
    let off = |t: i64| tz.offset_from_utc_datetime(&NaiveDateTime::from_timestamp_opt(t, 0).unwrap()).fix().local_minus_utc();
    let mut a = r.range(0, 2_100_000_000); let o = off(a); let step = 20 * 86400;
    let mut b = a; for _ in 0..20 { b = a + step; if off(b) != o { break } a = b }
    if off(b) == o { return None }
    while b - a > 1 { let m = (a + b) / 2; if off(m) == o { a = m } else { b = m } }
    NaiveDateTime::from_timestamp_opt(b, 0)
}
fn instant(r: &mut Rng, s: &Sch) -> NaiveDateTime {
    let any = NaiveDateTime::from_timestamp_opt(r.range(0, 4_102_444_800), r.below(1_000_000_000) as u32).unwrap();
    let jitter = |r: &mut Rng| -> Duration { match r.below(8) { 0 => Duration::zero(), 1 => Duration::nanoseconds(1), 2 => Duration::nanoseconds(-1), 3 => Duration::seconds(1), 4 => Duration::seconds(-1), 5 => Duration::milliseconds(r.range(-2000, 2000)), 6 => Duration::seconds(r.range(-7200, 7200)), _ => Duration::microseconds(1) } };
    let v = match r.below(5) {
        0 => any,
        1 | 2 => { // around a boundary in local time
            let local_day = s.tz.from_utc_datetime(&any).naive_local().date();
            let date = match s.days { None => local_day, Some((a, b)) => { let want = if r.chance(1, 2) { a } else { b }; let mut d = local_day; while d.weekday() != want { d = d.succ_opt().unwrap() } d } };
            let t = if r.chance(1, 2) { s.start } else { s.end };
            match s.tz.from_local_datetime(&NaiveDateTime::new(date, t)) { LocalResult::Single(x) => x.naive_utc() + jitter(r), LocalResult::Ambiguous(x, y) => if r.chance(1, 2) { x.naive_utc() + jitter(r) } else { y.naive_utc() + jitter(r) }, LocalResult::None => any }
        }
        3 => match transition(r, s.tz) { Some(t) => t + Duration::seconds(r.range(-90_000, 90_000)) + jitter(r), None => any },
        _ => { let d = s.tz.from_utc_datetime(&any).naive_local().date(); let t = NaiveDateTime::new(d, NaiveTime::from_hms_opt(0, 0, 0).unwrap()); match s.tz.from_local_datetime(&t) { LocalResult::Single(x) => x.naive_utc() + jitter(r), _ => any } }
    };
    if v.timestamp() < 1 { any + Duration::days(2) } else { v }
}
/// asks the real schedule what it says at this UTC instant
fn ask(s: &SessionSchedule, utc: NaiveDateTime) -> Result<(bool, u64), String> {
    vclock::set(utc.timestamp(), utc.timestamp_subsec_nanos() as i64);
    let n = vclock::reads();
    let r = guard(|| s.is_session_time());
    let n = vclock::reads() - n;
    vclock::clear();
    r.map(|b| (b, n))
}
fn judge(c: &mut Case, s: &Sch, real: &SessionSchedule, utc: NaiveDateTime, what: &str) -> CaseResult {
    let local = s.local(utc);
    let want = s.open(local);
    let wit = json!({"schedule": format!("{s:?}"), "utc": utc.to_string(), "local": local.to_string()});
    match ask(real, utc) {
        Err(p) => viol!(wit, "{what}: is_session_time panicked at {utc} UTC: {p}"),
        Ok((got, reads)) => {
            if got != want { viol!(wit, "{what}: open = {got} at {utc} UTC (local {local}, {}), expected {want}", local.weekday()) }
            if reads > 0 { c.stats.count("answers that read the virtual clock", 1) } else if !s.non_stop { c.stats.count("answers without reading the clock", 1) }
            c.stats.count(if want { "open" } else { "closed" }, 1);
        }
    }
    Ok(())
}
fn windows(o: &Opts, weekly: bool) -> Outcome {
    let mut out = run_cases(o, o.pick(60_000, 3_000_000), o.pick(3_000, 30_000), o.pick(60, 500), |c| {
        let mut s = sch(&mut c.rng, weekly);
        if !weekly && c.rng.chance(1, 20) { s.non_stop = true }
        let real = s.build(&mut c.rng);
        let over = secs(s.end) < secs(s.start);
        if weekly { c.stats.count(match s.days { Some((a, b)) if a == b => if over { "same day, wrapping" } else { "same day" }, Some((a, b)) if a.num_days_from_sunday() > b.num_days_from_sunday() => "wrapping over the week", _ => "within the week" }, 1) }
        else { c.stats.count(if s.non_stop { "non-stop" } else if over { "over midnight" } else { "within the day" }, 1) }
        for _ in 0..24 { let t = instant(&mut c.rng, &s); judge(c, &s, &real, t, "schedule")?; }
        if weekly { // a whole week in uneven steps
            let mut t = instant(&mut c.rng, &s); for _ in 0..12 { t = t + Duration::seconds(c.rng.range(30_000, 70_000)); judge(c, &s, &real, t, "schedule")?; }
        }
        c.stats.nontrivial(&format!("{s:?}"));
        Ok(())
    });
    if out.violation.is_none() && out.inconclusive.is_none() && o.only.is_none() && out.stats.counters.get("answers that read the virtual clock").copied().unwrap_or(0) == 0 { out.inconclusive = Some("the schedule never read the virtual clock".into()) }
    out.rule = format!("random {} schedules in all time zones, each asked at random instants, around its boundaries (down to 1 ns), local midnight and offset changes; answer compared with interval arithmetic on the local wall clock; distinct = different schedules", if weekly { "weekly" } else { "daily" });
    out.assumptions = vec!["chrono-tz converts UTC instants to local wall-clock time correctly".into()];
    out
}
pub fn c17(o: &Opts) -> Outcome { windows(o, false) }
pub fn c18(o: &Opts) -> Outcome { windows(o, true) }

pub fn c19(o: &Opts) -> Outcome {
    let mut out = run_cases(o, o.pick(60_000, 3_000_000), o.pick(3_000, 30_000), o.pick(60, 500), |c| {
        let r = &mut c.rng;
        let weekly = r.chance(1, 2);
        let want = sch(r, weekly);
        let f = |t: NaiveTime| t.format("%H:%M:%S%.f").to_string();
        let mut set: Vec<(&str, String)> = vec![];
        let present: u32 = if r.chance(1, 2) { if r.chance(1, 6) { 0 } else { 0b11 | if weekly { 0b1100 } else { 0 } } } else { r.below(16) as u32 };
        let (sd, ed) = want.days.unwrap_or((Weekday::Mon, Weekday::Fri));
        let dn = |r: &mut Rng, d: Weekday| { let s = d.to_string(); let full = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"][d.num_days_from_monday() as usize]; match r.below(4) { 0 => full.to_string(), 1 => s.to_lowercase(), 2 => full.to_uppercase(), _ => s } };
        if present & 1 != 0 { set.push(("start_time", f(want.start))) }
        if present & 2 != 0 { set.push(("end_time", f(want.end))) }
        if present & 4 != 0 { let d = dn(r, sd); set.push(("start_day", d)) }
        if present & 8 != 0 { let d = dn(r, ed); set.push(("end_day", d)) }
        let tz = r.chance(3, 4); if tz { set.push(("default_timezone", want.tz.name().to_string())) }
        let times = present & 3; let days = present >> 2;
        let mut sound = (times == 3 || times == 0) && (days == 3 || days == 0) && !(times == 0 && days != 0);
        let mut bad = None;
        if !set.is_empty() && r.chance(1, 6) { let i = r.below(set.len()); let k = set[i].0; set[i].1 = match k { "start_time" | "end_time" => *r.pick(&["25:00:00", "noon", "12:60:00", "", "12-00-00", "-1:00:00", "24:00:00", "12:00:00Z", "12:00:00 PM", "12:00:61", "12:00:0x", "T12:00:00", "12", "12:00:00;13:00:00"]), "default_timezone" => *r.pick(&["Mars/Phobos", "", "europe-london", "UTC+25", "Europe", "Europe/", "Europe/Londonx", "Europe/Lond", "xEurope/London", "GMT Europe/London"]), _ => *r.pick(&["Funday", "", "8", "Mo", "Monty", "Mond", "Tues", "Thur", "Sundays", "Mon day", "M", "xMon", "Mon,Tue", "0", "wednesda"]) }.to_string(); sound = false; bad = Some(k) }
        // spread over default and session sections, with shadowed values in the default one
        let mut cfg = Cfg { default: Sec::new(), sessions: vec![Sec::new(), Sec::new()] };
        for (k, v) in [("connection_type", "acceptor"), ("begin_string", "FIX.4.3"), ("sender_comp_id", "ME"), ("socket_accept_port", "7000")] { cfg.default.insert(k.into(), v.into()); }
        cfg.sessions[0].insert("target_comp_id".into(), "PEER".into());
        cfg.sessions[1].insert("target_comp_id".into(), "OTHER".into());
        for (k, v) in &set {
            if r.chance(1, 2) { cfg.default.insert(k.to_string(), v.clone()); } else {
                cfg.sessions[0].insert(k.to_string(), v.clone());
                if r.chance(1, 2) { let sh = match *k { "start_time" | "end_time" => f(time(r)), "default_timezone" => zone(r).name().to_string(), _ => day(r).to_string() }; cfg.default.insert(k.to_string(), sh); c.stats.count("default values overridden", 1) }
            }
            if r.chance(1, 3) { cfg.sessions[1].insert(k.to_string(), match *k { "start_time" | "end_time" => f(time(r)), "default_timezone" => zone(r).name().to_string(), _ => day(r).to_string() }); }
        }
        let text = cfg.text(r);
        let wit = json!({"configuration": text});
        let p = match guard(|| Properties::from_str(&text)) { Ok(p) => p, Err(e) => viol!(wit, "configuration refused: {e}") };
        let id: SessionId = fix_rs::verif::SessionIdBuilder::new("FIX.4.3", "ME", "PEER").build().unwrap();
        let real = guard(|| SessionSchedule::create_schedule(&id, &p));
        if !sound {
            let why = bad.map_or_else(|| format!("incomplete settings {:?}", set.iter().map(|s| s.0).collect::<Vec<_>>()), |k| format!("unparsable {k}"));
            if real.is_ok() { viol!(wit, "{why}: a schedule was created") }
            c.stats.count(if bad.is_some() { "refused: unparsable value" } else { "refused: incomplete combination" }, 1);
        } else {
            let real = match real { Ok(s) => s, Err(e) => viol!(wit, "sound schedule settings refused: {e}") };
            let model = Sch { days: if days == 3 { Some((sd, ed)) } else { None }, tz: if tz { want.tz } else { Tz::UTC }, non_stop: times == 0, ..want };
            c.stats.count(if times == 0 { "created: non-stop" } else if days == 3 { "created: weekly" } else { "created: daily" }, 1);
            for _ in 0..10 { let t = instant(&mut c.rng, &model); judge(c, &model, &real, t, "schedule from settings").map_err(|mut v| { v.witness["configuration"] = json!(text); v })?; }
        }
        c.stats.nontrivial(&text);
        Ok(())
    });
    out.rule = "schedule settings (all combinations present or absent, own or default section, unparsable values) through configuration text and create_schedule, then asked at instants as for C17/C18; distinct = different configurations".into();
    out
}

fn civil(days: i64) -> (i64, u32, u32) { // proleptic Gregorian date of a day count since 1970-01-01
    let z = days + 719_468; let era = z.div_euclid(146_097); let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146_096) / 365; let doy = doe - (365 * yoe + yoe / 4 - yoe / 100); let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32; let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}
pub fn c20(o: &Opts) -> Outcome {
    let mut out = run_cases(o, o.pick(300_000, 10_000_000), o.pick(10_000, 100_000), o.pick(60, 400), |c| {
        let r = &mut c.rng;
        let max = 253_402_300_799i64; // 9999-12-31T23:59:59
        let s = match r.below(6) { 0 => r.range(0, 4_102_444_800), 1 => r.range(0, max / 86400) * 86400 + *r.pick(&[0, 86399, 1, 43200]), 2 => { let y = r.range(1970, 9999) as i32; let (m, d) = *r.pick(&[(1, 1), (12, 31), (2, 28), (3, 1)]); NaiveDate::from_ymd_opt(y, m, d).unwrap().and_hms_opt(r.below(24) as u32, r.below(60) as u32, r.below(60) as u32).unwrap().timestamp() } 3 => r.range(1_600_000_000, 1_900_000_000), _ => r.range(0, max) };
        let ns = match r.below(6) { 0 => 0, 1 => 999_999_999, 2 => 999_000_000, 3 => r.below(1000) as i64, 4 => r.below(1000) as i64 * 1_000_000 + 999_999, _ => r.below(1_000_000_000) as i64 };
        let mut m = Message::new();
        for _ in 0..r.below(6) { let t = *r.pick(&[8u32, 35, 49, 56, 34, 9, 122, 43]); m.header_mut().set_field(StringField::new(t, &value(r))) }
        if r.chance(1, 2) { m.header_mut().set_field(StringField::new(52, "stale")) }
        for _ in 0..r.below(4) { let t = *r.pick(&[60u32, 52, 58, 10]); m.body_mut().set_field(StringField::new(t, &value(r))) }
        if r.chance(1, 3) { m.trailer_mut().set_field(StringField::new(10, "000")) }
        let srt = |mut v: Vec<(u32, String)>| { v.sort(); v };
        let before = (srt(iter_toks(m.header()).into_iter().filter(|t| t.0 != 52).collect()), srt(iter_toks(m.body())), srt(iter_toks(m.trailer())));
        let n0 = vclock::reads();
        vclock::set(s, ns);
        let res = guard(|| m.set_sending_time());
        vclock::clear();
        let reads = vclock::reads() - n0;
        let (y, mo, d) = civil(s.div_euclid(86400)); let t = s.rem_euclid(86400);
        let want = format!("{y:04}{mo:02}{d:02}-{:02}:{:02}:{:02}.{:03}", t / 3600, t / 60 % 60, t % 60, ns / 1_000_000);
        let wit = json!({"clock_s": s, "clock_ns": ns});
        if let Err(p) = res { viol!(wit, "set_sending_time panicked: {p}") }
        let got = m.header().get_field::<String>(52);
        if got.as_deref() != Ok(want.as_str()) { viol!(wit, "SendingTime is {got:?} when the clock shows {want}") }
        let after = (srt(iter_toks(m.header()).into_iter().filter(|t| t.0 != 52).collect()), srt(iter_toks(m.body())), srt(iter_toks(m.trailer())));
        if before != after { viol!(wit, "set_sending_time changed other fields: {before:?} -> {after:?}") }
        if reads > 0 { c.stats.count("instants read from the virtual clock", 1) }
        c.stats.count(match ns % 1_000_000 { 0 => "exact milliseconds", _ => "sub-millisecond instants" }, 1);
        c.stats.nontrivial(&want);
        Ok(())
    });
    if out.violation.is_none() && out.inconclusive.is_none() && o.only.is_none() && out.stats.counters.get("instants read from the virtual clock").copied().unwrap_or(0) == 0 { out.inconclusive = Some("the virtual clock was never read".into()) }
    out.rule = "random instants 1970..9999 on a virtual clock (day, year and leap boundaries, sub-millisecond parts); text compared with independent calendar arithmetic, all other fields compared before and after; distinct = different times".into();
    out
}
#[allow(unused)] fn _u(c: &config::Cfg) {}
