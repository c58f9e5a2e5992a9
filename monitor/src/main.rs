//! Runtime monitors for fix-rs: `monitor check <property> [options]` drives the real code and judges what it observes.
mod work; mod absdict; mod absmsg; mod alloc; mod codec; mod config; mod dict; mod gen; mod hist; mod ident; mod net; mod netprops; mod program; mod race; mod report; mod rng; mod sched; mod vclock;
use report::Opts;

fn main() {
    report::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = args.get(2).cloned().unwrap_or_default();
            let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
            let o = Opts {
                tier: get("--tier").unwrap_or_else(|| "quick".into()),
                seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                evidence: get("--evidence").unwrap_or_else(|| format!("{verif}/evidence/{prop}.json")),
                replay_dir: format!("{verif}/replays"),
                only: get("--case").and_then(|s| s.parse().ok()),
                threads: get("--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).min(8)),
                crumbs: get("--crumbs").unwrap_or_default(),
                prop,
            };
            if !o.crumbs.is_empty() { report::open_crumbs(&o.crumbs) }
            std::process::exit(run(&o));
        }
        Some("nothing") => {}
        Some("answer") => std::process::exit(hist::answer()),
        Some("tiny") => std::process::exit(race::tiny(args.get(2).and_then(|s| s.parse().ok()).unwrap_or(1))),
        Some("scenario") => {
            // the engine's own output is not wanted, a closed stdout neither
            let n = |i: usize| args[i].parse::<u64>().expect("number");
            let ports = args[5].split(',').map(|p| p.parse().expect("port")).collect();
            std::process::exit(netprops::child(&args[2], n(3), n(4), ports, args[6] == "thorough", &args[7], &args[8]));
        }
        _ => { eprintln!("usage: monitor check <property> ..."); std::process::exit(2) }
    }
}

fn run(o: &Opts) -> i32 {
    let out = match o.prop.as_str() {
        "C01" => codec::c01(o), "C02" => codec::c02(o), "C03" => codec::c03(o), "C04" => codec::c04(o), "C05" => codec::c05(o),
        "C06" => codec::c06(o), "C07" => codec::c07(o), "C08" => codec::c08(o), "C09" => codec::c09(o),
        "C10" => ident::c10(o), "C11" => ident::c11(o), "C12" => dict::c12(o), "C13" => dict::c13(o), "C14" => dict::c14(o),
        "C15" => config::c15(o), "C16" => config::c16(o), "C17" => sched::c17(o), "C18" => sched::c18(o), "C19" => sched::c19(o), "C20" => sched::c20(o),
        "C28" => race::c28(o),
        "C32" => gen::c32(o), "C33" => hist::c33(o),
        "C21" | "C22" | "C23" | "C24" | "C25" | "C26" | "C27" | "C29" | "C31" | "C34" | "C35" | "C36" | "C37" => netprops::net_check(o),
        p => { eprintln!("unknown property {p}"); return 2 }
    };
    report::finish(o, out)
}
