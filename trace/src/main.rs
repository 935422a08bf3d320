//! Explorers that watch the library from inside: address/edge traces (C20) and thread schedules (C24).
#[path = "../../mc/src/engine.rs"]
#[allow(dead_code)]
mod engine;
#[path = "../../mc/src/refs/mod.rs"]
#[allow(dead_code)]
mod refs;
#[path = "../../mc/src/steer.rs"]
#[allow(dead_code)]
mod steer;
mod c20;
mod c24;
mod lackey;
mod work;
use engine::*;

#[global_allocator]
static A: rt::Arena = rt::Arena;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let prop = args.first().cloned().unwrap_or_default();
    let thorough = get("--tier").as_deref() == Some("thorough");
    let variant = get("--variant").unwrap_or("?".into());
    if prop == "lackey-child" { lackey::child(&args[1], &args[2]); return }
    install_hook();
    let t0 = std::time::Instant::now();
    let fams = match &prop[..] {
        "C20" | "C20-source" => { if let Err(e) = c20::selftest() { println!("ERROR {e}"); std::process::exit(2) } c20::families(thorough, prop == "C20-source") }
        "C20-machine" => {
            let dir = get("--dir").expect("--dir");
            if let Err(e) = lackey::selftest(&dir) { println!("ERROR {e}"); std::process::exit(2) }
            lackey::families(thorough, dir)
        }
        "C26" => { if let Err(e) = work::selftest() { println!("ERROR {e}"); std::process::exit(2) } work::families(thorough) }
        "C24" => { if let Err(e) = c24::selftest() { println!("ERROR {e}"); std::process::exit(2) } c24::families(thorough) }
        _ => panic!("unknown property"),
    };
    if let Some(i) = get("--name-of") { println!("{}", fams[i.parse::<usize>().unwrap()].name); return }
    let o = Opts {
        only: get("--only").map(|s| { let (a, b) = s.rsplit_once(':').unwrap(); (a.to_string(), b.parse().unwrap()) }),
        journal: get("--journal"),
        threads: get("--threads").map(|s| s.parse().unwrap()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).clamp(1, 64),
        budget_s: get("--budget").map(|s| s.parse().unwrap()).unwrap_or(0),
        family: get("--family"),
        obs: false,
    };
    let r = explore(&fams, &o);
    let secs = t0.elapsed().as_secs_f64();
    if let Some(p) = get("--out") { std::fs::write(p, r.json(&prop, if thorough { "thorough" } else { "quick" }, &variant, secs)).expect("write out") }
    if args.iter().any(|a| a == "-v") {
        for f in &r.fams { println!("{:34} {:>9}/{:<9} traces {:>9} states {:>9} {:.2}s", f.name, f.done, f.n, f.traces, f.states, f.secs) }
        println!("{} total {secs:.2}s traces {} states {} transitions {} outcomes {} counters {:?} covered {:?}", prop, r.total.traces, r.total.states.len(), r.total.transitions, r.total.outcomes.len(), r.total.counters, r.total.sets.iter().map(|(k, v)| (*k, v.len())).collect::<Vec<_>>());
        for s in r.total.samples.iter().take(6) { println!("  sample {}", s.1) }
    }
    for e in &r.total.errors { println!("ERROR {e}") }
    if let Some((f, i, m)) = &r.failure { println!("FAIL {f}:{i} {m}"); }
    if !r.total.errors.is_empty() { std::process::exit(2) }
    std::process::exit(if r.failure.is_some() { 1 } else { 0 });
}
