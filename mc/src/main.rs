mod engine;
mod imp;
mod mem;
mod props;
mod refs;
mod selftest;
mod steer;
use engine::*;

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let prop = args.first().cloned().unwrap_or_default();
    if let Some(a) = prop.strip_prefix("aux-") { std::process::exit(props::aux(a, &args[1..])) }
    let tier = get("--tier").unwrap_or("quick".into());
    let variant = get("--variant").unwrap_or("?".into());
    let t0 = std::time::Instant::now();
    if let Err(e) = selftest::run() { println!("ERROR {e}"); std::process::exit(2) }
    if prop == "selftest" { println!("references ok in {:.2}s", t0.elapsed().as_secs_f64()); return }
    let st = t0.elapsed().as_secs_f64();
    props::set_light(prop == "C18" && variant.starts_with("checked") && tier == "quick");
    let fams = props::families(&prop, tier == "thorough");
    if let Some(i) = get("--name-of") { println!("{}", fams[i.parse::<usize>().unwrap()].name); return }
    let o = Opts {
        only: get("--only").map(|s| { let (a, b) = s.rsplit_once(':').unwrap(); (a.to_string(), b.parse().unwrap()) }),
        journal: get("--journal"),
        threads: get("--threads").map(|s| s.parse().unwrap()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).clamp(1, 64),
        budget_s: get("--budget").map(|s| s.parse().unwrap()).unwrap_or(0),
        family: get("--family"),
        obs: get("--obs").is_some(),
    };
    let r = explore(&fams, &o);
    let secs = t0.elapsed().as_secs_f64();
    let j = r.json(&prop, &tier, &variant, secs);
    if let Some(p) = get("--obs") {
        // one line per case: family index observation
        let mut s = String::new();
        for (f, v) in &r.obs { for (i, o) in v { s.push_str(&format!("{f} {i} {o:016x}\n")) } }
        std::fs::write(p, s).expect("write obs")
    }
    if let Some(p) = get("--out") { std::fs::write(p, &j).expect("write out") }
    if args.iter().any(|a| a == "-v") {
        println!("selftest {st:.2}s");
        for f in &r.fams { println!("{:34} {:>9}/{:<9} traces {:>9} states {:>9} {:.2}s", f.name, f.done, f.n, f.traces, f.states, f.secs) }
        println!("{} total {secs:.2}s traces {} states {} transitions {} outcomes {} counters {:?} covered {:?}", prop, r.total.traces, r.total.states.len(), r.total.transitions, r.total.outcomes.len(), r.total.counters, r.total.sets.iter().map(|(k, v)| (*k, v.len())).collect::<Vec<_>>());
        for s in r.total.samples.iter().take(3) { println!("  sample {}", s.1) }
    }
    for e in &r.total.errors { println!("ERROR {e}") }
    if let Some((f, i, m)) = &r.failure { println!("FAIL {f}:{i} {m}"); }
    if !r.total.errors.is_empty() { std::process::exit(2) }
    std::process::exit(if r.failure.is_some() { 1 } else { 0 });
}
