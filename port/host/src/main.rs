//! Runs cases of port-core: natively (with threads) or interpreted, one shard per process.
//!   port-host LEVEL LONG SHARD SHARDS            prints "FAMILY CASE HASH" lines (P for a panic), ends with "END n"
//!   port-host LEVEL LONG only FAMILY CASE        prints the case in full
//!   port-host LEVEL LONG list                    prints "FAMILY CASES BOUNDS" lines
use port_core::{families, long_families, Fam, Out};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn one(f: &Fam, i: u64, say: bool) -> (String, Out) {
    let mut o = Out::new(say);
    let r = catch_unwind(AssertUnwindSafe(|| (f.run)(i, &mut o)));
    (match r { Ok(()) => format!("{:016x}", o.h ^ o.n), Err(_) => "P".into() }, o)
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let (level, long): (u32, u32) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    let fams = if long == 0 { families(level) } else { long_families(level) };
    match a[3].as_str() {
        "list" => for f in &fams { println!("{} {} {}", f.name, f.cases, f.bounds) },
        "only" => {
            let f = fams.iter().find(|f| f.name == a[4]).expect("family");
            let (h, o) = one(f, a[5].parse().unwrap(), true);
            println!("{h}\n{}\n{}", o.text, port_core::hex(&o.head));
        }
        s => {
            let (k, n): (u64, u64) = (s.parse().unwrap(), a[4].parse().unwrap());
            let (mut at, mut done) = (0u64, 0u64);
            for f in &fams {
                let mut text = String::new();
                for i in 0..f.cases {
                    if at % n == k {
                        text.push_str(&format!("{} {i} {}\n", f.name, one(f, i, false).0));
                        done += 1;
                        if cfg!(miri) { print!("{text}"); text.clear() } // so that a case that hangs can be told
                    }
                    at += 1;
                }
                print!("{text}");
            }
            println!("END {done}");
        }
    }
}
