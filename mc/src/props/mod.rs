use crate::engine::*;
mod api;
mod curve;
mod generic;
mod hash;
mod near;
mod res;
mod sym;
/// In the quick tier the histories of C18 go one step less deep in the second build.
static LIGHT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn set_light(x: bool) { LIGHT.store(x, std::sync::atomic::Ordering::Relaxed) }
pub fn light() -> bool { LIGHT.load(std::sync::atomic::Ordering::Relaxed) }
/// The longest families run in one build only, the one without checks; never in C19, where all builds must run the same.
static SAME: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn full() -> bool { !cfg!(debug_assertions) && !SAME.load(std::sync::atomic::Ordering::Relaxed) }
pub fn families(p: &str, t: bool) -> Vec<Family> {
    match p {
        "C01" => hash::c01(t),
        "C02" => hash::c02(t),
        "C03" => hash::c03(t),
        "C04" => hash::c04(t),
        "C05" => hash::c05(t),
        "C06" => sym::c06(t),
        "C07" => sym::c07(t),
        "C08" => sym::c08(t),
        "C09" => sym::c09(t),
        "C10" => sym::c10(t),
        "C11" => sym::c11(t),
        "C12" => curve::c12(t),
        "C13" => curve::c13(t),
        "C14" => curve::c14(t),
        "C15" => curve::c15(t),
        "C16" => curve::c16(t),
        "C17" => api::c17(t),
        "C18" => api::c18(t),
        "C23" => api::c23(t),
        "C21" => generic::c21(t),
        "C22" => generic::c22(t),
        "C19" => c19(t),
        "C25" => res::c25(t),
        _ => panic!("unknown property {p}"),
    }
}
pub fn aux(a: &str, args: &[String]) -> i32 { match a { "zero" => { hash::aux_zero(); 0 } "limit" => generic::aux_limit(args), _ => 2 } }

/// C19: the executions of all other properties, observed in every build and compared between builds.
/// The quick tier leaves out the families that take long or much memory.
fn c19(t: bool) -> Vec<Family> {
    SAME.store(true, std::sync::atomic::Ordering::Relaxed);
    const LONG: [&str; 29] = ["C03/huge-keys", "C07/data-beyond-2^32-bytes", "C09/beyond-2^32-bytes", "C14/long-messages", "C15/long-messages", "C22/gcm-beyond-2^32", "C08/deep-counters", "C01/beyond-2^32-bytes", "C05/output-lengths", "C07/long-data", "C09/long-data", "C10/large", "C11/lengths-modulo",
        "C12/steered-result", "C12/u-limbs", "C12/scalar-runs", "C13/all-pairs", "C13/ratchet", "C14/chains", "C15/chosen-S", "C15/secret-bits", "C15/chains", "C16/R-compared-exactly",
        "C18/mixed", "C18/many-uses", "C21/full-length", "C21/counter-24-bits", "C23/huge-lengths", "C23/byte-values"];
    const LONG2: [&str; 5] = ["C18/aead-deep", "C18/stream-deep", "C18/hash-deep", "C18/key-churn", "C21/counter-logs"];
    let mut v = vec![];
    for i in (1..=18).chain(21..=23) {
        let p = format!("C{i:02}");
        for mut f in families(&p, false) {
            f.name = format!("{p}/{}", f.name);
            if !t && (LONG.contains(&&f.name[..]) || LONG2.contains(&&f.name[..])) { continue }
            if f.name == "C21/full-length" { continue }
            v.push(f)
        }
    }
    v
}
