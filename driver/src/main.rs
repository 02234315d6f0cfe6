mod util;
mod keys;
mod btree;
mod files;
mod gen;
mod spatial;
use std::collections::{BTreeMap, HashSet};
use std::time::Instant;
use util::*;

type Case = fn(&mut Rng, u64, &mut Ctx) -> R;
struct Prop {
    run: Case,
    rule: &'static str,
    quick: u64,
}

fn prop(id: &str) -> Option<Prop> {
    let p = |run, quick, rule| Some(Prop { run, quick, rule });
    match id {
        "P01" => p(spatial::p01, 400, spatial::RULE01),
        "P02" => p(spatial::p02, 400, spatial::RULE02),
        "P03" => p(spatial::p03, 300, spatial::RULE03),
        "P04" => p(btree::p04, 6000, btree::RULE04),
        "P05" => p(btree::p05, 6000, btree::RULE05),
        "P06" => p(btree::p06, 5000, btree::RULE06),
        "P07" => p(btree::p07, 10000, btree::RULE07),
        "P08" => p(btree::p08, 5000, btree::RULE08),
        "P09" => p(files::p09, 2000, files::RULE09),
        "P10" => p(files::p10, 2000, files::RULE10),
        "P11" => p(files::p11, 2000, files::RULE11),
        "P12" => p(files::p12, 100, files::RULE12),
        "P13" => p(files::p13, 1500, files::RULE13),
        "P14" => p(files::p14, 300, files::RULE14),
        "P15" => p(files::p15, 300, files::RULE15),
        "P16" => p(files::p16, 300, files::RULE16),
        "P17" => p(files::p17, 300, files::RULE17),
        "P18" => p(files::p18, 200, files::RULE18),
        _ => None,
    }
}

/// driver PROP SEED TIER SECONDS OUT.json [CASE]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (id, seed, tier, secs, out) = (&a[1], a[2].parse::<u64>().unwrap(), &a[3], a[4].parse::<f64>().unwrap(), &a[5]);
    let only: Option<u64> = a.get(6).map(|x| x.parse().unwrap());
    let p = prop(id).expect("no such property");
    let mut cx = Ctx {
        thorough: tier == "thorough",
        evals: 0,
        distinct: HashSet::new(),
        samples: vec![],
        known: BTreeMap::new(),
        tags: BTreeMap::new(),
        trace: String::new(),
    };
    let verbose = only.is_some();
    if !verbose {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let n = if cx.thorough { u64::MAX } else { p.quick };
    let t0 = Instant::now();
    let mut cases = 0u64;
    let mut viol = None;
    let range = match only {
        Some(k) => k..k + 1,
        None => 0..n,
    };
    for i in range {
        if t0.elapsed().as_secs_f64() > secs {
            break;
        }
        let mut r = Rng::new(seed, id, i);
        cases += 1;
        cx.trace.clear();
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut r, i, &mut cx)));
        let msg = match res {
            Ok(Ok(())) => continue,
            Ok(Err(m)) => m,
            Err(e) => format!(
                "panic: {}",
                e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
            ),
        };
        viol = Some(serde_json::json!({"property": id, "seed": seed, "case": i, "what": msg, "input": cx.trace}));
        break;
    }
    let j = serde_json::json!({
        "property": id, "seed": seed, "cases": cases, "evaluations": cx.evals, "distinct_nontrivial": cx.distinct.len(),
        "rule": p.rule, "samples": cx.samples, "tags": cx.tags, "known": cx.known, "violation": viol, "wall_s": t0.elapsed().as_secs_f64()});
    std::fs::write(out, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    if let Some(v) = viol {
        println!("{}", serde_json::to_string_pretty(&v).unwrap());
        std::process::exit(1);
    }
}
