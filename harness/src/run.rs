//! Command line, case scheduling, verdicts, evidence and replay.
use crate::case::*;
use crate::rt::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Camp = fn(&mut Case);
pub struct Plan {
    pub name: &'static str,
    pub f: Camp,
    pub quick: u64,
    pub thorough: u64,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub plans: Vec<Plan>,
    /// counters that must be non-zero for the run to mean anything
    pub need: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub fn load_elfs(o: &BTreeMap<String, String>) -> Elfs {
    let rd = |p: &str| std::fs::read(p).unwrap_or_else(|e| die(&format!("cannot read {p}: {e}")));
    let so = o.get("so").cloned().unwrap_or_else(|| "/verif/build/so/spl_token_wrap.so".into());
    let fx = o.get("fixtures").cloned().unwrap_or_else(|| "/repo/program/tests/fixtures".into());
    let mut extra = vec![];
    for name in crate::ids::VARIANTS {
        if let Some(p) = o.get(&format!("so-{name}")) {
            extra.push((name, rd(p)));
        }
    }
    Elfs { wrap: rd(&so), mpl: rd(&format!("{fx}/mpl_token_metadata.so")), t22: rd(&format!("{fx}/spl_token_2022.so")), extra }
}
pub fn die(m: &str) -> ! {
    println!("INCONCLUSIVE: {m}");
    std::process::exit(2)
}
fn known(prop: &str, path: &str) -> Vec<(String, String)> {
    let Ok(s) = std::fs::read_to_string(path) else { return vec![] };
    let mut v = vec![];
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let mut it = r.splitn(3, ' ');
            let p = it.next().unwrap_or("").trim_start_matches("property=");
            let sig = it.next().unwrap_or("").trim_start_matches("sig=");
            if p == prop {
                v.push((sig.to_string(), it.next().unwrap_or("").to_string()));
            }
        }
    }
    v
}
pub struct RunResult {
    pub cov: Cov,
    pub finds: Vec<(String, u64, Finding, Vec<String>)>,
    pub per_camp: BTreeMap<String, u64>,
    pub errors: Vec<String>,
    pub execs: u64,
    pub target_execs: u64,
    pub cut: bool,
}
pub fn run_plans(elfs: Arc<Elfs>, prop: &str, plans: &[(String, Camp, u64)], seed: u64, threads: usize, deadline: Duration) -> RunResult {
    let start = Instant::now();
    let res = Arc::new(Mutex::new(RunResult { cov: Cov::default(), finds: vec![], per_camp: BTreeMap::new(), errors: vec![], execs: 0, target_execs: 0, cut: false }));
    let jobs: Vec<(String, Camp, u64)> = {
        let mut v = vec![];
        for (n, f, k) in plans {
            for i in 0..*k {
                v.push((n.clone(), *f, i));
            }
        }
        v
    };
    // interleave campaigns so that a deadline cuts all of them evenly
    let mut jobs = jobs;
    let tot: BTreeMap<String, u64> = plans.iter().map(|p| (p.0.clone(), p.2)).collect();
    jobs.sort_by(|a, b| {
        let x = (a.2 as f64 + 0.5) / tot[&a.0] as f64;
        let y = (b.2 as f64 + 0.5) / tot[&b.0] as f64;
        x.partial_cmp(&y).unwrap()
    });
    let jobs = Arc::new(jobs);
    let next = Arc::new(AtomicU64::new(0));
    let mut hs = vec![];
    for _ in 0..threads {
        let (elfs, jobs, next, res, prop) = (elfs.clone(), jobs.clone(), next.clone(), res.clone(), prop.to_string());
        let b = std::thread::Builder::new().stack_size(64 << 20);
        hs.push(
            b.spawn(move || {
                let mut vm = Vm::new(&elfs);
                let mut cov = Cov::default();
                let mut per: BTreeMap<String, u64> = BTreeMap::new();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst) as usize;
                    if i >= jobs.len() {
                        break;
                    }
                    if start.elapsed() > deadline {
                        res.lock().unwrap().cut = true;
                        break;
                    }
                    let (name, f, idx) = &jobs[i];
                    // one case in six runs under another rent schedule
                    let rent = vm.m.sysvars.rent.clone();
                    let h = h64(&format!("rent {seed} {name} {idx}"));
                    if h % 6 == 0 {
                        #[allow(deprecated)]
                        {
                            vm.m.sysvars.rent.lamports_per_byte_year = [1u64, 7, 348, 5000, 100_000][(h / 6 % 5) as usize];
                        }
                        cov.inc("other_rent_schedule");
                    }
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut c = Case::new(&mut vm, seed, name, *idx);
                        f(&mut c);
                        (c.cov, c.finds, c.notes)
                    }));
                    vm.m.sysvars.rent = rent;
                    match r {
                        Ok((cc, finds, notes)) => {
                            cov.merge(cc);
                            *per.entry(name.clone()).or_default() += 1;
                            let mine: Vec<_> = finds.into_iter().filter(|x| x.props.iter().any(|p| *p == prop)).collect();
                            if !mine.is_empty() {
                                let mut g = res.lock().unwrap();
                                for m in mine {
                                    if g.finds.len() < 4000 {
                                        g.finds.push((name.clone(), *idx, m, notes.clone()));
                                    }
                                }
                            }
                        }
                        Err(e) => {
                            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            let mut g = res.lock().unwrap();
                            g.errors.push(format!("{name}#{idx}: {m}"));
                            if g.errors.len() > 200 {
                                break;
                            }
                        }
                    }
                }
                let mut g = res.lock().unwrap();
                g.cov.merge(cov);
                g.execs += vm.execs;
                g.target_execs += vm.target_execs;
                for (k, v) in per {
                    *g.per_camp.entry(k).or_default() += v;
                }
            })
            .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    Arc::try_unwrap(res).ok().unwrap().into_inner().unwrap()
}

pub fn parse_opts(args: &[String]) -> (Vec<String>, BTreeMap<String, String>) {
    let mut pos = vec![];
    let mut o = BTreeMap::new();
    for a in args {
        if let Some(x) = a.strip_prefix("--") {
            match x.split_once('=') {
                Some((k, v)) => o.insert(k.to_string(), v.to_string()),
                None => o.insert(x.to_string(), "1".to_string()),
            };
        } else {
            pos.push(a.clone());
        }
    }
    (pos, o)
}
pub fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let (pos, o) = parse_opts(&args);
    // panics of cases are collected, not printed
    if !o.contains_key("backtrace") {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match pos.first().map(|s| s.as_str()) {
        Some("run") => run_prop(&pos[1], &o),
        Some("replay") => replay(&pos[1], &o),
        Some("list") => {
            for p in crate::props::all() {
                println!("{}", p.id);
            }
        }
        _ => crate::extra_main(&pos, &o),
    }
}
fn replay(path: &str, o: &BTreeMap<String, String>) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap_or_else(|e| die(&format!("{path}: {e}")))).unwrap_or_else(|e| die(&format!("{path}: {e}")));
    let prop = v["property"].as_str().unwrap_or("").to_string();
    let camp = v["campaign"].as_str().unwrap_or("").to_string();
    let idx = v["case"].as_u64().unwrap_or(0);
    let seed = v["seed"].as_u64().unwrap_or(1);
    let p = crate::props::all().into_iter().find(|p| p.id == prop).unwrap_or_else(|| die("no such property"));
    let plan = p.plans.iter().find(|x| x.name == camp).unwrap_or_else(|| die("no such campaign"));
    let mut vm = Vm::new(&load_elfs(o));
    let mut c = Case::new(&mut vm, seed, &camp, idx);
    (plan.f)(&mut c);
    let mine: Vec<_> = c.finds.iter().filter(|f| f.props.iter().any(|x| *x == prop)).collect();
    for n in &c.notes {
        println!("  {n}");
    }
    for f in &mine {
        println!("{}: {}", f.sig, f.msg);
    }
    if mine.is_empty() {
        println!("replay of {camp}#{idx}: property {prop} holds");
        std::process::exit(0)
    }
    println!("VIOLATION property={prop} replay={path}");
    std::process::exit(1)
}
fn run_prop(id: &str, o: &BTreeMap<String, String>) {
    let start = Instant::now();
    let tier = o.get("tier").cloned().unwrap_or_else(|| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let p = crate::props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| die(&format!("no such property {id}")));
    let scale: f64 = o.get("scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let boost = match id {
        "P01" | "P20" | "P22" => 2.0,
        "C05" => 1.0,
        x if x.starts_with('P') => 3.5,
        _ => 1.5,
    };
    let plans: Vec<(String, Camp, u64)> = p
        .plans
        .iter()
        .filter(|x| o.get("camp").map(|c| c == x.name).unwrap_or(true))
        .map(|x| (x.name.to_string(), x.f, (boost * (if tier == "thorough" { x.thorough } else { x.quick }) as f64 * scale).ceil() as u64))
        .collect();
    let threads = o.get("threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16));
    let deadline = Duration::from_secs(o.get("deadline").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 2400 } else { 420 }));
    let elfs = Arc::new(load_elfs(o));
    let mut r = run_plans(elfs, id, &plans, seed, threads, deadline);
    r.finds.sort_by(|a, b| (&a.0, a.1).cmp(&(&b.0, b.1)));
    let kf = known(id, o.get("known").map(|s| s.as_str()).unwrap_or("/verif/known-findings.txt"));
    let mut seen_known: BTreeMap<String, (String, u64)> = BTreeMap::new();
    let (mut fresh, mut nk) = (vec![], 0u64);
    for f in &r.finds {
        if let Some(k) = kf.iter().find(|k| k.0 == f.2.sig) {
            seen_known.entry(k.0.clone()).or_insert((k.1.clone(), 0)).1 += 1;
            nk += 1;
        } else {
            fresh.push(f);
        }
    }
    let missing: Vec<&str> = p.need.iter().filter(|n| r.cov.counters.get(**n).copied().unwrap_or(0) == 0).cloned().collect();
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": r.cov.evaluations,
            "distinct_nontrivial": r.cov.distinct.len(),
            "rule": p.rule,
            "samples": r.cov.samples,
            "cases_per_campaign": r.per_camp,
            "svm_executions": r.execs,
            "token_wrap_executions": r.target_execs,
            "observed": r.cov.counters,
            "known_finding_hits": nk,
            "cut_by_deadline": r.cut,
            "harness_errors": r.errors.len(),
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": fresh.len(),
    });
    let evp = o.get("evidence").cloned().unwrap_or_else(|| format!("/verif/evidence/{id}.json"));
    if let Some(d) = std::path::Path::new(&evp).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    let mut s = serde_json::to_string_pretty(&ev).unwrap();
    s.push('\n');
    std::fs::write(&evp, s).unwrap_or_else(|e| die(&format!("{evp}: {e}")));
    println!(
        "{id}: {} evaluations ({} distinct), {} token-wrap executions, {} findings, {} harness errors, {:.1}s",
        r.cov.evaluations,
        r.cov.distinct.len(),
        r.target_execs,
        fresh.len(),
        r.errors.len(),
        start.elapsed().as_secs_f64()
    );
    if o.contains_key("verbose") {
        for (k, v) in &r.cov.counters {
            println!("   {k}: {v}");
        }
        for e in r.errors.iter().take(10) {
            println!("   error: {e}");
        }
    }
    for (_, (d, n)) in &seen_known {
        println!("KNOWN-FINDING: property={id} {d} ({n} cases)");
    }
    if !fresh.is_empty() {
        let dir = o.get("replays").cloned().unwrap_or_else(|| "/verif/build/replay".into());
        let _ = std::fs::create_dir_all(&dir);
        let mut sigs: BTreeMap<String, u64> = BTreeMap::new();
        for f in &fresh {
            *sigs.entry(f.2.sig.clone()).or_default() += 1;
        }
        let f = fresh[0];
        let path = format!("{dir}/{id}.json");
        let v = json!({"property": id, "campaign": f.0, "case": f.1, "seed": seed, "tier": tier, "signature": f.2.sig, "what": f.2.msg, "steps": f.3, "signatures": sigs,
            "reproduce": format!("/verif/bin/check {id} replay {path}")});
        let mut file = std::fs::File::create(&path).unwrap_or_else(|e| die(&format!("{path}: {e}")));
        let _ = file.write_all(serde_json::to_string_pretty(&v).unwrap().as_bytes());
        for f in fresh.iter().take(if o.contains_key("verbose") { 15 } else { 3 }) {
            println!("  {}#{} {}: {}", f.0, f.1, f.2.sig, f.2.msg);
        }
        println!("  signatures: {sigs:?}");
        println!("VIOLATION property={id} replay={path}");
        std::process::exit(1);
    }
    if r.errors.len() * 50 > r.per_camp.values().sum::<u64>() as usize {
        die(&format!("{} cases could not be set up, e.g. {}", r.errors.len(), r.errors[0]));
    }
    if !missing.is_empty() {
        die(&format!("never observed: {missing:?}"));
    }
    if r.cov.evaluations == 0 {
        die("nothing was evaluated");
    }
    std::process::exit(0)
}
