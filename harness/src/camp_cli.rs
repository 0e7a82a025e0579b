//! The command-line client, run as a process against a recording node (rpc.rs).
use crate::camp_admin as ca;
use crate::case::*;
use crate::ids::*;
use crate::ix::{self, WrapArgs};
use crate::meta as md;
use crate::rpc::*;
use crate::rt::*;
use crate::scene::*;
use crate::tok::*;
use rand::Rng;
use serde_json::{json, Value};
use solana_account::Account;
use solana_instruction::Instruction;

pub struct Env {
    pub dir: Dir,
    pub payer: Kp,
    pub net: Net,
    pub fmt: &'static str,
    pub dry: bool,
    pub sign_only: bool,
    pub base: Vec<String>,
}
/// Random global options around one fee payer.
pub fn env(c: &mut Case, w: &mut World, dry: f64, fault: f64) -> Env {
    let dir = Dir::new(c);
    let payer = Kp::new(c);
    w.fund(&payer.pk(), 50_000_000_000);
    let pf = payer.write(&dir.0, "payer.json");
    let other = Kp::new(c).write(&dir.0, "other.json");
    let (mut a, mut cfg_url, mut cfg_key) = (vec![], "@URL@".to_string(), pf.clone());
    let p = if c.settings { 0.5 } else { 0.3 };
    if c.chance(p) {
        // the command line overrides the configuration
        cfg_url = "@OTHER@".into();
        let u = c.pick(&["-u", "--url"]);
        a.push(u.to_string());
        a.push("@URL@".into());
        c.cov.inc("url_from_option");
    }
    if c.chance(p) {
        cfg_key = other.clone();
        a.push("--fee-payer".into());
        a.push(if c.settings && c.chance(0.3) {
            // read from standard input instead
            std::fs::copy(&pf, dir.0.join("stdin.in")).unwrap();
            c.cov.inc("payer_from_standard_input");
            c.pick(&["-", "stdin:"]).to_string()
        } else if c.settings && c.chance(0.2) {
            c.cov.inc("payer_from_file_url");
            format!("file:{pf}")
        } else {
            pf
        });
        c.cov.inc("payer_from_option");
    }
    let text = |url: &str, key: &str| format!("---\njson_rpc_url: \"{url}\"\nwebsocket_url: \"\"\nkeypair_path: \"{key}\"\naddress_labels: {{}}\ncommitment: {}\n", ["confirmed", "finalized", "processed"][key.len() % 3]);
    let home = c.settings && c.chance(0.4);
    if c.settings {
        // keys and settings nobody named
        std::fs::create_dir_all(dir.0.join(".config/solana")).unwrap();
        Kp::new(c).write(&dir.0, ".config/solana/id.json");
    }
    if home {
        std::fs::write(dir.0.join("home.in"), text(&cfg_url, &cfg_key)).unwrap();
        c.cov.inc("settings_from_home");
    } else {
        if c.settings && c.chance(0.7) {
            std::fs::write(dir.0.join("home.in"), text("@OTHER@", &other)).unwrap();
            c.cov.inc("settings_file_overrides_home");
        }
        std::fs::write(dir.0.join("config.in"), text(&cfg_url, &cfg_key)).unwrap();
        a.push(c.pick(&["-C", "--config"]).into());
        a.push(dir.0.join("config.yml").to_str().unwrap().into());
    }
    let fmt = c.pick(&["json", "json", "json", "json-compact", "", "display", "quiet", "verbose", "-v"]);
    match fmt {
        "" => {}
        "-v" => a.push(c.pick(&["-v", "--verbose"]).into()),
        f => {
            a.push("--output".into());
            a.push(f.into());
        }
    }
    let dry = c.chance(dry);
    if dry {
        a.push(c.pick(&["--dry-run", "--dryrun"]).into());
    }
    let mut net = Net::new(c);
    if c.chance(fault) {
        net.fault = rand_fault(c, dry);
    }
    Env { dir, payer, net, fmt, dry, sign_only: false, base: a }
}
fn rand_fault(c: &mut Case, dry: bool) -> Fault {
    let how = c.pick(&HOWS);
    if dry {
        return match c.below(8) {
            0 => Fault::Fail("simulateTransaction", 1, how),
            1 => Fault::Fail("getLatestBlockhash", 1, how),
            2 => Fault::Fail("getAccountInfo", c.rng.gen_range(1..4), how),
            3 => Fault::SimBare(c.chance(0.7), c.chance(0.7)),
            4 => Fault::SimBare(false, true),
            _ => Fault::SimErr(c.pick(&[
                json!("AccountNotFound"),
                json!("BlockhashNotFound"),
                json!("AlreadyProcessed"),
                json!("InsufficientFundsForFee"),
                json!({"InstructionError": [0, {"Custom": 2}]}),
                json!({"InstructionError": [1, "InsufficientFunds"]}),
                json!({"InstructionError": [0, "AccountNotRentExempt"]}),
                json!({"InsufficientFundsForRent": {"account_index": 1}}),
            ])),
        };
    }
    match c.below(10) {
        9 => Fault::Abandoned,
        0 => Fault::Fail("sendTransaction", 1, how),
        1 => Fault::Fail("getLatestBlockhash", 1, how),
        2 | 3 => Fault::Fail("getAccountInfo", c.rng.gen_range(1..4), how),
        4 => Fault::Fail("getMinimumBalanceForRentExemption", c.rng.gen_range(1..3), how),
        5 => Fault::Expires,
        6 => Fault::OtherSignature,
        7 => Fault::Fail("getSignatureStatuses", 1, how),
        _ => Fault::NoPreflight,
    }
}
fn fault_name(f: &Fault) -> String {
    match f {
        Fault::Fail(m, _, h) => format!("{m} {h:?}"),
        Fault::SimErr(_) => "simulation error".into(),
        f => format!("{f:?}"),
    }
}
/// The order of options and positionals does not matter to a user.
pub fn line(c: &mut Case, e: &Env, sub: &str, pos: &[String], opts: &[(String, Option<String>)]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let globals_first = c.chance(0.5);
    if globals_first {
        v.extend(e.base.clone());
    }
    v.push(sub.into());
    let at = c.below(pos.len() + 1);
    let mut o: Vec<String> = vec![];
    // several values can also follow one flag
    let grouped: Vec<&str> = ["multisig-signer", "signer"].into_iter().filter(|k| opts.iter().filter(|x| x.0 == *k).count() > 1 && c.chance(0.4)).collect();
    for g in &grouped {
        c.cov.inc("signers_after_one_flag");
        o.push(format!("--{g}"));
        o.extend(opts.iter().filter(|x| x.0 == *g).filter_map(|x| x.1.clone()));
    }
    for (k, x) in opts.iter().filter(|x| !grouped.contains(&x.0.as_str())) {
        match x {
            Some(x) if c.chance(0.3) => o.push(format!("--{k}={x}")),
            Some(x) => {
                o.push(format!("--{k}"));
                o.push(x.clone());
            }
            None => o.push(format!("--{k}")),
        }
    }
    // an option that takes several values must not be followed by a positional
    let multi = opts.iter().any(|x| x.0 == "multisig-signer" || x.0 == "signer");
    if multi {
        v.extend(pos.iter().cloned());
        v.extend(o);
    } else {
        v.extend(pos[..at].iter().cloned());
        v.extend(o);
        v.extend(pos[at..].iter().cloned());
    }
    if !globals_first {
        v.extend(e.base.clone());
    }
    v
}
pub fn go(c: &mut Case, w: &mut World, e: &Env, args: &[String]) -> RunOut {
    let out = run_cli(c, w, &e.net, &e.dir.0, args);
    settings_kept(c, e, &out);
    out
}
/// C07: what holds for every run whatever the command.
fn settings_kept(c: &mut Case, e: &Env, out: &RunOut) {
    c.cov.inc("settings_monitored");
    if out.strays > 0 {
        c.fail(&["C07"], "another-node", format!("{} connections to a node nobody named; {}", out.strays, out.brief()));
    }
    if let Some(f) = disclosed(&e.dir.0, out) {
        c.fail(&["C07"], "secret-disclosed", format!("{f}; {}", out.brief()));
    }
    if !out.files.is_empty() {
        c.fail(&["C07"], "files-written", format!("{:?}; {}", out.files, out.brief()));
    }
    if out.ok() {
        match e.fmt {
            "json" | "json-compact" => {
                if serde_json::from_str::<Value>(out.stdout.trim()).is_err() {
                    c.fail(&["C07"], "output-not-json", out.brief());
                }
                if e.fmt == "json-compact" && out.stdout.trim().contains('\n') {
                    c.fail(&["C07"], "compact-output-of-several-lines", out.brief());
                }
                c.cov.inc("json_outputs");
            }
            "quiet" => {
                if !out.stdout.trim().is_empty() {
                    c.fail(&["C07"], "quiet-speaks", out.brief());
                }
                c.cov.inc("quiet_outputs");
            }
            _ => {}
        }
    } else if matches!(e.fmt, "json" | "json-compact" | "quiet") && !out.stdout.trim().is_empty() {
        c.fail(&["C07"], "failure-prints-a-result", out.brief());
    }
}

/// What holds for every run of every command.
pub fn monitor(c: &mut Case, cmd: &str, prop: &'static str, e: &Env, noop: bool, out: &RunOut, before: &World, after: &World) {
    c.cov.inc(&format!("ran {cmd}{}{}", if e.dry { " dry" } else { "" }, if e.sign_only { " sign-only" } else { "" }));
    c.cov.inc(if out.ok() { "exit 0" } else { "exit not 0" });
    if out.sends.iter().any(|x| x.landed && !x.ok) {
        c.cov.inc("failed_on_chain");
    }
    if out.fault_hit {
        c.cov.inc(&format!("fault {}", fault_name(&e.net.fault)));
    }
    let what = || format!("{cmd} dry={} sign_only={} fault={:?}: {}", e.dry, e.sign_only, e.net.fault, out.brief());
    if e.dry && !out.sends.is_empty() {
        c.fail(&["C01"], "dry-run-broadcasts", what());
    }
    if e.sign_only && (!out.sends.is_empty() || !out.sims.is_empty()) {
        c.fail(&["C01"], "sign-only-reaches-the-network", what());
    }
    let landed = out.sends.iter().any(|s| s.landed);
    let diff = world_diff(before, after);
    if !landed && !diff.is_empty() {
        c.fail(&[prop], "changed-without-transaction", what());
    }
    if e.dry && !e.sign_only {
        if let Some(s) = out.sims.last() {
            let good = s.answered && s.err.is_null();
            c.cov.inc(if good { "dry_run_simulated_ok" } else { "dry_run_simulation_failed" });
            if out.ok() && !good {
                c.fail(&["C01"], "failed-simulation-reported-as-success", what());
            }
            if !out.ok() && good {
                c.fail(&["C01"], "successful-simulation-reported-as-failure", what());
            }
            if s.answered && matches!(e.fmt, "-v" | "verbose") {
                c.cov.inc("verbose_dry_run");
                let all = format!("{}\n{}", out.stdout, out.stderr);
                let logs: Vec<&str> = s.logs.as_array().into_iter().flatten().filter_map(|l| l.as_str()).collect();
                if let Some(l) = logs.iter().find(|l| !all.contains(**l)) {
                    c.fail(&["C01"], "verbose-dry-run-without-logs", format!("{l:?} of the simulation's log is not shown: {}", what()));
                }
                if let (true, Some(u)) = (good, s.units.as_u64()) {
                    if !all.contains(&u.to_string()) {
                        c.fail(&["C01"], "verbose-dry-run-without-units", what());
                    }
                }
            }
            if !good && out.stdout.contains("Simulation succeeded") {
                c.fail(&["C01"], "failed-simulation-called-success", what());
            }
        } else if out.ok() && !noop {
            c.fail(&["C01"], "dry-run-without-simulation", what());
        }
    }
    if !e.dry && !e.sign_only {
        if out.ok() && !noop {
            match out.sends.last() {
                None => c.fail(&[prop, "C01"], "success-without-transaction", what()),
                Some(s) if !s.ok => c.fail(&[prop], "rejected-transaction-reported-as-success", what()),
                _ => {}
            }
        }
        if out.ok() && noop && !out.sends.is_empty() {
            c.fail(&[prop], "transaction-where-none-is-due", what());
        }
        if out.sends.iter().filter(|s| s.ok).count() > 1 {
            c.fail(&[prop], "more-than-one-transaction", what());
        }
        if landed {
            c.cov.inc("transactions_landed");
        }
    }
    if !e.sign_only {
        for t in out.sends.iter().filter_map(|s| s.tx.as_ref()).chain(out.sims.iter().map(|s| &s.tx)) {
            if t.keys[0] != e.payer.pk() {
                c.fail(&[prop, "C07"], "another-fee-payer", format!("{}: {}", t.keys[0], what()));
            }
        }
    }
}
/// A printed value under a JSON name, or (in the readable formats) somewhere in the text.
pub fn shows(e: &Env, out: &RunOut, field: &str, val: &str) -> Result<(), String> {
    match e.fmt {
        "quiet" => Ok(()),
        "json" | "json-compact" => {
            let Some(j) = out.json() else { return Err("output is not JSON".into()) };
            let got = match &j[field] {
                Value::String(s) => s.clone(),
                x => x.to_string(),
            };
            if got == val {
                Ok(())
            } else {
                Err(format!("{field} is {got}, expected {val}"))
            }
        }
        _ => {
            // where a line is labelled with the field's name, the value is on it
            let bare = |s: &str| s.split('(').next().unwrap_or("").chars().filter(|x| x.is_ascii_alphanumeric()).collect::<String>().to_lowercase();
            for l in out.stdout.lines() {
                if let Some((name, v)) = l.split_once(':') {
                    let v = v.trim();
                    if bare(name) == bare(field) && !v.is_empty() && !v.split(|ch: char| !ch.is_ascii_alphanumeric()).any(|t| t == val) {
                        return Err(format!("{name:?} is given as {v}, expected {val}"));
                    }
                }
            }
            if out.stdout.split(|ch: char| !ch.is_ascii_alphanumeric()).any(|t| t == val) {
                Ok(())
            } else {
                Err(format!("{val} ({field}) is not printed"))
            }
        }
    }
}
pub fn sigs_shown(e: &Env, out: &RunOut, field: &str, t: &Tx) -> Result<(), String> {
    match e.fmt {
        "quiet" => Ok(()),
        "json" | "json-compact" => {
            let j = out.json().ok_or("output is not JSON")?;
            let one = |v: &Value| -> Option<String> {
                match v {
                    Value::String(s) => Some(s.clone()),
                    Value::Array(a) => Some(b58(&a.iter().map(|x| x.as_u64().unwrap_or(999) as u8).collect::<Vec<u8>>())),
                    _ => None,
                }
            };
            let want: Vec<String> = t.sigs.iter().map(|s| b58(s)).collect();
            let got: Vec<String> = if field == "signature" { one(&j[field]).into_iter().collect() } else { j[field].as_array().cloned().unwrap_or_default().iter().filter_map(one).collect() };
            let ok = if field == "signature" { got.first() == want.first() } else { got == want };
            if ok {
                Ok(())
            } else {
                Err(format!("{field} {got:?}, transaction has {want:?}"))
            }
        }
        _ => {
            if out.stdout.contains(&b58(&t.sigs[0])) {
                Ok(())
            } else {
                Err("the transaction signature is not printed".into())
            }
        }
    }
}
/// Signatures a successful run names; those of no transaction it sent or simulated are made up.
pub fn made_up_sigs(e: &Env, out: &RunOut) -> Vec<String> {
    if e.sign_only || out.reqs.is_empty() {
        return vec![];
    }
    let mut named: Vec<String> = vec![];
    match e.fmt {
        "quiet" => {}
        "json" | "json-compact" => {
            let Some(j) = out.json() else { return vec![] };
            let mut one = |v: &Value| match v {
                Value::String(s) => named.push(s.clone()),
                Value::Array(a) => named.push(b58(&a.iter().map(|x| x.as_u64().unwrap_or(999) as u8).collect::<Vec<u8>>())),
                _ => {}
            };
            one(&j["signature"]);
            for v in j["signatures"].as_array().into_iter().flatten() {
                one(v);
            }
        }
        _ => {
            for t in out.stdout.split(|ch: char| !ch.is_ascii_alphanumeric() && !"+/=_".contains(ch)) {
                if (64..=88).contains(&t.len()) && bs58::decode(t).into_vec().map(|v| v.len() == 64).unwrap_or(false) {
                    named.push(t.to_string());
                }
            }
        }
    }
    let known: Vec<String> = out.sends.iter().filter_map(|s| s.tx.as_ref()).chain(out.sims.iter().map(|s| &s.tx)).flat_map(|t| t.sigs.iter().map(|s| b58(s))).collect();
    if out.sends.iter().any(|s| s.tx.is_none()) {
        return vec![];
    }
    named.retain(|n| !known.contains(n));
    named
}
pub fn check_shows(c: &mut Case, e: &Env, out: &RunOut, props: &[&'static str], l: &[(&str, String)]) {
    c.cov.inc(if out.sends.is_empty() { "named_transactions_checked_nothing_sent" } else { "named_transactions_checked" });
    let m = made_up_sigs(e, out);
    if !m.is_empty() {
        c.fail(if out.sends.is_empty() && e.dry { &["C01"] } else { props }, "made-up-signature", format!("{m:?} belongs to no transaction; {}", out.brief()));
    }
    for (f, v) in l {
        c.cov.inc("printed_values_checked");
        if let Err(m) = shows(e, out, f, v) {
            c.fail(props, &format!("printed-{f}"), format!("{m}; {}", out.brief()));
        }
    }
}
pub fn check_sigs(c: &mut Case, e: &Env, out: &RunOut, props: &[&'static str], field: &str) {
    if let Some(t) = out.sends.last().and_then(|s| s.tx.as_ref()) {
        if let Err(m) = sigs_shown(e, out, field, t) {
            c.fail(props, "printed-signature", format!("{m}; {}", out.brief()));
        }
    }
}
/// Expected world after `ixs` and the fee of `n` signatures; Err when they are refused.
pub fn expect(c: &mut Case, w: &World, payer: &Pubkey, n: u64, ixs: &[Instruction]) -> Result<World, String> {
    let mut s = w.clone();
    if s.lamports(payer) < FEE * n {
        return Err("fee".into());
    }
    s.a.get_mut(payer).unwrap().lamports -= FEE * n;
    let (o, ok) = c.vm.tx(&mut s, ixs);
    if ok {
        Ok(s)
    } else {
        Err(o.last().unwrap().err_str())
    }
}
/// No account left with too little rent (the runtime refuses such a transaction).
pub fn rent_fine(c: &Case, w: &World, keys: &[Pubkey]) -> bool {
    keys.iter().all(|k| {
        let a = w.get(k);
        a.lamports == 0 || a.lamports >= c.vm.rent(a.data.len())
    })
}
pub fn describe(w: &World, x: &World, d: &[Pubkey]) -> String {
    d.iter()
        .take(4)
        .map(|k| {
            let (a, b) = (w.get(k), x.get(k));
            format!("{}: lamports {}/{} tokens {}/{} data {}/{}", nick(k), a.lamports, b.lamports, w.bal(k), x.bal(k), a.data.len(), b.data.len())
        })
        .collect::<Vec<_>>()
        .join("; ")
}

// ------------------------------------------------------------------ wrap and unwrap
pub struct Move {
    pub p: Pair,
    /// the account tokens leave and the one they enter
    pub src: Pubkey,
    pub dst: Option<Pubkey>,
    pub default_dst: Pubkey,
    pub ta: Option<Kp>,
    pub bal: u64,
}
/// A pair with a funded source (unwrapped or wrapped tokens) owned by the fee payer or
/// another key, and a destination.
pub fn scene(c: &mut Case, w: &mut World, payer: &Kp, unwrapping: bool, own: Option<Pubkey>) -> Move {
    let o = PairOpts { nested: Some(false), real_create: c.chance(0.3), exts: if c.chance(0.5) { Some(vec![]) } else { None }, native: 0.08, ..Default::default() };
    let p = make_pair(c, w, &o);
    let mut bal = rand_balance(c);
    if p.u == NATIVE || p.u == NATIVE22 {
        // lamports of rent come on top
        bal = bal.min(u64::MAX / 2);
    }
    let f = c.key();
    w.fund(&f, 1_000_000_000_000);
    let kind = c.below(4);
    let owner_kp = if kind < 2 { payer.clone() } else { Kp::new(c) };
    let delegated = own.is_some() && c.chance(0.25);
    let owner = if delegated { c.key() } else { own.unwrap_or(owner_kp.pk()) };
    let aux = c.chance(0.4);
    let mut mk = |c: &mut Case, w: &mut World, owner: Pubkey, mint: Pubkey, prog: Pubkey, aux: bool, thaw: bool| {
        let k = if aux {
            let k = c.key();
            make_tok(c.vm, w, k, prog, mint, owner, &[]);
            k
        } else {
            make_ata(c.vm, w, f, owner, mint, prog)
        };
        if thaw && mint == p.u && w.tok(&k).map(|t| t.state) == Some(2) {
            c.vm.must(w, &ix::freeze(prog, k, mint, p.freeze.unwrap(), true), "thaw");
        }
        k
    };
    let u_src = mk(c, w, owner, p.u, p.up, aux, true);
    let (src, dst, default_dst);
    if unwrapping {
        let ws = mk(c, w, owner, p.wm, p.wp, aux, true);
        // tokens of the wrapped mint that are backed
        let payer2 = c.key();
        let tmp = make_ata(c.vm, w, payer2, payer2, p.u, p.up);
        let _ = tmp;
        let mut s = w.clone();
        mint_tokens(c.vm, &mut s, p.up, p.u, p.escrow, bal);
        if c.vm.run(&mut s, &ix::mint_to(p.wp, p.wm, ws, p.auth, bal)).ok {
            *w = s;
        }
        src = ws;
        default_dst = u_src;
        dst = Some(if c.chance(0.3) {
            let o = c.key();
            let aux = c.chance(0.5);
            mk(c, w, o, p.u, p.up, aux, true)
        } else {
            u_src
        });
    } else {
        mint_tokens(c.vm, w, p.up, p.u, u_src, bal);
        src = u_src;
        default_dst = ata(&payer.pk(), &p.wm, &p.wp);
        let absent = c.chance(0.08);
        if !absent {
            mk(c, w, payer.pk(), p.wm, p.wp, false, true);
        }
        dst = if c.chance(0.5) {
            let o = c.key();
            let aux = c.chance(0.5);
            Some(mk(c, w, o, p.wm, p.wp, aux, true))
        } else {
            None
        };
    }
    let mut ta = if kind < 2 { None } else { Some(owner_kp) };
    if let (true, Some(d)) = (delegated, own) {
        let prog = if unwrapping { p.wp } else { p.up };
        let allow = c.pick(&[u64::MAX, bal]);
        c.vm.run(w, &ix::approve(prog, src, d, owner, allow));
    }
    if kind == 3 && own.is_none() {
        let d = Kp::new(c);
        let allow = c.pick(&[u64::MAX, bal, bal / 2]);
        let prog = if unwrapping { p.wp } else { p.up };
        if c.vm.run(w, &ix::approve(prog, src, d.pk(), owner, allow)).ok {
            ta = Some(d);
        }
    }
    Move { p, src, dst, default_dst, ta, bal }
}
fn cli_move(c: &mut Case, unwrapping: bool, dry: f64, fault: f64) {
    let cmd = if unwrapping { "unwrap" } else { "wrap" };
    let mut w = World { epoch: c.pick(&[0, 3]), ..Default::default() };
    let mut e = env(c, &mut w, dry, fault);
    let m = scene(c, &mut w, &e.payer.clone(), unwrapping, None);
    let p = &m.p;
    let amount = if c.chance(0.8) { c.rng.gen_range(1..=m.bal.max(1)) } else { rand_amount(c, m.bal) };
    let amount = if c.chance(0.03) { 0 } else { amount };
    let mut opts: Vec<(String, Option<String>)> = vec![];
    let mut o = |k: &str, v: String| opts.push((k.to_string(), Some(v)));
    let ta = m.ta.as_ref().unwrap_or(&e.payer).pk();
    let ta_file = m.ta.as_ref().map(|k| k.write(&e.dir.0, "ta.json"));
    let mut missing_ta = false;
    match ta_file {
        Some(f) if c.chance(0.93) => o("transfer-authority", f),
        Some(_) => missing_ta = true,
        None => {}
    }
    // explicit options: true ones, or one that contradicts the accounts
    let mut lie = "";
    if c.chance(0.12) {
        lie = c.pick(&["mint", "unwrapped program", "wrapped program"]);
    }
    let other_mint = {
        let (k, a) = (c.key(), c.key());
        let pr = if c.chance(0.7) { p.up } else { tp(c.rng.gen()) };
        make_mint(c.vm, &mut w, k, pr, 6, a, None, &[]);
        k
    };
    let not = |k: Pubkey| if k == SPL { T22 } else { SPL };
    if lie == "mint" {
        o("unwrapped-mint", other_mint.to_string());
    } else if c.chance(0.4) {
        o("unwrapped-mint", p.u.to_string());
    }
    if lie == "unwrapped program" {
        o("unwrapped-token-program", not(p.up).to_string());
    } else if c.chance(0.4) {
        o("unwrapped-token-program", p.up.to_string());
    }
    if unwrapping && lie == "wrapped program" {
        o("wrapped-token-program", not(p.wp).to_string());
    } else if unwrapping && c.chance(0.4) {
        o("wrapped-token-program", p.wp.to_string());
    }
    if !unwrapping {
        if let Some(d) = m.dst {
            o("recipient-token-account", d.to_string());
        }
    }
    let dst = m.dst.unwrap_or(m.default_dst);
    if c.chance(0.2) {
        // a known blockhash given by hand
        let h = if c.chance(0.8) { e.net.hash } else { c.key().to_bytes() };
        o("blockhash", b58(&h));
    }
    e.sign_only = c.chance(if e.dry { 0.1 } else { 0.06 });
    if e.sign_only {
        opts.push(("sign-only".into(), None));
    }
    let wp_arg = if !unwrapping && lie == "wrapped program" { not(p.wp) } else { p.wp };
    let pos = if unwrapping { vec![m.src.to_string(), dst.to_string(), amount.to_string()] } else { vec![m.src.to_string(), wp_arg.to_string(), amount.to_string()] };
    let args = line(c, &e, cmd, &pos, &opts);
    let before = w.clone();
    let out = go(c, &mut w, &e, &args);
    monitor(c, cmd, "C02", &e, false, &out, &before, &w);
    let wa = WrapArgs {
        recipient: dst,
        wrapped_mint: p.wm,
        authority: p.auth,
        up: p.up,
        wp: p.wp,
        source: m.src,
        unwrapped_mint: p.u,
        escrow: p.escrow,
        ta: if missing_ta { e.payer.pk() } else { ta },
        ta_signer: true,
        extras: vec![],
        amount,
    };
    let nsig = if wa.ta == e.payer.pk() { 1 } else { 2 };
    let i = if unwrapping { ix::unwrap(&wa) } else { ix::wrap(&wa) };
    let want = expect(c, &before, &e.payer.pk(), nsig, &[i.clone()]);
    let what = format!("{cmd} {} of {} {}->{} lie={lie:?} ta={} {:?}", amount, m.bal, tpn(&p.up), tpn(&p.wp), if nsig == 1 { "payer" } else { "separate" }, p.exts.iter().map(|e| e.ty()).collect::<Vec<_>>());
    if unwrapping && !lie.is_empty() {
        c.cov.inc(&format!("contradiction {lie}"));
        let signed = out.json().map(|j| j["signOnlyData"]["signers"].is_array()).unwrap_or(false);
        if out.ok() || !out.sends.is_empty() || !out.sims.is_empty() || signed {
            c.fail(&["C04"], "contradiction-not-refused", format!("{what}: {}", out.brief()));
        }
    }
    let h = opts.iter().find(|x| x.0 == "blockhash").and_then(|x| x.1.clone()).map(|x| x == b58(&e.net.hash)).unwrap_or(true);
    let clean = !out.fault_hit && h && lie.is_empty();
    if out.sends.iter().any(|s| s.ok) {
        c.cov.inc(&format!("{cmd}_landed"));
        match &want {
            Ok(x) => {
                let d = world_diff(x, &w);
                if !d.is_empty() && lie.is_empty() {
                    c.fail(&["C02"], "moved-something-else", format!("{what}: {}; {}", describe(x, &w, &d), out.brief()));
                }
                if !lie.is_empty() && !unwrapping && d.is_empty() {
                    // a stated program or mint that is wrong must not have been silently replaced
                    if lie == "wrapped program" {
                        c.fail(&["C02"], "wrapped-into-another-program", what.clone());
                    }
                }
            }
            Err(r) => c.fail(&["C02"], "landed-though-refused", format!("{what}: {r}; {}", out.brief())),
        }
        // the plain balances, whatever the program thinks
        let out_of = before.bal(&m.src).wrapping_sub(w.bal(&m.src));
        if out_of != amount && m.src != dst {
            c.fail(&["C02"], "moved-another-amount", format!("{what}: {out_of} left the source"));
        }
        if let Some(t) = out.sends.iter().find(|s| s.ok).and_then(|s| s.tx.as_ref()) {
            let sg: Vec<Pubkey> = t.keys[..t.nreq].to_vec();
            if !sg.contains(&wa.ta) || sg.iter().any(|k| *k != e.payer.pk() && *k != wa.ta) {
                c.fail(&["C02"], "signers", format!("{what}: {sg:?}"));
            }
        }
    } else if clean && !e.dry && !e.sign_only && want.is_ok() {
        c.fail(&["C02"], "possible-but-not-done", format!("{what}: {}", out.brief()));
    }
    if e.dry && clean && !e.sign_only && want.is_ok() && !out.ok() {
        c.fail(&["C01"], "dry-run-of-a-valid-command-fails", format!("{what}: {}", out.brief()));
    }
    if e.dry && clean && !e.sign_only && want.is_err() && out.ok() {
        c.fail(&["C01"], "dry-run-of-an-invalid-command-succeeds", format!("{what}: {}", out.brief()));
    }
    if out.ok() && lie.is_empty() {
        let mut l = vec![("unwrappedMintAddress", p.u.to_string()), ("wrappedMintAddress", p.wm.to_string()), ("escrowAccount", p.escrow.to_string()), ("recipientTokenAccount", dst.to_string()), ("amount", amount.to_string())];
        if unwrapping {
            l.push(("unwrappedTokenProgram", p.up.to_string()));
            l.push(("wrappedTokenAccount", m.src.to_string()));
        } else {
            l.push(("unwrappedTokenAccount", m.src.to_string()));
        }
        check_shows(c, &e, &out, &["C02", "C04"], &l);
        // what it says it is about to do
        for t in out.stdout.lines() {
            let t: Vec<&str> = t.split_whitespace().collect();
            let Some(i) = t.windows(2).position(|x| x == ["from", "mint"]) else { continue };
            let (a, b) = if unwrapping { (p.wm, p.u) } else { (p.u, p.wm) };
            if t.get(i + 2).and_then(|x| x.parse::<Pubkey>().ok()).is_some_and(|x| x != a) || (t.get(i + 3) == Some(&"to") && t.get(i + 4).and_then(|x| x.parse::<Pubkey>().ok()).is_some_and(|x| x != b)) || t.windows(2).take(i).any(|x| x[1] == "tokens" && x[0].parse::<u64>().is_ok_and(|n| n != amount)) {
                c.fail(&["C04", "C02"], "announced-something-else", format!("{:?}; {what}: {}", t.join(" "), out.brief()));
            }
            c.cov.inc("announcements_checked");
        }
        if !e.dry && !e.sign_only {
            check_sigs(c, &e, &out, &["C02"], "signatures");
        }
    }
    if let Some(t) = out.sends.iter().filter_map(|s| s.tx.as_ref()).chain(out.sims.iter().map(|s| &s.tx)).next() {
        c.cov.inc("instructions_compared");
        for k in [p.wm, p.auth, p.escrow] {
            if lie.is_empty() && !t.keys.contains(&k) {
                c.fail(&["C04"], "underived-address", format!("{what}: {k} is not in the transaction"));
            }
        }
    }
    c.eval(&format!("{cmd} {} {} e={} lie={lie} dry={} so={} fault={} opts={:?} ok={} want={} fmt={}", tpn(&p.up), tpn(&p.wp), p.exts.len(), e.dry, e.sign_only, fault_name(&e.net.fault), opts.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), out.ok(), want.is_ok(), e.fmt));
    if c.cov.samples.is_empty() {
        let s = c.notes.join(" | ");
        c.sample(s);
    }
}

// ------------------------------------------------------------------ offline multisig
/// Sign-only output: blockhash, message, present, absent and bad signers.
struct Signed {
    hash: String,
    msg: Vec<u8>,
    present: Vec<(Pubkey, [u8; 64])>,
    absent: Vec<Pubkey>,
    bad: usize,
    raw: Vec<String>,
}
fn sign_only_data(out: &RunOut) -> Option<Signed> {
    use base64::Engine;
    let j = out.json()?;
    let d = &j["signOnlyData"];
    let strs = |v: &Value| v.as_array().cloned().unwrap_or_default().iter().filter_map(|x| x.as_str().map(str::to_string)).collect::<Vec<_>>();
    let raw = strs(&d["signers"]);
    let present = raw
        .iter()
        .filter_map(|x| {
            let (k, s) = x.split_once('=')?;
            Some((k.parse().ok()?, bs58::decode(s).into_vec().ok()?.try_into().ok()?))
        })
        .collect();
    Some(Signed {
        hash: d["blockhash"].as_str()?.to_string(),
        msg: base64::engine::general_purpose::STANDARD.decode(d["message"].as_str()?).ok()?,
        present,
        absent: strs(&d["absent"]).iter().filter_map(|x| x.parse().ok()).collect(),
        bad: strs(&d["badSig"]).len(),
        raw,
    })
}
fn multisig(c: &mut Case) {
    let unwrapping = c.rng.gen();
    let cmd = if unwrapping { "unwrap" } else { "wrap" };
    let mut w = World { epoch: c.pick(&[0, 3]), ..Default::default() };
    let mut e = env(c, &mut w, 0.0, 0.0);
    let (ms, n) = (c.key(), c.pick(&[1usize, 2, 2, 3, 3, 4, 5, 6, 11]));
    let mut members: Vec<Kp> = (0..n).map(|_| Kp::new(c)).collect();
    let payer_in = c.chance(0.3);
    if payer_in {
        let i = c.below(n);
        members[i] = e.payer.clone();
    }
    let m = c.rng.gen_range(1..=n.min(6));
    let keys: Vec<Pubkey> = members.iter().map(|k| k.pk()).collect();
    let sc = scene(c, &mut w, &e.payer.clone(), unwrapping, Some(ms));
    let p = &sc.p;
    let prog = if unwrapping { p.wp } else { p.up };
    make_multisig(c.vm, &mut w, ms, prog, m as u8, &keys);
    // who signs, in what order
    let k = if c.chance(0.85) { m } else { c.rng.gen_range(1..=n.min(6)) };
    let mut who: Vec<Kp> = vec![];
    while who.len() < k {
        let x = c.pick(&members);
        if !who.iter().any(|y: &Kp| y.pk() == x.pk()) {
            who.push(x);
        }
    }
    let payer = e.payer.clone();
    let ppk = payer.pk();
    let dst = sc.dst.unwrap_or(sc.default_dst);
    let amount = if c.chance(0.9) { c.rng.gen_range(1..=sc.bal.max(1)) } else { rand_amount(c, sc.bal) };
    let hash = b58(&e.net.hash);
    let mut fixed: Vec<(String, Option<String>)> = vec![];
    let mut o = |k: &str, v: String| fixed.push((k.to_string(), Some(v)));
    let offline = c.chance(0.5);
    if offline || c.chance(0.4) {
        o("unwrapped-mint", p.u.to_string());
    }
    if offline || c.chance(0.4) {
        o("unwrapped-token-program", p.up.to_string());
    }
    if unwrapping && (offline || c.chance(0.4)) {
        o("wrapped-token-program", p.wp.to_string());
    }
    if !unwrapping && (sc.dst.is_some() || c.chance(0.3)) {
        o("recipient-token-account", dst.to_string());
    }
    o("transfer-authority", ms.to_string());
    let pos = if unwrapping { vec![sc.src.to_string(), dst.to_string(), amount.to_string()] } else { vec![sc.src.to_string(), p.wp.to_string(), amount.to_string()] };
    let wa = WrapArgs {
        recipient: dst,
        wrapped_mint: p.wm,
        authority: p.auth,
        up: p.up,
        wp: p.wp,
        source: sc.src,
        unwrapped_mint: p.u,
        escrow: p.escrow,
        ta: ms,
        ta_signer: false,
        extras: who.iter().map(|k| meta(k.pk(), true, false)).collect(),
        amount,
    };
    let doc = if unwrapping { ix::unwrap(&wa) } else { ix::wrap(&wa) };
    let mut required: Vec<Pubkey> = who.iter().map(|k| k.pk()).collect();
    if !required.contains(&ppk) {
        required.push(ppk);
    }
    let before = w.clone();
    let want = expect(c, &before, &ppk, required.len() as u64, &[doc.clone()]);
    let what = format!("{cmd} {} of {} {}->{} by {k} of a {m}-of-{n} multisig, payer member={} ", amount, sc.bal, tpn(&p.up), tpn(&p.wp), who.iter().any(|x| x.pk() == ppk));
    // each party signs on its own; the broadcaster may leave its own signature for later
    let role = c.pick(&["payer", "payer", "member", "neither"]);
    let own: Option<Kp> = match role {
        "payer" => Some(payer.clone()),
        "member" => Some(c.pick(&who)),
        _ => None,
    };
    let stray = Kp::new(c);
    let mut fault = if c.chance(0.4) { c.pick(&["missing", "flipped", "other message", "other member's", "stranger's", "twice", "other order", "other hash", "other amount", "not a signature"]) } else { "" };
    let mut parties: Vec<Kp> = who.clone();
    if !who.iter().any(|x| x.pk() == ppk) {
        parties.push(payer.clone());
    }
    let mut msg: Option<Vec<u8>> = None;
    let mut pres: Vec<(Pubkey, String)> = vec![];
    for (i, x) in parties.clone().iter().enumerate() {
        if own.as_ref().map(|o| o.pk() == x.pk()).unwrap_or(false) && c.chance(0.5) {
            continue; // signs when broadcasting
        }
        let f = x.write(&e.dir.0, &format!("party{i}.json"));
        e.base = vec!["-C".into(), e.dir.0.join("config.yml").to_str().unwrap().into(), "--output".into(), c.pick(&["json", "json-compact"]).into()];
        config(&e, if c.chance(0.5) { &f } else { "nowhere.json" });
        e.base.push("--fee-payer".into());
        e.base.push(if x.pk() == ppk { f.clone() } else { ppk.to_string() });
        let mut opts = fixed.clone();
        let mut order = who.clone();
        let odd = fault == "other order" && i == 0 && who.len() > 1;
        if odd {
            order.reverse();
        }
        for y in &order {
            // a payer who is also a member may name the key either way
            let named = y.pk() == x.pk() && (x.pk() != ppk || c.chance(0.8));
            opts.push(("multisig-signer".into(), Some(if named { f.clone() } else { y.pk().to_string() })));
        }
        opts.push(("blockhash".into(), Some(hash.clone())));
        opts.push(("sign-only".into(), None));
        let mut pos = pos.clone();
        let odd_amount = fault == "other amount" && i == 0 && amount > 1;
        if odd_amount {
            pos[2] = (amount - 1).to_string();
        }
        let args = line(c, &e, cmd, &pos, &opts);
        e.sign_only = true;
        let b4 = w.clone();
        let out = go(c, &mut w, &e, &args);
        monitor(c, cmd, "C05", &e, false, &out, &b4, &w);
        let Some(d) = (if out.ok() { sign_only_data(&out) } else { None }) else {
            c.fail(&["C05"], "sign-only-fails", format!("{what}: {}", out.brief()));
            return;
        };
        c.cov.inc("sign_only_outputs");
        let Some(t) = parse_msg(&d.msg) else {
            c.fail(&["C05"], "no-message", format!("{what}: {}", out.brief()));
            return;
        };
        if d.hash != hash || b58(&t.hash) != hash {
            c.fail(&["C05"], "another-blockhash", format!("{what}: {}", out.brief()));
        }
        let pk: Vec<Pubkey> = d.present.iter().map(|x| x.0).collect();
        let rest: Vec<Pubkey> = required.iter().filter(|k| **k != x.pk()).cloned().collect();
        let same = |a: &[Pubkey], b: &[Pubkey]| a.len() == b.len() && a.iter().all(|k| b.contains(k)) && b.iter().all(|k| a.contains(k));
        if !same(&pk, &[x.pk()]) || d.raw.len() != 1 {
            c.fail(&["C05"], "present-signers", format!("{what}: {} printed as present, {} signed", d.raw.join(" "), x.pk()));
        }
        if !same(&d.absent, &rest) || d.bad != 0 {
            c.fail(&["C05"], "absent-signers", format!("{what}: absent {:?} expected {rest:?}, {} bad", d.absent, d.bad));
        }
        if !same(&t.keys[..t.nreq], &required) || t.keys[0] != ppk {
            c.fail(&["C05"], "required-signers", format!("{what}: the message requires {:?} expected {required:?}", &t.keys[..t.nreq]));
        }
        for (k, s) in &d.present {
            c.cov.inc("signatures_verified");
            if !verify(k, &d.msg, s) {
                c.fail(&["C05"], "invalid-signature", format!("{what}: of {k}"));
            }
        }
        if !odd && !odd_amount {
            match &msg {
                None => msg = Some(d.msg.clone()),
                Some(m) if *m != d.msg => c.fail(&["C05"], "messages-differ", format!("{what}: party {i} signed another message")),
                _ => c.cov.inc("messages_compared"),
            }
            let okay = t.ixs.len() == 1 && t.ixs[0].program_id == doc.program_id && t.ixs[0].data == doc.data && t.ixs[0].accounts.iter().map(|a| a.pubkey).eq(doc.accounts.iter().map(|a| a.pubkey));
            if !okay {
                c.fail(&["C05", "C02"], "another-instruction", format!("{what}: {:?}", t.ixs));
            }
        }
        pres.extend(d.present.iter().map(|x| (x.0, b58(&x.1))));
    }
    // the broadcast
    let i = if pres.is_empty() { 0 } else { c.below(pres.len()) };
    let base_msg = msg.clone().unwrap_or_default();
    let mut bhash = hash.clone();
    if pres.is_empty() && !matches!(fault, "other hash") {
        fault = "";
    }
    match fault {
        "missing" => {
            pres.remove(i);
        }
        "flipped" => {
            let mut b: Vec<u8> = bs58::decode(&pres[i].1).into_vec().unwrap();
            let at = c.below(64);
            b[at] ^= 1 << c.below(8);
            pres[i].1 = b58(&b);
        }
        "other message" => {
            let k = parties.iter().find(|x| x.pk() == pres[i].0).unwrap();
            let mut m = base_msg.clone();
            let l = m.len();
            m[l - 1 - c.below(8)] ^= 1;
            pres[i].1 = b58(&k.sign(&m));
        }
        "other member's" => {
            let k = stray.clone();
            pres[i].1 = b58(&k.sign(&base_msg));
        }
        "stranger's" => pres.push((stray.pk(), b58(&stray.sign(&base_msg)))),
        "twice" => {
            let x = pres[i].clone();
            pres.push(x);
        }
        "other hash" => bhash = b58(&c.key().to_bytes()),
        "not a signature" => pres[i].1 = c.pick(&["x", "", "1111", "0OIl"]).into(),
        _ => {}
    }
    if c.chance(0.5) {
        pres.reverse();
    }
    let pf = payer.write(&e.dir.0, "payer.json");
    e.fmt = c.pick(&["json", "json-compact", "display", "quiet"]);
    e.base = vec!["-C".into(), e.dir.0.join("config.yml").to_str().unwrap().into(), "--output".into(), e.fmt.into()];
    let sf = stray.write(&e.dir.0, "stray.json");
    if role == "payer" && c.chance(0.6) {
        config(&e, &pf);
    } else {
        config(&e, &sf);
        e.base.push("--fee-payer".into());
        e.base.push(if role == "payer" { pf.clone() } else { ppk.to_string() });
    }
    e.dry = c.chance(0.12);
    if e.dry {
        e.base.push("--dry-run".into());
    }
    e.sign_only = false;
    let mut opts = fixed.clone();
    for y in &who {
        let mine = own.as_ref().map(|o| o.pk() == y.pk()).unwrap_or(false);
        let have = pres.iter().any(|x| x.0 == y.pk());
        // one's own key may be given as a file or, if its signature is there already, by name
        let by_file = mine && (!have || c.chance(0.5));
        opts.push(("multisig-signer".into(), Some(if by_file { y.write(&e.dir.0, "own.json") } else { y.pk().to_string() })));
    }
    opts.push(("blockhash".into(), Some(bhash)));
    for (k, s) in &pres {
        opts.push(("signer".into(), Some(format!("{k}={s}"))));
    }
    let args = line(c, &e, cmd, &pos, &opts);
    let b4 = w.clone();
    let out = go(c, &mut w, &e, &args);
    monitor(c, cmd, "C05", &e, false, &out, &b4, &w);
    let what = format!("{what} role={role} fault={fault:?}");
    c.cov.inc(&format!("broadcast by {role}"));
    if !fault.is_empty() {
        c.cov.inc(&format!("presignature {fault}"));
    }
    let sent = out.sends.iter().find(|s| s.ok);
    if let Some(t) = sent.and_then(|s| s.tx.as_ref()) {
        c.cov.inc("multisig_landed");
        if let Some(m) = &msg {
            if t.msg != *m {
                c.fail(&["C05"], "another-message-broadcast", what.clone());
            }
        }
        if !t.signed() {
            c.fail(&["C05"], "unsigned-broadcast", what.clone());
        }
        match &want {
            Ok(x) if !world_diff(x, &w).is_empty() => c.fail(&["C05"], "moved-something-else", format!("{what}: {}", describe(x, &w, &world_diff(x, &w)))),
            Err(r) => c.fail(&["C05"], "landed-though-refused", format!("{what}: {r}")),
            _ => {}
        }
    } else if out.ok() && !e.dry {
        c.fail(&["C05"], "success-claimed", format!("{what}: {}", out.brief()));
    }
    let fits = out.sends.iter().filter_map(|s| s.tx.as_ref()).all(|t| t.raw.len() <= 1232);
    let harmless = matches!(fault, "" | "twice") || (fault == "other order" && who.len() < 2) || (fault == "other amount" && amount < 2);
    // parties[0] may have signed only at the broadcast
    let unused = matches!(fault, "other order" | "other amount") && own.as_ref().map(|o| o.pk() == parties[0].pk()).unwrap_or(false);
    if harmless && want.is_ok() && fits && !unused {
        if !out.ok() {
            c.fail(&["C05"], "complete-but-refused", format!("{what}: {}", out.brief()));
        } else {
            c.cov.inc(&format!("accepted {cmd}"));
        }
        if let Some(s) = out.sims.last() {
            if !s.tx.signed() {
                c.fail(&["C05"], "unsigned-simulation", what.clone());
            }
        }
    }
    if sent.is_some() {
        check_sigs(c, &e, &out, &["C05", "C02"], "signatures");
    }
    c.eval(&format!("{cmd} {}{} {k}/{m}/{n} pm={payer_in} {role} {fault} ext={} pres={} want={} ok={} dry={}", tpn(&p.up), tpn(&p.wp), p.exts.len(), pres.len(), want.is_ok(), out.ok(), e.dry));
    if c.cov.samples.is_empty() {
        let s = c.notes.join(" | ");
        c.sample(s);
    }
}
/// A multisig whose members' keys are (partly) held by the one who runs the tool.
fn held(c: &mut Case) {
    let unwrapping = c.rng.gen();
    let cmd = if unwrapping { "unwrap" } else { "wrap" };
    let mut w = World { epoch: c.pick(&[0, 3]), ..Default::default() };
    let mut e = env(c, &mut w, 0.2, 0.1);
    let (ms, n) = (c.key(), c.pick(&[1usize, 2, 3, 4, 6, 11]));
    let mut members: Vec<Kp> = (0..n).map(|_| Kp::new(c)).collect();
    if c.chance(0.3) {
        let i = c.below(n);
        members[i] = e.payer.clone();
    }
    let m = c.rng.gen_range(1..=n.min(5));
    let keys: Vec<Pubkey> = members.iter().map(|k| k.pk()).collect();
    let sc = scene(c, &mut w, &e.payer.clone(), unwrapping, Some(ms));
    let p = &sc.p;
    let prog = if unwrapping { p.wp } else { p.up };
    make_multisig(c.vm, &mut w, ms, prog, m as u8, &keys);
    let k = if c.chance(0.9) { m } else { c.rng.gen_range(1..=n.min(5)) };
    let mut who: Vec<Kp> = vec![];
    while who.len() < k {
        let x = c.pick(&members);
        if !who.iter().any(|y: &Kp| y.pk() == x.pk()) {
            who.push(x);
        }
    }
    let ppk = e.payer.pk();
    let share = c.pick(&[0.0, 0.5, 1.0, 1.0, 1.0]);
    let have: Vec<bool> = who.iter().map(|_| c.chance(share)).collect();
    let all = who.iter().zip(&have).all(|(x, h)| *h || x.pk() == ppk);
    let dst = sc.dst.unwrap_or(sc.default_dst);
    let amount = if c.chance(0.9) { c.rng.gen_range(1..=sc.bal.max(1)) } else { rand_amount(c, sc.bal) };
    let mut opts: Vec<(String, Option<String>)> = vec![];
    let mut o = |k: &str, v: String| opts.push((k.to_string(), Some(v)));
    if c.chance(0.4) {
        o("unwrapped-mint", p.u.to_string());
    }
    if c.chance(0.4) {
        o("unwrapped-token-program", p.up.to_string());
    }
    if unwrapping && c.chance(0.4) {
        o("wrapped-token-program", p.wp.to_string());
    }
    if !unwrapping && (sc.dst.is_some() || c.chance(0.3)) {
        o("recipient-token-account", dst.to_string());
    }
    o("transfer-authority", ms.to_string());
    e.sign_only = c.chance(0.5);
    let mut good_hash = true;
    if !who.is_empty() {
        good_hash = c.chance(0.9);
        o("blockhash", b58(&if good_hash { e.net.hash } else { c.key().to_bytes() }));
    }
    for (i, x) in who.iter().enumerate() {
        let f = if have[i] { x.write(&e.dir.0, &format!("held{i}.json")) } else { x.pk().to_string() };
        o("multisig-signer", f);
    }
    if e.sign_only {
        opts.push(("sign-only".into(), None));
    }
    let pos = if unwrapping { vec![sc.src.to_string(), dst.to_string(), amount.to_string()] } else { vec![sc.src.to_string(), p.wp.to_string(), amount.to_string()] };
    let wa = WrapArgs {
        recipient: dst,
        wrapped_mint: p.wm,
        authority: p.auth,
        up: p.up,
        wp: p.wp,
        source: sc.src,
        unwrapped_mint: p.u,
        escrow: p.escrow,
        ta: ms,
        ta_signer: false,
        extras: who.iter().map(|k| meta(k.pk(), true, false)).collect(),
        amount,
    };
    let doc = if unwrapping { ix::unwrap(&wa) } else { ix::wrap(&wa) };
    let mut required: Vec<Pubkey> = who.iter().map(|k| k.pk()).collect();
    if !required.contains(&ppk) {
        required.push(ppk);
    }
    let before = w.clone();
    let want = expect(c, &before, &ppk, required.len() as u64, &[doc]);
    let args = line(c, &e, cmd, &pos, &opts);
    let out = go(c, &mut w, &e, &args);
    monitor(c, cmd, "C05", &e, false, &out, &before, &w);
    let what = format!("{cmd} {amount} of {} {}->{} by {k} of a {m}-of-{n} multisig, held {have:?} dry={} sign_only={}: {}", sc.bal, tpn(&p.up), tpn(&p.wp), e.dry, e.sign_only, out.brief());
    let mode = if e.sign_only { "sign-only" } else if e.dry { "dry" } else { "sent" };
    c.cov.inc(&format!("held {} {mode}", if all { "all" } else { "some" }));
    if e.sign_only {
        if let Some(d) = if out.ok() { sign_only_data(&out) } else { None } {
            let mine = |q: &Pubkey| *q == ppk || who.iter().zip(&have).any(|(x, h)| *h && x.pk() == *q);
            for q in &required {
                if mine(q) != d.present.iter().any(|x| x.0 == *q) || mine(q) == d.absent.contains(q) {
                    c.fail(&["C05"], "present-signers", format!("{q}: {what}"));
                }
            }
            for (q, s) in &d.present {
                c.cov.inc("signatures_verified");
                if !verify(q, &d.msg, s) {
                    c.fail(&["C05"], "invalid-signature", format!("of {q}: {what}"));
                }
            }
        } else if !out.fault_hit && ["json", "json-compact"].contains(&e.fmt) {
            c.fail(&["C05"], "sign-only-fails", what.clone());
        }
    } else {
        let sent = out.sends.iter().any(|s| s.ok);
        if sent && !all {
            c.fail(&["C05"], "landed-without-its-members", what.clone());
        }
        if sent {
            c.cov.inc("held_landed");
            match &want {
                Ok(x) if !world_diff(x, &w).is_empty() => c.fail(&["C05", "C02"], "moved-something-else", format!("{what}: {}", describe(x, &w, &world_diff(x, &w)))),
                Err(r) => c.fail(&["C05"], "landed-though-refused", format!("{what}: {r}")),
                _ => {}
            }
        } else if !out.fault_hit && all && good_hash && want.is_ok() && !e.dry {
            c.fail(&["C05"], "complete-but-refused", what.clone());
        }
        if e.dry && !out.fault_hit && all && good_hash && want.is_ok() && !out.ok() {
            c.fail(&["C01"], "dry-run-of-a-valid-command-fails", what.clone());
        }
        if !all && !e.dry && out.ok() {
            c.fail(&["C05"], "success-claimed", what.clone());
        }
    }
    c.eval(&format!("held {cmd} {}{} {k}/{m}/{n} {mode} all={all} fmt={} want={} ok={} fault={}", tpn(&p.up), tpn(&p.wp), e.fmt, want.is_ok(), out.ok(), out.fault_hit));
}
pub fn camp_held(c: &mut Case) {
    held(c)
}
fn config(e: &Env, key: &str) {
    std::fs::write(e.dir.0.join("config.in"), format!("---\njson_rpc_url: \"@URL@\"\nwebsocket_url: \"\"\nkeypair_path: \"{key}\"\naddress_labels: {{}}\ncommitment: confirmed\n")).unwrap();
}
pub fn camp_multisig(c: &mut Case) {
    multisig(c)
}

// ------------------------------------------------------------------ create-mint
fn level(c: &mut Case, need: u64) -> u64 {
    match c.below(7) {
        0 | 1 => 0,
        2 => need - 1,
        3 => need,
        4 => need + c.rng.gen_range(1..1000),
        5 => c.rng.gen_range(1..need),
        _ => need * 2,
    }
}
fn cli_create(c: &mut Case, dry: f64, fault: f64) {
    // the node's rent schedule
    let old = c.vm.m.sysvars.rent.clone();
    if c.chance(0.4) {
        #[allow(deprecated)]
        {
            c.vm.m.sysvars.rent.lamports_per_byte_year = c.pick(&[1u64, 7, 1000, 348, 100_000]);
        }
    }
    cli_create_in(c, dry, fault);
    c.vm.m.sysvars.rent = old;
}
fn cli_create_in(c: &mut Case, dry: f64, fault: f64) {
    let mut w = World::default();
    let e = env(c, &mut w, dry, fault);
    let p0 = make_pair(c, &mut w, &PairOpts { no_escrow: true, nested: Some(false), ..Default::default() });
    let p = &p0;
    // undo the wrapped side
    let made = w.get(&p.wm);
    let kind = c.below(10);
    let existing = kind >= 7;
    let space = made.data.len();
    if !existing {
        w.a.remove(&p.wm);
        w.a.remove(&p.bp);
        let n = c.vm.rent(if p.wp == SPL { 82 } else { 0 } + 0).max(2);
        let real = {
            let mut s = w.clone();
            s.fund(&p.wm, c.vm.rent(4096));
            s.fund(&p.bp, c.vm.rent(32));
            let o = c.vm.run(&mut s, &ix::create_mint(p.u, p.wp, false));
            if o.ok {
                c.vm.rent(s.get(&p.wm).data.len())
            } else {
                n
            }
        };
        let (a, bp) = (level(c, real.max(2)), level(c, c.vm.rent(32).max(2)));
        if a > 0 {
            w.fund(&p.wm, a);
        }
        if bp > 0 {
            w.fund(&p.bp, bp);
        }
    }
    let _ = space;
    let missing = c.chance(0.05);
    if missing {
        w.a.remove(&p.u);
    }
    let idem = c.chance(0.5);
    let poor = c.chance(0.05);
    if poor {
        w.a.get_mut(&e.payer.pk()).unwrap().lamports = 6000;
    }
    let opts: Vec<(String, Option<String>)> = if idem { vec![("idempotent".into(), None)] } else { vec![] };
    let args = line(c, &e, "create-mint", &[p.u.to_string(), p.wp.to_string()], &opts);
    let before = w.clone();
    let out = go(c, &mut w, &e, &args);
    monitor(c, "create-mint", "C03", &e, false, &out, &before, &w);
    // what a careful caller would do: top both up and create
    let pk = e.payer.pk();
    let len = {
        let mut s = before.clone();
        s.fund(&p.wm, c.vm.rent(4096));
        s.fund(&p.bp, c.vm.rent(32));
        let o = c.vm.run(&mut s, &ix::create_mint(p.u, p.wp, true));
        if o.ok {
            Some(s.get(&p.wm).data.len())
        } else {
            None
        }
    };
    let what = format!("create-mint {} {} existing={existing} idem={idem} funding {}/{} rent32 {}: {}", tpn(&p.up), tpn(&p.wp), before.lamports(&p.wm), before.lamports(&p.bp), c.vm.rent(32), out.brief());
    let mut wanted = false;
    if let Some(len) = len {
        let (gm, gb) = (c.vm.rent(len).saturating_sub(before.lamports(&p.wm)), c.vm.rent(32).saturating_sub(before.lamports(&p.bp)));
        let mut ixs = vec![];
        if gm > 0 {
            ixs.push(system_transfer(pk, p.wm, gm));
        }
        if gb > 0 {
            ixs.push(system_transfer(pk, p.bp, gb));
        }
        ixs.push(ix::create_mint(p.u, p.wp, idem));
        let want = expect(c, &before, &pk, 1, &ixs);
        wanted = want.as_ref().map(|x| rent_fine(c, x, &[pk, p.wm, p.bp])).unwrap_or(false);
        if out.sends.iter().any(|s| s.ok) {
            c.cov.inc("mints_created");
            if gm == 0 || gb == 0 {
                c.cov.inc("already_funded");
            }
            if gm > 0 && before.lamports(&p.wm) > 0 {
                c.cov.inc("partly_funded");
            }
            match &want {
                Ok(x) => {
                    let d = world_diff(x, &w);
                    if !d.is_empty() {
                        c.fail(&["C03"], "not-the-missing-rent", format!("{}; {what}", describe(x, &w, &d)));
                    }
                }
                Err(r) => c.fail(&["C03"], "landed-though-refused", format!("{r}; {what}")),
            }
        }
        if out.ok() && !out.fault_hit {
            check_shows(c, &e, &out, &["C03"], &[("fundedWrappedMintLamports", gm.to_string()), ("fundedBackpointerLamports", gb.to_string())]);
        }
    }
    if wanted && !out.fault_hit && !e.dry && !out.ok() {
        c.fail(&["C03"], "possible-but-not-done", what.clone());
    }
    if existing && !idem && out.ok() && !e.dry {
        c.fail(&["C03"], "existing-pair-accepted", what.clone());
    }
    if existing && !missing {
        c.cov.inc(if idem { "existing_accepted" } else { "existing_refused" });
    }
    if out.ok() {
        check_shows(c, &e, &out, &["C03", "C04"], &[("unwrappedMintAddress", p.u.to_string()), ("wrappedMintAddress", p.wm.to_string()), ("wrappedBackpointerAddress", p.bp.to_string())]);
        if !e.dry {
            check_sigs(c, &e, &out, &["C03"], "signature");
        }
    }
    c.eval(&format!("create {} {} ex={existing} idem={idem} miss={missing} poor={poor} f={}/{} dry={} fault={} ok={} fmt={}", tpn(&p.up), tpn(&p.wp), before.lamports(&p.wm).min(2), before.lamports(&p.bp).min(2), e.dry, fault_name(&e.net.fault), out.ok(), e.fmt));
    if c.cov.samples.is_empty() {
        let s = c.notes.join(" | ");
        c.sample(s);
    }
}

// ------------------------------------------------------------------ find-pdas and refusals
fn odd_account(c: &mut Case, w: &mut World) -> (Pubkey, &'static str) {
    let k = c.key();
    match c.below(5) {
        0 => (k, "missing"),
        1 => {
            w.fund(&k, 1_000_000_000);
            (k, "wallet")
        }
        2 => {
            let (m, a) = (c.key(), c.key());
            let pr = tp(c.rng.gen());
            make_mint(c.vm, w, m, pr, 6, a, None, &[]);
            make_tok(c.vm, w, k, pr, m, a, &[]);
            (k, "token account")
        }
        3 => {
            let pr = tp(c.rng.gen());
            let l = c.vm.rent(82);
            w.put(k, Account { lamports: l, data: vec![0; 82], owner: pr, executable: false, rent_epoch: u64::MAX });
            (k, "uninitialised mint")
        }
        _ => {
            let l = c.vm.rent(82);
            let (m, a) = (c.key(), c.key());
            make_mint(c.vm, w, m, SPL, 6, a, None, &[]);
            let d = w.data(&m).to_vec();
            w.put(k, Account { lamports: l, data: d, owner: FAKETOK, executable: false, rent_epoch: u64::MAX });
            (k, "foreign mint")
        }
    }
}
fn cli_pdas(c: &mut Case, dry: f64, fault: f64) {
    let mut w = World::default();
    let e = env(c, &mut w, dry, fault);
    let p = make_pair(c, &mut w, &PairOpts { no_escrow: true, native: 0.06, ..Default::default() });
    let (k, what) = if c.chance(0.75) { (p.u, "mint") } else { odd_account(c, &mut w) };
    let wp = tp(c.rng.gen());
    let args = line(c, &e, "find-pdas", &[k.to_string(), wp.to_string()], &[]);
    let before = w.clone();
    let out = go(c, &mut w, &e, &args);
    monitor(c, "find-pdas", "C04", &e, true, &out, &before, &w);
    if !out.sends.is_empty() || !out.sims.is_empty() {
        c.fail(&["C04"], "query-sends", out.brief());
    }
    let q = Pair::of(k, before.get(&k).owner, wp);
    if out.ok() {
        if what == "missing" {
            c.fail(&["C04"], "addresses-of-a-missing-mint", out.brief());
        }
        c.cov.inc("pdas_shown");
        check_shows(c, &e, &out, &["C04"], &[("wrappedMintAddress", q.wm.to_string()), ("wrappedMintAuthority", q.auth.to_string()), ("wrappedBackpointerAddress", q.bp.to_string()), ("unwrappedEscrow", q.escrow.to_string())]);
    } else if what == "mint" && !out.fault_hit {
        c.fail(&["C04"], "addresses-refused", out.brief());
    }
    c.eval(&format!("pdas {what} {} {} fmt={} fault={} ok={}", tpn(&p.up), tpn(&wp), e.fmt, fault_name(&e.net.fault), out.ok()));
    if c.cov.samples.is_empty() {
        let s = c.notes.join(" | ");
        c.sample(s);
    }
}
/// Arguments that cannot mean anything valid.
fn cli_refuse(c: &mut Case, dry: f64) {
    let mut w = World::default();
    let e = env(c, &mut w, dry, 0.0);
    let m = scene(c, &mut w, &e.payer.clone(), false, None);
    let p = &m.p;
    let k = c.key();
    let bad_prog = c.pick(&[ATA, SYS, WRAP, MPL, FAKETOK, p.u, k]).to_string();
    let bad_num = c.pick(&["-1", "1.5", "18446744073709551616", "1e3", "0x10", "", "ten", " 1", "1_000", "99999999999999999999999"]).to_string();
    let bad_key = c.pick(&["nonsense", "1111", "0OIl", "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5D"]).to_string();
    let (u, wp, s) = (p.u.to_string(), p.wp.to_string(), m.src.to_string());
    let some = |k: &str, v: &String| vec![(k.to_string(), Some(v.clone()))];
    let none: Vec<(String, Option<String>)> = vec![];
    let (sub, pos, opts, label) = match c.below(14) {
        0 => ("create-mint", vec![u, bad_prog], none, "create-mint program"),
        1 => ("find-pdas", vec![u, bad_prog], none, "find-pdas program"),
        2 => ("wrap", vec![s, bad_prog, "1".into()], none, "wrap program"),
        3 => ("create-escrow-account", vec![u, bad_prog], none, "create-escrow program"),
        4 => ("close-stuck-escrow", vec![u, s, bad_prog], none, "close program"),
        5 => ("wrap", vec![s, wp, "1".into()], some("unwrapped-token-program", &bad_prog), "wrap unwrapped program"),
        6 => ("unwrap", vec![s.clone(), s, "1".into()], some("unwrapped-token-program", &bad_prog), "unwrap unwrapped program"),
        7 => ("unwrap", vec![s.clone(), s, "1".into()], some("wrapped-token-program", &bad_prog), "unwrap wrapped program"),
        8 => ("wrap", vec![s, wp, bad_num], none, "wrap amount"),
        9 => ("unwrap", vec![s.clone(), s, bad_num], none, "unwrap amount"),
        10 => ("wrap", vec![bad_key, wp, "1".into()], none, "wrap source"),
        11 => ("find-pdas", vec![bad_key, wp], none, "find-pdas mint"),
        12 => {
            // close-escrow exists for token-2022 mints only
            let (k, a) = (c.key(), c.key());
            make_mint(c.vm, &mut w, k, SPL, 6, a, None, &[]);
            let q = Pair::of(k, SPL, p.wp);
            make_ata(c.vm, &mut w, a, q.auth, k, SPL);
            ("close-stuck-escrow", vec![k.to_string(), s, wp], none, "close spl mint")
        }
        _ => ("sync-metadata-to-token2022", vec![u], some("metadata-program-id", &MPL.to_string()), "program without account"),
    };
    let args = line(c, &e, sub, &pos, &opts);
    let before = w.clone();
    let out = go(c, &mut w, &e, &args);
    c.cov.inc(&format!("refusal {label}"));
    if out.ok() || !out.sends.is_empty() || !out.sims.is_empty() || !world_diff(&before, &w).is_empty() {
        c.fail(&["C04"], "bad-argument-not-refused", format!("{label} {args:?}: {}", out.brief()));
    }
    c.eval(&format!("refuse {label} dry={} {:?}", e.dry, pos.last()));
}
// ------------------------------------------------------------------ escrow commands
fn cli_escrow(c: &mut Case, dry: f64, fault: f64) {
    let mut w = World::default();
    let e = env(c, &mut w, dry, fault);
    let exists = c.chance(0.4);
    let p = make_pair(c, &mut w, &PairOpts { no_escrow: !exists, ..Default::default() });
    if c.chance(0.3) {
        // the escrow can be made before its wrapped mint
        w.a.remove(&p.wm);
        w.a.remove(&p.bp);
    }
    let (k, kind) = if c.chance(0.8) { (p.u, "mint") } else { odd_account(c, &mut w) };
    let q = Pair::of(k, before_owner(&w, &k), p.wp);
    let exists = exists && kind == "mint";
    let lam = !exists && kind == "mint" && c.chance(0.15);
    if lam {
        // anyone can send lamports to the escrow's address
        let l = c.rng.gen_range(890_880..3_000_000);
        w.fund(&q.escrow, l);
    }
    let idem = c.chance(0.5);
    let opts: Vec<(String, Option<String>)> = if idem { vec![("idempotent".into(), None)] } else { vec![] };
    let args = line(c, &e, "create-escrow-account", &[k.to_string(), p.wp.to_string()], &opts);
    let before = w.clone();
    let out = go(c, &mut w, &e, &args);
    monitor(c, "create-escrow-account", "C06", &e, exists && idem, &out, &before, &w);
    let what = format!("create-escrow {kind} {} {} exists={exists} idem={idem} lamports={lam}: {}", tpn(&q.up), tpn(&q.wp), out.brief());
    let pk = e.payer.pk();
    let want = expect(c, &before, &pk, 1, &[ix::create_ata(pk, q.auth, k, q.up, false)]);
    if kind != "mint" {
        c.cov.inc("not_a_mint");
        if out.ok() || !out.sends.is_empty() {
            c.fail(&["C06"], "escrow-for-no-mint", what.clone());
        }
    } else if exists {
        c.cov.inc(if idem { "existing_escrow_noop" } else { "existing_escrow_error" });
        if !out.fault_hit && out.ok() != idem {
            c.fail(&["C06"], "existing-escrow", what.clone());
        }
        if !world_diff(&before, &w).is_empty() {
            c.fail(&["C06"], "existing-escrow-touched", what.clone());
        }
    } else {
        if out.sends.iter().any(|s| s.ok) {
            c.cov.inc("escrows_created");
            match &want {
                Ok(x) => {
                    let d = world_diff(x, &w);
                    if !d.is_empty() {
                        c.fail(&["C06"], "another-escrow", format!("{}; {what}", describe(x, &w, &d)));
                    }
                }
                Err(r) => c.fail(&["C06"], "landed-though-refused", format!("{r}; {what}")),
            }
        } else if want.is_ok() && !out.fault_hit && !e.dry {
            if lam {
                c.fail(&["C06"], "funded-address-taken-for-an-escrow", what.clone());
            } else {
                c.fail(&["C06"], "possible-but-not-done", what.clone());
            }
        }
        if out.ok() && lam && out.sends.is_empty() && !e.dry {
            c.fail(&["C06"], "success-without-escrow", what.clone());
        }
    }
    if out.ok() {
        check_shows(c, &e, &out, &["C06", "C04"], &[("escrowAccountAddress", q.escrow.to_string()), ("escrowAccountOwner", q.auth.to_string()), ("unwrappedTokenProgramId", q.up.to_string())]);
        if !e.dry && !out.sends.is_empty() {
            check_sigs(c, &e, &out, &["C06"], "signature");
        }
    }
    c.eval(&format!("escrow {kind} {} {} ex={exists} idem={idem} lam={lam} dry={} fault={} ok={}", tpn(&q.up), tpn(&q.wp), e.dry, fault_name(&e.net.fault), out.ok()));
    if c.cov.samples.is_empty() {
        let s = c.notes.join(" | ");
        c.sample(s);
    }
}
fn before_owner(w: &World, k: &Pubkey) -> Pubkey {
    w.get(k).owner
}
fn cli_close(c: &mut Case, dry: f64, fault: f64) {
    let mut w = World::default();
    let e = env(c, &mut w, dry, fault);
    let p = ca::stuck_scene(c, &mut w);
    let dest = match c.below(8) {
        0..=2 => e.payer.pk(),
        // any account will do, whatever it is otherwise used for
        3 => c.pick(&[p.u, p.wm, p.auth]),
        4 => {
            let o = c.key();
            if w.mint(&p.u).is_some_and(|m| m.supply == 0) {
                let pr = w.get(&p.u).owner;
                make_ata(c.vm, &mut w, o, o, p.u, pr)
            } else {
                o
            }
        }
        5 => {
            let (k, l) = (c.key(), c.rng.gen_range(900_000..9_000_000));
            w.fund(&k, l);
            k
        }
        _ => c.key(),
    };
    let args = line(c, &e, "close-stuck-escrow", &[p.u.to_string(), dest.to_string(), p.wp.to_string()], &[]);
    let before = w.clone();
    let out = go(c, &mut w, &e, &args);
    monitor(c, "close-stuck-escrow", "C06", &e, false, &out, &before, &w);
    let pk = e.payer.pk();
    let want = expect(c, &before, &pk, 1, &[ix::close_stuck(p.escrow, dest, p.u, p.wm, p.auth)]);
    let possible = want.as_ref().map(|x| rent_fine(c, x, &[dest, pk])).unwrap_or(false);
    let what = format!("close {} possible={possible}: {}", tpn(&p.wp), out.brief());
    if out.sends.iter().any(|s| s.ok) {
        c.cov.inc("escrows_closed");
        match &want {
            Ok(x) => {
                let d = world_diff(x, &w);
                if !d.is_empty() {
                    c.fail(&["C06"], "closed-something-else", format!("{}; {what}", describe(x, &w, &d)));
                }
            }
            Err(r) => c.fail(&["C06"], "landed-though-refused", format!("{r}; {what}")),
        }
    } else if possible && !out.fault_hit && !e.dry {
        c.fail(&["C06"], "possible-but-not-done", what.clone());
    }
    if !possible {
        c.cov.inc("close_impossible");
    }
    if out.ok() {
        check_shows(c, &e, &out, &["C06", "C04"], &[("unwrappedMint", p.u.to_string()), ("escrowAccount", p.escrow.to_string())]);
        if !e.dry {
            check_sigs(c, &e, &out, &["C06"], "signatures");
        }
    }
    c.eval(&format!("close {} dest_payer={} dry={} fault={} ok={} possible={possible} {:?}", tpn(&p.wp), dest == pk, e.dry, fault_name(&e.net.fault), out.ok(), p.exts.iter().map(|x| x.ty()).collect::<Vec<_>>()));
}

// ------------------------------------------------------------------ metadata commands
fn cli_sync(c: &mut Case, dry: f64, fault: f64) {
    let mut w = World::default();
    let e = env(c, &mut w, dry, fault);
    let to22 = c.chance(0.6);
    let mut kind = c.pick(&md::KINDS);
    if !to22 && kind == md::Kind::SplMpl && c.chance(0.5) {
        kind = md::Kind::SelfPtr;
    }
    let s = md::make_source(c, &mut w, kind, !to22);
    let unset = kind == md::Kind::SelfPtr && c.chance(0.1);
    if unset {
        let u = s.u;
        let i = spl_token_2022_interface::extension::metadata_pointer::instruction::update(&T22, &u, &s.ma, &[], None).unwrap();
        c.vm.must(&mut w, &i, "unset pointer");
    }
    let wp = tp(to22);
    let p = md::make_target(c, &mut w, &s, wp);
    c.vm_cfg(&s);
    let cmd = if to22 { "sync-metadata-to-token2022" } else { "sync-metadata-to-spl-token" };
    let (acct_opt, prog_opt) = if to22 { ("metadata-account", "metadata-program-id") } else { ("source-metadata", "owner-program") };
    let mut opts: Vec<(String, Option<String>)> = vec![];
    let third = s.owner_prog.is_some();
    // Token-2022 sync finds the account itself unless a third party program holds it;
    // Metaplex sync is told
    let explicit = if to22 { third || c.chance(0.3) } else { true };
    let mut given = None;
    let mut wrong = false;
    if explicit {
        if let Some(a) = s.acct {
            let a = if c.chance(0.08) {
                wrong = true;
                c.key()
            } else {
                a
            };
            given = Some(a);
            opts.push((acct_opt.into(), Some(a.to_string())));
            if let Some(o) = s.owner_prog {
                opts.push((prog_opt.into(), Some(o.to_string())));
            }
        }
    }
    let args = line(c, &e, cmd, &[s.u.to_string()], &opts);
    let before = w.clone();
    let out = go(c, &mut w, &e, &args);
    monitor(c, cmd, "C06", &e, false, &out, &before, &w);
    let pk = e.payer.pk();
    let src = if wrong { given } else { s.acct };
    let i = if to22 { ix::sync22(p.wm, p.auth, s.u, T22, src, s.owner_prog) } else { ix::syncspl(mpl(&p.wm), p.auth, p.wm, s.u, src, s.owner_prog) };
    let want = expect(c, &before, &pk, 1, &[i]);
    let possible = want.as_ref().map(|x| rent_fine(c, x, &[p.wm, mpl(&p.wm)])).unwrap_or(false) && (!third || explicit);
    let what = format!("{cmd} {kind:?} explicit={explicit} wrong={wrong} unset={unset} want={:?}: {}", want.as_ref().err(), out.brief());
    if out.sends.iter().any(|s| s.ok) {
        c.cov.inc(&format!("synced {kind:?} {}", tpn(&wp)));
        match &want {
            Ok(x) => {
                let d = world_diff(x, &w);
                if !d.is_empty() {
                    c.fail(&["C06"], "synced-something-else", format!("{}; {what}", describe(x, &w, &d)));
                }
            }
            Err(r) => c.fail(&["C06"], "landed-though-refused", format!("{r}; {what}")),
        }
    } else if possible && !out.fault_hit && !e.dry {
        c.fail(&["C06"], "possible-but-not-done", what.clone());
    }
    if e.dry && !out.fault_hit && possible && !out.ok() {
        c.fail(&["C01"], "dry-run-of-a-valid-command-fails", what.clone());
    }
    if out.ok() && !wrong {
        let mut l = vec![("unwrappedMint", s.u.to_string()), ("wrappedMint", p.wm.to_string()), ("wrappedMintAuthority", p.auth.to_string())];
        if !to22 {
            l.push(("metaplexMetadata", mpl(&p.wm).to_string()));
        }
        if let (Some(a), false) = (s.acct, unset) {
            l.push(("sourceMetadata", a.to_string()));
        }
        check_shows(c, &e, &out, &["C06", "C04"], &l);
        if !e.dry {
            check_sigs(c, &e, &out, &["C06"], if to22 { "signatures" } else { "signature" });
        }
    }
    c.eval(&format!("{cmd} {kind:?} ex={explicit} wrong={wrong} unset={unset} dry={} fault={} ok={} possible={possible}", e.dry, fault_name(&e.net.fault), out.ok()));
    if c.cov.samples.is_empty() {
        let s = c.notes.join(" | ");
        c.sample(s);
    }
}
pub fn mpl(k: &Pubkey) -> Pubkey {
    mpl_pda(k)
}
trait Cfg {
    fn vm_cfg(&mut self, s: &md::Source);
}
impl Cfg for Case<'_> {
    fn vm_cfg(&mut self, s: &md::Source) {
        crate::adv::reset(s.cfg());
    }
}
pub fn camp_wrap(c: &mut Case) {
    cli_move(c, false, 0.1, 0.25)
}
pub fn camp_unwrap(c: &mut Case) {
    cli_move(c, true, 0.1, 0.25)
}
pub fn camp_create(c: &mut Case) {
    cli_create(c, 0.08, 0.15)
}
pub fn camp_pdas(c: &mut Case) {
    cli_pdas(c, 0.1, 0.1)
}
pub fn camp_refuse(c: &mut Case) {
    cli_refuse(c, 0.2)
}
pub fn camp_escrow(c: &mut Case) {
    cli_escrow(c, 0.08, 0.15)
}
pub fn camp_close(c: &mut Case) {
    cli_close(c, 0.08, 0.15)
}
pub fn camp_sync(c: &mut Case) {
    cli_sync(c, 0.08, 0.15)
}
/// Any command, usually as a dry run or sign-only, usually with a misbehaving node.
pub fn camp_dry(c: &mut Case) {
    let (d, f) = (0.85, 0.5);
    match c.below(8) {
        0 => cli_move(c, false, d, f),
        1 => cli_move(c, true, d, f),
        2 => cli_create(c, d, f),
        3 => cli_escrow(c, d, f),
        4 => cli_close(c, d, f),
        5 => cli_sync(c, d, f),
        6 => cli_pdas(c, d, f),
        _ => cli_move(c, c.idx % 2 == 0, d, 0.0),
    }
}
/// Settings from every place, any command; settings that contradict each other or cannot be read.
pub fn camp_settings(c: &mut Case) {
    if c.chance(0.15) {
        return bad_settings(c);
    }
    if c.chance(0.06) {
        return named_cluster(c);
    }
    c.settings = true;
    let (d, f) = (0.15, 0.0);
    match c.below(7) {
        0 => cli_move(c, false, d, f),
        1 => cli_move(c, true, d, f),
        2 => cli_create(c, d, f),
        3 => cli_escrow(c, d, f),
        4 => cli_close(c, d, f),
        5 => cli_sync(c, d, f),
        _ => cli_pdas(c, d, f),
    }
}
/// The clusters that have names are the ones the client talks to.
fn named_cluster(c: &mut Case) {
    let mut w = World::default();
    c.settings = false;
    let e = env(c, &mut w, 0.0, 0.0);
    let names = [
        (["mainnet-beta", "m"], "https://api.mainnet-beta.solana.com", "api.mainnet-beta.solana.com:443"),
        (["testnet", "t"], "https://api.testnet.solana.com", "api.testnet.solana.com:443"),
        (["devnet", "d"], "https://api.devnet.solana.com", "api.devnet.solana.com:443"),
        (["localhost", "l"], "http://localhost:8899", "http://localhost:8899/"),
        (["http://node.example:8899", "http://node.example:8899"], "http://node.example:8899", "http://node.example:8899/"),
    ];
    let (i, j, n) = (c.below(5), c.below(5), c.below(2));
    let (by_option, in_file) = match c.below(4) {
        0 => (false, true),
        1 => (true, true),
        _ => (true, false),
    };
    let key = e.payer.write(&e.dir.0, "named.json");
    let mut a: Vec<String> = vec![];
    if in_file {
        let t = format!("---\njson_rpc_url: \"{}\"\nwebsocket_url: \"\"\nkeypair_path: \"{key}\"\naddress_labels: {{}}\ncommitment: confirmed\n", names[j].1);
        let at = if c.chance(0.5) {
            std::fs::create_dir_all(e.dir.0.join(".config/solana/cli")).unwrap();
            ".config/solana/cli/config.yml"
        } else {
            a.extend(["-C".to_string(), e.dir.0.join("named.yml").to_str().unwrap().into()]);
            "named.yml"
        };
        std::fs::write(e.dir.0.join(at), t).unwrap();
    }
    if by_option {
        a.extend([c.pick(&["-u", "--url"]).to_string(), names[i].0[n].to_string()]);
    }
    a.extend(["--fee-payer".to_string(), key]);
    let want = names[if by_option { i } else { j }].2;
    a.extend([c.pick(&["find-pdas", "create-mint"]).to_string(), c.key().to_string(), c.pick(&[SPL, T22]).to_string()]);
    let (code, asked, text) = run_proxied(c, &e.dir.0, &a);
    c.cov.inc("named_clusters");
    let what = format!("{}: asked for {asked:?}, exit {code:?}: {}", a.join(" "), text.chars().take(200).collect::<String>());
    if asked.is_empty() || asked.iter().any(|x| x.trim_end_matches('/') != want.trim_end_matches('/')) {
        c.fail(&["C07"], "another-cluster", format!("expected {want}; {what}"));
    }
    if code == Some(0) {
        c.fail(&["C07"], "success-without-a-node", what);
    }
    c.eval(&format!("named {i} {j} {n} {by_option} {in_file}"));
}
fn bad_settings(c: &mut Case) {
    let mut w = World::default();
    c.settings = true;
    let mut e = env(c, &mut w, 0.3, 0.0);
    let p = make_pair(c, &mut w, &PairOpts { nested: Some(false), exts: Some(vec![]), ..Default::default() });
    let gone = e.dir.0.join("gone.json").to_str().unwrap().to_string();
    let junk = e.dir.0.join("junk.json").to_str().unwrap().to_string();
    let t = c.pick(&["", "[1,2,3]", "{", "not: [a, key", "\u{0}"]);
    std::fs::write(&junk, t).unwrap();
    let drop = |b: &mut Vec<String>, names: &[&str]| {
        if let Some(i) = b.iter().position(|x| names.contains(&x.as_str())) {
            b.drain(i..=i + 1);
        }
    };
    let how = c.pick(&["config gone", "config junk", "payer gone", "payer junk", "config's payer gone", "verbose and output", "unknown output", "bad url"]);
    match how {
        "config gone" | "config junk" => {
            drop(&mut e.base, &["-C", "--config"]);
            let x = if how == "config gone" { gone } else { junk };
            e.base.extend(["-C".to_string(), x]);
        }
        "payer gone" | "payer junk" => {
            drop(&mut e.base, &["--fee-payer"]);
            let x = if how == "payer gone" { gone } else { junk };
            e.base.extend(["--fee-payer".to_string(), x]);
        }
        "config's payer gone" => {
            drop(&mut e.base, &["--fee-payer", ""]);
            for f in ["config.in", "home.in"] {
                if e.dir.0.join(f).exists() {
                    std::fs::write(e.dir.0.join(f), format!("---\njson_rpc_url: \"@URL@\"\nwebsocket_url: \"\"\nkeypair_path: \"{gone}\"\naddress_labels: {{}}\ncommitment: confirmed\n")).unwrap();
                }
            }
        }
        "verbose and output" => {
            drop(&mut e.base, &["--output"]);
            e.base.retain(|x| x != "-v" && x != "--verbose");
            e.base.extend(["-v".to_string(), "--output".into(), c.pick(&["json", "display", "verbose", "quiet"]).into()]);
        }
        "unknown output" => {
            drop(&mut e.base, &["--output"]);
            e.base.extend(["--output".to_string(), c.pick(&["yaml", "JSON", "", "jsoncompact"]).into()]);
        }
        _ => {
            drop(&mut e.base, &["-u", "--url"]);
            e.base.extend(["-u".to_string(), c.pick(&["nowhere", "", "ftp://", "http//x"]).into()]);
        }
    }
    let sub = c.pick(&["create-mint", "find-pdas", "create-escrow-account"]);
    let pos = [p.u.to_string(), p.wp.to_string()];
    let before = w.clone();
    let args = line(c, &e, sub, &pos, &[]);
    let out = run_cli(c, &mut w, &e.net, &e.dir.0, &args);
    c.eval(&format!("bad settings {how} {sub} {t:?} fmt={} dry={}", e.fmt, e.dry));
    c.cov.inc(&format!("bad settings {how}"));
    let what = format!("{how}: {}", out.brief());
    if out.ok() {
        c.fail(&["C07"], "bad-settings-accepted", what.clone());
    }
    if !out.reqs.is_empty() || out.strays > 0 {
        c.fail(&["C07"], "bad-settings-reach-a-node", what.clone());
    }
    if !out.files.is_empty() || !world_diff(&before, &w).is_empty() {
        c.fail(&["C07"], "bad-settings-change-something", what);
    }
}
