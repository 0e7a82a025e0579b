//! The client on a chain other people use: their transactions land between its requests.
use crate::camp_admin as ca;
use crate::camp_cli::*;
use crate::case::*;
use crate::ids::*;
use crate::ix::{self, WrapArgs};
use crate::meta as md;
use crate::rpc::*;
use crate::rt::*;
use crate::scene::*;
use crate::tok::*;
use rand::Rng;
use solana_instruction::Instruction;

const REQS: u64 = 9;

struct Job {
    cmd: &'static str,
    pos: Vec<String>,
    opts: Vec<(String, Option<String>)>,
    nsig: u64,
    acts: Vec<(&'static str, Vec<Instruction>)>,
    /// accounts that must not be left with too little rent
    rent: Vec<Pubkey>,
    /// what the command stands for, given what the client sees (two accounts may be read
    /// at different times); None when there is nothing to do
    doc: Box<dyn Fn(&mut Case, &World, &World) -> Option<Vec<Instruction>>>,
    /// amounts the output names, by field
    named: Vec<(&'static str, Pubkey)>,
}
fn rich(c: &mut Case, w: &mut World) -> Pubkey {
    let k = c.key();
    w.fund(&k, 1_000_000_000_000);
    k
}
fn create_len(c: &mut Case, w: &World, p: &Pair) -> Option<usize> {
    let mut s = w.clone();
    s.fund(&p.wm, c.vm.rent(4096));
    s.fund(&p.bp, c.vm.rent(32));
    c.vm.run(&mut s, &ix::create_mint(p.u, p.wp, true)).ok.then(|| s.get(&p.wm).data.len())
}
fn careful_create(c: &mut Case, w: &World, w2: &World, p: &Pair, from: Pubkey, idem: bool) -> Option<Vec<Instruction>> {
    let len = create_len(c, w, p)?;
    let (gm, gb) = (c.vm.rent(len).saturating_sub(w.lamports(&p.wm)), c.vm.rent(32).saturating_sub(w2.lamports(&p.bp)));
    let mut v = vec![];
    if gm > 0 {
        v.push(system_transfer(from, p.wm, gm));
    }
    if gb > 0 {
        v.push(system_transfer(from, p.bp, gb));
    }
    v.push(ix::create_mint(p.u, p.wp, idem));
    Some(v)
}
fn job_create(c: &mut Case, w: &mut World, e: &Env) -> Job {
    let bare = c.chance(0.7);
    let p = make_pair(c, w, &PairOpts { no_escrow: bare, nested: Some(false), ..Default::default() });
    let other = rich(c, w);
    if c.chance(0.85) {
        w.a.remove(&p.wm);
        w.a.remove(&p.bp);
        if c.chance(0.3) {
            let n = c.rng.gen_range(1..3_000_000);
            w.fund(&p.wm, n);
        }
        if c.chance(0.3) {
            let n = c.rng.gen_range(1..2_000_000);
            w.fund(&p.bp, n);
        }
    }
    let idem = c.chance(0.5);
    let mut acts = vec![];
    if let Some(mut v) = careful_create(c, w, w, &p, other, true) {
        // enough whatever else was sent
        v.insert(0, system_transfer(other, p.wm, 1));
        acts.push(("creates the pair", v.clone()));
        acts.push(("creates the pair", v));
        let ful = c.vm.rent(4096);
        for (k, full) in [(p.wm, ful), (p.bp, c.vm.rent(32))] {
            let some = c.rng.gen_range(1..full);
            acts.push(("funds a little", vec![system_transfer(other, k, some)]));
            acts.push(("funds it all", vec![system_transfer(other, k, full)]));
        }
    }
    let q = Pair::of(p.u, p.up, if p.wp == SPL { T22 } else { SPL });
    if let Some(v) = careful_create(c, w, w, &q, other, true) {
        acts.push(("creates the other pair", v));
    }
    acts.push(("creates the escrow", vec![ix::create_ata(other, p.auth, p.u, p.up, true)]));
    let pk = e.payer.pk();
    let p2 = p.clone();
    Job {
        cmd: "create-mint",
        pos: vec![p.u.to_string(), p.wp.to_string()],
        opts: if idem { vec![("idempotent".into(), None)] } else { vec![] },
        nsig: 1,
        acts,
        rent: vec![pk, p.wm, p.bp],
        doc: Box::new(move |c, w, w2| careful_create(c, w, w2, &p2, pk, idem)),
        named: vec![("fundedWrappedMintLamports", p.wm), ("fundedBackpointerLamports", p.bp)],
    }
}
fn job_escrow(c: &mut Case, w: &mut World, e: &Env) -> Job {
    let exists = c.chance(0.15);
    let p = make_pair(c, w, &PairOpts { no_escrow: !exists, ..Default::default() });
    let other = rich(c, w);
    let up = w.get(&p.u).owner;
    let idem = c.chance(0.5);
    let pk = e.payer.pk();
    let make = ix::create_ata(other, p.auth, p.u, up, true);
    let l = c.rng.gen_range(890_880..3_000_000);
    let mut acts = vec![("creates the escrow", vec![make.clone()]), ("creates the escrow", vec![make]), ("funds the escrow's address", vec![system_transfer(other, p.escrow, l)])];
    if let Some(v) = careful_create(c, w, w, &p, other, true) {
        acts.push(("creates the pair", v));
    }
    let (auth, u, escrow) = (p.auth, p.u, p.escrow);
    Job {
        cmd: "create-escrow-account",
        pos: vec![p.u.to_string(), p.wp.to_string()],
        opts: if idem { vec![("idempotent".into(), None)] } else { vec![] },
        nsig: 1,
        acts,
        rent: vec![pk, escrow],
        doc: Box::new(move |_, w, _| {
            if idem && w.tok(&escrow).is_some() {
                return None;
            }
            Some(vec![ix::create_ata(pk, auth, u, up, false)])
        }),
        named: vec![],
    }
}
fn job_move(c: &mut Case, w: &mut World, e: &Env, unwrapping: bool) -> Job {
    let m = scene(c, w, &e.payer.clone(), unwrapping, None);
    let p = m.p.clone();
    let other = rich(c, w);
    let dst = m.dst.unwrap_or(m.default_dst);
    let amount = c.rng.gen_range(1..=m.bal.max(1));
    let ta = m.ta.as_ref().unwrap_or(&e.payer).pk();
    let mut opts: Vec<(String, Option<String>)> = vec![];
    if let Some(k) = &m.ta {
        opts.push(("transfer-authority".into(), Some(k.write(&e.dir.0, "ta.json"))));
    }
    if let (false, Some(d)) = (unwrapping, m.dst) {
        opts.push(("recipient-token-account".into(), Some(d.to_string())));
    }
    if c.chance(0.3) {
        opts.push(("unwrapped-mint".into(), Some(p.u.to_string())));
    }
    if c.chance(0.3) {
        opts.push(("unwrapped-token-program".into(), Some(p.up.to_string())));
    }
    if unwrapping && c.chance(0.3) {
        opts.push(("wrapped-token-program".into(), Some(p.wp.to_string())));
    }
    let a = WrapArgs { recipient: dst, wrapped_mint: p.wm, authority: p.auth, up: p.up, wp: p.wp, source: m.src, unwrapped_mint: p.u, escrow: p.escrow, ta, ta_signer: true, extras: vec![], amount };
    let mut acts: Vec<(&'static str, Vec<Instruction>)> = vec![];
    let (mint, prog) = if unwrapping { (p.wm, p.wp) } else { (p.u, p.up) };
    let dec = w.mint(&p.u).map(|m| m.decimals).unwrap_or(0);
    if let Some(t) = w.tok(&m.src) {
        let to = make_ata(c.vm, w, other, other, mint, prog);
        for n in [m.bal, m.bal - amount, m.bal / 2, 1] {
            if n > 0 {
                acts.push(("spends from the source", vec![ix::transfer_checked(prog, m.src, mint, to, t.owner, true, &[], n, dec)]));
            }
        }
        acts.push(("replaces the delegate", vec![ix::approve(prog, m.src, other, t.owner, 1)]));
    }
    if let Some(f) = p.freeze {
        if let Some(t) = w.tok(&dst).map(|_| dst) {
            let (dm, dp) = if unwrapping { (p.u, p.up) } else { (p.wm, p.wp) };
            acts.push(("freezes the destination", vec![ix::freeze(dp, t, dm, f, false)]));
        }
        acts.push(("freezes the source", vec![ix::freeze(prog, m.src, mint, f, false)]));
    }
    if let Some(t) = w.tok(&dst) {
        let dp = if unwrapping { p.up } else { p.wp };
        acts.push(("closes the destination", vec![ix::close_account(dp, dst, other, t.owner)]));
    }
    // another user of the pair
    let mut s = w.clone();
    let (hu, hw) = (c.key(), c.key());
    if make_tok(c.vm, &mut s, hu, p.up, p.u, other, &[]) && make_tok(c.vm, &mut s, hw, p.wp, p.wm, other, &[]) {
        if let (Some(f), Some(2)) = (p.freeze, s.tok(&hu).map(|t| t.state)) {
            c.vm.run(&mut s, &ix::freeze(p.up, hu, p.u, f, true));
        }
        let n = c.rng.gen_range(1..1_000_000);
        if !is_native(&p.u) {
            let au = p.mint_auth;
            if let Some(au) = au {
                if c.vm.run(&mut s, &ix::mint_to(p.up, p.u, hu, au, n)).ok {
                    *w = s;
                    let b = WrapArgs { recipient: hw, source: hu, ta: other, amount: n.div_ceil(2), ..a.clone() };
                    acts.push(("wraps too", vec![ix::wrap(&b)]));
                    let b = WrapArgs { recipient: hu, source: hw, ta: other, amount: n.div_ceil(4), ..a.clone() };
                    acts.push(("unwraps too", vec![ix::unwrap(&b)]));
                    acts.push(("gives to the source", if unwrapping { vec![ix::transfer_checked(p.wp, hw, p.wm, m.src, other, true, &[], 1, dec)] } else { vec![ix::mint_to(p.up, p.u, m.src, au, n)] }));
                }
            }
        }
    }
    let i = if unwrapping { ix::unwrap(&a) } else { ix::wrap(&a) };
    let pos = if unwrapping { vec![m.src.to_string(), dst.to_string(), amount.to_string()] } else { vec![m.src.to_string(), p.wp.to_string(), amount.to_string()] };
    Job { cmd: if unwrapping { "unwrap" } else { "wrap" }, pos, opts, nsig: if ta == e.payer.pk() { 1 } else { 2 }, acts, rent: vec![], doc: Box::new(move |_, _, _| Some(vec![i.clone()])), named: vec![] }
}
fn job_close(c: &mut Case, w: &mut World, e: &Env) -> Job {
    let p = ca::stuck_scene(c, w);
    let other = rich(c, w);
    let pk = e.payer.pk();
    let dest = if c.chance(0.5) { pk } else { c.key() };
    let mut acts = vec![
        ("closes the escrow", vec![ix::close_stuck(p.escrow, other, p.u, p.wm, p.auth)]),
        ("closes and makes the escrow", vec![ix::close_stuck(p.escrow, other, p.u, p.wm, p.auth), ix::create_ata(other, p.auth, p.u, T22, true)]),
        ("funds the destination", vec![system_transfer(other, dest, 2_000_000)]),
        ("gives the escrow lamports", vec![system_transfer(other, p.escrow, 5)]),
    ];
    if let Some(ma) = p.mint_auth {
        acts.push(("mints to the escrow", vec![ix::mint_to(T22, p.u, p.escrow, ma, 1)]));
    }
    Job {
        cmd: "close-stuck-escrow",
        pos: vec![p.u.to_string(), dest.to_string(), p.wp.to_string()],
        opts: vec![],
        nsig: 1,
        acts,
        rent: vec![dest, pk],
        doc: Box::new(move |_, _, _| Some(vec![ix::close_stuck(p.escrow, dest, p.u, p.wm, p.auth)])),
        named: vec![],
    }
}
fn job_sync(c: &mut Case, w: &mut World) -> Job {
    let to22 = c.chance(0.6);
    let mut kind = c.pick(&md::KINDS);
    if kind == md::Kind::SplMpl && c.chance(0.5) {
        kind = md::Kind::SelfPtr;
    }
    let s = md::make_source(c, w, kind, !to22);
    let wp = tp(to22);
    let p = md::make_target(c, w, &s, wp);
    crate::adv::reset(s.cfg());
    let other = rich(c, w);
    let (ao, po) = if to22 { ("metadata-account", "metadata-program-id") } else { ("source-metadata", "owner-program") };
    let third = s.owner_prog.is_some();
    let mut opts = vec![];
    if !to22 || third || c.chance(0.3) {
        if let Some(a) = s.acct {
            opts.push((ao.to_string(), Some(a.to_string())));
            if let Some(o) = s.owner_prog {
                opts.push((po.to_string(), Some(o.to_string())));
            }
        }
    }
    let mp = mpl(&p.wm);
    let i = if to22 { ix::sync22(p.wm, p.auth, s.u, T22, s.acct, s.owner_prog) } else { ix::syncspl(mp, p.auth, p.wm, s.u, s.acct, s.owner_prog) };
    let mut acts = vec![("syncs first", vec![i.clone()]), ("syncs first", vec![i.clone()]), ("funds the mint", vec![system_transfer(other, p.wm, 1_000_000)])];
    if kind == md::Kind::SelfPtr {
        let unset = spl_token_2022_interface::extension::metadata_pointer::instruction::update(&T22, &s.u, &s.ma, &[], None).unwrap();
        acts.push(("unsets the pointer", vec![unset]));
        let v = c.pick(&["", "another name", "x"]).to_string();
        let up = spl_token_metadata_interface::instruction::update_field(&T22, &s.u, &s.ma, spl_token_metadata_interface::state::Field::Symbol, v);
        acts.push(("edits the source", vec![up]));
    }
    Job { cmd: if to22 { "sync-metadata-to-token2022" } else { "sync-metadata-to-spl-token" }, pos: vec![s.u.to_string()], opts, nsig: 1, acts, rent: vec![p.wm, mp], doc: Box::new(move |_, _, _| Some(vec![i.clone()])), named: vec![] }
}
fn busy(c: &mut Case) {
    let mut w = World::default();
    let dry = if c.chance(0.1) { 1.0 } else { 0.0 };
    let mut e = env(c, &mut w, dry, 0.0);
    if !e.dry && c.chance(0.3) {
        e.net.fault = Fault::NoPreflight;
    }
    let job = match c.below(13) {
        0..=3 => job_create(c, &mut w, &e),
        4 | 5 => job_escrow(c, &mut w, &e),
        6 | 7 => job_move(c, &mut w, &e, false),
        8 | 9 => job_move(c, &mut w, &e, true),
        10 => job_close(c, &mut w, &e),
        _ => job_sync(c, &mut w),
    };
    let mut b = Busy::default();
    for _ in 0..c.below(4) + usize::from(c.chance(0.8)) {
        let (what, ixs) = job.acts[c.below(job.acts.len())].clone();
        b.acts.push(Act { at: c.rng.gen_range(1..=REQS), what, ixs });
    }
    e.net.busy = Some(std::cell::RefCell::new(b));
    let args = line(c, &e, job.cmd, &job.pos, &job.opts);
    let start = w.clone();
    let out = go(c, &mut w, &e, &args);
    let b = e.net.busy.take().unwrap().into_inner();
    let states = if b.states.is_empty() { vec![start] } else { b.states };
    let pk = e.payer.pk();
    c.cov.inc(&format!("ran {}", job.cmd));
    for (at, what) in &b.landed {
        c.cov.inc(&format!("other {what}"));
        c.cov.inc(&format!("between requests, before no. {at}"));
    }
    let what = || format!("{} while {:?} (states seen {:?}): {}", job.cmd, b.landed, b.seen, out.brief());
    let done: Vec<&SendRec> = out.sends.iter().filter(|s| s.ok).collect();
    if e.dry {
        if !out.sends.is_empty() {
            c.fail(&["C08", "C01"], "dry-run-broadcasts", what());
        }
        let good = out.sims.last().map(|s| s.err.is_null());
        if out.ok() && good == Some(false) || !out.ok() && good == Some(true) {
            c.fail(&["C08", "C01"], "another-outcome-than-the-simulation", what());
        }
        c.eval(&format!("{} dry {:?} ok={}", job.cmd, b.landed, out.ok()));
        return;
    }
    if done.len() > 1 {
        c.fail(&["C08"], "landed-more-than-once", what());
        return;
    }
    let txs: std::collections::BTreeSet<Vec<u8>> = out.sends.iter().filter_map(|s| s.tx.as_ref().map(|t| t.raw.clone())).collect();
    
    // what the command stands for in each state the chain went through before the end
    let last = done.first().map(|s| b.seen[s.at - 1]).unwrap_or(states.len() - 1);
    let reads_apart = !job.named.is_empty();
    let pairs: Vec<(usize, usize)> = (0..=last).flat_map(|i| (0..=last).map(move |j| (i, j))).filter(|(i, j)| i == j || reads_apart).collect();
    let docs: Vec<Option<Vec<Instruction>>> = pairs.iter().map(|(i, j)| (job.doc)(c, &states[*i], &states[*j])).collect();
    let mut always = true;
    for (i, d) in docs.iter().enumerate() {
        let Some(ixs) = d else {
            always = false;
            continue;
        };
        for s in &states[pairs[i].0.max(pairs[i].1)..=last] {
            always &= always && expect(c, s, &pk, job.nsig, ixs).map(|x| rent_fine(c, &x, &job.rent)).unwrap_or(false);
        }
    }
    let noop = docs.iter().any(|d| d.is_none());
    if always {
        c.cov.inc("possible_throughout");
    }
    if last > 0 {
        c.cov.inc("state_moved_under_the_client");
    }
    if out.ok() && done.is_empty() {
        if !noop {
            c.fail(&["C08"], "success-reported-without-it", what());
        }
        for t in out.sends.iter().filter_map(|s| s.tx.as_ref()) {
            if out.stdout.contains(&b58(&t.sigs[0])) {
                c.fail(&["C08"], "failed-transaction-named", what());
            }
        }
    }
    if !out.ok() && !done.is_empty() {
        c.fail(&["C08"], "failure-reported-though-it-landed", what());
    }
    if !out.ok() && always {
        c.fail(&["C08"], "possible-throughout-but-not-done", what());
    }
    if out.ok() && done.is_empty() {
        c.cov.inc("nothing_left_to_do");
    }
    if let Some(s) = done.first() {
        c.cov.inc("landed");
        if last > 0 {
            c.cov.inc("landed_on_another_state_than_the_first");
        }
        let at = b.seen[s.at - 1];
        let mut fit = None;
        let mut near = String::new();
        for (i, d) in docs.iter().enumerate().rev() {
            let Some(ixs) = d else { continue };
            match expect(c, &states[at], &pk, job.nsig, ixs) {
                Ok(x) => {
                    let df = world_diff(&x, &states[at + 1]);
                    if df.is_empty() {
                        fit = Some(i);
                        break;
                    }
                    near = describe(&x, &states[at + 1], &df);
                }
                Err(r) => near = r,
            }
        }
        match fit {
            None => c.fail(&["C08"], "did-something-else", format!("{near}; {}", what())),
            Some(i) => {
                if pairs[i].0 != pairs[i].1 {
                    c.cov.inc("read_two_states");
                }
                if pairs[i].0.max(pairs[i].1) < at {
                    c.cov.inc("acted_on_an_older_state");
                }
                let d = docs[i].clone().unwrap();
                for (f, k) in &job.named {
                    let n: u64 = d.iter().filter(|x| x.program_id == SYS && x.accounts[1].pubkey == *k).map(|x| u64::from_le_bytes(x.data[4..12].try_into().unwrap())).sum();
                    check_shows(c, &e, &out, &["C08"], &[(f, n.to_string())]);
                }
            }
        }
        if txs.len() > 1 {
            c.cov.inc("several_transactions_offered");
        }
        let f = match job.cmd {
            "wrap" | "unwrap" | "close-stuck-escrow" | "sync-metadata-to-token2022" => "signatures",
            _ => "signature",
        };
        if out.ok() {
            if let Some(t) = &s.tx {
                let m = made_up_sigs(&e, &out);
                if !m.is_empty() {
                    c.fail(&["C08"], "made-up-signature", format!("{m:?}; {}", what()));
                }
                if let Err(r) = sigs_shown(&e, &out, f, t) {
                    c.fail(&["C08"], "another-transaction-named", format!("{r}; {}", what()));
                }
            }
        }
    } else {
        let m = made_up_sigs(&e, &out);
        if out.ok() && !m.is_empty() {
            c.fail(&["C08"], "made-up-signature", format!("{m:?}; {}", what()));
        }
        c.cov.inc(if out.ok() { "none_needed" } else { "lost_the_race_or_impossible" });
    }
    c.eval(&format!("{} {:?} landed={} ok={} fault={:?}", job.cmd, b.landed, done.len(), out.ok(), e.net.fault == Fault::NoPreflight));
    if c.cov.samples.is_empty() && !b.landed.is_empty() {
        let s = what();
        c.sample(s);
    }
}
pub fn camp_busy(c: &mut Case) {
    busy(c)
}
