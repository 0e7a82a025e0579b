//! Campaigns over wrap and unwrap: scenes, authority faults, account substitution.
use crate::case::*;
use crate::ids::*;
use crate::ix::{self, WrapArgs};
use crate::mon::*;
use crate::rt::*;
use crate::scene::*;
use crate::tok::*;
use crate::{adv, mon};
use rand::Rng;
use solana_instruction::{AccountMeta, Instruction};
use spl_token_2022_interface::extension::{self as ext};

pub struct Scene {
    pub w: World,
    pub pair: Pair,
    pub a: WrapArgs,
    pub label: String,
    pub guard_blocks: bool,
    pub holder: Holder,
    pub is_wrap: bool,
    /// plain honest scene: nothing frozen or paused, amount within balance
    pub clean: bool,
}
impl Scene {
    pub fn ix(&self) -> Instruction {
        if self.is_wrap {
            ix::wrap(&self.a)
        } else {
            ix::unwrap(&self.a)
        }
    }
    pub fn with(&self, a: &WrapArgs) -> Instruction {
        if self.is_wrap {
            ix::wrap(a)
        } else {
            ix::unwrap(a)
        }
    }
    pub fn model(&self, c: &mut Case, a: &WrapArgs) -> Result<World, String> {
        let save = adv::calls();
        let r = if self.is_wrap { model_wrap(c.vm, &self.w, a) } else { model_unwrap(c.vm, &self.w, a) };
        let _ = save;
        r
    }
    /// Fills in the hook extras for the real escrow transfer of `a`.
    pub fn refresh_extras(pair: &Pair, h: &Holder, is_wrap: bool, a: &mut WrapArgs) {
        a.extras = h.signers.clone();
        if let Some(hk) = pair.hook() {
            let m = if is_wrap {
                hook_metas(&hk, &pair.u, &a.source, &a.escrow, &a.ta, a.amount)
            } else {
                hook_metas(&hk, &pair.u, &a.escrow, &a.recipient, &a.authority, a.amount)
            };
            a.extras.extend(m);
        }
    }
}
#[derive(Clone, Default)]
pub struct SceneOpts {
    pub po: PairOpts,
    pub honest: bool,
    pub amount: Option<u64>,
    pub wrap: Option<bool>,
}
pub fn scene(c: &mut Case, o: &SceneOpts) -> Scene {
    // young clusters and old ones
    let era = c.pick(&[0u64, 0, 0, 431, 1000, 70_000, 1 << 33]);
    let mut w = World { epoch: era + c.rng.gen_range(0..4), ..Default::default() };
    let is_wrap = o.wrap.unwrap_or_else(|| c.rng.gen());
    // mint fees are set at epoch 0 or 1 and the newer ones start two epochs later
    let run_epoch = w.epoch;
    w.epoch = era + c.rng.gen_range(0..2);
    let mut po = o.po.clone();
    po.real_create = po.real_create || c.chance(0.5);
    po.native = if po.exts.is_none() { 0.06 } else { 0.0 };
    let pair = make_pair(c, &mut w, &po);
    let mut bal = rand_balance(c);
    if pair.u == NATIVE || pair.u == NATIVE22 {
        // lamports of rent come on top
        bal = bal.min(u64::MAX / 2);
    }
    let mut label = format!("{}->{} nested={} fz={} ext={:?}", tpn(&pair.up), tpn(&pair.wp), pair.nested, pair.freeze.is_some(), pair.exts.iter().map(|e| e.ty()).collect::<Vec<_>>());
    let pre = if c.chance(0.5) { c.rng.gen_range(0..1_000_000) } else { 0 };
    let escrow_bal = if is_wrap { pre } else { bal + pre.min(u64::MAX - bal) / 2 };
    mint_tokens(c.vm, &mut w, pair.up, pair.u, pair.escrow, escrow_bal);
    let (sprog, smint, dprog, dmint) = if is_wrap { (pair.up, pair.u, pair.wp, pair.wm) } else { (pair.wp, pair.wm, pair.up, pair.u) };
    let thaw = o.honest || c.chance(0.9);
    let holder = make_holder(c, &mut w, sprog, smint, bal, pair.freeze, thaw);
    if is_wrap && pre > 0 && c.chance(0.7) {
        // earlier wraps by somebody else
        let x = c.key();
        let t = make_ata(c.vm, &mut w, x, x, pair.wm, pair.wp);
        mint_tokens(c.vm, &mut w, pair.wp, pair.wm, t, pre);
    }
    // recipient
    let rowner = if c.chance(0.4) { holder.owner } else { c.key() };
    let multisig_owner = !holder.ta_signer && rowner == holder.owner;
    let recipient = if c.chance(0.5) {
        let payer = c.key();
        make_ata(c.vm, &mut w, payer, rowner, dmint, dprog)
    } else {
        let k = c.key();
        let mut e = vec![];
        if dprog == T22 && !multisig_owner && c.chance(0.15) && !o.honest {
            e.push(AExt::Memo);
        }
        if dprog == T22 && !multisig_owner && c.chance(0.15) {
            e.push(AExt::CpiGuard);
        }
        make_tok(c.vm, &mut w, k, dprog, dmint, rowner, &e);
        k
    };
    if thaw && w.tok(&recipient).map(|t| t.state) == Some(2) {
        if let Some(f) = pair.freeze {
            c.vm.must(&mut w, &ix::freeze(dprog, recipient, dmint, f, true), "thaw recipient");
        }
    }
    if c.chance(0.3) && w.supply(&dmint) < u64::MAX / 4 {
        let n = c.rng.gen_range(1..100_000);
        if dmint == pair.u {
            mint_tokens(c.vm, &mut w, dprog, dmint, recipient, n);
        } else {
            // keeps the escrow covering the supply
            mint_tokens(c.vm, &mut w, dprog, dmint, recipient, n);
            mint_tokens(c.vm, &mut w, pair.up, pair.u, pair.escrow, n);
        }
    }
    let amount = o.amount.unwrap_or_else(|| {
        if o.honest {
            let m = bal.min(holder.delegated.unwrap_or(u64::MAX)).max(1);
            if c.chance(0.2) {
                m
            } else {
                c.rng.gen_range(1..=m)
            }
        } else {
            rand_amount(c, bal)
        }
    });
    let mut clean = amount <= bal && amount <= holder.delegated.unwrap_or(u64::MAX) && thaw;
    // disturbances
    if !o.honest && c.chance(0.25) {
        let mut opts: Vec<u8> = vec![];
        if pair.freeze.is_some() {
            opts.extend([0, 1, 2]);
        }
        if pair.exts.iter().any(|e| matches!(e, Ext::Pausable(_))) {
            opts.extend([3, 3]);
        }
        if !opts.is_empty() {
            let k = c.pick(&opts);
            let f = pair.freeze.unwrap_or_default();
            match k {
                0 => {
                    c.vm.run(&mut w, &ix::freeze(sprog, holder.acct, smint, f, false));
                }
                1 => {
                    c.vm.run(&mut w, &ix::freeze(dprog, recipient, dmint, f, false));
                }
                2 => {
                    c.vm.run(&mut w, &ix::freeze(pair.up, pair.escrow, pair.u, f, false));
                }
                _ => {
                    if let Some(Ext::Pausable(a)) = pair.exts.iter().find(|e| matches!(e, Ext::Pausable(_))) {
                        c.vm.must(&mut w, &ext::pausable::instruction::pause(&T22, &pair.u, a, &[]).unwrap(), "pause");
                    }
                }
            }
            label += &format!(" disturb={k}");
            clean = false;
        }
    }
    w.epoch = run_epoch.max(w.epoch);
    let mut a = WrapArgs {
        recipient,
        wrapped_mint: pair.wm,
        authority: pair.auth,
        up: pair.up,
        wp: pair.wp,
        source: holder.acct,
        unwrapped_mint: pair.u,
        escrow: pair.escrow,
        ta: holder.ta,
        ta_signer: holder.ta_signer,
        extras: vec![],
        amount,
    };
    Scene::refresh_extras(&pair, &holder, is_wrap, &mut a);
    label = format!("{} {} {}", if is_wrap { "wrap" } else { "unwrap" }, label, holder.label);
    let guard_blocks = holder.guard_blocks;
    Scene { w, pair, a, label, guard_blocks, holder, is_wrap, clean }
}
pub fn tok_changes(w0: &World, w1: &World) -> Vec<(Pubkey, i128)> {
    let mut v = vec![];
    for k in world_diff(w0, w1) {
        let d = w1.bal(&k) as i128 - w0.bal(&k) as i128;
        if d != 0 {
            v.push((k, d));
        }
    }
    v
}
/// P02 / P03: exact deltas of a successful wrap or unwrap, by arithmetic.
pub fn judge_deltas(c: &mut Case, w0: &World, w1: &World, a: &WrapArgs, is_wrap: bool) {
    let pid: &'static str = if is_wrap { "P02" } else { "P03" };
    let um = w0.mint(&a.unwrapped_mint);
    let fee = um.as_ref().map(|m| fee_of(m, w0.epoch, a.amount)).unwrap_or(0);
    let n = a.amount as i128;
    let net = n - fee as i128;
    let mut exp: std::collections::BTreeMap<Pubkey, i128> = Default::default();
    if is_wrap {
        *exp.entry(a.source).or_default() -= n;
        *exp.entry(a.escrow).or_default() += net;
        *exp.entry(a.recipient).or_default() += net;
    } else {
        *exp.entry(a.source).or_default() -= n;
        *exp.entry(a.escrow).or_default() -= n;
        *exp.entry(a.recipient).or_default() += net;
    }
    if a.recipient == a.escrow {
        return; // a transfer of the escrow to itself: judged by the model only
    }
    exp.retain(|_, v| *v != 0);
    let got: std::collections::BTreeMap<Pubkey, i128> = tok_changes(w0, w1).into_iter().collect();
    c.cov.inc("delta_checks");
    if fee > 0 {
        c.cov.inc("fee_charged");
    }
    if exp != got {
        c.fail(&[pid, "P01"], "deltas", format!("amount {} fee {}: expected balance changes {:?}, observed {:?}", a.amount, fee, exp, got));
    }
    let ds = w1.supply(&a.wrapped_mint) as i128 - w0.supply(&a.wrapped_mint) as i128;
    let es = if is_wrap { net } else { -n };
    if ds != es {
        c.fail(&[pid, "P01"], "supply", format!("amount {} fee {}: expected supply change {}, observed {}", a.amount, fee, es, ds));
    }
    let us = w1.supply(&a.unwrapped_mint) as i128 - w0.supply(&a.unwrapped_mint) as i128;
    if us != 0 {
        c.fail(&[pid], "unwrapped-supply", format!("unwrapped supply changed by {us}"));
    }
}
/// Differential judgement against the direct token movements. `authfault` marks cases
/// whose only fault is the authority.
pub fn judge(c: &mut Case, s: &Scene, a: &WrapArgs, what: &str, authfault: bool) -> Out {
    let pid: &'static str = if s.is_wrap { "P02" } else { "P03" };
    adv::reset(Default::default());
    let ixn = s.with(a);
    let mut w1 = s.w.clone();
    let out = c.vm.run(&mut w1, &ixn);
    let calls = adv::calls();
    observe(c, &s.w, &w1, &out, &ixn, std::slice::from_ref(&s.pair), &WRAP);
    adv::reset(Default::default());
    let m = s.model(c, a);
    if out.ok {
        c.cov.inc(match out.cu {
            0..=100_000 => "units up to 100k",
            100_001..=200_000 => "units up to 200k",
            200_001..=400_000 => "units up to 400k",
            _ => "units above 400k",
        });
        // no transaction can buy more than this
        if out.cu > 1_400_000 {
            c.fail(&["P06"], "unaffordable", format!("{}: {} compute units", s.label, out.cu));
        }
    }
    c.cov.inc(match (&m, out.ok) {
        (Ok(_), true) => "model_ok_program_ok",
        (Ok(_), false) => "model_ok_program_refused",
        (Err(_), true) => "model_refused_program_ok",
        _ => "both_refused",
    });
    if out.ok {
        if a.amount == 0 {
            c.fail(&[pid, "P21"], "zero-amount", format!("{what}: zero amount accepted"));
        }
        match &m {
            Err(e) => {
                let mut tags = vec![pid];
                if authfault {
                    tags.push("P04");
                }
                if e.starts_with("transfer") || e.starts_with("burn") {
                    tags.push("P04");
                }
                tags.push("P05");
                c.fail(&tags, "accepted-unauthorised", format!("{what}: accepted, although the same movement is refused by the token programs ({e}); {}", desc_ix(&ixn)));
            }
            Ok(mw) => {
                let d = world_diff(&w1, mw);
                if !d.is_empty() {
                    let k = d[0];
                    c.fail(
                        &[pid, "P01"],
                        "effect-differs",
                        format!("{what}: effect differs from the direct movement at {} accounts; {}: {:?}/{:?} vs {:?}/{:?}; {}", d.len(), k, w1.tok(&k).map(|t| t.amount), w1.mint(&k).map(|t| t.supply), mw.tok(&k).map(|t| t.amount), mw.mint(&k).map(|t| t.supply), desc_ix(&ixn)),
                    );
                }
            }
        }
        judge_deltas(c, &s.w, &w1, a, s.is_wrap);
        judge_hook(c, s, a, &calls);
    } else if m.is_ok() && a.amount > 0 && !s.guard_blocks {
        c.fail(
            &["P06", if s.is_wrap { "P02" } else { "P03" }, "P04"],
            "honest-refused",
            format!("{what}: refused with {} although the token programs allow the same movement; {}; logs {:?}", out.err_str(), desc_ix(&ixn), out.logs.iter().rev().take(6).collect::<Vec<_>>()),
        );
    }
    out
}
/// P23
pub fn judge_hook(c: &mut Case, s: &Scene, a: &WrapArgs, calls: &[adv::AdvCall]) {
    let Some(h) = s.pair.hook() else { return };
    c.cov.inc("hook_checks");
    let hc: Vec<_> = calls.iter().filter(|x| x.program == h).collect();
    if hc.len() != 1 {
        c.fail(&["P23"], "hook-count", format!("hook ran {} times", hc.len()));
        return;
    }
    let (src, dst, auth) = if s.is_wrap { (a.source, a.escrow, a.ta) } else { (a.escrow, a.recipient, a.authority) };
    let mut d = vec![105u8, 37, 101, 197, 75, 251, 102, 26];
    d.extend_from_slice(&a.amount.to_le_bytes());
    let mut exp: Vec<Pubkey> = vec![src, a.unwrapped_mint, dst, auth, hook_state_key(&h, &a.unwrapped_mint)];
    exp.extend(hook_expected(&h, &a.unwrapped_mint, &src, &dst, &auth, a.amount).into_iter().map(|x| x.0));
    let got: Vec<Pubkey> = hc[0].accounts.iter().map(|x| x.0).collect();
    if hc[0].data != d {
        c.fail(&["P23"], "hook-amount", format!("hook data {:?} expected {:?}", hc[0].data, d));
    }
    if got != exp {
        c.fail(&["P23"], "hook-accounts", format!("hook accounts {:?} expected {:?}", got, exp));
    }
    if hc[0].accounts.iter().any(|x| x.1) {
        c.fail(&["P07"], "hook-signer", format!("the hook received a signature: {:?}", hc[0].accounts));
    }
}
/// honest and edge-amount scenes judged against the model
pub fn camp_scene(c: &mut Case, is_wrap: Option<bool>, honest: bool) {
    let s = scene(c, &SceneOpts { honest, wrap: is_wrap, ..Default::default() });
    let a = s.a.clone();
    let out = judge(c, &s, &a, &s.label, false);
    let cls = amount_class(a.amount, s.w.bal(&a.source));
    c.eval(&format!("{} {} ep{} ok={}", s.label, cls, s.w.epoch, out.ok));
    c.sample(format!("{} amount={} -> {}", s.label, a.amount, out.err_str()));
    if honest && s.clean && !s.guard_blocks {
        c.cov.inc("honest_clean");
        let m = s.model(c, &a);
        if m.is_err() {
            c.cov.inc("honest_but_model_refuses");
        }
    }
    if out.ok {
        // zero amount must be refused even here
        let mut z = a.clone();
        z.amount = 0;
        Scene::refresh_extras(&s.pair, &s.holder, s.is_wrap, &mut z);
        let o = c.vm.dry(&s.w, &s.with(&z));
        if o.ok {
            c.fail(&[if s.is_wrap { "P02" } else { "P03" }, "P21"], "zero-amount", "zero amount accepted");
        }
    }
}
pub fn amount_class(n: u64, bal: u64) -> &'static str {
    if n == 0 {
        "zero"
    } else if n == bal {
        "all"
    } else if n > bal {
        "over"
    } else if n == 1 {
        "one"
    } else {
        "part"
    }
}
pub fn camp_wrap(c: &mut Case) {
    camp_scene(c, Some(true), false)
}
pub fn camp_unwrap(c: &mut Case) {
    camp_scene(c, Some(false), false)
}
/// P06: a round trip of a fee-less mint restores every balance.
pub fn camp_roundtrip(c: &mut Case) {
    let mut o = SceneOpts { honest: true, wrap: Some(true), ..Default::default() };
    let feeless = c.chance(0.7);
    if feeless {
        // draw extensions, then drop the fee ones
        let u_any = c.key();
        let e: Vec<Ext> = rand_exts(c, u_any, false).into_iter().filter(|e| !matches!(e, Ext::Fee(..) | Ext::ConfidentialFee | Ext::MetaPtr(..))).collect();
        o.po.exts = Some(e);
    }
    let s = scene(c, &o);
    let a = s.a.clone();
    let out = judge(c, &s, &a, &s.label, false);
    if !out.ok {
        c.eval(&format!("{} refused", s.label));
        return;
    }
    let mut w = s.w.clone();
    commit(&mut w, &out.post);
    // the recipient's owner unwraps what arrived back to the source account
    let got = w.bal(&a.recipient) - s.w.bal(&a.recipient);
    if got == 0 {
        c.eval(&format!("{} fee took all", s.label));
        return;
    }
    let rowner = w.tok(&a.recipient).unwrap().owner;
    let is_ms = w.a.get(&rowner).map(|x| x.data.len() == 355).unwrap_or(false);
    // a multisig of one program does not authorise under the other
    if is_ms {
        c.eval(&format!("{} wrap only (multisig owner)", s.label));
        return;
    }
    let guard = w.tok(&a.recipient).map(|t| find(&t.ext, spl_token_2022_interface::extension::ExtensionType::CpiGuard).map(|d| d[0] == 1).unwrap_or(false)).unwrap_or(false);
    let memo = w.tok(&a.source).map(|t| find(&t.ext, spl_token_2022_interface::extension::ExtensionType::MemoTransfer).map(|d| d[0] == 1).unwrap_or(false)).unwrap_or(false);
    let mut b = a.clone();
    b.source = a.recipient;
    b.recipient = a.source;
    b.ta = rowner;
    b.ta_signer = true;
    b.amount = got;
    let h = Holder { acct: b.source, owner: rowner, ta: rowner, ta_signer: true, signers: vec![], label: "owner".into(), guard, guard_blocks: guard, delegated: None };
    Scene::refresh_extras(&s.pair, &h, false, &mut b);
    let s2 = Scene { w: w.clone(), pair: s.pair.clone(), a: b.clone(), label: format!("{} then unwrap", s.label), guard_blocks: guard, holder: h, is_wrap: false, clean: true };
    let out2 = judge(c, &s2, &b, &s2.label, false);
    c.eval(&format!("{} ok={}", s2.label, out2.ok));
    c.sample(format!("round trip {} of {} -> {}", s.label, a.amount, out2.err_str()));
    if !out2.ok {
        if !guard && !memo {
            c.fail(&["P06"], "redeem-refused", format!("{}: redeeming {} just-wrapped tokens failed: {}", s2.label, got, out2.err_str()));
        }
        return;
    }
    commit(&mut w, &out2.post);
    let fee = s.w.mint(&a.unwrapped_mint).map(|m| fee_of(&m, s.w.epoch, a.amount)).unwrap_or(0);
    if fee == 0 && s.w.mint(&a.unwrapped_mint).map(|m| fee_of(&m, s.w.epoch, got)).unwrap_or(0) == 0 {
        c.cov.inc("round_trips_exact");
        let ch = tok_changes(&s.w, &w);
        if !ch.is_empty() {
            c.fail(&["P06"], "roundtrip-inexact", format!("{}: balances changed {:?}", s2.label, ch));
        }
    }
}
/// P04: everything valid except for the authority.
pub fn camp_auth(c: &mut Case) {
    let s = scene(c, &SceneOpts { honest: true, ..Default::default() });
    let a0 = s.a.clone();
    // the good case first: shows the scene is otherwise valid
    let good = judge(c, &s, &a0, &s.label, false);
    c.eval(&format!("{} good={}", s.label, good.ok));
    let rebuild = |s: &Scene, a: &mut WrapArgs, signers: Vec<AccountMeta>| {
        let mut h = s.holder.clone();
        h.signers = signers;
        Scene::refresh_extras(&s.pair, &h, s.is_wrap, a);
    };
    let (sprog, smint) = if s.is_wrap { (s.pair.up, s.pair.u) } else { (s.pair.wp, s.pair.wm) };
    let mut muts: Vec<(&str, WrapArgs, World)> = vec![];
    let signers = s.holder.signers.clone();
    // 1 nobody signs
    {
        let mut a = a0.clone();
        a.ta_signer = false;
        let sg = signers.iter().map(|m| meta(m.pubkey, false, false)).collect();
        rebuild(&s, &mut a, sg);
        muts.push(("unsigned", a, s.w.clone()));
    }
    // 2 a stranger signs
    {
        let mut a = a0.clone();
        a.ta = c.key();
        a.ta_signer = true;
        rebuild(&s, &mut a, vec![]);
        muts.push(("stranger", a, s.w.clone()));
        let mut a = a0.clone();
        let st = c.key();
        a.ta_signer = false;
        rebuild(&s, &mut a, vec![meta(st, true, false)]);
        muts.push(("stranger as co-signer", a, s.w.clone()));
    }
    // 3 the recipient's owner, the escrow authority unsigned, mint authority, freeze authority
    {
        for (n, k) in [("mint authority", s.pair.mint_auth), ("freeze authority", s.pair.freeze), ("recipient owner", s.w.tok(&a0.recipient).map(|t| t.owner))] {
            let Some(k) = k else { continue };
            if k == s.holder.ta || k == s.holder.owner || k == s.pair.auth {
                continue;
            }
            let mut a = a0.clone();
            a.ta = k;
            a.ta_signer = true;
            rebuild(&s, &mut a, vec![]);
            muts.push((n, a, s.w.clone()));
        }
        let mut a = a0.clone();
        a.ta = s.pair.auth;
        a.ta_signer = false;
        rebuild(&s, &mut a, vec![]);
        muts.push(("program authority unsigned", a, s.w.clone()));
        let mut a = a0.clone();
        a.ta = s.pair.auth;
        a.ta_signer = false;
        if s.is_wrap {
            a.source = s.pair.escrow;
        }
        rebuild(&s, &mut a, vec![]);
        muts.push(("program authority over the escrow", a, s.w.clone()));
        // tokens that an authority of the program owns, or was made a delegate of: the
        // program could sign for these, but nobody asked it to
        let other = Pair::of(c.key(), SPL, s.pair.wp).auth;
        let nested = Pair::of(s.pair.wm, s.pair.wp, c.pick(&[SPL, T22])).auth;
        for (n, k, delegated) in [("tokens of the authority", s.pair.auth, false), ("tokens of another pair's authority", other, false), ("tokens of a stacked pair's authority", nested, false), ("tokens delegated to the authority", s.pair.auth, true)] {
            let mut w = s.w.clone();
            let acct = c.key();
            let owner = if delegated { c.key() } else { k };
            if w.supply(&smint) > u64::MAX / 2 || !make_tok(c.vm, &mut w, acct, sprog, smint, owner, &[]) || w.tok(&acct).map(|t| t.state) != Some(1) {
                continue;
            }
            mint_tokens(c.vm, &mut w, sprog, smint, acct, 1000);
            if !s.is_wrap {
                mint_tokens(c.vm, &mut w, s.pair.up, s.pair.u, s.pair.escrow, 1000);
            }
            if delegated {
                let o = c.vm.run(&mut w, &ix::approve(sprog, acct, k, owner, 1000));
                if !o.ok {
                    continue;
                }
            }
            let mut a = a0.clone();
            a.source = acct;
            a.ta = k;
            a.ta_signer = false;
            a.amount = 10;
            rebuild(&s, &mut a, vec![]);
            muts.push((n, a, w));
        }
    }
    // 4 multisig shortfalls
    if !signers.is_empty() {
        let thr = s.w.data(&s.holder.ta).first().copied().unwrap_or(1) as usize;
        for (n, keep) in [("one signer short", thr - 1), ("no signer", 0)] {
            let mut a = a0.clone();
            rebuild(&s, &mut a, signers[..keep.min(signers.len())].to_vec());
            muts.push((n, a, s.w.clone()));
        }
        // the same member repeated
        if thr > 1 {
            let mut a = a0.clone();
            let rep = vec![signers[0].clone(); 11];
            rebuild(&s, &mut a, rep);
            muts.push(("one member repeated", a, s.w.clone()));
        }
        // enough members, but one not signing
        let mut a = a0.clone();
        let mut sg = signers[..thr].to_vec();
        sg[thr - 1].is_signer = false;
        rebuild(&s, &mut a, sg);
        muts.push(("member listed but not signing", a, s.w.clone()));
        // strangers fill the gap
        let mut a = a0.clone();
        let mut sg = signers[..thr - 1].to_vec();
        sg.push(meta(c.key(), true, false));
        rebuild(&s, &mut a, sg);
        muts.push(("stranger fills the gap", a, s.w.clone()));
        // look-alike multisig with the attackers as members
        let mut a = a0.clone();
        let mut w = s.w.clone();
        let (f, m1) = (c.key(), c.key());
        make_multisig(c.vm, &mut w, f, sprog, 1, &[m1]);
        a.ta = f;
        a.ta_signer = false;
        rebuild(&s, &mut a, vec![meta(m1, true, false)]);
        muts.push(("other multisig", a, w));
        // the multisig account itself flagged as signer without its members
        let mut a = a0.clone();
        a.ta_signer = true;
        rebuild(&s, &mut a, vec![]);
        muts.push(("multisig account as signer", a, s.w.clone()));
    }
    // 5 delegate faults
    if let Some(allow) = s.holder.delegated {
        if allow < s.w.bal(&a0.source) {
            let mut a = a0.clone();
            a.amount = allow + 1;
            rebuild(&s, &mut a, signers.clone());
            muts.push(("above the allowance", a, s.w.clone()));
        }
        // revoked
        let mut w = s.w.clone();
        let o = c.vm.run(&mut w, &Instruction { program_id: sprog, accounts: vec![meta(a0.source, false, true), meta(s.holder.owner, true, false)], data: vec![5] });
        if o.ok {
            muts.push(("revoked delegate", a0.clone(), w));
        }
        // spent before
        let mut w = s.w.clone();
        let mut a = a0.clone();
        if allow < u64::MAX {
            a.amount = 1;
            let sink = c.key();
            let oo = s.holder.owner;
            make_tok(c.vm, &mut w, sink, sprog, smint, oo, &[]);
            let o = c.vm.run(&mut w, &ix::approve(sprog, a0.source, s.holder.ta, s.holder.owner, 0));
            if o.ok {
                rebuild(&s, &mut a, signers.clone());
                muts.push(("spent allowance", a, w));
            }
        }
    } else if s.holder.ta_signer {
        // somebody else's account, with this owner's signature
        let other = c.key();
        let mut w = s.w.clone();
        let k = c.key();
        if make_tok(c.vm, &mut w, k, sprog, smint, other, &[]) && w.supply(&smint) < u64::MAX / 2 {
            if w.tok(&k).map(|t| t.state) == Some(1) {
                mint_tokens(c.vm, &mut w, sprog, smint, k, 1000);
                let mut a = a0.clone();
                a.source = k;
                a.amount = 10;
                rebuild(&s, &mut a, vec![]);
                muts.push(("victim's account", a, w.clone()));
                // a delegate of the attacker's account used on the victim's
                let mut a = a0.clone();
                a.source = k;
                a.amount = 10;
                a.ta = other;
                a.ta_signer = false;
                rebuild(&s, &mut a, vec![meta(s.holder.owner, true, false)]);
                muts.push(("victim named, attacker co-signs", a, w));
            }
        }
    }
    for (n, a, w) in muts {
        let s2 = Scene { w, pair: s.pair.clone(), a: a.clone(), label: s.label.clone(), guard_blocks: s.guard_blocks, holder: s.holder.clone(), is_wrap: s.is_wrap, clean: false };
        let what = format!("{} authority fault: {n}", s.label);
        let out = judge(c, &s2, &a, &what, true);
        // independent of the model: these faults never authorise
        if out.ok && n != "member listed but not signing" {
            c.fail(&["P04"], "fault-accepted", format!("{what}: accepted; {}", mon::desc_ix(&s2.ix())));
        } else if out.ok {
            // only acceptable when the remaining signers still reach the threshold (they do not)
            c.fail(&["P04"], "fault-accepted", format!("{what}: accepted; {}", mon::desc_ix(&s2.ix())));
        }
        c.cov.inc(&format!("fault: {n}"));
        c.eval(&format!("{} {} ok={}", s.label, n, out.ok));
    }
    if !good.ok {
        c.cov.inc("good_case_refused");
    }
    c.sample(format!("{} good={} ", s.label, good.err_str()));
}
