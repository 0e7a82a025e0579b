//! Long histories: several mint pairs, honest and hostile users, every token-wrap
//! instruction and plain token operations, under all monitors and the backing ledger.
use crate::adv::{self, AdvCfg};
use crate::case::*;
use crate::ids::*;
use crate::ix::{self, WrapArgs};
use crate::meta::*;
use crate::mon::*;
use crate::rt::*;
use crate::scene::*;
use crate::tok::*;
use rand::Rng;
use solana_instruction::Instruction;
use spl_token_2022_interface::extension as ext;
use std::collections::BTreeMap;

struct Hist {
    w: World,
    pairs: Vec<Pair>,
    users: Vec<Pubkey>,
    /// every address somebody might substitute
    pool: Vec<Pubkey>,
    /// where each unwrapped mint's metadata comes from: (account, program, Metaplex?)
    src: BTreeMap<Pubkey, (Pubkey, Option<Pubkey>)>,
    sig: String,
    steps: Vec<String>,
}
impl Hist {
    fn log(&mut self, s: String, ok: bool) {
        if self.steps.len() < 400 {
            self.steps.push(format!("{s} -> {}", if ok { "ok" } else { "refused" }));
        }
        self.sig.push_str(&s[..s.len().min(6)]);
        self.sig.push(if ok { '+' } else { '-' });
    }
    /// (escrow balance, supply)
    fn state(&self, p: &Pair) -> (u64, u64) {
        // a re-created mint under the other token program leaves the old escrow behind
        (self.w.bal(&p.escrow), self.w.supply(&p.wm))
    }
}
fn check_backing(c: &mut Case, h: &Hist, what: &str) {
    for p in &h.pairs {
        let (b, s) = (backing(&h.w, p), h.w.supply(&p.wm));
        c.cov.inc("backing_checks");
        if s > 0 {
            c.cov.inc("backing_checks_with_supply");
        }
        if b < s {
            c.fail(&["P01"], "unbacked", format!("after {what}: {} wrapped tokens of {} backed by {} in escrow; history {:?}", s, p.wm, b, h.steps.iter().rev().take(12).collect::<Vec<_>>()));
        }
    }
}
/// A plain operation; it may only raise a pair's surplus.
fn plain(c: &mut Case, h: &mut Hist, i: &Instruction, what: &str) -> bool {
    let pre: Vec<i128> = h.pairs.iter().map(|p| backing(&h.w, p) as i128 - h.w.supply(&p.wm) as i128).collect();
    adv::reset(AdvCfg::default());
    let o = c.vm.run(&mut h.w, i);
    h.log(what.to_string(), o.ok);
    for (k, p) in h.pairs.clone().iter().enumerate() {
        let now = backing(&h.w, p) as i128 - h.w.supply(&p.wm) as i128;
        if now < pre[k] {
            c.fail(&["P01", "P10"], "drained", format!("{what} lowered the backing of {} from {} to {} (escrow minus supply); history {:?}", p.wm, pre[k], now, h.steps.iter().rev().take(12).collect::<Vec<_>>()));
        }
    }
    check_backing(c, h, what);
    o.ok
}
/// A token-wrap instruction: backing may change only by tokens sent to an escrow as
/// the recipient of an unwrap or wrap.
fn wrapped_ix(c: &mut Case, h: &mut Hist, i: &Instruction, what: &str, cfg: AdvCfg) -> Out {
    let before = h.w.clone();
    let pre: Vec<(u64, u64)> = h.pairs.iter().map(|p| h.state(p)).collect();
    let pb: Vec<u64> = h.pairs.iter().map(|p| backing(&h.w, p)).collect();
    adv::reset(cfg);
    let pairs = h.pairs.clone();
    let o = observed(c, &mut h.w, i, &pairs);
    adv::reset(AdvCfg::default());
    h.log(what.to_string(), o.ok);
    c.cov.inc(&format!("ix{} {}", i.data.first().copied().unwrap_or(99), if o.ok { "ok" } else { "refused" }));
    let tag = i.data.first().copied().unwrap_or(99);
    // the account that receives tokens as the documented recipient
    let rcp = match tag {
        1 => i.accounts.first().map(|m| m.pubkey),
        2 => i.accounts.get(1).map(|m| m.pubkey),
        _ => None,
    };
    for (k, p) in pairs.iter().enumerate() {
        let (e1, s1) = h.state(p);
        let (e0, s0) = pre[k];
        let d = (backing(&h.w, p) as i128 - s1 as i128) - (pb[k] as i128 - s0 as i128);
        let now = ata(&p.auth, &p.u, &before.get(&p.u).owner);
        let donated = (rcp == Some(p.escrow) || rcp == Some(now)) && o.ok && (tag == 2 || p.wm != i.accounts[1].pubkey);
        if donated {
            c.cov.inc("escrow_as_recipient");
        }
        if (d != 0 && !donated) || d < 0 {
            c.fail(&["P01"], "backing-changed", format!("{what}: escrow {e0} -> {e1}, supply {s0} -> {s1} of {}; {}; history {:?}", p.wm, desc_ix(i), h.steps.iter().rev().take(12).collect::<Vec<_>>()));
        }
    }
    if !o.ok && !world_diff(&before, &h.w).is_empty() {
        c.fail(&["P01"], "refused-but-changed", what.to_string());
    }
    check_backing(c, h, what);
    o
}
fn acct(c: &mut Case, h: &mut Hist, user: Pubkey, mint: Pubkey, prog: Pubkey) -> Option<Pubkey> {
    let k = ata(&user, &mint, &prog);
    if h.w.tok(&k).is_none() {
        h.w.fund(&user, 1_000_000_000);
        let o = c.vm.run(&mut h.w, &ix::create_ata(user, user, mint, prog, true));
        if !o.ok {
            return None;
        }
        if h.w.tok(&k).map(|t| t.state) == Some(2) {
            if let Some(f) = h.w.mint(&mint).and_then(|m| m.freeze) {
                c.vm.run(&mut h.w, &ix::freeze(prog, k, mint, f, true));
            }
        }
        h.pool.push(k);
    }
    Some(k)
}
fn extras(h: &Hist, p: &Pair, a: &mut WrapArgs, is_wrap: bool) {
    a.extras.clear();
    let hk = h.w.mint(&p.u).and_then(|m| find(&m.ext, ext::ExtensionType::TransferHook).map(|d| Pubkey::new_from_array(d[32..64].try_into().unwrap())));
    if let Some(hk) = hk {
        if hk != Pubkey::default() {
            a.extras = if is_wrap { hook_metas(&hk, &p.u, &a.source, &a.escrow, &a.ta, a.amount) } else { hook_metas(&hk, &p.u, &a.escrow, &a.recipient, &a.authority, a.amount) };
        }
    }
}
fn hist_exts(c: &mut Case, u: Pubkey, ma: Pubkey, close: bool) -> (Vec<Ext>, Option<(Pubkey, Option<Pubkey>)>) {
    let mut v: Vec<Ext> = rand_exts(c, u, false).into_iter().filter(|e| !matches!(e, Ext::MetaPtr(..) | Ext::CloseAuth(_) | Ext::DefaultFrozen | Ext::Hook(_) | Ext::Pausable(_))).collect();
    if c.chance(0.3) {
        v.push(Ext::Hook(if c.chance(0.5) { HOOK } else { EVILHOOK }));
    }
    if c.chance(0.2) {
        v.push(Ext::Pausable(ma));
    }
    if close {
        v.push(Ext::CloseAuth(ma));
    }
    let src = match c.below(3) {
        0 => Some((mpl_pda(&u), None)),
        1 => {
            v.push(Ext::MetaPtr(Some(ma), Some(mpl_pda(&u))));
            Some((mpl_pda(&u), None))
        }
        _ => {
            let k = c.key();
            v.push(Ext::MetaPtr(Some(ma), Some(k)));
            Some((k, Some(METAP)))
        }
    };
    (v, src)
}
fn setup(c: &mut Case) -> Hist {
    let mut w = World { epoch: c.pick(&[0u64, 0, 431, 1000, 1 << 33]) + c.rng.gen_range(0..3), ..Default::default() };
    let users: Vec<Pubkey> = (0..3).map(|_| c.key()).collect();
    let mut src = BTreeMap::new();
    let mut pairs = vec![];
    // one Token-2022 mint wrapped under both programs
    let (u0, ma0) = (c.key(), c.key());
    let close = c.chance(0.6);
    let (e, s) = hist_exts(c, u0, ma0, close);
    let fz = if c.chance(0.5) || e.contains(&Ext::DefaultInit) { Some(c.key()) } else { None };
    let dec = c.pick(&[0u8, 6, 9]);
    make_mint(c.vm, &mut w, u0, T22, dec, ma0, fz, &e);
    if let Some(Ext::Hook(hk)) = e.iter().find(|x| matches!(x, Ext::Hook(_))) {
        install_hook_state(c.vm, &mut w, hk, &u0);
    }
    src.insert(u0, s.unwrap());
    for wp in [SPL, T22] {
        let mut p = Pair::of(u0, T22, wp);
        p.exts = e.clone();
        p.mint_auth = Some(ma0);
        p.freeze = fz;
        pairs.push(p);
    }
    // one SPL mint
    let (u1, ma1) = (c.key(), c.key());
    let fz1 = if c.chance(0.5) { Some(c.key()) } else { None };
    if c.chance(0.25) {
        // wrapped SOL
        let prog = tp(c.rng.gen());
        let k = make_native_mint(c.vm, &mut w, prog);
        src.insert(k, (mpl_pda(&k), None));
        pairs.push(Pair::of(k, prog, tp(c.rng.gen())));
        c.cov.inc("native_histories");
    } else {
        make_mint(c.vm, &mut w, u1, SPL, 6, ma1, fz1, &[]);
        src.insert(u1, (mpl_pda(&u1), None));
        let mut p = Pair::of(u1, SPL, tp(c.rng.gen()));
        p.mint_auth = Some(ma1);
        p.freeze = fz1;
        pairs.push(p);
    }
    // one stacked on the first or third
    let base = c.pick(&[0usize, 1, 2]);
    let b = pairs[base].clone();
    let mut p = Pair::of(b.wm, b.wp, tp(c.rng.gen()));
    p.nested = true;
    p.freeze = b.freeze;
    p.mint_auth = Some(b.auth);
    pairs.push(p);
    let mut h = Hist { w, pairs, users, pool: vec![], src, sig: format!("{:?}", e.iter().map(|x| x.ty()).collect::<Vec<_>>()), steps: vec![] };
    for (k, (a, o)) in h.src.clone() {
        let mut m = gen_mpl(c, k, ma0);
        m.mint = k;
        if o.is_none() {
            put_mpl(c, &mut h.w, a, &m);
        } else {
            h.w.put(a, solana_account::Account { lamports: 5_000_000, data: vec![1, 2, 3], owner: METAP, executable: false, rent_epoch: u64::MAX });
        }
    }
    for p in h.pairs.clone() {
        if c.chance(0.85) {
            synth_or_create(c, &mut h, &p);
        }
        h.pool.extend([p.u, p.wm, p.auth, p.bp, p.escrow, mpl_pda(&p.wm), pointer(&p.u)]);
        if p.wp == T22 {
            h.w.fund(&p.wm, 50_000_000);
        }
        h.w.fund(&p.auth, 100_000_000);
    }
    h.pool.extend([SPL, T22, MPL, SYS, WRAP, FAKETOK, METAP, ATA]);
    h.pool.extend(h.users.clone());
    h
}
fn synth_or_create(c: &mut Case, h: &mut Hist, p: &Pair) {
    if h.w.mint(&p.u).is_none() || h.w.mint(&p.wm).is_some() {
        return;
    }
    let l = c.vm.rent(600);
    h.w.fund(&p.wm, l);
    let l = c.vm.rent(32);
    h.w.fund(&p.bp, l);
    wrapped_ix(c, h, &ix::create_mint(p.u, p.wp, false), "create", AdvCfg::default());
    let u = h.users[0];
    h.w.fund(&u, 1_000_000_000);
    let prog = h.w.get(&p.u).owner;
    plain(c, h, &ix::create_ata(u, p.auth, p.u, prog, true), "escrow+");
}
fn tokens(c: &mut Case, h: &mut Hist, user: Pubkey, p: &Pair) -> Option<Pubkey> {
    let prog = h.w.get(&p.u).owner;
    let k = acct(c, h, user, p.u, prog)?;
    if h.w.bal(&k) == 0 && !p.nested {
        let n = match c.below(4) {
            0 => c.rng.gen_range(1..100),
            1 => c.rng.gen::<u64>() >> 8,
            _ => c.rng.gen_range(1..10_000_000),
        };
        if is_native(&p.u) {
            h.w.fund(&k, n);
            plain(c, h, &sync_native(prog, k), "deposit");
        } else if let Some(ma) = h.w.mint(&p.u).and_then(|m| m.auth) {
            plain(c, h, &ix::mint_to(prog, p.u, k, ma, n), "mint");
        }
    }
    Some(k)
}
pub fn camp_hist(c: &mut Case) {
    let steps = c.rng.gen_range(20..70);
    history(c, steps)
}
/// Every account of every instruction exchanged for every address of the scene.
pub fn camp_cross(c: &mut Case) {
    let mut h = setup(c);
    for _ in 0..c.rng.gen_range(4..16) {
        step(c, &mut h);
    }
    let p = c.pick(&h.pairs);
    synth_or_create(c, &mut h, &p);
    let user = h.users[0];
    let ma = h.w.mint(&p.u).and_then(|m| m.auth).unwrap_or(user);
    let me = !h.pairs.iter().any(|q| q.auth == ma);
    let l = c.vm.rent(32);
    for q in h.pairs.clone() {
        let k = pointer(&q.u);
        if h.w.lamports(&k) < l {
            h.w.fund(&k, l);
        }
        // some pairs already have one
        if c.chance(0.5) {
            if let Some(a) = h.w.mint(&q.u).and_then(|m| m.auth).filter(|a| h.pairs.iter().all(|q| q.auth != *a)) {
                let to = c.key();
                wrapped_ix(c, &mut h, &ix::set_pointer(a, true, k, q.u, to), "pointer", AdvCfg::default());
            }
        }
    }
    let mut list = vec![];
    let prog = h.w.get(&p.u).owner;
    if let (Some(un), Some(wr)) = (tokens(c, &mut h, user, &p), acct(c, &mut h, user, p.wm, p.wp)) {
        let mut a = args(&h, &p, un, wr, user, h.w.bal(&un) / 2 + 1);
        extras(&h, &p, &mut a, true);
        list.push(ix::wrap(&a));
        wrapped_ix(c, &mut h, &ix::wrap(&a), "wrap", AdvCfg::default());
        let mut a = args(&h, &p, wr, un, user, h.w.bal(&wr) / 2 + 1);
        extras(&h, &p, &mut a, false);
        list.push(ix::unwrap(&a));
    }
    list.push(ix::create_mint(p.u, p.wp, false));
    list.push(ix::create_mint(p.u, p.wp, true));
    list.push(ix::close_stuck(ata(&p.auth, &p.u, &prog), user, p.u, p.wm, p.auth));
    let (sa, so) = h.src.get(&p.u).map(|(a, o)| (Some(*a), *o)).unwrap_or((Some(mpl_pda(&p.u)), None));
    list.push(if p.wp == T22 { ix::sync22(p.wm, p.auth, p.u, T22, sa, so) } else { ix::syncspl(mpl_pda(&p.wm), p.auth, p.wm, p.u, sa, so) });
    let to = c.key();
    list.push(ix::set_pointer(ma, me, pointer(&p.u), p.u, to));
    let mut pool: Vec<Pubkey> = h.pool.iter().copied().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    pool.push(c.key());
    let pairs = h.pairs.clone();
    let t = gen_tmeta(c, p.u, user, p.wp == SPL, false, 300);
    let cfg = AdvCfg { emit: Some(enc_tmeta(&t)), ..Default::default() };
    // two instructions get every single exchange, the others a few
    let full: Vec<usize> = (0..2).map(|_| c.below(list.len())).chain([list.len() - 1]).collect();
    for (n, i) in list.iter().enumerate() {
        for r in 0..i.accounts.len().min(12) {
            for x in &pool {
                if !full.contains(&n) && !c.chance(0.05) || i.accounts[r].pubkey == *x {
                    continue;
                }
                let mut j = i.clone();
                j.accounts[r].pubkey = *x;
                if c.chance(0.2) {
                    let r2 = c.below(i.accounts.len());
                    j.accounts[r2].pubkey = c.pick(&pool);
                }
                // nobody can sign for a program-derived address
                for m in &mut j.accounts {
                    if m.is_signer && (h.pairs.iter().any(|q| [q.auth, q.wm, q.bp, q.escrow].contains(&m.pubkey)) || h.w.get(&m.pubkey).owner == WRAP) {
                        m.is_signer = false;
                    }
                }
                adv::reset(cfg.clone());
                let mut w = h.w.clone();
                let o = observed(c, &mut w, &j, &pairs);
                c.cov.inc(if o.ok { "exchange_accepted" } else { "exchange_refused" });
                c.eval(&format!("{} {r} {} {}", i.data[0], role(&h, x), o.err_str()));
            }
        }
    }
    adv::reset(AdvCfg::default());
    c.sample(h.sig.clone());
}
/// What an address is in the scene.
fn role(h: &Hist, x: &Pubkey) -> String {
    for (n, p) in h.pairs.iter().enumerate() {
        for (k, s) in [(p.u, "mint"), (p.wm, "wrapped"), (p.auth, "auth"), (p.bp, "back"), (p.escrow, "escrow"), (pointer(&p.u), "pointer"), (mpl_pda(&p.wm), "metaplex")] {
            if k == *x {
                return format!("{s}{n}");
            }
        }
    }
    nick(x).chars().take(6).collect()
}
pub fn camp_hist_long(c: &mut Case) {
    let steps = c.rng.gen_range(150..350);
    history(c, steps)
}
fn history(c: &mut Case, steps: usize) {
    let mut h = setup(c);
    for _ in 0..steps {
        step(c, &mut h);
    }
    // at the end everybody redeems: what was wrapped must still be worth its escrow
    for p in h.pairs.clone() {
        for u in h.users.clone() {
            let k = ata(&u, &p.wm, &p.wp);
            let bal = h.w.bal(&k);
            if bal == 0 {
                continue;
            }
            let prog = h.w.get(&p.u).owner;
            let Some(r) = acct(c, &mut h, u, p.u, prog) else { continue };
            let mut a = args(&h, &p, k, r, u, bal);
            extras(&h, &p, &mut a, false);
            let m = model_unwrap(c.vm, &h.w, &a);
            let o = wrapped_ix(c, &mut h, &ix::unwrap(&a), "redeem", AdvCfg::default());
            if o.ok {
                c.cov.inc("redeemed_at_end");
            } else if m.is_ok() {
                c.fail(&["P01", "P06"], "cannot-redeem", format!("{} of {} cannot be redeemed at the end of the history: {}; {:?}", bal, p.wm, o.err_str(), o.logs.iter().rev().take(5).collect::<Vec<_>>()));
            }
        }
    }
    let s = h.sig.clone();
    c.eval(&s);
    c.sample(h.steps.iter().take(25).cloned().collect::<Vec<_>>().join("; "));
    if !c.finds.is_empty() {
        c.notes.extend(h.steps);
    }
}
fn args(h: &Hist, p: &Pair, source: Pubkey, recipient: Pubkey, user: Pubkey, amount: u64) -> WrapArgs {
    let up = h.w.get(&p.u).owner;
    WrapArgs { recipient, wrapped_mint: p.wm, authority: p.auth, up, wp: p.wp, source, unwrapped_mint: p.u, escrow: ata(&p.auth, &p.u, &up), ta: user, ta_signer: true, extras: vec![], amount }
}
fn step(c: &mut Case, h: &mut Hist) {
    let k = c.below(h.pairs.len());
    let p = h.pairs[k].clone();
    let user = c.pick(&h.users);
    let other = c.pick(&h.users);
    let prog = h.w.get(&p.u).owner;
    match c.below(100) {
        // ---- wrap / unwrap, honest or with something exchanged
        0..=47 => {
            let is_wrap = c.chance(0.6);
            let Some(un) = tokens(c, h, user, &p) else { return };
            let Some(wr) = acct(c, h, other, p.wm, p.wp) else { return };
            let mut a = if is_wrap {
                args(h, &p, un, wr, user, 0)
            } else {
                let Some(mine) = acct(c, h, user, p.wm, p.wp) else { return };
                let Some(to) = acct(c, h, other, p.u, prog) else { return };
                args(h, &p, mine, to, user, 0)
            };
            let bal = h.w.bal(&a.source);
            a.amount = rand_amount(c, bal.max(1));
            let mut what = format!("{}{k}", if is_wrap { "wrap" } else { "unwr" });
            if c.chance(0.06) {
                // the escrow itself as recipient
                a.recipient = if c.chance(0.5) { p.escrow } else { c.pick(&h.pairs).escrow };
                what += "^";
            } else if c.chance(0.06) {
                // wrapped tokens parked in an account of the program's own authority, or
                // taken out of it by somebody who cannot sign for it
                let q = c.pick(&h.pairs).auth;
                if let Some(k) = acct(c, h, q, if is_wrap { p.wm } else { p.u }, if is_wrap { p.wp } else { prog }) {
                    if is_wrap || c.chance(0.5) {
                        a.recipient = k;
                    }
                }
                if !is_wrap && c.chance(0.7) {
                    if let Some(k) = acct(c, h, q, p.wm, p.wp) {
                        a.source = k;
                        a.ta = q;
                        a.ta_signer = false;
                        a.amount = rand_amount(c, h.w.bal(&k).max(1));
                        c.cov.inc("authority_as_holder");
                    }
                }
                what += "~";
            }
            if c.chance(0.25) {
                for _ in 0..c.rng.gen_range(1..3) {
                    let x = c.pick(&h.pool);
                    match c.below(9) {
                        0 => a.recipient = x,
                        1 => a.wrapped_mint = x,
                        2 => a.authority = x,
                        3 => a.up = x,
                        4 => a.wp = x,
                        5 => a.source = x,
                        6 => a.unwrapped_mint = x,
                        7 => a.escrow = x,
                        _ => a.ta = x,
                    }
                }
                what += "!";
                if c.chance(0.2) {
                    a.ta_signer = false;
                }
                // nobody can sign for a program-derived address
                if h.pairs.iter().any(|q| q.auth == a.ta) {
                    a.ta_signer = false;
                }
            }
            extras(h, &p, &mut a, is_wrap);
            let i = if is_wrap { ix::wrap(&a) } else { ix::unwrap(&a) };
            // a hostile hook tries to use what it was handed
            let attack = if c.chance(0.5) { hostile_ixs(&h.w, &p, user, true) } else { vec![] };
            wrapped_ix(c, h, &i, &what, AdvCfg { attack, ..Default::default() });
        }
        // ---- plain token traffic
        48..=52 => {
            let Some(un) = tokens(c, h, user, &p) else { return };
            let n = rand_amount(c, h.w.bal(&un).max(1) / 4 + 1);
            let Some(m) = h.w.mint(&p.u) else { return };
            let dst = if c.chance(0.6) { p.escrow } else { ata(&other, &p.u, &prog) };
            let mut a = args(h, &p, un, dst, user, n);
            a.escrow = dst;
            extras(h, &p, &mut a, true);
            plain(c, h, &ix::transfer_checked(prog, un, p.u, dst, user, true, &a.extras, n, m.decimals), "donate");
        }
        53..=55 => {
            let wr = ata(&user, &p.wm, &p.wp);
            let n = rand_amount(c, h.w.bal(&wr).max(1) / 2 + 1);
            plain(c, h, &ix::burn(p.wp, wr, p.wm, user, true, &[], n), "burnw");
        }
        56..=57 => {
            // outsiders try the token programs directly
            let t = hostile_ixs(&h.w, &p, user, false);
            let i = c.pick(&t);
            plain(c, h, &i, "attack");
        }
        58..=60 => {
            let f = h.w.mint(&p.u).and_then(|m| m.freeze).unwrap_or(user);
            let t = c.chance(0.6);
            let tgt = if c.chance(0.5) { p.escrow } else { ata(&user, &p.u, &prog) };
            plain(c, h, &ix::freeze(prog, tgt, p.u, f, t), if t { "thaw" } else { "freeze" });
        }
        61..=62 => {
            if let Some(ma) = p.mint_auth {
                let i = if c.chance(0.5) { ext::pausable::instruction::pause(&T22, &p.u, &ma, &[]).unwrap() } else { ext::pausable::instruction::resume(&T22, &p.u, &ma, &[]).unwrap() };
                plain(c, h, &i, "pause");
                if c.chance(0.7) {
                    plain(c, h, &ext::pausable::instruction::resume(&T22, &p.u, &ma, &[]).unwrap(), "resume");
                }
            }
        }
        63..=64 => {
            if let Some(ma) = p.mint_auth {
                let (b, m) = (c.pick(&[0u16, 50, 10000]), c.pick(&[0u64, 100, u64::MAX]));
                let i = ext::transfer_fee::instruction::set_transfer_fee(&T22, &p.u, &ma, &[], b, m).unwrap();
                plain(c, h, &i, "setfee");
            }
            h.w.epoch += c.rng.gen_range(0..3);
        }
        65..=66 => {
            // collect withheld fees, also from the escrow
            if let Some(ma) = p.mint_auth {
                if let Some(to) = acct(c, h, user, p.u, prog) {
                    let i = ext::transfer_fee::instruction::withdraw_withheld_tokens_from_accounts(&T22, &p.u, &to, &ma, &[], &[&p.escrow]).unwrap();
                    plain(c, h, &i, "harvest");
                }
            }
        }
        // ---- creation, honest, repeated and crooked
        67..=71 => {
            if h.w.mint(&p.wm).is_none() && c.chance(0.7) {
                synth_or_create(c, h, &p);
                return;
            }
            let mut i = ix::create_mint(p.u, p.wp, c.chance(0.6));
            let mut what = "create".to_string();
            if c.chance(0.6) {
                let r = c.below(5);
                i.accounts[r].pubkey = c.pick(&h.pool);
                what += "!";
            }
            wrapped_ix(c, h, &i, &what, AdvCfg::default());
        }
        72..=76 => {
            h.w.fund(&user, 1_000_000_000);
            plain(c, h, &ix::create_ata(user, p.auth, p.u, prog, true), "escrow+");
        }
        // ---- closing stuck escrows
        77..=81 => {
            let mut i = ix::close_stuck(p.escrow, user, p.u, p.wm, p.auth);
            if c.chance(0.3) {
                let r = c.below(6);
                i.accounts[r].pubkey = c.pick(&h.pool);
            }
            let held = h.w.bal(&i.accounts[0].pubkey);
            let o = wrapped_ix(c, h, &i, "closeE", AdvCfg::default());
            if o.ok {
                c.cov.inc("escrow_closed_in_history");
                if held != 0 {
                    c.fail(&["P11", "P01"], "closed-funded", format!("closed an escrow holding {held}"));
                }
            }
        }
        // ---- mint closed and re-created, possibly with other extensions or program
        82..=86 => recreate(c, h, k),
        // ---- metadata
        87..=94 => {
            let Some((sa, so)) = h.src.get(&p.u).cloned() else { return };
            let mut m = gen_mpl(c, p.u, user);
            m.mint = p.u;
            if so.is_none() {
                put_mpl(c, &mut h.w, sa, &m);
            }
            let t = gen_tmeta(c, p.u, user, p.wp == SPL, false, 600);
            let emit = Some(enc_tmeta(&t));
            let mut i = if p.wp == T22 { ix::sync22(p.wm, p.auth, p.u, T22, Some(sa), so) } else { ix::syncspl(mpl_pda(&p.wm), p.auth, p.wm, p.u, Some(sa), so) };
            let mut what = "sync".to_string();
            if c.chance(0.3) {
                let r = c.below(i.accounts.len());
                i.accounts[r].pubkey = c.pick(&h.pool);
                what += "!";
            }
            let attack = hostile_ixs(&h.w, &p, user, true);
            wrapped_ix(c, h, &i, &what, AdvCfg { emit, attack, ..Default::default() });
        }
        // ---- canonical pointer
        95..=97 => {
            let ma = h.w.mint(&p.u).and_then(|m| m.auth).unwrap_or(user);
            let s = !h.pairs.iter().any(|q| q.auth == ma);
            let k = pointer(&p.u);
            let l = c.vm.rent(32);
            if h.w.lamports(&k) == 0 {
                h.w.fund(&k, l);
            }
            let to = c.pick(&h.pool);
            wrapped_ix(c, h, &ix::set_pointer(ma, s, k, p.u, to), "pointer", AdvCfg::default());
        }
        _ => {
            // the wrong kind of bytes on a sensible account list
            let mut i = ix::close_stuck(p.escrow, user, p.u, p.wm, p.auth);
            i.data = (0..c.below(12)).map(|_| c.rng.gen()).collect();
            if !i.data.is_empty() {
                i.data[0] = c.below(9) as u8;
            }
            wrapped_ix(c, h, &i, "bytes", AdvCfg::default());
        }
    }
}
/// What a hostile program or outsider would like to do.
pub fn hostile_ixs(w: &World, p: &Pair, user: Pubkey, signed: bool) -> Vec<Instruction> {
    let up = w.get(&p.u).owner;
    let (mine, minew) = (ata(&user, &p.u, &up), ata(&user, &p.wm, &p.wp));
    let dec = w.mint(&p.u).map(|m| m.decimals).unwrap_or(0);
    let esc = ata(&p.auth, &p.u, &up);
    let mut v = vec![
        ix::mint_to(p.wp, p.wm, minew, p.auth, 1_000),
        ix::transfer_checked(up, esc, p.u, mine, p.auth, true, &[], 1, dec),
        ix::approve(up, esc, user, p.auth, u64::MAX),
        ix::set_authority(up, esc, p.auth, 2, Some(user)),
        ix::set_authority(up, esc, p.auth, 3, Some(user)),
        ix::set_authority(p.wp, p.wm, p.auth, 0, Some(user)),
        ix::close_account(up, esc, user, p.auth),
        ix::freeze(p.wp, minew, p.wm, p.auth, false),
        Instruction { program_id: SYS, accounts: vec![meta(p.auth, true, true), meta(user, false, true)], data: [2u32.to_le_bytes().to_vec(), 1000u64.to_le_bytes().to_vec()].concat() },
    ];
    if p.wp == T22 {
        v.push(spl_token_metadata_interface::instruction::update_field(&T22, &p.wm, &p.auth, spl_token_metadata_interface::state::Field::Name, "owned".into()));
        v.push(spl_token_metadata_interface::instruction::update_authority(&T22, &p.wm, &p.auth, Default::default()));
    }
    if !signed {
        // outsiders cannot sign for the authority
        for i in v.iter_mut() {
            for m in i.accounts.iter_mut() {
                if m.pubkey == p.auth {
                    m.is_signer = false;
                }
            }
        }
    }
    v
}
fn recreate(c: &mut Case, h: &mut Hist, k: usize) {
    let p = h.pairs[k].clone();
    let Some(m) = h.w.mint(&p.u) else { return };
    if p.nested || !has(&m.ext, ext::ExtensionType::MintCloseAuthority) || h.w.get(&p.u).owner != T22 {
        return;
    }
    let ma = p.mint_auth.unwrap();
    // everyone redeems and burns, so that the mint can be closed
    if c.chance(0.8) {
        for q in h.pairs.clone().into_iter().rev() {
            if q.u != p.u && !(q.nested && h.pairs.iter().any(|x| x.wm == q.u && x.u == p.u)) {
                continue;
            }
            for u in h.users.clone() {
                let wr = ata(&u, &q.wm, &q.wp);
                let bal = h.w.bal(&wr);
                if bal > 0 {
                    let prog = h.w.get(&q.u).owner;
                    if let Some(r) = acct(c, h, u, q.u, prog) {
                        let mut a = args(h, &q, wr, r, u, bal);
                        extras(h, &q, &mut a, false);
                        wrapped_ix(c, h, &ix::unwrap(&a), "redeem", AdvCfg::default());
                    }
                }
            }
        }
        for u in h.users.clone() {
            let un = ata(&u, &p.u, &T22);
            let bal = h.w.bal(&un);
            if bal > 0 {
                plain(c, h, &ix::burn(T22, un, p.u, u, true, &[], bal), "burn");
            }
            plain(c, h, &ix::close_account(T22, un, u, u), "close");
        }
    }
    let ok = plain(c, h, &ix::close_account(T22, p.u, ma, ma), "closemint");
    if !ok {
        return;
    }
    c.cov.inc("mint_closed");
    // re-created with other extensions, sometimes under SPL Token
    let spl = c.chance(0.15);
    let (e, s) = hist_exts(c, p.u, ma, true);
    let e = if spl { vec![] } else { e };
    let fz = if c.chance(0.5) || e.contains(&Ext::DefaultInit) { Some(c.key()) } else { None };
    let dec = c.pick(&[0u8, 6, 9]);
    make_mint(c.vm, &mut h.w, p.u, if spl { SPL } else { T22 }, dec, ma, fz, &e);
    if let Some(Ext::Hook(hk)) = e.iter().find(|x| matches!(x, Ext::Hook(_))) {
        install_hook_state(c.vm, &mut h.w, hk, &p.u);
    }
    h.src.insert(p.u, if spl { (mpl_pda(&p.u), None) } else { s.unwrap() });
    h.steps.push(format!("re-created mint {} with {:?}", p.u, e.iter().map(|x| x.ty()).collect::<Vec<_>>()));
    c.cov.inc(if spl { "mint_recreated_spl" } else { "mint_recreated" });
    for q in h.pairs.iter_mut().filter(|q| q.u == p.u) {
        q.exts = e.clone();
        q.freeze = fz;
    }
    check_backing(c, h, "re-creation");
}
