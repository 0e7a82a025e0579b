//! Hooks, lending of the authority, instruction bytes, error codes, lamports and
//! mutated input.
use crate::adv::{self, AdvCfg};
use crate::camp_hist::hostile_ixs;
use crate::camp_token::{self as ct, Scene, SceneOpts};
use crate::case::*;
use crate::ids::*;
use crate::ix::{self, WrapArgs};
use crate::meta::*;
use crate::mon::*;
use crate::rt::*;
use crate::scene::*;
use crate::tok::*;
use rand::{Rng, RngCore};
use solana_account::Account;
use std::collections::BTreeMap;
use solana_instruction::Instruction;
use solana_instruction_error::InstructionError as E;
use spl_token_2022_interface::extension as ext;

// ------------------------------------------------------------------ P23
pub fn camp_hook(c: &mut Case) {
    let evil = c.chance(0.25);
    let hk = if evil { EVILHOOK } else { HOOK };
    let mut e = vec![Ext::Hook(hk)];
    if c.chance(0.4) {
        e.push(Ext::Fee(c.pick(&[1u16, 100, 10000]), c.pick(&[7u64, u64::MAX]), None));
    }
    if c.chance(0.2) {
        e.push(Ext::CloseAuth(hk));
    }
    let honest = c.chance(0.8);
    let s = ct::scene(c, &SceneOpts { po: PairOpts { up: Some(T22), exts: Some(e), nested: Some(false), ..Default::default() }, honest, ..Default::default() });
    let base = s.a.clone();
    let out = ct::judge(c, &s, &base, &s.label, false);
    c.eval(&format!("{} ok={}", s.label, out.ok));
    c.sample(format!("{} -> {}", s.label, out.err_str()));
    if out.ok {
        c.cov.inc("hooked_operations");
    }
    let verb = if s.is_wrap { "wrap" } else { "unwrap" };
    // a refusing hook undoes everything
    adv::reset(AdvCfg { hook_refuses: true, ..Default::default() });
    let mut w1 = s.w.clone();
    let o = c.vm.run(&mut w1, &s.ix());
    observe(c, &s.w, &w1, &o, &s.ix(), std::slice::from_ref(&s.pair), &WRAP);
    let called = adv::calls().iter().any(|x| x.program == hk);
    c.eval(&format!("{} refusing hook {}", s.label, o.ok));
    if o.ok {
        c.fail(&["P23"], "refusal-ignored", format!("{verb} {}: succeeded although the hook refuses", s.label));
    } else if called {
        c.cov.inc("hook_refusals");
    }
    if !world_diff(&s.w, &w1).is_empty() {
        c.fail(&["P23"], "refused-but-changed", s.label.clone());
    }
    if !out.ok {
        return;
    }
    // every required account missing once; the program must not succeed where a plain
    // transfer does not, and the hook must see exactly what a plain transfer shows it
    let many = 7 + hook_surplus(&s.pair.u).len();
    if many > 7 {
        c.cov.inc("many_hook_accounts");
    }
    let first = base.extras.len() - many;
    for k in first..base.extras.len() {
        let mut a = base.clone();
        let gone = a.extras.remove(k);
        variant(c, &s, &a, hk, &format!("without {}", nick(&gone.pubkey)), k - first != many - 1);
    }
    let mut a = base.clone();
    a.extras.truncate(first);
    variant(c, &s, &a, hk, "without any hook account", true);
    // order does not matter, surplus accounts do not leak
    let mut a = base.clone();
    a.extras[first..].reverse();
    variant(c, &s, &a, hk, "extras reversed", false);
    if first > 0 {
        let mut a = base.clone();
        a.extras.rotate_left(first);
        variant(c, &s, &a, hk, "signers after the hook accounts", false);
        c.cov.inc("signers_last");
    }
    for _ in 0..2 {
        let mut a = base.clone();
        for i in (1..a.extras.len()).rev() {
            let j = c.below(i + 1);
            a.extras.swap(i, j);
        }
        variant(c, &s, &a, hk, "extras shuffled", false);
    }
    let mut a = base.clone();
    let k = c.key();
    a.extras.push(meta(k, false, true));
    a.extras.push(meta(s.pair.auth, false, false));
    variant(c, &s, &a, hk, "surplus accounts", false);
    // accounts meant for another transfer
    let mut a = base.clone();
    let (x, y) = (c.key(), c.key());
    a.extras.truncate(first);
    a.extras.extend(hook_metas(&hk, &s.pair.u, &x, &y, &a.ta, a.amount));
    variant(c, &s, &a, hk, "accounts of another transfer", true);
}
fn variant(c: &mut Case, s: &Scene, a: &WrapArgs, hk: Pubkey, what: &str, must_fail: bool) {
    let verb = if s.is_wrap { "wrap" } else { "unwrap" };
    let i = s.with(a);
    adv::reset(AdvCfg::default());
    let mut w1 = s.w.clone();
    let o = c.vm.run(&mut w1, &i);
    let mine: Vec<_> = adv::calls().into_iter().filter(|x| x.program == hk).map(|x| (x.accounts, x.data)).collect();
    observe(c, &s.w, &w1, &o, &i, std::slice::from_ref(&s.pair), &WRAP);
    adv::reset(AdvCfg::default());
    let m = s.model(c, a);
    let direct: Vec<_> = adv::calls().into_iter().filter(|x| x.program == hk).map(|x| (x.accounts, x.data)).collect();
    c.eval(&format!("{} {what} {} {}", s.label, o.ok, m.is_ok()));
    c.cov.inc(if o.ok { "variant_accepted" } else { "variant_refused" });
    if o.ok && must_fail {
        c.fail(&["P23"], "missing-accepted", format!("{verb} {what}: succeeded; {}", desc_ix(&i)));
    }
    if o.ok != m.is_ok() && !s.guard_blocks {
        c.fail(&["P23"], "differs-from-transfer", format!("{verb} {what}: {} but the plain transfer {}; {}", o.err_str(), m.as_ref().err().cloned().unwrap_or("succeeds".into()), desc_ix(&i)));
    }
    if o.ok {
        if mine.len() != 1 {
            c.fail(&["P23"], "hook-count", format!("{verb} {what}: hook ran {} times", mine.len()));
        }
        let keys = |v: &Vec<(Vec<(Pubkey, bool, bool)>, Vec<u8>)>| v.iter().map(|x| (x.0.iter().map(|y| y.0).collect::<Vec<_>>(), x.1.clone())).collect::<Vec<_>>();
        if keys(&mine) != keys(&direct) {
            c.fail(&["P23"], "hook-sees-other", format!("{verb} {what}: the hook sees {:?}, in a plain transfer {:?}", mine, direct));
        }
    }
}

// ------------------------------------------------------------------ P07
pub fn camp_lend(c: &mut Case) {
    let attacker = c.key();
    if c.chance(0.5) {
        // a hostile metadata program is consulted
        let mut w = World::default();
        let wp = tp(c.rng.gen());
        let s = make_source(c, &mut w, Kind::External, wp == SPL);
        let p = make_target(c, &mut w, &s, wp);
        let holder = make_ata(c.vm, &mut w, attacker, attacker, p.u, p.up);
        let wr = make_ata(c.vm, &mut w, attacker, attacker, p.wm, p.wp);
        make_ata(c.vm, &mut w, attacker, p.auth, p.u, p.up);
        mint_tokens(c.vm, &mut w, p.up, p.u, p.escrow, 1_000_000);
        mint_tokens(c.vm, &mut w, p.wp, p.wm, wr, 1_000_000);
        let _ = holder;
        let mut i = if wp == T22 { ix::sync22(p.wm, p.auth, p.u, T22, s.acct, s.owner_prog) } else { ix::syncspl(mpl_pda(&p.wm), p.auth, p.wm, p.u, s.acct, s.owner_prog) };
        // accounts an attacker appends, or flags it strengthens
        match c.below(4) {
            0 => i.accounts.extend([meta(p.escrow, false, true), meta(wr, false, true), meta(attacker, true, true)]),
            1 => {
                let n = i.accounts.len();
                i.accounts[n - 2].is_writable = true;
            }
            2 => {
                let n = i.accounts.len();
                i.accounts[n - 2].is_signer = true;
                i.accounts[n - 2].is_writable = true;
            }
            _ => {}
        }
        let attack = hostile_ixs(&w, &p, attacker, true);
        adv::reset(AdvCfg { attack, ..s.cfg() });
        let before = w.clone();
        let o = observed(c, &mut w, &i, std::slice::from_ref(&p));
        let calls = adv::calls();
        adv::reset(AdvCfg::default());
        c.eval(&format!("lend sync {} {} {}", tpn(&wp), i.accounts.len(), o.ok));
        c.sample(format!("sync to {} with hostile metadata program -> {}; calls {:?}", tpn(&wp), o.err_str(), calls.iter().map(|x| (nick(&x.program), x.accounts.len())).collect::<Vec<_>>()));
        for x in &calls {
            c.cov.inc("metadata_program_calls");
            if x.accounts.iter().map(|a| (a.0, a.1, a.2)).collect::<Vec<_>>() != vec![(s.acct.unwrap(), false, false)] {
                c.fail(&["P07"], "third-party-privileges", format!("the metadata program received {:?} during {}", x.accounts, desc_ix(&i)));
            }
            if x.attacks_ok > 0 {
                c.fail(&["P07"], "attack-succeeded", format!("{} hostile calls succeeded during {}", x.attacks_ok, desc_ix(&i)));
            }
        }
        for k in [p.escrow, wr, holder] {
            if !same(&before.get(&k), &w.get(&k)) {
                c.fail(&["P07"], "moved-by-third-party", format!("{k} changed during {}", desc_ix(&i)));
            }
        }
        if before.supply(&p.wm) != w.supply(&p.wm) {
            c.fail(&["P07"], "minted-by-third-party", desc_ix(&i));
        }
    } else {
        // a hostile transfer hook, or a fake token program, is called along the way
        let mut s = ct::scene(c, &SceneOpts { po: PairOpts { up: Some(T22), exts: Some(vec![Ext::Hook(EVILHOOK)]), nested: Some(false), ..Default::default() }, honest: true, ..Default::default() });
        make_ata(c.vm, &mut s.w, attacker, attacker, s.pair.u, s.pair.up);
        make_ata(c.vm, &mut s.w, attacker, attacker, s.pair.wm, s.pair.wp);
        let mut attack = hostile_ixs(&s.w, &s.pair, attacker, true);
        attack.push(s.ix());
        let mut i = s.ix();
        let m = c.below(6);
        match m {
            0 => i.accounts[3].pubkey = FAKETOK,
            1 => i.accounts[4].pubkey = FAKETOK,
            2 => i.accounts[5].pubkey = FAKETOK,
            3 => {
                // everything the hook could want is in the transaction
                i.accounts.extend([meta(s.pair.escrow, false, true), meta(s.pair.wm, false, true), meta(attacker, true, true), meta(s.pair.wp, false, false), meta(ata(&attacker, &s.pair.wm, &s.pair.wp), false, true), meta(WRAP, false, false)]);
            }
            _ => {}
        }
        adv::reset(AdvCfg { attack, ..Default::default() });
        let before = s.w.clone();
        let mut w = s.w.clone();
        let o = observed(c, &mut w, &i, std::slice::from_ref(&s.pair));
        let calls = adv::calls();
        adv::reset(AdvCfg::default());
        c.eval(&format!("lend {} {m} {}", s.label, o.ok));
        for x in &calls {
            c.cov.inc("hostile_hook_calls");
            if x.accounts.iter().any(|a| a.1) {
                c.fail(&["P07"], "hook-signer", format!("a third party received a signature: {:?} during {}", x.accounts, desc_ix(&i)));
            }
            if x.attacks_ok > 0 && o.ok {
                c.fail(&["P07"], "attack-succeeded", format!("{} hostile calls succeeded during {}", x.attacks_ok, desc_ix(&i)));
            }
        }
        if o.ok {
            let (e, m) = (ata(&attacker, &s.pair.u, &s.pair.up), ata(&attacker, &s.pair.wm, &s.pair.wp));
            if before.bal(&e) != w.bal(&e) || before.bal(&m) != w.bal(&m) {
                c.fail(&["P07"], "moved-by-third-party", desc_ix(&i));
            }
        }
    }
}

// ------------------------------------------------------------------ P18 (on chain)
#[derive(Clone, Debug, PartialEq)]
pub enum Ins {
    Create(bool),
    Wrap(u64),
    Unwrap(u64),
    Close,
    Sync22,
    SyncSpl,
    Pointer(Pubkey),
}
pub fn decode(d: &[u8]) -> Option<Ins> {
    let n = |d: &[u8]| u64::from_le_bytes(d.try_into().unwrap());
    match (d.first()?, d.len()) {
        (0, 2) if d[1] < 2 => Some(Ins::Create(d[1] == 1)),
        (1, 9) => Some(Ins::Wrap(n(&d[1..]))),
        (2, 9) => Some(Ins::Unwrap(n(&d[1..]))),
        (3, 1) => Some(Ins::Close),
        (4, 1) => Some(Ins::Sync22),
        (5, 1) => Some(Ins::SyncSpl),
        (6, 33) => Some(Ins::Pointer(Pubkey::new_from_array(d[1..].try_into().unwrap()))),
        _ => None,
    }
}
pub fn rand_bytes(c: &mut Case) -> Vec<u8> {
    let mut d: Vec<u8> = match c.below(8) {
        0 => vec![0, c.rng.gen()],
        1 => ix::amt(1, c.rng.gen()),
        2 => ix::amt(2, c.rng.gen()),
        3 => vec![c.pick(&[3u8, 4, 5])],
        4 => {
            let mut v = vec![6u8; 33];
            c.rng.fill_bytes(&mut v[1..]);
            v
        }
        5 => {
            let n = c.below(50);
            let mut v = vec![0; n];
            c.rng.fill_bytes(&mut v);
            v
        }
        _ => {
            let n = c.pick(&[0usize, 1, 2, 3, 8, 9, 10, 31, 32, 33, 34, 64]);
            let mut v = vec![0; n];
            c.rng.fill_bytes(&mut v);
            if n > 0 {
                v[0] = c.below(9) as u8;
            }
            if n > 1 {
                v[1] = c.below(3) as u8;
            }
            v
        }
    };
    for _ in 0..c.below(3) {
        match c.below(5) {
            0 => d.push(c.rng.gen()),
            1 => {
                d.pop();
            }
            2 if !d.is_empty() => {
                let k = c.below(d.len());
                d[k] ^= 1 << c.below(8);
            }
            3 if !d.is_empty() => {
                let n = c.below(d.len());
                d.truncate(n);
            }
            _ => {
                let n = c.below(40);
                d.resize(d.len() + n, 0);
            }
        }
    }
    d
}
fn bytes_case(c: &mut Case, d: &[u8]) {
    let w = World::default();
    let i = Instruction { program_id: WRAP, accounts: vec![], data: d.to_vec() };
    let o = c.vm.dry(&w, &i);
    if let Some(m) = crash_of(&o, &WRAP) {
        c.fail(&["P18", "P20"], "crash", format!("{m} on data {d:?}"));
    }
    let exp = decode(d);
    let bad = o.err == Some(E::InvalidInstructionData);
    c.cov.inc(if exp.is_some() { "valid_strings" } else { "invalid_strings" });
    if o.ok {
        c.fail(&["P18"], "accepted-without-accounts", format!("{d:?}"));
    } else if exp.is_none() && !bad {
        c.fail(&["P18"], "invalid-bytes-accepted", format!("{d:?} is no instruction, yet the error without accounts is {}", o.err_str()));
    } else if exp.is_some() && bad {
        c.fail(&["P18"], "valid-bytes-rejected", format!("{d:?} encodes {exp:?} but is rejected as invalid instruction data"));
    }
    c.eval(&format!("{d:?}"));
}
/// Strings without accounts: the verdict can depend on nothing but the bytes.
pub fn camp_bytes(c: &mut Case) {
    // a slice of the exhaustive part: all strings of up to two bytes
    let (n, k) = (64u64, c.idx % 64);
    if c.idx < 64 {
        for x in 0..=65535u32 {
            if x as u64 % n == k {
                bytes_case(c, &(x as u16).to_le_bytes());
            }
        }
        for x in 0..=255u8 {
            if x as u64 % n == k {
                bytes_case(c, &[x]);
            }
        }
        // every tag at every length
        for len in 0..=70usize {
            for tag in 0..=8u8 {
                if (len as u64 * 9 + tag as u64) % n == k {
                    let mut d = vec![0u8; len];
                    if len > 0 {
                        d[0] = tag;
                    }
                    bytes_case(c, &d);
                    if len > 1 {
                        d[1] = 1;
                        bytes_case(c, &d);
                        c.rng.fill_bytes(&mut d[1..]);
                        bytes_case(c, &d);
                    }
                }
            }
        }
    }
    for _ in 0..100 {
        let d = rand_bytes(c);
        bytes_case(c, &d);
    }
    let b = rand_bytes(c);
    c.sample(format!("strings without accounts, e.g. {b:?}"));
}
/// Arguments observed through their effect: amounts and addresses are the encoded ones.
pub fn camp_args(c: &mut Case) {
    let mut w = World::default();
    let p = make_pair(c, &mut w, &PairOpts { exts: Some(vec![]), nested: Some(false), freeze: Some(false), ..Default::default() });
    let user = c.key();
    let un = make_ata(c.vm, &mut w, user, user, p.u, p.up);
    let wr = make_ata(c.vm, &mut w, user, user, p.wm, p.wp);
    mint_tokens(c.vm, &mut w, p.up, p.u, un, u64::MAX);
    for _ in 0..6 {
        let n: u64 = match c.below(4) {
            0 => 1 << c.below(64),
            1 => c.rng.gen::<u64>() >> c.below(64),
            2 => (c.rng.gen::<u8>() as u64) << (8 * c.below(8)),
            _ => c.rng.gen(),
        };
        if n == 0 {
            continue;
        }
        let mk = |s: Pubkey, r: Pubkey| WrapArgs { recipient: r, wrapped_mint: p.wm, authority: p.auth, up: p.up, wp: p.wp, source: s, unwrapped_mint: p.u, escrow: p.escrow, ta: user, ta_signer: true, extras: vec![], amount: n };
        for (i, from) in [(ix::wrap(&mk(un, wr)), un), (ix::unwrap(&mk(wr, un)), wr)] {
            let b = w.clone();
            let o = c.vm.run(&mut w, &i);
            let d = b.bal(&from) as i128 - w.bal(&from) as i128;
            c.eval(&format!("args {} {n} {}", i.data[0], o.ok));
            if o.ok {
                c.cov.inc("amounts_observed");
                if d != n as i128 {
                    c.fail(&["P18"], "amount-changed", format!("amount {n} encoded, {d} moved by {}", desc_ix(&i)));
                }
            } else if b.bal(&from) >= n {
                c.fail(&["P18"], "amount-refused", format!("amount {n} refused with {}: {}", o.err_str(), desc_ix(&i)));
            }
        }
    }
    let ma = p.mint_auth.unwrap();
    let k = pointer(&p.u);
    let l = c.vm.rent(32);
    w.fund(&k, l);
    for _ in 0..3 {
        let to = c.key();
        let o = c.vm.run(&mut w, &ix::set_pointer(ma, true, k, p.u, to));
        c.eval(&format!("args pointer {to} {}", o.ok));
        if o.ok {
            c.cov.inc("addresses_observed");
            if w.data(&k) != to.as_ref() {
                c.fail(&["P18"], "address-changed", format!("{to} encoded, {:?} stored", w.data(&k)));
            }
        } else {
            c.fail(&["P18"], "address-refused", o.err_str());
        }
    }
    // idempotence flag
    let o = c.vm.dry(&w, &ix::create_mint(p.u, p.wp, true));
    let o2 = c.vm.dry(&w, &ix::create_mint(p.u, p.wp, false));
    c.eval(&format!("args flag {} {}", o.ok, o2.ok));
    if !o.ok || o2.ok {
        c.fail(&["P18"], "flag", format!("idempotent repeat {}, plain repeat {}", o.err_str(), o2.err_str()));
    }
}

// ------------------------------------------------------------------ P21
pub fn camp_errors(c: &mut Case) {
    let mut w = World::default();
    let hooky = c.chance(0.2);
    let e = if hooky { vec![Ext::Hook(HOOK)] } else { vec![] };
    let p = make_pair(c, &mut w, &PairOpts { exts: Some(e.clone()), nested: Some(false), freeze: Some(false), real_create: true, ..Default::default() });
    let q = make_pair(c, &mut w, &PairOpts { up: Some(p.up), wp: Some(p.wp), exts: Some(e), nested: Some(false), freeze: Some(false), ..Default::default() });
    let user = c.key();
    let un = make_ata(c.vm, &mut w, user, user, p.u, p.up);
    let wr = make_ata(c.vm, &mut w, user, user, p.wm, p.wp);
    mint_tokens(c.vm, &mut w, p.up, p.u, un, 10_000);
    mint_tokens(c.vm, &mut w, p.up, p.u, p.escrow, 10_000);
    mint_tokens(c.vm, &mut w, p.wp, p.wm, wr, 10_000);
    let strange = c.key();
    let mut rows: Vec<(String, World, Instruction, AdvCfg, Vec<u32>)> = vec![];
    let z = AdvCfg::default();
    for is_wrap in [true, false] {
        let verb = if is_wrap { "wrap" } else { "unwrap" };
        let base = WrapArgs { recipient: if is_wrap { wr } else { un }, wrapped_mint: p.wm, authority: p.auth, up: p.up, wp: p.wp, source: if is_wrap { un } else { wr }, unwrapped_mint: p.u, escrow: p.escrow, ta: user, ta_signer: true, extras: vec![], amount: c.rng.gen_range(1..1000) };
        let mk = |a: &WrapArgs| {
            let mut a = a.clone();
            if hooky {
                a.extras = if is_wrap { hook_metas(&HOOK, &p.u, &a.source, &p.escrow, &a.ta, a.amount) } else { hook_metas(&HOOK, &p.u, &p.escrow, &a.recipient, &p.auth, a.amount) };
            }
            if is_wrap {
                ix::wrap(&a)
            } else {
                ix::unwrap(&a)
            }
        };
        let ok = c.vm.dry(&w, &mk(&base));
        if !ok.ok {
            c.fail(&["P21"], "baseline", format!("{verb}: the valid call fails: {}", ok.err_str()));
        }
        let mut a = base.clone();
        a.amount = 0;
        rows.push((format!("{verb}: zero amount"), w.clone(), mk(&a), z.clone(), vec![2]));
        for (n, k) in [("another pair's wrapped mint", q.wm), ("unknown wrapped mint", strange), ("unwrapped mint as wrapped mint", p.u)] {
            let mut a = base.clone();
            a.wrapped_mint = k;
            // the authority and the escrow are then not that mint's either
            rows.push((format!("{verb}: {n}"), w.clone(), mk(&a), z.clone(), vec![0, 3, 7, 4]));
            a.authority = authority(&k);
            a.escrow = ata(&a.authority, &p.u, &p.up);
            let mut w2 = w.clone();
            make_ata(c.vm, &mut w2, user, a.authority, p.u, p.up);
            if !is_wrap {
                mint_tokens(c.vm, &mut w2, p.up, p.u, a.escrow, 10_000);
            }
            rows.push((format!("{verb}: {n} with its authority and escrow"), w2, mk(&a), z.clone(), vec![0]));
        }
        for (n, k) in [("another pair's authority", q.auth), ("unknown authority", strange), ("user as authority", user)] {
            let mut a = base.clone();
            a.authority = k;
            // the escrow is then not that authority's
            rows.push((format!("{verb}: {n}"), w.clone(), mk(&a), z.clone(), vec![3, 7, 4]));
            a.escrow = ata(&k, &p.u, &p.up);
            if a.escrow != un {
                let mut w2 = w.clone();
                make_ata(c.vm, &mut w2, user, k, p.u, p.up);
                rows.push((format!("{verb}: {n} with its account as escrow"), w2, mk(&a), z.clone(), vec![3, 7]));
            }
        }
        let aux = c.key();
        make_tok(c.vm, &mut w, aux, p.up, p.u, p.auth, &[]);
        for (n, k) in [("another pair's escrow", q.escrow), ("other account of the authority", aux), ("user's account as escrow", un)] {
            let mut a = base.clone();
            a.escrow = k;
            rows.push((format!("{verb}: {n}"), w.clone(), mk(&a), z.clone(), if k == aux { vec![7] } else { vec![7, 4] }));
        }
        if is_wrap {
            // a state no real escrow reaches, but a documented error
            let mut w2 = w.clone();
            let x = w2.a.get_mut(&p.escrow).unwrap();
            let o = c.pick(&[user, strange, p.u, q.auth, p.wm]);
            x.data[32..64].copy_from_slice(o.as_ref());
            rows.push((format!("{verb}: escrow owned by somebody else"), w2, mk(&base), z.clone(), vec![4]));
        }
    }
    // ---- creation
    for (n, k) in [("another pair's wrapped mint", q.wm), ("unknown wrapped mint", strange)] {
        for (idem, own) in [(false, false), (false, true), (true, false), (true, true)] {
            let mut i = ix::create_mint(p.u, p.wp, idem);
            i.accounts[0].pubkey = k;
            if own {
                i.accounts[1].pubkey = backpointer(&k);
            }
            rows.push((format!("create: {n}"), w.clone(), i, z.clone(), if own { vec![0] } else { vec![0, 1] }));
        }
    }
    for (n, k) in [("another pair's backpointer", q.bp), ("unknown backpointer", strange)] {
        for idem in [false, true] {
            let mut i = ix::create_mint(p.u, p.wp, idem);
            i.accounts[1].pubkey = k;
            rows.push((format!("create: {n}"), w.clone(), i, z.clone(), vec![1]));
        }
    }
    for o in [SYS, FAKETOK, if p.wp == SPL { T22 } else { SPL }] {
        let mut w2 = w.clone();
        w2.a.get_mut(&p.wm).unwrap().owner = o;
        rows.push((format!("idempotent create: wrapped mint owned by {}", nick(&o)), w2, ix::create_mint(p.u, p.wp, true), z.clone(), vec![5]));
        let mut w2 = w.clone();
        w2.a.get_mut(&p.bp).unwrap().owner = o;
        rows.push((format!("idempotent create: backpointer owned by {}", nick(&o)), w2, ix::create_mint(p.u, p.wp, true), z.clone(), vec![6]));
    }
    // ---- closing
    if p.up == T22 {
        let empty = {
            let mut w2 = w.clone();
            let x = w2.a.get_mut(&p.escrow).unwrap();
            x.data[64..72].copy_from_slice(&0u64.to_le_bytes());
            w2
        };
        let d = c.key();
        rows.push(("close: healthy escrow".into(), empty.clone(), ix::close_stuck(p.escrow, d, p.u, p.wm, p.auth), z.clone(), vec![8]));
        rows.push(("close: unknown wrapped mint".into(), empty.clone(), ix::close_stuck(p.escrow, d, p.u, strange, p.auth), z.clone(), vec![0, 3, 7, 4]));
        rows.push(("close: another pair's wrapped mint".into(), empty.clone(), ix::close_stuck(p.escrow, d, p.u, q.wm, p.auth), z.clone(), vec![0, 3, 7, 4]));
        rows.push(("close: unknown authority".into(), empty.clone(), ix::close_stuck(p.escrow, d, p.u, p.wm, strange), z.clone(), vec![3, 7, 4]));
        rows.push(("close: another pair's authority".into(), empty.clone(), ix::close_stuck(p.escrow, d, p.u, p.wm, q.auth), z.clone(), vec![3, 7, 4]));
        rows.push(("close: another pair's escrow".into(), empty.clone(), ix::close_stuck(q.escrow, d, p.u, p.wm, p.auth), z.clone(), vec![7, 4]));
        rows.push(("close: user's account".into(), empty.clone(), ix::close_stuck(un, d, p.u, p.wm, p.auth), z.clone(), vec![7, 4]));
        let mut w2 = empty.clone();
        let o = c.pick(&[user, strange, p.u, q.auth, p.wm]);
        w2.a.get_mut(&p.escrow).unwrap().data[32..64].copy_from_slice(o.as_ref());
        rows.push(("close: escrow owned by somebody else".into(), w2, ix::close_stuck(p.escrow, d, p.u, p.wm, p.auth), z.clone(), vec![4]));
    }
    // ---- metadata
    let wp = tp(c.rng.gen());
    let kind = c.pick(&KINDS);
    let mut wm = World::default();
    let mut s = make_source(c, &mut wm, kind, wp == SPL);
    while expect_spl(&s).is_none() {
        set_source(c, &mut wm, &mut s, true, false);
    }
    let t = make_target(c, &mut wm, &s, wp);
    // Metaplex refuses some contents (lengths, shares, fees): draw until it does not
    for _ in 0..40 {
        adv::reset(s.cfg());
        let i = if wp == T22 { ix::sync22(t.wm, t.auth, t.u, T22, s.acct, s.owner_prog) } else { ix::syncspl(mpl_pda(&t.wm), t.auth, t.wm, t.u, s.acct, s.owner_prog) };
        if c.vm.dry(&wm, &i).ok {
            break;
        }
        set_source(c, &mut wm, &mut s, true, false);
        while expect_spl(&s).is_none() {
            set_source(c, &mut wm, &mut s, true, false);
        }
    }
    let cfg = s.cfg();
    let good = |src: Option<Pubkey>, own: Option<Pubkey>| if wp == T22 { ix::sync22(t.wm, t.auth, t.u, T22, src, own) } else { ix::syncspl(mpl_pda(&t.wm), t.auth, t.wm, t.u, src, own) };
    let (ai, wi) = if wp == T22 { (1usize, 0usize) } else { (1, 2) };
    let g = good(s.acct, s.owner_prog);
    {
        let mut i = g.clone();
        i.accounts[ai].pubkey = strange;
        rows.push(("sync: unknown authority".into(), wm.clone(), i, cfg.clone(), vec![3]));
        // another genuine mint of the right program
        let mut w2 = wm.clone();
        let k = c.key();
        make_mint(c.vm, &mut w2, k, wp, 6, user, None, &[]);
        let mut i = g.clone();
        i.accounts[wi].pubkey = k;
        rows.push(("sync: another mint as wrapped mint".into(), w2.clone(), i.clone(), cfg.clone(), vec![0, 3, 10]));
        i.accounts[ai].pubkey = authority(&k);
        if wp == SPL {
            i.accounts[0].pubkey = mpl_pda(&k);
        }
        rows.push(("sync: another mint as wrapped mint, with its authority".into(), w2, i, cfg.clone(), vec![0]));
    }
    if wp == SPL {
        let mut w2 = wm.clone();
        let p22 = Pair::of(s.u, s.up, T22);
        synth_wrapped(c.vm, &mut w2, &p22);
        rows.push(("sync to spl: token-2022 wrapped mint".into(), w2, ix::syncspl(mpl_pda(&p22.wm), p22.auth, p22.wm, p22.u, s.acct, s.owner_prog), cfg.clone(), vec![15]));
        for k in [strange, mpl_pda(&s.u), mpl_pda(&t.u)] {
            let mut i = g.clone();
            i.accounts[0].pubkey = k;
            rows.push(("sync to spl: wrong Metaplex account".into(), wm.clone(), i, cfg.clone(), vec![10]));
        }
    }
    match kind {
        Kind::SplMpl | Kind::NoPtrMpl => {
            let mut w2 = wm.clone();
            let k = c.key();
            let x = w2.get(&s.acct.unwrap());
            w2.put(k, x);
            rows.push(("sync: another Metaplex account as source".into(), w2, good(Some(k), None), cfg.clone(), vec![10]));
        }
        Kind::SelfPtr => {
            // a mint that points to itself but never got metadata
            let mut w2 = World::default();
            make_mint(c.vm, &mut w2, s.u, T22, 6, s.ma, None, &[Ext::MetaPtr(Some(s.ma), Some(s.u))]);
            let _ = make_target(c, &mut w2, &s, wp);
            let o = c.vm.dry(&w2, &good(None, None));
            if o.ok {
                c.fail(&["P21", "P13"], "no-metadata-accepted", "a mint without metadata was synced");
            }
        }
        _ => {
            let mut w2 = wm.clone();
            let k = c.key();
            let x = w2.get(&s.acct.unwrap());
            w2.put(k, x);
            rows.push(("sync: source is not the pointed-to account".into(), w2, good(Some(k), s.owner_prog), cfg.clone(), vec![13]));
        }
    }
    if kind == Kind::External {
        rows.push(("sync: silent metadata program".into(), wm.clone(), g.clone(), AdvCfg::default(), vec![14]));
    }
    if matches!(kind, Kind::PtrMpl | Kind::External | Kind::PtrMplForeign | Kind::SelfPtr) {
        let mut w2 = wm.clone();
        c.vm.must(&mut w2, &ext::metadata_pointer::instruction::update(&T22, &s.u, &s.ma, &[], None).unwrap(), "unset pointer");
        rows.push(("sync: unset metadata pointer".into(), w2, g.clone(), cfg.clone(), vec![12]));
    }
    adv::reset(cfg.clone());
    let o = c.vm.dry(&wm, &g);
    if !o.ok {
        c.fail(&["P21"], "baseline", format!("sync {kind:?}: the valid call fails: {} {:?}", o.err_str(), o.logs.iter().rev().take(6).collect::<Vec<_>>()));
    }
    let mut own_code: BTreeMap<(String, u32), bool> = BTreeMap::new();
    for (n, w, i, cfg, codes) in rows {
        let code = codes[0];
        adv::reset(cfg);
        let o = c.vm.dry(&w, &i);
        c.eval(&format!("{n} {}{} {}{} {:?}", tpn(&p.up), tpn(&p.wp), tpn(&wp), hooky, kind));
        c.cov.inc(&format!("code {code}"));
        if o.ok {
            c.fail(&["P21"], "mistake-accepted", format!("{n}: accepted; {}", desc_ix(&i)));
        } else if !o.custom().is_some_and(|x| codes.contains(&x)) {
            c.fail(&["P21"], "wrong-code", format!("{n}: {} instead of custom error {code}; {}", o.err_str(), desc_ix(&i)));
        }
        *own_code.entry((n.split(':').next().unwrap().into(), code)).or_default() |= o.custom() == Some(code);
    }
    for ((verb, code), seen) in own_code {
        if !seen {
            c.fail(&["P21"], "wrong-code", format!("{verb}: custom error {code} never given for its own mistake"));
        }
    }
    adv::reset(AdvCfg::default());
    c.sample(format!("one-fault table over {}->{} and metadata {kind:?}->{}", tpn(&p.up), tpn(&p.wp), tpn(&wp)));
}

// ------------------------------------------------------------------ P22
/// Funding just below, at and above what is needed.
pub fn camp_fund(c: &mut Case) {
    // metadata that makes the wrapped mint grow
    let mut w = World::default();
    let wp = tp(c.rng.gen());
    let kind = c.pick(&KINDS);
    let mut s = make_source(c, &mut w, kind, wp == SPL);
    while expect_spl(&s).is_none() {
        set_source(c, &mut w, &mut s, true, false);
    }
    let p = make_target(c, &mut w, &s, wp);
    let g = if wp == T22 { ix::sync22(p.wm, p.auth, p.u, T22, s.acct, s.owner_prog) } else { ix::syncspl(mpl_pda(&p.wm), p.auth, p.wm, p.u, s.acct, s.owner_prog) };
    let rounds = c.rng.gen_range(1..4);
    for r in 0..rounds {
        if r > 0 {
            set_source(c, &mut w, &mut s, true, false);
        }
        // what a generous funder would end up with
        adv::reset(s.cfg());
        let mut probe = w.clone();
        let payer = if wp == T22 { p.wm } else { p.auth };
        probe.fund(&payer, 10_000_000_000);
        let o = c.vm.run(&mut probe, &g);
        if !o.ok {
            c.cov.inc("probe_refused");
            c.eval(&format!("fund {kind:?} {} refused", tpn(&wp)));
            return;
        }
        let spent = (w.lamports(&payer) as i128 + 10_000_000_000) - probe.lamports(&payer) as i128;
        let exempt = c.vm.rent(probe.data(&payer).len());
        // exact need: T22 needs the mint rent-exempt, SPL needs what Metaplex charges
        let need = if wp == T22 { exempt as i128 } else { spent };
        for d in [-1i128, 0, 1, -(need / 2).max(1)] {
            let mut w1 = w.clone();
            let l = need + d;
            if l < 0 || (wp == T22 && l < c.vm.rent(w.data(&p.wm).len()) as i128) {
                continue;
            }
            // the payer must be rent-exempt itself, or emptied, after a transaction; one
            // instruction may leave it anywhere
            w1.a.entry(payer).or_default().lamports = l as u64;
            let before = w1.clone();
            adv::reset(s.cfg());
            let o = observed(c, &mut w1, &g, std::slice::from_ref(&p));
            c.eval(&format!("fund {kind:?} {} round {r} {} {}", tpn(&wp), d.signum(), o.ok));
            if o.ok && d < 0 && wp == SPL {
                c.fail(&["P22"], "underfunded-accepted", format!("sync {kind:?}->{}: accepted with {} lamports too few", tpn(&wp), -d));
            }
            if o.ok {
                c.cov.inc("exactly_funded");
                for k in world_diff(&before, &w1) {
                    if before.lamports(&k) > w1.lamports(&k) && k != p.auth {
                        c.fail(&["P22"], "lamports-taken", format!("{k} paid for a sync"));
                    }
                }
            } else {
                c.cov.inc("underfunded_refused");
            }
        }
        adv::reset(s.cfg());
        if wp == T22 {
            w.fund(&p.wm, 50_000_000);
        } else {
            w.fund(&p.auth, 100_000_000);
        }
        observed(c, &mut w, &g, std::slice::from_ref(&p));
    }
    adv::reset(AdvCfg::default());
    // creation and pointers at the boundary
    let u = c.key();
    let up = tp(c.rng.gen());
    let wp = tp(c.rng.gen());
    let ma = c.key();
    let mut w = World::default();
    make_mint(c.vm, &mut w, u, up, 6, ma, None, &[]);
    let q = Pair::of(u, up, wp);
    let (nm, nb) = (c.vm.rent(crate::camp_admin::wrapped_space(&wp)), c.vm.rent(32));
    for (dm, db) in [(0i64, 0i64), (-1, 0), (0, -1), (1, 1), (-1, 1), (1_000_000, -1), (-1, 1_000_000), (-(nm as i64) + 1, 0)] {
        let mut w1 = w.clone();
        w1.fund(&q.wm, (nm as i64 + dm) as u64);
        w1.fund(&q.bp, (nb as i64 + db) as u64);
        let o = observed(c, &mut w1, &ix::create_mint(u, wp, c.idx % 2 == 0), &[]);
        c.eval(&format!("fund create {}{} {dm} {db} {}", tpn(&up), tpn(&wp), o.ok));
        let want = dm >= 0 && db >= 0;
        if o.ok && !want {
            c.fail(&["P22", "P09"], "underfunded-accepted", format!("create with {dm}/{db} lamports relative to rent: {}", o.err_str()));
        } else if !o.ok && want {
            c.fail(&["P22", "P09"], "funded-refused", format!("create with {dm}/{db} lamports above rent: {}", o.err_str()));
        }
        c.cov.inc(if o.ok { "exactly_funded" } else { "underfunded_refused" });
    }
    for d in [-1i64, 0, 1, -(nb as i64) + 1] {
        let mut w1 = w.clone();
        w1.fund(&pointer(&u), (nb as i64 + d) as u64);
        let o = observed(c, &mut w1, &ix::set_pointer(ma, true, pointer(&u), u, ma), &[]);
        c.eval(&format!("fund pointer {d} {}", o.ok));
        if o.ok != (d >= 0) {
            c.fail(&["P22"], if o.ok { "underfunded-accepted" } else { "funded-refused" }, format!("pointer with {d} lamports relative to rent: {}", o.err_str()));
        }
    }
    c.sample(format!("sync {kind:?} and creation at the rent boundary"));
}

// ------------------------------------------------------------------ P20
pub struct Ctx {
    pub w: World,
    pub i: Instruction,
    pub cfg: AdvCfg,
    pub pairs: Vec<Pair>,
    pub label: String,
}
/// A valid call of any instruction with its world.
pub fn any_ctx(c: &mut Case) -> Ctx {
    match c.below(9) {
        0..=3 => {
            let wrap = c.chance(0.5);
            let s = ct::scene(c, &SceneOpts { wrap: Some(wrap), ..Default::default() });
            Ctx { i: s.ix(), w: s.w, cfg: AdvCfg::default(), pairs: vec![s.pair], label: if wrap { "wrap".into() } else { "unwrap".into() } }
        }
        4 => {
            let mut w = World::default();
            let mut p = make_pair(c, &mut w, &PairOpts { no_escrow: true, ..Default::default() });
            w.a.remove(&p.wm);
            w.a.remove(&p.bp);
            let l = c.vm.rent(400);
            w.fund(&p.wm, l);
            w.fund(&p.bp, l);
            p.nested = false;
            Ctx { i: ix::create_mint(p.u, p.wp, c.rng.gen()), w, cfg: AdvCfg::default(), pairs: vec![p], label: "create".into() }
        }
        5 => {
            let mut w = World::default();
            let ma = c.key();
            let u = c.key();
            make_mint(c.vm, &mut w, u, T22, 6, ma, None, &[Ext::CloseAuth(ma)]);
            let p = Pair::of(u, T22, tp(c.rng.gen()));
            synth_wrapped(c.vm, &mut w, &p);
            make_ata(c.vm, &mut w, ma, p.auth, u, T22);
            c.vm.must(&mut w, &ix::close_account(T22, u, ma, ma), "close mint");
            make_mint(c.vm, &mut w, u, T22, 6, ma, None, &[Ext::Fee(1, 1, None)]);
            Ctx { i: ix::close_stuck(p.escrow, ma, u, p.wm, p.auth), w, cfg: AdvCfg::default(), pairs: vec![p], label: "close".into() }
        }
        6 | 7 => {
            let mut w = World::default();
            let wp = tp(c.rng.gen());
            let kind = c.pick(&KINDS);
            let s = make_source(c, &mut w, kind, wp == SPL);
            let p = make_target(c, &mut w, &s, wp);
            let i = if wp == T22 { ix::sync22(p.wm, p.auth, p.u, T22, s.acct, s.owner_prog) } else { ix::syncspl(mpl_pda(&p.wm), p.auth, p.wm, p.u, s.acct, s.owner_prog) };
            if c.chance(0.5) {
                adv::reset(s.cfg());
                c.vm.run(&mut w, &i);
            }
            Ctx { i, w, cfg: s.cfg(), pairs: vec![p], label: format!("sync-{}", tpn(&wp)) }
        }
        _ => {
            let mut w = World::default();
            let p = make_pair(c, &mut w, &PairOpts { nested: Some(false), ..Default::default() });
            let k = pointer(&p.u);
            let l = c.vm.rent(32);
            w.fund(&k, l);
            let ma = p.mint_auth.unwrap();
            if c.chance(0.5) {
                c.vm.run(&mut w, &ix::set_pointer(ma, true, k, p.u, ma));
            }
            let to = c.key();
            Ctx { i: ix::set_pointer(ma, true, k, p.u, to), w, cfg: AdvCfg::default(), pairs: vec![p], label: "pointer".into() }
        }
    }
}
fn derived_state(p: &Pair, k: &Pubkey) -> bool {
    // accounts whose content only the programs themselves can write
    [p.wm, p.bp, p.escrow, p.auth, pointer(&p.u), mpl_pda(&p.wm)].contains(k)
}
pub fn mutate(c: &mut Case, x: &Ctx, w: &mut World, i: &mut Instruction, cfg: &mut AdvCfg, pool: &[Pubkey]) -> String {
    let n = i.accounts.len();
    match c.below(16) {
        0 if n > 0 => {
            let k = c.below(n);
            i.accounts.remove(k);
            format!("-{k}")
        }
        1 => {
            let k = c.below(n + 1);
            let (s, wr) = (c.rng.gen(), c.rng.gen());
            let a = c.pick(pool);
            i.accounts.insert(k, meta(a, s, wr));
            format!("+{k}")
        }
        2 if n > 1 => {
            let (a, b) = (c.below(n), c.below(n));
            i.accounts.swap(a, b);
            format!("x{a},{b}")
        }
        3 | 4 if n > 0 => {
            let k = c.below(n);
            i.accounts[k].pubkey = c.pick(pool);
            format!("r{k}")
        }
        5 | 6 if n > 1 => {
            let (a, b) = (c.below(n), c.below(n));
            let key = i.accounts[a].pubkey;
            i.accounts[b].pubkey = key;
            format!("d{a},{b}")
        }
        7 if n > 0 => {
            let k = c.below(n);
            i.accounts[k].is_signer ^= true;
            format!("s{k}")
        }
        8 if n > 0 => {
            let k = c.below(n);
            i.accounts[k].is_writable ^= true;
            format!("w{k}")
        }
        9 if n > 0 => {
            let k = c.below(n);
            i.accounts.truncate(k);
            format!("t{k}")
        }
        10 => {
            i.data = rand_bytes(c);
            "data".into()
        }
        11 => {
            // the same accounts under another instruction
            let d = rand_bytes(c);
            if decode(&d).is_some() {
                i.data = d;
            }
            "tag".into()
        }
        12 | 13 if n > 0 => {
            let k = c.below(n);
            let key = i.accounts[k].pubkey;
            if c.vm.is_prog(&key) || key == RENT || x.pairs.iter().any(|p| derived_state(p, &key)) {
                return "-".into();
            }
            let mut a = w.get(&key);
            if a.lamports == 0 {
                a.lamports = 1_000_000;
            }
            let m = c.below(7);
            let l = a.data.len();
            match m {
                0 if l > 0 => {
                    for _ in 0..c.rng.gen_range(1..6) {
                        let o = c.below(l);
                        a.data[o] = c.rng.gen();
                    }
                }
                1 if l > 0 => {
                    let t = c.below(l);
                    a.data.truncate(t);
                }
                2 => {
                    let t = c.below(600);
                    a.data = vec![0; t];
                    c.rng.fill_bytes(&mut a.data);
                }
                3 => {
                    let t = c.below(300);
                    a.data.resize(l + t, 0xff);
                }
                4 => {
                    a.owner = c.pick(&[SPL, T22, MPL, SYS, WRAP, METAP, FAKETOK]);
                }
                5 if l > 4 => {
                    // a length or option byte somewhere in the first part
                    let o = c.below(l.min(400));
                    a.data[o] = c.pick(&[0u8, 1, 2, 0xff]);
                }
                _ => a.data.clear(),
            }
            w.put(key, a);
            format!("c{k}:{m}")
        }
        14 => {
            let mut b = cfg.emit.clone().unwrap_or_default();
            match c.below(3) {
                0 => {
                    let t = c.below(1024);
                    b = vec![0; t];
                    c.rng.fill_bytes(&mut b);
                }
                1 if !b.is_empty() => {
                    let o = c.below(b.len());
                    b[o] = c.rng.gen();
                }
                _ => {
                    let t = c.below(b.len() + 1);
                    b.truncate(t);
                }
            }
            cfg.emit = Some(b);
            "emit".into()
        }
        _ => {
            if n > 0 {
                let k = c.below(n);
                let key = i.accounts[k].pubkey;
                if !c.vm.is_prog(&key) && key != RENT {
                    w.a.remove(&key);
                }
                return format!("gone{k}");
            }
            "-".into()
        }
    }
}
pub fn camp_fuzz(c: &mut Case) {
    let x = any_ctx(c);
    c.malformed = true;
    let mut pool: Vec<Pubkey> = x.i.accounts.iter().map(|m| m.pubkey).collect();
    for p in &x.pairs {
        pool.extend([p.u, p.wm, p.auth, p.bp, p.escrow, pointer(&p.u), mpl_pda(&p.wm), mpl_pda(&p.u)]);
    }
    pool.extend([SPL, T22, MPL, SYS, WRAP, RENT, ATA, METAP, FAKETOK, HOOK, c.key()]);
    for _ in 0..24 {
        let (mut w, mut i, mut cfg) = (x.w.clone(), x.i.clone(), x.cfg.clone());
        let mut l = x.label.clone();
        let k = c.rng.gen_range(1..5);
        for _ in 0..k {
            l.push(' ');
            l.push_str(&mutate(c, &x, &mut w, &mut i, &mut cfg, &pool));
        }
        if i.accounts.len() > 60 {
            i.accounts.truncate(60);
        }
        // the token programs never hold a multisig of more than eleven signers
        for a in w.a.values_mut() {
            if (a.owner == SPL || a.owner == T22) && a.data.len() == 355 && a.data[1] > 11 {
                a.data[1] = 11;
            }
        }
        adv::reset(cfg);
        let before = w.clone();
        let o = observed(c, &mut w, &i, &[]);
        if !o.ok && !world_diff(&before, &w).is_empty() {
            c.fail(&["P20"], "refused-but-changed", l.clone());
        }
        c.cov.inc(&format!("outcome {}", match &o.err {
            None => "ok".to_string(),
            Some(E::Custom(n)) => format!("custom {}", if *n < 16 { n.to_string() } else { "other".into() }),
            Some(e) => format!("{e:?}").chars().take(30).collect(),
        }));
        c.eval(&format!("{l} {}", o.err_str()));
    }
    adv::reset(AdvCfg::default());
    c.sample(format!("24 mutations of a valid {}", x.label));
    let _ = Account::default();
}
