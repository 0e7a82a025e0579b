//! Mint creation, escrow closing and canonical pointers.
use crate::adv::{self, AdvCfg};
use crate::camp_token as ct;
use crate::case::*;
use crate::ids::*;
use crate::ix;
use crate::mon::*;
use crate::rt::*;
use crate::scene::*;
use crate::tok::*;
use rand::Rng;
use solana_account::Account;
use solana_instruction::Instruction;
use spl_token_2022_interface::extension::ExtensionType;
use spl_token_2022_interface::state::{Account as TAccount, Mint as TMint};

pub fn wrapped_space(wp: &Pubkey) -> usize {
    if *wp == T22 {
        ExtensionType::try_calculate_account_len::<TMint>(&[ExtensionType::ConfidentialTransferMint, ExtensionType::MetadataPointer]).unwrap()
    } else {
        82
    }
}
fn raw(lamports: u64, data: Vec<u8>, owner: Pubkey) -> Account {
    Account { lamports, data, owner, executable: false, rent_epoch: u64::MAX }
}
/// P08: the content of a freshly created pair.
pub fn judge_created(c: &mut Case, w0: &World, w1: &World, p: &Pair, what: &str) {
    c.cov.inc("created_pairs_compared");
    let um = w0.mint(&p.u).unwrap();
    let a = w1.get(&p.wm);
    let mut bad = vec![];
    if a.owner != p.wp {
        bad.push(format!("owner {}", nick(&a.owner)));
    }
    if a.data.len() != wrapped_space(&p.wp) {
        bad.push(format!("{} bytes instead of {}", a.data.len(), wrapped_space(&p.wp)));
    }
    match parse_mint(&a) {
        None => bad.push("not an initialized mint".into()),
        Some(m) => {
            if m.supply != 0 {
                bad.push(format!("supply {}", m.supply));
            }
            if m.decimals != um.decimals {
                bad.push(format!("decimals {} instead of {}", m.decimals, um.decimals));
            }
            if m.freeze != um.freeze {
                bad.push(format!("freeze authority {:?} instead of {:?}", m.freeze, um.freeze));
            }
            if m.auth != Some(p.auth) {
                bad.push(format!("mint authority {:?} instead of {}", m.auth, p.auth));
            }
            let mut exp: Tlv = vec![];
            if p.wp == T22 {
                let mut d = vec![0u8; 65];
                d[32] = 1;
                exp.push((ExtensionType::ConfidentialTransferMint as u16, d));
                exp.push((ExtensionType::MetadataPointer as u16, [p.auth.to_bytes(), p.wm.to_bytes()].concat()));
            }
            let mut got = m.ext.clone();
            got.sort();
            exp.sort();
            if got != exp {
                bad.push(format!("extensions {:?} instead of {:?}", got, exp));
            }
        }
    }
    let b = w1.get(&p.bp);
    if b.owner != WRAP || b.data != p.u.to_bytes() {
        bad.push(format!("backpointer owned by {} with {:?}", nick(&b.owner), b.data));
    }
    for m in bad {
        c.fail(&["P08"], "created-mint", format!("{what}: {m}"));
    }
    for k in world_diff(w0, w1) {
        if k != p.wm && k != p.bp {
            c.fail(&["P08", "P09"], "create-touches-other", format!("{what}: {k} changed"));
        }
    }
}
fn genuine(w: &World, k: &Pubkey) -> bool {
    let a = w.get(k);
    (a.owner == SPL || a.owner == T22) && parse_mint(&a).is_some()
}
pub fn camp_create(c: &mut Case) {
    let mut w = World::default();
    let up = tp(c.rng.gen());
    let wp = tp(c.rng.gen());
    let stacked = c.chance(0.12);
    let mut label = format!("{}->{}", tpn(&up), tpn(&wp));
    let base = make_pair(c, &mut w, &PairOpts { up: Some(up), wp: Some(if stacked { up } else { wp }), nested: Some(false), no_escrow: true, ..Default::default() });
    let other = make_pair(c, &mut w, &PairOpts { nested: Some(false), no_escrow: true, ..Default::default() });
    let mut p = if stacked {
        label += " stacked";
        Pair::of(base.wm, up, wp)
    } else {
        Pair::of(base.u, up, wp)
    };
    // the pair itself does not exist yet
    w.a.remove(&p.wm);
    w.a.remove(&p.bp);
    let exists_before = c.chance(0.25);
    // a mint with supply, a mint without authorities, a mint whose decimals are odd
    let holder = c.key();
    if !stacked && c.chance(0.4) {
        let k = make_ata(c.vm, &mut w, holder, holder, p.u, p.up);
        let n = c.rng.gen_range(1..u64::MAX);
        mint_tokens(c.vm, &mut w, p.up, p.u, k, n);
        label += " supplied";
    }
    if !stacked && c.chance(0.25) {
        let ma = base.mint_auth.unwrap();
        c.vm.must(&mut w, &ix::set_authority(p.up, p.u, ma, 0, None), "drop mint authority");
        label += " no-mint-authority";
    }
    if !stacked && base.freeze.is_some() && c.chance(0.25) {
        let f = base.freeze.unwrap();
        let to = match c.below(5) {
            0 | 1 => Some(c.key()),
            // an authority no one can sign for is still an authority
            2 => Some(Pubkey::default()),
            _ => None,
        };
        c.vm.must(&mut w, &ix::set_authority(p.up, p.u, f, 1, to), "change freeze authority");
        label += " freeze-changed";
    }
    p.exts = base.exts.clone();
    // look-alikes of the unwrapped mint
    let attacker = c.key();
    w.fund(&attacker, 1_000_000_000);
    let ud = w.data(&p.u).to_vec();
    let looks: Vec<(&str, Pubkey)> = {
        let mut v = vec![];
        let mut add = |n: &'static str, k: Pubkey, a: Account, w: &mut World| {
            w.put(k, a);
            v.push((n, k));
        };
        let k: Vec<Pubkey> = (0..9).map(|_| c.key()).collect();
        add("system-owned copy", k[0], raw(10_000_000, ud.clone(), SYS), &mut w);
        add("copy of a fake token program", k[1], raw(10_000_000, ud.clone(), FAKETOK), &mut w);
        add("copy owned by token-wrap", k[2], raw(10_000_000, ud.clone(), WRAP), &mut w);
        add("uninitialized spl mint", k[3], raw(10_000_000, vec![0; 82], SPL), &mut w);
        add("uninitialized t22 mint", k[4], raw(10_000_000, vec![0; 234], T22), &mut w);
        add("empty account", k[5], raw(10_000_000, vec![], SYS), &mut w);
        make_multisig(c.vm, &mut w, k[6], p.up, 1, &[attacker]);
        v.push(("multisig", k[6]));
        let t = make_ata(c.vm, &mut w, attacker, attacker, p.u, p.up);
        v.push(("token account", t));
        v.push(("wrong program", p.up));
        v.push(("authority", p.auth));
        v
    };
    // ---- the accounts presented
    let mut wm = p.wm;
    let mut bp = p.bp;
    let mut u = p.u;
    let mut wpk = p.wp;
    let mut sys = SYS;
    let mut fault = String::new();
    if c.chance(0.5) {
        match c.below(10) {
            0 => {
                let (n, k) = c.pick(&looks);
                u = k;
                fault = format!("unwrapped mint is a {n}");
                // coherent attempt: everything derived for the look-alike
                if c.chance(0.8) {
                    wm = wrapped_mint(&u, &wpk);
                    bp = backpointer(&wm);
                    fault += ", derived";
                }
            }
            1 => {
                wm = c.pick(&[other.wm, wrapped_mint(&p.u, &if wpk == SPL { T22 } else { SPL }), attacker, p.u, p.auth, p.bp]);
                if c.chance(0.5) {
                    bp = backpointer(&wm);
                }
                fault = "another wrapped mint".into();
            }
            2 => {
                bp = c.pick(&[other.bp, attacker, p.u, p.wm, p.auth, pointer(&p.u), backpointer(&p.u)]);
                fault = "another backpointer".into();
            }
            3 => {
                wpk = c.pick(&[FAKETOK, SYS, WRAP, MPL, if p.wp == SPL { T22 } else { SPL }, attacker]);
                fault = "another token program".into();
                if c.chance(0.8) {
                    wm = wrapped_mint(&u, &wpk);
                    bp = backpointer(&wm);
                    fault += ", derived";
                }
            }
            4 => {
                u = other.u;
                fault = "another unwrapped mint".into();
                if c.chance(0.3) {
                    wm = wrapped_mint(&u, &wpk);
                    bp = backpointer(&wm);
                }
            }
            5 => {
                sys = c.pick(&[WRAP, SPL, attacker]);
                fault = "another system program".into();
            }
            _ => {}
        }
    }
    // ---- funding
    let need_m = c.vm.rent(wrapped_space(&wpk));
    let need_b = c.vm.rent(32);
    let fund = |c: &mut Case, need: u64| match c.below(8) {
        0 => 0,
        1 => need - 1,
        2 => need / 2,
        3 => need + c.rng.gen_range(1..1_000_000),
        _ => need,
    };
    let (mut fm, mut fb) = (fund(c, need_m), fund(c, need_b));
    if c.chance(0.1) {
        // the same, ample amount for both
        fm = need_m.max(need_b) + c.pick(&[0, 1_000_000, 5_000_000_000]);
        fb = fm;
        c.cov.inc("both_funded_alike");
    }
    let target = Pair::of(u, w.get(&u).owner, wpk);
    let exists_already = w.mint(&target.wm).is_some() && target.wm == wm;
    if !exists_already && w.get(&wm).data.is_empty() && fm > 0 {
        w.fund(&wm, fm);
    }
    if !exists_already && w.get(&bp).data.is_empty() && fb > 0 && wm != bp {
        w.fund(&bp, fb);
    }
    if exists_before && fault.is_empty() {
        // an earlier creation, then possibly ordinary activity
        w.a.remove(&p.wm);
        w.a.remove(&p.bp);
        if !funded_create(c.vm, &mut w, &p).ok {
            return;
        }
        if c.chance(0.5) {
            if let Some(f) = w.mint(&p.wm).and_then(|m| m.freeze) {
                let to = c.key();
                c.vm.run(&mut w, &ix::set_authority(p.wp, p.wm, f, 1, Some(to)));
            }
        }
        if c.chance(0.5) {
            let k = make_ata(c.vm, &mut w, attacker, attacker, p.wm, p.wp);
            let e = make_ata(c.vm, &mut w, attacker, p.auth, p.u, p.up);
            let _ = e;
            mint_tokens(c.vm, &mut w, p.wp, p.wm, k, 77);
        }
        if c.chance(0.15) {
            // the unwrapped mint is gone since
            let a = w.get(&p.u);
            match c.below(3) {
                0 => {
                    w.a.remove(&p.u);
                }
                1 => w.put(p.u, raw(a.lamports, a.data, FAKETOK)),
                _ => w.put(p.u, raw(a.lamports, vec![], SYS)),
            }
            fault = "the unwrapped mint is gone".into();
            c.cov.inc("repeat_without_mint");
        }
    }
    let idem = c.chance(0.5);
    let mut i = ix::create_mint_raw(WRAP, wm, bp, u, wpk, idem);
    i.accounts[3].pubkey = sys;
    if c.chance(0.1) {
        i.accounts.push(meta(attacker, true, true));
    }
    let exists = wm == target.wm && w.mint(&wm).is_some() && w.get(&wm).owner == wpk && w.get(&bp).owner == WRAP;
    let addrs = wm == target.wm && bp == target.bp;
    let fundm = w.lamports(&wm) >= need_m;
    let fundb = w.lamports(&bp) >= need_b;
    let good = addrs && genuine(&w, &u) && (wpk == SPL || wpk == T22);
    let before = w.clone();
    adv::reset(AdvCfg::default());
    let out = observed(c, &mut w, &i, &[p.clone(), other.clone()]);
    let what = format!("create {label} {fault} idempotent={idem} exists={exists} funded={fundm}/{fundb}");
    if out.ok {
        if !good {
            c.fail(&["P09", "P05"], "creation-accepted", format!("{what}: accepted; {}", desc_ix(&i)));
        } else if exists {
            c.cov.inc("repeat_accepted");
            if !idem {
                c.fail(&["P09"], "repeat-accepted", format!("{what}: a second creation succeeded"));
            }
            if !world_diff(&before, &w).is_empty() {
                c.fail(&["P09"], "repeat-changed", format!("{what}: an idempotent repeat changed {:?}", world_diff(&before, &w)));
            }
        } else {
            if !fundm || !fundb {
                c.fail(&["P09", "P22"], "underfunded-accepted", format!("{what}: accepted without rent"));
            }
            judge_created(c, &before, &w, &target, &what);
        }
    } else {
        c.cov.inc(if fault.is_empty() { "refused_plain" } else { "refused_fault" });
        if good && sys == SYS && (exists && idem || !exists && fundm && fundb) {
            c.fail(&["P09", "P08"], "creation-refused", format!("{what}: refused with {}; {:?}", out.err_str(), out.logs.iter().rev().take(4).collect::<Vec<_>>()));
        }
        if good && exists && !idem {
            c.cov.inc("repeat_refused");
        }
        if good && !exists && !(fundm && fundb) {
            c.cov.inc("underfunded_refused");
        }
        if !good {
            c.cov.inc("not_genuine_refused");
        }
    }
    c.eval(&format!("{what} {} ext{:?} dec{:?} fz{}", out.ok, p.exts.iter().map(|e| e.ty()).collect::<Vec<_>>(), before.mint(&u).map(|m| m.decimals), before.mint(&u).map(|m| m.freeze.is_some()).unwrap_or(false)));
    c.sample(format!("{what} -> {}", out.err_str()));
    // right after creation: repeats, then use
    if out.ok && !exists && good {
        for (idem, want) in [(true, true), (false, false)] {
            let b = w.clone();
            let o = observed(c, &mut w, &ix::create_mint(u, wpk, idem), &[p.clone()]);
            c.eval(&format!("repeat {label} idem={idem} {}", o.ok));
            if o.ok != want {
                c.fail(&["P09"], if want { "repeat-refused" } else { "repeat-accepted" }, format!("{what}: repeat with idempotent={idem} gave {}", o.err_str()));
            } else if o.ok {
                c.cov.inc("repeat_accepted");
            } else {
                c.cov.inc("repeat_refused");
            }
            if !world_diff(&b, &w).is_empty() {
                c.fail(&["P09"], "repeat-changed", format!("{what}: repeat with idempotent={idem} changed accounts"));
            }
        }
    }
}

// ------------------------------------------------------------------ stuck escrow
/// The account extensions a mint requires of its associated token accounts.
fn required(m: &MintSt) -> Vec<ExtensionType> {
    let t: Vec<ExtensionType> = m.ext.iter().filter_map(|e| ExtensionType::try_from(e.0).ok()).collect();
    let mut r = ExtensionType::get_required_init_account_extensions(&t);
    if !r.contains(&ExtensionType::ImmutableOwner) {
        r.push(ExtensionType::ImmutableOwner);
    }
    r
}
/// None = closing is due; otherwise why not.
fn closable(w: &World, escrow: &Pubkey, u: &Pubkey, wm: &Pubkey, auth: &Pubkey) -> Option<&'static str> {
    let ua = w.get(u);
    let ea = w.get(escrow);
    if ua.owner != T22 {
        return Some("not a token-2022 mint");
    }
    let Some(m) = parse_mint(&ua) else { return Some("not a mint") };
    let wo = w.get(wm).owner;
    if *wm != wrapped_mint(u, &wo) {
        return Some("wrapped mint is not derived");
    }
    if *auth != authority(wm) {
        return Some("authority is not derived");
    }
    if *escrow != ata(auth, u, &T22) {
        return Some("escrow is not derived");
    }
    if ea.owner != T22 {
        return Some("no escrow");
    }
    let Some(t) = parse_tok(&ea) else { return Some("escrow is not a token account") };
    if t.owner != *auth {
        return Some("escrow has another owner");
    }
    if t.amount != 0 {
        return Some("escrow holds tokens");
    }
    if t.state != 1 {
        return Some("escrow is frozen");
    }
    let mut have: Vec<u16> = t.ext.iter().map(|e| e.0).collect();
    let mut want: Vec<u16> = required(&m).into_iter().map(|e| e as u16).collect();
    have.sort();
    want.sort();
    if have == want {
        return Some("escrow fits its mint");
    }
    None
}
fn close_exts(c: &mut Case, a: Pubkey) -> Vec<Ext> {
    let mut v = vec![Ext::CloseAuth(a)];
    if c.chance(0.4) {
        v.push(Ext::Fee(c.pick(&[1u16, 100]), 1000, None));
    }
    if c.chance(0.3) {
        v.push(Ext::Hook(HOOK));
    }
    if c.chance(0.3) {
        v.push(Ext::Pausable(a));
    }
    if c.chance(0.15) {
        v.push(Ext::NonTransferable);
        v.retain(|e| !matches!(e, Ext::Pausable(_)));
    }
    if c.chance(0.15) {
        v.push(Ext::Interest(3));
    }
    if c.chance(0.12) {
        v.push(Ext::Confidential);
        if v.iter().any(|e| matches!(e, Ext::Fee(..))) {
            v.push(Ext::ConfidentialFee);
        }
    }
    if c.chance(0.1) {
        v.push(Ext::DefaultFrozen);
    }
    if c.chance(0.1) {
        v.push(Ext::MetaPtr(Some(a), None));
    }
    if c.chance(0.1) {
        v.push(Ext::PermDelegate(a));
    }
    v
}
/// A mint that was (usually) closed and re-created with other extensions after its
/// escrow was made.
pub fn stuck_scene(c: &mut Case, w: &mut World) -> Pair {
    let ma = c.key();
    let wp = tp(c.rng.gen());
    let e1 = close_exts(c, ma);
    let fz = |c: &mut Case, e: &[Ext]| if e.contains(&Ext::DefaultFrozen) || c.chance(0.3) { Some(c.key()) } else { None };
    let fz1 = fz(c, &e1);
    let u = c.key();
    make_mint(c.vm, w, u, T22, 6, ma, fz1, &e1);
    let mut p = Pair::of(u, T22, wp);
    p.mint_auth = Some(ma);
    synth_wrapped(c.vm, w, &p);
    let payer = c.key();
    make_ata(c.vm, w, payer, p.auth, u, T22);
    if let (Some(f), Some(2)) = (fz1, w.tok(&p.escrow).map(|t| t.state)) {
        if c.chance(0.8) {
            c.vm.must(w, &ix::freeze(T22, p.escrow, u, f, true), "thaw");
        }
    }
    p.exts = e1.clone();
    if c.chance(0.9) {
        c.vm.must(w, &ix::close_account(T22, u, ma, ma), "close mint");
        let e2 = if c.chance(0.1) { e1.clone() } else { close_exts(c, ma) };
        let fz2 = fz(c, &e2);
        let np = if c.chance(0.06) { SPL } else { T22 };
        make_mint(c.vm, w, u, np, 6, ma, fz2, if np == SPL { &[] } else { &e2 });
        p.up = np;
        p.exts = e2;
    }
    p.up = T22;
    if c.chance(0.12) && w.get(&u).owner == T22 {
        c.vm.run(w, &ix::mint_to(T22, u, p.escrow, ma, 5));
    }
    p
}
pub fn camp_close(c: &mut Case) {
    let mut w = World::default();
    let ma = c.key();
    let wp = tp(c.rng.gen());
    let e1 = close_exts(c, ma);
    let fz1 = if e1.contains(&Ext::DefaultFrozen) || c.chance(0.3) { Some(c.key()) } else { None };
    let u = c.key();
    make_mint(c.vm, &mut w, u, T22, 6, ma, fz1, &e1);
    let mut p = Pair::of(u, T22, wp);
    p.mint_auth = Some(ma);
    // both wrapped mints of this mint exist in some cases, each with its own escrow
    if c.chance(0.5) {
        synth_wrapped(c.vm, &mut w, &p);
    } else {
        funded_create(c.vm, &mut w, &p);
    }
    let p2 = Pair::of(u, T22, if wp == SPL { T22 } else { SPL });
    let both = c.chance(0.4);
    let payer = c.key();
    make_ata(c.vm, &mut w, payer, p.auth, u, T22);
    if both {
        synth_wrapped(c.vm, &mut w, &p2);
        make_ata(c.vm, &mut w, payer, p2.auth, u, T22);
    }
    let other_owner = c.key();
    let other_acc = make_ata(c.vm, &mut w, payer, other_owner, u, T22);
    if fz1.is_some() && w.tok(&p.escrow).map(|t| t.state) == Some(2) && c.chance(0.6) {
        c.vm.must(&mut w, &ix::freeze(T22, p.escrow, u, fz1.unwrap(), true), "thaw");
    } else if let Some(f) = fz1 {
        if c.chance(0.15) {
            c.vm.run(&mut w, &ix::freeze(T22, p.escrow, u, f, false));
        }
    }
    // the mint is closed and re-created, usually with other extensions
    let mut label = format!("wp={} both={both} e1={:?}", tpn(&wp), e1.iter().map(|e| e.ty()).collect::<Vec<_>>());
    let mut e2 = e1.clone();
    if c.chance(0.85) {
        let o = c.vm.run(&mut w, &ix::close_account(T22, u, ma, ma));
        if !o.ok {
            panic!("mint not closed: {}", o.err_str());
        }
        if c.chance(0.9) {
            e2 = if c.chance(0.15) { e1.clone() } else { close_exts(c, ma) };
            let fz2 = if e2.contains(&Ext::DefaultFrozen) || c.chance(0.3) { Some(c.key()) } else { None };
            let np = if c.chance(0.1) { SPL } else { T22 };
            let dec = c.pick(&[6u8, 9]);
            make_mint(c.vm, &mut w, u, np, dec, ma, fz2, if np == SPL { &[] } else { &e2 });
            if let Some(Ext::Hook(h)) = e2.iter().find(|x| matches!(x, Ext::Hook(_))) {
                install_hook_state(c.vm, &mut w, h, &u);
            }
            label += &format!(" e2={}{:?}", tpn(&np), e2.iter().map(|e| e.ty()).collect::<Vec<_>>());
            p.freeze = fz2;
        } else {
            label += " (gone)";
        }
    }
    p.exts = e2;
    // tokens may arrive in a stuck escrow by minting
    if c.chance(0.2) && w.mint(&u).is_some() && w.get(&u).owner == T22 {
        let n = c.pick(&[1u64, 1000, u64::MAX]);
        c.vm.run(&mut w, &ix::mint_to(T22, u, p.escrow, ma, n));
        label += " funded";
    }
    if c.chance(0.3) {
        let l = c.rng.gen_range(1..1_000_000_000);
        w.fund(&p.escrow, l);
    }
    // states a real escrow should never be in, written directly
    if c.chance(0.08) {
        let mut e = w.get(&p.escrow);
        if e.data.len() >= 165 {
            match c.below(3) {
                0 => {
                    // another owner, but closable by the authority
                    e.data[32..64].copy_from_slice(other_owner.as_ref());
                    e.data[129..133].copy_from_slice(&[1, 0, 0, 0]);
                    e.data[133..165].copy_from_slice(p.auth.as_ref());
                    label += " odd-owner";
                }
                1 => {
                    e.data[108] = 2;
                    label += " odd-frozen";
                }
                _ => {
                    e.data[108] = 0;
                    label += " odd-uninit";
                }
            }
            w.put(p.escrow, e);
        }
    }
    let dest = match c.below(4) {
        0 => payer,
        1 => {
            let k = c.key();
            w.fund(&k, 1);
            k
        }
        2 => p.wm,
        _ => c.key(),
    };
    let pool: Vec<Pubkey> = vec![p.escrow, p2.escrow, other_acc, p.u, p.wm, p2.wm, p.auth, p2.auth, p.bp, other_owner, payer, T22, SPL, SYS, c.key()];
    let mut list = vec![("plain".to_string(), ix::close_stuck(p.escrow, dest, p.u, p.wm, p.auth))];
    list.push(("second pair".into(), ix::close_stuck(p2.escrow, dest, p.u, p2.wm, p2.auth)));
    list.push(("second pair's authority".into(), ix::close_stuck(p.escrow, dest, p.u, p2.wm, p2.auth)));
    list.push(("another owner's account".into(), ix::close_stuck(other_acc, dest, p.u, p.wm, p.auth)));
    if w.mint(&p.u).is_some() && w.get(&p.u).owner == SPL {
        // the escrow under the mint's present program, empty and in good state
        let e = make_ata(c.vm, &mut w, payer, p.auth, p.u, SPL);
        list.push(("escrow of the spl-token mint".into(), ix::close_stuck(e, dest, p.u, p.wm, p.auth)));
        let mut i = ix::close_stuck(e, dest, p.u, p.wm, p.auth);
        i.accounts[5].pubkey = SPL;
        list.push(("escrow of the spl-token mint and that program".into(), i));
    }
    list.push(("destination is the escrow".into(), ix::close_stuck(p.escrow, p.escrow, p.u, p.wm, p.auth)));
    for (n, k) in [("unwrapped mint", p.u), ("wrapped mint", p.wm), ("authority", p.auth), ("backpointer", p.bp), ("other pair's escrow", p2.escrow), ("other token account", other_acc)] {
        if c.chance(0.4) {
            list.push((format!("destination is the {n}"), ix::close_stuck(p.escrow, k, p.u, p.wm, p.auth)));
            c.cov.inc(&format!("destination {n}"));
        }
    }
    for r in [0usize, 2, 3, 4] {
        for k in &pool {
            if c.chance(0.5) {
                let mut i = ix::close_stuck(p.escrow, dest, p.u, p.wm, p.auth);
                i.accounts[r].pubkey = *k;
                list.push((format!("account {r} replaced"), i));
            }
        }
    }
    let pairs = [p.clone(), p2.clone()];
    let mut recovered = None;
    for (n, i) in list {
        let a: Vec<Pubkey> = i.accounts.iter().map(|m| m.pubkey).collect();
        let why = closable(&w, &a[0], &a[2], &a[3], &a[4]);
        let mut w1 = w.clone();
        let out = observed(c, &mut w1, &i, &pairs);
        let self_dest = a[0] == a[1];
        if out.ok {
            c.cov.inc("closed");
            if let Some(y) = why {
                c.fail(&["P11"], "closed-wrongly", format!("{label} {n}: closed although {y}; {}", desc_ix(&i)));
            }
            let gone = w1.get(&a[0]);
            let dl = w1.lamports(&a[1]) as i128 - w.lamports(&a[1]) as i128;
            if gone.lamports != 0 || dl != w.lamports(&a[0]) as i128 {
                c.fail(&["P12", "P22", "P11"], "close-lamports", format!("{label} {n}: destination gained {dl} of {}", w.lamports(&a[0])));
            }
            for k in world_diff(&w, &w1) {
                if k != a[0] && k != a[1] {
                    c.fail(&["P11"], "close-touches-other", format!("{label} {n}: {k} changed"));
                }
            }
            if n == "plain" {
                recovered = Some(w1);
            }
        } else {
            match why {
                None if !self_dest => c.fail(&["P12"], "close-refused", format!("{label} {n}: refused with {} although the escrow is stuck; {:?}", out.err_str(), out.logs.iter().rev().take(4).collect::<Vec<_>>())),
                Some(y) => c.cov.inc(&format!("refused: {y}")),
                _ => {}
            }
        }
        c.eval(&format!("{label} {n} {:?} {}", why, out.ok));
    }
    c.sample(label.clone());
    // after recovery the escrow is created anew and works
    let Some(mut w) = recovered else { return };
    let o = c.vm.run(&mut w, &ix::create_ata(payer, p.auth, p.u, T22, false));
    if !o.ok {
        c.fail(&["P12"], "not-recreated", format!("{label}: the closed escrow cannot be created again: {}", o.err_str()));
        return;
    }
    if let (Some(2), Some(f)) = (w.tok(&p.escrow).map(|t| t.state), p.freeze) {
        c.vm.must(&mut w, &ix::freeze(T22, p.escrow, p.u, f, true), "thaw new escrow");
    }
    if let Some(y) = closable(&w, &p.escrow, &p.u, &p.wm, &p.auth) {
        if y != "escrow fits its mint" {
            c.fail(&["P12"], "not-healthy", format!("{label}: the new escrow: {y}"));
        }
    } else {
        c.fail(&["P12"], "not-healthy", format!("{label}: the new escrow does not fit its mint"));
    }
    let again = observed(c, &mut w.clone(), &ix::close_stuck(p.escrow, dest, p.u, p.wm, p.auth), &pairs);
    if again.ok {
        c.fail(&["P11"], "healthy-closed", format!("{label}: a healthy escrow was closed"));
    }
    let n = 1000;
    let user = c.key();
    let src = make_ata(c.vm, &mut w, user, user, p.u, T22);
    let dst = make_ata(c.vm, &mut w, user, user, p.wm, p.wp);
    for (k, m, pr) in [(src, p.u, T22), (dst, p.wm, p.wp)] {
        if let (Some(2), Some(f)) = (w.tok(&k).map(|t| t.state), w.mint(&m).and_then(|x| x.freeze)) {
            c.vm.must(&mut w, &ix::freeze(pr, k, m, f, true), "thaw user");
        }
    }
    mint_tokens(c.vm, &mut w, T22, p.u, src, n);
    let h = Holder { acct: src, owner: user, ta: user, ta_signer: true, signers: vec![], label: "owner".into(), guard: false, guard_blocks: false, delegated: None };
    for is_wrap in [true, false] {
        let (s, r) = if is_wrap { (src, dst) } else { (dst, src) };
        let bal = w.bal(&s);
        if bal == 0 {
            return;
        }
        let mut a = ix::WrapArgs { recipient: r, wrapped_mint: p.wm, authority: p.auth, up: T22, wp: p.wp, source: s, unwrapped_mint: p.u, escrow: p.escrow, ta: user, ta_signer: true, extras: vec![], amount: bal };
        ct::Scene::refresh_extras(&p, &h, is_wrap, &mut a);
        let sc = ct::Scene { w: w.clone(), pair: p.clone(), a: a.clone(), label: label.clone(), guard_blocks: false, holder: h.clone(), is_wrap, clean: true };
        let m = sc.model(c, &a);
        let out = ct::judge(c, &sc, &a, &format!("{label} after recovery"), false);
        if out.ok {
            c.cov.inc(if is_wrap { "wrapped_after_recovery" } else { "unwrapped_after_recovery" });
            commit(&mut w, &out.post);
        } else {
            if m.is_ok() {
                c.fail(&["P12"], "unusable-after-recovery", format!("{label}: {} fails after recovery: {}", if is_wrap { "wrap" } else { "unwrap" }, out.err_str()));
            }
            return;
        }
    }
}

// ------------------------------------------------------------------ canonical pointer
/// Addresses held in a mint's extensions.
fn ext_keys(data: &[u8]) -> std::collections::BTreeSet<Pubkey> {
    let mut out = std::collections::BTreeSet::new();
    let mut o = 166;
    while o + 4 <= data.len() {
        let (t, l) = (u16::from_le_bytes([data[o], data[o + 1]]), u16::from_le_bytes([data[o + 2], data[o + 3]]) as usize);
        let v = data.get(o + 4..o + 4 + l).unwrap_or(&[]);
        if t == 0 {
            break;
        }
        out.extend(v.chunks_exact(32).take(3).filter(|k| k.iter().any(|b| *b != 0)).map(|k| Pubkey::try_from(k).unwrap()));
        o += 4 + l;
    }
    out
}
pub fn camp_pointer(c: &mut Case) {
    let mut w = World::default();
    let up = tp(c.rng.gen());
    let (u, ma, other) = (c.key(), c.key(), c.key());
    let fz = if c.chance(0.7) { Some(c.key()) } else { None };
    let e = if up == T22 { rand_exts(c, u, true).into_iter().filter(|e| !matches!(e, Ext::DefaultInit | Ext::DefaultFrozen)).collect() } else { vec![] };
    make_mint(c.vm, &mut w, u, up, 6, ma, fz, &e);
    let (v, va) = (c.key(), c.key());
    let vp = tp(c.rng.gen());
    make_mint(c.vm, &mut w, v, vp, 6, va, None, &[]);
    w.fund(&other, 1_000_000);
    // a mint authority that is a multisig cannot sign a transaction
    let ms = c.key();
    make_multisig(c.vm, &mut w, ms, up, 1, &[ma]);
    let (ptr, vptr) = (pointer(&u), pointer(&v));
    let need = c.vm.rent(32);
    let mut label = format!("{} ", tpn(&up));
    // the other mint has a pointer of its own
    w.fund(&vptr, need);
    c.vm.must(&mut w, &ix::set_pointer(va, true, vptr, v, other), "other pointer");
    let fund = c.pick(&[0u64, need - 1, need, need, need, need + 12345]);
    if fund > 0 {
        w.fund(&ptr, fund);
    }
    label += &format!("fund{} ", (fund >= need) as u8);
    let old = ma;
    let mut cur = Some(ma);
    for round in 0..3 {
        // authority handed on, dropped or kept
        match c.below(6) {
            0 => {
                let n = c.pick(&[other, ms, other]);
                if cur.is_some() && c.vm.run(&mut w, &ix::set_authority(up, u, cur.unwrap(), 0, Some(n))).ok {
                    cur = Some(n);
                    label += if n == ms { "->ms " } else { "->other " };
                }
            }
            1 if round > 0 => {
                if let Some(a) = cur {
                    if c.vm.run(&mut w, &ix::set_authority(up, u, a, 0, None)).ok {
                        cur = None;
                        label += "->none ";
                    }
                }
            }
            _ => {}
        }
        // look-alikes with the attacker as authority
        let ud = w.data(&u).to_vec();
        let mut forged = ud.clone();
        forged[0..4].copy_from_slice(&[1, 0, 0, 0]);
        forged[4..36].copy_from_slice(other.as_ref());
        let look: Vec<(&str, Pubkey)> = {
            let k: Vec<Pubkey> = (0..4).map(|_| c.key()).collect();
            w.put(k[0], raw(10_000_000, forged.clone(), SYS));
            w.put(k[1], raw(10_000_000, forged.clone(), FAKETOK));
            w.put(k[2], raw(10_000_000, forged.clone(), WRAP));
            let mut un = forged.clone();
            un[45] = 0;
            w.put(k[3], raw(10_000_000, un, up));
            vec![("system copy", k[0]), ("fake copy", k[1]), ("token-wrap copy", k[2]), ("uninitialized mint", k[3])]
        };
        // clearing the pointer is a value like any other
        let to = if c.chance(0.25) { c.pick(&[Pubkey::default(), WRAP, u, ptr]) } else { c.key() };
        let a0 = cur.unwrap_or(old);
        let mut list: Vec<(String, Instruction)> = vec![];
        let mut add = |n: &str, a: Pubkey, s: bool, p: Pubkey, m: Pubkey| list.push((n.to_string(), ix::set_pointer(a, s, p, m, to)));
        add("authority", a0, true, ptr, u);
        add("authority unsigned", a0, false, ptr, u);
        add("former authority", old, true, ptr, u);
        add("stranger", other, true, ptr, u);
        if let Some(f) = fz {
            add("freeze authority", f, true, ptr, u);
        }
        // whoever else has a say over the mint through its extensions
        for k in ext_keys(&ud) {
            add("an extension's authority", k, true, ptr, u);
        }
        add("mint itself", u, true, ptr, u);
        add("zero key", Pubkey::default(), true, ptr, u);
        add("multisig member", ma, true, ptr, u);
        add("multisig address", ms, false, ptr, u);
        add("other mint's authority", va, true, ptr, u);
        add("other mint's pointer", a0, true, vptr, u);
        add("other mint's authority and mint, this pointer", va, true, ptr, v);
        add("other mint's pointer by stranger", other, true, vptr, v);
        add("backpointer as pointer", a0, true, backpointer(&u), u);
        add("plain account as pointer", a0, true, other, u);
        for (n, k) in &look {
            add(&format!("{n}, its own pointer"), other, true, pointer(k), *k);
            add(&format!("{n}, victim's pointer"), other, true, ptr, *k);
        }
        for (_, k) in &look {
            if c.chance(0.5) {
                w.fund(&pointer(k), need);
            }
        }
        let ext = c.chance(0.3);
        let bystander = c.key();
        for (n, mut i) in list {
            if ext {
                i.accounts.push(meta(bystander, true, true));
            }
            let (a, s, p, m) = (i.accounts[0].pubkey, i.accounts[0].is_signer, i.accounts[1].pubkey, i.accounts[2].pubkey);
            let gen = genuine(&w, &m);
            let right = s && gen && w.mint(&m).unwrap().auth == Some(a) && p == pointer(&m) && (w.get(&p).owner == WRAP || w.lamports(&p) >= need);
            let mut w1 = w.clone();
            let out = observed(c, &mut w1, &i, &[]);
            let what = format!("{label}{n} round {round}");
            if out.ok {
                c.cov.inc("pointer_set");
                if !right {
                    c.fail(&["P17"], "pointer-accepted", format!("{what}: accepted; {}", desc_ix(&i)));
                }
                let x = w1.get(&p);
                if x.owner != WRAP || x.data != to.to_bytes() {
                    c.fail(&["P17", "P18"], "pointer-content", format!("{what}: pointer is {} {:?}, expected {to}", nick(&x.owner), x.data));
                }
                for k in world_diff(&w, &w1) {
                    if k != p {
                        c.fail(&["P17"], "pointer-touches-other", format!("{what}: {k} changed"));
                    }
                }
                if w.lamports(&p) != w1.lamports(&p) {
                    c.fail(&["P17", "P22"], "pointer-lamports", what.clone());
                }
                if w.get(&p).owner == WRAP {
                    c.cov.inc("pointer_updated");
                }
                if n == "authority" {
                    w = w1;
                }
            } else {
                c.cov.inc("pointer_refused");
                if right {
                    c.fail(&["P17"], "pointer-refused", format!("{what}: the mint authority was refused with {}", out.err_str()));
                }
            }
            c.eval(&format!("{what} {} {}", out.ok, right));
        }
    }
    c.sample(label);
    let _ = TAccount::default();
}
