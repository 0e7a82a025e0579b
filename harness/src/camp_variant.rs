//! Programs built around the bundled mint configurations.
use crate::adv;
use crate::camp_token::{self as ct, SceneOpts};
use crate::case::*;
use crate::ids::*;
use crate::ix;
use crate::rt::*;
use crate::scene::*;
use crate::tok::*;
use rand::Rng;
use solana_instruction::Instruction;
use solana_pubkey::pubkey;
use spl_token_2022_interface::extension::{self as ext, ExtensionType as E};

const DELEGATE: Pubkey = pubkey!("deLpBmD7UP27BHTuhnxR7mBE9rEV6mWUnwWsXMXTFwR");
const CONF: Pubkey = pubkey!("con2YXp7bKscyhzJzbSQgwz6RFcXqe6otUGK5Rr8saK");
const AUDITOR: &str = "yonKhqkoXNvMbN/tU6fjHFhfZuNPpvMj8L55aP2bBG4=";
const FREEZE: Pubkey = pubkey!("freTRAXwCVELv5k7V6UobnCiG1hmhnj79AezxRwAR3h");
const PAUSE: Pubkey = pubkey!("pauySfjziLCpPMoaeFsWgvBCe7ygHKr6wXCyvTNZyGv");
// of variants/custom
const FEES: Pubkey = Pubkey::new_from_array([201; 32]);
const CLOSER: Pubkey = Pubkey::new_from_array([202; 32]);
const RATES: Pubkey = Pubkey::new_from_array([203; 32]);
const FREEZER: Pubkey = Pubkey::new_from_array([204; 32]);

pub fn camp_variant(c: &mut Case) {
    let mut alt = std::mem::take(&mut c.vm.alt);
    // the third, a fork's own configuration, only where it still compiles
    if alt.len() < 2 {
        crate::run::die("the variant programs are missing");
    }
    let which = c.idx as usize % alt.len();
    let (name, vm) = &mut alt[which];
    let name = *name;
    let before = (vm.execs, vm.target_execs);
    let mut c2 = Case { vm, rng: c.rng.clone(), cov: Cov::default(), finds: vec![], notes: vec![], idx: c.idx, malformed: false, many: c.many, settings: false, fwd: false, last: None };
    body(&mut c2, name);
    let (cov, finds, notes) = (c2.cov, c2.finds, c2.notes);
    c.cov.merge(cov);
    c.notes.extend(notes);
    for mut f in finds {
        f.props.push("P24");
        c.finds.push(f);
    }
    let d = (alt[which].1.execs - before.0, alt[which].1.target_execs - before.1);
    c.vm.execs += d.0;
    c.vm.target_execs += d.1;
    c.vm.alt = alt;
}
fn exact_len(name: &str, wp: &Pubkey) -> usize {
    if *wp == SPL || name == "noext" {
        return 82;
    }
    // base padded to an account, type byte, then each extension with its 4-byte header
    if name == "custom" {
        return 165 + 1 + (4 + 108) + (4 + 32) + (4 + 52);
    }
    165 + 1 + (4 + 32) + (4 + 1) + (4 + 65) + (4 + 33)
}
fn expect_ext(name: &str, wp: &Pubkey) -> Vec<(u16, Vec<u8>)> {
    if *wp == SPL || name == "noext" {
        return vec![];
    }
    use base64::Engine;
    let mut conf = CONF.to_bytes().to_vec();
    conf.push(1);
    conf.extend(base64::engine::general_purpose::STANDARD.decode(AUDITOR).unwrap());
    let mut p = PAUSE.to_bytes().to_vec();
    p.push(0);
    let mut v = vec![
        (E::PermanentDelegate as u16, DELEGATE.to_bytes().to_vec()),
        (E::DefaultAccountState as u16, vec![1]),
        (E::ConfidentialTransferMint as u16, conf),
        (E::Pausable as u16, p),
    ];
    v.sort();
    v
}
fn body(c: &mut Case, name: &'static str) {
    let mut w = World::default();
    let (up, wp) = (tp(c.rng.gen()), tp(c.rng.gen()));
    let base = make_pair(c, &mut w, &PairOpts { up: Some(up), wp: Some(wp), nested: Some(false), no_escrow: true, ..Default::default() });
    let stacked = c.chance(0.1) && up == wp && funded_create_fresh(c, &mut w, &base);
    let p = if stacked {
        Pair::of(base.wm, up, wp)
    } else {
        w.a.remove(&base.wm);
        w.a.remove(&base.bp);
        Pair { nested: false, ..base.clone() }
    };
    let um = w.mint(&p.u).expect("unwrapped mint");
    let own = name == "custom";
    let (want_fz, want_dec) = match name {
        "compliance" => (Some(FREEZE), um.decimals),
        "custom" => (if um.freeze.is_some() { None } else { Some(FREEZER) }, um.decimals.wrapping_mul(7).wrapping_add(3)),
        _ => (um.freeze, um.decimals),
    };
    let len = exact_len(name, &wp);
    let need = c.vm.rent(len);
    let nb = c.vm.rent(32);
    let label = format!("{name} {}->{} stacked={stacked} dec={} fz={}", tpn(&up), tpn(&wp), um.decimals, um.freeze.is_some());
    w.fund(&p.bp, nb);
    // one lamport short of the exact size
    let mut w1 = w.clone();
    w1.fund(&p.wm, need - 1);
    let i = ix::create_mint(p.u, wp, false);
    let o = c.vm.run(&mut w1, &i);
    c.eval(&format!("{label} short ok={}", o.ok));
    if o.ok {
        c.fail(&[], "short-accepted", format!("{label}: created with one lamport less than the rent of {len} bytes"));
    } else {
        c.cov.inc("one_lamport_short_refused");
    }
    // exactly funded
    w.fund(&p.wm, need);
    let o = c.vm.run(&mut w, &i);
    c.eval(&format!("{label} create ok={}", o.ok));
    if !o.ok {
        c.fail(&[], "create-refused", format!("{label}: creation funded for exactly {len} bytes refused: {} {:?}", o.err_str(), o.logs.iter().rev().take(4).collect::<Vec<_>>()));
        return;
    }
    let a = w.get(&p.wm);
    let Some(m) = w.mint(&p.wm) else {
        c.fail(&[], "not-a-mint", format!("{label}: no mint was created"));
        return;
    };
    c.cov.inc(&format!("{name} created {}", tpn(&wp)));
    let mut bad = vec![];
    let mut e: Vec<(u16, Vec<u8>)> = m.ext.iter().map(|x| (x.0, x.1.to_vec())).collect();
    e.sort();
    if a.owner != wp {
        bad.push(format!("owner {}", a.owner));
    }
    if a.data.len() != len {
        bad.push(format!("{} bytes instead of {len}", a.data.len()));
    }
    if m.decimals != want_dec {
        bad.push(format!("decimals {} instead of {want_dec}", m.decimals));
    }
    if m.freeze != want_fz {
        bad.push(format!("freeze authority {:?} instead of {want_fz:?}", m.freeze));
    }
    if m.auth != Some(p.auth) || m.supply != 0 {
        bad.push(format!("authority {:?} supply {}", m.auth, m.supply));
    }
    if own && wp == T22 {
        // the same steps, taken with the token program alone
        let mut wr = World::default();
        wr.put(p.wm, solana_account::Account { lamports: need, data: vec![0; len], owner: T22, executable: false, rent_epoch: 0 });
        let mut steps = vec![
            ext::transfer_fee::instruction::initialize_transfer_fee_config(&T22, &p.wm, Some(&FEES), None, 123, 4567).unwrap(),
            spl_token_2022_interface::instruction::initialize_mint_close_authority(&T22, &p.wm, Some(&CLOSER)).unwrap(),
            ext::interest_bearing_mint::instruction::initialize(&T22, &p.wm, Some(RATES), -77).unwrap(),
        ];
        steps.push(spl_token_2022_interface::instruction::initialize_mint2(&T22, &p.wm, &p.auth, want_fz.as_ref(), want_dec).unwrap());
        for s in &steps {
            let o = c.vm.run(&mut wr, s);
            if !o.ok {
                crate::run::die(&format!("the reference mint cannot be made: {}", o.err_str()));
            }
        }
        if wr.get(&p.wm).data != a.data {
            bad.push(format!("extensions {e:?} instead of {:?}", wr.mint(&p.wm).map(|x| x.ext.iter().map(|y| (y.0, y.1.to_vec())).collect::<Vec<_>>())));
        }
    } else if e != expect_ext(name, &wp) {
        bad.push(format!("extensions {e:?} instead of {:?}", expect_ext(name, &wp)));
    }
    if w.get(&p.bp).data != p.u.to_bytes() || w.get(&p.bp).owner != WRAP {
        bad.push("backpointer".into());
    }
    if !bad.is_empty() {
        c.fail(&[], "created-mint", format!("{label}: {bad:?}"));
    }
    // wraps and unwraps as usual
    let mut last = None;
    for k in 0..3 {
        let s = ct::scene(c, &SceneOpts { po: PairOpts { up: Some(up), wp: Some(wp), real_create: true, ..Default::default() }, honest: k != 2, wrap: Some(k == 0), ..Default::default() });
        let aa = s.a.clone();
        let out = ct::judge(c, &s, &aa, &s.label, false);
        c.eval(&format!("{name} {} ok={}", s.label, out.ok));
        if out.ok {
            c.cov.inc(&format!("{} {name}", if s.is_wrap { "wrapped" } else { "unwrapped" }));
        }
        if out.ok && s.is_wrap {
            last = Some((s, out));
        }
    }
    c.sample(format!("{label}: {} bytes, extensions {:?}", a.data.len(), m.ext.iter().map(|x| x.0).collect::<Vec<_>>()));
    // the declared powers, exercised on tokens somebody really wrapped
    let Some((s, out)) = last else { return };
    if name != "compliance" || wp != T22 || s.pair.nested {
        return;
    }
    let mut w = s.w.clone();
    commit(&mut w, &out.post);
    let acct = s.a.recipient;
    let bal = w.bal(&acct);
    if bal == 0 {
        return;
    }
    let dec = w.mint(&s.pair.wm).unwrap().decimals;
    let to = c.key();
    let someone = c.key();
    make_tok(c.vm, &mut w, to, T22, s.pair.wm, someone, &[]);
    let step = |c: &mut Case, w: &mut World, i: &Instruction, what: &str, want: bool| {
        let o = c.vm.run(w, i);
        c.eval(&format!("{name} power {what} {}", o.ok));
        if o.ok != want {
            c.fail(&[], "power", format!("{label}: {what}: {} {:?}", o.err_str(), o.logs.iter().rev().take(3).collect::<Vec<_>>()));
        }
        o.ok
    };
    if step(c, &mut w.clone(), &ix::transfer_checked(T22, acct, s.pair.wm, to, DELEGATE, true, &[], 1, dec), "the permanent delegate moves tokens", true) {
        c.cov.inc("delegate_moved");
    }
    let mut wf = w.clone();
    step(c, &mut wf, &ix::freeze(T22, acct, s.pair.wm, FREEZE, false), "the freeze authority freezes", true);
    if !step(c, &mut wf, &ix::transfer_checked(T22, acct, s.pair.wm, to, DELEGATE, true, &[], 1, dec), "moving frozen tokens", false) {
        c.cov.inc("freeze_enforced");
    }
    let mut b = s.a.clone();
    b.amount = 1;
    let m = model_wrap(c.vm, &wf, &b);
    let again = c.vm.dry(&wf, &ix::wrap(&b));
    if again.ok && m.is_err() {
        c.fail(&[], "power", format!("{label}: wrapping into a frozen account succeeds"));
    }
    let mut wp2 = w.clone();
    step(c, &mut wp2, &ext::pausable::instruction::pause(&T22, &s.pair.wm, &PAUSE, &[]).unwrap(), "the pause authority pauses", true);
    let paused = c.vm.dry(&wp2, &s.ix());
    if paused.ok {
        c.fail(&[], "power", format!("{label}: wrapping succeeds while the wrapped mint is paused"));
    } else if !step(c, &mut wp2, &ix::transfer_checked(T22, acct, s.pair.wm, to, DELEGATE, true, &[], 1, dec), "moving paused tokens", false) {
        c.cov.inc("pause_enforced");
    }
    step(c, &mut wp2, &ext::pausable::instruction::resume(&T22, &s.pair.wm, &PAUSE, &[]).unwrap(), "the pause authority resumes", true);
    let k = c.key();
    make_tok(c.vm, &mut w, k, T22, s.pair.wm, someone, &[]);
    if w.tok(&k).map(|t| t.state) != Some(1) {
        c.fail(&[], "power", format!("{label}: new accounts start in state {:?}", w.tok(&k).map(|t| t.state)));
    }
    adv::reset(Default::default());
}
fn funded_create_fresh(c: &mut Case, w: &mut World, p: &Pair) -> bool {
    w.a.remove(&p.wm);
    w.a.remove(&p.bp);
    funded_create(c.vm, w, p).ok
}
