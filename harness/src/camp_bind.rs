//! P05: account substitution in wrap and unwrap.
use crate::adv;
use crate::case::*;
use crate::ids::*;
use crate::ix::{self, WrapArgs};
use crate::mon::*;
use crate::rt::*;
use crate::scene::*;
use crate::tok::*;
use rand::Rng;
use solana_account::Account;

/// The independent binding condition of a wrap or unwrap.
pub fn bound(w: &World, a: &WrapArgs, is_wrap: bool) -> Result<(), &'static str> {
    if ![SPL, T22].contains(&a.up) || ![SPL, T22].contains(&a.wp) {
        return Err("token program");
    }
    if w.get(&a.unwrapped_mint).owner != a.up {
        return Err("unwrapped mint belongs to another program");
    }
    if a.wrapped_mint != wrapped_mint(&a.unwrapped_mint, &a.wp) {
        return Err("wrapped mint is not the derived one");
    }
    if a.authority != authority(&a.wrapped_mint) {
        return Err("authority is not the derived one");
    }
    if a.escrow != ata(&a.authority, &a.unwrapped_mint, &a.up) {
        return Err("escrow is not the derived one");
    }
    let t = |k: &Pubkey, p: &Pubkey, m: &Pubkey| w.a.get(k).map(|x| x.owner == *p && parse_tok(x).map(|t| t.mint == *m).unwrap_or(false)).unwrap_or(false);
    if !t(&a.escrow, &a.up, &a.unwrapped_mint) || w.tok(&a.escrow).map(|t| t.owner) != Some(a.authority) {
        return Err("escrow is not an account of that mint and authority");
    }
    let (sp, sm, dp, dm) = if is_wrap { (&a.up, &a.unwrapped_mint, &a.wp, &a.wrapped_mint) } else { (&a.wp, &a.wrapped_mint, &a.up, &a.unwrapped_mint) };
    if !t(&a.source, sp, sm) {
        return Err("source is not an account of the mint");
    }
    if !t(&a.recipient, dp, dm) {
        return Err("recipient is not an account of the mint");
    }
    Ok(())
}
struct Side {
    p: Pair,
    unw: Pubkey,
    wrp: Pubkey,
}
fn side(c: &mut Case, w: &mut World, o: &PairOpts, attacker: Pubkey) -> Side {
    let p = make_pair(c, w, o);
    fill(c, w, p, attacker)
}
fn fill(c: &mut Case, w: &mut World, p: Pair, attacker: Pubkey) -> Side {
    let unw = make_ata(c.vm, w, attacker, attacker, p.u, p.up);
    let wrp = make_ata(c.vm, w, attacker, attacker, p.wm, p.wp);
    mint_tokens(c.vm, w, p.up, p.u, unw, 1_000_000);
    mint_tokens(c.vm, w, p.up, p.u, p.escrow, 1_000_000);
    mint_tokens(c.vm, w, p.wp, p.wm, wrp, 1_000_000);
    Side { p, unw, wrp }
}
pub fn camp_bind(c: &mut Case) {
    let mut w = World::default();
    let att = c.key();
    let up = tp(c.rng.gen());
    let wp = tp(c.rng.gen());
    let hooky = c.chance(0.2);
    let exts = |c: &mut Case| -> Vec<Ext> {
        if hooky {
            vec![Ext::Hook(HOOK)]
        } else if c.chance(0.3) {
            vec![Ext::Fee(100, 50, None)]
        } else {
            vec![]
        }
    };
    let e = exts(c);
    let a = side(c, &mut w, &PairOpts { up: Some(up), wp: Some(wp), exts: Some(e), nested: Some(false), dec: Some(6), freeze: Some(false), ..Default::default() }, att);
    // the second pair: same programs, different wrapped program, other unwrapped program,
    // the same unwrapped mint under the other wrapped program, or stacked on the first
    let kind = c.below(5);
    let b = match kind {
        0 => {
            let e = exts(c);
            side(c, &mut w, &PairOpts { up: Some(up), wp: Some(wp), exts: Some(e), nested: Some(false), dec: Some(6), freeze: Some(false), ..Default::default() }, att)
        }
        1 => {
            let e = exts(c);
            side(c, &mut w, &PairOpts { up: Some(up), wp: Some(if wp == SPL { T22 } else { SPL }), exts: Some(e), nested: Some(false), dec: Some(6), freeze: Some(false), ..Default::default() }, att)
        }
        2 => {
            let e = exts(c);
            side(c, &mut w, &PairOpts { up: Some(if up == SPL { T22 } else { SPL }), wp: Some(wp), exts: Some(e), nested: Some(false), dec: Some(6), freeze: Some(false), ..Default::default() }, att)
        }
        3 => {
            let mut p = Pair::of(a.p.u, up, if wp == SPL { T22 } else { SPL });
            p.exts = a.p.exts.clone();
            p.mint_auth = a.p.mint_auth;
            synth_wrapped(c.vm, &mut w, &p);
            make_ata(c.vm, &mut w, att, p.auth, p.u, p.up);
            fill(c, &mut w, p, att)
        }
        _ => {
            let mut p = Pair::of(a.p.wm, wp, tp(c.rng.gen()));
            p.nested = true;
            p.mint_auth = Some(a.p.auth);
            synth_wrapped(c.vm, &mut w, &p);
            make_ata(c.vm, &mut w, att, p.auth, p.u, p.up);
            fill(c, &mut w, p, att)
        }
    };
    let is_wrap: bool = c.rng.gen();
    // --- pools of substitutes
    let cross1 = make_ata(c.vm, &mut w, att, a.p.auth, b.p.u, b.p.up);
    let cross2 = make_ata(c.vm, &mut w, att, b.p.auth, a.p.u, a.p.up);
    mint_tokens(c.vm, &mut w, b.p.up, b.p.u, cross1, 500_000);
    mint_tokens(c.vm, &mut w, a.p.up, a.p.u, cross2, 500_000);
    let aux_escrow = c.key();
    make_tok(c.vm, &mut w, aux_escrow, a.p.up, a.p.u, a.p.auth, &[]);
    mint_tokens(c.vm, &mut w, a.p.up, a.p.u, aux_escrow, 500_000);
    let own_escrow_like = make_ata(c.vm, &mut w, att, att, a.p.u, a.p.up);
    // account of the attacker handed over to the authority
    let aux_unw = c.key();
    make_tok(c.vm, &mut w, aux_unw, a.p.up, a.p.u, att, &[]);
    mint_tokens(c.vm, &mut w, a.p.up, a.p.u, aux_unw, 500_000);
    let aux_wrp = c.key();
    make_tok(c.vm, &mut w, aux_wrp, a.p.wp, a.p.wm, att, &[]);
    mint_tokens(c.vm, &mut w, a.p.up, a.p.u, a.p.escrow, 500_000);
    mint_tokens(c.vm, &mut w, a.p.wp, a.p.wm, aux_wrp, 500_000);
    // look-alike wrapped mint under the attacker, and one whose authority is the real one
    let like = c.key();
    make_mint(c.vm, &mut w, like, a.p.wp, 6, att, None, &[]);
    let like_acc = make_ata(c.vm, &mut w, att, att, like, a.p.wp);
    mint_tokens(c.vm, &mut w, a.p.wp, like, like_acc, 900_000);
    let like2 = c.key();
    make_mint(c.vm, &mut w, like2, a.p.wp, 6, a.p.auth, None, &[]);
    let like2_acc = make_ata(c.vm, &mut w, att, att, like2, a.p.wp);
    mint_tokens(c.vm, &mut w, a.p.wp, like2, like2_acc, 900_000);
    // a worthless mint of the attacker in place of the unwrapped one
    let junk = c.key();
    make_mint(c.vm, &mut w, junk, a.p.up, 6, att, None, &[]);
    let junk_acc = make_ata(c.vm, &mut w, att, att, junk, a.p.up);
    mint_tokens(c.vm, &mut w, a.p.up, junk, junk_acc, 900_000);
    let junk_escrow = make_ata(c.vm, &mut w, att, a.p.auth, junk, a.p.up);
    // fake token program: escrow at the address derived for it, source, mint copies
    let fake_escrow = ata(&a.p.auth, &a.p.u, &FAKETOK);
    let mk_fake = |w: &mut World, k: Pubkey, like: &Pubkey| {
        let mut x = w.get(like);
        x.owner = FAKETOK;
        w.put(k, x);
    };
    mk_fake(&mut w, fake_escrow, &a.p.escrow);
    let fake_src = c.key();
    mk_fake(&mut w, fake_src, &a.unw);
    let fake_wsrc = c.key();
    mk_fake(&mut w, fake_wsrc, &a.wrp);
    let fake_wm = wrapped_mint(&a.p.u, &FAKETOK);
    let fake_auth = authority(&fake_wm);
    let fw_escrow = make_ata(c.vm, &mut w, att, fake_auth, a.p.u, a.p.up);
    mint_tokens(c.vm, &mut w, a.p.up, a.p.u, fw_escrow, 400_000);
    mk_fake(&mut w, fake_wm, &like);
    // system-owned lookalike account with escrow bytes
    let raw = c.key();
    w.put(raw, Account { lamports: 10_000_000, data: w.get(&a.p.escrow).data, owner: SYS, executable: false, rent_epoch: u64::MAX });

    let mkargs = |s: &Side| WrapArgs {
        recipient: if is_wrap { s.wrp } else { s.unw },
        wrapped_mint: s.p.wm,
        authority: s.p.auth,
        up: s.p.up,
        wp: s.p.wp,
        source: if is_wrap { s.unw } else { s.wrp },
        unwrapped_mint: s.p.u,
        escrow: s.p.escrow,
        ta: att,
        ta_signer: true,
        extras: vec![],
        amount: 1000,
    };
    let (ga, gb) = (mkargs(&a), mkargs(&b));
    let n = 8;
    let set = |x: &mut WrapArgs, role: usize, v: Pubkey| match role {
        0 => x.recipient = v,
        1 => x.wrapped_mint = v,
        2 => x.authority = v,
        3 => x.up = v,
        4 => x.wp = v,
        5 => x.source = v,
        6 => x.unwrapped_mint = v,
        _ => x.escrow = v,
    };
    let get = |x: &WrapArgs, role: usize| match role {
        0 => x.recipient,
        1 => x.wrapped_mint,
        2 => x.authority,
        3 => x.up,
        4 => x.wp,
        5 => x.source,
        6 => x.unwrapped_mint,
        _ => x.escrow,
    };
    let names = ["recipient", "wrapped mint", "authority", "unwrapped program", "wrapped program", "source", "unwrapped mint", "escrow"];
    let mut cases: Vec<(String, WrapArgs)> = vec![("good A".into(), ga.clone()), ("good B".into(), gb.clone())];
    // every mix of the two pairs
    for m in 1..(1u32 << n) - 1 {
        let mut x = ga.clone();
        for r in 0..n {
            if m >> r & 1 == 1 {
                set(&mut x, r, get(&gb, r));
            }
        }
        cases.push((format!("mix {m:08b}"), x.clone()));
        if m & 0b1000_0000 == 0 && c.chance(0.3) {
            for e in [cross1, cross2] {
                x.escrow = e;
                cases.push((format!("mix {m:08b} + crossed escrow"), x.clone()));
            }
        }
    }
    // single substitutions
    let pool: Vec<(&str, Pubkey)> = vec![
        ("crossed escrow", cross1),
        ("crossed escrow 2", cross2),
        ("second account of the authority", aux_escrow),
        ("attacker's own account", own_escrow_like),
        ("attacker's second unwrapped account", aux_unw),
        ("attacker's second wrapped account", aux_wrp),
        ("look-alike mint", like),
        ("look-alike account", like_acc),
        ("look-alike mint of the authority", like2),
        ("look-alike account 2", like2_acc),
        ("junk mint", junk),
        ("junk account", junk_acc),
        ("junk escrow", junk_escrow),
        ("fake-program escrow", fake_escrow),
        ("fake-program source", fake_src),
        ("fake-program wrapped source", fake_wsrc),
        ("fake program", FAKETOK),
        ("fake-program wrapped mint", fake_wm),
        ("fake-program authority", fake_auth),
        ("escrow of the fake pair", fw_escrow),
        ("system account with escrow bytes", raw),
        ("token-wrap itself", WRAP),
        ("system program", SYS),
        ("attacker", att),
        ("backpointer", a.p.bp),
        ("missing account", c.key()),
        ("A source", ga.source),
        ("A recipient", ga.recipient),
        ("A escrow", ga.escrow),
        ("A wrapped mint", a.p.wm),
        ("A unwrapped mint", a.p.u),
        ("A authority", a.p.auth),
        ("spl", SPL),
        ("t22", T22),
    ];
    for r in 0..n {
        for (nm, k) in &pool {
            if get(&ga, r) == *k {
                continue;
            }
            let mut x = ga.clone();
            set(&mut x, r, *k);
            cases.push((format!("{}:={nm}", names[r]), x));
        }
    }
    // coherent frauds
    let fraud = |nm: &str, f: &dyn Fn(&mut WrapArgs)| {
        let mut x = ga.clone();
        f(&mut x);
        (format!("fraud {nm}"), x)
    };
    cases.push(fraud("fake unwrapped program", &|x| {
        x.up = FAKETOK;
        x.escrow = fake_escrow;
        if is_wrap {
            x.source = fake_src
        }
    }));
    cases.push(fraud("fake unwrapped program, real escrow", &|x| {
        x.up = FAKETOK;
        if is_wrap {
            x.source = fake_src
        }
    }));
    cases.push(fraud("fake wrapped program, fake pair", &|x| {
        x.wp = FAKETOK;
        x.wrapped_mint = fake_wm;
        x.authority = fake_auth;
        x.escrow = fw_escrow;
        if !is_wrap {
            x.source = fake_wsrc
        } else {
            x.recipient = fake_wsrc
        }
    }));
    cases.push(fraud("fake wrapped program, real pair", &|x| {
        x.wp = FAKETOK;
        if !is_wrap {
            x.source = fake_wsrc
        }
    }));
    for (m, acc) in [(like, like_acc), (like2, like2_acc)] {
        cases.push(fraud("look-alike wrapped mint", &|x| {
            x.wrapped_mint = m;
            if is_wrap {
                x.recipient = acc
            } else {
                x.source = acc
            }
        }));
        cases.push(fraud("look-alike wrapped mint with its own authority", &|x| {
            x.wrapped_mint = m;
            x.authority = authority(&m);
            if is_wrap {
                x.recipient = acc
            } else {
                x.source = acc
            }
        }));
    }
    cases.push(fraud("junk in, real wrapped out", &|x| {
        x.unwrapped_mint = junk;
        x.escrow = junk_escrow;
        if is_wrap {
            x.source = junk_acc
        } else {
            x.recipient = junk_acc
        }
    }));
    cases.push(fraud("junk mint, real accounts", &|x| x.unwrapped_mint = junk));
    cases.push(fraud("escrow to itself", &|x| {
        x.source = x.escrow;
        x.ta = x.authority;
        x.ta_signer = false;
    }));
    cases.push(fraud("attacker names the authority as signer-less owner", &|x| {
        x.source = aux_escrow;
        x.ta = x.authority;
        x.ta_signer = false;
    }));
    // a few random double substitutions
    for _ in 0..60 {
        let (r1, r2) = (c.below(n), c.below(n));
        let (k1, k2) = (c.pick(&pool), c.pick(&pool));
        let mut x = ga.clone();
        set(&mut x, r1, k1.1);
        set(&mut x, r2, k2.1);
        cases.push((format!("{}:={},{}:={}", names[r1], k1.0, names[r2], k2.0), x));
    }
    let pairs = vec![a.p.clone(), b.p.clone()];
    let verb = if is_wrap { "wrap" } else { "unwrap" };
    for (nm, mut x) in cases {
        // supply the hook accounts of the mint actually presented
        if hooky {
            x.extras = if is_wrap { hook_metas(&HOOK, &x.unwrapped_mint, &x.source, &x.escrow, &x.ta, x.amount) } else { hook_metas(&HOOK, &x.unwrapped_mint, &x.escrow, &x.recipient, &x.authority, x.amount) };
        }
        adv::reset(Default::default());
        let ixn = if is_wrap { ix::wrap(&x) } else { ix::unwrap(&x) };
        let mut w1 = w.clone();
        let out = c.vm.run(&mut w1, &ixn);
        observe(c, &w, &w1, &out, &ixn, &pairs, &WRAP);
        let b = bound(&w, &x, is_wrap);
        if out.ok {
            c.cov.inc("substitution_accepted_validly");
            if let Err(e) = b {
                c.fail(&["P05", "P01", if is_wrap { "P02" } else { "P03" }], "unbound-accepted", format!("{verb} {nm}: accepted although {e}; {}", desc_ix(&ixn)));
            } else {
                let m = if is_wrap { model_wrap(c.vm, &w, &x) } else { model_unwrap(c.vm, &w, &x) };
                match m {
                    Ok(mw) => {
                        if !world_diff(&w1, &mw).is_empty() {
                            c.fail(&["P05", if is_wrap { "P02" } else { "P03" }], "effect-differs", format!("{verb} {nm}: effect differs from the direct movement; {}", desc_ix(&ixn)));
                        }
                    }
                    Err(e) => c.fail(&["P05", "P04"], "accepted-unauthorised", format!("{verb} {nm}: accepted although token programs refuse: {e}")),
                }
            }
        } else {
            c.cov.inc("substitution_rejected");
            if let Err(e) = b {
                c.cov.inc(&format!("unbound: {e}"));
            } else if nm.starts_with("good") {
                c.fail(&["P06"], "honest-refused", format!("{verb} {nm}: refused {}; {}", out.err_str(), desc_ix(&ixn)));
            }
        }
        c.eval(&format!("{verb} {}{} kind{kind} hook{hooky} {nm} {}", tpn(&up), tpn(&wp), out.ok));
    }
    c.sample(format!("{verb} over {}->{} second pair kind {kind}: all mixes and {} substitutes per account", tpn(&up), tpn(&wp), pool.len()));
}
