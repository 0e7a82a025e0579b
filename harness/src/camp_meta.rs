//! Metadata synchronisation: faithful copies, authoritative sources, no endorsements.
use crate::adv::{self, AdvCfg};
use crate::case::*;
use crate::ids::*;
use crate::ix;
use crate::meta::*;
use crate::mon::*;
use crate::rt::*;
use crate::scene::*;
use crate::tok::*;
use rand::Rng;
use serde_json::Value;
use solana_account::Account;
use solana_instruction::Instruction;

fn sync_ix(p: &Pair, src: Option<Pubkey>, owner: Option<Pubkey>) -> Instruction {
    if p.wp == T22 {
        ix::sync22(p.wm, p.auth, p.u, T22, src, owner)
    } else {
        ix::syncspl(mpl_pda(&p.wm), p.auth, p.wm, p.u, src, owner)
    }
}
fn has_endorsement(s: &Source) -> bool {
    match &s.content {
        Content::M(m) => m.coll.map(|x| x.0).unwrap_or(false) || m.creators.iter().flatten().any(|x| x.1),
        Content::T(t) => t.add.iter().any(|x| x.1.contains("\"verified\":true")),
    }
}
/// P14/P16: exact content of the wrapped Token-2022 metadata.
pub fn judge22(c: &mut Case, w: &World, s: &Source, p: &Pair, what: &str) -> bool {
    let n0 = c.finds.len();
    let (name, symbol, uri, add) = expect_t22(s);
    let Some(m) = t22_meta(w, &p.wm) else {
        c.fail(&["P14"], "no-metadata", format!("{what}: no metadata after a successful sync"));
        return false;
    };
    c.cov.inc("t22_metadata_compared");
    if m.ua != p.auth {
        c.fail(&["P16"], "t22-authority", format!("{what}: update authority {} instead of {}", m.ua, p.auth));
    }
    if m.mint != p.wm {
        c.fail(&["P16"], "t22-mint", format!("{what}: metadata mint {} instead of {}", m.mint, p.wm));
    }
    if (&m.name, &m.symbol, &m.uri) != (&name, &symbol, &uri) {
        c.fail(&["P14"], "t22-base", format!("{what}: base fields {:?} expected {:?}", (&m.name, &m.symbol, &m.uri), (&name, &symbol, &uri)));
    }
    for (k, v) in &add {
        let got: Vec<&String> = m.add.iter().filter(|x| x.0 == *k).map(|x| &x.1).collect();
        if got.len() != 1 {
            c.fail(&["P14"], "t22-field-missing", format!("{what}: field {k:?} occurs {} times", got.len()));
            continue;
        }
        let good = match v {
            // a source that repeats a key leaves open which of its values counts
            FieldVal::S(x) => got[0] == x || matches!(&s.content, Content::T(t) if t.add.iter().any(|y| y.0 == *k && y.1 == *got[0])),
            FieldVal::J(j) => serde_json::from_str::<Value>(got[0]).map(|g| jeq(&g, j)).unwrap_or(false),
        };
        if !good {
            c.fail(&["P14"], "t22-field-value", format!("{what}: field {k:?} is {:?}, expected {v:?}", got[0]));
        }
    }
    for (k, _) in &m.add {
        if !add.iter().any(|x| x.0 == *k) {
            c.fail(&["P14"], "t22-field-extra", format!("{what}: field {k:?} is not in the source"));
        }
    }
    if s.kind.is_mpl() {
        for (k, v) in &m.add {
            if k == "creators" && v.replace(' ', "").contains("\"verified\":true") {
                c.fail(&["P16"], "t22-verified-creator", format!("{what}: verified creators {v}"));
            }
        }
        c.cov.inc("t22_creator_flags_checked");
    }
    c.finds.len() == n0
}
/// P15/P16: content of the wrapped mint's Metaplex account.
pub fn judge_spl(c: &mut Case, w: &World, s: &Source, p: &Pair, what: &str) -> bool {
    let n0 = c.finds.len();
    let acc = w.get(&mpl_pda(&p.wm));
    let Some(m) = (if acc.owner == MPL { dec_mpl(&acc.data) } else { None }) else {
        c.fail(&["P15"], "no-metaplex", format!("{what}: no Metaplex account after a successful sync"));
        return false;
    };
    let Some(d) = expect_spl(s) else {
        c.fail(&["P15", "P13"], "unreadable-accepted", format!("{what}: a source that cannot be read was synced"));
        return false;
    };
    c.cov.inc("metaplex_metadata_compared");
    let t = |s: &str| s.trim_end_matches('\0').to_string();
    let base = (t(&m.name), t(&m.symbol), t(&m.uri));
    let exp = (t(&d.name), t(&d.symbol), t(&d.uri));
    if base != exp {
        c.fail(&["P15"], "spl-base", format!("{what}: base fields {base:?} expected {exp:?}"));
    }
    if m.fee != d.seller_fee_basis_points {
        c.fail(&["P15"], "spl-fee", format!("{what}: seller fee {} expected {}", m.fee, d.seller_fee_basis_points));
    }
    let gc: Vec<_> = m.creators.iter().flatten().map(|x| (x.0, x.2)).collect();
    let ec: Vec<_> = d.creators.iter().flatten().map(|x| (x.address, x.share)).collect();
    if gc != ec {
        c.fail(&["P15"], "spl-creators", format!("{what}: creators {gc:?} expected {ec:?}"));
    }
    if m.coll.map(|x| x.1) != d.collection.as_ref().map(|x| x.key) {
        c.fail(&["P15"], "spl-collection", format!("{what}: collection {:?} expected {:?}", m.coll, d.collection));
    }
    let eu = d.uses.as_ref().map(|u| (u.use_method.clone() as u8, u.remaining, u.total));
    if m.uses != eu {
        c.fail(&["P15"], "spl-uses", format!("{what}: uses {:?} expected {eu:?}", m.uses));
    }
    if !m.mutable {
        c.fail(&["P15"], "spl-immutable", format!("{what}: the account is immutable"));
    }
    if m.ua != p.auth {
        c.fail(&["P15", "P16"], "spl-authority", format!("{what}: update authority {} instead of {}", m.ua, p.auth));
    }
    if m.mint != p.wm {
        c.fail(&["P16"], "spl-mint", format!("{what}: metadata mint {}", m.mint));
    }
    if m.creators.iter().flatten().any(|x| x.1) {
        c.fail(&["P16"], "spl-verified-creator", format!("{what}: verified creators {:?}", m.creators));
    }
    if m.coll.map(|x| x.0).unwrap_or(false) {
        c.fail(&["P16"], "spl-verified-collection", format!("{what}: verified collection"));
    }
    c.finds.len() == n0
}
fn confined(c: &mut Case, a: &World, b: &World, p: &Pair, what: &str) {
    let ok = |k: &Pubkey| if p.wp == T22 { *k == p.wm } else { *k == mpl_pda(&p.wm) || *k == p.auth };
    for k in world_diff(a, b) {
        if !ok(&k) {
            c.fail(&["P13", "P14", "P15"], "sync-touches-other", format!("{what}: account {k} changed"));
        }
    }
}
/// Metadata that no pointer designates must not be what was copied.
fn decoyed(c: &mut Case, w: &World, p: &Pair, what: &str) {
    let n = if p.wp == T22 { t22_meta(w, &p.wm).map(|m| m.name) } else { dec_mpl(w.data(&mpl_pda(&p.wm))).map(|m| m.name) };
    if n.map(|n| n.starts_with("DECOY")).unwrap_or(false) {
        c.fail(&["P13"], "undesignated-source", format!("{what}: copied metadata that the mint does not designate"));
    }
}
fn state(w: &World, p: &Pair) -> (Option<TMeta>, Account) {
    (t22_meta(w, &p.wm), w.get(&mpl_pda(&p.wm)))
}
fn run_sync(c: &mut Case, w: &mut World, p: &Pair, s: &Source, i: &Instruction) -> Out {
    adv::reset(s.cfg());
    let o = observed(c, w, i, std::slice::from_ref(p));
    adv::reset(AdvCfg::default());
    o
}
fn scheme(s: &Source, p: &Pair) -> String {
    let d = match &s.content {
        Content::M(m) => format!("cr{:?} col{:?} us{} std{:?} n{} det{} cfg{}", m.creators.as_ref().map(|v| v.len()), m.coll.map(|x| x.0), m.uses.is_some(), m.std, m.nonce.is_some(), m.details.is_some(), m.config.is_some()),
        Content::T(t) => format!("{:?}", t.add.iter().map(|x| x.0.clone()).collect::<Vec<_>>()),
    };
    format!("{:?}->{} {}", s.kind, tpn(&p.wp), d)
}
pub fn camp_sync22(c: &mut Case) {
    let kind = c.pick(&KINDS);
    let mut w = World::default();
    let rounds = c.rng.gen_range(1..=4);
    c.many = rounds == 1;
    let mut s = make_source(c, &mut w, kind, false);
    let p = make_target(c, &mut w, &s, T22);
    let mut prev: Option<TMeta> = None;
    for r in 0..rounds {
        if r > 0 {
            set_source(c, &mut w, &mut s, false, false);
        }
        let i = sync_ix(&p, s.acct, s.owner_prog);
        let before = w.clone();
        let o = run_sync(c, &mut w, &p, &s, &i);
        let what = format!("round {r} {:?} source {:?}", s.kind, s.content);
        c.eval(&format!("{} r{} prev={:?} ok={}", scheme(&s, &p), r, prev.as_ref().map(|m| m.add.len()), o.ok));
        c.cov.inc(&format!("kind {:?}", s.kind));
        if !o.ok {
            let mut t = vec!["P14", "P13"];
            if has_endorsement(&s) {
                t.push("P16");
            }
            c.fail(&t, "sync22-refused", format!("{what}: refused with {}; logs {:?}", o.err_str(), o.logs.iter().rev().take(8).collect::<Vec<_>>()));
            return;
        }
        confined(c, &before, &w, &p, &what);
        judge22(c, &w, &s, &p, &what);
        if prev.is_some() {
            c.cov.inc("resync_over_other_metadata");
        }
        prev = t22_meta(&w, &p.wm);
        decoyed(c, &w, &p, &what);
        // an unchanged source changes nothing
        let snap = w.clone();
        let o = run_sync(c, &mut w, &p, &s, &i);
        if !o.ok {
            c.fail(&["P14"], "resync-refused", format!("{what}: second sync refused with {}", o.err_str()));
        } else if !world_diff(&snap, &w).is_empty() {
            // which value of a repeated key is kept may differ from time to time
            let rep: Vec<&String> = match &s.content {
                Content::T(t) => (0..t.add.len()).filter(|i| t.add[..*i].iter().any(|x| x.0 == t.add[*i].0)).map(|i| &t.add[i].0).collect(),
                _ => vec![],
            };
            let single = |w: &World| -> Option<TMeta> {
                let mut m = t22_meta(w, &p.wm)?;
                m.add.retain(|x| !rep.contains(&&x.0));
                m.add.sort();
                Some(m)
            };
            let same_map = world_diff(&snap, &w) == vec![p.wm] && format!("{:?}", single(&snap)) == format!("{:?}", single(&w));
            let dup = !rep.is_empty();
            if !(dup && same_map) {
                c.fail(&["P14"], "resync-changes", format!("{what}: second sync changed {:?}", world_diff(&snap, &w)));
            }
        }
        c.cov.inc("resync_unchanged");
    }
    c.sample(format!("{} rounds={rounds} final={:?}", scheme(&s, &p), t22_meta(&w, &p.wm)));
}
pub fn camp_syncspl(c: &mut Case) {
    let kind = c.pick(&KINDS);
    let mut w = World::default();
    let mut s = make_source(c, &mut w, kind, true);
    let p = make_target(c, &mut w, &s, SPL);
    // anyone can send lamports to the address of the metadata before it exists
    if w.data(&mpl_pda(&p.wm)).is_empty() && c.chance(0.2) {
        let l = c.pick(&[1, 890_880, 5_616_720, 15_115_600, 100_000_000]);
        w.fund(&mpl_pda(&p.wm), l);
        c.cov.inc("metaplex_address_prefunded");
    }
    let rounds = c.rng.gen_range(1..=4);
    for r in 0..rounds {
        if r > 0 {
            set_source(c, &mut w, &mut s, true, false);
        }
        let i = sync_ix(&p, s.acct, s.owner_prog);
        let before = w.clone();
        let st = state(&w, &p);
        let o = run_sync(c, &mut w, &p, &s, &i);
        let what = format!("round {r} {:?} source {:?}", s.kind, s.content);
        let model = match expect_spl(&s) {
            None => Err("unreadable source".to_string()),
            Some(d) => model_spl(c, &before, &p, d),
        };
        let create = before.data(&mpl_pda(&p.wm)).is_empty();
        c.eval(&format!("{} r{} create={} model={} ok={}", scheme(&s, &p), r, create, model.is_ok(), o.ok));
        c.cov.inc(&format!("kind {:?}", s.kind));
        match (&model, o.ok) {
            (Ok(mw), true) => {
                c.cov.inc(if create { "metaplex_created" } else { "metaplex_updated" });
                confined(c, &before, &w, &p, &what);
                judge_spl(c, &w, &s, &p, &what);
                decoyed(c, &w, &p, &what);
                let d = world_diff(&w, mw);
                if !d.is_empty() {
                    c.fail(&["P15"], "spl-effect", format!("{what}: effect differs from Metaplex's own at {d:?}"));
                }
                if has_endorsement(&s) {
                    c.cov.inc("endorsements_dropped");
                }
            }
            (Ok(_), false) => {
                let mut t = vec!["P15", "P13"];
                if has_endorsement(&s) {
                    t.push("P16");
                }
                let coll = match &s.content {
                    Content::M(m) => m.coll.map(|x| x.0).unwrap_or(false),
                    Content::T(t) => t.add.iter().any(|x| x.0 == "collection" && x.1.contains("true")),
                };
                let sig = if coll { "spl-refused-verified-collection" } else { "spl-refused" };
                c.fail(&t, sig, format!("{what}: refused with {} although Metaplex accepts the same data; logs {:?}", o.err_str(), o.logs.iter().rev().take(8).collect::<Vec<_>>()));
            }
            (Err(e), true) => c.fail(&["P15", "P13"], "spl-accepted", format!("{what}: accepted although it must fail ({e})")),
            (Err(_), false) => {
                c.cov.inc("metaplex_refuses_both");
                if state(&w, &p) != st {
                    c.fail(&["P13"], "failed-but-changed", format!("{what}: metadata changed by a failed sync"));
                }
            }
        }
    }
    c.sample(format!("{} rounds={rounds} final={:?}", scheme(&s, &p), dec_mpl(w.data(&mpl_pda(&p.wm))).map(|m| m.name)));
}
/// P13: everything that is not the authoritative source.
pub fn camp_source(c: &mut Case) {
    let kind = c.pick(&KINDS);
    let mut w = World::default();
    let wp = tp(c.rng.gen());
    let mut s = make_source(c, &mut w, kind, false);
    // contents that Metaplex accepts
    while expect_spl(&s).is_none() {
        set_source(c, &mut w, &mut s, true, false);
    }
    let p = make_target(c, &mut w, &s, wp);
    // some metadata is there already, half of the time
    if c.chance(0.5) {
        let i = sync_ix(&p, s.acct, s.owner_prog);
        run_sync(c, &mut w, &p, &s, &i);
        set_source(c, &mut w, &mut s, true, false);
    }
    let cfg0 = s.cfg();
    // an attacker's pair whose metadata they control
    let s2 = {
        let k2 = c.pick(&[Kind::SplMpl, Kind::NoPtrMpl, Kind::PtrMpl]);
        make_source(c, &mut w, k2, false)
    };
    let p2 = make_target(c, &mut w, &s2, wp);
    let mut att: Vec<(String, World, Instruction, AdvCfg)> = vec![];
    let good = sync_ix(&p, s.acct, s.owner_prog);
    let evil = TMeta { ua: c.key(), mint: s.u, name: "EVIL".into(), symbol: "EVL".into(), uri: "http://evil".into(), add: vec![] };
    let emit_evil = AdvCfg { emit: Some(enc_tmeta(&evil)), ..Default::default() };
    // crafted accounts
    let crafted = c.key();
    let fua = c.key();
    let mut fm = gen_mpl(c, s.u, fua);
    fm.name = "EVIL".into();
    {
        let mut w2 = w.clone();
        put_mpl(c, &mut w2, crafted, &fm);
        for op in [None, Some(MPL), Some(METAP)] {
            att.push((format!("metaplex-owned account at another address, owner program {op:?}"), w2.clone(), sync_ix(&p, Some(crafted), op), emit_evil.clone()));
        }
        w2.a.get_mut(&crafted).unwrap().owner = METAP;
        for op in [None, Some(METAP)] {
            att.push((format!("third-party account at another address, {op:?}"), w2.clone(), sync_ix(&p, Some(crafted), op), emit_evil.clone()));
        }
    }
    att.push(("metadata of another mint".into(), w.clone(), sync_ix(&p, s2.acct, None), cfg0.clone()));
    att.push(("wrapped mint as source".into(), w.clone(), sync_ix(&p, Some(p.wm), None), cfg0.clone()));
    att.push(("other mint as source".into(), w.clone(), sync_ix(&p, Some(s2.u), Some(METAP)), emit_evil.clone()));
    if kind != Kind::SelfPtr {
        att.push(("no source".into(), w.clone(), sync_ix(&p, None, None), cfg0.clone()));
    }
    if let Some(a) = s.acct {
        if matches!(kind, Kind::SplMpl | Kind::NoPtrMpl) {
            for o in [METAP, SYS, SPL, T22, WRAP] {
                let mut w2 = w.clone();
                w2.a.get_mut(&a).unwrap().owner = o;
                att.push((format!("right address owned by {}", nick(&o)), w2, sync_ix(&p, Some(a), Some(o)), emit_evil.clone()));
            }
            let mut w2 = w.clone();
            w2.a.remove(&a);
            att.push(("metaplex account missing".into(), w2, sync_ix(&p, Some(a), Some(METAP)), emit_evil.clone()));
        }
        if kind.is_mpl() {
            let mut w2 = w.clone();
            let d = &mut w2.a.get_mut(&a).unwrap().data;
            d[0] = c.pick(&[0u8, 1, 2, 3, 5, 6, 11, 255]);
            att.push(("wrong metaplex key".into(), w2, good.clone(), cfg0.clone()));
            let mut w2 = w.clone();
            let cut = c.rng.gen_range(0..70usize);
            w2.a.get_mut(&a).unwrap().data.truncate(cut);
            att.push(("truncated metaplex account".into(), w2, good.clone(), cfg0.clone()));
            let mut w2 = w.clone();
            let d = &mut w2.a.get_mut(&a).unwrap().data;
            d[65..69].copy_from_slice(&u32::MAX.to_le_bytes());
            att.push(("absurd name length".into(), w2, good.clone(), cfg0.clone()));
        }
        if kind == Kind::External {
            att.push(("impostor program".into(), w.clone(), sync_ix(&p, Some(a), Some(METAP2)), emit_evil.clone()));
            att.push(("impostor token program".into(), w.clone(), sync_ix(&p, Some(a), Some(T22)), emit_evil.clone()));
            att.push(("owner program missing".into(), w.clone(), sync_ix(&p, Some(a), None), cfg0.clone()));
            att.push(("answer from another program".into(), w.clone(), good.clone(), AdvCfg { emit: Some(enc_tmeta(&evil)), emit_via_other: true, ..Default::default() }));
            att.push(("no answer".into(), w.clone(), good.clone(), AdvCfg::default()));
            att.push(("empty answer".into(), w.clone(), good.clone(), AdvCfg { emit: Some(vec![]), ..Default::default() }));
            att.push(("failing program".into(), w.clone(), good.clone(), AdvCfg { emit_fails: true, ..cfg0.clone() }));
            let e = enc_tmeta(&evil);
            let cut = c.rng.gen_range(0..e.len());
            att.push(("cut answer".into(), w.clone(), good.clone(), AdvCfg { emit: Some(e[..cut].to_vec()), ..Default::default() }));
            let mut e2 = e.clone();
            e2[64..68].copy_from_slice(&0xffff_fff0u32.to_le_bytes());
            att.push(("absurd answer".into(), w.clone(), good.clone(), AdvCfg { emit: Some(e2), ..Default::default() }));
            let mut e3 = e.clone();
            e3[68] = 0xff;
            att.push(("answer that is not text".into(), w.clone(), good.clone(), AdvCfg { emit: Some(e3), ..Default::default() }));
            let mut w2 = w.clone();
            w2.a.get_mut(&a).unwrap().owner = METAP2;
            att.push(("account of another program".into(), w2, good.clone(), emit_evil.clone()));
        }
    }
    // wrong mint, authority or programs in the instruction
    let mut i = good.clone();
    let (wi, ai, ui) = if wp == T22 { (0, 1, 2) } else { (2, 1, 3) };
    i.accounts[wi].pubkey = p2.wm;
    att.push(("another pair's wrapped mint".into(), w.clone(), i, cfg0.clone()));
    let mut i = good.clone();
    i.accounts[ai].pubkey = p2.auth;
    att.push(("another pair's authority".into(), w.clone(), i, cfg0.clone()));
    let mut i = good.clone();
    i.accounts[ui].pubkey = s2.u;
    if i.accounts.len() > 4 && s2.acct.is_some() {
        i = {
            let mut j = sync_ix(&p, s2.acct, None);
            j.accounts[ui].pubkey = s2.u;
            j
        };
    }
    att.push(("another unwrapped mint and its metadata".into(), w.clone(), i, cfg0.clone()));
    let mut j = sync_ix(&p2, s.acct, s.owner_prog);
    j.accounts[ui].pubkey = s.u;
    att.push(("another pair's wrapped mint and authority".into(), w.clone(), j, cfg0.clone()));
    if wp == T22 {
        for prog in [SPL, FAKETOK, SYS, WRAP] {
            let mut i = good.clone();
            i.accounts[3].pubkey = prog;
            att.push((format!("token program {}", nick(&prog)), w.clone(), i, cfg0.clone()));
        }
        // the wrapped mint is of the other program
        let ps = make_target(c, &mut w, &s, SPL);
        let mut i = good.clone();
        i.accounts[0].pubkey = ps.wm;
        i.accounts[1].pubkey = ps.auth;
        att.push(("SPL wrapped mint".into(), w.clone(), i, cfg0.clone()));
    } else {
        for prog in [SPL, FAKETOK, SYS, WRAP, METAP] {
            let mut i = good.clone();
            i.accounts[4].pubkey = prog;
            att.push((format!("metaplex program {}", nick(&prog)), w.clone(), i, cfg0.clone()));
        }
        let mut i = good.clone();
        i.accounts[0].pubkey = mpl_pda(&p2.wm);
        att.push(("another mint's metaplex account".into(), w.clone(), i, cfg0.clone()));
        let mut i = good.clone();
        i.accounts[0].pubkey = mpl_pda(&s.u);
        att.push(("the source's metaplex account as target".into(), w.clone(), i, cfg0.clone()));
        let pt = make_target(c, &mut w, &s, T22);
        let i = ix::syncspl(mpl_pda(&pt.wm), pt.auth, pt.wm, p.u, s.acct, s.owner_prog);
        att.push(("Token-2022 wrapped mint".into(), w.clone(), i, cfg0.clone()));
    }
    // foreign-owned unwrapped mint
    for o in [METAP, SYS, WRAP, ATA] {
        let mut w2 = w.clone();
        w2.a.get_mut(&s.u).unwrap().owner = o;
        att.push((format!("unwrapped mint owned by {}", nick(&o)), w2, good.clone(), cfg0.clone()));
    }
    // odd pointers: separate mints, each with a perfectly good Metaplex account
    for odd in ["unset", "other mint", "self without metadata", "wrapped mint"] {
        let (u, ma) = (c.key(), c.key());
        let target = match odd {
            "unset" => None,
            "other mint" => {
                let k = c.key();
                let t = TMeta { ua: ma, mint: k, name: "X".into(), symbol: "Y".into(), uri: "Z".into(), add: vec![] };
                make_mint(c.vm, &mut w, k, T22, 0, ma, None, &[Ext::MetaPtr(None, Some(k))]);
                w.fund(&k, 10_000_000);
                c.vm.must(&mut w, &spl_token_metadata_interface::instruction::initialize(&T22, &k, &ma, &k, &ma, t.name, t.symbol, t.uri), "init other");
                Some(k)
            }
            "self without metadata" => Some(u),
            _ => Some(wrapped_mint(&u, &wp)),
        };
        make_mint(c.vm, &mut w, u, T22, 2, ma, None, &[Ext::MetaPtr(Some(ma), target)]);
        let mut m = gen_mpl(c, u, ma);
        m.coll = None;
        m.uses = None;
        put_mpl(c, &mut w, mpl_pda(&u), &m);
        let ss = Source { kind: Kind::PtrMpl, u, up: T22, ma, ua: ma, acct: None, owner_prog: None, content: Content::M(m) };
        let pp = make_target(c, &mut w, &ss, wp);
        for (n, src, op) in [("metaplex supplied", Some(mpl_pda(&u)), None), ("target supplied", target, Some(T22)), ("target supplied, third party", target, Some(METAP)), ("nothing supplied", None, None)] {
            let i = sync_ix(&pp, src, op);
            let mut w2 = w.clone();
            adv::reset(emit_evil.clone());
            let o = observed(c, &mut w2, &i, std::slice::from_ref(&pp));
            adv::reset(AdvCfg::default());
            c.eval(&format!("pointer {odd} {n} {} ok={}", tpn(&wp), o.ok));
            c.cov.inc(&format!("attack: pointer {odd}"));
            if o.ok {
                c.fail(&["P13"], "odd-pointer-accepted", format!("pointer {odd}, {n}: accepted; {}", desc_ix(&i)));
            }
        }
    }
    let st0 = state(&w, &p);
    for (n, w0, i, cfg) in att {
        let mut w2 = w0.clone();
        adv::reset(cfg);
        c.malformed = true;
        let o = observed(c, &mut w2, &i, &[p.clone(), p2.clone()]);
        c.malformed = false;
        adv::reset(AdvCfg::default());
        c.cov.inc(&format!("attack: {}", n.split(',').next().unwrap()));
        c.eval(&format!("{:?} {} {n} ok={}", kind, tpn(&wp), o.ok));
        if o.ok {
            // a self-described mint needs no source account: others are not consulted
            let fine = kind == Kind::SelfPtr && i.accounts[wi].pubkey == p.wm && i.accounts[ui].pubkey == s.u && {
                let what = format!("self-described mint, {n}");
                let before = c.finds.len();
                let g = if wp == T22 { judge22(c, &w2, &s, &p, &what) } else { judge_spl(c, &w2, &s, &p, &what) };
                let _ = before;
                c.cov.inc("superfluous_source_ignored");
                g
            };
            if !fine {
                c.fail(&["P13", "P05"], "not-authoritative", format!("{:?} -> {}: {n}: accepted; {}; wrapped metadata now {:?} / {:?}", kind, tpn(&wp), desc_ix(&i), t22_meta(&w2, &p.wm).map(|m| m.name), dec_mpl(w2.data(&mpl_pda(&p.wm))).map(|m| m.name)));
            }
        } else if state(&w2, &p) != state(&w0, &p) {
            c.fail(&["P13"], "failed-but-changed", format!("{n}: metadata changed"));
        }
    }
    // the genuine source still works
    let mut w2 = w.clone();
    let o = run_sync(c, &mut w2, &p, &s, &good);
    let legit = wp == T22 || expect_spl(&s).map(|d| model_spl(c, &w, &p, d).is_ok()).unwrap_or(false);
    if o.ok {
        if wp == T22 {
            judge22(c, &w2, &s, &p, "authoritative source");
        } else {
            judge_spl(c, &w2, &s, &p, "authoritative source");
        }
        decoyed(c, &w2, &p, "authoritative source");
        c.cov.inc("authoritative_accepted");
    } else if legit {
        c.fail(&["P13"], "authoritative-refused", format!("{:?}: authoritative source refused with {}", kind, o.err_str()));
    }
    let _ = st0;
    c.sample(format!("{:?} -> {}: {} refused", kind, tpn(&wp), c.cov.evaluations));
}

/// Well-formed sources with ever more additional fields: mirroring them must not abort.
pub fn camp_heap(c: &mut Case) {
    for resync in [false, true] {
        for n in if resync { [4usize, 8, 20] } else { [8usize, 16, 40] } {
            let mut w = World::default();
            let (u, ma, ua) = (c.key(), c.key(), c.key());
            let fields = |tag: &str| -> Vec<(String, String)> { (0..n).map(|i| (format!("{tag}{i}"), "value".to_string())).collect() };
            let src = |add| TMeta { ua, mint: u, name: "Name".into(), symbol: "SYM".into(), uri: "https://example.com".into(), add };
            make_mint(c.vm, &mut w, u, T22, 6, ma, None, &[Ext::MetaPtr(Some(ma), Some(u))]);
            let p = Pair::of(u, T22, T22);
            synth_wrapped(c.vm, &mut w, &p);
            w.fund(&p.wm, 1_000_000_000);
            let i = sync_ix(&p, None, None);
            t22_meta_init(c.vm, &mut w, &u, &ua, &ma, &src(fields("new")));
            let mut o = c.vm.run(&mut w, &i);
            if resync {
                if !o.ok {
                    continue;
                }
                t22_meta_set(c.vm, &mut w, &u, &ua, &src(fields("other")));
                o = c.vm.run(&mut w, &i);
            }
            c.eval(&format!("heap resync={resync} n={n} ok={}", o.ok));
            c.cov.inc("many_fields");
            if let Some(m) = crash_of(&o, &WRAP) {
                let sig = if resync { format!("abort-replacing-{n}-fields") } else { format!("abort-mirroring-{n}-fields") };
                let what = if silent_abort(&o) { "out of heap" } else { "" };
                c.fail(&["P20"], &sig, format!("{what}: {m}"));
            }
        }
    }
}
