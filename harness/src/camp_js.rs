//! Campaigns over the JavaScript client (J01, J02).
use crate::camp_misc::any_ctx;
use crate::camp_nat::{library_takes, rand_ix, ERRORS};
use crate::camp_token::{self as ct, SceneOpts};
use crate::case::*;
use crate::ids::*;
use crate::ix;
use crate::js::{self, ask1, k, key, parse_ix, DEFAULTED, NAMES};
use crate::mon::desc_ix;
use crate::nat;
use crate::rt::*;
use crate::scene::*;
use crate::tok::*;
use crate::adv;
use rand::{Rng, RngCore};
use serde_json::{json, Map, Value};
use solana_instruction::Instruction;

fn amount(c: &mut Case, n: u64) -> Value {
    if n < 1 << 53 && c.chance(0.5) {
        json!({"f": n})
    } else {
        json!({"n": n.to_string()})
    }
}
/// How many accounts the builder of `i` can know of: the documented ones and multisig signers.
fn known_len(i: &Instruction) -> usize {
    match i.data[0] {
        0 => 5,
        1 | 2 => 9 + if i.accounts[8].is_signer { 0 } else { i.accounts[9..].iter().take_while(|m| m.is_signer).count() },
        3 => 6,
        6 => 4,
        _ => i.accounts.len(),
    }
}
/// The client's inputs for the documented instruction `i`.
fn input(c: &mut Case, i: &Instruction) -> Map<String, Value> {
    let t = i.data[0] as usize;
    let mut m = Map::new();
    for (n, name) in NAMES[t].1.iter().enumerate() {
        let Some(a) = i.accounts.get(n) else {
            if c.chance(0.2) {
                m.insert(name.to_string(), Value::Null);
            }
            continue;
        };
        if DEFAULTED.contains(name) && c.chance(0.6) {
            continue;
        }
        m.insert(name.to_string(), if a.is_signer { json!({"s": a.pubkey.to_string()}) } else { k(&a.pubkey) });
    }
    match t {
        0 => {
            if i.data[1] == 1 || c.chance(0.5) {
                m.insert("idempotent".into(), json!(i.data[1] == 1));
            }
        }
        1 | 2 => {
            let n = u64::from_le_bytes(i.data[1..9].try_into().unwrap());
            m.insert("amount".into(), amount(c, n));
            let l = known_len(i);
            if l > 9 || c.chance(0.3) {
                m.insert("multiSigners".into(), i.accounts[9..l].iter().map(|m| json!({"s": m.pubkey.to_string()})).collect());
            }
        }
        _ => {}
    }
    m
}
/// The built instruction against the documented one: `None` if it differs.
pub fn same_as(c: &mut Case, prop: &'static str, what: &str, b: &Instruction, i: &Instruction) -> bool {
    let n = known_len(i);
    let mut ok = true;
    if b.program_id != i.program_id {
        c.fail(&[prop], "js-program", format!("{what}: program {} instead of {}", b.program_id, i.program_id));
        ok = false;
    }
    if b.data != i.data {
        c.fail(&[prop], "js-data", format!("{what}: data {:?}, documented {:?}", b.data, i.data));
        ok = false;
    }
    let t = i.data[0] as usize;
    let placeholder = |m: &solana_instruction::AccountMeta| m.pubkey == i.program_id && !m.is_signer && !m.is_writable;
    let head = b.accounts.len() >= n && b.accounts[..n] == i.accounts[..n];
    let tail = if t == 4 || t == 5 { b.accounts.len() <= NAMES[t].1.len() && b.accounts.iter().skip(n).all(placeholder) } else { b.accounts.len() == n };
    if !head || !tail {
        let x = b.accounts.iter().zip(&i.accounts[..n]).position(|(x, y)| x != y);
        c.fail(&[prop], "js-accounts", format!("{what}: {} accounts (documented {n}), first difference at {x:?}: {} documented {}", b.accounts.len(), desc_ix(b), desc_ix(i)));
        ok = false;
    }
    ok
}
fn check_parsed(c: &mut Case, what: &str, p: &Value, i: &Instruction) {
    let t = i.data[0] as usize;
    let (name, names) = NAMES[t];
    if p["type"].as_str().map(|s| s.to_lowercase()) != Some(name.to_lowercase()) {
        c.fail(&["J01"], "js-parse-type", format!("{what}: {name} parsed as {}", p["type"]));
    }
    if key(&p["p"]) != Some(i.program_id) {
        c.fail(&["J01"], "js-parse-program", format!("{what}: program {}", p["p"]));
    }
    let got = p["accounts"].as_object().cloned().unwrap_or_default();
    for (n, name) in names.iter().enumerate() {
        let want = i.accounts.get(n).filter(|m| !(n >= 4 && (t == 4 || t == 5) && n + 2 >= names.len() && m.pubkey == i.program_id));
        let w = want.map(|m| json!([m.pubkey.to_string(), (m.is_signer as u8) * 2 + m.is_writable as u8])).unwrap_or(Value::Null);
        let g = got.get(*name).cloned().unwrap_or(Value::Null);
        // a client for another deployment may not recognise its placeholder
        let other = i.program_id != WRAP && w.is_null() && g == json!([i.program_id.to_string(), 0]);
        if g != w && !other {
            c.fail(&["J01"], "js-parse-account", format!("{what}: account {name} read as {g}, was {w}"));
        }
    }
    let d = &p["data"];
    if d["discriminator"].as_u64() != Some(t as u64) {
        c.fail(&["J01"], "js-parse-data", format!("{what}: discriminator {}", d["discriminator"]));
    }
    match t {
        0 if d["idempotent"].as_bool() != Some(i.data[1] == 1) => c.fail(&["J01"], "js-parse-data", format!("{what}: idempotent {} from {:?}", d["idempotent"], i.data)),
        1 | 2 => {
            let n = u64::from_le_bytes(i.data[1..9].try_into().unwrap());
            if d["amount"].as_str() != Some(&n.to_string()) {
                c.fail(&["J01"], "js-parse-data", format!("{what}: amount {} from {n}", d["amount"]));
            }
        }
        _ => {}
    }
}
/// Builds `i` through the client; returns what it built, with the hook accounts the caller appends.
fn build(c: &mut Case, i: &Instruction) -> Option<Instruction> {
    let t = i.data[0] as usize;
    let name = NAMES[t].0;
    let plugin = i.program_id == WRAP && c.chance(0.4);
    let inp = input(c, i);
    let mut q = json!({"op": "ix", "name": name, "input": inp, "plugin": plugin});
    if i.program_id != WRAP {
        q["prog"] = k(&i.program_id);
    }
    let a = ask1(q.clone());
    let what = format!("{}{name}({})", if plugin { "client." } else { "" }, q["input"]);
    let Some((b, sg)) = parse_ix(&a["ok"]["ix"]) else {
        c.fail(&["J01"], "js-builder-fails", format!("{what}: {a}"));
        return None;
    };
    c.cov.inc(&format!("built {name}"));
    same_as(c, "J01", &what, &b, i);
    for (m, s) in b.accounts.iter().zip(&sg) {
        if m.is_signer != s.is_some() || s.is_some_and(|s| s != m.pubkey) {
            c.fail(&["J01"], "js-signer", format!("{what}: signer attached to {} is {s:?}, role signer={}", m.pubkey, m.is_signer));
        }
    }
    check_parsed(c, &what, &a["ok"]["parsed"], &b);
    c.cov.inc("parsed_back");
    if plugin {
        for s in a["ok"]["sent"].as_array().cloned().unwrap_or_default() {
            if s[1] != a["ok"]["ix"] {
                c.fail(&["J01"], "js-plugin", format!("{what}: client {} {} instead of what it built", s[0], s[1]));
            }
            c.cov.inc("planned_or_sent");
        }
    }
    let mut b = b;
    let n = known_len(i);
    b.accounts.extend(i.accounts[n..].iter().cloned());
    Some(b)
}
fn fresh_ix(c: &mut Case) -> Instruction {
    loop {
        let i = rand_ix(c);
        if i.data[0] != 6 {
            return i;
        }
    }
}
/// J01: builders, parsers and encoders against the documented lists, then executed.
pub fn camp_build(c: &mut Case) {
    for _ in 0..24 {
        let i = fresh_ix(c);
        build(c, &i);
        c.eval(&format!("{:?} {} {}", i.data, i.accounts.len(), i.program_id == WRAP));
    }
    // instructions built elsewhere
    for _ in 0..6 {
        let i = rand_ix(c);
        let mut i = i;
        if c.chance(0.3) {
            for _ in 0..c.rng.gen_range(1..4) {
                let m = meta(c.key(), c.rng.gen(), c.rng.gen());
                i.accounts.push(m);
            }
        }
        let short = c.chance(0.2);
        if short {
            let n = c.below(i.accounts.len());
            i.accounts.truncate(n);
        }
        let mut q = js::ix_json(&i);
        q["op"] = json!("parse");
        q["plugin"] = json!(c.chance(0.3));
        let a = ask1(q);
        let t = i.data[0] as usize;
        let what = format!("parsing {}", desc_ix(&i));
        if t == 6 {
            // not offered by this client: it must not be taken for another operation
            if let Some(x) = a["ok"]["type"].as_str() {
                if NAMES[..6].iter().any(|n| n.0.to_lowercase() == x.to_lowercase()) {
                    c.fail(&["J01"], "js-identify", format!("{what}: taken for {x}"));
                }
            }
            continue;
        }
        let nm = NAMES[t].0.to_lowercase();
        for f in ["type", "raw"] {
            if a["ok"][f].as_str().map(|s| s.to_lowercase()) != Some(nm.clone()) {
                c.fail(&["J01"], "js-identify", format!("{what}: identified as {a}"));
            }
        }
        let max = NAMES[t].1.len();
        if a["ok"]["parsed"].is_object() {
            if i.accounts.len() < max && t != 4 && t != 5 {
                c.fail(&["J01"], "js-parse-short", format!("{what}: {} accounts accepted, {max} needed", i.accounts.len()));
            } else {
                // a program id in an optional place stands for nothing
                check_parsed(c, &what, &a["ok"]["parsed"], &i);
            }
            c.cov.inc("parsed_foreign");
        } else if i.accounts.len() >= max {
            c.fail(&["J01"], "js-parse-refused", format!("{what}: {a}"));
        }
    }
    // instruction data alone
    for t in 0..6usize {
        let n = if c.chance(0.5) { c.rng.gen() } else { c.pick(&[0u64, 1, u64::MAX, 1 << 53, (1 << 53) + 1, 1 << 63, 255, 256]) };
        let b: bool = c.rng.gen();
        let (args, want) = match t {
            0 => (json!({"idempotent": b}), vec![0, b as u8]),
            1 | 2 => (json!({"amount": amount(c, n)}), ix::amt(t as u8, n)),
            _ => (json!({}), vec![t as u8]),
        };
        let a = ask1(json!({"op": "data", "name": NAMES[t].0, "args": args}));
        let r = &a["ok"];
        if r["enc"] != json!(js::hex(&want)) || r["enc2"] != json!(js::hex(&want)) || r["disc"] != json!(js::hex(&[t as u8])) {
            c.fail(&["J01"], "js-encode", format!("{} {args}: {a}, documented {want:?}", NAMES[t].0));
        }
        for d in ["dec", "dec2"] {
            let ok = r[d]["discriminator"] == json!(t)
                && match t {
                    0 => r[d]["idempotent"] == json!(b),
                    1 | 2 => r[d]["amount"] == json!(n.to_string()),
                    _ => true,
                };
            if !ok {
                c.fail(&["J01"], "js-decode", format!("{} {args} read back as {}", NAMES[t].0, r[d]));
            }
        }
        c.cov.inc("encodings");
        c.eval(&format!("data {t} {n} {b}"));
    }
    // amounts that no u64 holds
    for t in [1usize, 2] {
        let x = c.pick(&["18446744073709551616", "-1", "340282366920938463463374607431768211455", "-18446744073709551615"]);
        let a = ask1(json!({"op": "data", "name": NAMES[t].0, "args": {"amount": {"n": x}}}));
        if a["ok"].is_object() {
            c.fail(&["J01"], "js-amount-range", format!("{} of {x} encoded as {}", NAMES[t].0, a["ok"]["enc"]));
        }
        c.cov.inc("out_of_range_refused");
    }
    for _ in 0..2 {
        let x = any_ctx(c);
        if x.i.data[0] == 6 {
            continue;
        }
        adv::reset(x.cfg.clone());
        let o0 = c.vm.dry(&x.w, &x.i);
        let Some(b) = build(c, &x.i) else { continue };
        adv::reset(x.cfg.clone());
        let o = c.vm.dry(&x.w, &b);
        if o.ok != o0.ok || (o.ok && x.i.accounts.iter().any(|m| o.post.get(&m.pubkey).map(|a| &a.data) != o0.post.get(&m.pubkey).map(|a| &a.data) && m.pubkey != WRAP)) {
            c.fail(&["J01"], "js-executed", format!("{} built by the client: {}; documented: {}", x.label, o.err_str(), o0.err_str()));
        }
        if !o.ok && library_takes(c, &x) {
            c.fail(&["J01"], "js-executed", format!("{} built by the client: {}, but the program takes what its own library builds", x.label, o.err_str()));
        }
        if o.ok {
            c.cov.inc(&format!("accepted {}", NAMES[b.data[0] as usize].0));
            if b.accounts.len() > 9 && b.accounts[9].is_signer && !b.accounts[8].is_signer {
                c.cov.inc("accepted multisig");
            }
        }
        c.eval(&format!("{} ok={}", x.label, o.ok));
        c.sample(format!("{} -> {}", desc_ix(&b), o.err_str()));
    }
}
fn pda_q(name: &str, seeds: Value, prog: &Pubkey, plugin: bool) -> Value {
    let mut q = json!({"op": "pda", "name": name, "seeds": seeds, "plugin": plugin});
    if *prog != WRAP {
        q["prog"] = k(prog);
    }
    q
}
fn acct_json(w: &World, l: &[Pubkey]) -> Value {
    let mut m = Map::new();
    for a in l {
        if let Some(x) = w.a.get(a) {
            if x.lamports > 0 || !x.data.is_empty() {
                m.insert(a.to_string(), json!({"o": x.owner.to_string(), "l": x.lamports.to_string(), "d": js::hex(&x.data), "x": x.executable}));
            }
        }
    }
    Value::Object(m)
}
fn all_json(w: &World) -> Value {
    let l: Vec<Pubkey> = w.a.keys().cloned().collect();
    acct_json(w, &l)
}
/// J01: addresses, account layouts, fetchers, errors.
pub fn camp_addr(c: &mut Case) {
    for _ in 0..10 {
        let (u, w) = (c.key(), c.key());
        let wp = match c.below(4) {
            0 => SPL,
            1 | 2 => T22,
            _ => c.key(),
        };
        let prog = if c.chance(0.3) { c.key() } else { WRAP };
        let plugin = c.chance(0.4);
        for (name, seeds, want) in [
            ("backpointer", json!({"wrappedMint": k(&w)}), pda(&prog, &[b"backpointer", w.as_ref()])),
            ("wrappedMint", json!({"unwrappedMint": k(&u), "wrappedTokenProgram": k(&wp)}), pda(&prog, &[b"mint", u.as_ref(), wp.as_ref()])),
            ("wrappedMintAuthority", json!({"wrappedMint": k(&w)}), pda(&prog, &[b"authority", w.as_ref()])),
        ] {
            let q = pda_q(name, seeds, &prog, plugin);
            let a = ask1(q.clone());
            if a["ok"] != json!([want.0.to_string(), want.1]) {
                c.fail(&["J01"], "js-address", format!("{q}: {a}, derived {want:?}"));
            }
            c.cov.inc("addresses");
            c.eval(&format!("pda {name} {} {}", prog == WRAP, want.0));
        }
    }
    // the account that links a wrapped mint to its unwrapped mint
    let u = c.key();
    let mut q = json!({"op": "backpointer", "d": js::hex(u.as_ref()), "u": k(&u)});
    let a = ask1(q.clone());
    let r = &a["ok"];
    if r["size"] != json!(32) || r["dec"] != k(&u) || r["dec2"] != k(&u) || r["acct"] != k(&u) || r["enc"] != json!(js::hex(u.as_ref())) || r["enc2"] != r["enc"] {
        c.fail(&["J01"], "js-backpointer", format!("account of {u}: {a}"));
    }
    let short = c.below(32);
    q["d"] = json!(js::hex(&u.as_ref()[..short]));
    let a = ask1(q);
    if a["ok"].is_object() {
        c.fail(&["J01"], "js-backpointer", format!("account of {short} bytes read as {a}"));
    }
    c.cov.inc("layouts");
    // fetched from a node
    let mut w = World::default();
    let mut pairs = vec![];
    for _ in 0..c.rng.gen_range(1..4) {
        let p = make_pair(c, &mut w, &PairOpts { no_escrow: true, ..Default::default() });
        pairs.push(p);
    }
    let mut list: Vec<(Pubkey, Option<Pubkey>)> = pairs.iter().map(|p| (p.bp, Some(p.u))).collect();
    if c.chance(0.5) {
        let at = c.below(list.len() + 1);
        list.insert(at, (c.key(), None));
    }
    let p0 = c.pick(&pairs);
    let prog = if c.chance(0.2) { c.key() } else { WRAP };
    let mut q = json!({"op": "fetch", "list": list.iter().map(|x| k(&x.0)).collect::<Vec<_>>(), "w": k(&p0.wm), "accounts": all_json(&w)});
    if prog != WRAP {
        q["prog"] = k(&prog);
    }
    let a = ask1(q);
    let r = &a["ok"];
    let is = |v: &Value, x: &(Pubkey, Option<Pubkey>)| match x.1 {
        Some(u) => v["address"] == k(&x.0) && v["exists"] == json!(true) && v["data"]["unwrappedMint"] == k(&u),
        None => v["address"] == k(&x.0) && v["exists"] == json!(false),
    };
    let mut bad = vec![];
    let missing = list.iter().any(|x| x.1.is_none());
    for f in ["maybe", "fetch", "pFetch"] {
        let must_fail = f != "maybe" && list[0].1.is_none();
        if must_fail != r[f]["error"].is_string() || !(must_fail || is(&r[f], &list[0])) {
            bad.push(f);
        }
    }
    for f in ["all", "allMaybe", "pAllMaybe"] {
        let must_fail = f == "all" && missing;
        let v = r[f].as_array();
        if must_fail != r[f]["error"].is_string() || !(must_fail || v.is_some_and(|v| v.len() == list.len() && v.iter().zip(&list).all(|(v, x)| is(v, x)))) {
            bad.push(f);
        }
    }
    let here = (backpointer_in(&prog, &p0.wm), (prog == WRAP).then_some(p0.u));
    if !is(&r["maybeSeeds"], &here) {
        bad.push("maybeSeeds");
    }
    if here.1.is_none() != r["seeds"]["error"].is_string() || !(here.1.is_none() || is(&r["seeds"], &here)) {
        bad.push("seeds");
    }
    if !bad.is_empty() {
        c.fail(&["J01"], "js-fetch", format!("reading {list:?}: {bad:?} wrong in {a}"));
    }
    c.cov.inc("fetches");
    c.eval(&format!("fetch {} {missing} {}", list.len(), prog == WRAP));
    // errors
    let a = ask1(json!({"op": "errors"}));
    if key(&a["ok"]["program"]) != Some(WRAP) {
        c.fail(&["J01"], "js-program-address", format!("{}", a["ok"]["program"]));
    }
    let e = a["ok"]["errors"].as_object().cloned().unwrap_or_default();
    for (n, name) in ERRORS.iter().enumerate() {
        let lib = nat::ask1(format!("error {n}"));
        let msg = lib.splitn(5, ' ').nth(4).unwrap_or("").to_string();
        let want: String = name.chars().flat_map(|x| if x.is_uppercase() { vec!['_', x] } else { vec![x.to_ascii_uppercase()] }).collect();
        let got = e.get(&format!("TOKEN_WRAP_ERROR_{want}"));
        if got != Some(&json!([n, msg])) {
            c.fail(&["J01"], "js-error", format!("{name}: {got:?} instead of [{n}, {msg:?}]"));
        }
        c.cov.inc("error_codes");
    }
    let progs = [WRAP, SYS, c.key()];
    let idx = c.below(3);
    let order: Vec<Pubkey> = (0..3).map(|_| c.pick(&progs)).collect();
    let (code, want) = (c.below(20), if c.chance(0.5) { Some(c.below(20)) } else { None });
    let custom = c.chance(0.8);
    let a = ask1(json!({"op": "iserr", "custom": custom, "code": code, "index": idx, "want": want, "progs": order.iter().map(k).collect::<Vec<_>>()}));
    let expect = custom && order[idx] == WRAP && want.is_none_or(|w| w == code);
    if a["ok"]["is"] != json!(expect) {
        c.fail(&["J01"], "js-is-error", format!("error {code} (custom {custom}) of instruction {idx} of {order:?}, asked for {want:?}: {a}"));
    }
    c.sample(format!("errors {}", e.len()));
}
fn log_has(c: &mut Case, a: &Value, what: &str) -> Option<Value> {
    if a["ok"]["r"].is_object() {
        Some(a["ok"]["r"].clone())
    } else {
        c.fail(&["J01"], "js-helper-fails", format!("{what}: {a}"));
        None
    }
}
/// J01: the single-signer and offline multisig helpers.
pub fn camp_move(c: &mut Case) {
    let wrap = c.chance(0.5);
    let s = ct::scene(c, &SceneOpts { wrap: Some(wrap), ..Default::default() });
    let offline = c.chance(0.4);
    let members: Vec<Pubkey> = s.holder.signers.iter().map(|m| m.pubkey).collect();
    let payer = if offline && !members.is_empty() && c.chance(0.4) {
        c.cov.inc("payer is a member");
        c.pick(&members)
    } else if c.chance(0.4) {
        s.a.ta
    } else {
        c.key()
    };
    let mut want = s.a.clone();
    let (nsrc, nrec) = if wrap { ("unwrappedTokenAccount", "recipientWrappedTokenAccount") } else { ("wrappedTokenAccount", "recipientUnwrappedToken") };
    let mut args = Map::new();
    args.insert("payer".into(), json!({"s": payer.to_string()}));
    args.insert(nsrc.into(), k(&s.a.source));
    args.insert("amount".into(), amount(c, s.a.amount));
    let ta = if s.a.ta_signer { json!({"s": s.a.ta.to_string()}) } else { k(&s.a.ta) };
    let label;
    let mut w = s.w.clone();
    let mut must_fail = false;
    // what is given may contradict the accounts; it is used, not replaced
    let (mut gu, mut gup, mut gwp) = (s.a.unwrapped_mint, s.a.up, s.a.wp);
    let other = |p: Pubkey| if p == SPL { T22 } else { SPL };
    if !offline && c.chance(0.15) {
        match c.below(3) {
            0 => gu = c.key(),
            1 => gup = other(gup),
            _ => gwp = other(gwp),
        }
    }
    let mut odd = false;
    if offline {
        for (n, v) in [("wrappedTokenProgram", s.a.wp), ("unwrappedTokenProgram", s.a.up), ("wrappedMint", s.a.wrapped_mint), ("wrappedMintAuthority", s.a.authority), ("unwrappedMint", s.a.unwrapped_mint), (nrec, s.a.recipient)] {
            args.insert(n.into(), k(&v));
        }
        args.insert("transferAuthority".into(), ta);
        args.insert("multiSigners".into(), s.holder.signers.iter().map(|m| json!({"s": m.pubkey.to_string()})).collect());
        args.insert("blockhash".into(), json!({"blockhash": c.key().to_string(), "lastValidBlockHeight": {"n": c.rng.gen::<u32>().to_string()}}));
        label = "offline".to_string();
    } else {
        want.extras.retain(|m| !m.is_signer);
        let mut l = String::new();
        let own_ata = wrap && c.chance(0.4);
        if !own_ata {
            args.insert(nrec.into(), k(&s.a.recipient));
        }
        if c.chance(0.5) {
            args.insert("transferAuthority".into(), ta);
        } else {
            want.ta = payer;
            want.ta_signer = true;
            l += " ta=payer";
        }
        let mut reads_src = false;
        let mut reads_rec = false;
        if wrap || c.chance(0.4) {
            args.insert("wrappedTokenProgram".into(), k(&gwp));
            want.wp = gwp;
        } else {
            reads_src = true;
            l += " wp=read";
        }
        if c.chance(0.4) {
            args.insert("unwrappedTokenProgram".into(), k(&gup));
            want.up = gup;
        } else if wrap {
            reads_src = true;
        } else {
            reads_rec = true;
        }
        if c.chance(0.4) {
            args.insert("unwrappedMint".into(), k(&gu));
            want.unwrapped_mint = gu;
        } else if wrap {
            reads_src = true;
        } else {
            reads_rec = true;
        }
        reads_src |= !wrap;
        odd = (want.wp, want.up, want.unwrapped_mint) != (s.a.wp, s.a.up, s.a.unwrapped_mint);
        if odd {
            if wrap {
                want.wrapped_mint = wrapped_mint(&want.unwrapped_mint, &want.wp);
                want.authority = authority(&want.wrapped_mint);
            }
            want.escrow = ata(&want.authority, &want.unwrapped_mint, &want.up);
            l += " contradiction";
        }
        if own_ata {
            want.recipient = ata(&payer, &want.wrapped_mint, &want.wp);
            l += " recipient=ata";
        }
        if c.chance(0.1) {
            w.a.remove(&s.a.source);
            must_fail |= reads_src;
            l += " source missing";
        }
        if c.chance(0.1) && !wrap {
            w.a.remove(&s.a.recipient);
            must_fail |= reads_rec;
            l += " recipient missing";
        }
        label = format!("single{l}");
    }
    let name = match (offline, wrap) {
        (true, true) => "multisigOfflineSignWrap",
        (true, false) => "multisigOfflineSignUnwrap",
        (false, true) => "singleSignerWrap",
        (false, false) => "singleSignerUnwrap",
    };
    let q = json!({"op": "helper", "name": name, "args": args, "accounts": acct_json(&w, &[s.a.source, s.a.recipient, s.a.unwrapped_mint, s.a.wrapped_mint, s.a.escrow])});
    let a = ask1(q.clone());
    let what = format!("{name}({})", q["args"]);
    c.eval(&format!("{} {label} fail={must_fail}", s.label));
    if must_fail {
        if a["ok"].is_object() {
            c.fail(&["J01"], "js-helper-missing", format!("{what}: {label}, but it built {a}"));
        }
        c.cov.inc("missing_account_refused");
        return;
    }
    if odd {
        c.cov.inc("given_values_contradict");
        if !a["ok"]["r"].is_object() {
            return;
        }
    }
    let Some(r) = log_has(c, &a, &what) else { return };
    let ixs = r["ixs"].as_array().cloned().unwrap_or_default();
    let built = if ixs.len() == 1 { parse_ix(&ixs[0]) } else { None };
    let Some((b, _)) = built else {
        c.fail(&["J01"], "js-helper-shape", format!("{what}: {r}"));
        return;
    };
    let mut doc = s.with(&want);
    let n = 9 + if offline { s.holder.signers.len() } else { 0 };
    let extras = doc.accounts.split_off(n);
    same_as_exact(c, &what, &b, &doc);
    if offline {
        let want = json!({"blockhash": q["args"]["blockhash"]["blockhash"], "lastValidBlockHeight": q["args"]["blockhash"]["lastValidBlockHeight"]["n"]});
        if r["payer"] != k(&payer) || r["life"] != want || r["version"] != json!(0) {
            c.fail(&["J01"], "js-helper-message", format!("{what}: payer {} lifetime {} version {}", r["payer"], r["life"], r["version"]));
        }
        c.cov.inc("offline_messages");
    } else {
        let ok = r["amount"] == json!(s.a.amount.to_string())
            && if wrap { r["recipientWrappedTokenAccount"] == k(&want.recipient) && r["escrowAccount"] == k(&want.escrow) } else { r["recipientUnwrappedToken"] == k(&want.recipient) };
        if !ok {
            c.fail(&["J01"], "js-helper-result", format!("{what}: reported {r}"));
        }
        c.cov.inc(&format!("helper {name}"));
    }
    // and it does what the documented instruction does
    let mut b = b;
    b.accounts.extend(extras.iter().cloned());
    doc.accounts.extend(extras);
    adv::reset(Default::default());
    let o0 = c.vm.dry(&s.w, &doc);
    adv::reset(Default::default());
    let o = c.vm.dry(&s.w, &b);
    if o.ok != o0.ok {
        c.fail(&["J01"], "js-helper-executed", format!("{what}: {} instead of {}", o.err_str(), o0.err_str()));
    }
    if o.ok {
        c.cov.inc(&format!("landed {name}"));
    }
    c.sample(format!("{what} -> {}", o.err_str()));
}
fn same_as_exact(c: &mut Case, what: &str, b: &Instruction, i: &Instruction) {
    if b != i {
        let x = b.accounts.iter().zip(&i.accounts).position(|(x, y)| x != y);
        c.fail(&["J01"], "js-helper-instruction", format!("{what}: first account difference {x:?}; {} documented {}", desc_ix(b), desc_ix(i)));
    }
}
fn run_all(c: &mut Case, w: &World, ixs: &[Instruction]) -> (World, bool, String) {
    let mut x = w.clone();
    let (o, ok) = c.vm.tx(&mut x, ixs);
    (x, ok, o.iter().map(|o| o.err_str()).collect::<Vec<_>>().join(","))
}
fn parse_all(v: &Value) -> Option<Vec<Instruction>> {
    v.as_array()?.iter().map(|i| parse_ix(i).map(|x| x.0)).collect()
}
/// J01: creating mints and escrows.
pub fn camp_create(c: &mut Case) {
    let mut w = World::default();
    let payer = c.key();
    w.fund(&payer, 1 << 40);
    if c.chance(0.6) {
        let existing = c.chance(0.3);
        let p = make_pair(c, &mut w, &PairOpts { no_escrow: true, real_create: true, nested: Some(false), native: 0.08, ..Default::default() });
        // the size the program gives the wrapped mint
        let size = w.get(&p.wm).data.len();
        let mut real = vec![];
        for (a, n) in [(p.wm, size), (p.bp, 32)] {
            if !existing {
                w.a.remove(&a);
                let r = c.vm.rent(n);
                let l = match c.below(6) {
                    0 | 1 => 0,
                    2 => r - 1,
                    3 => r,
                    4 => c.rng.gen_range(1..r),
                    _ => r + c.rng.gen_range(1..1_000_000),
                };
                if l > 0 {
                    w.fund(&a, l);
                }
            } else if c.chance(0.5) {
                let r = c.vm.rent(n);
                w.a.get_mut(&a).unwrap().lamports = r + c.below(2) as u64 * 5;
            }
            real.push(w.lamports(&a));
        }
        let std = c.chance(0.7);
        let rate = if std { c.vm.rent(1) - c.vm.rent(0) } else { c.pick(&[1u64, 100, 5080, 20_000]) };
        let idem: bool = c.rng.gen();
        let mut args = json!({"unwrappedMint": k(&p.u), "wrappedTokenProgram": k(&p.wp), "payer": {"s": payer.to_string()}});
        if idem || c.chance(0.5) {
            args["idempotent"] = json!(idem);
        }
        let q = json!({"op": "helper", "name": "createMint", "args": args, "rent": rate, "accounts": acct_json(&w, &[p.wm, p.bp, p.u])});
        let a = ask1(q.clone());
        let what = format!("createMint({}) with {real:?} lamports, size {size}, rate {rate}", q["args"]);
        c.eval(&format!("create {} existing={existing} idem={idem} std={std} {real:?}", tpn(&p.wp)));
        let Some(r) = log_has(c, &a, &what) else { return };
        let need: Vec<u64> = [(size, real[0]), (32, real[1])].iter().map(|(n, l)| ((128 + *n as u64) * rate).saturating_sub(*l)).collect();
        if r["wrappedMint"] != k(&p.wm) || r["backpointer"] != k(&p.bp) || r["fundedWrappedMintLamports"] != json!(need[0].to_string()) || r["fundedBackpointerLamports"] != json!(need[1].to_string()) {
            c.fail(&["J01"], "js-create-funding", format!("{what}: {r}, missing rent {need:?}"));
        }
        let Some(ixs) = parse_all(&r["ixs"]) else {
            c.fail(&["J01"], "js-helper-shape", format!("{what}: {r}"));
            return;
        };
        match ixs.last() {
            Some(l) => same_as_exact(c, &what, l, &ix::create_mint(p.u, p.wp, idem)),
            None => c.fail(&["J01"], "js-helper-shape", format!("{what}: no instructions")),
        }
        c.cov.inc(if need[0] + need[1] == 0 { "create already funded" } else { "create funds the rest" });
        let (x, ok, e) = run_all(c, &w, &ixs);
        let paid = w.lamports(&payer) - x.lamports(&payer);
        if ok && (paid != need[0] + need[1] || x.lamports(&p.wm) != real[0] + need[0] || x.lamports(&p.bp) != real[1] + need[1]) {
            c.fail(&["J01"], "js-create-paid", format!("{what}: payer paid {paid}, {need:?} missing"));
        }
        if std {
            let expect = !existing || idem;
            if ok != expect {
                c.fail(&["J01"], "js-create-executed", format!("{what}: {e}"));
            }
            if ok {
                c.cov.inc(&format!("created {}", tpn(&p.wp)));
            }
        }
        c.sample(format!("{what} -> {e}"));
        return;
    }
    // escrow
    let existing = c.below(4);
    let p = make_pair(c, &mut w, &PairOpts { no_escrow: existing != 0, native: 0.08, ..Default::default() });
    match existing {
        1 => {
            let l = c.pick(&[1u64, 890_880, 2_039_280, 10_000_000]);
            w.fund(&p.escrow, l)
        }
        2 if c.chance(0.3) => {
            w.a.remove(&p.u);
        }
        _ => {}
    }
    let no_mint = !w.a.contains_key(&p.u);
    let q = json!({"op": "helper", "name": "createEscrowAccount", "args": {"unwrappedMint": k(&p.u), "wrappedTokenProgram": k(&p.wp), "payer": {"s": payer.to_string()}}, "accounts": acct_json(&w, &[p.wm, p.bp, p.u, p.escrow])});
    let a = ask1(q.clone());
    let what = format!("createEscrowAccount({}) escrow state {existing}", q["args"]);
    c.eval(&format!("escrow {} {} {existing} {no_mint} {:?}", tpn(&p.up), tpn(&p.wp), p.exts.iter().map(|e| e.ty()).collect::<Vec<_>>()));
    if no_mint {
        if a["ok"].is_object() {
            c.fail(&["J01"], "js-helper-missing", format!("{what}: no mint, but {a}"));
        }
        c.cov.inc("missing_account_refused");
        return;
    }
    let Some(r) = log_has(c, &a, &what) else { return };
    if existing == 0 {
        let t = &r["account"];
        if r["kind"] != json!("already_exists") || t["address"] != k(&p.escrow) || t["data"]["mint"] != k(&p.u) || t["data"]["owner"] != k(&p.auth) || t["data"]["amount"] != json!(w.bal(&p.escrow).to_string()) {
            c.fail(&["J01"], "js-escrow-existing", format!("{what}: {r}"));
        }
        c.cov.inc("escrow_found");
        return;
    }
    if r["kind"] != json!("instructions_to_create") || r["address"] != k(&p.escrow) {
        c.fail(&["J01"], "js-escrow-new", format!("{what}: {r}"));
        return;
    }
    let Some(ixs) = parse_all(&r["ixs"]) else {
        c.fail(&["J01"], "js-helper-shape", format!("{what}: {r}"));
        return;
    };
    let (x, ok, e) = run_all(c, &w, &ixs);
    let (y, ok0, e0) = run_all(c, &w, &[ix::create_ata(payer, p.auth, p.u, p.up, false)]);
    if ok != ok0 || world_diff(&x, &y).iter().any(|_| true) {
        c.fail(&["J01"], "js-escrow-executed", format!("{what}: {e}, documented {e0}, differing {:?}", world_diff(&x, &y)));
    }
    if ok {
        c.cov.inc(if existing == 1 { "escrow_created_prefunded" } else { "escrow_created" });
    }
    c.sample(format!("{what} -> {e}"));
}
/// J02: combining separately signed transactions.
pub fn camp_combine(c: &mut Case) {
    for _ in 0..40 {
        let n = c.rng.gen_range(1..=12usize);
        let signers: Vec<Pubkey> = (0..n).map(|_| c.key()).collect();
        let len = match c.below(10) {
            0 => c.rng.gen_range(0..4),
            1 => c.rng.gen_range(1100..1260),
            2 => 1231 - 64 * n.min(19) + c.below(3),
            _ => c.rng.gen_range(100..460),
        };
        let mut msg = vec![0u8; len];
        c.rng.fill_bytes(&mut msg);
        let nt = match c.below(8) {
            0 => 1,
            1 => 2,
            _ => c.rng.gen_range(1..=12usize),
        };
        // who signed which copy
        let mut has = vec![vec![false; n]; nt];
        let style = c.below(4);
        for (t, row) in has.iter_mut().enumerate() {
            for (s, h) in row.iter_mut().enumerate() {
                *h = match style {
                    0 => s % nt == t,
                    1 => c.rng.gen_bool(0.5),
                    2 => t + s >= 1 && (t + s) % 2 == 0 || s % nt == t,
                    _ => c.rng.gen_bool(0.9),
                };
            }
        }
        if c.chance(0.7) {
            // somebody signs what nobody has signed
            for s in 0..n {
                if !has.iter().any(|r| r[s]) {
                    let t = c.below(nt);
                    has[t][s] = true;
                }
            }
        }
        if c.chance(0.25) {
            let s = c.below(n);
            for r in has.iter_mut() {
                r[s] = false;
            }
        }
        let conflict = c.chance(0.15);
        let sigs: Vec<Vec<u8>> = (0..n)
            .map(|_| {
                let mut b = vec![0u8; 64];
                c.rng.fill_bytes(&mut b);
                if c.chance(0.1) {
                    b[..8].fill(0);
                }
                b
            })
            .collect();
        let mut given: Vec<Vec<String>> = vec![vec![]; n];
        let mut txs = vec![];
        let mut differ = "";
        let odd = if nt > 1 && c.chance(0.35) { Some(c.below(nt)) } else { None };
        let life0 = json!({"blockhash": c.key().to_string(), "lastValidBlockHeight": "7"});
        for t in 0..nt {
            let mut m = msg.clone();
            if odd == Some(t) {
                differ = match c.below(6) {
                    0 if !m.is_empty() => {
                        let i = c.below(m.len());
                        m[i] ^= 1 << c.below(8);
                        "bit"
                    }
                    1 if !m.is_empty() => {
                        m.pop();
                        "shorter"
                    }
                    2 => {
                        m.push(c.rng.gen());
                        "longer"
                    }
                    3 if !m.is_empty() => {
                        m.clear();
                        "empty"
                    }
                    4 if !m.is_empty() => {
                        let l = m.len();
                        m[l - 1] = m[l - 1].wrapping_add(1);
                        "last byte"
                    }
                    5 if m.len() > 1 && m[0] != m[1] => {
                        m.swap(0, 1);
                        "swapped"
                    }
                    _ => {
                        m.push(0);
                        "longer"
                    }
                };
            }
            let mut order: Vec<usize> = (0..n).collect();
            if t > 0 && c.chance(0.3) {
                order.reverse();
            }
            let mut s = vec![];
            for i in order {
                if has[t][i] {
                    let mut x = sigs[i].clone();
                    if conflict && given[i].len() == 1 {
                        x[5] ^= 0x40;
                    }
                    let h = js::hex(&x);
                    if !given[i].contains(&h) {
                        given[i].push(h.clone());
                    }
                    s.push(json!([signers[i].to_string(), h]));
                } else if t == 0 || c.chance(0.9) {
                    s.push(json!([signers[i].to_string(), Value::Null]));
                }
            }
            let life = if c.chance(0.2) { json!({"blockhash": c.key().to_string(), "lastValidBlockHeight": "9"}) } else { life0.clone() };
            txs.push(json!({"m": js::hex(&m), "s": s, "life": life}));
        }
        if c.chance(0.03) {
            txs.clear();
        }
        let a = ask1(json!({"op": "combine", "txs": txs, "life": life0}));
        let missing: Vec<usize> = (0..n).filter(|i| given[*i].is_empty()).collect();
        let size = 1 + 64 * n + len;
        let what = format!("{nt} copies, {n} signers, message of {len} bytes, signed {has:?}, differing: '{differ}'");
        let expect = !txs.is_empty() && differ.is_empty() && missing.is_empty() && size <= 1232;
        c.eval(&format!("{nt} {n} {has:?} {differ} {conflict} {}", size <= 1232));
        if !expect {
            if a["ok"].is_object() {
                c.fail(&["J02"], "combined-wrongly", format!("{what}: missing {missing:?}, but it returned {a}"));
            }
            c.cov.inc(match () {
                _ if txs.is_empty() => "empty_refused",
                _ if !differ.is_empty() => "different_refused",
                _ if !missing.is_empty() => "missing_refused",
                _ => "oversize_refused",
            });
            if !differ.is_empty() {
                c.cov.inc(&format!("different {differ}"));
            }
            continue;
        }
        let r = &a["ok"];
        if !r.is_object() {
            c.fail(&["J02"], "not-combined", format!("{what}: {a}"));
            continue;
        }
        if r["m"] != json!(js::hex(&msg)) {
            c.fail(&["J02"], "message-changed", format!("{what}: message {}", r["m"]));
        }
        if r["life"] != life0 {
            c.fail(&["J02"], "lifetime", format!("{what}: lifetime {} given {life0}", r["life"]));
        }
        let got = r["s"].as_array().cloned().unwrap_or_default();
        let ok = got.len() == n && got.iter().enumerate().all(|(i, g)| g[0] == k(&signers[i]) && g[1].as_str().is_some_and(|x| given[i].iter().any(|y| y == x)));
        if !ok {
            c.fail(&["J02"], "signatures", format!("{what}: {} signatures {:?}, given {given:?}", got.len(), r["s"]));
        }
        if r["touched"] == json!(true) {
            c.fail(&["J02"], "inputs-changed", format!("{what}: the given transactions were modified"));
        }
        c.cov.inc(if nt == 1 { "single_combined" } else { "combined" });
        if conflict {
            c.cov.inc("conflicting_copies");
        }
        c.sample(what);
    }
}
