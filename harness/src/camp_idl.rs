//! J03: the published interface description, read by an interpreter that knows nothing of the program.
use crate::camp_js::same_as;
use crate::camp_misc::any_ctx;
use crate::camp_nat::{library_takes, rand_ix, ERRORS};
use crate::case::*;
use crate::ids::*;
use crate::js::{self, ask1, DEFAULTED, NAMES};
use crate::mon::desc_ix;
use crate::nat;
use crate::rt::*;
use crate::adv;
use rand::Rng;
use serde_json::{json, Map, Value};
use solana_instruction::{AccountMeta, Instruction};
use std::cell::RefCell;
use std::collections::BTreeMap;

thread_local! { static DESC: RefCell<Vec<(String, Value)>> = const { RefCell::new(vec![]) }; }

/// The descriptions: the published file, and what its generator writes.
fn descriptions() -> Vec<(String, Value)> {
    DESC.with(|d| {
        let mut d = d.borrow_mut();
        if d.is_empty() {
            let p = "/repo/idl.json";
            let s = std::fs::read_to_string(p).unwrap_or_default();
            d.push(("idl.json".into(), serde_json::from_str(&s).unwrap_or(Value::Null)));
            let a = ask1(json!({"op": "idl"}));
            let w = a["ok"].as_array().and_then(|l| l.iter().rev().find(|x| x[0].as_str().is_some_and(|p| p.ends_with(".json"))).cloned());
            d.push(("idl.ts".into(), w.and_then(|w| serde_json::from_str(w[1].as_str()?).ok()).unwrap_or(Value::Null)));
        }
        d.clone()
    })
}
fn name_is(v: &Value, n: &str) -> bool {
    let mut a = v["name"].as_str().unwrap_or("").to_string();
    if let Some(f) = a.get(0..1) {
        a = f.to_lowercase() + &a[1..];
    }
    a == n
}
fn list<'a>(v: &'a Value, f: &str) -> &'a [Value] {
    v[f].as_array().map(|l| &l[..]).unwrap_or(&[])
}
fn find<'a>(v: &'a Value, f: &str, n: &str) -> Option<&'a Value> {
    list(v, f).iter().find(|x| name_is(x, n))
}
/// Bytes of a value of a described type.
fn encode(t: &Value, v: &Value) -> Result<Vec<u8>, String> {
    Ok(match t["kind"].as_str().unwrap_or("") {
        "numberTypeNode" => {
            let n: u128 = match v {
                Value::Bool(b) => *b as u128,
                Value::String(s) => s.parse().map_err(|_| format!("number {s}"))?,
                _ => v.as_u64().ok_or(format!("number {v}"))? as u128,
            };
            let size = match t["format"].as_str().unwrap_or("") {
                "u8" => 1,
                "u16" => 2,
                "u32" => 4,
                "u64" => 8,
                "u128" => 16,
                f => return Err(format!("number format {f}")),
            };
            if size < 16 && n >> (8 * size) != 0 {
                return Err(format!("{n} does not fit in {size} bytes"));
            }
            let mut b = n.to_le_bytes()[..size].to_vec();
            if t["endian"] == json!("be") {
                b.reverse();
            }
            b
        }
        "booleanTypeNode" => encode(&t["size"], &json!(v.as_bool().ok_or(format!("boolean {v}"))? as u8))?,
        "publicKeyTypeNode" => v.as_str().and_then(|s| s.parse::<Pubkey>().ok()).ok_or(format!("address {v}"))?.to_bytes().to_vec(),
        "stringTypeNode" if t["encoding"] == json!("utf8") => v.as_str().ok_or(format!("string {v}"))?.as_bytes().to_vec(),
        k => return Err(format!("type {k}")),
    })
}
fn value(v: &Value) -> Result<Value, String> {
    Ok(match v["kind"].as_str().unwrap_or("") {
        "numberValueNode" => v["number"].clone(),
        "booleanValueNode" => v["boolean"].clone(),
        "stringValueNode" => v["string"].clone(),
        "publicKeyValueNode" => v["publicKey"].clone(),
        k => return Err(format!("value {k}")),
    })
}
fn described_pda(p: &Value, name: &str, vals: &BTreeMap<String, Pubkey>, prog: &Pubkey) -> Result<(Pubkey, u8), String> {
    let d = find(p, "pdas", name).ok_or(format!("no address '{name}'"))?;
    let mut seeds = vec![];
    for s in list(d, "seeds") {
        seeds.push(match s["kind"].as_str().unwrap_or("") {
            "constantPdaSeedNode" => encode(&s["type"], &value(&s["value"])?)?,
            "variablePdaSeedNode" => {
                let n = s["name"].as_str().unwrap_or("");
                let v = vals.get(n).ok_or(format!("unknown seed {n}"))?;
                encode(&s["type"], &json!(v.to_string()))?
            }
            k => return Err(format!("seed {k}")),
        });
    }
    let r: Vec<&[u8]> = seeds.iter().map(|x| &x[..]).collect();
    Pubkey::try_find_program_address(&r, prog).ok_or("no address".into())
}
/// What a generic client makes of operation `ins` for the named values.
fn synth(p: &Value, ins: &Value, vals: &BTreeMap<String, (Pubkey, bool)>, args: &Map<String, Value>, signers: &[Pubkey], identity: Pubkey, prog: Pubkey) -> Result<Instruction, String> {
    let mut accounts = vec![];
    for a in list(ins, "accounts") {
        let n = a["name"].as_str().unwrap_or("");
        let w = a["isWritable"].as_bool().unwrap_or(false);
        let flag = |sg: bool| match &a["isSigner"] {
            Value::Bool(b) => *b,
            Value::String(s) if s == "either" => sg,
            _ => false,
        };
        let dv = &a["defaultValue"];
        let (k, sg) = match vals.get(n) {
            Some(v) => *v,
            None if dv.is_object() => match dv["kind"].as_str().unwrap_or("") {
                "publicKeyValueNode" => (js::key(&dv["publicKey"]).ok_or("default address")?, false),
                "identityValueNode" | "payerValueNode" => (identity, true),
                k => return Err(format!("default {k} of {n}")),
            },
            None if a["isOptional"] == json!(true) => {
                if ins["optionalAccountStrategy"] != json!("omitted") {
                    accounts.push(meta(prog, false, false));
                }
                continue;
            }
            None => return Err(format!("account {n} must be given")),
        };
        accounts.push(meta(k, flag(sg), w));
    }
    for n in vals.keys() {
        if !list(ins, "accounts").iter().any(|a| name_is(a, n)) {
            return Err(format!("no account named {n}"));
        }
    }
    let mut data = vec![];
    for a in list(ins, "arguments") {
        let n = a["name"].as_str().unwrap_or("");
        let dv = &a["defaultValue"];
        let v = match (args.get(n), dv.is_object()) {
            (Some(_), true) if a["defaultValueStrategy"] == json!("omitted") => return Err(format!("argument {n} is fixed")),
            (Some(v), _) => v.clone(),
            (None, true) => value(dv)?,
            (None, false) => return Err(format!("argument {n} must be given")),
        };
        data.extend(encode(&a["type"], &v)?);
    }
    for n in args.keys() {
        if !list(ins, "arguments").iter().any(|a| name_is(a, n)) {
            return Err(format!("no argument named {n}"));
        }
    }
    // the discriminator must be where the description says
    for d in list(ins, "discriminators") {
        if d["kind"] == json!("fieldDiscriminatorNode") {
            let n = d["name"].as_str().unwrap_or("");
            let mut at = 0;
            for a in list(ins, "arguments") {
                if name_is(a, n) {
                    break;
                }
                at += encode(&a["type"], &json!(0)).map(|b| b.len()).unwrap_or(0);
            }
            if d["offset"].as_u64() != Some(at as u64) || find(ins, "arguments", n).is_none() {
                return Err(format!("discriminator {n} is not at {}", d["offset"]));
            }
        }
    }
    if list(ins, "discriminators").is_empty() {
        return Err("no discriminator".into());
    }
    if !signers.is_empty() {
        let r = list(ins, "remainingAccounts");
        match r.first() {
            Some(r) if r["value"]["kind"] == json!("argumentValueNode") && r["value"]["name"] == json!("multiSigners") => {
                let sg = r["isSigner"] == json!(true);
                accounts.extend(signers.iter().map(|k| AccountMeta { pubkey: *k, is_signer: sg, is_writable: r["isWritable"] == json!(true) }));
            }
            _ => return Err("multisig signers are not described".into()),
        }
    }
    Ok(Instruction { program_id: prog, accounts, data })
}
fn build(c: &mut Case, src: &str, p: &Value, i: &Instruction) -> Option<Instruction> {
    let t = i.data[0] as usize;
    let (name, names) = NAMES[t];
    let Some(ins) = find(p, "instructions", name) else {
        c.fail(&["J03"], &format!("missing-instruction-{name}"), format!("{src} describes no instruction {name}"));
        return None;
    };
    let mut vals = BTreeMap::new();
    let mut identity = c.key();
    for (n, an) in names.iter().enumerate() {
        let Some(a) = i.accounts.get(n) else { continue };
        if DEFAULTED.contains(an) && c.chance(0.6) {
            let d = find(ins, "accounts", an).is_some_and(|a| a["isOptional"] == json!(true) || a["defaultValue"].is_object());
            if d {
                continue;
            }
        }
        if *an == "transferAuthority" && a.is_signer && c.chance(0.3) && find(ins, "accounts", an).is_some_and(|a| a["defaultValue"].is_object()) {
            identity = a.pubkey;
            continue;
        }
        vals.insert(an.to_string(), (a.pubkey, a.is_signer));
    }
    let mut args = Map::new();
    let mut signers = vec![];
    match t {
        0 => {
            if i.data[1] == 1 || c.chance(0.5) {
                args.insert("idempotent".into(), json!(i.data[1] == 1));
            }
        }
        1 | 2 => {
            args.insert("amount".into(), json!(u64::from_le_bytes(i.data[1..9].try_into().unwrap()).to_string()));
            if !i.accounts[8].is_signer {
                signers = i.accounts[9..].iter().take_while(|m| m.is_signer).map(|m| m.pubkey).collect();
            }
        }
        6 => {
            let a = Pubkey::try_from(&i.data[1..33]).unwrap();
            let n = list(ins, "arguments").iter().filter_map(|a| a["name"].as_str()).find(|n| *n != "discriminator").unwrap_or("newMint").to_string();
            args.insert(n, json!(a.to_string()));
        }
        _ => {}
    }
    let b = match synth(p, ins, &vals, &args, &signers, identity, i.program_id) {
        Ok(b) => b,
        Err(e) => {
            c.fail(&["J03"], "not-usable", format!("{src} {name}: {e}, for {}", desc_ix(i)));
            return None;
        }
    };
    c.cov.inc(&format!("synthesized {name}"));
    same_as(c, "J03", &format!("{src} {name}"), &b, i);
    let mut b = b;
    let n = match t {
        1 | 2 => 9 + signers.len(),
        4 | 5 => i.accounts.len(),
        _ => names.len(),
    };
    b.accounts.extend(i.accounts[n..].iter().cloned());
    Some(b)
}
pub fn camp_idl(c: &mut Case) {
    for (src, root) in descriptions() {
        let p = &root["program"];
        if !p.is_object() {
            c.fail(&["J03"], "unreadable", format!("{src} cannot be read"));
            continue;
        }
        if js::key(&p["publicKey"]) != Some(WRAP) {
            c.fail(&["J03"], "program-address", format!("{src}: program {}", p["publicKey"]));
        }
        if c.idx == 0 {
            // nothing is described that does not exist, nothing twice
            for (f, known) in [("instructions", NAMES.iter().map(|n| n.0).collect::<Vec<_>>()), ("pdas", vec!["backpointer", "wrappedMint", "wrappedMintAuthority", "canonicalPointer"]), ("accounts", vec!["backpointer", "canonicalPointer"])] {
                for x in list(p, f) {
                    let hits = known.iter().filter(|n| name_is(x, n)).count();
                    let n = x["name"].as_str().unwrap_or("");
                    if hits == 0 || list(p, f).iter().filter(|y| name_is(y, n)).count() > 1 {
                        c.fail(&["J03"], "unknown-entry", format!("{src} {f}: {n}"));
                    }
                }
                for n in &known {
                    if find(p, f, n).is_none() {
                        c.fail(&["J03"], &format!("missing-{}-{n}", f.trim_end_matches('s')), format!("{src} {f}: no {n}"));
                    }
                }
            }
        }
        for _ in 0..12 {
            let i = rand_ix(c);
            if i.data[0] == 6 && find(p, "instructions", NAMES[6].0).is_none() {
                continue;
            }
            build(c, &src, p, &i);
            c.eval(&format!("{src} {:?} {} {}", i.data, i.accounts.len(), i.program_id == WRAP));
        }
        let x = any_ctx(c);
        if x.i.data[0] != 6 || find(p, "instructions", NAMES[6].0).is_some() {
            adv::reset(x.cfg.clone());
            let o0 = c.vm.dry(&x.w, &x.i);
            if let Some(b) = build(c, &src, p, &x.i) {
                adv::reset(x.cfg.clone());
                let o = c.vm.dry(&x.w, &b);
                if o.ok != o0.ok {
                    c.fail(&["J03"], "executed", format!("{src} {}: {} instead of {}", x.label, o.err_str(), o0.err_str()));
                }
                if !o.ok && library_takes(c, &x) {
                    c.fail(&["J03"], "executed", format!("{src} {}: {}, but the program takes what its own library builds", x.label, o.err_str()));
                }
                if o.ok {
                    c.cov.inc(&format!("accepted {}", NAMES[b.data[0] as usize].0));
                }
                c.eval(&format!("{src} {} ok={}", x.label, o.ok));
                c.sample(format!("{src}: {} -> {}", desc_ix(&b), o.err_str()));
            }
        }
        // addresses
        let pairs = &x.pairs;
        let (u, wp, w) = if c.chance(0.5) && !pairs.is_empty() { (pairs[0].u, pairs[0].wp, pairs[0].wm) } else { (c.key(), c.key(), c.key()) };
        let prog = if c.chance(0.3) { c.key() } else { WRAP };
        let vals: BTreeMap<String, Pubkey> = [("unwrappedMint".to_string(), u), ("wrappedTokenProgram".into(), wp), ("wrappedMint".into(), w)].into();
        for (n, want) in [
            ("backpointer", pda(&prog, &[b"backpointer", w.as_ref()])),
            ("wrappedMint", pda(&prog, &[b"mint", u.as_ref(), wp.as_ref()])),
            ("wrappedMintAuthority", pda(&prog, &[b"authority", w.as_ref()])),
            ("canonicalPointer", pda(&prog, &[b"canonical_pointer", u.as_ref()])),
        ] {
            if n == "canonicalPointer" && find(p, "pdas", n).is_none() {
                continue;
            }
            let g = described_pda(p, n, &vals, &prog);
            if g != Ok(want) {
                c.fail(&["J03"], "address", format!("{src} {n} of {vals:?}: {g:?}, derived {want:?}"));
            }
            c.cov.inc("pdas_described");
        }
        // layouts, read from an account the program wrote
        if let Some(pr) = pairs.first().filter(|p| x.w.a.get(&p.bp).is_some_and(|a| a.owner == WRAP)) {
            let d = x.w.data(&pr.bp);
            if let Some(a) = find(p, "accounts", "backpointer") {
                let mut at = 0;
                let mut got = BTreeMap::new();
                for f in list(&a["data"], "fields") {
                    let n = match f["type"]["kind"].as_str() {
                        Some("publicKeyTypeNode") => 32,
                        _ => encode(&f["type"], &json!(0)).map(|b| b.len()).unwrap_or(0),
                    };
                    got.insert(f["name"].as_str().unwrap_or("").to_string(), d.get(at..at + n).map(|x| x.to_vec()).unwrap_or_default());
                    at += n;
                }
                let want: BTreeMap<String, Vec<u8>> = [("unwrappedMint".to_string(), pr.u.to_bytes().to_vec())].into();
                let size_ok = a["size"].is_null() || a["size"] == json!(d.len());
                if got != want || at != d.len() || !size_ok {
                    c.fail(&["J03"], "layout", format!("{src}: backpointer of {} bytes (described {}) read as {got:?}", d.len(), a["size"]));
                }
                let link = a["pda"]["name"].as_str().unwrap_or("");
                let v: BTreeMap<String, Pubkey> = [("wrappedMint".to_string(), pr.wm), ("unwrappedMint".into(), pr.u), ("wrappedTokenProgram".into(), pr.wp)].into();
                if described_pda(p, link, &v, &WRAP).map(|x| x.0) != Ok(pr.bp) {
                    c.fail(&["J03"], "layout-address", format!("{src}: backpointer is said to be at '{link}'"));
                }
                c.cov.inc("layouts_described");
            }
        }
        // errors
        for (n, name) in ERRORS.iter().enumerate() {
            let cn = name[..1].to_lowercase() + &name[1..];
            let msg = nat::ask1(format!("error {n}")).splitn(5, ' ').nth(4).unwrap_or("").to_string();
            let by_code: Vec<&Value> = list(p, "errors").iter().filter(|e| e["code"] == json!(n)).collect();
            if by_code.len() != 1 || !name_is(by_code[0], &cn) || by_code[0]["message"].as_str() != Some(&msg) {
                c.fail(&["J03"], "error", format!("{src}: code {n} is {by_code:?}, the program's is {name}: {msg:?}"));
            }
            c.cov.inc("errors_described");
        }
        for e in list(p, "errors") {
            let n = e["code"].as_u64().unwrap_or(u64::MAX);
            let known = n < 16 || nat::ask1(format!("error {}", n.min(u32::MAX as u64))).starts_with("ok");
            if !known {
                c.fail(&["J03"], "error", format!("{src}: describes {e}, which the program never returns"));
            }
        }
    }
    let _ = c.rng.gen::<u8>();
}
