//! Campaigns over the host build of the library: encodings, addresses, errors, builders.
use crate::adv;
use crate::camp_misc::{any_ctx, Ctx, decode, rand_bytes, Ins};
use crate::case::*;
use crate::ids::*;
use crate::ix;
use crate::mon::*;
use crate::nat::{self, ask, ask1, hex, hk};
use crate::rt::*;
use crate::scene::*;
use crate::tok::*;
use rand::{Rng, RngCore};
use solana_instruction::Instruction;
use std::collections::BTreeMap;

fn enc(i: &Ins) -> (String, Vec<u8>, String) {
    match i {
        Ins::Create(b) => (format!("pack 0 {}", *b as u8), vec![0, *b as u8], format!("CreateMint {b}")),
        Ins::Wrap(n) => (format!("pack 1 {n}"), ix::amt(1, *n), format!("Wrap {n}")),
        Ins::Unwrap(n) => (format!("pack 2 {n}"), ix::amt(2, *n), format!("Unwrap {n}")),
        Ins::Close => ("pack 3".into(), vec![3], "CloseStuckEscrow".into()),
        Ins::Sync22 => ("pack 4".into(), vec![4], "SyncMetadataToToken2022".into()),
        Ins::SyncSpl => ("pack 5".into(), vec![5], "SyncMetadataToSplToken".into()),
        Ins::Pointer(k) => (format!("pack 6 {}", hk(k)), [vec![6], k.to_bytes().to_vec()].concat(), format!("SetCanonicalPointer {}", hk(k))),
    }
}
/// P18: decoder and encoder of the library against the documented format.
pub fn camp_codec(c: &mut Case) {
    let mut ds: Vec<Vec<u8>> = vec![];
    let k = c.idx % 64;
    if c.idx < 64 {
        ds.push(vec![]);
        for x in 0..=65535u32 {
            if x as u64 % 64 == k {
                ds.push((x as u16).to_le_bytes().to_vec());
            }
        }
        for x in 0..=255u8 {
            ds.push(vec![x]);
        }
        for len in 3..=80usize {
            for tag in 0..=255u8 {
                if (len as u64 * 256 + tag as u64) % 64 == k {
                    let mut d = vec![0u8; len];
                    d[0] = tag;
                    ds.push(d.clone());
                    c.rng.fill_bytes(&mut d[1..]);
                    ds.push(d);
                }
            }
        }
    }
    for _ in 0..400 {
        ds.push(rand_bytes(c));
    }
    // one byte more or less than every valid string, and single bit flips
    for _ in 0..20 {
        let n: u64 = c.rng.gen::<u64>() >> c.rng.gen_range(0..64);
        let key = c.key();
        for i in [Ins::Create(c.rng.gen()), Ins::Wrap(n), Ins::Unwrap(n), Ins::Close, Ins::Sync22, Ins::SyncSpl, Ins::Pointer(key)] {
            let d = enc(&i).1;
            ds.push(d.clone());
            ds.push(d[..d.len() - 1].to_vec());
            ds.push([&d[..], &[c.rng.gen()]].concat());
            ds.push([&d[..], &[0]].concat());
            let mut e = d.clone();
            let b = c.below(e.len() * 8);
            e[b / 8] ^= 1 << (b % 8);
            ds.push(e);
        }
    }
    let q: Vec<String> = ds.iter().map(|d| format!("unpack {}", hex(d))).collect();
    for (d, a) in ds.iter().zip(ask(&q)) {
        let want = match decode(d) {
            Some(i) => format!("ok {} = {}", hex(d), enc(&i).2),
            None => "err InvalidInstructionData".into(),
        };
        c.cov.inc(if want.starts_with("ok") { "library_accepts" } else { "library_rejects" });
        if a != want {
            c.fail(&["P18"], "library-decode", format!("unpack of {d:?}: {a}, documented: {want}"));
        }
        c.eval(&format!("u{d:?}"));
    }
    let mut ins = vec![Ins::Create(true), Ins::Create(false), Ins::Close, Ins::Sync22, Ins::SyncSpl];
    for _ in 0..40 {
        let n = match c.below(4) {
            0 => c.pick(&[0u64, 1, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX]),
            _ => c.rng.gen::<u64>() >> c.rng.gen_range(0..64),
        };
        ins.push(Ins::Wrap(n));
        ins.push(Ins::Unwrap(n));
        let k = c.key();
        ins.push(Ins::Pointer(k));
    }
    let q: Vec<String> = ins.iter().map(|i| enc(i).0).collect();
    for (i, a) in ins.iter().zip(ask(&q)) {
        let e = enc(i);
        if a != hex(&e.1) {
            c.fail(&["P18"], "library-encode", format!("{} encodes as {a}, documented {}", e.2, hex(&e.1)));
        }
        c.cov.inc("library_encodes");
        c.eval(&format!("p{}", e.2));
    }
    let mut b = [0u8; 32];
    c.rng.fill_bytes(&mut b);
    let a = ask1(format!("state {}", hex(&b)));
    if a != format!("{} {}", hex(&b), hex(&b)) {
        c.fail(&["P18"], "library-state", format!("account layouts read {} as {a}", hex(&b)));
    }
    for bad in [31usize, 33, 0] {
        let a = ask1(format!("state {}", hex(&vec![7; bad])));
        if a != "err err" {
            c.fail(&["P18"], "library-state", format!("account of {bad} bytes read as {a}"));
        }
    }
    c.sample(format!("unpack {:?}", &ds[ds.len() - 1]));
}
pub const ERRORS: [&str; 16] = [
    "WrappedMintMismatch",
    "BackpointerMismatch",
    "ZeroWrapAmount",
    "MintAuthorityMismatch",
    "EscrowOwnerMismatch",
    "InvalidWrappedMintOwner",
    "InvalidBackpointerOwner",
    "EscrowMismatch",
    "EscrowInGoodState",
    "UnwrappedMintHasNoMetadata",
    "MetaplexMetadataMismatch",
    "MetadataPointerMissing",
    "MetadataPointerUnset",
    "MetadataPointerMismatch",
    "ExternalProgramReturnedNoData",
    "NoSyncingToToken2022",
];
/// P21: the published numbers.
pub fn camp_codes(c: &mut Case) {
    let q: Vec<String> = (0..64u32).chain([255, 256, u32::MAX]).map(|n| format!("error {n}")).collect();
    let a = ask(&q);
    for (n, a) in a.iter().enumerate() {
        if n < 16 {
            let want = format!("ok {n} {} Custom({n}) ", ERRORS[n]);
            c.cov.inc("codes_compared");
            if !a.starts_with(&want) {
                c.fail(&["P21"], "code-meaning", format!("error {n} is '{a}', published '{want}'"));
            }
        } else if n > 63 && !a.starts_with("err") {
            // numbers above 15 may be given to new errors, but not these
            c.fail(&["P21"], "code-meaning", format!("error question {n} answered '{a}'"));
        }
        c.eval(&format!("code {n} {}", a.len()));
    }
    c.sample(format!("error 8 -> {}", a[8]));
}
struct Addrs {
    v: Vec<Pubkey>,
}
const WHAT: [&str; 5] = ["wrapped mint", "authority", "backpointer", "escrow", "canonical pointer"];
fn mine(prog: &Pubkey, u: &Pubkey, wp: &Pubkey, up: &Pubkey) -> Addrs {
    let m = wrapped_mint_in(prog, u, wp);
    let a = authority_in(prog, &m);
    Addrs { v: vec![m, a, backpointer_in(prog, &m), ata(&a, u, up), pointer_in(prog, u)] }
}
/// P19: library helpers against own derivations, uniqueness, and the program's verdict.
pub fn camp_addr(c: &mut Case) {
    let id = ask1("id".into());
    if id != hk(&WRAP) {
        c.fail(&["P19"], "program-id", format!("the library's program id is {id}"));
    }
    let mut us: Vec<Pubkey> = (0..3).map(|_| c.key()).collect();
    us.push(wrapped_mint(&us[0], &T22)); // stacked
    let mut near = us[0].to_bytes();
    near[31] ^= 1;
    us.push(Pubkey::new_from_array(near));
    let other = c.key();
    let deps = [None, Some(WRAP), Some(c.key()), Some(other), Some(us[1])];
    let progs = [SPL, T22, c.key()];
    let mut q = vec![];
    let mut want = vec![];
    for u in &us {
        for wp in &progs {
            for up in &progs {
                for d in &deps {
                    q.push(format!("addr {} {} {} {}", hk(u), hk(wp), hk(up), d.map(|x| hk(&x)).unwrap_or(".".into())));
                    want.push((d.unwrap_or(WRAP), *u, *wp, *up, d.is_none()));
                }
            }
        }
    }
    // role swaps: an address used as mint here and as program there
    for (a, b) in [(us[0], us[1]), (us[1], us[0]), (SPL, us[0]), (us[0], us[0])] {
        for d in &deps {
            q.push(format!("addr {} {} {} {}", hk(&a), hk(&b), hk(&SPL), d.map(|x| hk(&x)).unwrap_or(".".into())));
            want.push((d.unwrap_or(WRAP), a, b, SPL, d.is_none()));
        }
    }
    // address -> what it was derived for
    let mut seen: BTreeMap<Pubkey, (usize, Vec<Pubkey>)> = BTreeMap::new();
    for ((p, u, wp, up, dflt), a) in want.iter().zip(ask(&q)) {
        let got: Vec<Option<Pubkey>> = a.split(' ').map(nat::key).collect();
        let m = mine(p, u, wp, up);
        if got.len() != 5 || got.iter().any(|x| x.is_none()) {
            c.fail(&["P19"], "addr-helper", format!("addresses of {u} {wp} {up} in {p}: {a}"));
            continue;
        }
        for (i, g) in got.iter().enumerate() {
            let g = g.unwrap();
            c.cov.inc("addresses_compared");
            if *p != WRAP {
                c.cov.inc("addresses_of_other_deployments");
            }
            if g != m.v[i] {
                c.fail(&["P19"], "addr-differs", format!("{} of mint {u}, wrapped program {wp}, unwrapped program {up}, deployment {p} (default helper {dflt}): library {g}, documented {}", WHAT[i], m.v[i]));
            }
            if g.is_on_curve() {
                c.fail(&["P19"], "on-curve", format!("{} of {u} {wp} {p} is on the curve", WHAT[i]));
            }
            // what the address may depend on
            let deps = match i {
                3 => vec![*p, *u, *wp, *up],
                4 => vec![*p, *u],
                _ => vec![*p, *u, *wp],
            };
            match seen.get(&g) {
                Some((j, d)) if *j != i || *d != deps => c.fail(&["P19"], "addr-shared", format!("{g} is both the {} of {:?} and the {} of {:?}", WHAT[*j], d, WHAT[i], deps)),
                _ => {
                    seen.insert(g, (i, deps));
                }
            }
        }
        c.eval(&format!("{p}{u}{wp}{up}"));
    }
    c.cov.inc("distinctness_sets");
    // the program creates, wraps, unwraps and points at exactly the library's addresses
    let s = crate::camp_token::scene(c, &crate::camp_token::SceneOpts { honest: true, wrap: Some(true), ..Default::default() });
    let p = &s.pair;
    let a = ask1(format!("addr {} {} {} .", hk(&p.u), hk(&p.wp), hk(&p.up)));
    let l: Vec<Pubkey> = a.split(' ').filter_map(nat::key).collect();
    if l.len() != 5 {
        c.fail(&["P19"], "addr-helper", format!("addresses of {}: {a}", p.u));
        return;
    }
    let mut w = World { epoch: s.w.epoch, ..Default::default() };
    w.a = s.w.a.clone();
    w.a.remove(&p.wm);
    w.a.remove(&p.bp);
    let r = c.vm.rent(4096);
    w.fund(&l[0], r);
    w.fund(&l[2], r);
    adv::reset(Default::default());
    let o = c.vm.run(&mut w, &ix::create_mint_raw(WRAP, l[0], l[2], p.u, p.wp, false));
    c.cov.inc(if o.ok { "onchain_created" } else { "onchain_create_refused" });
    let m = w.mint(&l[0]);
    if o.ok {
        if m.as_ref().and_then(|m| m.auth) != Some(l[1]) {
            c.fail(&["P19"], "onchain-authority", format!("created mint has authority {:?}, library says {}", m.map(|m| m.auth), l[1]));
        }
        if w.get(&l[2]).data != p.u.to_bytes() {
            c.fail(&["P19"], "onchain-backpointer", "the backpointer was not written at the library's address".to_string());
        }
    } else {
        c.fail(&["P19"], "onchain-refuses-library", format!("creation at the library's addresses: {} {:?}", o.err_str(), o.logs.iter().rev().take(4).collect::<Vec<_>>()));
    }
    let mut b = s.a.clone();
    b.wrapped_mint = l[0];
    b.authority = l[1];
    b.escrow = l[3];
    let o1 = c.vm.dry(&s.w, &ix::wrap(&b));
    let m1 = model_wrap(c.vm, &s.w, &s.a);
    if m1.is_ok() && !s.guard_blocks && !o1.ok {
        c.fail(&["P19"], "onchain-refuses-library", format!("wrap at the library's addresses: {}", o1.err_str()));
    }
    if o1.ok {
        c.cov.inc("onchain_wrapped");
    }
    if let Some(ma) = s.w.mint(&p.u).and_then(|m| m.auth) {
        if !p.nested {
            let r = c.vm.rent(32);
            w.fund(&l[4], r);
            let to = c.key();
            let o = c.vm.run(&mut w, &ix::set_pointer(ma, true, l[4], p.u, to));
            if !o.ok || w.get(&l[4]).data != to.to_bytes() {
                c.fail(&["P19"], "onchain-refuses-library", format!("pointer at the library's address: {}", o.err_str()));
            }
            c.cov.inc("onchain_pointed");
        }
    }
    c.sample(format!("{} wrapped under {}: {:?}", p.u, tpn(&p.wp), l));
}
pub fn rand_ix(c: &mut Case) -> Instruction {
    let prog = if c.chance(0.5) { WRAP } else { c.key() };
    let mut pool: Vec<Pubkey> = (0..12).map(|_| c.key()).collect();
    if c.chance(0.2) {
        pool.truncate(3); // the same key in several roles
    }
    let mut k = || pool[c.rng.gen_range(0..pool.len())];
    let (a, b, d, e, f, g, h, i2, j) = (k(), k(), k(), k(), k(), k(), k(), k(), k());
    let n: u64 = c.rng.gen::<u64>() >> c.rng.gen_range(0..64);
    match c.below(7) {
        0 => ix::create_mint_raw(prog, a, b, d, e, c.rng.gen()),
        t @ (1 | 2) => {
            let ns = if c.chance(0.4) { 0 } else { c.rng.gen_range(1..12) };
            let sg: Vec<_> = (0..ns).map(|_| meta(if c.chance(0.1) { j } else { c.key() }, true, false)).collect();
            let w = ix::WrapArgs { recipient: a, wrapped_mint: b, authority: d, up: e, wp: f, source: g, unwrapped_mint: h, escrow: i2, ta: j, ta_signer: ns == 0, extras: sg, amount: n };
            if t == 1 {
                ix::wrap_in(prog, &w)
            } else {
                ix::unwrap_in(prog, &w)
            }
        }
        3 => {
            let mut i = ix::close_stuck(a, b, d, e, f);
            i.program_id = prog;
            i
        }
        4 => {
            let src = c.chance(0.7).then_some(a);
            let own = if src.is_some() && c.chance(0.5) { Some(b) } else { None };
            let mut i = ix::sync22(d, e, f, T22, src, own);
            i.program_id = prog;
            i
        }
        5 => {
            let src = c.chance(0.7).then_some(a);
            let own = if src.is_some() && c.chance(0.5) { Some(b) } else { None };
            let mut i = ix::syncspl(d, e, f, g, src, own);
            i.program_id = prog;
            i
        }
        _ => {
            let mut i = ix::set_pointer(a, true, b, d, e);
            i.program_id = prog;
            i
        }
    }
}
fn compare(c: &mut Case, i: &Instruction) -> Option<Instruction> {
    let (q, n) = nat::question(i)?;
    let a = ask1(q.clone());
    let tag = i.data[0];
    c.cov.inc(&format!("built ix{tag}"));
    let Some(b) = nat::parse_ix(&a) else {
        c.fail(&["P25"], "builder-fails", format!("{q}: {a}"));
        return None;
    };
    if b.program_id != i.program_id {
        c.fail(&["P25"], "builder-program", format!("{q}: program {}", b.program_id));
    }
    if b.data != i.data {
        c.fail(&["P25"], "builder-data", format!("{q}: data {:?}, documented {:?}", b.data, i.data));
    }
    if b.accounts != i.accounts[..n] {
        let x = b.accounts.iter().zip(&i.accounts[..n]).position(|(x, y)| x != y);
        c.fail(&["P25"], "builder-accounts", format!("{q}: {} accounts (documented {n}), first difference at {x:?}: {} documented {}", b.accounts.len(), desc_ix(&b), desc_ix(i)));
    }
    let mut b = b;
    b.accounts.extend(i.accounts[n..].iter().cloned());
    Some(b)
}
/// Whether the program takes the instruction its own library builds for the same call.
pub fn library_takes(c: &mut Case, x: &Ctx) -> bool {
    let Some((q, n)) = nat::question(&x.i) else { return false };
    let Some(mut b) = nat::parse_ix(&ask1(q)) else { return false };
    b.accounts.extend(x.i.accounts[n.min(x.i.accounts.len())..].iter().cloned());
    if b == x.i {
        return false;
    }
    adv::reset(x.cfg.clone());
    c.vm.dry(&x.w, &b).ok
}
/// P25: builders against the documented lists, then executed.
pub fn camp_build(c: &mut Case) {
    for _ in 0..200 {
        let i = rand_ix(c);
        compare(c, &i);
        let ns = i.accounts.len();
        c.eval(&format!("{:?} {ns} {}", i.data, i.program_id == WRAP));
    }
    for _ in 0..2 {
        let x = any_ctx(c);
        adv::reset(x.cfg.clone());
        let o0 = c.vm.dry(&x.w, &x.i);
        let Some(b) = compare(c, &x.i) else { continue };
        adv::reset(x.cfg.clone());
        let o = c.vm.dry(&x.w, &b);
        if o0.ok {
            c.cov.inc(&format!("documented_accepted ix{}", b.data[0]));
        }
        if o.ok != o0.ok {
            c.fail(&["P25"], "builder-refused", format!("{} built by the library: {}; built by hand: {}", x.label, o.err_str(), o0.err_str()));
        }
        if o.ok {
            c.cov.inc(&format!("built_accepted ix{}", b.data[0]));
            if b.accounts.len() > 9 && b.accounts[9].is_signer && !b.accounts[8].is_signer {
                c.cov.inc("built_accepted multisig");
            }
        }
        c.eval(&format!("{} ok={}", x.label, o.ok));
        c.sample(format!("{} -> {}", desc_ix(&b), o.err_str()));
    }
}
