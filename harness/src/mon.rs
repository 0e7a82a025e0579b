//! Online monitors: conditions that every observed token-wrap execution must meet.
use crate::adv;
use crate::case::*;
use crate::ids::*;
use crate::rt::*;
use crate::scene::*;
use crate::tok::*;
use solana_account::Account;
use solana_instruction::{AccountMeta, Instruction};
use spl_token_2022_interface::extension::ExtensionType;
use std::collections::BTreeSet;

pub fn first_failed(out: &Out) -> Option<String> {
    out.logs.iter().find_map(|l| {
        let r = l.strip_prefix("Program ")?;
        let i = r.find(" failed")?;
        Some(r[..i].to_string())
    })
}
/// A crash of the program itself, as opposed to a clean rejection.
pub fn crash_of(out: &Out, prog: &Pubkey) -> Option<String> {
    if let Some(l) = out.logs.iter().find(|l| l.contains("panicked at")) {
        // a panic inside a callee is followed by that callee's own failure line
        if first_failed(out).map(|p| p == prog.to_string()).unwrap_or(true) {
            return Some(l.clone());
        }
    }
    use solana_instruction_error::InstructionError as E;
    if let Some(e) = &out.err {
        let ours = first_failed(out).map(|p| p == prog.to_string()).unwrap_or(true);
        if ours && matches!(e, E::ProgramFailedToComplete | E::ComputationalBudgetExceeded | E::CallDepth | E::UnbalancedInstruction) {
            return Some(format!("{e:?} {:?}", out.logs.iter().rev().filter(|l| !l.starts_with("Program return")).take(6).map(|l| l.chars().take(200).collect::<String>()).collect::<Vec<_>>()));
        }
    }
    None
}
/// An abort without a panic message: what an allocation beyond the heap looks like.
pub fn silent_abort(out: &Out) -> bool {
    matches!(out.err, Some(solana_instruction_error::InstructionError::ProgramFailedToComplete)) && out.logs.iter().any(|l| l.ends_with("SBF program panicked")) && !out.logs.iter().any(|l| l.contains("panicked at"))
}
pub fn desc_ix(ix: &Instruction) -> String {
    let acc: Vec<String> = ix
        .accounts
        .iter()
        .map(|m| format!("{}{}{}", nick(&m.pubkey), if m.is_signer { "*" } else { "" }, if m.is_writable { "+" } else { "" }))
        .collect();
    let d: String = ix.data.iter().map(|b| format!("{b:02x}")).collect();
    format!("{}[{}] data={}", nick(&ix.program_id), acc.join(","), d)
}
/// P07: the authority's signature only reaches the two token programs and Metaplex.
pub fn mon_authority(c: &mut Case, out: &Out, ix: &Instruction, pairs: &[Pair], prog: &Pubkey) {
    let mut auths: BTreeSet<Pubkey> = pairs.iter().map(|p| p.auth).collect();
    for m in &ix.accounts {
        auths.insert(authority_in(prog, &m.pubkey));
    }
    // a PDA of the program that carries a signature, whatever its seeds: it did not sign
    // the top-level instruction but signs a CPI
    let top: BTreeSet<Pubkey> = ix.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey).collect();
    let is_create_or_ptr = matches!(ix.data.first(), Some(0) | Some(6));
    let t = out.trace.clone();
    for (i, e) in t.iter().enumerate() {
        if e.depth < 2 {
            continue;
        }
        c.cov.inc("cpi_observed");
        // ancestors
        let mut anc = vec![];
        let mut p = e.parent;
        while let Some(j) = p {
            anc.push(t[j].program);
            p = t[j].parent;
        }
        for (k, s, _) in &e.accounts {
            if *s && auths.contains(k) && !top.contains(k) {
                c.cov.inc("authority_signed_cpi");
                let ok = [SPL, T22, MPL].contains(&e.program) || (e.program == SYS && anc.contains(&MPL)) || (is_create_or_ptr && e.program == SYS && !pairs.iter().any(|p| p.auth == *k));
                if !ok {
                    c.fail(&["P07"], "authority-lent", format!("authority {} signs a call to {} (CPI #{i}) during {}", k, nick(&e.program), desc_ix(ix)));
                }
            }
        }
        let direct = t[e.parent.unwrap_or(0)].program == *prog;
        if direct && ![SPL, T22, MPL, SYS].contains(&e.program) {
            c.cov.inc("third_party_call");
            let sync = matches!(ix.data.first(), Some(4) | Some(5));
            if !sync {
                c.fail(&["P07"], "third-party-called", format!("{} is called directly during {}", nick(&e.program), desc_ix(ix)));
            } else if e.accounts.len() != 1 || e.accounts[0].1 || e.accounts[0].2 {
                c.fail(&["P07"], "third-party-privileges", format!("metadata program {} receives {:?} during {}", nick(&e.program), e.accounts, desc_ix(ix)));
            }
        }
    }
}
/// Lamports of an account without those that are wrapped SOL tokens.
fn free_lamports(a: &Account) -> u64 {
    match parse_tok(a) {
        Some(t) if t.native.is_some() && is_native(&t.mint) => a.lamports.saturating_sub(t.amount),
        _ => a.lamports,
    }
}
/// P22: lamports.
pub fn mon_lamports(c: &mut Case, out: &Out, ix: &Instruction, prog: &Pubkey) {
    if !out.ok {
        return;
    }
    c.cov.inc("lamport_checks");
    let (mut a, mut b) = (0u128, 0u128);
    for (k, pre) in &out.pre {
        let post = out.post.get(k).cloned().unwrap_or_default();
        a += pre.lamports as u128;
        b += post.lamports as u128;
        let moves = matches!(ix.data.first(), Some(1) | Some(2));
        if (if moves { free_lamports(&post) < free_lamports(pre) } else { post.lamports < pre.lamports }) {
            let tag = ix.data.first().copied();
            let allowed = match tag {
                Some(3) => ix.accounts.first().map(|m| m.pubkey) == Some(*k) && post.lamports == 0,
                Some(5) => ix.accounts.get(2).map(|m| authority_in(prog, &m.pubkey)) == Some(*k),
                _ => false,
            };
            if !allowed {
                c.fail(&["P22"], "lamports-taken", format!("{} went from {} to {} lamports during {}", k, pre.lamports, post.lamports, desc_ix(ix)));
            } else if tag == Some(3) {
                let dest = ix.accounts[1].pubkey;
                let gain = out.post.get(&dest).map(|x| x.lamports).unwrap_or(0).wrapping_sub(out.pre.get(&dest).map(|x| x.lamports).unwrap_or(0));
                if gain != pre.lamports {
                    c.fail(&["P22", "P12", "P11"], "close-lamports", format!("closed escrow held {} lamports but destination gained {}", pre.lamports, gain));
                }
            }
        }
        // a sync may leave the enlarged Token-2022 mint short of rent: the runtime's rule for
        // whole transactions refuses that, not the program
        if post.data.len() > pre.data.len() && ix.data.first() != Some(&4) && post.lamports < c.vm.rent(post.data.len()) && post.lamports > 0 {
            c.fail(&["P22"], "not-rent-exempt", format!("{} grew to {} bytes with {} lamports (needs {}) during {}", k, post.data.len(), post.lamports, c.vm.rent(post.data.len()), desc_ix(ix)));
        }
    }
    if a != b {
        c.fail(&["P22"], "lamports-sum", format!("lamports {a} -> {b}"));
    }
}
#[derive(Clone, PartialEq, Debug)]
pub struct Identity {
    owner: Pubkey,
    auth: Option<Pubkey>,
    freeze: Option<Pubkey>,
    decimals: u8,
    ext: Vec<(u16, Vec<u8>)>,
    bp: (Pubkey, Vec<u8>),
    escrow: Option<(Pubkey, Pubkey, Pubkey, Option<Pubkey>, Option<Pubkey>)>,
}
pub fn identity(w: &World, p: &Pair) -> Option<Identity> {
    let a = w.a.get(&p.wm)?;
    let m = parse_mint(a)?;
    let keep = [ExtensionType::ConfidentialTransferMint as u16, ExtensionType::MetadataPointer as u16];
    let b = w.get(&p.bp);
    Some(Identity {
        owner: a.owner,
        auth: m.auth,
        freeze: m.freeze,
        decimals: m.decimals,
        ext: m.ext.into_iter().filter(|e| keep.contains(&e.0)).collect(),
        bp: (b.owner, b.data),
        escrow: w.a.get(&p.escrow).and_then(|e| parse_tok(e).map(|t| (e.owner, t.owner, t.mint, t.delegate, t.close))),
    })
}
/// P10, evaluated around one token-wrap instruction.
pub fn mon_identity(c: &mut Case, before: &World, after: &World, ix: &Instruction, pairs: &[Pair]) {
    for p in pairs {
        let Some(mut i0) = identity(before, p) else { continue };
        c.cov.inc("identity_checks");
        match identity(after, p) {
            None => c.fail(&["P10"], "identity-gone", format!("wrapped mint {} is no longer a mint after {}", p.wm, desc_ix(ix))),
            Some(mut i1) => {
                if i0.escrow.is_none() || i1.escrow.is_none() {
                    i0.escrow = None;
                    i1.escrow = None;
                }
                if i0 != i1 {
                    c.fail(&["P10"], "identity-changed", format!("identity of {} changed from {:?} to {:?} by {}", p.wm, i0, i1, desc_ix(ix)));
                }
            }
        }
        let (s0, s1) = (before.supply(&p.wm), after.supply(&p.wm));
        if s0 != s1 && !matches!(ix.data.first(), Some(1) | Some(2)) {
            c.fail(&["P10", "P01"], "supply-changed", format!("supply of {} changed {} -> {} by {}", p.wm, s0, s1, desc_ix(ix)));
        }
    }
}
/// P04: whoever lost tokens agreed to it: the owner, its delegate, the mint's permanent
/// delegate, or enough members of a multisig one of these names, signed the transaction.
/// Only the escrow of the unwrapped pair pays out without its owner's signature.
pub fn mon_consent(c: &mut Case, before: &World, after: &World, ix: &Instruction, prog: &Pubkey) {
    let signed: BTreeSet<Pubkey> = ix.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey).collect();
    for k in world_diff(before, after) {
        let Some(t) = before.tok(&k) else { continue };
        let left = after.bal(&k);
        if left >= t.amount {
            continue;
        }
        c.cov.inc("consent_checks");
        let owner_prog = before.get(&k).owner;
        let may = |who: &Pubkey| {
            if signed.contains(who) {
                return true;
            }
            let a = before.get(who);
            if a.owner != owner_prog || a.data.len() != 355 || a.data[2] != 1 {
                return false;
            }
            let members: BTreeSet<&[u8]> = a.data[3..].chunks(32).take(a.data[1] as usize).filter(|m| signed.iter().any(|s| s.as_ref() == *m)).collect();
            members.len() >= a.data[0] as usize
        };
        let mut ok = may(&t.owner);
        if let Some(d) = t.delegate {
            ok |= may(&d) && t.delegated >= t.amount - left;
        }
        if let Some(d) = before.mint(&t.mint).and_then(|m| find(&m.ext, ExtensionType::PermanentDelegate).map(|d| Pubkey::new_from_array(d[..32].try_into().unwrap()))) {
            ok |= may(&d);
        }
        if !ok && ix.data.first() == Some(&2) {
            // the escrow of a genuine wrapped mint that lost as many tokens of its supply
            for m in &ix.accounts {
                let up = before.get(&t.mint).owner;
                let genuine = [SPL, T22].iter().any(|p| wrapped_mint_in(prog, &t.mint, p) == m.pubkey);
                if genuine && authority_in(prog, &m.pubkey) == t.owner && ata(&t.owner, &t.mint, &up) == k {
                    ok |= before.supply(&m.pubkey).saturating_sub(after.supply(&m.pubkey)) >= t.amount - left;
                }
            }
        }
        if !ok {
            c.fail(&["P04", "P01"], "no-consent", format!("{} of {} lost {} tokens without any signature of its owner {} during {}", t.mint, k, t.amount - left, t.owner, desc_ix(ix)));
        }
    }
}
/// Runs a token-wrap instruction under all monitors.
pub fn observed(c: &mut Case, w: &mut World, ix: &Instruction, pairs: &[Pair]) -> Out {
    let before = w.clone();
    let out = c.vm.run(w, ix);
    observe(c, &before, w, &out, ix, pairs, &WRAP);
    out
}
pub fn observe(c: &mut Case, before: &World, after: &World, out: &Out, ix: &Instruction, pairs: &[Pair], prog: &Pubkey) {
    c.cov.inc(if out.ok { "accepted" } else { "rejected" });
    mon_authority(c, out, ix, pairs, prog);
    mon_lamports(c, out, ix, prog);
    if out.ok {
        mon_identity(c, before, after, ix, pairs);
        mon_consent(c, before, after, ix, prog);
        mon_backing(c, before, after, ix, pairs);
        mon_state(c, before, after, ix, prog);
        mon_frame(c, before, after, ix, prog);
    }
    if c.malformed && matches!(ix.data.first(), Some(4) | Some(5)) && silent_abort(out) {
        c.cov.inc("decoder_heap_exhausted");
    } else if let Some(m) = crash_of(out, prog) {
        c.fail(&["P20"], "crash", format!("{m} during {}", desc_ix(ix)));
    }
    if c.fwd && *prog == WRAP {
        forwarded(c, before, after, out, ix);
    }
}
/// One instruction of a calling program that invokes `list`. `top` decides which signatures
/// the caller has from the transaction; the other ones are of its own addresses.
fn forward(c: &mut Case, w: &World, list: &[Instruction], top: &dyn Fn(&Pubkey) -> bool, deep: bool) -> Out {
    let mut metas: Vec<AccountMeta> = vec![];
    for m in list.iter().flat_map(|i| &i.accounts) {
        match metas.iter_mut().find(|x| x.pubkey == m.pubkey) {
            Some(x) => {
                x.is_writable |= m.is_writable;
                x.is_signer |= m.is_signer && top(&m.pubkey);
            }
            None => metas.push(meta(m.pubkey, m.is_signer && top(&m.pubkey), m.is_writable)),
        }
    }
    metas.push(meta(WRAP, false, false));
    if deep {
        metas.push(meta(FWD, false, false));
    }
    let signers: BTreeSet<Pubkey> = list.iter().flat_map(|i| &i.accounts).filter(|m| m.is_signer && !top(&m.pubkey)).map(|m| m.pubkey).collect();
    adv::FORWARD.with(|x| *x.borrow_mut() = (list.to_vec(), signers.into_iter().collect()));
    let limit = std::mem::replace(&mut c.vm.m.compute_budget.compute_unit_limit, 20_000_000);
    let out = c.vm.dry(w, &Instruction { program_id: if deep { FWD2 } else { FWD }, accounts: metas, data: vec![] });
    c.vm.m.compute_budget.compute_unit_limit = limit;
    out
}
fn trace_of(out: &Out, up: usize) -> Vec<(Pubkey, usize, Vec<(Pubkey, bool, bool)>, Vec<u8>)> {
    out.trace.iter().filter(|e| e.depth > up).map(|e| (e.program, e.depth - up, e.accounts.clone(), e.data.clone())).collect()
}
/// P26: the same instruction, invoked by another program.
fn forwarded(c: &mut Case, before: &World, after: &World, out: &Out, ix: &Instruction) {
    // the runtime demotes an invoked program that is also passed as a writable account
    if adv::CFG.with(|x| !x.borrow().attack.is_empty()) || ix.accounts.iter().any(|m| m.pubkey == WRAP) {
        return;
    }
    let kept = adv::calls();
    let salt = c.below(1 << 16) as u8;
    let how = c.below(3);
    let deep = c.chance(0.3);
    let top = move |k: &Pubkey| match how {
        0 => false,
        1 => true,
        _ => (k.to_bytes()[7] ^ salt) & 1 == 0,
    };
    let f = forward(c, before, std::slice::from_ref(ix), &top, deep);
    let mut w = before.clone();
    if f.ok {
        commit(&mut w, &f.post);
    }
    let what = ["own signatures", "the transaction's signatures", "mixed signatures"][how];
    if deep {
        c.cov.inc("forwarded_twice");
    }
    c.cov.inc(if f.ok { "forwarded_accepted" } else { "forwarded_rejected" });
    let tag = ix.data.first().copied().unwrap_or(255);
    if f.ok {
        c.cov.inc(&format!("forwarded ix{tag} ok"));
        if how == 0 && ix.accounts.iter().any(|m| m.is_signer) {
            c.cov.inc("forwarded_with_program_signature");
        }
    }
    if f.err != out.err {
        c.fail(&["P26"], "cpi-outcome", format!("invoked by a program with {what}: {}, directly: {}; {} logs {:?}", f.err_str(), out.err_str(), desc_ix(ix), f.logs.iter().rev().take(4).collect::<Vec<_>>()));
    } else {
        let d: Vec<Pubkey> = world_diff(&w, after);
        if let Some(k) = d.first() {
            c.fail(&["P26"], "cpi-effect", format!("invoked by a program with {what}: {k} becomes {}, directly: {}; {}", acct_str(&w.get(k)), acct_str(&after.get(k)), desc_ix(ix)));
        }
        if trace_of(out, 0) != trace_of(&f, 1 + deep as usize) {
            c.fail(&["P26"], "cpi-calls", format!("invoked by a program with {what}, other calls are made than directly; {}", desc_ix(ix)));
        }
    }
    // an account another instruction of the transaction writes to is passed as writable here
    let plain: Vec<Pubkey> = ix.accounts.iter().filter(|m| !m.is_writable).map(|m| m.pubkey).filter(|k| {
        let a = before.get(k);
        a.lamports > 0 && !a.executable && a.owner != solana_pubkey::pubkey!("Sysvar1111111111111111111111111111111111111")
    }).collect();
    if !plain.is_empty() && c.chance(0.35) {
        let k = c.pick(&plain);
        let mut wide = ix.clone();
        let all = c.chance(0.3);
        wide.accounts.iter_mut().filter(|m| m.pubkey == k || (all && plain.contains(&m.pubkey))).for_each(|m| m.is_writable = true);
        let v = c.vm.dry(before, &wide);
        c.cov.inc(if v.ok { "more_writable_accepted" } else { "more_writable_rejected" });
        if v.err != out.err {
            c.fail(&["P26"], "more-writable-outcome", format!("with {k} writable too: {}, without: {}; {} logs {:?}", v.err_str(), out.err_str(), desc_ix(ix), v.logs.iter().rev().take(4).collect::<Vec<_>>()));
        } else {
            let mut w = before.clone();
            if v.ok {
                commit(&mut w, &v.post);
            }
            if let Some(x) = world_diff(&w, after).first() {
                c.fail(&["P26"], "more-writable-effect", format!("with {k} writable too: {x} becomes {}, without: {}; {}", acct_str(&w.get(x)), acct_str(&after.get(x)), desc_ix(ix)));
            }
        }
    }
    // a signature the caller holds but does not pass on does not count
    let signed: Vec<Pubkey> = ix.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey).collect();
    if !signed.is_empty() && c.chance(0.4) {
        let k = c.pick(&signed);
        let mut bare = ix.clone();
        bare.accounts.iter_mut().filter(|m| m.pubkey == k).for_each(|m| m.is_signer = false);
        let direct = c.vm.dry(before, &bare);
        let mut metas = bare.clone();
        metas.program_id = FWD;
        metas.accounts.push(meta(k, true, false));
        metas.accounts.push(meta(WRAP, false, false));
        metas.data = vec![];
        adv::FORWARD.with(|x| *x.borrow_mut() = (vec![bare.clone()], vec![]));
        let via = c.vm.dry(before, &metas);
        c.cov.inc("signature_withheld");
        if !direct.ok {
            c.cov.inc("signature_withheld_refused");
        }
        if via.err != direct.err {
            c.fail(&["P26"], "cpi-withheld", format!("with a signature of {k} that the caller does not pass on: {}, directly without it: {}; {}", via.err_str(), direct.err_str(), desc_ix(&bare)));
        }
    }
    // two instructions of one caller have the effect of the two one after another
    let third = adv::CFG.with(|x| format!("{:?}", x.borrow()));
    if let Some((b0, i0, a0, third0)) = c.last.take() {
        if third0 == third && a0.epoch == before.epoch && world_diff(&a0, before).is_empty() {
            let f2 = forward(c, &b0, &[i0.clone(), ix.clone()], &top, deep);
            let mut w2 = b0.clone();
            if f2.ok {
                commit(&mut w2, &f2.post);
            }
            c.cov.inc("forwarded_in_sequence");
            if f2.err != out.err {
                c.fail(&["P26"], "cpi-sequence-outcome", format!("after {} in one caller: {}, in transactions of their own: {}; {}", desc_ix(&i0), f2.err_str(), out.err_str(), desc_ix(ix)));
            } else if f2.ok {
                if let Some(k) = world_diff(&w2, after).first() {
                    c.fail(&["P26"], "cpi-sequence", format!("after {} in one caller: {k} becomes {}, in transactions of their own: {}; {}", desc_ix(&i0), acct_str(&w2.get(k)), acct_str(&after.get(k)), desc_ix(ix)));
                }
            }
        }
    }
    if out.ok {
        c.last = Some((before.clone(), ix.clone(), after.clone(), third));
    }
    adv::CALLS.with(|x| *x.borrow_mut() = kept);
}
/// What an accepted instruction other than a wrap or unwrap may change at all.
fn mon_frame(c: &mut Case, before: &World, after: &World, ix: &Instruction, prog: &Pubkey) {
    let at = |n: usize| ix.accounts.get(n).map(|m| m.pubkey).unwrap_or_default();
    let (may, props): (Vec<Pubkey>, &[&str]) = match ix.data.first() {
        Some(0) => {
            let wm = wrapped_mint_in(prog, &at(2), &at(4));
            (vec![wm, backpointer_in(prog, &wm)], &["P09", "P10"])
        }
        Some(3) => {
            let wm = at(3);
            let genuine = wm == wrapped_mint_in(prog, &at(2), &before.get(&wm).owner);
            let e = ata(&authority_in(prog, &wm), &at(2), &T22);
            if !genuine || e != at(0) || before.get(&at(2)).owner != T22 {
                c.fail(&["P11"], "closed-another", format!("{} is not the escrow of {}: {}", at(0), wm, desc_ix(ix)));
            }
            match before.tok(&e) {
                Some(t) if t.amount == 0 && t.state == 1 && t.owner == authority_in(prog, &wm) => {}
                t => c.fail(&["P11"], "closed-in-use", format!("{e} was closed as {t:?}")),
            }
            (vec![e, at(1)], &["P11"])
        }
        Some(4) => (vec![wrapped_mint_in(prog, &at(2), &T22)], &["P10", "P13"]),
        Some(5) => {
            let wm = wrapped_mint_in(prog, &at(3), &SPL);
            (vec![mpl_pda(&wm), authority_in(prog, &wm)], &["P10", "P13"])
        }
        Some(6) => (vec![pointer_in(prog, &at(2))], &["P10", "P17"]),
        _ => return,
    };
    c.cov.inc("frame_checks");
    for k in world_diff(before, after) {
        if !may.contains(&k) {
            c.fail(props, "touches-other", format!("{k} went from {} to {} during {}", acct_str(&before.get(&k)), acct_str(&after.get(&k)), desc_ix(ix)));
        }
    }
}
/// P10, P17: the accounts of the token-wrap program are written only by the instruction
/// that owns them: a backpointer once, by the creation of its pair, and a canonical pointer
/// by its mint's authority.
fn mon_state(c: &mut Case, before: &World, after: &World, ix: &Instruction, prog: &Pubkey) {
    for k in world_diff(before, after) {
        let (a, b) = (before.get(&k), after.get(&k));
        if (a.owner != *prog && b.owner != *prog) || (a.owner == b.owner && a.data == b.data) {
            continue;
        }
        c.cov.inc("state_checks");
        let at = |n: usize| ix.accounts.get(n).map(|m| m.pubkey).unwrap_or_default();
        match ix.data.first() {
            Some(0) if a.data.is_empty() && k == at(1) && b.data == at(2).to_bytes() => {}
            Some(6) if k == pointer_in(prog, &at(2)) && ix.accounts[0].is_signer && before.mint(&at(2)).is_some_and(|m| m.auth == Some(at(0))) && b.data == ix.data[1..] => {}
            _ => c.fail(&["P10", "P17"], "state-overwritten", format!("{k} of the program went from {} to {} during {}", acct_str(&a), acct_str(&b), desc_ix(ix))),
        }
    }
}
/// The escrow backing a wrapped mint is the one of the mint's present token program.
pub fn backing(w: &World, p: &Pair) -> u64 {
    let prog = w.get(&p.u).owner;
    if prog == SPL || prog == T22 {
        w.bal(&ata(&p.auth, &p.u, &prog))
    } else {
        w.bal(&p.escrow)
    }
}
/// No accepted instruction lowers what an escrow holds beyond the wrapped supply.
fn mon_backing(c: &mut Case, before: &World, after: &World, ix: &Instruction, pairs: &[Pair]) {
    for p in pairs {
        let old = backing(before, p) as i128 - before.supply(&p.wm) as i128;
        let new = backing(after, p) as i128 - after.supply(&p.wm) as i128;
        c.cov.inc("surplus_checks");
        if new < old {
            c.fail(&["P01"], "surplus", format!("escrow minus wrapped supply of {} fell from {old} to {new} in {}", p.wm, desc_ix(ix)));
        }
    }
}
pub fn acct_str(a: &Account) -> String {
    format!("{{lamports {}, owner {}, {} bytes}}", a.lamports, nick(&a.owner), a.data.len())
}
