//! Instruction encoders of token-wrap, written from the documentation.
use crate::ids::*;
use crate::rt::meta;
use solana_instruction::{AccountMeta, Instruction};

fn mk(program_id: Pubkey, accounts: Vec<AccountMeta>, data: Vec<u8>) -> Instruction {
    Instruction { program_id, accounts, data }
}
pub fn create_mint_raw(prog: Pubkey, w: Pubkey, bp: Pubkey, u: Pubkey, wp: Pubkey, idem: bool) -> Instruction {
    mk(prog, vec![meta(w, false, true), meta(bp, false, true), meta(u, false, false), meta(SYS, false, false), meta(wp, false, false)], vec![0, idem as u8])
}
pub fn create_mint(u: Pubkey, wp: Pubkey, idem: bool) -> Instruction {
    let w = wrapped_mint(&u, &wp);
    create_mint_raw(WRAP, w, backpointer(&w), u, wp, idem)
}
#[derive(Clone, Debug)]
pub struct WrapArgs {
    pub recipient: Pubkey,
    pub wrapped_mint: Pubkey,
    pub authority: Pubkey,
    pub up: Pubkey,
    pub wp: Pubkey,
    pub source: Pubkey,
    pub unwrapped_mint: Pubkey,
    pub escrow: Pubkey,
    pub ta: Pubkey,
    pub ta_signer: bool,
    pub extras: Vec<AccountMeta>,
    pub amount: u64,
}
pub fn amt(tag: u8, n: u64) -> Vec<u8> {
    let mut d = vec![tag];
    d.extend_from_slice(&n.to_le_bytes());
    d
}
pub fn wrap(a: &WrapArgs) -> Instruction {
    wrap_in(WRAP, a)
}
pub fn wrap_in(prog: Pubkey, a: &WrapArgs) -> Instruction {
    let mut v = vec![
        meta(a.recipient, false, true),
        meta(a.wrapped_mint, false, true),
        meta(a.authority, false, false),
        meta(a.up, false, false),
        meta(a.wp, false, false),
        meta(a.source, false, true),
        meta(a.unwrapped_mint, false, false),
        meta(a.escrow, false, true),
        meta(a.ta, a.ta_signer, false),
    ];
    v.extend(a.extras.iter().cloned());
    mk(prog, v, amt(1, a.amount))
}
/// source = wrapped account, recipient = unwrapped account
pub fn unwrap(a: &WrapArgs) -> Instruction {
    unwrap_in(WRAP, a)
}
pub fn unwrap_in(prog: Pubkey, a: &WrapArgs) -> Instruction {
    let mut v = vec![
        meta(a.escrow, false, true),
        meta(a.recipient, false, true),
        meta(a.authority, false, false),
        meta(a.unwrapped_mint, false, false),
        meta(a.wp, false, false),
        meta(a.up, false, false),
        meta(a.source, false, true),
        meta(a.wrapped_mint, false, true),
        meta(a.ta, a.ta_signer, false),
    ];
    v.extend(a.extras.iter().cloned());
    mk(prog, v, amt(2, a.amount))
}
pub fn close_stuck(escrow: Pubkey, dest: Pubkey, u: Pubkey, w: Pubkey, auth: Pubkey) -> Instruction {
    mk(WRAP, vec![meta(escrow, false, true), meta(dest, false, true), meta(u, false, false), meta(w, false, false), meta(auth, false, false), meta(T22, false, false)], vec![3])
}
pub fn sync22(w: Pubkey, auth: Pubkey, u: Pubkey, tp: Pubkey, src: Option<Pubkey>, owner: Option<Pubkey>) -> Instruction {
    let mut v = vec![meta(w, false, true), meta(auth, false, false), meta(u, false, false), meta(tp, false, false)];
    if let Some(s) = src {
        v.push(meta(s, false, false));
    }
    if let Some(o) = owner {
        v.push(meta(o, false, false));
    }
    mk(WRAP, v, vec![4])
}
pub fn syncspl(mp: Pubkey, auth: Pubkey, w: Pubkey, u: Pubkey, src: Option<Pubkey>, owner: Option<Pubkey>) -> Instruction {
    let mut v = vec![
        meta(mp, false, true),
        meta(auth, false, true),
        meta(w, false, false),
        meta(u, false, false),
        meta(MPL, false, false),
        meta(SYS, false, false),
        meta(RENT, false, false),
    ];
    if let Some(s) = src {
        v.push(meta(s, false, false));
    }
    if let Some(o) = owner {
        v.push(meta(o, false, false));
    }
    mk(WRAP, v, vec![5])
}
pub fn set_pointer(auth: Pubkey, signer: bool, ptr: Pubkey, u: Pubkey, to: Pubkey) -> Instruction {
    let mut d = vec![6];
    d.extend_from_slice(to.as_ref());
    mk(WRAP, vec![meta(auth, signer, false), meta(ptr, false, true), meta(u, false, false), meta(SYS, false, false)], d)
}
// ---- ATA program
pub fn create_ata(payer: Pubkey, owner: Pubkey, mint: Pubkey, prog: Pubkey, idem: bool) -> Instruction {
    mk(
        ATA,
        vec![meta(payer, true, true), meta(ata(&owner, &mint, &prog), false, true), meta(owner, false, false), meta(mint, false, false), meta(SYS, false, false), meta(prog, false, false)],
        vec![idem as u8],
    )
}
// ---- token programs (shared layout)
pub fn transfer_checked(prog: Pubkey, src: Pubkey, mint: Pubkey, dst: Pubkey, auth: Pubkey, auth_signer: bool, extras: &[AccountMeta], amount: u64, dec: u8) -> Instruction {
    let mut d = vec![12];
    d.extend_from_slice(&amount.to_le_bytes());
    d.push(dec);
    let mut v = vec![meta(src, false, true), meta(mint, false, false), meta(dst, false, true), meta(auth, auth_signer, false)];
    v.extend(extras.iter().cloned());
    mk(prog, v, d)
}
pub fn mint_to(prog: Pubkey, mint: Pubkey, dst: Pubkey, auth: Pubkey, amount: u64) -> Instruction {
    mk(prog, vec![meta(mint, false, true), meta(dst, false, true), meta(auth, true, false)], amt(7, amount))
}
pub fn burn(prog: Pubkey, acct: Pubkey, mint: Pubkey, auth: Pubkey, auth_signer: bool, extras: &[AccountMeta], amount: u64) -> Instruction {
    let mut v = vec![meta(acct, false, true), meta(mint, false, true), meta(auth, auth_signer, false)];
    v.extend(extras.iter().cloned());
    mk(prog, v, amt(8, amount))
}
pub fn approve(prog: Pubkey, acct: Pubkey, delegate: Pubkey, owner: Pubkey, amount: u64) -> Instruction {
    mk(prog, vec![meta(acct, false, true), meta(delegate, false, false), meta(owner, true, false)], amt(4, amount))
}
pub fn freeze(prog: Pubkey, acct: Pubkey, mint: Pubkey, auth: Pubkey, thaw: bool) -> Instruction {
    mk(prog, vec![meta(acct, false, true), meta(mint, false, false), meta(auth, true, false)], vec![if thaw { 11 } else { 10 }])
}
pub fn close_account(prog: Pubkey, acct: Pubkey, dest: Pubkey, owner: Pubkey) -> Instruction {
    mk(prog, vec![meta(acct, false, true), meta(dest, false, true), meta(owner, true, false)], vec![9])
}
/// kind: 0 mint tokens, 1 freeze, 2 account owner, 3 close account ...
pub fn set_authority(prog: Pubkey, acct: Pubkey, cur: Pubkey, kind: u8, new: Option<Pubkey>) -> Instruction {
    let mut d = vec![6, kind];
    match new {
        Some(n) => {
            d.push(1);
            d.extend_from_slice(n.as_ref())
        }
        None => d.push(0),
    }
    mk(prog, vec![meta(acct, false, true), meta(cur, true, false)], d)
}
