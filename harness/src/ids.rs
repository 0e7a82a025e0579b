//! Addresses and derivations, written from the documented seeds and independent
//! of the repository's own helpers.
pub use solana_pubkey::Pubkey;
use solana_pubkey::pubkey;

pub const WRAP: Pubkey = pubkey!("TwRapQCDhWkZRrDaHfZGuHxkZ91gHDRkyuzNqeU5MgR");
pub const SPL: Pubkey = pubkey!("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
pub const T22: Pubkey = pubkey!("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");
pub const ATA: Pubkey = pubkey!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
pub const MPL: Pubkey = pubkey!("metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s");
pub const SYS: Pubkey = pubkey!("11111111111111111111111111111111");
pub const RENT: Pubkey = pubkey!("SysvarRent111111111111111111111111111111111");
/// Native stand-ins defined in adv.rs.
pub const HOOK: Pubkey = pubkey!("Hook111111111111111111111111111111111111111");
pub const EVILHOOK: Pubkey = pubkey!("EviHook111111111111111111111111111111111111");
pub const METAP: Pubkey = pubkey!("MetaProg11111111111111111111111111111111111");
pub const METAP2: Pubkey = pubkey!("MetaProg21111111111111111111111111111111111");
pub const FWD: Pubkey = pubkey!("Forward111111111111111111111111111111111111");
pub const FWD2: Pubkey = pubkey!("Forward211111111111111111111111111111111111");
pub const FAKETOK: Pubkey = pubkey!("FakeTok111111111111111111111111111111111111");

pub fn pda(prog: &Pubkey, seeds: &[&[u8]]) -> (Pubkey, u8) {
    Pubkey::find_program_address(seeds, prog)
}
pub fn wrapped_mint_in(prog: &Pubkey, unwrapped: &Pubkey, wrapped_prog: &Pubkey) -> Pubkey {
    pda(prog, &[b"mint", unwrapped.as_ref(), wrapped_prog.as_ref()]).0
}
pub fn authority_in(prog: &Pubkey, wrapped: &Pubkey) -> Pubkey {
    pda(prog, &[b"authority", wrapped.as_ref()]).0
}
pub fn backpointer_in(prog: &Pubkey, wrapped: &Pubkey) -> Pubkey {
    pda(prog, &[b"backpointer", wrapped.as_ref()]).0
}
pub fn pointer_in(prog: &Pubkey, unwrapped: &Pubkey) -> Pubkey {
    pda(prog, &[b"canonical_pointer", unwrapped.as_ref()]).0
}
pub fn wrapped_mint(u: &Pubkey, wp: &Pubkey) -> Pubkey {
    wrapped_mint_in(&WRAP, u, wp)
}
pub fn authority(w: &Pubkey) -> Pubkey {
    authority_in(&WRAP, w)
}
pub fn backpointer(w: &Pubkey) -> Pubkey {
    backpointer_in(&WRAP, w)
}
pub fn pointer(u: &Pubkey) -> Pubkey {
    pointer_in(&WRAP, u)
}
pub fn ata(owner: &Pubkey, mint: &Pubkey, prog: &Pubkey) -> Pubkey {
    pda(&ATA, &[owner.as_ref(), prog.as_ref(), mint.as_ref()]).0
}
pub fn escrow(u: &Pubkey, up: &Pubkey, wp: &Pubkey) -> Pubkey {
    ata(&authority(&wrapped_mint(u, wp)), u, up)
}
pub fn mpl_pda(mint: &Pubkey) -> Pubkey {
    pda(&MPL, &[b"metadata", MPL.as_ref(), mint.as_ref()]).0
}
/// A short readable name for traces.
pub fn nick(k: &Pubkey) -> String {
    match *k {
        WRAP => "token-wrap".into(),
        SPL => "spl-token".into(),
        T22 => "token-2022".into(),
        ATA => "ata-program".into(),
        MPL => "metaplex".into(),
        SYS => "system".into(),
        _ => k.to_string(),
    }
}

/// Builds of the program around the bundled mint customizers (see /verif/variants).
pub const VARIANTS: [&str; 3] = ["compliance", "noext", "custom"];
