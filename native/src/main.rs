//! Line server around the host build of the program's library: every answer comes from
//! the library itself, and nothing is judged here.
use solana_instruction::Instruction;
use solana_pubkey::Pubkey;
use spl_token_wrap::{error::TokenWrapError, instruction as b, instruction::TokenWrapInstruction as I, state::*};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(d: &[u8]) -> String {
    if d.is_empty() {
        return "-".into();
    }
    d.iter().map(|b| format!("{b:02x}")).collect()
}
fn key(s: &str) -> Pubkey {
    Pubkey::new_from_array(unhex(s).try_into().unwrap())
}
fn variant(i: &I) -> String {
    match i {
        I::CreateMint { idempotent } => format!("CreateMint {idempotent}"),
        I::Wrap { amount } => format!("Wrap {amount}"),
        I::Unwrap { amount } => format!("Unwrap {amount}"),
        I::CloseStuckEscrow => "CloseStuckEscrow".into(),
        I::SyncMetadataToToken2022 => "SyncMetadataToToken2022".into(),
        I::SyncMetadataToSplToken => "SyncMetadataToSplToken".into(),
        I::SetCanonicalPointer { program_id } => format!("SetCanonicalPointer {}", hex(program_id.as_ref())),
    }
}
fn show(i: Instruction) -> String {
    let a: Vec<String> = i.accounts.iter().map(|m| format!("{}{}{}", hex(m.pubkey.as_ref()), if m.is_signer { "s" } else { "-" }, if m.is_writable { "w" } else { "-" })).collect();
    format!("{} {} {}", hex(i.program_id.as_ref()), hex(&i.data), if a.is_empty() { "none".into() } else { a.join(",") })
}
fn ans(line: &str) -> String {
    let t: Vec<&str> = line.split(' ').collect();
    let k = |i: usize| key(t[i]);
    let opt = |i: usize| if t[i] == "." { None } else { Some(key(t[i])) };
    let list = |i: usize| if t[i] == "." { vec![] } else { t[i].split(',').map(key).collect::<Vec<_>>() };
    use spl_token_wrap as w;
    match t[0] {
        "id" => hex(w::id().as_ref()),
        "unpack" => match I::unpack(&unhex(t[1])) {
            Ok(i) => format!("ok {} = {}", hex(&i.pack()), variant(&i)),
            Err(e) => format!("err {e:?}"),
        },
        "pack" => {
            let i = match t[1] {
                "0" => I::CreateMint { idempotent: t[2] == "1" },
                "1" => I::Wrap { amount: t[2].parse().unwrap() },
                "2" => I::Unwrap { amount: t[2].parse().unwrap() },
                "3" => I::CloseStuckEscrow,
                "4" => I::SyncMetadataToToken2022,
                "5" => I::SyncMetadataToSplToken,
                _ => I::SetCanonicalPointer { program_id: k(2) },
            };
            hex(&i.pack())
        }
        // addr <unwrapped mint> <wrapped token program> <unwrapped token program> <deployment|.>
        "addr" => {
            let (u, wp, up) = (k(1), k(2), k(3));
            let v = match opt(4) {
                None => {
                    let m = w::get_wrapped_mint_address(&u, &wp);
                    [m, w::get_wrapped_mint_authority(&m), w::get_wrapped_mint_backpointer_address(&m), w::get_escrow_address(&u, &up, &wp), w::get_canonical_pointer_address(&u)]
                }
                Some(p) => {
                    let m = w::get_wrapped_mint_address_for_program(&u, &wp, &p);
                    [
                        m,
                        w::get_wrapped_mint_authority_for_program(&m, &p),
                        w::get_wrapped_mint_backpointer_address_for_program(&m, &p),
                        w::get_escrow_address_for_program(&u, &up, &wp, &p),
                        w::get_canonical_pointer_address_for_program(&u, &p),
                    ]
                }
            };
            v.iter().map(|x| hex(x.as_ref())).collect::<Vec<_>>().join(" ")
        }
        "create_mint" => show(b::create_mint(&k(1), &k(2), &k(3), &k(4), &k(5), t[6] == "1")),
        "wrap" | "unwrap" => {
            let s = list(11);
            let s: Vec<&Pubkey> = s.iter().collect();
            let f = if t[0] == "wrap" { b::wrap } else { b::unwrap };
            show(f(&k(1), &k(2), &k(3), &k(4), &k(5), &k(6), &k(7), &k(8), &k(9), &k(10), &s, t[12].parse().unwrap()))
        }
        "close" => show(b::close_stuck_escrow(&k(1), &k(2), &k(3), &k(4), &k(5), &k(6))),
        "sync22" => show(b::sync_metadata_to_token_2022(&k(1), &k(2), &k(3), &k(4), opt(5).as_ref(), opt(6).as_ref())),
        "syncspl" => show(b::sync_metadata_to_spl_token(&k(1), &k(2), &k(3), &k(4), &k(5), opt(6).as_ref(), opt(7).as_ref())),
        "pointer" => show(b::set_canonical_pointer(&k(1), &k(2), &k(3), &k(4), &k(5))),
        "error" => match TokenWrapError::try_from(t[1].parse::<u32>().unwrap()) {
            Ok(e) => {
                let (n, m, c) = (format!("{e:?}"), e.to_string(), e.clone() as u32);
                let p: solana_program_error::ProgramError = e.into();
                format!("ok {c} {n} {p:?} {m}")
            }
            Err(e) => format!("err {e:?}"),
        },
        // state <bytes>: both account layouts read from 32 bytes
        "state" => {
            let d = unhex(t[1]);
            let x = bytemuck::try_from_bytes::<Backpointer>(&d).map(|b| hex(b.unwrapped_mint.as_ref()));
            let y = bytemuck::try_from_bytes::<CanonicalDeploymentPointer>(&d).map(|b| hex(b.program_id.as_ref()));
            format!("{} {}", x.unwrap_or("err".into()), y.unwrap_or("err".into()))
        }
        x => format!("unknown {x}"),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut o = std::io::stdout().lock();
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { break };
        if l == "flush" {
            o.flush().unwrap();
            continue;
        }
        let r = catch_unwind(AssertUnwindSafe(|| ans(&l))).unwrap_or_else(|e| format!("PANIC {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()));
        writeln!(o, "{}", r.replace('\n', " ")).unwrap();
    }
}
