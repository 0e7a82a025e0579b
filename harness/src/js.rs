//! The JavaScript client of /repo, bundled and driven behind a line protocol.
use crate::ids::*;
use serde_json::{json, Value};
use solana_instruction::Instruction;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Js {
    _child: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}
thread_local! { static JS: RefCell<Option<Js>> = const { RefCell::new(None) }; }

/// Answers to a batch of questions, in order: {"ok": ..} or {"err": message}.
pub fn ask(q: &[Value]) -> Vec<Value> {
    JS.with(|n| {
        let mut n = n.borrow_mut();
        let x = n.get_or_insert_with(|| {
            let mut c = Command::new("node")
                .args(["/verif/js/driver.cjs", "/verif/build/js"])
                .env_remove("NODE_ENV")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .unwrap_or_else(|e| crate::run::die(&format!("node: {e}")));
            let (i, o) = (c.stdin.take().unwrap(), BufReader::new(c.stdout.take().unwrap()));
            Js { _child: c, i, o }
        });
        let mut v = vec![];
        for q in q {
            let mut s = q.to_string();
            s.push('\n');
            x.i.write_all(s.as_bytes()).expect("the client process is gone");
            x.i.flush().unwrap();
            let mut l = String::new();
            if x.o.read_line(&mut l).unwrap_or(0) == 0 {
                crate::run::die("the client process ended");
            }
            v.push(serde_json::from_str(&l).unwrap_or(Value::Null));
        }
        v
    })
}
pub fn ask1(q: Value) -> Value {
    ask(&[q]).remove(0)
}
pub fn k(x: &Pubkey) -> Value {
    json!(x.to_string())
}
pub fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn key(v: &Value) -> Option<Pubkey> {
    v.as_str()?.parse().ok()
}
/// An instruction as printed by the driver, and the signer object attached to each account.
pub fn parse_ix(v: &Value) -> Option<(Instruction, Vec<Option<Pubkey>>)> {
    let mut accounts = vec![];
    let mut sg = vec![];
    for a in v["a"].as_array()? {
        let r = a[1].as_u64()?;
        if r > 3 {
            return None;
        }
        accounts.push(crate::rt::meta(key(&a[0])?, r & 2 != 0, r & 1 != 0));
        sg.push(if a[2].is_null() { None } else { Some(key(&a[2])?) });
    }
    let d = v["d"].as_str()?;
    Some((Instruction { program_id: key(&v["p"])?, accounts, data: (0..d.len() / 2).map(|i| u8::from_str_radix(&d[2 * i..2 * i + 2], 16).unwrap_or(0)).collect() }, sg))
}
pub fn ix_json(i: &Instruction) -> Value {
    json!({"p": i.program_id.to_string(), "d": hex(&i.data),
        "a": i.accounts.iter().map(|m| json!([m.pubkey.to_string(), (m.is_signer as u8) * 2 + m.is_writable as u8])).collect::<Vec<_>>()})
}
/// The documented names of the accounts of each operation.
pub const NAMES: [(&str, &[&str]); 7] = [
    ("createMint", &["wrappedMint", "backpointer", "unwrappedMint", "systemProgram", "wrappedTokenProgram"]),
    (
        "wrap",
        &["recipientWrappedTokenAccount", "wrappedMint", "wrappedMintAuthority", "unwrappedTokenProgram", "wrappedTokenProgram", "unwrappedTokenAccount", "unwrappedMint", "unwrappedEscrow", "transferAuthority"],
    ),
    (
        "unwrap",
        &["unwrappedEscrow", "recipientUnwrappedToken", "wrappedMintAuthority", "unwrappedMint", "wrappedTokenProgram", "unwrappedTokenProgram", "wrappedTokenAccount", "wrappedMint", "transferAuthority"],
    ),
    ("closeStuckEscrow", &["escrow", "destination", "unwrappedMint", "wrappedMint", "wrappedMintAuthority", "token2022Program"]),
    ("syncMetadataToToken2022", &["wrappedMint", "wrappedMintAuthority", "unwrappedMint", "token2022Program", "sourceMetadata", "ownerProgram"]),
    (
        "syncMetadataToSplToken",
        &["metaplexMetadata", "wrappedMintAuthority", "wrappedMint", "unwrappedMint", "metaplexProgram", "systemProgram", "rentSysvar", "sourceMetadata", "ownerProgram"],
    ),
    ("setCanonicalPointer", &["unwrappedMintAuthority", "canonicalPointer", "unwrappedMint", "systemProgram"]),
];
/// Accounts a caller may leave to the client.
pub const DEFAULTED: [&str; 4] = ["systemProgram", "token2022Program", "metaplexProgram", "rentSysvar"];
