//! The program's library, built for the host from /repo, behind a line protocol.
use crate::ids::*;
use crate::rt::meta;
use solana_instruction::Instruction;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Nat {
    _child: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}
thread_local! { static NAT: RefCell<Option<Nat>> = const { RefCell::new(None) }; }

pub fn path() -> String {
    std::env::var("WRAPNAT").unwrap_or_else(|_| "/verif/build/native/release/wrapnat".into())
}
/// Answers to a batch of questions, in order.
pub fn ask(q: &[String]) -> Vec<String> {
    NAT.with(|n| {
        let mut n = n.borrow_mut();
        let x = n.get_or_insert_with(|| {
            let mut c = Command::new(path()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| crate::run::die(&format!("{}: {e}", path())));
            let (i, o) = (c.stdin.take().unwrap(), BufReader::new(c.stdout.take().unwrap()));
            Nat { _child: c, i, o }
        });
        let mut v = vec![];
        // chunks small enough for both pipes
        for ch in q.chunks(64) {
            let mut s = ch.join("\n");
            s.push_str("\nflush\n");
            x.i.write_all(s.as_bytes()).expect("native library process is gone");
            x.i.flush().unwrap();
            for _ in ch {
                let mut l = String::new();
                if x.o.read_line(&mut l).unwrap_or(0) == 0 {
                    panic!("native library process ended");
                }
                v.push(l.trim_end().to_string());
            }
        }
        v
    })
}
pub fn ask1(q: String) -> String {
    ask(&[q]).remove(0)
}
pub fn hex(d: &[u8]) -> String {
    if d.is_empty() {
        return "-".into();
    }
    d.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn hk(k: &Pubkey) -> String {
    hex(k.as_ref())
}
pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}
pub fn key(s: &str) -> Option<Pubkey> {
    Some(Pubkey::new_from_array(unhex(s).try_into().ok()?))
}
/// Reads an instruction as printed by the native process.
pub fn parse_ix(s: &str) -> Option<Instruction> {
    let t: Vec<&str> = s.split(' ').collect();
    if t.len() != 3 || s.starts_with("PANIC") {
        return None;
    }
    let mut accounts = vec![];
    if t[2] != "none" {
        for a in t[2].split(',') {
            let (k, f) = a.split_at(64);
            accounts.push(meta(key(k)?, f.starts_with('s'), f.ends_with('w')));
        }
    }
    Some(Instruction { program_id: key(t[0])?, accounts, data: unhex(t[1]) })
}
/// The question whose answer must be `i` without whatever follows the documented accounts
/// and multisig signers; also returns how many accounts the builder can know of.
pub fn question(i: &Instruction) -> Option<(String, usize)> {
    let k = |n: usize| hk(&i.accounts[n].pubkey);
    let p = hk(&i.program_id);
    let idx = |o: &[usize]| o.iter().map(|n| k(*n)).collect::<Vec<_>>().join(" ");
    let opt = |n: usize| i.accounts.get(n).map(|m| hk(&m.pubkey)).unwrap_or(".".into());
    Some(match i.data.first()? {
        0 => (format!("create_mint {p} {} {}", idx(&[0, 1, 2, 4]), i.data[1]), 5),
        t @ (1 | 2) => {
            let s: Vec<String> = if i.accounts[8].is_signer { vec![] } else { i.accounts[9..].iter().take_while(|m| m.is_signer).map(|m| hk(&m.pubkey)).collect() };
            let n = u64::from_le_bytes(i.data[1..9].try_into().ok()?);
            let name = if *t == 1 { "wrap" } else { "unwrap" };
            let l = if s.is_empty() { ".".into() } else { s.join(",") };
            (format!("{name} {p} {} {l} {n}", idx(&[0, 1, 2, 3, 4, 5, 6, 7, 8])), 9 + s.len())
        }
        3 => (format!("close {p} {}", idx(&[0, 1, 2, 3, 4])), 6),
        4 => (format!("sync22 {p} {} {} {}", idx(&[0, 1, 2]), opt(4), opt(5)), i.accounts.len()),
        5 => (format!("syncspl {p} {} {} {}", idx(&[0, 1, 2, 3]), opt(7), opt(8)), i.accounts.len()),
        6 => (format!("pointer {p} {} {}", idx(&[0, 1, 2]), hex(&i.data[1..])), 4),
        _ => return None,
    })
}
