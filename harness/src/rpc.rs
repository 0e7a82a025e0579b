//! A Solana node as seen by a client: a JSON-RPC server over a generated world,
//! executing broadcast transactions on the real programs. It records every request
//! and can misbehave on command.
use crate::case::*;
use crate::ids::*;
use crate::rt::*;
use base64::prelude::*;
use ed25519_dalek::{Signature, Signer, SigningKey, VerifyingKey};
use serde_json::{json, Value};
use solana_instruction::{AccountMeta, Instruction};
use std::collections::BTreeSet;
use std::io::{Read, Write};
use std::net::TcpListener;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const FEE: u64 = 5000;

#[derive(Clone)]
pub struct Kp(pub SigningKey);
impl Kp {
    pub fn new(c: &mut Case) -> Kp {
        Kp(SigningKey::from_bytes(&c.key().to_bytes()))
    }
    pub fn pk(&self) -> Pubkey {
        Pubkey::new_from_array(self.0.verifying_key().to_bytes())
    }
    pub fn sign(&self, m: &[u8]) -> [u8; 64] {
        self.0.sign(m).to_bytes()
    }
    pub fn write(&self, dir: &Path, name: &str) -> String {
        let p = dir.join(name);
        let v: Vec<u8> = self.0.to_keypair_bytes().to_vec();
        std::fs::write(&p, serde_json::to_string(&v).unwrap()).unwrap();
        p.to_str().unwrap().to_string()
    }
}
pub fn b58(d: &[u8]) -> String {
    bs58::encode(d).into_string()
}
pub fn verify(k: &Pubkey, m: &[u8], s: &[u8; 64]) -> bool {
    VerifyingKey::from_bytes(&k.to_bytes()).map(|v| v.verify_strict(m, &Signature::from_bytes(s)).is_ok()).unwrap_or(false)
}

// ------------------------------------------------------------------ transactions
#[derive(Clone, Debug)]
pub struct Tx {
    pub sigs: Vec<[u8; 64]>,
    pub msg: Vec<u8>,
    pub keys: Vec<Pubkey>,
    pub nreq: usize,
    pub ro_s: usize,
    pub ro_u: usize,
    pub hash: [u8; 32],
    pub ixs: Vec<Instruction>,
    /// offset of each instruction's program in keys
    pub raw: Vec<u8>,
}
fn short(d: &[u8], p: &mut usize) -> Option<usize> {
    let (mut v, mut s) = (0usize, 0);
    loop {
        let b = *d.get(*p)?;
        *p += 1;
        v |= ((b & 127) as usize) << s;
        if b & 128 == 0 {
            return Some(v);
        }
        s += 7;
        if s > 14 {
            return None;
        }
    }
}
fn take<'a>(d: &'a [u8], p: &mut usize, n: usize) -> Option<&'a [u8]> {
    let r = d.get(*p..*p + n)?;
    *p += n;
    Some(r)
}
pub fn parse_msg(msg: &[u8]) -> Option<Tx> {
    let mut p = 0;
    let h = take(msg, &mut p, 3)?;
    let (nreq, ro_s, ro_u) = (h[0] as usize, h[1] as usize, h[2] as usize);
    if nreq & 128 != 0 {
        return None;
    }
    let n = short(msg, &mut p)?;
    let mut keys = vec![];
    for _ in 0..n {
        keys.push(Pubkey::new_from_array(take(msg, &mut p, 32)?.try_into().ok()?));
    }
    let hash: [u8; 32] = take(msg, &mut p, 32)?.try_into().ok()?;
    let ni = short(msg, &mut p)?;
    let mut ixs = vec![];
    let wr = |i: usize| if i < nreq { i < nreq.saturating_sub(ro_s) } else { i < n.saturating_sub(ro_u) };
    for _ in 0..ni {
        let pi = take(msg, &mut p, 1)?[0] as usize;
        let na = short(msg, &mut p)?;
        let mut accounts = vec![];
        for b in take(msg, &mut p, na)? {
            let i = *b as usize;
            accounts.push(AccountMeta { pubkey: *keys.get(i)?, is_signer: i < nreq, is_writable: wr(i) });
        }
        let nd = short(msg, &mut p)?;
        let data = take(msg, &mut p, nd)?.to_vec();
        ixs.push(Instruction { program_id: *keys.get(pi)?, accounts, data });
    }
    if p != msg.len() || nreq == 0 || nreq > n {
        return None;
    }
    Some(Tx { sigs: vec![], msg: msg.to_vec(), keys, nreq, ro_s, ro_u, hash, ixs, raw: vec![] })
}
pub fn parse_tx(d: &[u8]) -> Option<Tx> {
    let mut p = 0;
    let n = short(d, &mut p)?;
    let mut sigs = vec![];
    for _ in 0..n {
        sigs.push(take(d, &mut p, 64)?.try_into().ok()?);
    }
    let mut t = parse_msg(&d[p..])?;
    t.sigs = sigs;
    t.raw = d.to_vec();
    (t.sigs.len() == t.nreq && d.len() <= 1232).then_some(t)
}
impl Tx {
    pub fn signed(&self) -> bool {
        self.sigs.len() == self.nreq && (0..self.nreq).all(|i| verify(&self.keys[i], &self.msg, &self.sigs[i]))
    }
    pub fn writable(&self, i: usize) -> bool {
        if i < self.nreq {
            i < self.nreq - self.ro_s
        } else {
            i < self.keys.len() - self.ro_u
        }
    }
    /// Executes as the runtime does: fee, instructions in order, rent states, all or nothing.
    /// The error carries the world after a landed failure (fee only).
    pub fn exec(&self, vm: &mut Vm, w: &World, sigverify: bool, hashes: &[[u8; 32]]) -> (Result<(World, u64), Value>, World, Vec<String>) {
        let none = |e: Value| (Err(e), w.clone(), vec![]);
        if self.keys.iter().collect::<BTreeSet<_>>().len() != self.keys.len() {
            return none(json!("AccountLoadedTwice"));
        }
        if sigverify && !self.signed() {
            return none(json!("SignatureFailure"));
        }
        if !hashes.contains(&self.hash) {
            return none(json!("BlockhashNotFound"));
        }
        let payer = self.keys[0];
        let fee = FEE * self.nreq as u64;
        let Some(pa) = w.a.get(&payer).filter(|a| a.lamports > 0) else { return none(json!("AccountNotFound")) };
        if pa.owner != SYS || !self.writable(0) {
            return none(json!("InvalidAccountForFee"));
        }
        if pa.lamports < fee {
            return none(json!("InsufficientFundsForFee"));
        }
        let mut s = w.clone();
        s.a.get_mut(&payer).unwrap().lamports -= fee;
        let paid = s.clone();
        let mut logs = vec![];
        let mut cu = 0;
        for (i, ix) in self.ixs.iter().enumerate() {
            let o = vm.run(&mut s, ix);
            logs.extend(o.logs.clone());
            cu += o.cu;
            if let Some(e) = o.err {
                use solana_instruction_error::InstructionError as E;
                let v = match &e {
                    E::Custom(n) => json!({ "Custom": n }),
                    e => json!(format!("{e:?}").split(['(', ' ']).next().unwrap()),
                };
                return (Err(json!({"InstructionError": [i, v]})), paid, logs);
            }
        }
        for (i, k) in self.keys.iter().enumerate() {
            if !self.writable(i) {
                continue;
            }
            let (a, b) = (w.get(k), s.get(k));
            let rp = |x: &solana_account::Account| x.lamports > 0 && x.lamports < vm.rent(x.data.len());
            if rp(&b) && !(rp(&a) && a.data.len() == b.data.len() && b.lamports <= a.lamports) {
                return (Err(json!({"InsufficientFundsForRent": {"account_index": i}})), paid, logs);
            }
        }
        (Ok((s, cu)), paid, logs)
    }
}
pub fn system_transfer(from: Pubkey, to: Pubkey, n: u64) -> Instruction {
    let mut data = vec![2, 0, 0, 0];
    data.extend_from_slice(&n.to_le_bytes());
    Instruction { program_id: SYS, accounts: vec![meta(from, true, true), meta(to, false, true)], data }
}

// ------------------------------------------------------------------ the node
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    Rpc,
    Http500,
    Drop,
    Garbage,
}
pub const HOWS: [How; 4] = [How::Rpc, How::Http500, How::Drop, How::Garbage];
#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    /// the n-th request of this method fails
    Fail(&'static str, u64, How),
    /// accepted without preflight, executed, found by its status
    NoPreflight,
    /// accepted and never executed
    Expires,
    /// executed on a fork that is given up before it is confirmed
    Abandoned,
    /// accepted and executed, but the node names another signature
    OtherSignature,
    /// a simulation answers with this error whatever the transaction does
    SimErr(Value),
    /// a simulation without logs or without a unit count
    SimBare(bool, bool),
}
/// A transaction of somebody else, tried just before the node answers a request.
pub struct Act {
    pub at: u64,
    pub what: &'static str,
    pub ixs: Vec<Instruction>,
}
/// What others do while a client is at work, and every state the chain went through.
#[derive(Default)]
pub struct Busy {
    pub acts: Vec<Act>,
    pub landed: Vec<(u64, &'static str)>,
    pub states: Vec<World>,
    /// index of the state a request was answered from
    pub seen: Vec<usize>,
}
pub struct Net {
    pub fault: Fault,
    pub hash: [u8; 32],
    pub extra_hashes: Vec<[u8; 32]>,
    pub busy: Option<std::cell::RefCell<Busy>>,
}
impl Net {
    pub fn new(c: &mut Case) -> Net {
        Net { fault: Fault::None, hash: c.key().to_bytes(), extra_hashes: vec![], busy: None }
    }
    /// Newer than the one users got hold of earlier; both are valid.
    pub fn latest(&self) -> [u8; 32] {
        let mut h = self.hash;
        h.rotate_left(7);
        h[3] ^= 0x5a;
        h
    }
}
#[derive(Clone, Debug)]
pub struct SimRec {
    pub tx: Tx,
    /// what the node answered
    pub err: Value,
    pub answered: bool,
    pub logs: Value,
    pub units: Value,
}
#[derive(Clone, Debug)]
pub struct SendRec {
    pub tx: Option<Tx>,
    pub landed: bool,
    /// executed successfully
    pub ok: bool,
    pub err: Value,
    /// number of the request
    pub at: usize,
}
#[derive(Debug, Default)]
pub struct RunOut {
    pub code: Option<i32>,
    pub stdout: String,
    pub stderr: String,
    pub reqs: Vec<String>,
    pub sims: Vec<SimRec>,
    pub sends: Vec<SendRec>,
    pub fault_hit: bool,
    /// connections to the node nobody named
    pub strays: u64,
    /// every request as it came
    pub said: String,
    /// files the client left behind
    pub files: Vec<String>,
}
impl RunOut {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn json(&self) -> Option<Value> {
        let s = self.stdout.trim();
        let i = s.find('{')?;
        serde_json::from_str(&s[i..]).ok()
    }
    pub fn brief(&self) -> String {
        let cut = |s: &str| s.chars().take(500).collect::<String>();
        format!("exit {:?}; out {:?}; err {:?}; requests {:?}; sends {:?}", self.code, cut(&self.stdout), cut(&self.stderr), self.reqs, self.sends.iter().map(|s| (s.landed, s.ok, s.err.to_string())).collect::<Vec<_>>())
    }
}
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new(c: &mut Case) -> Dir {
        let base = std::env::var("WRAPSCRATCH").unwrap_or_else(|_| "/verif/build/scratch".into());
        let p = PathBuf::from(base).join(format!("{}-{}", std::process::id(), c.key()));
        std::fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn ctx() -> Value {
    json!({"slot": 77, "apiVersion": "3.1.0"})
}
struct Node<'a, 'b> {
    c: &'a mut Case<'b>,
    w: &'a mut World,
    net: &'a Net,
    out: RunOut,
    counts: std::collections::BTreeMap<String, u64>,
    landed: Vec<(String, Value)>,
}
enum Ans {
    Ok(Value),
    Err(Value),
    Bad(How),
}
impl Node<'_, '_> {
    fn hashes(&self) -> Vec<[u8; 32]> {
        let mut v = vec![self.net.hash, self.net.latest()];
        v.extend(self.net.extra_hashes.iter());
        v
    }
    fn tx_of(p: &Value) -> Option<Tx> {
        let s = p.get(0)?.as_str()?;
        let enc = p.get(1).and_then(|x| x.get("encoding")).and_then(|x| x.as_str()).unwrap_or("base58");
        let raw = if enc == "base64" { BASE64_STANDARD.decode(s).ok()? } else { bs58::decode(s).into_vec().ok()? };
        parse_tx(&raw)
    }
    fn handle(&mut self, method: &str, p: &Value) -> Ans {
        let n = self.counts.entry(method.to_string()).or_default();
        *n += 1;
        let n = *n;
        self.out.reqs.push(method.to_string());
        if let Some(b) = &self.net.busy {
            let mut b = b.borrow_mut();
            let now = self.out.reqs.len() as u64;
            if b.states.is_empty() {
                b.states.push(self.w.clone());
            }
            let (due, rest): (Vec<Act>, Vec<Act>) = std::mem::take(&mut b.acts).into_iter().partition(|a| a.at <= now);
            b.acts = rest;
            for a in due {
                let mut w2 = self.w.clone();
                if self.c.vm.tx(&mut w2, &a.ixs).1 {
                    *self.w = w2.clone();
                    b.states.push(w2);
                    b.landed.push((now, a.what));
                }
            }
            let n = b.states.len() - 1;
            b.seen.push(n);
        }
        if let Fault::Fail(m, k, how) = &self.net.fault {
            if *m == method && *k == n {
                self.out.fault_hit = true;
                if method == "sendTransaction" {
                    self.out.sends.push(SendRec { tx: Self::tx_of(p), landed: false, ok: false, err: json!("injected"), at: self.out.reqs.len() });
                }
                if method == "simulateTransaction" {
                    if let Some(tx) = Self::tx_of(p) {
                        self.out.sims.push(SimRec { tx, err: json!("injected"), answered: false, logs: Value::Null, units: Value::Null });
                    }
                }
                return Ans::Bad(*how);
            }
        }
        let key = |i: usize| -> Option<Pubkey> { p.get(i)?.as_str()?.parse().ok() };
        match method {
            "getAccountInfo" => {
                let Some(k) = key(0) else { return Ans::Err(json!({"code": -32602, "message": "Invalid param"})) };
                let v = match self.c.vm.account(self.w, &k).filter(|a| a.lamports > 0) {
                    None => Value::Null,
                    Some(a) => json!({"lamports": a.lamports, "owner": a.owner.to_string(), "executable": a.executable, "rentEpoch": u64::MAX, "space": a.data.len(), "data": [BASE64_STANDARD.encode(&a.data), "base64"]}),
                };
                Ans::Ok(json!({"context": ctx(), "value": v}))
            }
            "getMultipleAccounts" => {
                let mut v = vec![];
                for s in p.get(0).and_then(|x| x.as_array()).cloned().unwrap_or_default() {
                    let k: Option<Pubkey> = s.as_str().and_then(|x| x.parse().ok());
                    v.push(match k.and_then(|k| self.c.vm.account(self.w, &k)).filter(|a| a.lamports > 0) {
                        None => Value::Null,
                        Some(a) => json!({"lamports": a.lamports, "owner": a.owner.to_string(), "executable": a.executable, "rentEpoch": u64::MAX, "space": a.data.len(), "data": [BASE64_STANDARD.encode(&a.data), "base64"]}),
                    });
                }
                Ans::Ok(json!({"context": ctx(), "value": v}))
            }
            "getBalance" => Ans::Ok(json!({"context": ctx(), "value": key(0).map(|k| self.w.lamports(&k)).unwrap_or(0)})),
            "getMinimumBalanceForRentExemption" => Ans::Ok(json!(self.c.vm.rent(p.get(0).and_then(|x| x.as_u64()).unwrap_or(0) as usize))),
            "getLatestBlockhash" => Ans::Ok(json!({"context": ctx(), "value": {"blockhash": b58(&self.net.latest()), "lastValidBlockHeight": 1000}})),
            "isBlockhashValid" => {
                let valid = self.net.fault != Fault::Expires && p.get(0).and_then(|x| x.as_str()).map(|s| self.hashes().iter().any(|h| b58(h) == s)).unwrap_or(false);
                Ans::Ok(json!({"context": ctx(), "value": valid}))
            }
            "getVersion" => Ans::Ok(json!({"solana-core": "3.1.0", "feature-set": 1})),
            "getSlot" | "getBlockHeight" => Ans::Ok(json!(77)),
            "getGenesisHash" => Ans::Ok(json!(b58(&[9; 32]))),
            "getEpochInfo" => Ans::Ok(json!({"absoluteSlot": 77, "blockHeight": 77, "epoch": self.w.epoch, "slotIndex": 7, "slotsInEpoch": 432000, "transactionCount": 1})),
            "getFeeForMessage" => Ans::Ok(json!({"context": ctx(), "value": FEE})),
            "simulateTransaction" => {
                let Some(tx) = Self::tx_of(p) else { return Ans::Err(json!({"code": -32602, "message": "failed to deserialize transaction"})) };
                let opt = |n: &str| p.get(1).and_then(|x| x.get(n)).and_then(|x| x.as_bool()).unwrap_or(false);
                let sv = opt("sigVerify");
                let mut hs = self.hashes();
                if opt("replaceRecentBlockhash") {
                    hs.push(tx.hash);
                }
                let (r, _, logs) = tx.exec(self.c.vm, self.w, sv, &hs);
                let (mut err, cu) = match r {
                    Ok((_, cu)) => (Value::Null, cu),
                    Err(e) => (e, 1234),
                };
                let (mut logs, mut units) = (json!(logs), json!(cu));
                match &self.net.fault {
                    Fault::SimErr(e) => {
                        self.out.fault_hit = true;
                        err = e.clone();
                    }
                    Fault::SimBare(l, u) => {
                        self.out.fault_hit = true;
                        if *l {
                            logs = Value::Null;
                        }
                        if *u {
                            units = Value::Null;
                        }
                    }
                    _ => {}
                }
                self.out.sims.push(SimRec { tx, err: err.clone(), answered: true, logs: logs.clone(), units: units.clone() });
                Ans::Ok(json!({"context": ctx(), "value": {"err": err, "logs": logs, "accounts": null, "unitsConsumed": units, "returnData": null, "innerInstructions": null, "replacementBlockhash": null}}))
            }
            "sendTransaction" => {
                let Some(tx) = Self::tx_of(p) else {
                    self.out.sends.push(SendRec { tx: None, landed: false, ok: false, err: json!("unreadable"), at: self.out.reqs.len() });
                    return Ans::Err(json!({"code": -32602, "message": "failed to deserialize transaction"}));
                };
                let sig = b58(&tx.sigs[0]);
                if self.landed.iter().any(|l| l.0 == sig) {
                    self.out.sends.push(SendRec { tx: Some(tx), landed: false, ok: false, err: json!("AlreadyProcessed"), at: self.out.reqs.len() });
                    return Ans::Err(json!({"code": -32002, "message": "Transaction simulation failed: This transaction has already been processed", "data": {"err": "AlreadyProcessed", "logs": [], "accounts": null, "unitsConsumed": 0}}));
                }
                if !tx.signed() {
                    self.out.sends.push(SendRec { tx: Some(tx), landed: false, ok: false, err: json!("SignatureFailure"), at: self.out.reqs.len() });
                    return Ans::Err(json!({"code": -32003, "message": "Transaction signature verification failure"}));
                }
                if matches!(self.net.fault, Fault::Expires | Fault::Abandoned) {
                    self.out.fault_hit = true;
                    self.out.sends.push(SendRec { tx: Some(tx), landed: false, ok: false, err: json!("expired"), at: self.out.reqs.len() });
                    return Ans::Ok(json!(sig));
                }
                let hs = self.hashes();
                let (r, paid, logs) = tx.exec(self.c.vm, self.w, true, &hs);
                let skip = self.net.fault == Fault::NoPreflight || p.get(1).and_then(|x| x.get("skipPreflight")).and_then(|x| x.as_bool()).unwrap_or(false);
                match r {
                    Ok((w2, _)) => {
                        *self.w = w2;
                        if let Some(b) = &self.net.busy {
                            b.borrow_mut().states.push(self.w.clone());
                        }
                        self.landed.push((sig.clone(), Value::Null));
                        self.out.sends.push(SendRec { tx: Some(tx), landed: true, ok: true, err: Value::Null, at: self.out.reqs.len() });
                    }
                    Err(e) if skip => {
                        if e.get("InstructionError").is_none() && e.get("InsufficientFundsForRent").is_none() {
                            // dropped by the leader
                            self.out.sends.push(SendRec { tx: Some(tx), landed: false, ok: false, err: e, at: self.out.reqs.len() });
                        } else {
                            *self.w = paid;
                            if let Some(b) = &self.net.busy {
                                b.borrow_mut().states.push(self.w.clone());
                            }
                            self.landed.push((sig.clone(), e.clone()));
                            self.out.sends.push(SendRec { tx: Some(tx), landed: true, ok: false, err: e, at: self.out.reqs.len() });
                        }
                    }
                    Err(e) => {
                        self.out.sends.push(SendRec { tx: Some(tx), landed: false, ok: false, err: e.clone(), at: self.out.reqs.len() });
                        return Ans::Err(json!({"code": -32002, "message": format!("Transaction simulation failed: {e}"), "data": {"err": e, "logs": logs, "accounts": null, "unitsConsumed": 99, "returnData": null, "innerInstructions": null, "replacementBlockhash": null}}));
                    }
                }
                if self.net.fault == Fault::OtherSignature {
                    self.out.fault_hit = true;
                    return Ans::Ok(json!(b58(&[7u8; 64])));
                }
                Ans::Ok(json!(sig))
            }
            "getSignatureStatuses" => {
                if self.net.fault == Fault::Abandoned && !self.out.sends.is_empty() {
                    // seen on one fork for a while; then the node is asked no more
                    if self.out.reqs.iter().filter(|r| **r == "getSignatureStatuses").count() > 3 {
                        return Ans::Err(json!({"code": -32005, "message": "Node is behind by 150 slots"}));
                    }
                    let n = p.get(0).and_then(|x| x.as_array()).map(|x| x.len()).unwrap_or(0);
                    let one = json!({"slot": 77, "confirmations": 0, "err": null, "status": {"Ok": null}, "confirmationStatus": "processed"});
                    return Ans::Ok(json!({"context": ctx(), "value": vec![one; n]}));
                }
                let mut v = vec![];
                for s in p.get(0).and_then(|x| x.as_array()).cloned().unwrap_or_default() {
                    v.push(match self.landed.iter().find(|l| Some(l.0.as_str()) == s.as_str()) {
                        None => Value::Null,
                        Some((_, e)) => {
                            let st = if e.is_null() { json!({ "Ok": null }) } else { json!({ "Err": e }) };
                            json!({"slot": 77, "confirmations": null, "err": e, "status": st, "confirmationStatus": "finalized"})
                        }
                    });
                }
                Ans::Ok(json!({"context": ctx(), "value": v}))
            }
            m => Ans::Err(json!({"code": -32601, "message": format!("Method not found: {m}")})),
        }
    }
    fn serve(&mut self, mut s: std::net::TcpStream) -> std::io::Result<()> {
        s.set_nonblocking(false)?;
        s.set_read_timeout(Some(Duration::from_secs(20)))?;
        s.set_nodelay(true)?;
        let mut buf = vec![];
        let mut chunk = [0u8; 65536];
        let (head_end, len) = loop {
            let n = s.read(&mut chunk)?;
            if n == 0 {
                return Ok(());
            }
            buf.extend_from_slice(&chunk[..n]);
            if let Some(i) = buf.windows(4).position(|x| x == b"\r\n\r\n") {
                let head = String::from_utf8_lossy(&buf[..i]).to_lowercase();
                let len = head.lines().find_map(|l| l.strip_prefix("content-length:")).and_then(|x| x.trim().parse::<usize>().ok()).unwrap_or(0);
                break (i + 4, len);
            }
        };
        while buf.len() < head_end + len {
            let n = s.read(&mut chunk)?;
            if n == 0 {
                return Ok(());
            }
            buf.extend_from_slice(&chunk[..n]);
        }
        self.out.said.push_str(&String::from_utf8_lossy(&buf));
        self.out.said.push('\n');
        let q: Value = serde_json::from_slice(&buf[head_end..head_end + len]).unwrap_or(Value::Null);
        let m = q["method"].as_str().unwrap_or("?").to_string();
        let a = self.handle(&m, &q["params"]);
        let (status, body) = match a {
            Ans::Ok(v) => ("200 OK", json!({"jsonrpc": "2.0", "id": q["id"], "result": v}).to_string()),
            Ans::Err(e) => ("200 OK", json!({"jsonrpc": "2.0", "id": q["id"], "error": e}).to_string()),
            Ans::Bad(How::Rpc) => ("200 OK", json!({"jsonrpc": "2.0", "id": q["id"], "error": {"code": -32005, "message": "Node is behind by 150 slots", "data": {"numSlotsBehind": 150}}}).to_string()),
            Ans::Bad(How::Http500) => ("500 Internal Server Error", "oops".into()),
            Ans::Bad(How::Garbage) => ("200 OK", "{\"jsonrpc\":\"2.0\",".into()),
            Ans::Bad(How::Drop) => return Ok(()),
        };
        s.write_all(format!("HTTP/1.1 {status}\r\nContent-Type: application/json\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{body}", body.len()).as_bytes())?;
        Ok(())
    }
}
/// Every file under a directory with a digest of its content.
fn listing(d: &Path) -> Vec<(String, u64)> {
    use std::hash::{Hash, Hasher};
    let mut v = vec![];
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            v.extend(listing(&p));
        } else if !matches!(p.file_name().and_then(|x| x.to_str()), Some("stdout" | "stderr")) {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            std::fs::read(&p).unwrap_or_default().hash(&mut h);
            v.push((p.display().to_string(), h.finish()));
        }
    }
    v.sort();
    v
}
/// The ways the secret part of a key could be written down.
fn secret_forms(dir: &Path) -> Vec<String> {
    let mut v = vec![];
    for f in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let Ok(t) = std::fs::read(f.path()) else { continue };
        let Ok(k) = serde_json::from_slice::<Vec<u8>>(&t) else { continue };
        if k.len() == 64 {
            v.push(k[..32].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
            v.push(b58(&k));
            v.push(b58(&k[..32]));
            v.push(BASE64_STANDARD.encode(&k)[..40].to_string());
            v.push(k[..32].iter().map(|x| format!("{x:02x}")).collect());
        }
    }
    v
}
/// What the client told anybody, with a key's secret in it.
pub fn disclosed(dir: &Path, out: &RunOut) -> Option<String> {
    let forms = secret_forms(dir);
    for t in [&out.stdout, &out.stderr, &out.said] {
        let t: String = t.chars().filter(|x| !x.is_whitespace()).collect();
        if let Some(f) = forms.iter().find(|f| t.contains(f.as_str()) || t.to_lowercase().contains(f.as_str())) {
            return Some(f.clone());
        }
    }
    None
}
pub fn cli_path() -> String {
    std::env::var("WRAPCLI").unwrap_or_else(|_| "/verif/build/cli/debug/spl-token-wrap".into())
}
/// Runs the client where every connection goes to a stand-in for a proxy that forwards nothing.
/// Returns the exit code, whom the client asked for, and its output.
pub fn run_proxied(c: &mut Case, dir: &Path, args: &[String]) -> (Option<i32>, Vec<String>, String) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let url = format!("http://{}", l.local_addr().unwrap());
    l.set_nonblocking(true).unwrap();
    c.notes.push(format!("$ spl-token-wrap {}", args.join(" ")));
    let fo = std::fs::File::create(dir.join("stdout")).unwrap();
    let fe = std::fs::File::create(dir.join("stderr")).unwrap();
    let mut cmd = Command::new(cli_path());
    for v in ["http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "all_proxy"] {
        cmd.env(v, &url);
    }
    let mut ch = cmd.args(args).env("PATH", "/usr/bin:/bin").env("HOME", dir).env_remove("NO_PROXY").env_remove("no_proxy").current_dir(dir).stdin(Stdio::null()).stdout(fo).stderr(fe).spawn().expect("the client does not start");
    let start = Instant::now();
    let mut asked = vec![];
    let code = loop {
        match l.accept() {
            Ok((mut s, _)) => {
                let _ = s.set_nonblocking(false);
                let _ = s.set_read_timeout(Some(Duration::from_secs(5)));
                let mut buf = vec![];
                let mut chunk = [0u8; 4096];
                while !buf.windows(4).any(|x| x == b"\r\n\r\n") {
                    match s.read(&mut chunk) {
                        Ok(n) if n > 0 => buf.extend_from_slice(&chunk[..n]),
                        _ => break,
                    }
                }
                let head = String::from_utf8_lossy(&buf).to_string();
                asked.push(head.split_whitespace().nth(1).unwrap_or("").to_string());
                let _ = s.write_all(b"HTTP/1.1 502 Bad Gateway\r\nContent-Length: 0\r\nConnection: close\r\n\r\n");
            }
            Err(_) => {
                if let Some(st) = ch.try_wait().unwrap() {
                    break st.code();
                }
                std::thread::sleep(Duration::from_micros(400));
            }
        }
        if start.elapsed() > Duration::from_secs(120) {
            let _ = ch.kill();
            let _ = ch.wait();
            panic!("client did not finish: {args:?}");
        }
    };
    let read = |n: &str| String::from_utf8_lossy(&std::fs::read(dir.join(n)).unwrap_or_default()).to_string();
    let text = format!("{}{}", read("stdout"), read("stderr"));
    c.cov.inc("client_runs");
    c.notes.push(format!("  exit {code:?}, asked for {asked:?}: {}", text.chars().take(300).collect::<String>()));
    (code, asked, text)
}
/// Runs the client against the node and returns what it did.
pub fn run_cli(c: &mut Case, w: &mut World, net: &Net, dir: &Path, args: &[String]) -> RunOut {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let url = format!("http://{}", l.local_addr().unwrap());
    l.set_nonblocking(true).unwrap();
    let stray = TcpListener::bind("127.0.0.1:0").unwrap();
    let other = format!("http://{}", stray.local_addr().unwrap());
    stray.set_nonblocking(true).unwrap();
    let fill = |a: &str| a.replace("@URL@", &url).replace("@OTHER@", &other);
    let args: Vec<String> = args.iter().map(|a| fill(a)).collect();
    if let Ok(t) = std::fs::read_to_string(dir.join("config.in")) {
        std::fs::write(dir.join("config.yml"), fill(&t)).unwrap();
    }
    if let Ok(t) = std::fs::read_to_string(dir.join("home.in")) {
        std::fs::create_dir_all(dir.join(".config/solana/cli")).unwrap();
        std::fs::write(dir.join(".config/solana/cli/config.yml"), fill(&t)).unwrap();
    }
    c.notes.push(format!("$ spl-token-wrap {}", args.join(" ")));
    let fo = std::fs::File::create(dir.join("stdout")).unwrap();
    let fe = std::fs::File::create(dir.join("stderr")).unwrap();
    let had = listing(dir);
    let mut ch = Command::new(cli_path())
        .args(&args)
        .env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("HOME", dir)
        .env("NO_PROXY", "*")
        .current_dir(dir)
        .stdin(std::fs::File::open(dir.join("stdin.in")).map_or(Stdio::null(), Into::into))
        .stdout(fo)
        .stderr(fe)
        .spawn()
        .expect("the client does not start");
    let start = Instant::now();
    let mut strays = 0;
    let mut node = Node { c, w, net, out: RunOut::default(), counts: Default::default(), landed: vec![] };
    let code = loop {
        match l.accept() {
            Ok((s, _)) => {
                let _ = node.serve(s);
            }
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                if let Some(st) = ch.try_wait().unwrap() {
                    break st.code();
                }
                std::thread::sleep(Duration::from_micros(400));
            }
            Err(e) => panic!("accept: {e}"),
        }
        if let Ok((s, _)) = stray.accept() {
            strays += 1;
            drop(s);
        }
        if start.elapsed() > Duration::from_secs(120) {
            let _ = ch.kill();
            let _ = ch.wait();
            panic!("client did not finish: {args:?}");
        }
    };
    let mut out = node.out;
    if stray.accept().is_ok() {
        strays += 1;
    }
    out.code = code;
    out.strays = strays;
    let has = listing(dir);
    out.files = had.iter().filter(|x| !has.contains(x)).chain(has.iter().filter(|x| !had.contains(x))).map(|x| x.0.clone()).collect();
    out.stdout = String::from_utf8_lossy(&std::fs::read(dir.join("stdout")).unwrap_or_default()).into();
    out.stderr = String::from_utf8_lossy(&std::fs::read(dir.join("stderr")).unwrap_or_default()).into();
    c.cov.inc("client_runs");
    for r in &out.reqs {
        c.cov.inc(&format!("rpc {r}"));
    }
    c.notes.push(format!("  {}", out.brief()));
    out
}
