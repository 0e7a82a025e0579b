//! One generated case: its random stream, what it observed, what it refutes.
use crate::ids::Pubkey;
use crate::rt::*;
use rand::{Rng, RngCore, SeedableRng};
use rand_chacha::ChaCha8Rng;
use sha2::{Digest, Sha256};
use solana_instruction::Instruction;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Finding {
    pub props: Vec<&'static str>,
    /// stable signature used for known findings
    pub sig: String,
    pub msg: String,
}
#[derive(Default)]
pub struct Cov {
    pub evaluations: u64,
    pub distinct: BTreeSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
}
impl Cov {
    pub fn merge(&mut self, o: Cov) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s)
            }
        }
    }
    pub fn inc(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_default() += 1;
    }
}
pub struct Case<'a> {
    pub vm: &'a mut Vm,
    pub rng: ChaCha8Rng,
    pub cov: Cov,
    pub finds: Vec<Finding>,
    pub notes: Vec<String>,
    pub idx: u64,
    /// metadata bytes in this case may be malformed: their lengths can exceed the decoder's heap
    pub malformed: bool,
    /// sources with many additional fields may be generated
    pub many: bool,
    /// the client's settings come from every place they can come from
    pub settings: bool,
    /// every observed instruction is repeated through a calling program
    pub fwd: bool,
    /// the last forwarded instruction, the worlds around it and the third parties' conduct
    pub last: Option<(World, Instruction, World, String)>,
}
pub fn seed_of(parts: &[&str]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p.as_bytes());
        h.update([0]);
    }
    h.finalize().into()
}
pub fn h64(s: &str) -> u64 {
    u64::from_le_bytes(Sha256::digest(s.as_bytes())[..8].try_into().unwrap())
}
impl<'a> Case<'a> {
    pub fn new(vm: &'a mut Vm, seed: u64, camp: &str, idx: u64) -> Case<'a> {
        let rng = ChaCha8Rng::from_seed(seed_of(&[&seed.to_string(), camp, &idx.to_string()]));
        Case { vm, rng, cov: Cov::default(), finds: vec![], notes: vec![], idx, malformed: false, many: false, settings: false, fwd: false, last: None }
    }
    pub fn key(&mut self) -> Pubkey {
        let mut b = [0u8; 32];
        self.rng.fill_bytes(&mut b);
        Pubkey::new_from_array(b)
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.rng.gen_bool(p)
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.rng.gen_range(0..n)
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.rng.gen_range(0..v.len())].clone()
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.notes.push(s.into());
    }
    pub fn fail(&mut self, props: &[&'static str], sig: &str, msg: impl Into<String>) {
        self.finds.push(Finding { props: props.to_vec(), sig: sig.into(), msg: msg.into() });
    }
    /// One evaluated execution with its feature signature.
    pub fn eval(&mut self, sig: &str) {
        self.cov.evaluations += 1;
        self.cov.distinct.insert(h64(sig));
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.cov.samples.len() < 2 {
            let mut s: String = s.into();
            s = s.chars().take(1500).collect();
            self.cov.samples.push(s);
        }
    }
}
