//! The observed machine: the real program .so under Mollusk, with a recorder on
//! every instruction (accounts before and after, CPI trace, logs).
use crate::ids::*;
use mollusk_svm::{InvocationInspectCallback, Mollusk};
use solana_account::Account;
use solana_instruction::{AccountMeta, Instruction};
use solana_instruction_error::InstructionError;
use solana_program_runtime::invoke_context::InvokeContext;
use solana_svm_log_collector::LogCollector;
use solana_transaction_context::InstructionAccount;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct TraceEntry {
    pub program: Pubkey,
    pub depth: usize,
    /// (key, is_signer, is_writable)
    pub accounts: Vec<(Pubkey, bool, bool)>,
    pub data: Vec<u8>,
    /// program of the calling instruction, if any
    pub parent: Option<usize>,
}

struct Tracer(Rc<RefCell<Vec<TraceEntry>>>);
impl InvocationInspectCallback for Tracer {
    fn before_invocation(&self, _: &Mollusk, _: &Pubkey, _: &[u8], _: &[InstructionAccount], _: &InvokeContext) {}
    fn after_invocation(&self, _: &Mollusk, ic: &InvokeContext, _: bool) {
        let tc = &ic.transaction_context;
        let n = tc.get_instruction_trace_length();
        let mut v: Vec<TraceEntry> = Vec::with_capacity(n);
        for i in 0..n {
            let Ok(c) = tc.get_instruction_context_at_index_in_trace(i) else { continue };
            let Ok(pk) = c.get_program_key() else { continue };
            let mut accounts = vec![];
            for j in 0..c.get_number_of_instruction_accounts() {
                let Ok(k) = c.get_key_of_instruction_account(j) else { continue };
                accounts.push((
                    *k,
                    c.is_instruction_account_signer(j).unwrap_or(false),
                    c.is_instruction_account_writable(j).unwrap_or(false),
                ));
            }
            let depth = c.get_stack_height();
            let parent = v.iter().rposition(|e| e.depth + 1 == depth);
            v.push(TraceEntry { program: *pk, depth, accounts, data: c.get_instruction_data().to_vec(), parent });
        }
        *self.0.borrow_mut() = v;
    }
}

#[derive(Clone, Default)]
pub struct World {
    pub a: BTreeMap<Pubkey, Account>,
    pub epoch: u64,
}
impl World {
    pub fn get(&self, k: &Pubkey) -> Account {
        self.a.get(k).cloned().unwrap_or_default()
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.a.get(k).map(|a| a.lamports).unwrap_or(0)
    }
    pub fn put(&mut self, k: Pubkey, a: Account) {
        self.a.insert(k, a);
    }
    pub fn fund(&mut self, k: &Pubkey, lamports: u64) {
        self.a.entry(*k).or_default().lamports += lamports;
    }
    pub fn data(&self, k: &Pubkey) -> &[u8] {
        self.a.get(k).map(|a| &a.data[..]).unwrap_or(&[])
    }
}

#[derive(Clone, Debug)]
pub struct Out {
    pub ok: bool,
    pub err: Option<InstructionError>,
    pub trace: Vec<TraceEntry>,
    pub logs: Vec<String>,
    pub pre: BTreeMap<Pubkey, Account>,
    pub post: BTreeMap<Pubkey, Account>,
    pub cu: u64,
}
impl Out {
    pub fn custom(&self) -> Option<u32> {
        match &self.err {
            Some(InstructionError::Custom(c)) => Some(*c),
            _ => None,
        }
    }
    pub fn err_str(&self) -> String {
        match &self.err {
            None => "ok".into(),
            Some(e) => format!("{e:?}"),
        }
    }
    pub fn crashed(&self) -> Option<String> {
        if let Some(e) = &self.err {
            use InstructionError::*;
            if matches!(
                e,
                ProgramFailedToComplete
                    | ExecutableModified
                    | ReadonlyLamportChange
                    | ReadonlyDataModified
                    | ExternalAccountLamportSpend
                    | ExternalAccountDataModified
                    | ModifiedProgramId
                    | UnbalancedInstruction
                    | AccountBorrowOutstanding
                    | PrivilegeEscalation
            ) {
                return Some(format!("{e:?}"));
            }
        }
        self.logs.iter().find(|l| l.contains("panicked at") || l.contains("memory allocation failed")).cloned()
    }
}

pub struct Vm {
    pub m: Mollusk,
    trace: Rc<RefCell<Vec<TraceEntry>>>,
    progs: BTreeMap<Pubkey, Account>,
    pub execs: u64,
    pub target_execs: u64,
    pub alt: Vec<(&'static str, Vm)>,
}

pub struct Elfs {
    pub wrap: Vec<u8>,
    pub mpl: Vec<u8>,
    pub t22: Vec<u8>,
    /// alternative builds of the program (customizers): (name, elf)
    pub extra: Vec<(&'static str, Vec<u8>)>,
}

const LOADER3: Pubkey = solana_pubkey::pubkey!("BPFLoaderUpgradeab1e11111111111111111111111");

impl Vm {
    /// The alternative builds are programs at the same address in machines of their own.
    pub fn new(e: &Elfs) -> Vm {
        let mut v = Vm::one(e, &e.wrap);
        v.alt = e.extra.iter().map(|(n, elf)| (*n, Vm::one(e, elf))).collect();
        v
    }
    fn one(e: &Elfs, wrap: &[u8]) -> Vm {
        std::env::set_var("RUST_LOG", "off");
        let mut m = Mollusk::default();
        m.program_cache.add_program(&WRAP, &LOADER3, wrap);
        mollusk_svm_programs_token::token::add_program(&mut m);
        mollusk_svm_programs_token::associated_token::add_program(&mut m);
        m.program_cache.add_program(&T22, &LOADER3, &e.t22);
        m.program_cache.add_program(&MPL, &LOADER3, &e.mpl);
        let l3 = |k: &Pubkey| (*k, mollusk_svm::program::create_program_account_loader_v3(k));
        let mut progs: BTreeMap<Pubkey, Account> = [l3(&WRAP), l3(&SPL), l3(&ATA), l3(&T22), l3(&MPL)].into();
        progs.insert(SYS, mollusk_svm::program::keyed_account_for_system_program().1);
        for b in crate::adv::builtins() {
            progs.insert(b.program_id, mollusk_svm::program::create_keyed_account_for_builtin_program(&b.program_id, b.name).1);
            m.program_cache.add_builtin(b);
        }
        // what one transaction can buy
        m.compute_budget.compute_unit_limit = 1_400_000;
        let trace = Rc::new(RefCell::new(vec![]));
        m.invocation_inspect_callback = Box::new(Tracer(trace.clone()));
        Vm { m, trace, progs, execs: 0, target_execs: 0, alt: vec![] }
    }
    pub fn rent(&self, len: usize) -> u64 {
        self.m.sysvars.rent.minimum_balance(len)
    }
    pub fn is_prog(&self, k: &Pubkey) -> bool {
        self.progs.contains_key(k)
    }
    /// The account as a client would see it (program stubs included).
    pub fn account(&self, w: &World, k: &Pubkey) -> Option<Account> {
        if let Some(a) = w.a.get(k) {
            return Some(a.clone());
        }
        if *k == RENT {
            return Some(self.m.sysvars.keyed_account_for_rent_sysvar().1);
        }
        self.progs.get(k).cloned()
    }
    /// Runs one instruction and commits it to the world when it succeeds.
    pub fn run(&mut self, w: &mut World, ix: &Instruction) -> Out {
        let out = self.dry(w, ix);
        if out.ok {
            commit(w, &out.post);
        }
        out
    }
    /// Runs one instruction without committing.
    pub fn dry(&mut self, w: &World, ix: &Instruction) -> Out {
        self.m.sysvars.clock.epoch = w.epoch;
        let mut keys = BTreeSet::new();
        let mut accts: Vec<(Pubkey, Account)> = vec![];
        for m in &ix.accounts {
            if keys.insert(m.pubkey) {
                accts.push((m.pubkey, self.account(w, &m.pubkey).unwrap_or_default()));
            }
        }
        let lc = LogCollector::new_ref_with_limit(None);
        self.m.logger = Some(lc.clone());
        self.trace.borrow_mut().clear();
        let r = self.m.process_instruction(ix, &accts);
        self.m.logger = None;
        self.execs += 1;
        if ix.program_id == WRAP {
            self.target_execs += 1;
        }
        let logs = lc.borrow().get_recorded_content().to_vec();
        let pre: BTreeMap<_, _> = accts.into_iter().collect();
        let stub = |k: &Pubkey| !w.a.contains_key(k) && (self.progs.contains_key(k) || *k == RENT);
        let pre: BTreeMap<_, _> = pre.into_iter().filter(|x: &(Pubkey, Account)| !stub(&x.0)).collect();
        let post: BTreeMap<_, _> = r.resulting_accounts.into_iter().filter(|x| !stub(&x.0)).collect();
        Out {
            ok: r.raw_result.is_ok(),
            err: r.raw_result.err(),
            trace: self.trace.borrow().clone(),
            logs,
            pre,
            post,
            cu: r.compute_units_consumed,
        }
    }
    /// Runs instructions that set a scene; panics when they fail, because the
    /// scene is the harness's own and uses only the token programs.
    pub fn must(&mut self, w: &mut World, ix: &Instruction, what: &str) -> Out {
        let o = self.run(w, ix);
        if !o.ok {
            panic!("harness scene step '{what}' failed: {} logs {:?}", o.err_str(), o.logs);
        }
        o
    }
    /// Atomic transaction of several instructions.
    pub fn tx(&mut self, w: &mut World, ixs: &[Instruction]) -> (Vec<Out>, bool) {
        let mut s = w.clone();
        let mut outs = vec![];
        for ix in ixs {
            let o = self.run(&mut s, ix);
            let ok = o.ok;
            outs.push(o);
            if !ok {
                return (outs, false);
            }
        }
        *w = s;
        (outs, true)
    }
}

pub fn commit(w: &mut World, post: &BTreeMap<Pubkey, Account>) {
    for (k, a) in post {
        if a.lamports == 0 {
            w.a.remove(k);
        } else {
            w.a.insert(*k, a.clone());
        }
    }
}

pub fn meta(k: Pubkey, s: bool, w: bool) -> AccountMeta {
    AccountMeta { pubkey: k, is_signer: s, is_writable: w }
}

/// Accounts equal for the purposes of a user: everything but rent_epoch.
pub fn same(a: &Account, b: &Account) -> bool {
    (a.lamports == 0 && b.lamports == 0 && a.data.is_empty() && b.data.is_empty())
        || (a.lamports == b.lamports && a.data == b.data && a.owner == b.owner)
}

pub fn world_diff(a: &World, b: &World) -> Vec<Pubkey> {
    let mut ks: BTreeSet<Pubkey> = a.a.keys().cloned().collect();
    ks.extend(b.a.keys().cloned());
    ks.into_iter().filter(|k| !same(&a.get(k), &b.get(k))).collect()
}
