//! Native programs that stand in for third parties: a recording transfer hook,
//! metadata programs (honest, silent, lying, hostile) and a fake token program.
use crate::ids::*;
use mollusk_svm::program::Builtin;
use solana_instruction::{AccountMeta, Instruction};
use solana_instruction_error::InstructionError;
use solana_program_runtime::declare_process_instruction;
use solana_program_runtime::invoke_context::InvokeContext;
use std::cell::RefCell;

#[derive(Clone, Debug, Default)]
pub struct AdvCfg {
    pub hook_refuses: bool,
    /// bytes METAP returns on emit; None = return nothing
    pub emit: Option<Vec<u8>>,
    /// METAP asks METAP2 by CPI, so that the return data comes from METAP2
    pub emit_via_other: bool,
    pub emit_fails: bool,
    /// CPIs the hostile program tries with whatever privileges it was given
    pub attack: Vec<Instruction>,
}
#[derive(Clone, Debug)]
pub struct AdvCall {
    pub program: Pubkey,
    pub accounts: Vec<(Pubkey, bool, bool)>,
    pub data: Vec<u8>,
    /// results of attack CPIs
    pub attacks_ok: usize,
}
thread_local! {
    pub static CFG: RefCell<AdvCfg> = RefCell::new(AdvCfg::default());
    pub static CALLS: RefCell<Vec<AdvCall>> = const { RefCell::new(vec![]) };
    /// what the forwarding program invokes, and the addresses it signs for
    pub static FORWARD: RefCell<(Vec<Instruction>, Vec<Pubkey>)> = const { RefCell::new((vec![], vec![])) };
}
pub fn reset(c: AdvCfg) {
    CFG.with(|x| *x.borrow_mut() = c);
    CALLS.with(|x| x.borrow_mut().clear());
}
pub fn calls() -> Vec<AdvCall> {
    CALLS.with(|x| x.borrow().clone())
}
fn record(ic: &InvokeContext) -> Result<AdvCall, InstructionError> {
    let c = ic.transaction_context.get_current_instruction_context()?;
    let mut accounts = vec![];
    for j in 0..c.get_number_of_instruction_accounts() {
        accounts.push((*c.get_key_of_instruction_account(j)?, c.is_instruction_account_signer(j)?, c.is_instruction_account_writable(j)?));
    }
    Ok(AdvCall { program: *c.get_program_key()?, accounts, data: c.get_instruction_data().to_vec(), attacks_ok: 0 })
}
fn push(c: AdvCall) {
    CALLS.with(|x| x.borrow_mut().push(c));
}
declare_process_instruction!(HookEp, 100, |ic| {
    let c = record(ic)?;
    push(c);
    if CFG.with(|x| x.borrow().hook_refuses) {
        return Err(InstructionError::Custom(7777));
    }
    Ok(())
});
fn attack(ic: &mut InvokeContext, call: &mut AdvCall) -> Result<(), InstructionError> {
    let list = CFG.with(|x| x.borrow().attack.clone());
    for i in list {
        // only attempts whose privileges exist are made: any other CPI ends the
        // transaction, which helps no attacker
        let have = |k: &Pubkey, s: bool, w: bool| call.accounts.iter().any(|a| a.0 == *k && (!s || a.1) && (!w || a.2));
        if !i.accounts.iter().all(|m| have(&m.pubkey, m.is_signer, m.is_writable)) {
            continue;
        }
        ic.native_invoke(i.into(), &[])?;
        call.attacks_ok += 1;
    }
    Ok(())
}
declare_process_instruction!(EvilHookEp, 100, |ic| {
    let mut c = record(ic)?;
    attack(ic, &mut c)?;
    push(c);
    if CFG.with(|x| x.borrow().hook_refuses) {
        return Err(InstructionError::Custom(7777));
    }
    Ok(())
});
declare_process_instruction!(MetaEp, 100, |ic| {
    let mut c = record(ic)?;
    attack(ic, &mut c)?;
    push(c);
    let cfg = CFG.with(|x| x.borrow().clone());
    if cfg.emit_fails {
        return Err(InstructionError::Custom(8888));
    }
    if cfg.emit_via_other {
        let i = Instruction { program_id: METAP2, accounts: vec![], data: vec![] };
        ic.native_invoke(i.into(), &[])?;
        return Ok(());
    }
    if let Some(b) = cfg.emit {
        ic.transaction_context.set_return_data(METAP, b)?;
    }
    Ok(())
});
declare_process_instruction!(Meta2Ep, 100, |ic| {
    let c = record(ic)?;
    push(c);
    if let Some(b) = CFG.with(|x| x.borrow().emit.clone()) {
        ic.transaction_context.set_return_data(METAP2, b)?;
    }
    Ok(())
});
// accepts everything, does nothing
declare_process_instruction!(FakeTokEp, 100, |ic| {
    let mut c = record(ic)?;
    attack(ic, &mut c)?;
    push(c);
    Ok(())
});
// a caller: a wallet program, a vault or an aggregator
declare_process_instruction!(Fwd2Ep, 100, |ic| {
    // passes everything on to the other one, signing for the addresses that are its own
    let c = record(ic)?;
    let signers = FORWARD.with(|x| x.borrow().1.clone());
    let accounts = c.accounts.iter().map(|(k, s, w)| AccountMeta { pubkey: *k, is_signer: *s || signers.contains(k), is_writable: *w }).collect();
    ic.native_invoke(Instruction { program_id: FWD, accounts, data: vec![] }, &signers)
});
declare_process_instruction!(FwdEp, 100, |ic| {
    let (list, signers) = FORWARD.with(|x| x.borrow().clone());
    for i in list {
        ic.native_invoke(i, &signers)?;
    }
    Ok(())
});
pub fn builtins() -> Vec<Builtin> {
    vec![
        Builtin { program_id: HOOK, name: "hook", entrypoint: HookEp::vm },
        Builtin { program_id: EVILHOOK, name: "evil_hook", entrypoint: EvilHookEp::vm },
        Builtin { program_id: METAP, name: "metadata_program", entrypoint: MetaEp::vm },
        Builtin { program_id: METAP2, name: "metadata_program2", entrypoint: Meta2Ep::vm },
        Builtin { program_id: FWD2, name: "outer_forwarder", entrypoint: Fwd2Ep::vm },
        Builtin { program_id: FWD, name: "forwarder", entrypoint: FwdEp::vm },
        Builtin { program_id: FAKETOK, name: "fake_token", entrypoint: FakeTokEp::vm },
    ]
}
