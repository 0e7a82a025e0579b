//! Generated scenes: mint pairs, holders, authorities, and the reference model of
//! wrap and unwrap (the same token movements executed directly on the real token
//! programs).
use crate::case::*;
use crate::ids::*;
use crate::ix::{self, WrapArgs};
use crate::rt::*;
use crate::tok::*;
use rand::Rng;
use solana_account::Account;
use solana_instruction::AccountMeta;
use spl_tlv_account_resolution::{account::ExtraAccountMeta, seeds::Seed, state::ExtraAccountMetaList};
use spl_token_2022_interface::extension::ExtensionType;

#[derive(Clone, Debug)]
pub struct Pair {
    pub u: Pubkey,
    pub up: Pubkey,
    pub wp: Pubkey,
    pub wm: Pubkey,
    pub auth: Pubkey,
    pub bp: Pubkey,
    pub escrow: Pubkey,
    pub exts: Vec<Ext>,
    pub mint_auth: Option<Pubkey>,
    pub freeze: Option<Pubkey>,
    pub nested: bool,
}
impl Pair {
    pub fn hook(&self) -> Option<Pubkey> {
        self.exts.iter().find_map(|e| if let Ext::Hook(p) = e { Some(*p) } else { None })
    }
    pub fn of(u: Pubkey, up: Pubkey, wp: Pubkey) -> Pair {
        Pair::of_in(WRAP, u, up, wp)
    }
    pub fn of_in(prog: Pubkey, u: Pubkey, up: Pubkey, wp: Pubkey) -> Pair {
        let wm = wrapped_mint_in(&prog, &u, &wp);
        let auth = authority_in(&prog, &wm);
        Pair { u, up, wp, wm, auth, bp: backpointer_in(&prog, &wm), escrow: ata(&auth, &u, &up), exts: vec![], mint_auth: None, freeze: None, nested: false }
    }
}
pub fn tp(b: bool) -> Pubkey {
    if b {
        T22
    } else {
        SPL
    }
}
pub fn tpn(p: &Pubkey) -> &'static str {
    if *p == T22 {
        "t22"
    } else if *p == SPL {
        "spl"
    } else {
        "other"
    }
}
/// Random extension set for an unwrapped Token-2022 mint.
pub fn rand_exts(c: &mut Case, u: Pubkey, allow_perm: bool) -> Vec<Ext> {
    let mut v = vec![];
    let a = c.key();
    if c.chance(0.45) {
        let bps = c.pick(&[0u16, 1, 25, 100, 999, 5000, 9999, 10000]);
        let max = c.pick(&[0u64, 1, 7, 1000, 1_000_000, u64::MAX]);
        let newer = if c.chance(0.5) { Some((c.pick(&[0u16, 3, 250, 10000]), c.pick(&[0u64, 5, 12345, u64::MAX]))) } else { None };
        v.push(Ext::Fee(bps, max, newer));
    }
    if c.chance(0.35) {
        v.push(Ext::Hook(HOOK));
    }
    if c.chance(0.2) {
        v.push(Ext::MetaPtr(Some(a), Some(u)));
    }
    if c.chance(0.3) {
        v.push(Ext::CloseAuth(a));
    }
    if c.chance(0.1) {
        v.push(Ext::DefaultInit);
    } else if c.chance(0.06) {
        v.push(Ext::DefaultFrozen);
    }
    if c.chance(0.15) {
        v.push(Ext::Interest(-7));
    } else if c.chance(0.15) {
        v.push(Ext::Scaled(1.5));
    }
    if allow_perm && c.chance(0.15) {
        v.push(Ext::PermDelegate(a));
    }
    if c.chance(0.15) {
        v.push(Ext::Pausable(a));
    }
    if c.chance(0.15) {
        v.push(Ext::Confidential);
        if v.iter().any(|e| matches!(e, Ext::Fee(..))) {
            v.push(Ext::ConfidentialFee);
        }
    }
    if c.chance(0.1) {
        v.push(Ext::GroupPtr);
    }
    if c.chance(0.1) {
        v.push(Ext::MemberPtr);
    }
    v
}
/// Validation account of the recording hook: one fixed account and four that depend
/// on source, destination, authority and amount.
pub fn hook_state_key(hook: &Pubkey, mint: &Pubkey) -> Pubkey {
    pda(hook, &[b"extra-account-metas", mint.as_ref()]).0
}
pub fn hook_fixed(mint: &Pubkey) -> Pubkey {
    pda(&SYS, &[b"fixed-extra", mint.as_ref()]).0
}
/// Some mints' hooks want many more fixed accounts, so that no limit on how many a
/// transfer may carry goes unnoticed. Ten more exhaust the 32 KB heap while the token
/// library resolves them, so there are at most five.
pub fn hook_surplus(mint: &Pubkey) -> Vec<Pubkey> {
    let b = mint.to_bytes();
    let n = if b[0] % 6 == 0 { 1 + b[1] % 5 } else { 0 };
    (0..n).map(|i| pda(&SYS, &[b"surplus", &[i], mint.as_ref()]).0).collect()
}
pub fn install_hook_state(vm: &mut Vm, w: &mut World, hook: &Pubkey, mint: &Pubkey) {
    let mut m = vec![
        ExtraAccountMeta::new_with_pubkey(&hook_fixed(mint), false, true).unwrap(),
        ExtraAccountMeta::new_with_seeds(&[Seed::Literal { bytes: b"s".to_vec() }, Seed::AccountKey { index: 0 }], false, false).unwrap(),
        ExtraAccountMeta::new_with_seeds(&[Seed::Literal { bytes: b"d".to_vec() }, Seed::AccountKey { index: 2 }], false, true).unwrap(),
        ExtraAccountMeta::new_with_seeds(&[Seed::Literal { bytes: b"a".to_vec() }, Seed::AccountKey { index: 3 }], false, false).unwrap(),
        ExtraAccountMeta::new_with_seeds(&[Seed::Literal { bytes: b"n".to_vec() }, Seed::InstructionData { index: 8, length: 8 }], false, false).unwrap(),
    ];
    m.extend(hook_surplus(mint).iter().map(|k| ExtraAccountMeta::new_with_pubkey(k, false, false).unwrap()));
    let len = ExtraAccountMetaList::size_of(m.len()).unwrap();
    let mut d = vec![0; len];
    ExtraAccountMetaList::init::<spl_transfer_hook_interface::instruction::ExecuteInstruction>(&mut d, &m).unwrap();
    let l = vm.rent(len);
    w.put(hook_state_key(hook, mint), Account { lamports: l, data: d, owner: *hook, executable: false, rent_epoch: u64::MAX });
}
/// The extra accounts a transfer with that hook needs, as (key, writable).
pub fn hook_expected(hook: &Pubkey, mint: &Pubkey, src: &Pubkey, dst: &Pubkey, auth: &Pubkey, amount: u64) -> Vec<(Pubkey, bool)> {
    let mut v = vec![
        (hook_fixed(mint), true),
        (pda(hook, &[b"s", src.as_ref()]).0, false),
        (pda(hook, &[b"d", dst.as_ref()]).0, true),
        (pda(hook, &[b"a", auth.as_ref()]).0, false),
        (pda(hook, &[b"n", &amount.to_le_bytes()]).0, false),
    ];
    v.extend(hook_surplus(mint).into_iter().map(|k| (k, false)));
    v
}
pub fn hook_metas(hook: &Pubkey, mint: &Pubkey, src: &Pubkey, dst: &Pubkey, auth: &Pubkey, amount: u64) -> Vec<AccountMeta> {
    let mut v: Vec<AccountMeta> = hook_expected(hook, mint, src, dst, auth, amount).into_iter().map(|(k, w)| meta(k, false, w)).collect();
    v.push(meta(*hook, false, false));
    v.push(meta(hook_state_key(hook, mint), false, false));
    v
}
/// Writes the wrapped mint, backpointer and escrow as documented, without relying on
/// CreateMint of the program under test.
pub fn synth_wrapped(vm: &mut Vm, w: &mut World, p: &Pair) {
    synth_wrapped_in(vm, w, p, WRAP)
}
pub fn synth_wrapped_in(vm: &mut Vm, w: &mut World, p: &Pair, prog: Pubkey) {
    let um = w.mint(&p.u).expect("unwrapped mint");
    if p.wp == SPL {
        make_mint(vm, w, p.wm, SPL, um.decimals, p.auth, um.freeze, &[]);
    } else {
        let space = ExtensionType::try_calculate_account_len::<spl_token_2022_interface::state::Mint>(&[ExtensionType::ConfidentialTransferMint, ExtensionType::MetadataPointer]).unwrap();
        w.put(p.wm, Account { lamports: vm.rent(space), data: vec![0; space], owner: T22, executable: false, rent_epoch: u64::MAX });
        use spl_token_2022_interface::extension as e;
        vm.must(w, &e::confidential_transfer::instruction::initialize_mint(&T22, &p.wm, None, true, None).unwrap(), "ct");
        vm.must(w, &e::metadata_pointer::instruction::initialize(&T22, &p.wm, Some(p.auth), Some(p.wm)).unwrap(), "mp");
        let mut d = vec![20u8, um.decimals];
        d.extend_from_slice(p.auth.as_ref());
        match um.freeze {
            Some(f) => {
                d.push(1);
                d.extend_from_slice(f.as_ref());
            }
            None => d.push(0),
        }
        vm.must(w, &solana_instruction::Instruction { program_id: T22, accounts: vec![meta(p.wm, false, true)], data: d }, "init mint");
    }
    w.put(p.bp, Account { lamports: vm.rent(32), data: p.u.to_bytes().to_vec(), owner: prog, executable: false, rent_epoch: u64::MAX });
}
#[derive(Clone, Debug, Default)]
pub struct PairOpts {
    pub up: Option<Pubkey>,
    pub wp: Option<Pubkey>,
    pub exts: Option<Vec<Ext>>,
    pub nested: Option<bool>,
    pub dec: Option<u8>,
    pub freeze: Option<bool>,
    pub no_perm: bool,
    pub real_create: bool,
    pub no_escrow: bool,
    /// how often the unwrapped mint is the one of wrapped SOL
    pub native: f64,
}
pub fn funded_create(vm: &mut Vm, w: &mut World, p: &Pair) -> Out {
    let space = if p.wp == SPL { 82 } else { 4096 };
    let l = vm.rent(space);
    w.fund(&p.wm, l);
    let l = vm.rent(32);
    w.fund(&p.bp, l);
    vm.run(w, &ix::create_mint(p.u, p.wp, false))
}
pub fn make_pair(c: &mut Case, w: &mut World, o: &PairOpts) -> Pair {
    let up = o.up.unwrap_or_else(|| tp(c.rng.gen()));
    let wp = o.wp.unwrap_or_else(|| tp(c.rng.gen()));
    let nested = o.nested.unwrap_or_else(|| c.rng.gen_bool(0.12));
    let mut pair;
    if nested {
        // the unwrapped mint is itself a wrapped mint
        let inner_up = tp(c.rng.gen());
        let inner = make_pair(c, w, &PairOpts { up: Some(inner_up), wp: Some(up), nested: Some(false), no_perm: true, ..o.clone() });
        pair = Pair::of(inner.wm, up, wp);
        pair.nested = true;
        pair.mint_auth = Some(inner.auth);
        pair.freeze = inner.freeze;
    } else if o.native > 0.0 && o.dec.is_none() && c.chance(o.native) && !w.a.contains_key(&NATIVE) && !w.a.contains_key(&NATIVE22) {
        pair = Pair::of(make_native_mint(c.vm, w, up), up, wp);
        c.cov.inc("native_pairs");
    } else {
        let u = c.key();
        let exts = match &o.exts {
            Some(e) => e.clone(),
            None if up == T22 => rand_exts(c, u, !o.no_perm),
            None => vec![],
        };
        let exts = if up == T22 { exts } else { vec![] };
        let dec = o.dec.unwrap_or_else(|| c.pick(&[0u8, 1, 2, 6, 9, 12, 18, 19, 37, 255]));
        let ma = c.key();
        let needs_freeze = exts.iter().any(|e| matches!(e, Ext::DefaultFrozen | Ext::DefaultInit));
        let fz = o.freeze.unwrap_or_else(|| c.rng.gen());
        let freeze = if fz || needs_freeze { Some(c.key()) } else { None };
        make_mint(c.vm, w, u, up, dec, ma, freeze, &exts);
        pair = Pair::of(u, up, wp);
        pair.exts = exts;
        pair.mint_auth = Some(ma);
        pair.freeze = freeze;
        if let Some(h) = pair.hook() {
            install_hook_state(c.vm, w, &h, &u);
        }
    }
    let mut done = false;
    if o.real_create {
        let save = w.clone();
        done = funded_create(c.vm, w, &pair).ok;
        if !done {
            *w = save;
        }
    }
    if !done {
        synth_wrapped(c.vm, w, &pair);
    }
    if !o.no_escrow {
        let payer = c.key();
        make_ata(c.vm, w, payer, pair.auth, pair.u, pair.up);
        if w.tok(&pair.escrow).map(|t| t.state) == Some(2) {
            if let Some(f) = pair.freeze {
                c.vm.must(w, &ix::freeze(pair.up, pair.escrow, pair.u, f, true), "thaw escrow");
            }
        }
    }
    pair
}
#[derive(Clone, Debug)]
pub enum AuthKind {
    Owner,
    Delegate(u64),
    /// m of n, which members sign
    Multisig(u8, Vec<Pubkey>, Vec<usize>),
    DelegateMultisig(u8, Vec<Pubkey>, Vec<usize>, u64),
}
#[derive(Clone, Debug)]
pub struct Holder {
    pub acct: Pubkey,
    pub owner: Pubkey,
    pub ta: Pubkey,
    pub ta_signer: bool,
    pub signers: Vec<AccountMeta>,
    pub label: String,
    pub guard: bool,
    /// CPI guard is on and the transfer authority is the account's owner
    pub guard_blocks: bool,
    pub delegated: Option<u64>,
}
/// A token account of `mint` whose authority is drawn from the documented kinds and
/// which properly authorises.
pub fn make_holder(c: &mut Case, w: &mut World, prog: Pubkey, mint: Pubkey, amount: u64, freeze: Option<Pubkey>, thaw: bool) -> Holder {
    let kind = c.below(10);
    let ms = |c: &mut Case| {
        let n = c.rng.gen_range(1..=11usize);
        let m = c.rng.gen_range(1..=n);
        let members: Vec<Pubkey> = (0..n).map(|_| c.key()).collect();
        let extra = c.rng.gen_range(0..=(n - m));
        let mut idx: Vec<usize> = (0..n).collect();
        for i in 0..n {
            let j = c.rng.gen_range(0..n);
            idx.swap(i, j);
        }
        (m as u8, members, idx[..m + extra].to_vec())
    };
    let mut owner = c.key();
    let mut label;
    let mut signers = vec![];
    let mut ta_signer = true;
    let mut msinfo = None;
    match kind {
        0..=3 => label = "owner".to_string(),
        4..=5 => label = "delegate".into(),
        6..=7 => {
            let (m, mem, sg) = ms(c);
            label = format!("multisig{}of{}", m, mem.len());
            make_multisig(c.vm, w, owner, prog, m, &mem);
            signers = sg.iter().map(|i| meta(mem[*i], true, false)).collect();
            ta_signer = false;
            msinfo = Some(());
        }
        _ => label = "delegate-multisig".into(),
    }
    let _ = msinfo;
    let aux = c.chance(0.4);
    let mut exts = vec![];
    if prog == T22 && aux {
        if c.chance(0.15) {
            exts.push(AExt::CpiGuard);
        }
        if c.chance(0.1) {
            exts.push(AExt::Memo);
        }
        if c.chance(0.3) {
            exts.push(AExt::Immutable);
        }
    }
    // extension toggles need the owner's signature, so not for multisig owners
    if !ta_signer {
        exts.retain(|e| *e == AExt::Immutable);
    }
    let guard = exts.contains(&AExt::CpiGuard);
    let acct = if aux {
        let k = c.key();
        make_tok(c.vm, w, k, prog, mint, owner, &exts);
        k
    } else {
        let payer = c.key();
        make_ata(c.vm, w, payer, owner, mint, prog)
    };
    label += if aux { "/aux" } else { "/ata" };
    for e in &exts {
        label += &format!("+{e:?}");
    }
    if thaw && w.tok(&acct).map(|t| t.state) == Some(2) {
        if let Some(f) = freeze {
            c.vm.must(w, &ix::freeze(prog, acct, mint, f, true), "thaw");
        }
    }
    mint_tokens(c.vm, w, prog, mint, acct, amount);
    let mut ta = owner;
    let mut delegated = None;
    if (4..=5).contains(&kind) || kind >= 8 {
        let allow = c.pick(&[u64::MAX, amount, amount / 2, 1, amount.saturating_sub(1)]);
        let d = c.key();
        if kind >= 8 {
            let (m, mem, sg) = ms(c);
            label += &format!(":{}of{}", m, mem.len());
            make_multisig(c.vm, w, d, prog, m, &mem);
            signers = sg.iter().map(|i| meta(mem[*i], true, false)).collect();
            ta_signer = false;
        }
        let o = c.vm.run(w, &ix::approve(prog, acct, d, owner, allow));
        if o.ok {
            ta = d;
            delegated = Some(allow);
        } else {
            label += "(approve refused)";
            ta_signer = true;
            signers.clear();
        }
    }
    let _ = &mut owner;
    Holder { acct, owner, ta, ta_signer, signers, label, guard, guard_blocks: guard && ta == owner, delegated }
}
pub fn rand_balance(c: &mut Case) -> u64 {
    match c.below(9) {
        0 => 1,
        1 => c.rng.gen_range(1..100),
        2..=4 => c.rng.gen_range(1..10_000_000),
        5 => c.rng.gen::<u64>() >> c.rng.gen_range(1..40),
        6 => u64::MAX / 2,
        7 => {
            let top = 1u64 << c.rng.gen_range(22..63);
            u64::MAX - c.rng.gen_range(2_000_000..top)
        }
        _ => 1 << c.rng.gen_range(0..62),
    }
}
pub fn rand_amount(c: &mut Case, bal: u64) -> u64 {
    match c.below(12) {
        0 => 1,
        1 => bal,
        2 => bal.saturating_sub(1).max(1),
        3 => bal.saturating_add(1),
        4 => u64::MAX,
        5 => c.rng.gen(),
        6 => (bal / 2).max(1),
        _ => c.rng.gen_range(1..=bal.max(1)),
    }
}
/// What the same movement does when made directly on the real token programs.
pub fn model_wrap(vm: &mut Vm, w: &World, a: &WrapArgs) -> Result<World, String> {
    let mut s = w.clone();
    let dec = s.mint(&a.unwrapped_mint).ok_or("no unwrapped mint")?.decimals;
    let before = s.bal(&a.escrow);
    let o = vm.run(&mut s, &ix::transfer_checked(a.up, a.source, a.unwrapped_mint, a.escrow, a.ta, a.ta_signer, &a.extras, a.amount, dec));
    if !o.ok {
        return Err(format!("transfer: {}", o.err_str()));
    }
    let got = s.bal(&a.escrow) - before;
    let o = vm.run(&mut s, &ix::mint_to(a.wp, a.wrapped_mint, a.recipient, a.authority, got));
    if !o.ok {
        return Err(format!("mint: {}", o.err_str()));
    }
    Ok(s)
}
pub fn model_unwrap(vm: &mut Vm, w: &World, a: &WrapArgs) -> Result<World, String> {
    let mut s = w.clone();
    let dec = s.mint(&a.unwrapped_mint).ok_or("no unwrapped mint")?.decimals;
    let o = vm.run(&mut s, &ix::burn(a.wp, a.source, a.wrapped_mint, a.ta, a.ta_signer, &a.extras, a.amount));
    if !o.ok {
        return Err(format!("burn: {}", o.err_str()));
    }
    let o = vm.run(&mut s, &ix::transfer_checked(a.up, a.escrow, a.unwrapped_mint, a.recipient, a.authority, true, &a.extras, a.amount, dec));
    if !o.ok {
        return Err(format!("transfer: {}", o.err_str()));
    }
    Ok(s)
}
