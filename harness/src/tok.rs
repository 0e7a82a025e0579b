//! Own parsers of mint and token-account state, and scene builders that go
//! through the real token programs.
use crate::ids::*;
use crate::ix;
use crate::rt::*;
use solana_account::Account;
use spl_token_2022_interface::extension::ExtensionType;
use spl_token_2022_interface::state::{Account as TAccount, AccountState, Mint as TMint};
use spl_token_2022_interface::{extension as ext, instruction as ti};

pub type Tlv = Vec<(u16, Vec<u8>)>;
#[derive(Clone, Debug, PartialEq)]
pub struct MintSt {
    pub auth: Option<Pubkey>,
    pub supply: u64,
    pub decimals: u8,
    pub init: bool,
    pub freeze: Option<Pubkey>,
    pub ext: Tlv,
    /// bytes after the last TLV entry (or non-T22 trailing bytes)
    pub slack: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub struct TokSt {
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: u64,
    pub delegate: Option<Pubkey>,
    pub state: u8,
    pub native: Option<u64>,
    pub delegated: u64,
    pub close: Option<Pubkey>,
    pub ext: Tlv,
}
fn key(d: &[u8], o: usize) -> Pubkey {
    Pubkey::new_from_array(d[o..o + 32].try_into().unwrap())
}
fn u64a(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
fn copt(d: &[u8], o: usize) -> Option<Pubkey> {
    (d[o] == 1).then(|| key(d, o + 4))
}
fn tlv(d: &[u8], kind: u8) -> Option<(Tlv, usize)> {
    if d.len() < 166 || d[165] != kind {
        return None;
    }
    let mut v = vec![];
    let mut o = 166;
    while o + 4 <= d.len() {
        let t = u16::from_le_bytes([d[o], d[o + 1]]);
        if t == 0 {
            break;
        }
        let l = u16::from_le_bytes([d[o + 2], d[o + 3]]) as usize;
        if o + 4 + l > d.len() {
            return None;
        }
        v.push((t, d[o + 4..o + 4 + l].to_vec()));
        o += 4 + l;
    }
    Some((v, d.len() - o))
}
pub fn parse_mint(a: &Account) -> Option<MintSt> {
    let d = &a.data;
    let (e, slack) = if a.owner == SPL && d.len() == 82 {
        (vec![], 0)
    } else if a.owner == T22 && d.len() == 82 {
        (vec![], 0)
    } else if a.owner == T22 && d.len() > 165 && d.len() != 355 {
        tlv(d, 1)?
    } else {
        return None;
    };
    if d[45] != 1 {
        return None;
    }
    Some(MintSt { auth: copt(d, 0), supply: u64a(d, 36), decimals: d[44], init: true, freeze: copt(d, 46), ext: e, slack })
}
pub fn parse_tok(a: &Account) -> Option<TokSt> {
    let d = &a.data;
    let e = if (a.owner == SPL || a.owner == T22) && d.len() == 165 {
        vec![]
    } else if a.owner == T22 && d.len() > 165 && d.len() != 355 {
        tlv(d, 2)?.0
    } else {
        return None;
    };
    if d[108] == 0 {
        return None;
    }
    Some(TokSt {
        mint: key(d, 0),
        owner: key(d, 32),
        amount: u64a(d, 64),
        delegate: copt(d, 72),
        state: d[108],
        native: (d[109] == 1).then(|| u64a(d, 113)),
        delegated: u64a(d, 121),
        close: copt(d, 129),
        ext: e,
    })
}
pub fn find(e: &Tlv, t: ExtensionType) -> Option<&[u8]> {
    e.iter().find(|x| x.0 == t as u16).map(|x| &x.1[..])
}
pub fn has(e: &Tlv, t: ExtensionType) -> bool {
    find(e, t).is_some()
}
impl World {
    pub fn mint(&self, k: &Pubkey) -> Option<MintSt> {
        self.a.get(k).and_then(parse_mint)
    }
    pub fn tok(&self, k: &Pubkey) -> Option<TokSt> {
        self.a.get(k).and_then(parse_tok)
    }
    pub fn bal(&self, k: &Pubkey) -> u64 {
        self.tok(k).map(|t| t.amount).unwrap_or(0)
    }
    pub fn supply(&self, k: &Pubkey) -> u64 {
        self.mint(k).map(|t| t.supply).unwrap_or(0)
    }
}
/// Own transfer-fee formula (ceiling of amount * bps / 10000, capped).
pub fn fee_of(m: &MintSt, epoch: u64, amount: u64) -> u64 {
    let Some(d) = find(&m.ext, ExtensionType::TransferFeeConfig) else { return 0 };
    // config auth 32, withdraw auth 32, withheld 8, older {epoch,max,bps}, newer {..}
    let f = |o: usize| (u64a(d, o), u64a(d, o + 8), u16::from_le_bytes([d[o + 16], d[o + 17]]));
    let (older, newer) = (f(72), f(90));
    let (_, max, bps) = if epoch >= newer.0 { newer } else { older };
    if bps == 0 || amount == 0 {
        return 0;
    }
    let raw = (amount as u128 * bps as u128 + 9999) / 10000;
    (raw.min(max as u128)) as u64
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ext {
    /// (old bps, old max, optional newer bps/max that starts two epochs later)
    Fee(u16, u64, Option<(u16, u64)>),
    Hook(Pubkey),
    MetaPtr(Option<Pubkey>, Option<Pubkey>),
    CloseAuth(Pubkey),
    DefaultFrozen,
    DefaultInit,
    Interest(i16),
    PermDelegate(Pubkey),
    NonTransferable,
    Pausable(Pubkey),
    Scaled(f64),
    Confidential,
    ConfidentialFee,
    GroupPtr,
    MemberPtr,
}
impl Ext {
    pub fn ty(&self) -> ExtensionType {
        use ExtensionType as E;
        match self {
            Ext::Fee(..) => E::TransferFeeConfig,
            Ext::Hook(..) => E::TransferHook,
            Ext::MetaPtr(..) => E::MetadataPointer,
            Ext::CloseAuth(_) => E::MintCloseAuthority,
            Ext::DefaultFrozen | Ext::DefaultInit => E::DefaultAccountState,
            Ext::Interest(_) => E::InterestBearingConfig,
            Ext::PermDelegate(_) => E::PermanentDelegate,
            Ext::NonTransferable => E::NonTransferable,
            Ext::Pausable(_) => E::Pausable,
            Ext::Scaled(_) => E::ScaledUiAmount,
            Ext::Confidential => E::ConfidentialTransferMint,
            Ext::ConfidentialFee => E::ConfidentialTransferFeeConfig,
            Ext::GroupPtr => E::GroupPointer,
            Ext::MemberPtr => E::GroupMemberPointer,
        }
    }
}
/// Mint authority used by every scene mint is `auth`; freeze authority optional.
pub fn make_mint(vm: &mut Vm, w: &mut World, k: Pubkey, prog: Pubkey, dec: u8, auth: Pubkey, freeze: Option<Pubkey>, exts: &[Ext]) {
    let types: Vec<_> = exts.iter().map(|e| e.ty()).collect();
    let space = if prog == SPL { 82 } else { ExtensionType::try_calculate_account_len::<TMint>(&types).unwrap() };
    w.put(k, Account { lamports: vm.rent(space), data: vec![0; space], owner: prog, executable: false, rent_epoch: u64::MAX });
    for e in exts {
        let i = match e {
            Ext::Fee(b, m, _) => ext::transfer_fee::instruction::initialize_transfer_fee_config(&T22, &k, Some(&auth), Some(&auth), *b, *m),
            Ext::Hook(p) => ext::transfer_hook::instruction::initialize(&T22, &k, Some(auth), Some(*p)),
            Ext::MetaPtr(a, p) => ext::metadata_pointer::instruction::initialize(&T22, &k, *a, *p),
            Ext::CloseAuth(a) => ti::initialize_mint_close_authority(&T22, &k, Some(a)),
            Ext::DefaultFrozen => ext::default_account_state::instruction::initialize_default_account_state(&T22, &k, &AccountState::Frozen),
            Ext::DefaultInit => ext::default_account_state::instruction::initialize_default_account_state(&T22, &k, &AccountState::Initialized),
            Ext::Interest(r) => ext::interest_bearing_mint::instruction::initialize(&T22, &k, Some(auth), *r),
            Ext::PermDelegate(d) => ti::initialize_permanent_delegate(&T22, &k, d),
            Ext::NonTransferable => ti::initialize_non_transferable_mint(&T22, &k),
            Ext::Pausable(a) => ext::pausable::instruction::initialize(&T22, &k, a),
            Ext::Scaled(f) => ext::scaled_ui_amount::instruction::initialize(&T22, &k, Some(auth), *f),
            Ext::Confidential => ext::confidential_transfer::instruction::initialize_mint(&T22, &k, Some(auth), true, None),
            Ext::ConfidentialFee => ext::confidential_transfer_fee::instruction::initialize_confidential_transfer_fee_config(&T22, &k, Some(auth), &bytemuck::Zeroable::zeroed()),
            Ext::GroupPtr => ext::group_pointer::instruction::initialize(&T22, &k, Some(auth), Some(k)),
            Ext::MemberPtr => ext::group_member_pointer::instruction::initialize(&T22, &k, Some(auth), Some(k)),
        }
        .unwrap();
        vm.must(w, &i, &format!("init {e:?}"));
    }
    let mut d = vec![20u8, dec];
    d.extend_from_slice(auth.as_ref());
    match freeze {
        Some(f) => {
            d.push(1);
            d.extend_from_slice(f.as_ref());
        }
        None => d.push(0),
    }
    let i = solana_instruction::Instruction { program_id: prog, accounts: vec![meta(k, false, true)], data: d };
    vm.must(w, &i, "initialize mint");
    for e in exts {
        if let Ext::Fee(_, _, Some((b, m))) = e {
            let i = ext::transfer_fee::instruction::set_transfer_fee(&T22, &k, &auth, &[], *b, *m).unwrap();
            vm.must(w, &i, "set fee");
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum AExt {
    Immutable,
    CpiGuard,
    Memo,
}
/// A plain (non-associated) token account.
pub fn make_tok(vm: &mut Vm, w: &mut World, k: Pubkey, prog: Pubkey, mint: Pubkey, owner: Pubkey, exts: &[AExt]) -> bool {
    let mut types = vec![];
    if prog == T22 {
        let Some(m) = w.mint(&mint) else { return false };
        let mt: Vec<ExtensionType> = m.ext.iter().filter_map(|e| ExtensionType::try_from(e.0).ok()).collect();
        types = ExtensionType::get_required_init_account_extensions(&mt);
        for e in exts {
            let t = match e {
                AExt::Immutable => ExtensionType::ImmutableOwner,
                AExt::CpiGuard => ExtensionType::CpiGuard,
                AExt::Memo => ExtensionType::MemoTransfer,
            };
            if !types.contains(&t) {
                types.push(t);
            }
        }
    }
    let space = if prog == SPL { 165 } else { ExtensionType::try_calculate_account_len::<TAccount>(&types).unwrap() };
    w.put(k, Account { lamports: vm.rent(space), data: vec![0; space], owner: prog, executable: false, rent_epoch: u64::MAX });
    if types.contains(&ExtensionType::ImmutableOwner) {
        vm.must(w, &ti::initialize_immutable_owner(&T22, &k).unwrap(), "immutable owner");
    }
    let mut d = vec![18u8];
    d.extend_from_slice(owner.as_ref());
    let i = solana_instruction::Instruction { program_id: prog, accounts: vec![meta(k, false, true), meta(mint, false, false)], data: d };
    vm.must(w, &i, "initialize account3");
    for e in exts {
        if prog != T22 {
            break;
        }
        match e {
            AExt::CpiGuard => {
                vm.must(w, &ext::cpi_guard::instruction::enable_cpi_guard(&T22, &k, &owner, &[]).unwrap(), "cpi guard");
            }
            AExt::Memo => {
                vm.must(w, &ext::memo_transfer::instruction::enable_required_transfer_memos(&T22, &k, &owner, &[]).unwrap(), "memo");
            }
            AExt::Immutable => {}
        }
    }
    true
}
pub fn make_multisig(vm: &mut Vm, w: &mut World, k: Pubkey, prog: Pubkey, m: u8, members: &[Pubkey]) {
    w.put(k, Account { lamports: vm.rent(355), data: vec![0; 355], owner: prog, executable: false, rent_epoch: u64::MAX });
    let mut acc = vec![meta(k, false, true)];
    acc.extend(members.iter().map(|p| meta(*p, false, false)));
    let i = solana_instruction::Instruction { program_id: prog, accounts: acc, data: vec![19, m] };
    vm.must(w, &i, "initialize multisig2");
}
pub fn make_ata(vm: &mut Vm, w: &mut World, payer: Pubkey, owner: Pubkey, mint: Pubkey, prog: Pubkey) -> Pubkey {
    w.fund(&payer, 1_000_000_000);
    vm.must(w, &ix::create_ata(payer, owner, mint, prog, true), "create ata");
    ata(&owner, &mint, &prog)
}
/// Sets the token balance (and mint supply) through the mint authority.
pub fn mint_tokens(vm: &mut Vm, w: &mut World, prog: Pubkey, mint: Pubkey, dst: Pubkey, amount: u64) {
    if amount == 0 {
        return;
    }
    if is_native(&mint) {
        return native_deposit(vm, w, prog, dst, amount);
    }
    let auth = w.mint(&mint).and_then(|m| m.auth).expect("mint authority");
    // a frozen destination is thawed for the moment
    let frozen = w.tok(&dst).map(|t| t.state == 2).unwrap_or(false);
    let fa = w.mint(&mint).and_then(|m| m.freeze);
    if frozen {
        vm.must(w, &ix::freeze(prog, dst, mint, fa.unwrap(), true), "thaw");
    }
    vm.must(w, &ix::mint_to(prog, mint, dst, auth, amount), "mint to");
    if frozen {
        vm.must(w, &ix::freeze(prog, dst, mint, fa.unwrap(), false), "freeze");
    }
}

/// The mints of wrapped SOL: tokens are lamports of the token account.
pub const NATIVE: Pubkey = solana_pubkey::pubkey!("So11111111111111111111111111111111111111112");
pub const NATIVE22: Pubkey = solana_pubkey::pubkey!("9pan9bMn5HatX4EJdBwg9VgCa7Uz5HL8N1m5D3NdXejP");
pub fn is_native(k: &Pubkey) -> bool {
    *k == NATIVE || *k == NATIVE22
}
pub fn make_native_mint(vm: &mut Vm, w: &mut World, prog: Pubkey) -> Pubkey {
    let k = if prog == T22 { NATIVE22 } else { NATIVE };
    let mut d = vec![0u8; 82];
    d[44] = 9;
    d[45] = 1;
    w.put(k, Account { lamports: vm.rent(82), data: d, owner: prog, executable: false, rent_epoch: u64::MAX });
    k
}
pub fn sync_native(prog: Pubkey, k: Pubkey) -> solana_instruction::Instruction {
    solana_instruction::Instruction { program_id: prog, accounts: vec![meta(k, false, true)], data: vec![17] }
}
pub fn native_deposit(vm: &mut Vm, w: &mut World, prog: Pubkey, dst: Pubkey, amount: u64) {
    let mut a = w.get(&dst);
    a.lamports += amount;
    w.put(dst, a);
    vm.must(w, &sync_native(prog, dst), "sync native");
}
