//! Metadata sources, targets and the reference translation between them.
use crate::adv;
use crate::case::*;
use crate::ids::*;
use crate::rt::*;
use crate::scene::*;
use crate::tok::*;
use rand::Rng;
use serde_json::{json, Value};
use solana_account::Account;
use solana_instruction::Instruction;
use spl_token_2022_interface::extension::ExtensionType;
use spl_token_metadata_interface::state::Field;

// ---------------------------------------------------------------- Metaplex layout
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Mpl {
    pub key: u8,
    pub ua: Pubkey,
    pub mint: Pubkey,
    pub name: String,
    pub symbol: String,
    pub uri: String,
    pub fee: u16,
    /// (address, verified, share)
    pub creators: Option<Vec<(Pubkey, bool, u8)>>,
    pub primary: bool,
    pub mutable: bool,
    pub nonce: Option<u8>,
    pub std: Option<u8>,
    /// (verified, key)
    pub coll: Option<(bool, Pubkey)>,
    /// (method, remaining, total)
    pub uses: Option<(u8, u64, u64)>,
    /// V1 size / V2 padding
    pub details: Option<(u8, u64)>,
    pub config: Option<Option<Pubkey>>,
}
fn ps(d: &mut Vec<u8>, s: &str) {
    d.extend_from_slice(&(s.len() as u32).to_le_bytes());
    d.extend_from_slice(s.as_bytes());
}
pub fn enc_mpl(m: &Mpl, pad_to: usize) -> Vec<u8> {
    let mut d = vec![m.key];
    d.extend_from_slice(m.ua.as_ref());
    d.extend_from_slice(m.mint.as_ref());
    ps(&mut d, &m.name);
    ps(&mut d, &m.symbol);
    ps(&mut d, &m.uri);
    d.extend_from_slice(&m.fee.to_le_bytes());
    match &m.creators {
        None => d.push(0),
        Some(v) => {
            d.push(1);
            d.extend_from_slice(&(v.len() as u32).to_le_bytes());
            for (k, ver, sh) in v {
                d.extend_from_slice(k.as_ref());
                d.push(*ver as u8);
                d.push(*sh);
            }
        }
    }
    d.push(m.primary as u8);
    d.push(m.mutable as u8);
    match m.nonce {
        None => d.push(0),
        Some(n) => d.extend([1, n]),
    }
    match m.std {
        None => d.push(0),
        Some(n) => d.extend([1, n]),
    }
    match &m.coll {
        None => d.push(0),
        Some((v, k)) => {
            d.extend([1, *v as u8]);
            d.extend_from_slice(k.as_ref());
        }
    }
    match m.uses {
        None => d.push(0),
        Some((u, r, t)) => {
            d.extend([1, u]);
            d.extend_from_slice(&r.to_le_bytes());
            d.extend_from_slice(&t.to_le_bytes());
        }
    }
    match m.details {
        None => d.push(0),
        Some((v, n)) => {
            d.extend([1, v]);
            d.extend_from_slice(&n.to_le_bytes());
        }
    }
    match &m.config {
        None => d.push(0),
        Some(r) => {
            d.extend([1, 0]);
            match r {
                None => d.push(0),
                Some(k) => {
                    d.push(1);
                    d.extend_from_slice(k.as_ref());
                }
            }
        }
    }
    if d.len() < pad_to {
        d.resize(pad_to, 0);
    }
    d
}
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn n(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u8(&mut self) -> Option<u8> {
        Some(self.n(1)?[0])
    }
    fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.n(4)?.try_into().ok()?))
    }
    fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.n(8)?.try_into().ok()?))
    }
    fn key(&mut self) -> Option<Pubkey> {
        Some(Pubkey::new_from_array(self.n(32)?.try_into().ok()?))
    }
    fn s(&mut self) -> Option<String> {
        let n = self.u32()? as usize;
        String::from_utf8(self.n(n)?.to_vec()).ok()
    }
    fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> Option<T>) -> Option<Option<T>> {
        match self.u8()? {
            0 => Some(None),
            1 => Some(Some(f(self)?)),
            _ => None,
        }
    }
}
pub fn dec_mpl(d: &[u8]) -> Option<Mpl> {
    let mut r = Rd(d);
    let mut m = Mpl { key: r.u8()?, ua: r.key()?, mint: r.key()?, name: r.s()?, symbol: r.s()?, uri: r.s()?, ..Default::default() };
    m.fee = u16::from_le_bytes(r.n(2)?.try_into().ok()?);
    m.creators = r.opt(|r| {
        let n = r.u32()?;
        let mut v = vec![];
        for _ in 0..n {
            v.push((r.key()?, r.u8()? == 1, r.u8()?));
        }
        Some(v)
    })?;
    m.primary = r.u8()? == 1;
    m.mutable = r.u8()? == 1;
    m.nonce = r.opt(|r| r.u8())?;
    m.std = r.opt(|r| r.u8())?;
    m.coll = r.opt(|r| Some((r.u8()? == 1, r.key()?)))?;
    m.uses = r.opt(|r| Some((r.u8()?, r.u64()?, r.u64()?)))?;
    m.details = r.opt(|r| Some((r.u8()?, r.u64()?)))?;
    m.config = r.opt(|r| {
        r.u8()?;
        r.opt(|r| r.key())
    })?;
    Some(m)
}
const STDS: [&str; 6] = ["NonFungible", "FungibleAsset", "Fungible", "NonFungibleEdition", "ProgrammableNonFungible", "ProgrammableNonFungibleEdition"];
const METHODS: [&str; 3] = ["Burn", "Multiple", "Single"];
pub fn j_creators(v: &[(Pubkey, bool, u8)]) -> Value {
    Value::Array(v.iter().map(|(k, ver, s)| json!({"address": k.to_string(), "verified": ver, "share": s})).collect())
}
pub fn j_coll(c: &(bool, Pubkey)) -> Value {
    json!({"verified": c.0, "key": c.1.to_string()})
}
pub fn j_uses(u: &(u8, u64, u64)) -> Value {
    json!({"use_method": METHODS[u.0 as usize], "remaining": u.1, "total": u.2})
}
/// The documented additional fields of a Metaplex account, as JSON.
pub fn mpl_fields(m: &Mpl) -> Vec<(String, Value)> {
    let mut v: Vec<(String, Value)> = vec![
        ("key".into(), json!("MetadataV1")),
        ("seller_fee_basis_points".into(), json!(m.fee)),
        ("primary_sale_happened".into(), json!(m.primary)),
        ("is_mutable".into(), json!(m.mutable)),
    ];
    if let Some(c) = &m.creators {
        if !c.is_empty() {
            let un: Vec<_> = c.iter().map(|x| (x.0, false, x.2)).collect();
            v.push(("creators".into(), j_creators(&un)));
        }
    }
    if let Some(n) = m.nonce {
        v.push(("edition_nonce".into(), json!(n)));
    }
    if let Some(n) = m.std {
        v.push(("token_standard".into(), json!(STDS[n as usize])));
    }
    if let Some(c) = &m.coll {
        v.push(("collection".into(), j_coll(c)));
    }
    if let Some(u) = &m.uses {
        v.push(("uses".into(), j_uses(u)));
    }
    if let Some((ver, n)) = &m.details {
        v.push(("collection_details".into(), if *ver == 0 { json!({"V1": {"size": n}}) } else { json!({"V2": {"padding": n.to_le_bytes().to_vec()}}) }));
    }
    if let Some(r) = &m.config {
        v.push(("programmable_config".into(), json!({"V1": {"rule_set": r.map(|k| json!(k.to_bytes().to_vec()))}})));
    }
    v
}
/// JSON equality that accepts an address as base58 text or as a byte array.
pub fn jeq(a: &Value, b: &Value) -> bool {
    fn norm(v: &Value) -> Value {
        match v {
            Value::Array(x) if x.len() == 32 && x.iter().all(|e| e.as_u64().map(|n| n < 256).unwrap_or(false)) => {
                let b: Vec<u8> = x.iter().map(|e| e.as_u64().unwrap() as u8).collect();
                Value::String(bs58::encode(b).into_string())
            }
            Value::Array(x) => Value::Array(x.iter().map(norm).collect()),
            Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), norm(v))).collect()),
            x => x.clone(),
        }
    }
    norm(a) == norm(b)
}
// ---------------------------------------------------------------- Token-2022 metadata
#[derive(Clone, Debug, PartialEq, Default)]
pub struct TMeta {
    pub ua: Pubkey,
    pub mint: Pubkey,
    pub name: String,
    pub symbol: String,
    pub uri: String,
    pub add: Vec<(String, String)>,
}
pub fn enc_tmeta(m: &TMeta) -> Vec<u8> {
    let mut d = m.ua.to_bytes().to_vec();
    d.extend_from_slice(m.mint.as_ref());
    ps(&mut d, &m.name);
    ps(&mut d, &m.symbol);
    ps(&mut d, &m.uri);
    d.extend_from_slice(&(m.add.len() as u32).to_le_bytes());
    for (k, v) in &m.add {
        ps(&mut d, k);
        ps(&mut d, v);
    }
    d
}
pub fn dec_tmeta(d: &[u8]) -> Option<TMeta> {
    let mut r = Rd(d);
    let mut m = TMeta { ua: r.key()?, mint: r.key()?, name: r.s()?, symbol: r.s()?, uri: r.s()?, add: vec![] };
    let n = r.u32()?;
    for _ in 0..n {
        m.add.push((r.s()?, r.s()?));
    }
    Some(m)
}
pub fn t22_meta(w: &World, mint: &Pubkey) -> Option<TMeta> {
    let m = w.mint(mint)?;
    dec_tmeta(find(&m.ext, ExtensionType::TokenMetadata)?)
}
pub fn t22_meta_init(vm: &mut Vm, w: &mut World, mint: &Pubkey, ua: &Pubkey, mint_auth: &Pubkey, m: &TMeta) {
    w.fund(mint, 1_000_000_000);
    vm.must(w, &spl_token_metadata_interface::instruction::initialize(&T22, mint, ua, mint, mint_auth, m.name.clone(), m.symbol.clone(), m.uri.clone()), "metadata init");
    for (k, v) in &m.add {
        vm.must(w, &spl_token_metadata_interface::instruction::update_field(&T22, mint, ua, Field::Key(k.clone()), v.clone()), "metadata field");
    }
}
/// Brings an existing self-described mint to exactly `m`.
pub fn t22_meta_set(vm: &mut Vm, w: &mut World, mint: &Pubkey, ua: &Pubkey, m: &TMeta) {
    let old = t22_meta(w, mint).unwrap();
    let uf = |f: Field, v: &str| spl_token_metadata_interface::instruction::update_field(&T22, mint, ua, f, v.to_string());
    vm.must(w, &uf(Field::Name, &m.name), "name");
    vm.must(w, &uf(Field::Symbol, &m.symbol), "symbol");
    vm.must(w, &uf(Field::Uri, &m.uri), "uri");
    for (k, _) in &old.add {
        if !m.add.iter().any(|x| x.0 == *k) {
            vm.must(w, &spl_token_metadata_interface::instruction::remove_key(&T22, mint, ua, k.clone(), false), "remove");
        }
    }
    for (k, v) in &m.add {
        vm.must(w, &uf(Field::Key(k.clone()), v), "field");
    }
}
// ---------------------------------------------------------------- sources
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    SplMpl,
    NoPtrMpl,
    SelfPtr,
    PtrMpl,
    PtrMplForeign,
    External,
}
pub const KINDS: [Kind; 6] = [Kind::SplMpl, Kind::NoPtrMpl, Kind::SelfPtr, Kind::PtrMpl, Kind::PtrMplForeign, Kind::External];
impl Kind {
    pub fn is_mpl(&self) -> bool {
        matches!(self, Kind::SplMpl | Kind::NoPtrMpl | Kind::PtrMpl | Kind::PtrMplForeign)
    }
}
/// What the source says.
#[derive(Clone, Debug)]
pub enum Content {
    M(Mpl),
    T(TMeta),
}
#[derive(Clone, Debug)]
pub struct Source {
    pub kind: Kind,
    pub u: Pubkey,
    pub up: Pubkey,
    pub ma: Pubkey,
    pub ua: Pubkey,
    /// account to present, if the kind needs one
    pub acct: Option<Pubkey>,
    pub owner_prog: Option<Pubkey>,
    pub content: Content,
}
impl Source {
    pub fn cfg(&self) -> adv::AdvCfg {
        match (&self.kind, &self.content) {
            (Kind::External, Content::T(t)) => adv::AdvCfg { emit: Some(enc_tmeta(t)), ..Default::default() },
            _ => Default::default(),
        }
    }
}
pub fn text(c: &mut Case, max: usize) -> String {
    let n = match c.below(6) {
        0 => 0,
        1 => max,
        _ => c.rng.gen_range(0..=max),
    };
    let pool: Vec<char> = "abcdefghijklmnop XYZ019-_./:%\"'\\{}[]é漢😀\n\t".chars().collect();
    let mut s = String::new();
    while s.len() < n {
        let ch = pool[c.rng.gen_range(0..pool.len())];
        if s.len() + ch.len_utf8() > n {
            s.push('z');
        } else {
            s.push(ch);
        }
    }
    s
}
/// An address an endorsement may name: mostly a stranger, at times one that belongs to the pair.
fn endorser(c: &mut Case, mint: &Pubkey, ua: &Pubkey) -> Pubkey {
    if c.chance(0.75) {
        return c.key();
    }
    let wp = c.pick(&[SPL, T22]);
    let wm = crate::ids::wrapped_mint(mint, &wp);
    let all = [*mint, *ua, wm, crate::ids::authority(&wm), mpl_pda(mint), mpl_pda(&wm), WRAP, MPL, Pubkey::default()];
    c.pick(&all)
}
pub fn gen_creators(c: &mut Case, mint: &Pubkey, ua: &Pubkey, verified: bool) -> Vec<(Pubkey, bool, u8)> {
    let n = c.rng.gen_range(1..=5usize);
    let mut left = 100u8;
    let mut v = vec![];
    for i in 0..n {
        let s = if i + 1 == n { left } else { c.rng.gen_range(0..=left) };
        left -= s;
        let ver = verified && c.chance(0.6);
        let mut k = endorser(c, mint, ua);
        if v.iter().any(|x: &(Pubkey, bool, u8)| x.0 == k) {
            k = c.key();
        }
        v.push((k, ver, s));
    }
    v
}
fn gen_uses(c: &mut Case) -> (u8, u64, u64) {
    match c.below(3) {
        0 => (0, c.rng.gen_range(0..5), c.rng.gen_range(5..20)),
        1 => {
            let t = c.rng.gen_range(2..50);
            (1, if c.chance(0.2) { 0 } else { c.rng.gen_range(1..=t) }, t)
        }
        _ => (2, 1, 1),
    }
}
pub fn gen_mpl(c: &mut Case, mint: Pubkey, ua: Pubkey) -> Mpl {
    let pad = |c: &mut Case, s: String, n: usize| {
        // the real program pads to the maximum with NULs
        let mut s = s;
        if c.chance(0.6) {
            while s.len() < n {
                s.push('\0');
            }
        }
        s
    };
    let (a, b, d) = (text(c, 32), text(c, 10), text(c, 200));
    let mut m = Mpl { key: 4, ua, mint, name: pad(c, a, 32), symbol: pad(c, b, 10), uri: pad(c, d, 200), ..Default::default() };
    m.fee = c.pick(&[0u16, 1, 500, 9999, 10000]);
    if c.chance(0.5) {
        m.creators = Some(gen_creators(c, &mint, &ua, true));
    } else if c.chance(0.1) {
        m.creators = Some(vec![]);
    }
    m.primary = c.rng.gen();
    m.mutable = c.rng.gen();
    if c.chance(0.5) {
        m.nonce = Some(c.rng.gen());
    }
    if c.chance(0.5) {
        m.std = Some(c.rng.gen_range(0..6));
    }
    if c.chance(0.4) {
        m.coll = Some((c.rng.gen(), endorser(c, &mint, &ua)));
    }
    if c.chance(0.35) {
        m.uses = Some(gen_uses(c));
    }
    if c.chance(0.3) {
        m.details = Some((c.rng.gen_range(0..2), c.rng.gen_range(0..1000)));
    }
    if c.chance(0.3) {
        m.config = Some(if c.chance(0.5) { Some(c.key()) } else { None });
    }
    m
}
/// Additional fields as a third party or the mint itself might carry them.
/// Additional fields of a source with many of them.
pub const MANY_FIELDS: usize = 15;
pub fn gen_tmeta(c: &mut Case, mint: Pubkey, ua: Pubkey, for_spl: bool, dups: bool, budget: usize) -> TMeta {
    let small = for_spl && c.chance(0.9);
    let (a, b, d) = if small { (32, 10, 200) } else { (60, 24, 220) };
    let mut m = TMeta { ua, mint, name: text(c, a), symbol: text(c, b), uri: text(c, d), add: vec![] };
    let keys = ["color", "team", "k", "", "name", "symbol", "uri", "Name", "key", "is_mutable", "漢字", "a b", "desc"];
    let n = match c.below(4) {
        0 => 0,
        1 => 1,
        _ => c.rng.gen_range(0..6),
    };
    for _ in 0..n {
        let k = c.pick(&keys).to_string();
        if !dups && m.add.iter().any(|x| x.0 == k) {
            continue;
        }
        let l = c.pick(&[4usize, 12, 40]);
        let v = text(c, l);
        m.add.push((k, v));
    }
    if c.many && c.chance(0.3) {
        // Many small fields, in bounds the program's 32 KB heap can hold (see DESIGN.md on the
        // metadata that cannot be mirrored for want of heap).
        let top = c.rng.gen_range(MANY_FIELDS - 4..=MANY_FIELDS);
        for i in m.add.len()..top {
            let v = text(c, 6);
            m.add.push((format!("f{i}"), v));
        }
    }
    if c.chance(if for_spl { 0.45 } else { 0.2 }) {
        let mut v = gen_creators(c, &mint, &ua, true);
        if c.chance(0.04) {
            v.clear();
        }
        let j = if for_spl && c.chance(0.06) { "not json".to_string() } else { j_creators(&v).to_string() };
        m.add.push(("creators".into(), j));
    }
    if c.chance(if for_spl { 0.45 } else { 0.2 }) {
        let j = if for_spl && c.chance(0.1) { c.pick(&["70000", "-1", "x", "", "20000"]).to_string() } else { c.pick(&[0u16, 7, 500, 10000]).to_string() };
        m.add.push(("seller_fee_basis_points".into(), j));
    }
    if c.chance(if for_spl { 0.35 } else { 0.1 }) {
        let k = (c.rng.gen(), endorser(c, &mint, &ua));
        let j = if for_spl && c.chance(0.06) { "{}".to_string() } else { j_coll(&k).to_string() };
        m.add.push(("collection".into(), j));
    }
    if c.chance(if for_spl { 0.3 } else { 0.1 }) {
        let u = gen_uses(c);
        let j = if for_spl && c.chance(0.06) { "[]".to_string() } else { j_uses(&u).to_string() };
        m.add.push(("uses".into(), j));
    }
    if for_spl && dups && c.chance(0.2) {
        // a program may return a field twice: the last one counts, as it does for Token-2022
        match c.below(4) {
            3 => {
                let u = gen_uses(c);
                m.add.push(("uses".into(), j_uses(&u).to_string()));
            }
            0 => m.add.push(("seller_fee_basis_points".into(), c.pick(&[0u16, 3, 250, 10000]).to_string())),
            1 => {
                let v = gen_creators(c, &mint, &ua, true);
                m.add.push(("creators".into(), j_creators(&v).to_string()));
            }
            _ => {
                let k = (c.rng.gen(), c.key());
                m.add.push(("collection".into(), j_coll(&k).to_string()));
            }
        }
        c.cov.inc("field_given_twice");
    }
    for i in (1..m.add.len()).rev() {
        let j = c.rng.gen_range(0..=i);
        m.add.swap(i, j);
    }
    if !small && m.add.len() < 3 && c.chance(0.12) {
        // one long text
        let x = text(c, budget.min(1200) - 300);
        match c.below(5) {
            0 => m.name = x,
            1 => m.symbol = x,
            2 => m.uri = x,
            3 => m.add.push((x, "v".into())),
            _ => m.add.push(("long".into(), x)),
        }
        c.cov.inc("source_with_a_long_text");
    }
    while enc_tmeta(&m).len() > budget {
        if m.add.pop().is_none() {
            m.uri.clear();
            m.name = "n".into();
        }
    }
    m
}
pub fn put_mpl(c: &mut Case, w: &mut World, addr: Pubkey, m: &Mpl) {
    let pad = c.pick(&[607usize, 679, 0]);
    let d = enc_mpl(m, pad);
    let l = c.vm.rent(d.len()) + 10_000_000;
    w.put(addr, Account { lamports: l, data: d, owner: MPL, executable: false, rent_epoch: u64::MAX });
}
/// The account metadata of a mint as the real Metaplex program creates it.
fn real_mpl(c: &mut Case, w: &mut World, mint: Pubkey, ma: Pubkey, ua: Pubkey, m: &mut Mpl) -> bool {
    let payer = c.key();
    w.fund(&payer, 5_000_000_000);
    let clean = |s: &str| s.trim_end_matches('\0').to_string();
    let d = mpl_token_metadata::types::DataV2 {
        name: clean(&m.name),
        symbol: clean(&m.symbol),
        uri: clean(&m.uri),
        seller_fee_basis_points: m.fee,
        creators: m.creators.as_ref().map(|v| v.iter().map(|x| mpl_token_metadata::types::Creator { address: x.0, verified: false, share: x.2 }).collect()),
        collection: m.coll.as_ref().map(|x| mpl_token_metadata::types::Collection { verified: false, key: x.1 }),
        uses: None,
    };
    let i = mpl_token_metadata::instructions::CreateMetadataAccountV3 {
        metadata: mpl_pda(&mint),
        mint,
        mint_authority: ma,
        payer,
        update_authority: (ua, false),
        system_program: SYS,
        rent: None,
    }
    .instruction(mpl_token_metadata::instructions::CreateMetadataAccountV3InstructionArgs { data: d, is_mutable: m.mutable, collection_details: None });
    let o = c.vm.run(w, &i);
    if !o.ok {
        return false;
    }
    *m = dec_mpl(w.data(&mpl_pda(&mint))).expect("metaplex account");
    true
}
pub fn make_source(c: &mut Case, w: &mut World, kind: Kind, for_spl: bool) -> Source {
    let (u, ma, ua) = (c.key(), c.key(), c.key());
    let dec = c.pick(&[0u8, 6, 9]);
    let fz = if c.chance(0.5) { Some(c.key()) } else { None };
    let up = if kind == Kind::SplMpl { SPL } else { T22 };
    let mut acct = None;
    let mut owner_prog = None;
    let mut exts = vec![];
    match kind {
        Kind::SplMpl | Kind::NoPtrMpl => acct = Some(mpl_pda(&u)),
        Kind::SelfPtr => exts.push(Ext::MetaPtr(Some(ma), Some(u))),
        Kind::PtrMpl => {
            acct = Some(mpl_pda(&u));
            exts.push(Ext::MetaPtr(Some(ma), acct));
        }
        Kind::PtrMplForeign => {
            acct = Some(c.key());
            exts.push(Ext::MetaPtr(Some(ma), acct));
        }
        Kind::External => {
            acct = Some(c.key());
            owner_prog = Some(METAP);
            exts.push(Ext::MetaPtr(Some(ma), acct));
        }
    }
    if up == T22 {
        if c.chance(0.2) {
            exts.push(Ext::Fee(100, 1000, None));
        }
        if c.chance(0.2) {
            exts.push(Ext::CloseAuth(ma));
        }
    }
    make_mint(c.vm, w, u, up, dec, ma, fz, &exts);
    let mut s = Source { kind, u, up, ma, ua, acct, owner_prog, content: Content::T(TMeta::default()) };
    set_source(c, w, &mut s, for_spl, true);
    // metadata that nothing designates
    if matches!(kind, Kind::PtrMpl | Kind::PtrMplForeign | Kind::External) && c.chance(0.35) {
        let t = TMeta { ua, mint: u, name: "DECOY".into(), symbol: "DCY".into(), uri: "decoy".into(), add: vec![("decoy".into(), "1".into())] };
        t22_meta_init(c.vm, w, &u, &ua, &ma, &t);
        c.cov.inc("decoy_on_the_mint");
    }
    if matches!(kind, Kind::SelfPtr | Kind::External | Kind::PtrMplForeign) && c.chance(0.35) {
        let mut m = gen_mpl(c, u, ua);
        m.name = "DECOY".into();
        put_mpl(c, w, mpl_pda(&u), &m);
        c.cov.inc("decoy_at_metaplex");
    }
    s
}
/// Writes (again) what the source says.
/// One detail of a Metaplex source is changed.
fn tweak_mpl(c: &mut Case, m: &mut Mpl) {
    match c.below(12) {
        0 => m.name = text(c, 12),
        1 => m.symbol = text(c, 6),
        2 => m.uri = text(c, 60),
        3 => m.fee = c.pick(&[0u16, 1, 500, 10000]),
        4 | 5 => {
            let (n, k, v) = (c.below(5), c.key(), c.rng.gen());
            let l = m.creators.get_or_insert_with(Vec::new);
            match n {
                0 if l.len() > 1 => {
                    let (a, b) = (l[0].2, l[1].2);
                    (l[0].2, l[1].2) = (b, a);
                }
                1 if l.len() > 1 => l.swap(0, 1),
                2 if !l.is_empty() => l[0].1 = !l[0].1,
                3 if !l.is_empty() => l[0].0 = k,
                _ => *l = vec![(k, v, 100)],
            }
        }
        6 => m.primary = !m.primary,
        7 => m.mutable = !m.mutable,
        8 => m.coll = if m.coll.is_some() && c.chance(0.5) { m.coll.map(|x| (!x.0, x.1)) } else { Some((c.rng.gen(), c.key())) },
        9 => m.coll = None,
        10 => {
            m.uses = match m.uses {
                Some((a, r, t)) if r > 0 => Some((a, r - 1, t)),
                _ => Some((1, 3, 5)),
            }
        }
        _ => m.creators = None,
    }
}
/// One detail of a Token-2022 or external source is changed.
fn tweak_t22(c: &mut Case, t: &mut TMeta) {
    let n = t.add.len();
    if c.chance(0.3) {
        // barely another text
        let i = c.below(3 + n);
        let f = match i {
            0 => &mut t.name,
            1 => &mut t.symbol,
            2 => &mut t.uri,
            _ if matches!(t.add[i - 3].0.as_str(), "creators" | "collection" | "uses" | "seller_fee_basis_points") => &mut t.uri,
            _ => &mut t.add[i - 3].1,
        };
        match c.below(5) {
            0 => *f = if f.to_uppercase() != *f { f.to_uppercase() } else { f.to_lowercase() },
            1 => f.push(' '),
            2 => f.insert(0, ' '),
            3 => {
                let x = f.pop();
                f.push(if x == Some('q') { 'w' } else { 'q' });
            }
            _ => f.clear(),
        }
        c.cov.inc("source_text_barely_changed");
        return;
    }
    match c.below(10) {
        0 => t.name = text(c, 12),
        1 => t.symbol = text(c, 6),
        2 => t.uri = text(c, 60),
        3 | 4 | 5 if n > 0 => {
            let i = c.below(n);
            if !matches!(t.add[i].0.as_str(), "creators" | "collection" | "uses" | "seller_fee_basis_points") {
                t.add[i].1 = text(c, t.add[i].1.len().max(4));
            }
        }
        6 | 7 if n > 0 => {
            let i = c.below(n);
            let k = format!("r{}", c.below(1000));
            t.add[i].0 = k;
        }
        8 if n > 1 => t.add.swap(0, n - 1),
        _ if n > 0 => {
            let i = c.below(n);
            t.add.remove(i);
        }
        _ => t.add.push(("new".into(), text(c, 8))),
    }
}
pub fn set_source(c: &mut Case, w: &mut World, s: &mut Source, for_spl: bool, first: bool) {
    let tweak = !first && c.chance(0.45);
    if tweak {
        c.cov.inc("source_changed_in_one_detail");
    }
    if s.kind.is_mpl() {
        let mint = if s.kind == Kind::PtrMplForeign { c.key() } else { s.u };
        let mut m = match &s.content {
            Content::M(m) if tweak => {
                let mut m = m.clone();
                tweak_mpl(c, &mut m);
                m
            }
            _ => gen_mpl(c, mint, s.ua),
        };
        let addr = s.acct.unwrap();
        let real = first && addr == mpl_pda(&s.u) && c.chance(0.3) && real_mpl(c, w, s.u, s.ma, s.ua, &mut m);
        if !real {
            put_mpl(c, w, addr, &m);
        }
        c.cov.inc(if real { "source_made_by_metaplex" } else { "source_synthesised" });
        s.content = Content::M(m);
    } else {
        let mint = if c.chance(0.7) { s.u } else { c.key() };
        let dups = s.kind == Kind::External;
        let t = match &s.content {
            Content::T(t) if tweak => {
                let mut t = t.clone();
                let old = t.clone();
                tweak_t22(c, &mut t);
                // a program returns 1024 bytes at most
                if enc_tmeta(&t).len() > if dups { 1000 } else { 2500 } {
                    t = old;
                }
                t
            }
            _ => gen_tmeta(c, mint, s.ua, for_spl, dups, if dups { 1000 } else { 2500 }),
        };
        if s.kind == Kind::SelfPtr {
            if first {
                t22_meta_init(c.vm, w, &s.u, &s.ua, &s.ma, &t);
            } else {
                t22_meta_set(c.vm, w, &s.u, &s.ua, &t);
            }
        } else {
            let d = vec![7u8; 40];
            let l = c.vm.rent(40);
            w.put(s.acct.unwrap(), Account { lamports: l, data: d, owner: METAP, executable: false, rent_epoch: u64::MAX });
        }
        s.content = Content::T(t);
    }
}
/// Expected base fields and additional fields (plain text or JSON).
#[derive(Clone, Debug)]
pub enum FieldVal {
    S(String),
    J(Value),
}
pub fn expect_t22(s: &Source) -> (String, String, String, Vec<(String, FieldVal)>) {
    match &s.content {
        Content::M(m) => (m.name.clone(), m.symbol.clone(), m.uri.clone(), mpl_fields(m).into_iter().map(|(k, v)| (k, FieldVal::J(v))).collect()),
        Content::T(t) => {
            let mut v: Vec<(String, FieldVal)> = vec![];
            for (k, x) in &t.add {
                v.retain(|e| e.0 != *k);
                v.push((k.clone(), FieldVal::S(x.clone())));
            }
            (t.name.clone(), t.symbol.clone(), t.uri.clone(), v)
        }
    }
}
/// None when the source's fields cannot be read.
pub fn expect_spl(s: &Source) -> Option<mpl_token_metadata::types::DataV2> {
    use mpl_token_metadata::types as t;
    let method = |s: &str| -> Option<t::UseMethod> {
        Some(match s {
            "Burn" => t::UseMethod::Burn,
            "Multiple" => t::UseMethod::Multiple,
            "Single" => t::UseMethod::Single,
            _ => return None,
        })
    };
    Some(match &s.content {
        Content::M(m) => t::DataV2 {
            name: m.name.clone(),
            symbol: m.symbol.clone(),
            uri: m.uri.clone(),
            seller_fee_basis_points: m.fee,
            creators: m.creators.as_ref().filter(|v| !v.is_empty()).map(|v| v.iter().map(|x| t::Creator { address: x.0, verified: false, share: x.2 }).collect()),
            collection: m.coll.as_ref().map(|x| t::Collection { verified: false, key: x.1 }),
            uses: m.uses.as_ref().map(|x| t::Uses { use_method: method(METHODS[x.0 as usize]).unwrap(), remaining: x.1, total: x.2 }),
        },
        Content::T(m) => {
            let mut d = t::DataV2 { name: m.name.clone(), symbol: m.symbol.clone(), uri: m.uri.clone(), seller_fee_basis_points: 0, creators: None, collection: None, uses: None };
            for (k, v) in &m.add {
                match k.as_str() {
                    "seller_fee_basis_points" => d.seller_fee_basis_points = v.parse().ok()?,
                    "creators" => {
                        let j: Value = serde_json::from_str(v).ok()?;
                        let mut o = vec![];
                        for e in j.as_array()? {
                            o.push(t::Creator { address: e["address"].as_str()?.parse().ok()?, verified: false, share: e["share"].as_u64()?.try_into().ok()? });
                        }
                        d.creators = Some(o);
                    }
                    "collection" => {
                        let j: Value = serde_json::from_str(v).ok()?;
                        d.collection = Some(t::Collection { verified: false, key: j["key"].as_str()?.parse().ok()? });
                    }
                    "uses" => {
                        let j: Value = serde_json::from_str(v).ok()?;
                        d.uses = Some(t::Uses { use_method: method(j["use_method"].as_str()?)?, remaining: j["remaining"].as_u64()?, total: j["total"].as_u64()? });
                    }
                    _ => {}
                }
            }
            d
        }
    })
}
// ---------------------------------------------------------------- targets
pub fn make_target(c: &mut Case, w: &mut World, s: &Source, wp: Pubkey) -> Pair {
    let mut p = Pair::of(s.u, s.up, wp);
    p.mint_auth = Some(s.ma);
    synth_wrapped(c.vm, w, &p);
    if wp == T22 {
        w.fund(&p.wm, 100_000_000);
    } else {
        w.fund(&p.auth, 200_000_000);
    }
    p
}
/// Metaplex's own verdict on writing `d` for the wrapped mint, with the documented
/// signer and payer.
pub fn model_spl(c: &mut Case, w: &World, p: &Pair, d: mpl_token_metadata::types::DataV2) -> Result<World, String> {
    use mpl_token_metadata::instructions as mi;
    let mp = mpl_pda(&p.wm);
    let i: Instruction = if w.data(&mp).is_empty() {
        mi::CreateMetadataAccountV3 { metadata: mp, mint: p.wm, mint_authority: p.auth, payer: p.auth, update_authority: (p.auth, true), system_program: SYS, rent: Some(RENT) }
            .instruction(mi::CreateMetadataAccountV3InstructionArgs { data: d, is_mutable: true, collection_details: None })
    } else {
        mi::UpdateMetadataAccountV2 { metadata: mp, update_authority: p.auth }.instruction(mi::UpdateMetadataAccountV2InstructionArgs { data: Some(d), primary_sale_happened: None, new_update_authority: None, is_mutable: None })
    };
    let mut s = w.clone();
    let o = c.vm.run(&mut s, &i);
    if o.ok {
        Ok(s)
    } else {
        Err(o.err_str())
    }
}
