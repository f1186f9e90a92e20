//! The world a scenario runs in: LiteSVM template with mints, wallets and token accounts, raw
//! instruction encoding (hard coded wire format) and state snapshots (hard coded account layout).

use crate::rt;
use anchor_spl::token_2022::spl_token_2022 as t22;
use litesvm::types::TransactionMetadata;
use litesvm::LiteSVM;
use solana_sdk::account::Account;
use solana_sdk::clock::Clock;
use solana_sdk::hash::{hash, hashv};
use solana_sdk::instruction::{AccountMeta, Instruction};
use solana_sdk::message::{Message, VersionedMessage};
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::Signature;
use solana_sdk::transaction::VersionedTransaction;
use std::cell::RefCell;
use std::collections::HashMap;

pub const N_USERS: usize = 6;
pub const PROGRAM: Pubkey = Pubkey::from_str_const("presSVxnf9UU8jMxhgSMqaRwNiT36qeBdNeTRKjTdbj");
pub const TOKEN: Pubkey = Pubkey::from_str_const("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
pub const TOKEN22: Pubkey = Pubkey::from_str_const("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");
pub const ATA: Pubkey = Pubkey::from_str_const("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
pub const MEMO: Pubkey = Pubkey::from_str_const("MemoSq4gqABAXKb96qnH8TysNcWxMyWCqXgDLGmfcHr");
pub const HOOK: Pubkey = Pubkey::from_str_const("abcSyangMHdGzUGKhBhKoQzSFdJKUdkPGf5cbXVHpEw");
pub const SYSTEM: Pubkey = Pubkey::from_str_const("11111111111111111111111111111111");

/// wallets: users 0..N_USERS, then these
pub const CREATOR0: usize = N_USERS;
pub const CREATOR1: usize = N_USERS + 1;
pub const ATTACKER: usize = N_USERS + 2;
pub const FUNDER: usize = N_USERS + 3; // pays rents, third party payer
pub const OPOWNER0: usize = N_USERS + 4;
pub const OPOWNER1: usize = N_USERS + 5;
pub const RENT_RX: usize = N_USERS + 6;
pub const PAUPER: usize = N_USERS + 7; // token accounts with almost nothing
pub const N_WALLETS: usize = N_USERS + 8;

pub const WALLET_BAL: u64 = u64::MAX / 32;
pub const CREATOR_BAL: u64 = u64::MAX / 4;
pub const PAUPER_BAL: u64 = 7;

pub const MINT_KINDS: usize = 6;
pub const K_SPL: usize = 0;
pub const K_T22: usize = 1;
pub const K_FEE: usize = 2;
pub const K_HOOK: usize = 3;
pub const K_FEEHOOK: usize = 4;
/// fee and hook, and the hook wants an account derived from the transfer itself
pub const K_FLOWHOOK: usize = 5;

pub fn key(tag: &str) -> Pubkey {
    Pubkey::new_from_array(hash(tag.as_bytes()).to_bytes())
}
pub fn wallet(i: usize) -> Pubkey {
    key(&format!("wallet-{i}"))
}
pub fn wallet_name(i: usize) -> String {
    match i {
        CREATOR0 => "creator0".into(),
        CREATOR1 => "creator1".into(),
        ATTACKER => "attacker".into(),
        FUNDER => "funder".into(),
        OPOWNER0 => "opowner0".into(),
        OPOWNER1 => "opowner1".into(),
        RENT_RX => "rent_rx".into(),
        PAUPER => "pauper".into(),
        i => format!("user{i}"),
    }
}
pub fn mint_key(side: usize, kind: usize) -> Pubkey {
    key(&format!("mint-{side}-{kind}"))
}
pub fn mint_program(kind: usize) -> Pubkey {
    if kind == K_SPL {
        TOKEN
    } else {
        TOKEN22
    }
}
pub fn has_hook(kind: usize) -> bool {
    kind == K_HOOK || kind == K_FEEHOOK || kind == K_FLOWHOOK
}
pub fn has_fee(kind: usize) -> bool {
    kind == K_FEE || kind == K_FEEHOOK || kind == K_FLOWHOOK
}
pub fn base_key(p: usize) -> Pubkey {
    key(&format!("base-{p}"))
}

thread_local! {
    static PDA_CACHE: RefCell<HashMap<(Pubkey, Vec<Vec<u8>>), Pubkey>> = RefCell::new(HashMap::new());
    static KEYS: RefCell<HashMap<String, Pubkey>> = RefCell::new(HashMap::new());
}
pub fn pda_of(program: &Pubkey, seeds: &[&[u8]]) -> Pubkey {
    let k = (*program, seeds.iter().map(|s| s.to_vec()).collect::<Vec<_>>());
    PDA_CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 200_000 {
            c.clear();
        }
        *c.entry(k)
            .or_insert_with(|| Pubkey::find_program_address(seeds, program).0)
    })
}
pub fn pda(seeds: &[&[u8]]) -> Pubkey {
    pda_of(&PROGRAM, seeds)
}
pub fn ata(owner: &Pubkey, mint: &Pubkey, program: &Pubkey) -> Pubkey {
    pda_of(&ATA, &[owner.as_ref(), program.as_ref(), mint.as_ref()])
}
pub fn authority() -> Pubkey {
    pda(&[b"presale_authority"])
}
pub fn event_authority() -> Pubkey {
    pda(&[b"__event_authority"])
}
pub fn presale_key(base: &Pubkey, base_mint: &Pubkey, quote_mint: &Pubkey) -> Pubkey {
    pda(&[b"presale", base.as_ref(), base_mint.as_ref(), quote_mint.as_ref()])
}
pub fn base_vault_key(presale: &Pubkey) -> Pubkey {
    pda(&[b"base_vault", presale.as_ref()])
}
pub fn quote_vault_key(presale: &Pubkey) -> Pubkey {
    pda(&[b"quote_vault", presale.as_ref()])
}
pub fn escrow_key(presale: &Pubkey, owner: &Pubkey, reg: u8) -> Pubkey {
    pda(&[b"escrow", presale.as_ref(), owner.as_ref(), &[reg]])
}
pub fn fixed_args_key(presale: &Pubkey) -> Pubkey {
    pda(&[b"fixed_price_param", presale.as_ref()])
}
pub fn merkle_config_key(presale: &Pubkey, version: u64) -> Pubkey {
    pda(&[b"merkle_root", presale.as_ref(), &version.to_le_bytes()])
}
pub fn operator_key(creator: &Pubkey, owner: &Pubkey) -> Pubkey {
    pda(&[b"operator", creator.as_ref(), owner.as_ref()])
}
pub fn server_meta_key(presale: &Pubkey) -> Pubkey {
    pda(&[b"server_metadata", presale.as_ref()])
}

pub fn disc(ns: &str, name: &str) -> [u8; 8] {
    let mut d = [0u8; 8];
    d.copy_from_slice(&hash(format!("{ns}:{name}").as_bytes()).to_bytes()[..8]);
    d
}

thread_local! {
    static DISC: RefCell<HashMap<&'static str, [u8; 8]>> = RefCell::new(HashMap::new());
}
pub fn ix_disc(name: &'static str) -> [u8; 8] {
    DISC.with(|c| *c.borrow_mut().entry(name).or_insert_with(|| disc("global", name)))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum F {
    R,
    W,
    S,
    WS,
}
pub fn meta(k: Pubkey, f: F) -> AccountMeta {
    AccountMeta {
        pubkey: k,
        is_writable: matches!(f, F::W | F::WS),
        is_signer: matches!(f, F::S | F::WS),
    }
}

/// An instruction under construction; accounts are addressed by role name so tampering is easy.
#[derive(Clone, Debug)]
pub struct Ix {
    pub name: &'static str,
    pub accs: Vec<(&'static str, AccountMeta)>,
    pub rest: Vec<AccountMeta>,
    pub data: Vec<u8>,
}
impl Ix {
    pub fn new(name: &'static str) -> Self {
        Ix { name, accs: vec![], rest: vec![], data: ix_disc(name).to_vec() }
    }
    pub fn acc(mut self, role: &'static str, k: Pubkey, f: F) -> Self {
        self.accs.push((role, meta(k, f)));
        self
    }
    pub fn event_cpi(self) -> Self {
        let e = event_authority();
        self.acc("event_authority", e, F::R).acc("program", PROGRAM, F::R)
    }
    pub fn get_mut(&mut self, role: &str) -> Option<&mut AccountMeta> {
        self.accs.iter_mut().find(|(r, _)| *r == role).map(|(_, m)| m)
    }
    pub fn get(&self, role: &str) -> Option<&AccountMeta> {
        self.accs.iter().find(|(r, _)| *r == role).map(|(_, m)| m)
    }
    pub fn u8(mut self, v: u8) -> Self {
        self.data.push(v);
        self
    }
    pub fn u16(mut self, v: u16) -> Self {
        self.data.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u32(mut self, v: u32) -> Self {
        self.data.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u64(mut self, v: u64) -> Self {
        self.data.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u128(mut self, v: u128) -> Self {
        self.data.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn bytes(mut self, v: &[u8]) -> Self {
        self.data.extend_from_slice(v);
        self
    }
    pub fn build(&self) -> Instruction {
        Instruction {
            program_id: PROGRAM,
            accounts: self.accs.iter().map(|(_, m)| m.clone()).chain(self.rest.iter().cloned()).collect(),
            data: self.data.clone(),
        }
    }
}

#[derive(Clone)]
pub struct World {
    pub svm: LiteSVM,
    pub now: i64,
    pub epoch: u64,
}

#[derive(Debug, Clone)]
pub struct TxErr {
    pub err: String,
    pub logs: Vec<String>,
}

pub fn feepayer() -> Pubkey {
    KEYS.with(|k| *k.borrow_mut().entry("feepayer".into()).or_insert_with(|| key("feepayer")))
}

impl World {
    pub fn send(&mut self, ixs: &[Instruction]) -> Result<TransactionMetadata, TxErr> {
        let msg = Message::new(ixs, Some(&feepayer()));
        let n = msg.header.num_required_signatures as usize;
        let tx = VersionedTransaction {
            signatures: vec![Signature::default(); n],
            message: VersionedMessage::Legacy(msg),
        };
        match self.svm.send_transaction(tx) {
            Ok(m) => Ok(m),
            Err(f) => Err(TxErr { err: format!("{:?}", f.err), logs: f.meta.logs }),
        }
    }
    pub fn set_time(&mut self, ts: i64) {
        self.now = ts;
        self.push_clock();
    }
    pub fn push_clock(&mut self) {
        let c = Clock {
            slot: 1000,
            epoch_start_timestamp: 0,
            epoch: self.epoch,
            leader_schedule_epoch: self.epoch + 1,
            unix_timestamp: self.now,
        };
        self.svm.set_sysvar(&c);
    }
    pub fn acct(&self, k: &Pubkey) -> Option<Account> {
        self.svm.get_account(k).filter(|a| a.lamports > 0)
    }
    pub fn token_amount(&self, k: &Pubkey) -> Option<u64> {
        let a = self.acct(k)?;
        if a.owner != TOKEN && a.owner != TOKEN22 {
            return None;
        }
        if a.data.len() < 165 {
            return None;
        }
        Some(u64::from_le_bytes(a.data[64..72].try_into().unwrap()))
    }
    pub fn mint_supply(&self, k: &Pubkey) -> u64 {
        let a = self.acct(k).expect("mint");
        u64::from_le_bytes(a.data[36..44].try_into().unwrap())
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.svm.get_balance(k).unwrap_or(0)
    }
}

fn sys(k: u64) -> Account {
    Account { lamports: k, data: vec![], owner: SYSTEM, executable: false, rent_epoch: u64::MAX }
}

pub fn decimals(side: usize, kind: usize) -> u8 {
    [[6, 9, 6, 0, 6, 8], [9, 6, 18, 9, 2, 9]][side][kind]
}
/// mints whose accounts can be frozen by somebody / that can no longer be minted
fn freezable(side: usize, kind: usize) -> bool {
    kind == K_FEEHOOK || (side == 1 && kind == K_SPL) || (side == 0 && kind == K_T22)
}
fn final_supply(side: usize, kind: usize) -> bool {
    kind == K_FLOWHOOK || (side == 0 && kind == K_SPL) || (side == 1 && kind == K_T22)
}

thread_local! {
    static TEMPLATE: RefCell<Option<World>> = const { RefCell::new(None) };
}

pub fn fresh() -> World {
    TEMPLATE.with(|t| {
        let mut t = t.borrow_mut();
        if t.is_none() {
            *t = Some(build_template());
        }
        t.as_ref().unwrap().clone()
    })
}

fn ok(r: Result<TransactionMetadata, TxErr>, what: &str) {
    if let Err(e) = r {
        panic!("template setup failed at {what}: {} {:?}", e.err, e.logs);
    }
}

pub fn hook_validation_key(mint: &Pubkey) -> Pubkey {
    pda_of(&HOOK, &[b"extra-account-metas", mint.as_ref()])
}
pub fn hook_counter_key(mint: &Pubkey) -> Pubkey {
    pda_of(&HOOK, &[b"counter", mint.as_ref()])
}
/// The transfer a call is about to make: source, destination, authority, amount sent.
#[derive(Clone, Copy)]
pub struct Flow {
    pub from: Pubkey,
    pub to: Pubkey,
    pub by: Pubkey,
    pub amt: u64,
}
/// The account the hook of a K_FLOWHOOK mint wants for that transfer.
pub fn flow_key(f: &Flow) -> Pubkey {
    Pubkey::find_program_address(&[b"flow", f.from.as_ref(), f.to.as_ref(), f.by.as_ref(), &f.amt.to_le_bytes()], &HOOK).0
}
/// Accounts a client appends for a hooked mint.
pub fn hook_accounts(mint: &Pubkey, flow: Option<Flow>) -> Vec<AccountMeta> {
    let mut v = vec![
        meta(hook_counter_key(mint), F::W),
        meta(HOOK, F::R),
        meta(hook_validation_key(mint), F::R),
    ];
    v.extend(flow.map(|f| meta(flow_key(&f), F::R)));
    v
}

/// wallets whose Token-2022 accounts require a memo on incoming transfers
pub fn memo_required(w: usize) -> bool {
    w == 1 || w == 2 || w == CREATOR0 || w == RENT_RX
}
/// ... and those that asked for memos once and no longer do
pub fn memo_dropped(w: usize) -> bool {
    w == 2
}
/// wallets whose token accounts have a delegate and a close authority
pub fn has_delegate(w: usize, side: usize) -> bool {
    (side == 0 && (w == 1 || w == 4)) || (side == 1 && (w == CREATOR0 || w == 0)) || w == RENT_RX
}

pub fn create_mint(w: &mut World, mint: Pubkey, program: Pubkey, decimals: u8, freezable: bool, exts: &[t22::extension::ExtensionType], pre: Vec<Instruction>) -> Result<TransactionMetadata, TxErr> {
    let auth = feepayer();
    let len = if program == TOKEN {
        82
    } else {
        t22::extension::ExtensionType::try_calculate_account_len::<t22::state::Mint>(exts).unwrap()
    };
    let mut ixs = vec![solana_sdk::system_instruction::create_account(
        &auth,
        &mint,
        1_000_000_000,
        len as u64,
        &program,
    )];
    ixs.extend(pre);
    ixs.push(t22::instruction::initialize_mint2(&program, &mint, &auth, freezable.then_some(&auth), decimals).unwrap());
    w.send(&ixs)
}

pub fn create_ata(w: &mut World, owner: Pubkey, mint: Pubkey, program: Pubkey) -> Pubkey {
    ok(try_create_ata(w, owner, mint, program), "ata");
    ata(&owner, &mint, &program)
}

pub fn try_create_ata(w: &mut World, owner: Pubkey, mint: Pubkey, program: Pubkey) -> Result<TransactionMetadata, TxErr> {
    let a = ata(&owner, &mint, &program);
    let ix = Instruction {
        program_id: ATA,
        accounts: vec![
            meta(feepayer(), F::WS),
            meta(a, F::W),
            meta(owner, F::R),
            meta(mint, F::R),
            meta(SYSTEM, F::R),
            meta(program, F::R),
        ],
        data: vec![0],
    };
    w.send(&[ix])
}

fn build_template() -> World {
    use t22::extension::ExtensionType as E;
    let mut w = World { svm: rt::new_svm(), now: 1_700_000_000, epoch: 600 };
    w.svm.set_account(feepayer(), sys(u64::MAX / 4)).unwrap();
    for i in 0..N_WALLETS {
        w.svm.set_account(wallet(i), sys(1_000_000_000_000)).unwrap();
    }
    w.svm.add_program(HOOK, include_bytes!("../fixtures/transfer_hook_counter.so"));
    w.push_clock();
    let auth = feepayer();
    for side in 0..2 {
        for kind in 0..MINT_KINDS {
            let mint = mint_key(side, kind);
            let program = mint_program(kind);
            let mut exts = vec![];
            let mut pre = vec![];
            if has_fee(kind) {
                exts.push(E::TransferFeeConfig);
                pre.push(
                    t22::extension::transfer_fee::instruction::initialize_transfer_fee_config(
                        &program,
                        &mint,
                        Some(&auth),
                        Some(&auth),
                        100,
                        1_000_000,
                    )
                    .unwrap(),
                );
            }
            if has_hook(kind) {
                exts.push(E::TransferHook);
                pre.push(
                    t22::extension::transfer_hook::instruction::initialize(
                        &program,
                        &mint,
                        Some(auth),
                        Some(HOOK),
                    )
                    .unwrap(),
                );
            }
            // mints that may get a hook one day, or point to their metadata
            if side == 0 && kind == K_T22 {
                exts.push(E::TransferHook);
                pre.push(t22::extension::transfer_hook::instruction::initialize(&program, &mint, Some(auth), None).unwrap());
            }
            if kind == K_FEE || (side == 0 && kind == K_T22) {
                exts.push(E::MetadataPointer);
                pre.push(
                    t22::extension::metadata_pointer::instruction::initialize(&program, &mint, Some(auth), Some(mint)).unwrap(),
                );
            }
            ok(create_mint(&mut w, mint, program, decimals(side, kind), freezable(side, kind), &exts, pre), "mint");
            if has_hook(kind) {
                let ix = Instruction {
                    program_id: HOOK,
                    accounts: vec![
                        meta(auth, F::WS),
                        meta(hook_validation_key(&mint), F::W),
                        meta(mint, F::R),
                        meta(hook_counter_key(&mint), F::W),
                        meta(TOKEN22, F::R),
                        meta(ATA, F::R),
                        meta(SYSTEM, F::R),
                    ],
                    data: vec![92, 197, 174, 197, 41, 124, 19, 3],
                };
                ok(w.send(&[ix]), "hook init");
                if kind == K_FLOWHOOK {
                    // one more entry: the PDA of "flow", source, destination, authority, amount
                    let k = hook_validation_key(&mint);
                    let mut a = w.acct(&k).unwrap();
                    let mut e = vec![1u8, 1, 4];
                    e.extend(b"flow");
                    e.extend([3, 0, 3, 2, 3, 3, 2, 8, 8]);
                    e.resize(33, 0);
                    e.extend([0, 0]);
                    let n = u32::from_le_bytes(a.data[12..16].try_into().unwrap());
                    let at = 16 + 35 * n as usize;
                    a.data[12..16].copy_from_slice(&(n + 1).to_le_bytes());
                    a.data[8..12].copy_from_slice(&(4 + 35 * (n + 1)).to_le_bytes());
                    a.data.truncate(at);
                    a.data.extend(e);
                    a.lamports = 1_000_000_000;
                    w.svm.set_account(k, a).unwrap();
                }
            }
            for i in 0..N_WALLETS {
                let a = create_ata(&mut w, wallet(i), mint, program);
                let amt = match i {
                    CREATOR0 if side == 1 => 0,
                    CREATOR0 | CREATOR1 => CREATOR_BAL,
                    PAUPER => PAUPER_BAL,
                    RENT_RX => 0,
                    // buyers that never held the token
                    1 | 3 if side == 0 => 0,
                    _ => WALLET_BAL,
                };
                ok(
                    w.send(&[t22::instruction::mint_to(&program, &mint, &a, &auth, &[], amt).unwrap()]),
                    "mint_to",
                );
                if program == TOKEN22 && memo_required(i) {
                    let owner = wallet(i);
                    ok(
                        w.send(&[
                            t22::instruction::reallocate(
                                &program,
                                &a,
                                &auth,
                                &owner,
                                &[],
                                &[E::MemoTransfer],
                            )
                            .unwrap(),
                            t22::extension::memo_transfer::instruction::enable_required_transfer_memos(
                                &program,
                                &a,
                                &owner,
                                &[],
                            )
                            .unwrap(),
                        ]),
                        "memo",
                    );
                    if memo_dropped(i) {
                        ok(
                            w.send(&[t22::extension::memo_transfer::instruction::disable_required_transfer_memos(
                                &program,
                                &a,
                                &owner,
                                &[],
                            )
                            .unwrap()]),
                            "no memo",
                        );
                    }
                }
                if has_delegate(i, side) {
                    let owner = wallet(i);
                    ok(
                        w.send(&[
                            t22::instruction::approve(&program, &a, &key("delegate"), &owner, &[], 5).unwrap(),
                            t22::instruction::set_authority(
                                &program,
                                &a,
                                Some(&wallet(FUNDER)),
                                t22::instruction::AuthorityType::CloseAccount,
                                &owner,
                                &[],
                            )
                            .unwrap(),
                        ]),
                        "delegate",
                    );
                }
            }
            if final_supply(side, kind) {
                ok(
                    w.send(&[t22::instruction::set_authority(
                        &program,
                        &mint,
                        None,
                        t22::instruction::AuthorityType::MintTokens,
                        &auth,
                        &[],
                    )
                    .unwrap()]),
                    "mint authority",
                );
            }
        }
    }
    w
}

/// Overwrite the transfer-fee configuration of a fee mint.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default, serde::Serialize, serde::Deserialize)]
pub struct FeeCfg {
    pub old_bps: u16,
    pub old_max: u64,
    pub new_bps: u16,
    pub new_max: u64,
    pub new_epoch: u64,
}
impl FeeCfg {
    pub fn at(&self, epoch: u64) -> (u16, u64) {
        if epoch >= self.new_epoch {
            (self.new_bps, self.new_max)
        } else {
            (self.old_bps, self.old_max)
        }
    }
}
pub fn set_fee_cfg(w: &mut World, mint: &Pubkey, c: &FeeCfg) {
    use t22::extension::BaseStateWithExtensionsMut;
    let mut a = w.acct(mint).unwrap();
    {
        let mut st = t22::extension::StateWithExtensionsMut::<t22::state::Mint>::unpack(&mut a.data).unwrap();
        let e = st.get_extension_mut::<t22::extension::transfer_fee::TransferFeeConfig>().unwrap();
        e.older_transfer_fee.epoch = 0.into();
        e.older_transfer_fee.maximum_fee = c.old_max.into();
        e.older_transfer_fee.transfer_fee_basis_points = c.old_bps.into();
        e.newer_transfer_fee.epoch = c.new_epoch.into();
        e.newer_transfer_fee.maximum_fee = c.new_max.into();
        e.newer_transfer_fee.transfer_fee_basis_points = c.new_bps.into();
    }
    w.svm.set_account(*mint, a).unwrap();
}

/// Deal out the tokens of a mint anew: wallet i holds `amt(i)`, capped by what is left of 64 bits.
pub fn deal(w: &mut World, mint: &Pubkey, amt: &dyn Fn(usize) -> u64) {
    let mut m = w.acct(mint).unwrap();
    let mut left = u64::MAX;
    for i in (0..N_WALLETS).rev() {
        let k = ata(&wallet(i), mint, &m.owner);
        let Some(mut a) = w.acct(&k) else { continue };
        let x = amt(i).min(left);
        left -= x;
        a.data[64..72].copy_from_slice(&x.to_le_bytes());
        w.svm.set_account(k, a).unwrap();
    }
    m.data[36..44].copy_from_slice(&(u64::MAX - left).to_le_bytes());
    w.svm.set_account(*mint, m).unwrap();
}

// ---------------------------------------------------------------- raw account layouts

pub fn rd_u64(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
pub fn rd_u16(d: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(d[o..o + 2].try_into().unwrap())
}
pub fn rd_u128(d: &[u8], o: usize) -> u128 {
    u128::from_le_bytes(d[o..o + 16].try_into().unwrap())
}
pub fn rd_key(d: &[u8], o: usize) -> Pubkey {
    Pubkey::new_from_array(d[o..o + 32].try_into().unwrap())
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Reg {
    pub supply: u64,
    pub dep: u64,
    pub escrows: u64,
    pub claimed: u64,
    pub refunded: u64,
    pub bmin: u64,
    pub bmax: u64,
    pub fee: u64,
    pub bps: u16,
    pub rest: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Pre {
    pub owner: Pubkey,
    pub quote_mint: Pubkey,
    pub base_mint: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub base: Pubkey,
    pub mode: u8,
    pub wl: u8,
    pub max_cap: u64,
    pub min_cap: u64,
    pub start: u64,
    pub end: u64,
    pub supply: u64,
    pub dep: u64,
    pub escrows: u64,
    pub created: u64,
    pub lock: u64,
    pub vest: u64,
    pub imm_ts: u64,
    pub vest_start: u64,
    pub vest_end: u64,
    pub claimed: u64,
    pub refunded: u64,
    pub fee: u64,
    pub fee_collected: u8,
    pub creator_withdrawn: u8,
    pub base_flag: u8,
    pub quote_flag: u8,
    pub nreg: u8,
    pub unsold_action: u8,
    pub unsold_done: u8,
    pub imm_bps: u16,
    pub raw: Vec<u8>,
    pub pads: Vec<u8>,
    pub regs: Vec<Reg>,
    pub lamports: u64,
}

pub const PRESALE_LEN: usize = 8 + 1264;
pub const ESCROW_LEN: usize = 8 + 192;

pub fn decode_presale(a: &Account) -> Option<Pre> {
    if a.owner != PROGRAM || a.data.len() != PRESALE_LEN || a.data[..8] != disc("account", "Presale") {
        return None;
    }
    let d = &a.data[8..];
    let mut pads = vec![];
    pads.push(d[192]);
    pads.extend_from_slice(&d[195..200]);
    pads.extend_from_slice(&d[288..296]);
    pads.extend_from_slice(&d[337..344]);
    pads.extend_from_slice(&d[400..464]);
    let regs = (0..5)
        .map(|i| {
            let r = &d[464 + 160 * i..464 + 160 * (i + 1)];
            Reg {
                supply: rd_u64(r, 0),
                dep: rd_u64(r, 8),
                escrows: rd_u64(r, 16),
                claimed: rd_u64(r, 24),
                refunded: rd_u64(r, 32),
                bmin: rd_u64(r, 40),
                bmax: rd_u64(r, 48),
                fee: rd_u64(r, 56),
                bps: rd_u16(r, 64),
                rest: r[66..].to_vec(),
            }
        })
        .collect();
    Some(Pre {
        owner: rd_key(d, 0),
        quote_mint: rd_key(d, 32),
        base_mint: rd_key(d, 64),
        base_vault: rd_key(d, 96),
        quote_vault: rd_key(d, 128),
        base: rd_key(d, 160),
        mode: d[193],
        wl: d[194],
        max_cap: rd_u64(d, 200),
        min_cap: rd_u64(d, 208),
        start: rd_u64(d, 216),
        end: rd_u64(d, 224),
        supply: rd_u64(d, 232),
        dep: rd_u64(d, 240),
        escrows: rd_u64(d, 248),
        created: rd_u64(d, 256),
        lock: rd_u64(d, 264),
        vest: rd_u64(d, 272),
        imm_ts: rd_u64(d, 280),
        vest_start: rd_u64(d, 296),
        vest_end: rd_u64(d, 304),
        claimed: rd_u64(d, 312),
        refunded: rd_u64(d, 320),
        fee: rd_u64(d, 328),
        fee_collected: d[336],
        creator_withdrawn: d[344],
        base_flag: d[345],
        quote_flag: d[346],
        nreg: d[347],
        unsold_action: d[348],
        unsold_done: d[349],
        imm_bps: rd_u16(d, 350),
        raw: d[352..400].to_vec(),
        pads,
        regs,
        lamports: a.lamports,
    })
}

/// where the two escrow counts of a presale account are
pub fn escrow_counts(reg: u8) -> [usize; 2] {
    [8 + 248, 8 + 464 + 160 * reg as usize + 16]
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Esc {
    pub presale: Pubkey,
    pub owner: Pubkey,
    pub dep: u64,
    pub claimed: u64,
    pub refunded: u8,
    pub reg: u8,
    pub pending: u64,
    pub cap: u64,
    pub created: u64,
    pub fee: u64,
    pub refreshed: u64,
    pub pads: Vec<u8>,
    pub lamports: u64,
}

pub fn decode_escrow(a: &Account) -> Option<Esc> {
    if a.owner != PROGRAM || a.data.len() != ESCROW_LEN || a.data[..8] != disc("account", "Escrow") {
        return None;
    }
    let d = &a.data[8..];
    let mut pads = d[82..88].to_vec();
    pads.extend_from_slice(&d[128..192]);
    Some(Esc {
        presale: rd_key(d, 0),
        owner: rd_key(d, 32),
        dep: rd_u64(d, 64),
        claimed: rd_u64(d, 72),
        refunded: d[80],
        reg: d[81],
        pending: rd_u64(d, 88),
        cap: rd_u64(d, 96),
        created: rd_u64(d, 104),
        fee: rd_u64(d, 112),
        refreshed: rd_u64(d, 120),
        pads,
        lamports: a.lamports,
    })
}

// ---------------------------------------------------------------- events

/// (event discriminator name resolved, payload)
pub fn events_of(meta: &TransactionMetadata) -> Vec<(String, Vec<u8>)> {
    const EVENT_IX_TAG: [u8; 8] = 0x1d9acb512ea545e4u64.to_le_bytes();
    let mut out = vec![];
    for list in &meta.inner_instructions {
        for ii in list {
            let d = &ii.instruction.data;
            if d.len() >= 16 && d[..8] == EVENT_IX_TAG {
                let dd: [u8; 8] = d[8..16].try_into().unwrap();
                let name = EVENT_NAMES
                    .iter()
                    .find(|n| event_disc(n) == dd)
                    .map(|s| s.to_string())
                    .unwrap_or_else(|| format!("unknown:{dd:?}"));
                out.push((name, d[16..].to_vec()));
            }
        }
    }
    out
}
pub fn event_disc(name: &'static str) -> [u8; 8] {
    thread_local! { static C: RefCell<HashMap<&'static str, [u8; 8]>> = RefCell::new(HashMap::new()); }
    C.with(|c| *c.borrow_mut().entry(name).or_insert_with(|| disc("event", name)))
}
pub const EVENT_NAMES: &[&str] = &[
    "EvtFixedPricePresaleArgsCreate",
    "EvtFixedPricePresaleArgsClose",
    "EvtPresaleVaultCreate",
    "EvtEscrowCreate",
    "EvtMerkleRootConfigCreate",
    "EvtDeposit",
    "EvtWithdraw",
    "EvtClaim",
    "EvtWithdrawRemainingQuote",
    "EvtPerformUnsoldBaseTokenAction",
    "EvtEscrowClose",
    "EvtCreatorWithdraw",
    "EvtEscrowRefresh",
    "EvtOperatorCreate",
    "EvtPermissionedServerMetadataCreate",
    "EvtPermissionedServerMetadataClose",
    "EvtCreatorCollectFee",
    "EvtCloseMerkleRootConfig",
];

// ---------------------------------------------------------------- merkle (independent implementation)

pub fn leaf_hash(owner: &Pubkey, reg: u8, cap: u64) -> [u8; 32] {
    let node = hashv(&[owner.as_ref(), &[reg], &cap.to_le_bytes()]).to_bytes();
    hashv(&[&[0u8], &node]).to_bytes()
}
fn pair(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    if a <= b {
        hashv(&[&[1u8], a, b]).to_bytes()
    } else {
        hashv(&[&[1u8], b, a]).to_bytes()
    }
}
/// root and one proof per leaf (odd node paired with itself)
pub fn merkle(leaves: &[[u8; 32]]) -> ([u8; 32], Vec<Vec<[u8; 32]>>) {
    let mut proofs = vec![vec![]; leaves.len()];
    let mut pos: Vec<usize> = (0..leaves.len()).collect();
    let mut lvl = leaves.to_vec();
    while lvl.len() > 1 {
        let mut next = vec![];
        for i in (0..lvl.len()).step_by(2) {
            let r = if i + 1 < lvl.len() { i + 1 } else { i };
            next.push(pair(&lvl[i], &lvl[r]));
        }
        for (l, p) in pos.iter_mut().enumerate() {
            let sib = if *p % 2 == 1 {
                *p - 1
            } else if *p + 1 < lvl.len() {
                *p + 1
            } else {
                *p
            };
            proofs[l].push(lvl[sib]);
            *p /= 2;
        }
        lvl = next;
    }
    (lvl[0], proofs)
}
pub fn merkle_verify(proof: &[[u8; 32]], root: &[u8; 32], leaf: &[u8; 32]) -> bool {
    let mut h = *leaf;
    for p in proof {
        h = pair(&h, p);
    }
    h == *root
}
