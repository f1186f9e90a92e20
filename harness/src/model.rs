//! Independent reference model: what every operation must do to the observable state.
//! Written from the documented rules, in wide integer arithmetic, without using any code of the
//! program under test.

use crate::world::*;
use ruint::aliases::U256;
use serde::{Deserialize, Serialize};
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeMap;

pub const FIXED: u8 = 0;
pub const PRORATA: u8 = 1;
pub const FCFS: u8 = 2;
pub const WL_NONE: u8 = 0;
pub const WL_MERKLE: u8 = 1;
pub const WL_AUTH: u8 = 2;
pub const DAY30: u64 = 30 * 86400;
pub const YEAR10: u64 = 10 * 365 * 86400;

#[derive(Clone, Debug, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct RegArgs {
    pub bmin: u64,
    pub bmax: u64,
    pub supply: u64,
    pub bps: u16,
}
#[derive(Clone, Debug, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct LockArgs {
    pub bps: u16,
    pub lock: u64,
    pub vest: u64,
    pub ts: u64,
    pub pad: u8,
}
impl LockArgs {
    pub fn is_none(&self) -> bool {
        *self == LockArgs::default()
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct Terms {
    pub mode: u8,
    pub wl: u8,
    pub max_cap: u64,
    pub min_cap: u64,
    pub start: u64,
    pub end: u64,
    pub unsold: u8,
    pub disable_early: u8,
    pub regs: Vec<RegArgs>,
    pub lock: LockArgs,
    pub q_price: u128,
    pub disable_withdraw: u8,
}

pub fn mul_div(a: u128, b: u128, c: u128) -> U256 {
    U256::from(a) * U256::from(b) / U256::from(c)
}
pub fn md64(a: u64, b: u64, c: u64) -> u64 {
    (a as u128 * b as u128 / c as u128) as u64
}
pub fn cdiv(a: U256, b: U256) -> U256 {
    (a + b - U256::from(1)) / b
}
/// base tokens purchasable for `amt` quote at Q64.64 price
pub fn tokens(q: u128, amt: u64) -> u128 {
    ((amt as u128) << 64) / q
}
/// quote needed for `t` base tokens, rounded up
pub fn cost(q: u128, t: u128) -> U256 {
    cdiv(U256::from(t) * U256::from(q), U256::from(1u128 << 64))
}
pub fn to_u64(x: U256) -> Option<u64> {
    if x > U256::from(u64::MAX) {
        None
    } else {
        Some(x.to::<u64>())
    }
}
pub fn fee_of(amt: u64, bps: u16) -> u128 {
    let d = 10_000 - bps as u128;
    (amt as u128 * 10_000 + d - 1) / d - amt as u128
}

/// transfer fee withheld on a transfer of `amt`
pub fn t22_fee(cfg: Option<(u16, u64)>, amt: u64) -> u64 {
    match cfg {
        None => 0,
        Some((bps, max)) => (((amt as u128 * bps as u128) + 9999) / 10000).min(max as u128) as u64,
    }
}
/// amount to send so that exactly `amt` arrives
pub fn t22_incl(cfg: Option<(u16, u64)>, amt: u64) -> Option<u64> {
    if amt == 0 {
        return Some(0);
    }
    match cfg {
        None => Some(amt),
        Some((bps, max)) => {
            if bps == 10_000 {
                return amt.checked_add(max);
            }
            let d = 10_000 - bps as u128;
            let pre = (amt as u128 * 10_000 + d - 1) / d;
            let pre = pre.min(amt as u128 + max as u128);
            u64::try_from(pre).ok()
        }
    }
}

/// Why a parameter set is not acceptable (empty = acceptable).
pub fn invalid_terms(t: &Terms, now: u64) -> Vec<&'static str> {
    let mut v = vec![];
    if t.max_cap < t.min_cap {
        v.push("max cap < min cap");
    }
    if t.min_cap == 0 {
        v.push("min cap 0");
    }
    let start = t.start.max(now);
    if t.end <= start {
        v.push("end <= start");
    } else if t.end - start < 60 || t.end - start > DAY30 {
        v.push("duration");
    }
    if start - now > DAY30 {
        v.push("start too far");
    }
    if t.wl > 2 {
        v.push("whitelist mode");
    }
    if t.mode > 2 {
        v.push("presale mode");
    }
    if t.disable_early > 1 {
        v.push("early end flag");
    }
    if t.regs.is_empty() || t.regs.len() > 5 {
        v.push("registry count");
    }
    let mut sum = 0u128;
    for r in &t.regs {
        if r.bmax < r.bmin || r.bmax == 0 || r.bmax > t.max_cap {
            v.push("buyer cap range");
        }
        if r.supply == 0 {
            v.push("supply 0");
        }
        if r.bps > 5000 {
            v.push("fee bps");
        }
        sum += r.supply as u128;
    }
    if sum > u64::MAX as u128 {
        v.push("total supply");
    }
    if t.regs.len() > 1 && t.wl == WL_NONE {
        v.push("multiple registries permissionless");
    }
    let l = &t.lock;
    if !l.is_none() {
        match l.lock.checked_add(l.vest) {
            Some(d) if d < YEAR10 => {
                if l.bps > 10_000 {
                    v.push("release bps");
                } else if l.bps == 10_000 {
                    if l.lock != 0 || l.vest != 0 {
                        v.push("full release with lock");
                    }
                    if l.ts != 0 && l.ts != t.end {
                        v.push("release ts");
                    }
                } else {
                    if l.lock == 0 && l.vest == 0 {
                        v.push("partial release without vesting");
                    }
                    match t.end.checked_add(d) {
                        None => v.push("vest overflow"),
                        Some(ve) => {
                            if l.ts != 0 {
                                if l.bps == 0 {
                                    if l.ts != t.end {
                                        v.push("release ts");
                                    }
                                } else if l.ts < t.end || l.ts > ve {
                                    v.push("release ts");
                                }
                            }
                        }
                    }
                }
            }
            _ => v.push("lock+vest too long"),
        }
    }
    if !v.is_empty() {
        return v;
    }
    let perm = t.wl != WL_NONE;
    if t.mode == FIXED {
        let q = t.q_price;
        for r in &t.regs {
            for c in [r.bmin, r.bmax] {
                let n = tokens(q, c);
                if n == 0 || n > u64::MAX as u128 {
                    v.push("cap cannot buy");
                }
            }
            if perm && (U256::from(r.bmin) != cost(q, 1) || r.bmax != t.max_cap) {
                v.push("permissioned cap range");
            }
        }
        let m = tokens(q, t.max_cap);
        if m > sum {
            v.push("supply below max cap");
        }
        if m <= tokens(q, t.min_cap) {
            v.push("min/max gap");
        }
    } else if perm {
        for r in &t.regs {
            if r.bmin != 1 || r.bmax != t.max_cap {
                v.push("permissioned cap range");
            }
        }
    }
    v
}

// ------------------------------------------------------------------ snapshot

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Tok {
    /// wallet, side (0 base, 1 quote)
    W(usize, usize),
    BV(usize),
    QV(usize),
}

/// An address of the protocol, whether or not an account exists there yet.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum At {
    Pre(usize),
    Vault(usize, u8),
    Esc(usize, usize, u8),
    Aux(Aux),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Aux {
    FixedArgs(usize),
    Merkle(usize, u64),
    Operator(usize, usize),
    Server(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Snap {
    pub now: u64,
    pub epoch: u64,
    pub pre: Vec<Option<Pre>>,
    pub esc: BTreeMap<(usize, usize, u8), Esc>,
    pub bal: BTreeMap<Tok, u64>,
    pub supply: [u64; 2],
    pub lam: Vec<u64>,
    pub aux: BTreeMap<Aux, (u64, Vec<u8>)>,
    /// per presale and side: mint, authority, delegate, state, close authority of the vault
    pub vault: BTreeMap<(usize, u8), Vec<u8>>,
    /// lamports somebody sent to an address before its account exists
    pub dust: BTreeMap<At, u64>,
}

impl Snap {
    /// lamports of a fresh account and what its payer adds
    pub fn funded(&mut self, at: At, len: usize) -> (u64, u64) {
        let d = self.dust.remove(&at).unwrap_or(0);
        (rent(len).max(d), rent(len).saturating_sub(d))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Phase {
    NotStarted,
    Ongoing,
    Completed,
    Failed,
}

#[derive(Clone, Debug)]
pub struct Env {
    pub base_kind: usize,
    pub quote_kind: usize,
    pub same_mint: bool,
    pub fee: [FeeCfg; 2],
    pub terms: Vec<Option<Terms>>,
    /// effective start recorded at creation
    pub start: Vec<u64>,
    /// whitelist entries per presale and version
    pub lists: Vec<BTreeMap<u64, Vec<(usize, u8, u64)>>>,
    /// creator wallet of each presale (default: one of its own each)
    pub creators: Vec<usize>,
    /// when the scenario begins
    pub t0: u64,
    /// nearly all tokens are with few wallets
    pub rich: bool,
}

impl Env {
    pub fn creator(&self, p: usize) -> usize {
        self.creators.get(p).copied().unwrap_or(CREATOR0 + p)
    }
    /// wallets that may appoint operators
    pub fn appointers(&self) -> Vec<usize> {
        let mut v = vec![CREATOR0, CREATOR1];
        for c in &self.creators {
            if !v.contains(c) {
                v.push(*c);
            }
        }
        v
    }
    /// a creator-like wallet that did not create presale `p`
    pub fn not_creator(&self, p: usize) -> usize {
        let c = self.creator(p);
        [CREATOR0 + (1 - p.min(1)), CREATOR0 + p.min(1)].into_iter().find(|x| *x != c).unwrap()
    }
    pub fn kind(&self, side: usize) -> usize {
        if side == 0 || self.same_mint {
            self.base_kind
        } else {
            self.quote_kind
        }
    }
    pub fn mint(&self, side: usize) -> Pubkey {
        if side == 0 || self.same_mint {
            mint_key(0, self.base_kind)
        } else {
            mint_key(1, self.quote_kind)
        }
    }
    pub fn prog(&self, side: usize) -> Pubkey {
        mint_program(self.kind(side))
    }
    pub fn cs(&self, side: usize) -> usize {
        if self.same_mint {
            0
        } else {
            side
        }
    }
    pub fn presale(&self, p: usize) -> Pubkey {
        presale_key(&base_key(p), &self.mint(0), &self.mint(1))
    }
    pub fn tok_key(&self, t: Tok) -> Pubkey {
        match t {
            Tok::W(w, s) => ata(&wallet(w), &self.mint(s), &self.prog(s)),
            Tok::BV(p) => base_vault_key(&self.presale(p)),
            Tok::QV(p) => quote_vault_key(&self.presale(p)),
        }
    }
    pub fn fee_cfg(&self, side: usize, epoch: u64) -> Option<(u16, u64)> {
        let k = self.kind(side);
        if has_fee(k) {
            Some(self.fee[if self.same_mint { 0 } else { side }].at(epoch))
        } else {
            None
        }
    }
    pub fn t(&self, p: usize) -> &Terms {
        self.terms[p].as_ref().unwrap()
    }

    pub fn phase(&self, s: &Snap, p: usize) -> Phase {
        let t = self.t(p);
        let pr = s.pre[p].as_ref().unwrap();
        if s.now < self.start[p] {
            Phase::NotStarted
        } else if s.now < pr.end {
            Phase::Ongoing
        } else if pr.dep >= t.min_cap {
            Phase::Completed
        } else {
            Phase::Failed
        }
    }

    /// tokens of registry `r` allocated to its buyers
    pub fn reg_sold(&self, s: &Snap, p: usize, r: usize) -> u64 {
        let t = self.t(p);
        let reg = &s.pre[p].as_ref().unwrap().regs[r];
        if reg.dep == 0 {
            return 0;
        }
        if t.mode == FIXED {
            tokens(t.q_price, reg.dep).min(t.regs[r].supply as u128) as u64
        } else {
            t.regs[r].supply
        }
    }

    /// cumulative claimable of an escrow at time `now`
    pub fn cumulative(&self, s: &Snap, p: usize, e: &Esc, now: u64) -> u64 {
        let pr = s.pre[p].as_ref().unwrap();
        let t = self.t(p);
        let regt = pr.regs[e.reg as usize].dep;
        if e.dep == 0 || regt == 0 {
            return 0;
        }
        let sold = self.reg_sold(s, p, e.reg as usize);
        let imm = md64(sold, t.lock.bps as u64, 10_000);
        let vested = sold - imm;
        let a = if now >= pr.imm_ts { md64(imm, e.dep, regt) } else { 0 };
        let b = if now < pr.vest_start {
            0
        } else {
            let rel = if t.lock.vest == 0 {
                vested
            } else {
                md64(vested, (now - pr.vest_start).min(t.lock.vest), t.lock.vest)
            };
            md64(rel, e.dep, regt)
        };
        a + b
    }
    pub fn full_allocation(&self, s: &Snap, p: usize, e: &Esc) -> u64 {
        let pr = s.pre[p].as_ref().unwrap();
        self.cumulative(s, p, e, (pr.vest_start + self.t(p).lock.vest).max(pr.imm_ts))
    }

    /// (refunded quote, refunded fee) totals of registry `r` after an oversubscribed pro-rata sale
    pub fn reg_refund(&self, s: &Snap, p: usize, r: usize) -> (u64, u64) {
        let pr = s.pre[p].as_ref().unwrap();
        let over = pr.dep.saturating_sub(self.t(p).max_cap);
        let reg = &pr.regs[r];
        if pr.dep == 0 || reg.dep == 0 {
            return (0, 0);
        }
        let a = md64(over, reg.dep, pr.dep);
        (a, md64(reg.fee, a, reg.dep))
    }
    /// quote an escrow may take back now (None: not in a refunding state)
    pub fn refund(&self, s: &Snap, p: usize, e: &Esc) -> Option<(u64, u64)> {
        let t = self.t(p);
        match self.phase(s, p) {
            Phase::Failed => Some((e.dep, e.fee)),
            Phase::Completed if t.mode == PRORATA => {
                let pr = s.pre[p].as_ref().unwrap();
                let reg = &pr.regs[e.reg as usize];
                let (a, f) = self.reg_refund(s, p, e.reg as usize);
                let da = if reg.dep > 0 { md64(e.dep, a, reg.dep) } else { 0 };
                let df = if reg.fee > 0 { md64(e.fee, f, reg.fee) } else { 0 };
                Some((da, df))
            }
            _ => None,
        }
    }
    pub fn fee_due(&self, s: &Snap, p: usize) -> u64 {
        let pr = s.pre[p].as_ref().unwrap();
        if self.t(p).mode == PRORATA {
            (0..self.t(p).regs.len()).map(|r| pr.regs[r].fee - self.reg_refund(s, p, r).1).sum()
        } else {
            pr.fee
        }
    }
    pub fn unsold(&self, s: &Snap, p: usize) -> u64 {
        let n = self.t(p).regs.len();
        let sold: u64 = (0..n).map(|r| self.reg_sold(s, p, r)).sum();
        self.t(p).regs.iter().map(|r| r.supply).sum::<u64>() - sold
    }

    pub fn quota(&self, s: &Snap, p: usize, e: &Esc) -> u64 {
        let t = self.t(p);
        let pr = s.pre[p].as_ref().unwrap();
        let ra = &t.regs[e.reg as usize];
        let personal = ra.bmax.min(e.cap).saturating_sub(e.dep);
        let global = t.max_cap.saturating_sub(pr.dep);
        match t.mode {
            PRORATA => personal,
            FCFS => personal.min(global),
            _ => {
                let reg = &pr.regs[e.reg as usize];
                let sold = tokens(t.q_price, reg.dep).min(ra.supply as u128);
                let left = ra.supply as u128 - sold;
                let byreg = to_u64(cost(t.q_price, left)).unwrap_or(u64::MAX);
                personal.min(global).min(byreg)
            }
        }
    }
    /// round a quote amount down to the cost of a whole number of base tokens
    pub fn round_fixed(&self, p: usize, amt: u64) -> u64 {
        let q = self.t(p).q_price;
        to_u64(cost(q, tokens(q, amt))).unwrap()
    }
    pub fn can_withdraw(&self, p: usize) -> bool {
        let t = self.t(p);
        match t.mode {
            PRORATA => true,
            FCFS => false,
            _ => t.disable_withdraw == 0,
        }
    }
}

// ------------------------------------------------------------------ operations

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum How {
    Permissionless,
    Operator { creator: usize, owner: usize },
    /// config of presale `cp`, version; the proof is the one of list entry `entry` (None: empty proof)
    Merkle { cp: usize, version: u64, entry: Option<usize> },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    InitFixedArgs { p: usize, owner: usize, q_price: u128, disable_withdraw: u8 },
    CloseFixedArgs { p: usize, signer: usize },
    Init { p: usize, payer: usize, args_of: Option<usize> },
    CreateEscrow { p: usize, u: usize, reg: u8, cap: u64, how: How },
    Deposit { p: usize, u: usize, reg: u8, amt: u64, payer: usize },
    Withdraw { p: usize, u: usize, reg: u8, amt: u64, dest: Dest },
    Claim { p: usize, u: usize, reg: u8, dest: Dest },
    Refresh { p: usize, u: usize, reg: u8 },
    Refund { p: usize, u: usize, reg: u8, dest: Dest },
    Close { p: usize, u: usize, reg: u8, rx: usize },
    CreatorWithdraw { p: usize, dest: Dest },
    CollectFee { p: usize, dest: Dest },
    Unsold { p: usize },
    MerkleCreate { p: usize, version: u64 },
    MerkleClose { p: usize, version: u64, rx: usize },
    OperatorCreate { c: usize, o: usize },
    OperatorRevoke { c: usize, o: usize },
    ServerCreate { p: usize, url: String },
    ServerClose { p: usize, rx: usize },
    Donate { p: usize, side: usize, amt: u64, from: usize },
    /// somebody sends lamports to an address
    Dust { at: At, amt: u64 },
    /// as if many other wallets had opened an escrow without depositing
    Crowd { p: usize, reg: u8, n: u64 },
    /// as if the presale had been created before release times were stored (it is zero then)
    Legacy { p: usize },
    Time { to: u64 },
    Epoch { to: u64 },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Dest {
    W(usize),
    /// the vault the tokens come from
    Vault,
}

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::InitFixedArgs { .. } => "init_fixed_args",
            Op::CloseFixedArgs { .. } => "close_fixed_args",
            Op::Init { .. } => "init",
            Op::CreateEscrow { .. } => "create_escrow",
            Op::Deposit { .. } => "deposit",
            Op::Withdraw { .. } => "withdraw",
            Op::Claim { .. } => "claim",
            Op::Refresh { .. } => "refresh",
            Op::Refund { .. } => "refund",
            Op::Close { .. } => "close",
            Op::CreatorWithdraw { .. } => "creator_withdraw",
            Op::CollectFee { .. } => "collect_fee",
            Op::Unsold { .. } => "unsold",
            Op::MerkleCreate { .. } => "merkle_create",
            Op::MerkleClose { .. } => "merkle_close",
            Op::OperatorCreate { .. } => "operator_create",
            Op::OperatorRevoke { .. } => "operator_revoke",
            Op::ServerCreate { .. } => "server_create",
            Op::ServerClose { .. } => "server_close",
            Op::Donate { .. } => "donate",
            Op::Dust { .. } => "dust",
            Op::Crowd { .. } => "crowd",
            Op::Legacy { .. } => "legacy",
            Op::Time { .. } => "time",
            Op::Epoch { .. } => "epoch",
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Why {
    /// wrong lifecycle phase
    Phase,
    /// nothing can be deposited / withdrawn (zero amount, quota exhausted)
    Zero,
    /// buyer cap range
    CapRange,
    /// asked for more than the escrow holds
    Balance,
    /// mode does not allow it
    Mode,
    /// once-only action repeated
    Done,
    /// not on the whitelist / no valid operator
    Entitled,
    /// registry index out of range
    RegIndex,
    /// personal cap outside the registry range
    PersonalCap,
    /// account already exists
    Exists,
    /// account does not exist
    Missing,
    /// payer lacks tokens
    Funds,
    /// does not fit in 64 bits
    Overflow,
    /// something is still owed to the escrow
    Owed,
    /// no unsold tokens
    NoUnsold,
    /// invalid parameters
    Params,
    /// wrong signer / authority
    Auth,
    /// tampered accounts
    Tamper,
}

pub enum Pred {
    Fail(Vec<Why>),
    Ok(Box<(Snap, Vec<(&'static str, Vec<u8>)>)>),
}

pub const RENT_BASE: u64 = 128;
pub fn rent(len: usize) -> u64 {
    (RENT_BASE + len as u64) * 3480 * 2
}

#[derive(Default)]
pub struct Ev(pub Vec<u8>);
impl Ev {
    pub fn k(mut self, p: &Pubkey) -> Self {
        self.0.extend_from_slice(p.as_ref());
        self
    }
    pub fn u64(mut self, v: u64) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u128(mut self, v: u128) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u8(mut self, v: u8) -> Self {
        self.0.push(v);
        self
    }
    pub fn b(mut self, v: &[u8]) -> Self {
        self.0.extend_from_slice(v);
        self
    }
}

/// Move `amt` out of `from`; the receiver gets it minus the transfer fee.
thread_local! {
    static LAST_AMT: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
}
/// The amount of the last transfer the model made since the previous call.
pub fn last_amt() -> Option<u64> {
    LAST_AMT.take()
}

fn transfer(env: &Env, s: &mut Snap, side: usize, from: Tok, to: Tok, amt: u64) -> Result<u64, Why> {
    LAST_AMT.set(Some(amt));
    let b = *s.bal.get(&from).ok_or(Why::Missing)?;
    if b < amt {
        return Err(Why::Funds);
    }
    if from == to {
        return Ok(amt);
    }
    let fee = t22_fee(env.fee_cfg(side, s.epoch), amt);
    *s.bal.get_mut(&from).unwrap() -= amt;
    let d = s.bal.get_mut(&to).ok_or(Why::Missing)?;
    *d = d.checked_add(amt - fee).ok_or(Why::Overflow)?;
    Ok(amt - fee)
}

pub fn aux_bytes_fixed_args(q: u128, owner: &Pubkey, presale: &Pubkey, dw: u8) -> Vec<u8> {
    let mut d = disc("account", "FixedPricePresaleExtraArgs").to_vec();
    d.extend_from_slice(&[0u8; 15]);
    d.push(dw);
    d.extend_from_slice(&q.to_le_bytes());
    d.extend_from_slice(owner.as_ref());
    d.extend_from_slice(presale.as_ref());
    d.extend_from_slice(&[0u8; 64]);
    d
}
pub fn aux_bytes_merkle(root: &[u8; 32], presale: &Pubkey, version: u64) -> Vec<u8> {
    let mut d = disc("account", "MerkleRootConfig").to_vec();
    d.extend_from_slice(root);
    d.extend_from_slice(&[0u8; 8]);
    d.extend_from_slice(presale.as_ref());
    d.extend_from_slice(&version.to_le_bytes());
    d.extend_from_slice(&[0u8; 64]);
    d
}
pub fn aux_bytes_operator(owner: &Pubkey, creator: &Pubkey) -> Vec<u8> {
    let mut d = disc("account", "Operator").to_vec();
    d.extend_from_slice(owner.as_ref());
    d.extend_from_slice(creator.as_ref());
    d.extend_from_slice(&[0u8; 64]);
    d
}
pub fn aux_bytes_server(presale: &Pubkey, url: &str) -> Vec<u8> {
    let mut d = disc("account", "PermissionedServerMetadata").to_vec();
    d.extend_from_slice(presale.as_ref());
    d.extend_from_slice(&[0u8; 128]);
    d.extend_from_slice(&(url.len() as u32).to_le_bytes());
    d.extend_from_slice(url.as_bytes());
    d
}

pub fn list_root(list: &[(usize, u8, u64)]) -> ([u8; 32], Vec<Vec<[u8; 32]>>) {
    let leaves: Vec<_> = list.iter().map(|(w, r, c)| leaf_hash(&wallet(*w), *r, *c)).collect();
    if leaves.is_empty() {
        return ([7u8; 32], vec![]);
    }
    merkle(&leaves)
}

impl Env {
    pub fn dest_tok(&self, d: Dest, side: usize, vault: Tok) -> Tok {
        match d {
            Dest::W(w) => Tok::W(w, self.cs(side)),
            Dest::Vault => vault,
        }
    }

    pub fn predict(&self, s: &Snap, op: &Op) -> Pred {
        let mut why = vec![];
        let mut n = s.clone();
        let mut ev: Vec<(&'static str, Vec<u8>)> = vec![];
        self.apply(s, op, &mut n, &mut ev, &mut why);
        if why.is_empty() {
            Pred::Ok(Box::new((n, ev)))
        } else {
            why.sort();
            why.dedup();
            Pred::Fail(why)
        }
    }

    fn apply(&self, s: &Snap, op: &Op, n: &mut Snap, ev: &mut Vec<(&'static str, Vec<u8>)>, why: &mut Vec<Why>) {
        match op {
            Op::Time { to } => n.now = (*to).max(s.now),
            Op::Dust { at, amt } => {
                let have = match at {
                    At::Pre(p) => n.pre[*p].as_mut().map(|x| &mut x.lamports),
                    At::Esc(p, u, r) => n.esc.get_mut(&(*p, *u, *r)).map(|x| &mut x.lamports),
                    At::Aux(a) => n.aux.get_mut(a).map(|x| &mut x.0),
                    At::Vault(..) => None,
                };
                match have {
                    Some(l) => *l += amt,
                    None if matches!(at, At::Vault(p, _) if s.pre[*p].is_some()) => {}
                    None => *n.dust.entry(*at).or_default() += amt,
                }
            }
            Op::Crowd { p, reg, n: k } => {
                let m = n.pre[*p].as_mut().unwrap();
                m.escrows += k;
                m.regs[*reg as usize].escrows += k;
            }
            Op::Legacy { p } => n.pre[*p].as_mut().unwrap().imm_ts = 0,
            Op::Epoch { to } => n.epoch = (*to).max(s.epoch),
            Op::Donate { p, side, amt, from } => {
                let to = if *side == 0 { Tok::BV(*p) } else { Tok::QV(*p) };
                if let Err(e) = transfer(self, n, *side, Tok::W(*from, self.cs(*side)), to, *amt) {
                    why.push(e);
                }
            }
            Op::InitFixedArgs { p, owner, q_price, disable_withdraw } => {
                if s.aux.contains_key(&Aux::FixedArgs(*p)) {
                    why.push(Why::Exists);
                }
                if *q_price == 0 || *disable_withdraw > 1 {
                    why.push(Why::Params);
                }
                let pk = self.presale(*p);
                let (have, pay) = n.funded(At::Aux(Aux::FixedArgs(*p)), 168);
                n.aux.insert(
                    Aux::FixedArgs(*p),
                    (have, aux_bytes_fixed_args(*q_price, &wallet(*owner), &pk, *disable_withdraw)),
                );
                n.lam[FUNDER] -= pay;
                ev.push(("EvtFixedPricePresaleArgsCreate", Ev::default().k(&pk).u128(*q_price).0));
            }
            Op::CloseFixedArgs { p, signer } => {
                match s.aux.get(&Aux::FixedArgs(*p)) {
                    None => why.push(Why::Missing),
                    Some((l, d)) => {
                        if rd_key(d, 8 + 32) != wallet(*signer) {
                            why.push(Why::Auth);
                        }
                        n.lam[*signer] += l;
                    }
                }
                n.aux.remove(&Aux::FixedArgs(*p));
                let pk = self.presale(*p);
                ev.push((
                    "EvtFixedPricePresaleArgsClose",
                    Ev::default().k(&pk).k(&wallet(*signer)).k(&fixed_args_key(&pk)).0,
                ));
            }
            Op::Init { p, payer, args_of } => self.apply_init(s, *p, *payer, *args_of, n, ev, why),
            Op::CreateEscrow { p, u, reg, cap, how } => {
                let Some(pr) = &s.pre[*p] else { return why.push(Why::Missing) };
                let t = self.t(*p);
                let mut cap = *cap;
                let nreg = t.regs.len();
                match how {
                    How::Permissionless => {
                        if t.wl != WL_NONE {
                            why.push(Why::Entitled);
                        }
                        cap = t.regs[0].bmax;
                    }
                    How::Operator { creator, owner } => {
                        if t.wl != WL_AUTH {
                            why.push(Why::Entitled);
                        }
                        if !s.aux.contains_key(&Aux::Operator(*creator, *owner)) {
                            why.push(Why::Missing);
                        }
                        if *creator != self.creator(*p) {
                            why.push(Why::Entitled);
                        }
                    }
                    How::Merkle { cp, version, entry } => {
                        if t.wl != WL_MERKLE {
                            why.push(Why::Entitled);
                        }
                        if cp != p {
                            why.push(Why::Entitled);
                        }
                        match s.aux.get(&Aux::Merkle(*cp, *version)) {
                            None => why.push(Why::Missing),
                            Some((_, d)) => {
                                let root: [u8; 32] = d[8..40].try_into().unwrap();
                                let empty = vec![];
                                let list = self.lists[*cp].get(version).unwrap_or(&empty);
                                let (_, proofs) = list_root(list);
                                let proof = entry.and_then(|i| proofs.get(i).cloned()).unwrap_or_default();
                                // membership decided from the list itself, plus the hash chain
                                // (identical leaves share proofs)
                                let member = list.iter().any(|(w, r, c)| w == u && r == reg && *c == cap);
                                let chain = merkle_verify(&proof, &root, &leaf_hash(&wallet(*u), *reg, cap));
                                if !(member && chain) {
                                    why.push(Why::Entitled);
                                }
                            }
                        }
                    }
                }
                if self.phase(s, *p) != Phase::Ongoing {
                    why.push(Why::Phase);
                }
                if *reg as usize >= nreg {
                    why.push(Why::RegIndex);
                } else if *how != How::Permissionless {
                    let r = &t.regs[*reg as usize];
                    if cap == 0 || cap < r.bmin || cap > r.bmax {
                        why.push(Why::PersonalCap);
                    }
                }
                let k = (*p, *u, *reg);
                if s.esc.contains_key(&k) {
                    why.push(Why::Exists);
                }
                if !why.is_empty() {
                    return;
                }
                let _ = pr;
                let pk = self.presale(*p);
                let (have, pay) = n.funded(At::Esc(*p, *u, *reg), ESCROW_LEN);
                n.esc.insert(
                    k,
                    Esc {
                        presale: pk,
                        owner: wallet(*u),
                        reg: *reg,
                        cap,
                        created: s.now,
                        refreshed: s.now,
                        pads: vec![0; 70],
                        lamports: have,
                        ..Default::default()
                    },
                );
                n.lam[FUNDER] -= pay;
                let m = n.pre[*p].as_mut().unwrap();
                m.escrows += 1;
                m.regs[*reg as usize].escrows += 1;
                ev.push(("EvtEscrowCreate", Ev::default().k(&pk).k(&wallet(*u)).u8(t.wl).u64(m.escrows).0));
            }
            Op::Deposit { p, u, reg, amt, payer } => {
                let Some(_) = &s.pre[*p] else { return why.push(Why::Missing) };
                let t = self.t(*p);
                let k = (*p, *u, *reg);
                let Some(e) = s.esc.get(&k) else { return why.push(Why::Missing) };
                if self.phase(s, *p) != Phase::Ongoing {
                    why.push(Why::Phase);
                }
                let mut a = self.quota(s, *p, e).min(*amt);
                if t.mode == FIXED {
                    a = self.round_fixed(*p, a);
                }
                if a == 0 {
                    why.push(Why::Zero);
                    return;
                }
                let ra = &t.regs[*reg as usize];
                let fee = fee_of(a, ra.bps);
                if fee + a as u128 > u64::MAX as u128 {
                    why.push(Why::Overflow);
                    return;
                }
                let fee = fee as u64;
                let newdep = e.dep + a;
                if newdep < ra.bmin || newdep > ra.bmax {
                    why.push(Why::CapRange);
                }
                let m = n.pre[*p].as_mut().unwrap();
                m.dep += a;
                m.fee += fee;
                m.regs[*reg as usize].dep += a;
                m.regs[*reg as usize].fee += fee;
                let total = m.dep;
                if t.mode != PRORATA && t.disable_early == 0 && m.dep >= t.max_cap {
                    let delta = m.imm_ts.saturating_sub(m.end);
                    m.end = s.now;
                    m.vest_start = s.now + t.lock.lock;
                    m.vest_end = m.vest_start + t.lock.vest;
                    m.imm_ts = s.now + delta;
                }
                let ne = n.esc.get_mut(&k).unwrap();
                ne.dep += a;
                ne.fee += fee;
                let edep = ne.dep;
                match t22_incl(self.fee_cfg(1, s.epoch), a + fee) {
                    None => why.push(Why::Overflow),
                    Some(x) => {
                        if let Err(e) = transfer(self, n, 1, Tok::W(*payer, self.cs(1)), Tok::QV(*p), x) {
                            why.push(e);
                        }
                    }
                }
                let pk = self.presale(*p);
                ev.push((
                    "EvtDeposit",
                    Ev::default()
                        .k(&pk)
                        .k(&escrow_key(&pk, &wallet(*u), *reg))
                        .u64(a)
                        .u64(edep)
                        .u64(total)
                        .k(&wallet(*payer))
                        .u64(fee)
                        .0,
                ));
            }
            Op::Withdraw { p, u, reg, amt, dest } => {
                let Some(_) = &s.pre[*p] else { return why.push(Why::Missing) };
                let t = self.t(*p);
                let k = (*p, *u, *reg);
                let Some(e) = s.esc.get(&k) else { return why.push(Why::Missing) };
                if self.phase(s, *p) != Phase::Ongoing {
                    why.push(Why::Phase);
                }
                if *amt == 0 {
                    why.push(Why::Zero);
                }
                if *amt > e.dep {
                    why.push(Why::Balance);
                }
                if !self.can_withdraw(*p) {
                    why.push(Why::Mode);
                }
                if !why.is_empty() {
                    return;
                }
                let mut a = *amt;
                if t.mode == FIXED && a != e.dep {
                    a = self.round_fixed(*p, a);
                }
                if a == 0 {
                    return why.push(Why::Zero);
                }
                let left = e.dep - a;
                if left != 0 && left < t.regs[*reg as usize].bmin {
                    why.push(Why::CapRange);
                }
                let m = n.pre[*p].as_mut().unwrap();
                m.dep -= a;
                m.regs[*reg as usize].dep -= a;
                let total = m.dep;
                n.esc.get_mut(&k).unwrap().dep -= a;
                let to = self.dest_tok(*dest, 1, Tok::QV(*p));
                if let Err(e) = transfer(self, n, 1, Tok::QV(*p), to, a) {
                    why.push(e);
                }
                let pk = self.presale(*p);
                ev.push((
                    "EvtWithdraw",
                    Ev::default()
                        .k(&pk)
                        .k(&escrow_key(&pk, &wallet(*u), *reg))
                        .u64(a - t22_fee(self.fee_cfg(1, s.epoch), a))
                        .u64(left)
                        .u64(total)
                        .k(&wallet(*u))
                        .0,
                ));
            }
            Op::Claim { p, u, reg, dest } => {
                let Some(_) = &s.pre[*p] else { return why.push(Why::Missing) };
                let k = (*p, *u, *reg);
                let Some(e) = s.esc.get(&k) else { return why.push(Why::Missing) };
                if self.phase(s, *p) != Phase::Completed {
                    return why.push(Why::Phase);
                }
                let cum = self.cumulative(s, *p, e, s.now);
                let pay = cum - e.claimed;
                let ne = n.esc.get_mut(&k).unwrap();
                ne.claimed = cum;
                ne.pending = 0;
                ne.refreshed = s.now;
                let m = n.pre[*p].as_mut().unwrap();
                m.claimed += pay;
                m.regs[*reg as usize].claimed += pay;
                let total = m.claimed;
                if pay > 0 {
                    let to = self.dest_tok(*dest, 0, Tok::BV(*p));
                    if let Err(e) = transfer(self, n, 0, Tok::BV(*p), to, pay) {
                        why.push(e);
                    }
                }
                let pk = self.presale(*p);
                ev.push((
                    "EvtClaim",
                    Ev::default()
                        .k(&pk)
                        .k(&escrow_key(&pk, &wallet(*u), *reg))
                        .u64(pay - t22_fee(self.fee_cfg(0, s.epoch), pay))
                        .u64(cum)
                        .u64(total)
                        .k(&wallet(*u))
                        .0,
                ));
            }
            Op::Refresh { p, u, reg } => {
                let Some(_) = &s.pre[*p] else { return why.push(Why::Missing) };
                let k = (*p, *u, *reg);
                let Some(e) = s.esc.get(&k) else { return why.push(Why::Missing) };
                let ne = n.esc.get_mut(&k).unwrap();
                if self.phase(s, *p) == Phase::Completed {
                    ne.pending = self.cumulative(s, *p, e, s.now) - e.claimed;
                    ne.refreshed = s.now;
                }
                let pk = self.presale(*p);
                ev.push((
                    "EvtEscrowRefresh",
                    Ev::default()
                        .k(&pk)
                        .k(&escrow_key(&pk, &wallet(*u), *reg))
                        .k(&wallet(*u))
                        .u64(s.now)
                        .u64(ne.pending)
                        .0,
                ));
            }
            Op::Refund { p, u, reg, dest } => {
                let Some(_) = &s.pre[*p] else { return why.push(Why::Missing) };
                let k = (*p, *u, *reg);
                let Some(e) = s.esc.get(&k) else { return why.push(Why::Missing) };
                if e.refunded != 0 {
                    why.push(Why::Done);
                }
                let Some((a, f)) = self.refund(s, *p, e) else { return why.push(Why::Phase) };
                let x = a + f;
                n.esc.get_mut(&k).unwrap().refunded = 1;
                let m = n.pre[*p].as_mut().unwrap();
                m.refunded += x;
                m.regs[*reg as usize].refunded += x;
                let total = m.refunded;
                if x > 0 {
                    let to = self.dest_tok(*dest, 1, Tok::QV(*p));
                    if let Err(e) = transfer(self, n, 1, Tok::QV(*p), to, x) {
                        why.push(e);
                    }
                }
                let pk = self.presale(*p);
                ev.push((
                    "EvtWithdrawRemainingQuote",
                    Ev::default()
                        .k(&pk)
                        .k(&escrow_key(&pk, &wallet(*u), *reg))
                        .k(&wallet(*u))
                        .u64(x - t22_fee(self.fee_cfg(1, s.epoch), x))
                        .u64(total)
                        .0,
                ));
            }
            Op::Close { p, u, reg, rx } => {
                let Some(_) = &s.pre[*p] else { return why.push(Why::Missing) };
                let k = (*p, *u, *reg);
                let Some(e) = s.esc.get(&k) else { return why.push(Why::Missing) };
                match self.phase(s, *p) {
                    Phase::NotStarted => why.push(Why::Phase),
                    Phase::Ongoing => {
                        if e.dep != 0 || e.fee != 0 {
                            why.push(Why::Owed);
                        }
                    }
                    Phase::Failed => {
                        if e.refunded == 0 && (e.dep != 0 || e.fee != 0) {
                            why.push(Why::Owed);
                        }
                    }
                    Phase::Completed => {
                        if let Some((a, f)) = self.refund(s, *p, e) {
                            if (a > 0 || f > 0) && e.refunded == 0 {
                                why.push(Why::Owed);
                            }
                        }
                        if e.claimed != self.full_allocation(s, *p, e) {
                            why.push(Why::Owed);
                        }
                    }
                }
                let m = n.pre[*p].as_mut().unwrap();
                m.escrows = m.escrows.wrapping_sub(1);
                let r = &mut m.regs[*reg as usize];
                r.escrows = r.escrows.wrapping_sub(1);
                n.lam[*rx] += e.lamports;
                n.esc.remove(&k);
                let pk = self.presale(*p);
                ev.push((
                    "EvtEscrowClose",
                    Ev::default()
                        .k(&pk)
                        .k(&escrow_key(&pk, &wallet(*u), *reg))
                        .k(&wallet(*u))
                        .k(&wallet(*rx))
                        .0,
                ));
            }
            Op::CreatorWithdraw { p, dest } => {
                let Some(pr) = &s.pre[*p] else { return why.push(Why::Missing) };
                let t = self.t(*p);
                if pr.creator_withdrawn != 0 {
                    why.push(Why::Done);
                }
                let (side, from, amt, prog) = match self.phase(s, *p) {
                    Phase::Completed => (1, Tok::QV(*p), pr.dep.min(t.max_cap), 2u8),
                    Phase::Failed => (0, Tok::BV(*p), t.regs.iter().map(|r| r.supply).sum(), 3u8),
                    _ => return why.push(Why::Phase),
                };
                n.pre[*p].as_mut().unwrap().creator_withdrawn = 1;
                let to = self.dest_tok(*dest, side, from);
                if let Err(e) = transfer(self, n, side, from, to, amt) {
                    why.push(e);
                }
                ev.push((
                    "EvtCreatorWithdraw",
                    Ev::default()
                        .k(&self.presale(*p))
                        .u64(amt - t22_fee(self.fee_cfg(side, s.epoch), amt))
                        .k(&wallet(self.creator(*p)))
                        .u8(prog)
                        .0,
                ));
            }
            Op::CollectFee { p, dest } => {
                let Some(pr) = &s.pre[*p] else { return why.push(Why::Missing) };
                if pr.fee_collected != 0 {
                    why.push(Why::Done);
                }
                if self.phase(s, *p) != Phase::Completed {
                    return why.push(Why::Phase);
                }
                let amt = self.fee_due(s, *p);
                n.pre[*p].as_mut().unwrap().fee_collected = 1;
                if amt > 0 {
                    let to = self.dest_tok(*dest, 1, Tok::QV(*p));
                    if let Err(e) = transfer(self, n, 1, Tok::QV(*p), to, amt) {
                        why.push(e);
                    }
                }
                ev.push((
                    "EvtCreatorCollectFee",
                    Ev::default()
                        .k(&self.presale(*p))
                        .k(&wallet(self.creator(*p)))
                        .u64(amt - t22_fee(self.fee_cfg(1, s.epoch), amt))
                        .0,
                ));
            }
            Op::Unsold { p } => {
                let Some(pr) = &s.pre[*p] else { return why.push(Why::Missing) };
                let t = self.t(*p);
                if pr.unsold_done != 0 {
                    why.push(Why::Done);
                }
                if self.phase(s, *p) != Phase::Completed {
                    return why.push(Why::Phase);
                }
                let amt = self.unsold(s, *p);
                if amt == 0 {
                    return why.push(Why::NoUnsold);
                }
                n.pre[*p].as_mut().unwrap().unsold_done = 1;
                let burn = t.unsold == 1;
                if burn {
                    let b = n.bal.get_mut(&Tok::BV(*p)).unwrap();
                    if *b < amt {
                        why.push(Why::Funds);
                    } else {
                        *b -= amt;
                    }
                    n.supply[0] = n.supply[0].wrapping_sub(amt);
                    if self.same_mint {
                        n.supply[1] = n.supply[0];
                    }
                } else if let Err(e) = transfer(self, n, 0, Tok::BV(*p), Tok::W(self.creator(*p), self.cs(0)), amt) {
                    why.push(e);
                }
                ev.push((
                    "EvtPerformUnsoldBaseTokenAction",
                    Ev::default().k(&self.presale(*p)).u64(amt).u8(burn as u8).0,
                ));
            }
            Op::MerkleCreate { p, version } => {
                let Some(_) = &s.pre[*p] else { return why.push(Why::Missing) };
                if s.aux.contains_key(&Aux::Merkle(*p, *version)) {
                    why.push(Why::Exists);
                }
                if !matches!(self.phase(s, *p), Phase::NotStarted | Phase::Ongoing) {
                    why.push(Why::Phase);
                }
                if self.t(*p).wl != WL_MERKLE {
                    why.push(Why::Mode);
                }
                let empty = vec![];
                let (root, _) = list_root(self.lists[*p].get(version).unwrap_or(&empty));
                let pk = self.presale(*p);
                let (have, pay) = n.funded(At::Aux(Aux::Merkle(*p, *version)), 152);
                n.aux.insert(Aux::Merkle(*p, *version), (have, aux_bytes_merkle(&root, &pk, *version)));
                let c = self.creator(*p);
                n.lam[c] -= pay;
                ev.push((
                    "EvtMerkleRootConfigCreate",
                    Ev::default()
                        .k(&wallet(c))
                        .k(&merkle_config_key(&pk, *version))
                        .k(&pk)
                        .u64(*version)
                        .b(&root)
                        .0,
                ));
            }
            Op::MerkleClose { p, version, rx } => {
                let Some(_) = &s.pre[*p] else { return why.push(Why::Missing) };
                match s.aux.get(&Aux::Merkle(*p, *version)) {
                    None => why.push(Why::Missing),
                    Some((l, _)) => n.lam[*rx] += l,
                }
                if self.phase(s, *p) == Phase::Ongoing {
                    why.push(Why::Phase);
                }
                n.aux.remove(&Aux::Merkle(*p, *version));
                let pk = self.presale(*p);
                ev.push((
                    "EvtCloseMerkleRootConfig",
                    Ev::default()
                        .k(&pk)
                        .k(&merkle_config_key(&pk, *version))
                        .k(&wallet(self.creator(*p)))
                        .0,
                ));
            }
            Op::OperatorCreate { c, o } => {
                if s.aux.contains_key(&Aux::Operator(*c, *o)) {
                    why.push(Why::Exists);
                }
                let (have, pay) = n.funded(At::Aux(Aux::Operator(*c, *o)), 136);
                n.aux.insert(Aux::Operator(*c, *o), (have, aux_bytes_operator(&wallet(*o), &wallet(*c))));
                n.lam[*c] -= pay;
                ev.push((
                    "EvtOperatorCreate",
                    Ev::default()
                        .k(&wallet(*c))
                        .k(&operator_key(&wallet(*c), &wallet(*o)))
                        .k(&wallet(*o))
                        .0,
                ));
            }
            Op::OperatorRevoke { c, o } => {
                match s.aux.get(&Aux::Operator(*c, *o)) {
                    None => why.push(Why::Missing),
                    Some((l, _)) => n.lam[*c] += l,
                }
                n.aux.remove(&Aux::Operator(*c, *o));
            }
            Op::ServerCreate { p, url } => {
                let Some(_) = &s.pre[*p] else { return why.push(Why::Missing) };
                if s.aux.contains_key(&Aux::Server(*p)) {
                    why.push(Why::Exists);
                }
                if self.t(*p).wl == WL_NONE {
                    why.push(Why::Mode);
                }
                if !matches!(self.phase(s, *p), Phase::NotStarted | Phase::Ongoing) {
                    why.push(Why::Phase);
                }
                let pk = self.presale(*p);
                let b = aux_bytes_server(&pk, url);
                let c = self.creator(*p);
                let (have, pay) = n.funded(At::Aux(Aux::Server(*p)), b.len());
                n.lam[c] -= pay;
                n.aux.insert(Aux::Server(*p), (have, b));
                ev.push((
                    "EvtPermissionedServerMetadataCreate",
                    Ev::default()
                        .k(&pk)
                        .k(&server_meta_key(&pk))
                        .b(&(url.len() as u32).to_le_bytes())
                        .b(url.as_bytes())
                        .0,
                ));
            }
            Op::ServerClose { p, rx } => {
                match s.aux.get(&Aux::Server(*p)) {
                    None => why.push(Why::Missing),
                    Some((l, _)) => n.lam[*rx] += l,
                }
                n.aux.remove(&Aux::Server(*p));
                let pk = self.presale(*p);
                ev.push(("EvtPermissionedServerMetadataClose", Ev::default().k(&pk).k(&server_meta_key(&pk)).0));
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn apply_init(
        &self,
        s: &Snap,
        p: usize,
        payer: usize,
        args_of: Option<usize>,
        n: &mut Snap,
        ev: &mut Vec<(&'static str, Vec<u8>)>,
        why: &mut Vec<Why>,
    ) {
        let t = self.t(p);
        if s.pre[p].is_some() {
            why.push(Why::Exists);
        }
        let mut dw = 0;
        let mut q = 0u128;
        if t.mode == FIXED {
            match args_of {
                None => why.push(Why::Missing),
                Some(ap) => match s.aux.get(&Aux::FixedArgs(ap)) {
                    None => why.push(Why::Missing),
                    Some((_, d)) => {
                        q = rd_u128(d, 8 + 16);
                        dw = d[8 + 15];
                        if ap != p {
                            why.push(Why::Params);
                        }
                    }
                },
            }
        }
        if !why.is_empty() {
            return;
        }
        let mut tt = t.clone();
        tt.q_price = q;
        if !invalid_terms(&tt, s.now).is_empty() {
            return why.push(Why::Params);
        }
        let supply: u64 = t.regs.iter().map(|r| r.supply).sum();
        let pk = self.presale(p);
        let start = t.start.max(s.now);
        let mut raw = vec![0u8; 48];
        match t.mode {
            FIXED => {
                raw[..16].copy_from_slice(&q.to_le_bytes());
                raw[16] = dw;
                raw[17] = t.disable_early;
            }
            FCFS => raw[0] = t.disable_early,
            _ => {}
        }
        let none = t.lock.is_none();
        let mut regs: Vec<Reg> = t
            .regs
            .iter()
            .map(|r| Reg {
                supply: r.supply,
                bmin: r.bmin,
                bmax: r.bmax,
                bps: r.bps,
                rest: vec![0; 94],
                ..Default::default()
            })
            .collect();
        while regs.len() < 5 {
            regs.push(Reg { rest: vec![0; 94], ..Default::default() });
        }
        let c = wallet(self.creator(p));
        n.pre[p] = Some(Pre {
            owner: c,
            quote_mint: self.mint(1),
            base_mint: self.mint(0),
            base_vault: base_vault_key(&pk),
            quote_vault: quote_vault_key(&pk),
            base: base_key(p),
            mode: t.mode,
            wl: t.wl,
            max_cap: t.max_cap,
            min_cap: t.min_cap,
            start,
            end: t.end,
            supply,
            created: s.now,
            lock: t.lock.lock,
            vest: t.lock.vest,
            imm_ts: t.lock.ts,
            vest_start: if none { 0 } else { t.end + t.lock.lock },
            vest_end: if none { 0 } else { t.end + t.lock.lock + t.lock.vest },
            base_flag: (self.kind(0) != K_SPL) as u8,
            quote_flag: (self.kind(1) != K_SPL) as u8,
            nreg: t.regs.len() as u8,
            unsold_action: t.unsold,
            imm_bps: t.lock.bps,
            raw,
            pads: vec![0; 85],
            regs,
            lamports: rent(PRESALE_LEN).max(s.dust.get(&At::Pre(p)).copied().unwrap_or(0)),
            ..Default::default()
        });
        n.bal.insert(Tok::BV(p), 0);
        n.bal.insert(Tok::QV(p), 0);
        match t22_incl(self.fee_cfg(0, s.epoch), supply) {
            None => why.push(Why::Overflow),
            Some(x) => {
                if let Err(e) = transfer(self, n, 0, Tok::W(payer, self.cs(0)), Tok::BV(p), x) {
                    why.push(e);
                }
            }
        }
        let mut e = Ev::default()
            .k(&self.mint(0))
            .k(&self.mint(1))
            .b(&(t.regs.len() as u32).to_le_bytes());
        for r in &t.regs {
            e = e
                .u64(r.bmin)
                .u64(r.bmax)
                .u64(r.supply)
                .b(&r.bps.to_le_bytes())
                .b(&[0u8; 32]);
        }
        let e = e
            .u64(t.lock.lock)
            .u64(t.lock.vest)
            .u8(t.wl)
            .u8(t.mode)
            .u64(t.start)
            .u64(t.end)
            .u64(t.max_cap)
            .u64(t.min_cap);
        ev.push(("EvtPresaleVaultCreate", e.0));
    }
}
