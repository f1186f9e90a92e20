//! Executes model operations on the real program, snapshots the observable state and compares it
//! with the reference model's prediction.

use crate::model::*;
use crate::world::*;
use anchor_spl::token_2022::spl_token_2022 as t22;
use serde::Serialize;
use solana_sdk::account::Account;
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};

pub const OPS: [usize; 3] = [OPOWNER0, OPOWNER1, CREATOR0];

#[derive(Clone, Debug, Serialize)]
pub struct Finding {
    pub step: usize,
    pub op: String,
    pub what: String,
    pub tags: BTreeSet<&'static str>,
}

pub fn slices(w: Vec<(u8, u8)>) -> Vec<u8> {
    let mut d = (w.len() as u32).to_le_bytes().to_vec();
    for (t, l) in w {
        d.push(t);
        d.push(l);
    }
    d
}

/// What the hook of the mint wants to know about the transfer the call makes.
fn flow_of(ix: &Ix, env: &Env, s: &Snap, op: &Op, side: usize) -> Option<Flow> {
    if env.kind(side) != K_FLOWHOOK {
        return None;
    }
    let k = |rs: &[&str]| rs.iter().find_map(|r| ix.get(r)).map(|m| m.pubkey).unwrap_or_default();
    let vault = k(&["vault", if side == 0 { "base_token_vault" } else { "quote_token_vault" }]);
    let (from, to, by) = match op {
        Op::Init { .. } | Op::Deposit { .. } => (k(&["payer_token"]), vault, k(&["payer"])),
        _ => (vault, k(&["dest", "owner_token", "creator_base_token"]), authority()),
    };
    last_amt();
    let _ = predict_safe(env, s, op);
    let amt = last_amt().unwrap_or(match op {
        Op::Deposit { amt, .. } | Op::Withdraw { amt, .. } => *amt,
        _ => 0,
    });
    Some(Flow { from, to, by, amt })
}

fn hook_tail(ix: Ix, env: &Env, s: &Snap, op: &Op, side: usize) -> Ix {
    let m = env.mint(side);
    if has_hook(env.kind(side)) {
        let h = hook_accounts(&m, flow_of(&ix, env, s, op, side));
        let mut ix = ix.bytes(&slices(vec![(side as u8, h.len() as u8)]));
        ix.rest.extend(h);
        ix
    } else {
        ix.bytes(&slices(vec![]))
    }
}

pub fn presale_args_bytes(ix: Ix, t: &Terms) -> Ix {
    let mut ix = ix
        .u64(t.max_cap)
        .u64(t.min_cap)
        .u64(t.start)
        .u64(t.end)
        .u8(t.wl)
        .u8(t.mode)
        .u8(t.unsold)
        .u8(t.disable_early)
        .bytes(&[0u8; 30])
        .u16(t.lock.bps)
        .u64(t.lock.lock)
        .u64(t.lock.vest)
        .u64(t.lock.ts)
        .bytes(&[t.lock.pad; 24])
        .bytes(&[0u8; 32])
        .u32(t.regs.len() as u32);
    for r in &t.regs {
        ix = ix.u64(r.bmin).u64(r.bmax).u64(r.supply).u16(r.bps).bytes(&[0u8; 32]);
    }
    ix
}

/// Build the instruction for an operation, exactly as a client would.
pub fn build(env: &Env, s: &Snap, op: &Op) -> Option<Ix> {
    use F::*;
    let auth = authority();
    Some(match op {
        Op::Time { .. } | Op::Epoch { .. } | Op::Donate { .. } | Op::Dust { .. } | Op::Crowd { .. } | Op::Legacy { .. } => return None,
        Op::InitFixedArgs { p, owner, q_price, disable_withdraw } => {
            let pk = env.presale(*p);
            Ix::new("initialize_fixed_price_presale_args")
                .acc("args", fixed_args_key(&pk), W)
                .acc("owner", wallet(*owner), R)
                .acc("payer", wallet(FUNDER), WS)
                .acc("system", SYSTEM, R)
                .event_cpi()
                .bytes(pk.as_ref())
                .u8(*disable_withdraw)
                .u128(*q_price)
                .bytes(&[0u8; 64])
        }
        Op::CloseFixedArgs { p, signer } => Ix::new("close_fixed_price_presale_args")
            .acc("args", fixed_args_key(&env.presale(*p)), W)
            .acc("owner", wallet(*signer), WS)
            .event_cpi(),
        Op::Init { p, payer, args_of } => {
            let pk = env.presale(*p);
            let t = env.t(*p);
            let mut ix = Ix::new("initialize_presale")
                .acc("base_mint", env.mint(0), R)
                .acc("presale", pk, W)
                .acc("presale_authority", auth, R)
                .acc("quote_mint", env.mint(1), R)
                .acc("base_token_vault", base_vault_key(&pk), W)
                .acc("quote_token_vault", quote_vault_key(&pk), W)
                .acc("payer_token", env.tok_key(Tok::W(*payer, env.cs(0))), W)
                .acc("creator", wallet(env.creator(*p)), R)
                .acc("base", base_key(*p), S)
                .acc("payer", wallet(*payer), WS)
                .acc("base_token_program", env.prog(0), R)
                .acc("quote_token_program", env.prog(1), R)
                .acc("system", SYSTEM, R)
                .event_cpi();
            if let Some(a) = args_of {
                ix.rest.push(meta(fixed_args_key(&env.presale(*a)), R));
            }
            hook_tail(presale_args_bytes(ix, t), env, s, op, 0)
        }
        Op::CreateEscrow { p, u, reg, cap, how } => {
            let pk = env.presale(*p);
            let e = escrow_key(&pk, &wallet(*u), *reg);
            match how {
                How::Permissionless => Ix::new("create_permissionless_escrow")
                    .acc("presale", pk, W)
                    .acc("escrow", e, W)
                    .acc("owner", wallet(*u), R)
                    .acc("payer", wallet(FUNDER), WS)
                    .acc("system", SYSTEM, R)
                    .event_cpi(),
                How::Operator { creator, owner } => Ix::new("create_permissioned_escrow_with_creator")
                    .acc("presale", pk, W)
                    .acc("escrow", e, W)
                    .acc("owner", wallet(*u), R)
                    .acc("operator", operator_key(&wallet(*creator), &wallet(*owner)), R)
                    .acc("operator_owner", wallet(*owner), S)
                    .acc("payer", wallet(FUNDER), WS)
                    .acc("system", SYSTEM, R)
                    .event_cpi()
                    .u8(*reg)
                    .u64(*cap)
                    .bytes(&[0u8; 32]),
                How::Merkle { cp, version, entry } => {
                    let empty = vec![];
                    let (_, proofs) = list_root(env.lists[*cp].get(version).unwrap_or(&empty));
                    let proof = entry.and_then(|i| proofs.get(i).cloned()).unwrap_or_default();
                    merkle_ix(env, *p, *u, *reg, *cap, *cp, *version, &proof)
                }
            }
        }
        Op::Deposit { p, u, reg, amt, payer } => {
            let pk = env.presale(*p);
            let ix = Ix::new("deposit")
                .acc("presale", pk, W)
                .acc("quote_token_vault", quote_vault_key(&pk), W)
                .acc("quote_mint", env.mint(1), R)
                .acc("escrow", escrow_key(&pk, &wallet(*u), *reg), W)
                .acc("payer_token", env.tok_key(Tok::W(*payer, env.cs(1))), W)
                .acc("payer", wallet(*payer), S)
                .acc("token_program", env.prog(1), R)
                .event_cpi()
                .u64(*amt);
            hook_tail(ix, env, s, op, 1)
        }
        Op::Withdraw { p, u, reg, amt, dest } => {
            let ix = exit_ix(env, "withdraw", *p, *u, *reg, 1, *dest).u64(*amt);
            hook_tail(ix, env, s, op, 1)
        }
        Op::Claim { p, u, reg, dest } => hook_tail(exit_ix(env, "claim", *p, *u, *reg, 0, *dest), env, s, op, 0),
        Op::Refund { p, u, reg, dest } => {
            hook_tail(exit_ix(env, "withdraw_remaining_quote", *p, *u, *reg, 1, *dest), env, s, op, 1)
        }
        Op::Refresh { p, u, reg } => {
            let pk = env.presale(*p);
            Ix::new("refresh_escrow")
                .acc("presale", pk, R)
                .acc("escrow", escrow_key(&pk, &wallet(*u), *reg), W)
                .event_cpi()
        }
        Op::Close { p, u, reg, rx } => {
            let pk = env.presale(*p);
            Ix::new("close_escrow")
                .acc("presale", pk, W)
                .acc("escrow", escrow_key(&pk, &wallet(*u), *reg), W)
                .acc("owner", wallet(*u), S)
                .acc("rent_receiver", wallet(*rx), W)
                .event_cpi()
        }
        Op::CreatorWithdraw { p, dest } => {
            let pk = env.presale(*p);
            let side = match s.pre[*p].as_ref().map(|_| env.phase(s, *p)) {
                Some(Phase::Failed) => 0,
                _ => 1,
            };
            let vault = if side == 0 { Tok::BV(*p) } else { Tok::QV(*p) };
            let mut ix = Ix::new("creator_withdraw")
                .acc("presale", pk, W)
                .acc("presale_authority", auth, R)
                .acc("owner_token", env.tok_key(env.dest_tok(*dest, side, vault)), W)
                .acc("owner", wallet(env.creator(*p)), S)
                .acc("token_program", env.prog(side), R)
                .acc("memo_program", MEMO, R)
                .event_cpi()
                .acc("vault", env.tok_key(vault), W)
                .acc("mint", env.mint(side), R);
            ix = hook_tail(ix, env, s, op, side);
            ix
        }
        Op::CollectFee { p, dest } => {
            let pk = env.presale(*p);
            let ix = Ix::new("creator_collect_fee")
                .acc("presale", pk, W)
                .acc("presale_authority", auth, R)
                .acc("quote_token_vault", quote_vault_key(&pk), W)
                .acc("quote_mint", env.mint(1), R)
                .acc("dest", env.tok_key(env.dest_tok(*dest, 1, Tok::QV(*p))), W)
                .acc("owner", wallet(env.creator(*p)), S)
                .acc("token_program", env.prog(1), R)
                .acc("memo_program", MEMO, R)
                .event_cpi();
            hook_tail(ix, env, s, op, 1)
        }
        Op::Unsold { p } => {
            let pk = env.presale(*p);
            let ix = Ix::new("perform_unsold_base_token_action")
                .acc("presale", pk, W)
                .acc("base_token_vault", base_vault_key(&pk), W)
                .acc("base_mint", env.mint(0), W)
                .acc("presale_authority", auth, R)
                .acc("creator_base_token", env.tok_key(Tok::W(env.creator(*p), env.cs(0))), W)
                .acc("token_program", env.prog(0), R)
                .acc("memo_program", MEMO, R)
                .event_cpi();
            hook_tail(ix, env, s, op, 0)
        }
        Op::MerkleCreate { p, version } => {
            let pk = env.presale(*p);
            let empty = vec![];
            let (root, _) = list_root(env.lists[*p].get(version).unwrap_or(&empty));
            Ix::new("create_merkle_root_config")
                .acc("presale", pk, R)
                .acc("config", merkle_config_key(&pk, *version), W)
                .acc("creator", wallet(env.creator(*p)), WS)
                .acc("system", SYSTEM, R)
                .event_cpi()
                .bytes(&root)
                .u64(*version)
        }
        Op::MerkleClose { p, version, rx } => {
            let pk = env.presale(*p);
            Ix::new("close_merkle_root_config")
                .acc("presale", pk, R)
                .acc("config", merkle_config_key(&pk, *version), W)
                .acc("rent_receiver", wallet(*rx), W)
                .acc("creator", wallet(env.creator(*p)), S)
                .event_cpi()
        }
        Op::OperatorCreate { c, o } => Ix::new("create_operator")
            .acc("operator", operator_key(&wallet(*c), &wallet(*o)), W)
            .acc("operator_owner", wallet(*o), R)
            .acc("creator", wallet(*c), WS)
            .acc("system", SYSTEM, R)
            .event_cpi(),
        Op::OperatorRevoke { c, o } => Ix::new("revoke_operator")
            .acc("operator", operator_key(&wallet(*c), &wallet(*o)), W)
            .acc("creator", wallet(*c), WS)
            .event_cpi(),
        Op::ServerCreate { p, url } => {
            let pk = env.presale(*p);
            Ix::new("create_permissioned_server_metadata")
                .acc("presale", pk, R)
                .acc("metadata", server_meta_key(&pk), W)
                .acc("owner", wallet(env.creator(*p)), WS)
                .acc("system", SYSTEM, R)
                .event_cpi()
                .u32(url.len() as u32)
                .bytes(url.as_bytes())
        }
        Op::ServerClose { p, rx } => {
            let pk = env.presale(*p);
            Ix::new("close_permissioned_server_metadata")
                .acc("presale", pk, R)
                .acc("metadata", server_meta_key(&pk), W)
                .acc("rent_receiver", wallet(*rx), W)
                .acc("owner", wallet(env.creator(*p)), S)
                .event_cpi()
        }
    })
}

#[allow(clippy::too_many_arguments)]
pub fn merkle_ix(env: &Env, p: usize, u: usize, reg: u8, cap: u64, cp: usize, version: u64, proof: &[[u8; 32]]) -> Ix {
    use F::*;
    let pk = env.presale(p);
    let mut ix = Ix::new("create_permissioned_escrow_with_merkle_proof")
        .acc("presale", pk, W)
        .acc("escrow", escrow_key(&pk, &wallet(u), reg), W)
        .acc("owner", wallet(u), R)
        .acc("config", merkle_config_key(&env.presale(cp), version), R)
        .acc("payer", wallet(FUNDER), WS)
        .acc("system", SYSTEM, R)
        .event_cpi()
        .u32(proof.len() as u32);
    for h in proof {
        ix = ix.bytes(h);
    }
    ix.u8(reg).u64(cap).bytes(&[0u8; 32])
}

fn exit_ix(env: &Env, name: &'static str, p: usize, u: usize, reg: u8, side: usize, dest: Dest) -> Ix {
    use F::*;
    let pk = env.presale(p);
    let (vr, mr, v) = if side == 0 {
        ("base_token_vault", "base_mint", Tok::BV(p))
    } else {
        ("quote_token_vault", "quote_mint", Tok::QV(p))
    };
    Ix::new(name)
        .acc("presale", pk, W)
        .acc(vr, env.tok_key(v), W)
        .acc(mr, env.mint(side), R)
        .acc("presale_authority", authority(), R)
        .acc("escrow", escrow_key(&pk, &wallet(u), reg), W)
        .acc("dest", env.tok_key(env.dest_tok(dest, side, v)), W)
        .acc("owner", wallet(u), S)
        .acc("token_program", env.prog(side), R)
        .acc("memo_program", MEMO, R)
        .event_cpi()
}

// ------------------------------------------------------------------ snapshot

pub fn snapshot(w: &World, env: &Env) -> Snap {
    let np = env.terms.len();
    let mut s = Snap { now: w.now as u64, epoch: w.epoch, ..Default::default() };
    for p in 0..np {
        let pk = env.presale(p);
        let a = w.acct(&pk);
        s.pre.push(a.as_ref().and_then(decode_presale));
        if let Some(a) = &a {
            dust(&mut s, At::Pre(p), a);
        }
        for side in 0..2u8 {
            if let Some(a) = w.acct(&at_key(env, At::Vault(p, side))) {
                dust(&mut s, At::Vault(p, side), &a);
            }
        }
        if a.as_ref().is_some_and(|a| a.owner == PROGRAM) {
            for (t, tag) in [(Tok::BV(p), 0u8), (Tok::QV(p), 1)] {
                let k = env.tok_key(t);
                if let Some(b) = w.token_amount(&k) {
                    s.bal.insert(t, b);
                    s.vault.insert((p, tag), vault_meta(&w.acct(&k).unwrap()));
                }
            }
            for u in 0..N_WALLETS {
                if u >= N_USERS && u != ATTACKER {
                    continue;
                }
                for r in [0, 1, 2, 3, 4, 5, 255u8] {
                    if let Some(a) = w.acct(&escrow_key(&pk, &wallet(u), r)) {
                        if let Some(e) = decode_escrow(&a) {
                            s.esc.insert((p, u, r), e);
                        } else {
                            dust(&mut s, At::Esc(p, u, r), &a);
                        }
                    }
                }
            }
            for &v in env.lists[p].keys() {
                aux(w, &mut s, Aux::Merkle(p, v), &merkle_config_key(&pk, v));
            }
            aux(w, &mut s, Aux::Server(p), &server_meta_key(&pk));
        }
        aux(w, &mut s, Aux::FixedArgs(p), &fixed_args_key(&pk));
    }
    for c in env.appointers() {
        for o in OPS {
            aux(w, &mut s, Aux::Operator(c, o), &operator_key(&wallet(c), &wallet(o)));
        }
    }
    for i in 0..N_WALLETS {
        for side in 0..2 {
            if side == 1 && env.same_mint {
                continue;
            }
            let t = Tok::W(i, side);
            s.bal.insert(t, w.token_amount(&env.tok_key(t)).unwrap_or(0));
        }
        s.lam.push(w.lamports(&wallet(i)));
    }
    s.supply = [w.mint_supply(&env.mint(0)), w.mint_supply(&env.mint(1))];
    s
}
fn aux(w: &World, s: &mut Snap, a: Aux, k: &Pubkey) {
    if let Some(x) = w.acct(k) {
        if x.owner == PROGRAM {
            s.aux.insert(a, (x.lamports, x.data));
        } else {
            dust(s, At::Aux(a), &x);
        }
    }
}
fn dust(s: &mut Snap, at: At, a: &Account) {
    if a.owner == SYSTEM && a.data.is_empty() {
        s.dust.insert(at, a.lamports);
    }
}
pub fn at_key(env: &Env, at: At) -> Pubkey {
    match at {
        At::Pre(p) => env.presale(p),
        At::Vault(p, side) => env.tok_key(if side == 0 { Tok::BV(p) } else { Tok::QV(p) }),
        At::Esc(p, u, r) => escrow_key(&env.presale(p), &wallet(u), r),
        At::Aux(Aux::FixedArgs(p)) => fixed_args_key(&env.presale(p)),
        At::Aux(Aux::Merkle(p, v)) => merkle_config_key(&env.presale(p), v),
        At::Aux(Aux::Server(p)) => server_meta_key(&env.presale(p)),
        At::Aux(Aux::Operator(c, o)) => operator_key(&wallet(c), &wallet(o)),
    }
}
/// mint, authority, delegate option, state, close-authority option
pub fn vault_meta(a: &Account) -> Vec<u8> {
    let mut v = a.data[0..64].to_vec();
    v.extend_from_slice(&a.data[72..76]);
    v.push(a.data[108]);
    v.extend_from_slice(&a.data[129..133]);
    v
}
pub fn expected_vault_meta(mint: &Pubkey) -> Vec<u8> {
    let mut v = mint.to_bytes().to_vec();
    v.extend_from_slice(authority().as_ref());
    v.extend_from_slice(&[0; 4]);
    v.push(1);
    v.extend_from_slice(&[0; 4]);
    v
}

// ------------------------------------------------------------------ comparison

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Aspect {
    Counters,
    Timing,
    TermsF,
    Flags,
    EscOwn,
    /// whose escrow it is, for which registry and up to which cap
    EscGrant,
    EscOther,
    OtherPresale,
    VaultQ,
    VaultB,
    WalletBal,
    Supply,
    Lamports,
    AuxA,
    VaultMeta,
    Events,
    EscSet,
    Rent,
}

pub fn op_target(op: &Op) -> (Option<usize>, Option<(usize, usize, u8)>) {
    match op {
        Op::InitFixedArgs { p, .. } | Op::CloseFixedArgs { p, .. } | Op::Init { p, .. } => (Some(*p), None),
        Op::CreateEscrow { p, u, reg, .. }
        | Op::Deposit { p, u, reg, .. }
        | Op::Withdraw { p, u, reg, .. }
        | Op::Claim { p, u, reg, .. }
        | Op::Refresh { p, u, reg }
        | Op::Refund { p, u, reg, .. }
        | Op::Close { p, u, reg, .. } => (Some(*p), Some((*p, *u, *reg))),
        Op::CreatorWithdraw { p, .. }
        | Op::CollectFee { p, .. }
        | Op::Unsold { p }
        | Op::MerkleCreate { p, .. }
        | Op::MerkleClose { p, .. }
        | Op::ServerCreate { p, .. }
        | Op::ServerClose { p, .. }
        | Op::Donate { p, .. } => (Some(*p), None),
        _ => (None, None),
    }
}

pub fn diff(op: &Op, exp: &Snap, act: &Snap) -> Vec<(Aspect, String)> {
    let mut v = vec![];
    let (tp, te) = op_target(op);
    for p in 0..exp.pre.len() {
        let other = tp.is_some() && tp != Some(p);
        match (&exp.pre[p], &act.pre[p]) {
            (None, None) => {}
            (Some(a), Some(b)) => {
                macro_rules! f {
                    ($asp:expr, $($n:ident),*) => { $(
                        if a.$n != b.$n {
                            v.push((if other { Aspect::OtherPresale } else { $asp }, format!("presale{p}.{}: expected {:?}, found {:?}", stringify!($n), a.$n, b.$n)));
                        }
                    )* };
                }
                f!(Aspect::Counters, dep, escrows, claimed, refunded, fee);
                f!(Aspect::Timing, end, imm_ts, vest_start, vest_end);
                f!(
                    Aspect::TermsF, owner, quote_mint, base_mint, base_vault, quote_vault, base, mode, wl, max_cap,
                    min_cap, start, supply, created, lock, vest, base_flag, quote_flag, nreg, unsold_action, imm_bps,
                    raw, pads
                );
                f!(Aspect::Flags, fee_collected, creator_withdrawn, unsold_done);
                f!(Aspect::Rent, lamports);
                for i in 0..5 {
                    let (a, b) = (&a.regs[i], &b.regs[i]);
                    if (a.dep, a.escrows, a.claimed, a.refunded, a.fee) != (b.dep, b.escrows, b.claimed, b.refunded, b.fee) {
                        v.push((
                            if other { Aspect::OtherPresale } else { Aspect::Counters },
                            format!("presale{p}.registry{i} counters: expected {:?}, found {:?}", a, b),
                        ));
                    }
                    if (a.supply, a.bmin, a.bmax, a.bps, &a.rest) != (b.supply, b.bmin, b.bmax, b.bps, &b.rest) {
                        v.push((
                            if other { Aspect::OtherPresale } else { Aspect::TermsF },
                            format!("presale{p}.registry{i} terms: expected {:?}, found {:?}", a, b),
                        ));
                    }
                }
            }
            (a, b) => v.push((
                Aspect::TermsF,
                format!("presale{p} account: expected {}, found {}", a.is_some(), b.is_some()),
            )),
        }
    }
    let keys: BTreeSet<_> = exp.esc.keys().chain(act.esc.keys()).collect();
    for k in keys {
        let own = te == Some(*k);
        match (exp.esc.get(k), act.esc.get(k)) {
            (Some(a), Some(b)) if a != b => {
                if (a.presale, a.owner, a.reg, a.cap) != (b.presale, b.owner, b.reg, b.cap) {
                    v.push((Aspect::EscGrant, format!("escrow{k:?}: granted {a:?}, found {b:?}")));
                }
                v.push((if own { Aspect::EscOwn } else { Aspect::EscOther }, format!("escrow{k:?}: expected {a:?}, found {b:?}")))
            }
            (Some(_), None) => v.push((Aspect::EscSet, format!("escrow{k:?} vanished"))),
            (None, Some(b)) => v.push((Aspect::EscSet, format!("escrow{k:?} unexpectedly exists: {b:?}"))),
            _ => {}
        }
    }
    let keys: BTreeSet<_> = exp.bal.keys().chain(act.bal.keys()).collect();
    for k in keys {
        let (a, b) = (exp.bal.get(k), act.bal.get(k));
        if a != b {
            let asp = match k {
                Tok::BV(_) => Aspect::VaultB,
                Tok::QV(_) => Aspect::VaultQ,
                Tok::W(..) => Aspect::WalletBal,
            };
            v.push((asp, format!("token balance {k:?}: expected {a:?}, found {b:?}")));
        }
    }
    if exp.supply != act.supply {
        v.push((Aspect::Supply, format!("mint supply: expected {:?}, found {:?}", exp.supply, act.supply)));
    }
    for i in 0..exp.lam.len() {
        if exp.lam[i] != act.lam[i] {
            v.push((
                Aspect::Lamports,
                format!("lamports of {}: expected {}, found {}", wallet_name(i), exp.lam[i], act.lam[i]),
            ));
        }
    }
    let keys: BTreeSet<_> = exp.aux.keys().chain(act.aux.keys()).collect();
    for k in keys {
        let (a, b) = (exp.aux.get(k), act.aux.get(k));
        if a != b {
            v.push((Aspect::AuxA, format!("account {k:?}: expected {a:?}, found {b:?}")));
        }
    }
    if exp.dust != act.dust {
        v.push((Aspect::Lamports, format!("lamports at unused addresses: expected {:?}, found {:?}", exp.dust, act.dust)));
    }
    if exp.vault != act.vault {
        v.push((Aspect::VaultMeta, format!("vault authority/delegate/close authority: expected {:?}, found {:?}", exp.vault, act.vault)));
    }
    v
}

/// The property each operation's own semantics belongs to.
pub fn op_props(env: &Env, s: &Snap, op: &Op) -> Vec<&'static str> {
    let failed = |p: usize| s.pre[p].is_some() && env.phase(s, p) == Phase::Failed;
    match op {
        Op::Init { .. } => vec!["C18", "C27"],
        Op::InitFixedArgs { .. } | Op::CloseFixedArgs { .. } => vec!["C19"],
        Op::CreateEscrow { .. } => vec!["C15"],
        Op::Deposit { .. } => vec!["C04"],
        Op::Withdraw { .. } => vec!["C05"],
        Op::Claim { .. } => vec!["C08", "C09"],
        Op::Refresh { .. } => vec!["C08"],
        Op::Refund { p, .. } => {
            if failed(*p) {
                vec!["C11"]
            } else {
                vec!["C10"]
            }
        }
        Op::Close { .. } => vec!["C20"],
        Op::CreatorWithdraw { p, .. } => {
            if failed(*p) {
                vec!["C12", "C11"]
            } else {
                vec!["C12"]
            }
        }
        Op::CollectFee { .. } => vec!["C13"],
        Op::Unsold { .. } => vec!["C14"],
        Op::MerkleCreate { .. }
        | Op::MerkleClose { .. }
        | Op::OperatorCreate { .. }
        | Op::OperatorRevoke { .. }
        | Op::ServerCreate { .. }
        | Op::ServerClose { .. } => vec!["C26"],
        Op::Time { .. } | Op::Epoch { .. } | Op::Donate { .. } | Op::Dust { .. } | Op::Crowd { .. } | Op::Legacy { .. } => vec!["C21"],
    }
}
pub fn is_exit(op: &Op) -> bool {
    matches!(
        op,
        Op::Withdraw { .. }
            | Op::Claim { .. }
            | Op::Refund { .. }
            | Op::Close { .. }
            | Op::CreatorWithdraw { .. }
            | Op::CollectFee { .. }
            | Op::Unsold { .. }
    )
}
/// side of the token an operation moves
pub fn op_side(env: &Env, s: &Snap, op: &Op) -> Option<usize> {
    match op {
        Op::Deposit { .. } | Op::Withdraw { .. } | Op::Refund { .. } | Op::CollectFee { .. } => Some(1),
        Op::Init { .. } | Op::Claim { .. } | Op::Unsold { .. } => Some(0),
        Op::CreatorWithdraw { p, .. } => {
            Some(if s.pre[*p].is_some() && env.phase(s, *p) == Phase::Failed { 0 } else { 1 })
        }
        _ => None,
    }
}

/// Rejected by the instruction and account decoding rather than by the program's own rules.
fn framework_error(e: &str) -> bool {
    e.split("Custom(")
        .nth(1)
        .and_then(|x| x.split(')').next())
        .and_then(|x| x.parse::<u32>().ok())
        .map(|c| (100..=105).contains(&c) || (2000..=2039).contains(&c) || (3000..=3017).contains(&c))
        .unwrap_or(false)
        || e.contains("NotEnoughAccountKeys")
        || e.contains("InvalidInstructionData")
}

pub fn tags_unexpected_failure(env: &Env, s: &Snap, op: &Op) -> BTreeSet<&'static str> {
    let mut t: BTreeSet<_> = op_props(env, s, op).into_iter().collect();
    if s.pre.iter().any(|p| p.is_some()) {
        t.insert("C06");
    }
    if is_exit(op) {
        t.insert("C25");
        match op_side(env, s, op) {
            Some(1) => {
                t.insert("C01");
            }
            Some(0) => {
                t.insert("C02");
            }
            _ => {}
        }
    }
    if let Some(side) = op_side(env, s, op) {
        if env.kind(side) != K_SPL {
            t.insert("C23");
        }
    }
    if let Op::Close { .. } = op {
        t.insert("C25");
    }
    t
}

pub fn tags_unexpected_success(env: &Env, s: &Snap, op: &Op, why: &[Why]) -> BTreeSet<&'static str> {
    let mut t: BTreeSet<&'static str> = BTreeSet::new();
    for w in why {
        match w {
            Why::Phase => {
                t.insert("C06");
                if matches!(op, Op::Claim { .. }) {
                    t.insert("C08");
                }
                if let Some(p) = op_target(op).0 {
                    if s.pre[p].is_some() && env.phase(s, p) == Phase::Failed {
                        t.insert("C11");
                    }
                    // the cap was reached: the sale is over
                    if s.pre[p].as_ref().is_some_and(|x| x.end < env.t(p).end && s.now < env.t(p).end) {
                        t.insert("C07");
                    }
                }
            }
            Why::Entitled | Why::RegIndex | Why::PersonalCap => {
                t.insert("C15");
            }
            Why::Owed => {
                t.insert("C20");
                if let (Some(p), Some(k)) = op_target(op) {
                    match env.phase(s, p) {
                        Phase::Failed => {
                            t.insert("C11");
                        }
                        Phase::Completed => {
                            let e = &s.esc[&k];
                            let back = env.refund(s, p, e).map(|(a, f)| a > 0 || f > 0).unwrap_or(false);
                            if back && e.refunded == 0 {
                                t.insert("C10");
                            } else {
                                t.extend(["C08", "C09"]);
                            }
                        }
                        _ => {}
                    }
                }
            }
            Why::Params => {
                t.insert("C18");
                t.insert("C19");
            }
            Why::Auth => {
                t.insert("C16");
            }
            Why::Tamper => {
                t.insert("C17");
            }
            _ => {}
        }
    }
    t.extend(op_props(env, s, op));
    t
}

pub fn tags_diff(env: &Env, s: &Snap, op: &Op, a: Aspect) -> BTreeSet<&'static str> {
    let mut t: BTreeSet<&'static str> = BTreeSet::new();
    use Aspect::*;
    let props = op_props(env, s, op);
    match a {
        Counters => {
            t.insert("C03");
            t.extend(props);
        }
        Timing => {
            t.insert("C07");
            if matches!(op, Op::Init { .. }) {
                t.insert("C18");
                t.insert("C27");
            } else if !matches!(op, Op::Deposit { .. }) {
                t.insert("C21");
            } else {
                t.insert("C21");
                t.insert("C06");
            }
        }
        TermsF => {
            t.insert("C21");
            if matches!(op, Op::Init { .. }) {
                t.insert("C18");
                t.insert("C27");
            }
        }
        Flags => t.extend(props),
        EscOwn | EscSet => {
            t.insert("C03");
            t.extend(props);
            t.insert("C27");
        }
        EscGrant => {
            t.insert("C15");
            t.insert("C27");
        }
        EscOther => {
            t.insert("C17");
            t.insert("C03");
        }
        OtherPresale => {
            t.insert("C17");
            t.insert("C21");
        }
        VaultQ => {
            t.insert("C01");
            t.extend(props);
        }
        VaultB => {
            t.insert("C02");
            t.extend(props);
        }
        WalletBal => t.extend(props),
        Supply => {
            t.insert("C02");
            t.insert("C14");
        }
        Lamports | Rent => {
            t.extend(props);
            if matches!(op, Op::Close { .. }) {
                t.insert("C20");
            }
        }
        AuxA => {
            t.insert("C26");
            t.extend(props);
            t.insert("C27");
        }
        VaultMeta => {
            t.insert("C17");
            t.insert("C18");
        }
        Events => {
            t.insert("C24");
        }
    }
    let fixed = op_target(op).0.map(|p| env.terms[p].as_ref().is_some_and(|t| t.mode == FIXED)).unwrap_or(false);
    if fixed
        && (matches!((a, op), (TermsF, _) | (Timing, Op::Init { .. }))
            || (a == EscOwn && matches!(op, Op::Deposit { .. } | Op::Claim { .. } | Op::Refresh { .. }))
            || (a == VaultB && matches!(op, Op::Unsold { .. })))
    {
        t.insert("C19");
    }
    if matches!(a, VaultQ | VaultB | WalletBal) {
        if let Some(side) = op_side(env, s, op) {
            if env.kind(side) != K_SPL {
                t.insert("C23");
            }
        }
    }
    t
}

// ------------------------------------------------------------------ running a step

pub enum StepOut {
    Ok,
    Failed(String),
}

pub fn send_op(w: &mut World, env: &Env, s: &Snap, op: &Op) -> Result<Vec<(String, Vec<u8>)>, TxErr> {
    match op {
        Op::Time { to } => {
            if *to > w.now as u64 {
                w.set_time(*to as i64);
            }
            Ok(vec![])
        }
        Op::Dust { at, amt } => {
            let k = at_key(env, *at);
            let mut a = w.acct(&k).unwrap_or_else(|| Account { lamports: 0, data: vec![], owner: SYSTEM, executable: false, rent_epoch: u64::MAX });
            a.lamports += amt;
            w.svm.set_account(k, a).unwrap();
            Ok(vec![])
        }
        Op::Crowd { p, reg, n } => {
            let k = env.presale(*p);
            let mut a = w.acct(&k).unwrap();
            for off in escrow_counts(*reg) {
                let x = rd_u64(&a.data, off) + n;
                a.data[off..off + 8].copy_from_slice(&x.to_le_bytes());
            }
            w.svm.set_account(k, a).unwrap();
            Ok(vec![])
        }
        Op::Legacy { p } => {
            let k = env.presale(*p);
            let mut a = w.acct(&k).unwrap();
            a.data[288..296].fill(0);
            w.svm.set_account(k, a).unwrap();
            Ok(vec![])
        }
        Op::Epoch { to } => {
            if *to > w.epoch {
                w.epoch = *to;
                w.push_clock();
            }
            Ok(vec![])
        }
        Op::Donate { p, side, amt, from } => {
            let v = if *side == 0 { Tok::BV(*p) } else { Tok::QV(*p) };
            let mint = env.mint(*side);
            let dec = decimals(env.cs(*side), env.kind(*side));
            let mut ix = t22::instruction::transfer_checked(
                &env.prog(*side),
                &env.tok_key(Tok::W(*from, env.cs(*side))),
                &mint,
                &env.tok_key(v),
                &wallet(*from),
                &[],
                *amt,
                dec,
            )
            .unwrap();
            if has_hook(env.kind(*side)) {
                let f = Flow { from: ix.accounts[0].pubkey, to: env.tok_key(v), by: wallet(*from), amt: *amt };
                ix.accounts.extend(hook_accounts(&mint, (env.kind(*side) == K_FLOWHOOK).then_some(f)));
            }
            w.send(&[ix]).map(|_| vec![])
        }
        _ => {
            let ix = build(env, s, op).unwrap();
            let r = w.send(&[ix.build()]);
            r.map(|m| events_of(&m))
        }
    }
}

pub fn predict_safe(env: &Env, s: &Snap, op: &Op) -> Result<Pred, String> {
    crate::rt::quiet(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| env.predict(s, op))))
        .map_err(|_| "state is inconsistent (reference model arithmetic failed)".to_string())
}

/// The predicted state, completed by what creation takes from the token programs.
pub fn complete(w: &World, env: &Env, op: &Op, exp: &Snap) -> Snap {
    let mut exp = exp.clone();
    if let Op::Init { p, payer, .. } = op {
        // token-account sizes are the token programs' business: their rent is read back
        for (t, tag) in [(Tok::BV(*p), 0), (Tok::QV(*p), 1)] {
            let d = exp.dust.remove(&At::Vault(*p, tag)).unwrap_or(0);
            exp.lam[*payer] = exp.lam[*payer].wrapping_sub(w.lamports(&env.tok_key(t)).saturating_sub(d));
        }
        let pay = exp.funded(At::Pre(*p), PRESALE_LEN).1;
        exp.lam[*payer] = exp.lam[*payer].wrapping_sub(pay);
        exp.vault.insert((*p, 0), expected_vault_meta(&env.mint(0)));
        exp.vault.insert((*p, 1), expected_vault_meta(&env.mint(1)));
    }
    exp
}

/// After a first deviation: compare what an operation did with what it should have done given the
/// whole history (`ideal` is the state the history should have led to).
pub fn judge_history(
    env: &Env,
    ideal: &Snap,
    s: &Snap,
    op: &Op,
    pred: &Pred,
    ok: bool,
    act: &Snap,
) -> Vec<(String, BTreeSet<&'static str>)> {
    let mut out = vec![];
    match (pred, ok) {
        (Pred::Fail(_), false) => {}
        (Pred::Fail(why), true) => out.push((
            format!("accepted although it must be rejected after this history: {why:?}"),
            tags_unexpected_success(env, ideal, op, why),
        )),
        (Pred::Ok(_), false) => out.push((
            "rejected although it must succeed after this history".to_string(),
            tags_unexpected_failure(env, ideal, op),
        )),
        (Pred::Ok(b), true) => {
            let exp = &b.0;
            let keys: BTreeSet<_> = exp.bal.keys().chain(act.bal.keys()).collect();
            let d = |a: Option<&u64>, b: Option<&u64>| *b.unwrap_or(&0) as i128 - *a.unwrap_or(&0) as i128;
            for k in keys {
                let (e, a) = (d(ideal.bal.get(k), exp.bal.get(k)), d(s.bal.get(k), act.bal.get(k)));
                if e != a {
                    let asp = match k {
                        Tok::BV(_) => Aspect::VaultB,
                        Tok::QV(_) => Aspect::VaultQ,
                        Tok::W(..) => Aspect::WalletBal,
                    };
                    out.push((format!("{k:?} changes by {a}, after this history it must change by {e}"), tags_diff(env, ideal, op, asp)));
                }
            }
        }
    }
    out
}

/// Compare an executed operation with the prediction.  Returns findings (without step numbers).
pub fn judge(
    w: &World,
    env: &Env,
    s: &Snap,
    op: &Op,
    pred: &Result<Pred, String>,
    res: &Result<Vec<(String, Vec<u8>)>, TxErr>,
    act: &Snap,
) -> Vec<(String, BTreeSet<&'static str>)> {
    let mut out = vec![];
    match (pred, res) {
        (Err(e), Ok(_)) => {
            let mut t: BTreeSet<_> = op_props(env, s, op).into_iter().collect();
            t.insert("C03");
            out.push((e.clone(), t));
        }
        (Err(_), Err(_)) => {}
        (Ok(Pred::Fail(_)), Err(_)) => {}
        (Ok(Pred::Fail(why)), Ok(_)) => {
            out.push((format!("accepted although it must be rejected: {why:?}"), tags_unexpected_success(env, s, op, why)));
        }
        (Ok(Pred::Ok(b)), Err(e)) => {
            let tail: Vec<_> = e.logs.iter().rev().take(6).rev().cloned().collect();
            let mut t = tags_unexpected_failure(env, s, op);
            if framework_error(&e.err) || matches!(op, Op::CreateEscrow { .. }) {
                t.insert("C27");
            }
            if let Op::Deposit { p, .. } = op {
                let end = |s: &Snap| s.pre[*p].as_ref().map(|x| x.end);
                if end(&b.0) != end(s) {
                    t.insert("C07");
                }
            }
            out.push((format!("rejected although it must succeed: {} {:?}", e.err, tail), t));
        }
        (Ok(Pred::Ok(b)), Ok(ev)) => {
            let (exp, xev) = &**b;
            let exp = complete(w, env, op, exp);
            let mut by: BTreeMap<Aspect, Vec<String>> = BTreeMap::new();
            for (a, d) in diff(op, &exp, act) {
                by.entry(a).or_default().push(d);
            }
            for (a, d) in by {
                out.push((d.join("; "), tags_diff(env, s, op, a)));
            }
            let xe: Vec<(String, Vec<u8>)> = xev.iter().map(|(n, d)| (n.to_string(), d.clone())).collect();
            if !matches!(op, Op::Time { .. } | Op::Epoch { .. } | Op::Donate { .. } | Op::Dust { .. } | Op::Crowd { .. } | Op::Legacy { .. }) && xe != *ev {
                out.push((
                    format!("events: expected {:?}, found {:?}", xe, ev),
                    tags_diff(env, s, op, Aspect::Events),
                ));
            }
        }
    }
    if let (Op::Deposit { p, u, reg, .. }, Ok(_)) = (op, res) {
        if let (Some(e), Some(o)) = (act.esc.get(&(*p, *u, *reg)), s.esc.get(&(*p, *u, *reg))) {
            if e.dep > o.cap && e.dep > o.dep {
                out.push((format!("deposit of {} although only {} were granted", e.dep, o.cap), ["C04", "C15"].into()));
            }
        }
    }
    out
}

// ------------------------------------------------------------------ tampering

pub struct Tampered {
    pub label: String,
    pub tags: Vec<&'static str>,
    pub ix: Ix,
    pub forge: Vec<(Pubkey, Account)>,
}

fn with(ix: &Ix, subs: &[(&str, Pubkey)]) -> Ix {
    let mut n = ix.clone();
    for (r, k) in subs {
        match n.get_mut(r) {
            Some(m) => m.pubkey = *k,
            None => panic!("no role {r} in {}", ix.name),
        }
    }
    n
}
fn unsigned(ix: &Ix, role: &str) -> Ix {
    let mut n = ix.clone();
    n.get_mut(role).unwrap().is_signer = false;
    n
}

/// Every variant of an otherwise successful instruction that must be rejected.
pub fn tampers(w: &World, env: &Env, s: &Snap, op: &Op, moved: bool) -> Vec<Tampered> {
    let Some(ix) = build(env, s, op) else { return vec![] };
    let mut v: Vec<Tampered> = vec![];
    let own = op_props(env, s, op);
    let orig = ix.clone();
    let mut add = |label: &str, tags: &[&'static str], ix: Ix, forge: Vec<(Pubkey, Account)>| {
        let mut t = tags.to_vec();
        t.extend(own.iter().copied());
        let same_call = forge.is_empty() && ix.accs == orig.accs && ix.rest == orig.rest && ix.data == orig.data;
        if same_call {
            return;
        }
        v.push(Tampered { label: label.to_string(), tags: t, ix, forge });
    };
    let np = env.terms.len();
    let (tp, te) = op_target(op);
    let other = tp.and_then(|p| (0..np).find(|q| *q != p && s.pre[*q].is_some()));
    let att = wallet(ATTACKER);
    let atok = |side: usize| env.tok_key(Tok::W(ATTACKER, env.cs(side)));
    let has = |r: &str| ix.get(r).is_some();

    // signatures
    for role in ["owner", "creator", "operator_owner", "payer", "base"] {
        if ix.get(role).map(|m| m.is_signer).unwrap_or(false) {
            add(&format!("missing signature of {role}"), &["C16"], unsigned(&ix, role), vec![]);
        }
    }
    // other people's signatures: the key the presale address was derived from, and one wallet after another
    for role in ["owner", "creator", "operator_owner"] {
        let Some(m) = ix.get(role) else { continue };
        if !m.is_signer || matches!(op, Op::InitFixedArgs { .. }) {
            continue;
        }
        let rich = Account { lamports: 10_000_000_000, data: vec![], owner: SYSTEM, executable: false, rent_epoch: u64::MAX };
        for q in tp.into_iter().chain(other) {
            let k = base_key(q);
            add(&format!("signed by a presale's base key as {role}"), &["C16"], with(&ix, &[(role, k)]), vec![(k, rich.clone())]);
        }
        let n = (s.now as usize).wrapping_add(s.esc.len()) % N_WALLETS;
        for i in [n, (n + 5) % N_WALLETS] {
            if m.pubkey != wallet(i) {
                add(&format!("signed by another wallet as {role}"), &["C16"], with(&ix, &[(role, wallet(i))]), vec![]);
            }
        }
    }
    // the presale account itself
    if has("presale") && !matches!(op, Op::Init { .. }) {
        if let Some(p) = tp {
            if let Some(a) = w.acct(&env.presale(p)) {
                let fk = key("forged-presale");
                let mut f = a.clone();
                f.owner = HOOK;
                let mut fx = with(&ix, &[("presale", fk)]);
                if let Op::CreateEscrow { u, reg, .. } = op {
                    fx = with(&fx, &[("escrow", escrow_key(&fk, &wallet(*u), *reg))]);
                }
                if let Op::MerkleCreate { version, .. } = op {
                    fx = with(&fx, &[("config", merkle_config_key(&fk, *version))]);
                }
                add("presale account owned by another program", &["C17"], fx, vec![(fk, f)]);
            }
        }
        if let Some(q) = other {
            let qk = env.presale(q);
            add("presale account of another presale", &["C17"], with(&ix, &[("presale", qk)]), vec![]);
            let mut subs = vec![("presale", qk)];
            if has("base_token_vault") {
                subs.push(("base_token_vault", base_vault_key(&qk)));
            }
            if has("quote_token_vault") {
                subs.push(("quote_token_vault", quote_vault_key(&qk)));
            }
            if te.is_some() && !matches!(op, Op::CreateEscrow { .. }) {
                add("escrow used with another presale and its vaults", &["C17", "C16"], with(&ix, &subs), vec![]);
            }
            let same = tp.map(|p| env.creator(p)) == Some(env.creator(q));
            if matches!(op, Op::MerkleClose { .. } | Op::ServerClose { .. }) || (matches!(op, Op::CollectFee { .. }) && !same) {
                add("admin account used with another presale", &["C17", "C16"], with(&ix, &subs), vec![]);
                let r = if has("creator") { "creator" } else { "owner" };
                subs.push((r, wallet(env.creator(q))));
                if !matches!(op, Op::CollectFee { .. }) {
                    add("admin account closed by another presale's creator", &["C17", "C16"], with(&ix, &subs), vec![]);
                }
            }
            if matches!(op, Op::MerkleCreate { .. } | Op::ServerCreate { .. }) {
                let r = if has("creator") { "creator" } else { "owner" };
                add("admin account created by another creator", &["C16"], with(&ix, &[(r, wallet(env.creator(q)))]), vec![]);
            }
        }
    }
    // accounts of the program, but of another type
    let here = tp.or(te.map(|e| e.0));
    let mut others: Vec<Pubkey> = vec![];
    others.extend(here.map(|p| env.presale(p)));
    for of in [true, false] {
        let mine = |p: &usize| (Some(*p) == here) == of;
        others.extend(s.esc.keys().find(|k| mine(&k.0)).map(|k| escrow_key(&env.presale(k.0), &wallet(k.1), k.2)));
        others.extend(s.aux.keys().find_map(|a| match a {
            Aux::Merkle(p, v) if mine(p) => Some(merkle_config_key(&env.presale(*p), *v)),
            _ => None,
        }));
        others.extend(s.aux.keys().find_map(|a| match a {
            Aux::Server(p) if mine(p) => Some(server_meta_key(&env.presale(*p))),
            _ => None,
        }));
    }
    others.extend(s.aux.keys().find_map(|a| match a {
        Aux::Operator(c, o) => Some(operator_key(&wallet(*c), &wallet(*o))),
        _ => None,
    }));
    let typed = |k: &Pubkey| w.acct(k).filter(|a| a.owner == presale::ID && a.data.len() > 8);
    for (role, m) in &ix.accs {
        let Some(a) = typed(&m.pubkey) else { continue };
        for name in ["Presale", "Escrow"] {
            let d = disc("account", name);
            if a.data[..8] != d {
                let fk = key("other-type");
                let mut f = a.clone();
                f.data[..8].copy_from_slice(&d);
                add(&format!("{role} of another type"), &["C17"], with(&ix, &[(role, fk)]), vec![(fk, f)]);
            }
        }
        for k in &others {
            if typed(k).map(|b| b.data[..8] != a.data[..8]).unwrap_or(false) {
                add(&format!("another program account as {role}"), &["C17"], with(&ix, &[(role, *k)]), vec![]);
            }
        }
    }
    // vaults and mints
    for (role, side) in [("base_token_vault", 0usize), ("quote_token_vault", 1)] {
        if has(role) && !matches!(op, Op::Init { .. }) {
            add(&format!("{role} replaced by a foreign token account"), &["C17"], with(&ix, &[(role, atok(side))]), vec![]);
            if let Some(q) = other {
                let k = env.tok_key(if side == 0 { Tok::BV(q) } else { Tok::QV(q) });
                add(&format!("{role} of another presale"), &["C17"], with(&ix, &[(role, k)]), vec![]);
            }
            if let Some(p) = tp {
                let k = env.tok_key(if side == 0 { Tok::QV(p) } else { Tok::BV(p) });
                add(&format!("{role} replaced by the opposite vault"), &["C17"], with(&ix, &[(role, k)]), vec![]);
            }
        }
    }
    for (role, side) in [("base_mint", 0usize), ("quote_mint", 1)] {
        if has(role) && !matches!(op, Op::Init { .. }) {
            let k = (env.kind(side) + 1) % MINT_KINDS;
            let s2 = if env.same_mint { 0 } else { side };
            add(&format!("{role} replaced"), &["C17"], with(&ix, &[(role, mint_key(s2, k))]), vec![]);
        }
    }
    if has("presale_authority") {
        add("presale authority replaced", &["C17"], with(&ix, &[("presale_authority", att)]), vec![]);
    }
    if has("token_program") && moved {
        let k = if ix.get("token_program").unwrap().pubkey == TOKEN { TOKEN22 } else { TOKEN };
        add("wrong token program", &["C17", "C23"], with(&ix, &[("token_program", k)]), vec![]);
    }
    // hooks: presenting no hook accounts, or a slice longer than the accounts given
    if moved {
        if let Some(side) = op_side(env, s, op) {
            let burn = matches!(op, Op::Unsold { p } if env.t(*p).unsold == 1);
            let n = ix.data.len();
            if has_hook(env.kind(side)) && !burn {
                let more = hook_accounts(&env.mint(side), flow_of(&ix, env, s, op, side));
                let h = more.len();
                let mut t = ix.clone();
                t.rest.truncate(t.rest.len() - h);
                t.data.truncate(n - 6);
                t.data.extend(slices(vec![]));
                add("hooked mint without hook accounts", &["C23"], t, vec![]);
                let mut t = ix.clone();
                t.data.truncate(n - 6);
                t.data.extend(slices(vec![(side as u8, h as u8 + 1)]));
                add("hook slice longer than the accounts", &["C23"], t, vec![]);
                let mut t = ix.clone();
                t.data.truncate(n - 6);
                t.data.extend(slices(vec![(1 - side as u8, h as u8)]));
                add("hook slice of the wrong type", &["C23"], t, vec![]);
                let mut t = ix.clone();
                t.rest.extend(more);
                t.data.truncate(n - 6);
                t.data.extend(slices(vec![(side as u8, h as u8), (side as u8, h as u8)]));
                add("duplicated hook slices", &["C23"], t, vec![]);
            } else if !burn {
                let mut t = ix.clone();
                t.rest.push(meta(att, F::R));
                t.data.truncate(n - 4);
                t.data.extend(slices(vec![(side as u8, 1)]));
                add("hook accounts for a mint without hook", &["C23"], t, vec![]);
            }
        }
    }
    match op {
        Op::Init { p, payer, .. } => {
            if let Some(q) = (0..N_USERS).find(|q| q != payer) {
                add(
                    "supply taken from someone else's token account",
                    &["C16"],
                    with(&ix, &[("payer_token", env.tok_key(Tok::W(q, env.cs(0))))]),
                    vec![],
                );
            }
            if env.t(*p).mode == FIXED {
                let mut t = ix.clone();
                t.rest.remove(0);
                add("fixed price presale without its price account", &["C19", "C18"], t, vec![]);
                if let Some(a) = w.acct(&fixed_args_key(&env.presale(*p))) {
                    let fk = key("forged-args");
                    let mut f = a.clone();
                    f.owner = HOOK;
                    let mut t = ix.clone();
                    t.rest[0].pubkey = fk;
                    add("price account owned by another program", &["C19", "C17"], t, vec![(fk, f)]);
                    // a genuine one, but of another presale address
                    let other = key("another-presale");
                    let (fk, mut f) = (fixed_args_key(&other), a);
                    f.data[72..104].copy_from_slice(other.as_ref());
                    let mut t = ix.clone();
                    t.rest[0].pubkey = fk;
                    add("price account of another presale", &["C19", "C17"], t, vec![(fk, f)]);
                }
            }
            for (role, k) in [
                ("base_token_vault", key("some-vault")),
                ("quote_token_vault", key("some-vault")),
                ("presale", key("some-presale")),
            ] {
                add(&format!("{role} at a non canonical address"), &["C17", "C27"], with(&ix, &[(role, k)]), vec![]);
            }
            let k = if env.prog(0) == TOKEN { TOKEN22 } else { TOKEN };
            add("wrong base token program", &["C17"], with(&ix, &[("base_token_program", k)]), vec![]);
            let k = if env.prog(1) == TOKEN { TOKEN22 } else { TOKEN };
            add("wrong quote token program", &["C17"], with(&ix, &[("quote_token_program", k)]), vec![]);
        }
        Op::CloseFixedArgs { .. } => {
            add("price account closed by a stranger", &["C16", "C19"], with(&ix, &[("owner", att)]), vec![]);
        }
        Op::InitFixedArgs { .. } => {
            add("price account at a non canonical address", &["C17", "C27"], with(&ix, &[("args", key("some-args"))]), vec![]);
        }
        Op::CreateEscrow { p, u, reg, cap, how } => {
            let pk = env.presale(*p);
            let reg_off = ix.data.len().saturating_sub(41);
            add("escrow at a non canonical address", &["C17", "C27"], with(&ix, &[("escrow", key("some-escrow"))]), vec![]);
            add(
                "escrow address of another owner",
                &["C17"],
                with(&ix, &[("escrow", escrow_key(&pk, &att, *reg))]),
                vec![],
            );
            match how {
                How::Permissionless => {}
                How::Operator { creator, owner } => {
                    add("operator signature by a stranger", &["C16"], with(&ix, &[("operator_owner", att)]), vec![]);
                    if let Some(a) = w.acct(&operator_key(&wallet(*creator), &wallet(*owner))) {
                        let fk = key("forged-operator");
                        let mut f = a.clone();
                        f.owner = HOOK;
                        f.data[8..40].copy_from_slice(att.as_ref());
                        add(
                            "forged operator account",
                            &["C16", "C17"],
                            with(&ix, &[("operator", fk), ("operator_owner", att)]),
                            vec![(fk, f)],
                        );
                    }
                    for c in env.appointers() {
                        for o in OPS {
                            if c != *creator && s.aux.contains_key(&Aux::Operator(c, o)) {
                                add(
                                    "operator of another creator",
                                    &["C16", "C17"],
                                    with(
                                        &ix,
                                        &[
                                            ("operator", operator_key(&wallet(c), &wallet(o))),
                                            ("operator_owner", wallet(o)),
                                        ],
                                    ),
                                    vec![],
                                );
                            }
                        }
                    }
                    let mut t = ix.clone();
                    t.data[reg_off] = env.t(*p).regs.len() as u8;
                    let k = escrow_key(&pk, &wallet(*u), env.t(*p).regs.len() as u8);
                    add("registry index out of range", &[], with(&t, &[("escrow", k)]), vec![]);
                }
                How::Merkle { cp, version, entry } => {
                    let list = &env.lists[*cp][version];
                    let (root, proofs) = list_root(list);
                    let proof = entry.and_then(|i| proofs.get(i).cloned()).unwrap_or_default();
                    let mk = |u: usize, reg: u8, cap: u64, proof: &[[u8; 32]]| {
                        merkle_ix(env, *p, u, reg, cap, *cp, *version, proof)
                    };
                    add("whitelist entry used by somebody else", &["C16"], mk(ATTACKER, *reg, *cap, &proof), vec![]);
                    if *cap < env.t(*p).regs[*reg as usize].bmax {
                        add("whitelist entry with a larger cap", &[], mk(*u, *reg, *cap + 1, &proof), vec![]);
                    }
                    if *cap > env.t(*p).regs[*reg as usize].bmin {
                        add("whitelist entry with a smaller cap", &[], mk(*u, *reg, *cap - 1, &proof), vec![]);
                    }
                    for r in 0..env.t(*p).regs.len() as u8 {
                        if r != *reg
                            && !s.esc.contains_key(&(*p, *u, r))
                            && !list.iter().any(|(w, lr, c)| w == u && *lr == r && c == cap)
                        {
                            add("whitelist entry used in another registry", &[], mk(*u, r, *cap, &proof), vec![]);
                        }
                    }
                    if !proof.is_empty() {
                        let mut bad = proof.clone();
                        bad[0][5] ^= 1;
                        add("altered merkle proof", &[], mk(*u, *reg, *cap, &bad), vec![]);
                        let mut bad = proof.clone();
                        bad.pop();
                        add("truncated merkle proof", &[], mk(*u, *reg, *cap, &bad), vec![]);
                    }
                    let mut bad = proof.clone();
                    bad.push(root);
                    add("extended merkle proof", &[], mk(*u, *reg, *cap, &bad), vec![]);
                    if let Some(a) = w.acct(&merkle_config_key(&pk, *version)) {
                        let fk = key("forged-config");
                        let mut f = a.clone();
                        f.owner = HOOK;
                        f.data[8..40].copy_from_slice(&leaf_hash(&att, *reg, *cap));
                        add(
                            "forged whitelist account",
                            &["C17"],
                            with(&mk(ATTACKER, *reg, *cap, &[]), &[("config", fk)]),
                            vec![(fk, f)],
                        );
                    }
                    if let Some(q) = other {
                        for &v2 in env.lists[q].keys() {
                            if let (true, Some(l2)) = (s.aux.contains_key(&Aux::Merkle(q, v2)), env.lists[q].get(&v2)) {
                                let (_, pr2) = list_root(l2);
                                for (i, (lu, lr, lc)) in l2.iter().enumerate() {
                                    if (*lr as usize) < env.t(*p).regs.len()
                                        && !s.esc.contains_key(&(*p, *lu, *lr))
                                        && *lc >= env.t(*p).regs[*lr as usize].bmin
                                        && *lc <= env.t(*p).regs[*lr as usize].bmax
                                    {
                                        add(
                                            "whitelist of another presale",
                                            &["C17"],
                                            merkle_ix(env, *p, *lu, *lr, *lc, q, v2, &pr2[i]),
                                            vec![],
                                        );
                                        break;
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        Op::Deposit { payer, .. } => {
            let victim = if *payer == 0 { 2 } else { 0 };
            add(
                "deposit paid from someone else's token account",
                &["C16"],
                with(&ix, &[("payer_token", env.tok_key(Tok::W(victim, env.cs(1))))]),
                vec![],
            );
            add("deposit authorised by a stranger", &["C16"], with(&ix, &[("payer", att)]), vec![]);
            forged_escrow(w, env, te, &ix, &mut |i, f| add("escrow owned by another program", &["C17"], i, f));
        }
        Op::Withdraw { .. } | Op::Claim { .. } | Op::Refund { .. } => {
            let side = op_side(env, s, op).unwrap();
            let (p, u, reg) = te.unwrap();
            add("executed by a stranger", &["C16"], with(&ix, &[("owner", att), ("dest", atok(side))]), vec![]);
            add("executed by a stranger to the owner's account", &["C16"], with(&ix, &[("owner", att)]), vec![]);
            let c = env.creator(p);
            if c != u {
            add(
                "executed by the presale creator",
                &["C16"],
                with(&ix, &[("owner", wallet(c)), ("dest", env.tok_key(Tok::W(c, env.cs(side))))]),
                vec![],
            );
            }
            if let Some((k2, _)) = s.esc.iter().find(|((p2, u2, _), _)| *p2 == p && *u2 != u) {
                add(
                    "another buyer signs for this escrow",
                    &["C16"],
                    with(&ix, &[("owner", wallet(k2.1)), ("dest", env.tok_key(Tok::W(k2.1, env.cs(side))))]),
                    vec![],
                );
                add(
                    "another buyer's escrow is used",
                    &["C16", "C17"],
                    with(&ix, &[("escrow", escrow_key(&env.presale(p), &wallet(k2.1), k2.2))]),
                    vec![],
                );
            }
            let _ = reg;
            if let Some((k2, _)) = s.esc.iter().find(|((p2, u2, _), _)| *p2 != p && *u2 == u) {
                add(
                    "the owner's escrow of another presale is used",
                    &["C17"],
                    with(&ix, &[("escrow", escrow_key(&env.presale(k2.0), &wallet(k2.1), k2.2))]),
                    vec![],
                );
            }
            forged_escrow(w, env, te, &ix, &mut |i, f| {
                add("escrow owned by another program", &["C17", "C16"], with(&i, &[("owner", att), ("dest", atok(side))]), f)
            });
        }
        Op::Refresh { .. } => {
            forged_escrow(w, env, te, &ix, &mut |i, f| add("escrow owned by another program", &["C17"], i, f));
        }
        Op::Close { .. } => {
            add("closed by a stranger", &["C16"], with(&ix, &[("owner", att), ("rent_receiver", att)]), vec![]);
            let (p, u, _) = te.unwrap();
            if let Some((k2, _)) = s.esc.iter().find(|((p2, u2, _), _)| *p2 == p && *u2 != u) {
                add(
                    "another buyer's escrow is closed",
                    &["C16", "C17"],
                    with(&ix, &[("escrow", escrow_key(&env.presale(p), &wallet(k2.1), k2.2))]),
                    vec![],
                );
            }
        }
        Op::CreatorWithdraw { p, .. } => {
            let side = op_side(env, s, op).unwrap();
            for (l, x) in [("a stranger", ATTACKER), ("another creator", env.not_creator(*p)), ("a buyer", usize::from(env.creator(*p) == 0))] {
                add(
                    &format!("raised capital withdrawn by {l}"),
                    &["C16"],
                    with(&ix, &[("owner", wallet(x)), ("owner_token", env.tok_key(Tok::W(x, env.cs(side))))]),
                    vec![],
                );
            }
            add("vault replaced by a foreign token account", &["C17"], with(&ix, &[("vault", atok(side))]), vec![]);
            if let Some(q) = other {
                let k = env.tok_key(if side == 0 { Tok::BV(q) } else { Tok::QV(q) });
                add("vault of another presale", &["C17"], with(&ix, &[("vault", k)]), vec![]);
            }
            // the opposite side's assets
            let os = 1 - side;
            if !env.same_mint {
                let ov = env.tok_key(if os == 0 { Tok::BV(*p) } else { Tok::QV(*p) });
                let mut t = with(
                    &ix,
                    &[
                        ("vault", ov),
                        ("mint", env.mint(os)),
                        ("token_program", env.prog(os)),
                        ("owner_token", env.tok_key(Tok::W(env.creator(*p), os))),
                    ],
                );
                let n = t.data.len();
                t.data.truncate(8);
                t.rest.clear();
                let _ = n;
                let t = hook_tail(t, env, s, op, os);
                add("the opposite side's vault", &["C17", "C06"], t, vec![]);
            }
        }
        Op::CollectFee { p, .. } => {
            for (l, x) in [("a stranger", ATTACKER), ("another creator", env.not_creator(*p)), ("a buyer", usize::from(env.creator(*p) == 0))] {
                add(
                    &format!("deposit fees collected by {l}"),
                    &["C16"],
                    with(&ix, &[("owner", wallet(x)), ("dest", env.tok_key(Tok::W(x, env.cs(1))))]),
                    vec![],
                );
            }
        }
        Op::Unsold { p } => {
            add("unsold tokens sent to a stranger", &["C16", "C17"], with(&ix, &[("creator_base_token", atok(0))]), vec![]);
            let c2 = env.not_creator(*p);
            add(
                "unsold tokens sent to another creator",
                &["C16", "C17"],
                with(&ix, &[("creator_base_token", env.tok_key(Tok::W(c2, env.cs(0))))]),
                vec![],
            );
            add(
                "unsold tokens sent to the vault itself",
                &["C17"],
                with(&ix, &[("creator_base_token", env.tok_key(Tok::BV(*p)))]),
                vec![],
            );
        }
        Op::MerkleCreate { .. } | Op::MerkleClose { .. } => {
            add("whitelist account managed by a stranger", &["C16"], with(&ix, &[("creator", att)]), vec![]);
        }
        Op::OperatorCreate { .. } => {
            add("operator appointed by a stranger", &["C16"], with(&ix, &[("creator", att)]), vec![]);
        }
        Op::OperatorRevoke { c, o } => {
            add("operator revoked by a stranger", &["C16"], with(&ix, &[("creator", att)]), vec![]);
            add("operator revoked by itself", &["C16"], with(&ix, &[("creator", wallet(*o))]), vec![]);
            let c2 = if *c == CREATOR0 { CREATOR1 } else { CREATOR0 };
            add("operator revoked by another creator", &["C16"], with(&ix, &[("creator", wallet(c2))]), vec![]);
        }
        Op::ServerCreate { .. } | Op::ServerClose { .. } => {
            add("server metadata managed by a stranger", &["C16"], with(&ix, &[("owner", att)]), vec![]);
        }
        _ => {}
    }
    v
}

/// Other ways of writing the same call: they must have the same effect.
pub fn variants(env: &Env, s: &Snap, op: &Op, moved: bool) -> Vec<(&'static str, Ix)> {
    let mut v = vec![];
    let (Some(ix), Some(side), true) = (build(env, s, op), op_side(env, s, op), moved) else { return v };
    let n = ix.data.len();
    let burn = matches!(op, Op::Unsold { p } if env.t(*p).unsold == 1);
    let t = side as u8;
    let mut put = |l, cut: usize, w: Vec<(u8, u8)>| {
        let mut x = ix.clone();
        x.data.truncate(n - cut);
        x.data.extend(slices(w));
        v.push((l, x));
    };
    if has_hook(env.kind(side)) && !burn {
        let h = if env.kind(side) == K_FLOWHOOK { 4 } else { 3 };
        put("an empty hook slice precedes the full one", 6, vec![(t, 0), (t, h)]);
        put("an empty hook slice follows the full one", 6, vec![(t, h), (t, 0)]);
    } else if !burn {
        put("an empty hook slice", 4, vec![(t, 0)]);
    }
    v
}

fn forged_escrow(
    w: &World,
    env: &Env,
    te: Option<(usize, usize, u8)>,
    ix: &Ix,
    add: &mut dyn FnMut(Ix, Vec<(Pubkey, Account)>),
) {
    let (p, u, r) = te.unwrap();
    if let Some(a) = w.acct(&escrow_key(&env.presale(p), &wallet(u), r)) {
        let fk = key("forged-escrow");
        let mut f = a.clone();
        f.owner = HOOK;
        f.data[8 + 32..8 + 64].copy_from_slice(wallet(ATTACKER).as_ref());
        add(with(ix, &[("escrow", fk)]), vec![(fk, f)]);
    }
}
