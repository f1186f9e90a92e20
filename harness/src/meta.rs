//! Metamorphic relations between runs of the same history: what outsiders do must not matter (C28),
//! neither may the order of exits, the pace of claims or deposits that were taken back (C29), nor the
//! order in which registries are listed, who among the buyers is who, and the date (C30).
//! The oracle is another run of the program itself.

use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::sim::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Rel {
    /// somebody else sends tokens and lamports, refreshes escrows and opens escrows in between
    Outsiders,
    /// the same operations without the other presale
    OtherPresale,
    /// everybody leaves in another order
    ExitOrder,
    /// deposits that are withdrawn again, escrows opened and closed again, amounts paid in two parts
    Detours,
    /// claims and refreshes spread over the schedule
    ClaimPace,
    /// registries listed in another order, buyers swapped, all times shifted
    Renamed,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MetaRaw {
    pub raw: Raw,
    /// position, kind, parameter
    pub plan: Vec<(u16, u8, u32)>,
}

pub fn meta_raw(pf: &Profile) -> BoxedStrategy<MetaRaw> {
    (raw(pf), proptest::collection::vec((any::<u16>(), any::<u8>(), any::<u32>()), 1..12))
        .prop_map(|(raw, plan)| MetaRaw { raw, plan })
        .boxed()
}

pub fn run_meta(id: &str, m: &MetaRaw, pf: &Profile, rel: Rel, tracing: bool) -> Out {
    match rel {
        Rel::Outsiders => outsiders(id, m, pf, tracing),
        Rel::OtherPresale => other_presale(id, m, pf, tracing),
        Rel::ExitOrder => exit_order(id, m, pf, tracing),
        Rel::Detours => detours(id, m, pf, tracing),
        Rel::ClaimPace => claim_pace(id, m, pf, tracing),
        Rel::Renamed => renamed(id, m, pf, tracing),
    }
}

/// What counts as the same outcome: records without the fields that merely note somebody's visit.
fn essence(s: &Snap) -> (Vec<Option<Pre>>, BTreeMap<(usize, usize, u8), Esc>) {
    let mut pre = s.pre.clone();
    for p in pre.iter_mut().flatten() {
        p.escrows = 0;
        p.lamports = 0;
        for r in p.regs.iter_mut() {
            r.escrows = 0;
        }
    }
    let mut esc = s.esc.clone();
    for e in esc.values_mut() {
        e.pending = 0;
        e.refreshed = 0;
        e.lamports = 0;
    }
    (pre, esc)
}

fn report(out: &mut Out, id: &str, op: &str, step: usize, what: String) {
    let tag = match id {
        "C28" => "C28",
        "C29" => "C29",
        _ => "C30",
    };
    out.trace.push(format!("    !! {what}"));
    out.findings.push(Finding { step, op: op.into(), what, tags: [tag].into_iter().collect() });
}

fn absorb(out: &mut Out, other: &Out, title: &str, tracing: bool) {
    out.txs += other.txs;
    if tracing {
        out.trace.push(format!("---- {title}"));
        out.trace.extend(other.trace.iter().cloned());
    }
}

fn balances(a: &Snap, b: &Snap, adj: &BTreeMap<Tok, i128>, only: &dyn Fn(&Tok) -> bool) -> Vec<String> {
    let mut v = vec![];
    for (t, x) in &a.bal {
        if !only(t) {
            continue;
        }
        let y = b.bal.get(t).copied().unwrap_or(0) as i128 - adj.get(t).copied().unwrap_or(0);
        if *x as i128 != y {
            v.push(format!("{t:?}: {x} and {y}"));
        }
    }
    v
}

/// Compare two final states; `adj` is what was added to a token account from outside in the second.
fn compare(a: &Snap, b: &Snap, adj: &BTreeMap<Tok, i128>) -> Option<String> {
    let d = balances(a, b, adj, &|_| true);
    if !d.is_empty() {
        return Some(format!("token balances differ: {}", d.join(", ")));
    }
    let (ea, eb) = (essence(a), essence(b));
    for p in 0..ea.0.len() {
        if ea.0[p] != eb.0[p] {
            return Some(format!("presale{p} ends differently: {:?} and {:?}", brief(&a.pre[p]), brief(&b.pre[p])));
        }
    }
    for (k, x) in &ea.1 {
        if eb.1.get(k) != Some(x) {
            return Some(format!("escrow {k:?} ends differently: {x:?} and {:?}", eb.1.get(k)));
        }
    }
    None
}

fn brief(p: &Option<Pre>) -> String {
    match p {
        None => "absent".into(),
        Some(p) => format!("dep {} end {} vest_start {} vest_end {} imm {} claimed {} refunded {} fee {}", p.dep, p.end, p.vest_start, p.vest_end, p.imm_ts, p.claimed, p.refunded, p.fee),
    }
}

fn same_step(h: &Step, ok: bool, ev: &[(String, Vec<u8>)]) -> Option<String> {
    if h.ok != ok {
        return Some(format!("{:?} is {} alone but {} then", h.op, word(h.ok), word(ok)));
    }
    // these events carry the number of escrows
    let counts = matches!(h.op, Op::CreateEscrow { .. } | Op::Close { .. });
    if h.ev != ev && !counts {
        return Some(format!("{:?} reports something else then", h.op));
    }
    None
}
fn word(ok: bool) -> &'static str {
    if ok {
        "accepted"
    } else {
        "rejected"
    }
}

fn pays(h: &Step) -> bool {
    h.ok && matches!(h.op, Op::Deposit { .. } | Op::Withdraw { .. } | Op::Claim { .. } | Op::Refund { .. } | Op::CreatorWithdraw { .. } | Op::CollectFee { .. } | Op::Unsold { .. })
}

fn base_run<'a>(id: &'a str, raw: &Raw, pf: &Profile, tracing: bool) -> Run<'a> {
    let mut r = history(id, raw, pf, tracing);
    // what this run shows by itself is the business of the other properties
    r.out.keys.clear();
    r.out.samples.clear();
    r
}

fn outsiders(id: &str, m: &MetaRaw, pf: &Profile, tracing: bool) -> Out {
    let a = base_run(id, &m.raw, pf, tracing);
    let mut out = a.out.clone();
    out.findings.retain(|f| f.tags.contains(id));
    let mut b = Run::new(id, mk_env(&m.raw), tracing);
    let n = a.hist.len().max(1);
    let mut adj: BTreeMap<Tok, i128> = BTreeMap::new();
    let mut used = 0usize;
    let mut affected = 0usize;
    let mut bad = None;
    for (i, h) in a.hist.iter().enumerate() {
        for (pos, kind, x) in &m.plan {
            if *pos as usize % n == i {
                used += meddle(&mut b, &a.hist, &h.op, *kind, *x as u64, &mut adj) as usize;
            }
        }
        let ok = b.exec(&h.op);
        affected += (used > 0 && pays(h)) as usize;
        if let Some(w) = same_step(h, ok, &b.hist.last().unwrap().ev) {
            bad = Some((i, h.op.name(), format!("with outsiders around, {w}")));
            break;
        }
    }
    absorb(&mut out, &b.out, "the same history with outsiders around", tracing);
    if bad.is_none() {
        bad = compare(&a.s, &b.s, &adj).map(|w| (n, "end", format!("with outsiders around, {w}")));
    }
    if let Some((i, op, w)) = bad {
        report(&mut out, id, op, i, w);
    }
    if affected > 0 {
        out.keys.push(h64(&format!("{:?}{:?}", a.hist.iter().map(|h| &h.op).collect::<Vec<_>>(), m.plan)));
        out.samples.push(format!("{} operations, {used} interferences, {affected} accepted payments afterwards, terms {:?}", a.hist.len(), a.env.terms));
    }
    out
}

/// Something anybody may do; false if it was not possible.
fn meddle(b: &mut Run, hist: &[Step], next: &Op, kind: u8, x: u64, adj: &mut BTreeMap<Tok, i128>) -> bool {
    let np = b.env.terms.len();
    let p = op_target(next).0.filter(|_| x % 4 != 0).unwrap_or(x as usize % np);
    let created = b.s.pre[p].is_some();
    let y = x >> 8;
    match kind % 6 {
        0 | 1 => {
            if !created {
                return false;
            }
            let pr = b.s.pre[p].clone().unwrap();
            let side = y as usize % 2;
            let amt = match (y >> 1) % 8 {
                0 => 1,
                1 => pr.max_cap,
                2 => pr.min_cap,
                3 => pr.dep.max(1),
                4 => pr.supply,
                5 => pr.regs[0].bmin.max(1),
                _ => 1 + (y >> 4) * 997,
            };
            let v = if side == 0 { Tok::BV(p) } else { Tok::QV(p) };
            let w = Tok::W(OPOWNER1, b.env.cs(side));
            let amt = amt.min(b.s.bal[&w] / 4).max(1);
            let (v0, w0) = (b.s.bal[&v], b.s.bal[&w]);
            b.exec(&Op::Donate { p, side, amt, from: OPOWNER1 });
            *adj.entry(v).or_default() += b.s.bal[&v] as i128 - v0 as i128;
            *adj.entry(w).or_default() += b.s.bal[&w] as i128 - w0 as i128;
            true
        }
        2 => {
            let at = match (next, y % 6) {
                (Op::CreateEscrow { p, u, reg, .. }, _) if created => At::Esc(*p, *u, *reg),
                (Op::MerkleCreate { p, version } | Op::MerkleClose { p, version, .. }, _) if created => At::Aux(Aux::Merkle(*p, *version)),
                (Op::ServerCreate { p, .. } | Op::ServerClose { p, .. }, _) if created => At::Aux(Aux::Server(*p)),
                (Op::OperatorCreate { c, o } | Op::OperatorRevoke { c, o }, _) => At::Aux(Aux::Operator(*c, *o)),
                (Op::InitFixedArgs { p, .. } | Op::CloseFixedArgs { p, .. }, _) => At::Aux(Aux::FixedArgs(*p)),
                (Op::Init { p, .. }, k) => [At::Pre(*p), At::Vault(*p, 0), At::Vault(*p, 1)][k as usize % 3],
                (_, 0) => At::Vault(p, 0),
                (_, 1) => At::Vault(p, 1),
                (_, 2) => At::Pre(p),
                _ => match b.s.esc.keys().nth(y as usize % b.s.esc.len().max(1)) {
                    Some(k) => At::Esc(k.0, k.1, k.2),
                    None => At::Pre(p),
                },
            };
            b.exec(&Op::Dust { at, amt: dust_amt(y / 6) })
        }
        3 | 4 => {
            let ks: Vec<_> = match op_target(next).1 {
                Some(k) if y % 2 == 0 && b.s.esc.contains_key(&k) => vec![k],
                _ => b.s.esc.keys().cloned().collect(),
            };
            if ks.is_empty() {
                return false;
            }
            let (p, u, reg) = ks[(y / 2) as usize % ks.len()];
            b.exec(&Op::Refresh { p, u, reg })
        }
        _ => {
            if !created {
                return false;
            }
            let nr = b.env.t(p).regs.len();
            if nr == 0 {
                return false;
            }
            let reg = (y % nr as u64) as u8;
            let there = hist.iter().any(|h| op_target(&h.op).1 == Some((p, ATTACKER, reg)));
            if b.env.t(p).wl == WL_NONE && !there && y / 64 % 3 != 0 {
                let cap = b.env.t(p).regs[reg as usize].bmax;
                return b.exec(&Op::CreateEscrow { p, u: ATTACKER, reg, cap, how: How::Permissionless });
            }
            b.exec(&Op::Crowd { p, reg: (y % nr as u64) as u8, n: [1, 2, 3, 254, 65_534, 1 << 33][(y / 8 % 6) as usize] })
        }
    }
}

fn concerns(op: &Op, q: usize) -> bool {
    match op {
        Op::InitFixedArgs { .. } | Op::CloseFixedArgs { .. } => true,
        Op::Crowd { p, .. } | Op::Legacy { p } => *p == q,
        Op::Dust { at, .. } => match at {
            At::Pre(p) | At::Vault(p, _) | At::Esc(p, _, _) => *p == q,
            At::Aux(Aux::Merkle(p, _) | Aux::Server(p)) => *p == q,
            At::Aux(_) => true,
        },
        _ => op_target(op).0.map(|p| p == q).unwrap_or(true),
    }
}

fn other_presale(id: &str, m: &MetaRaw, pf: &Profile, tracing: bool) -> Out {
    let a = base_run(id, &m.raw, pf, tracing);
    let mut out = a.out.clone();
    out.findings.retain(|f| f.tags.contains(id));
    let np = a.env.terms.len();
    let q = m.plan.first().map(|x| x.0 as usize).unwrap_or(0) % np;
    let mut b = Run::new(id, mk_env(&m.raw), tracing);
    let mut bad = None;
    let mut left_out = 0;
    let mut paid = 0;
    for (i, h) in a.hist.iter().enumerate() {
        if !concerns(&h.op, q) {
            left_out += pays(h) as usize;
            continue;
        }
        // what a payer can afford does depend on what else he spends on
        let ok = b.exec(&h.op);
        let l = b.hist.last().unwrap();
        if h.funds || l.funds {
            return out;
        }
        paid += pays(h) as usize;
        if let Some(w) = same_step(h, ok, &l.ev) {
            bad = Some((i, h.op.name(), format!("with another presale running, {w}")));
            break;
        }
    }
    absorb(&mut out, &b.out, &format!("the same operations on presale{q} alone"), tracing);
    if bad.is_none() {
        let v = |s: &Snap| {
            (s.pre[q].clone(), s.esc.iter().filter(|(k, _)| k.0 == q).map(|(k, e)| (*k, e.clone())).collect::<Vec<_>>(), s.bal.get(&Tok::BV(q)).copied(), s.bal.get(&Tok::QV(q)).copied())
        };
        let (x, y) = (v(&a.s), v(&b.s));
        if x != y {
            bad = Some((a.hist.len(), "end", format!("presale{q} ends differently when another presale is running: {} {:?} {:?} and alone {} {:?} {:?}", brief(&x.0), x.2, x.3, brief(&y.0), y.2, y.3)));
        }
    }
    if let Some((i, op, w)) = bad {
        report(&mut out, id, op, i, w);
    }
    if left_out > 0 && paid > 0 {
        out.keys.push(h64(&format!("{q}{:?}", a.hist.iter().map(|h| &h.op).collect::<Vec<_>>())));
        out.samples.push(format!("presale{q}: {paid} accepted payments, compared without {left_out} payments of the other presale; terms {:?}", a.env.terms));
    }
    out
}

fn buyers(s: &Snap) -> usize {
    s.esc.values().filter(|e| e.dep > 0).count()
}

/// Everybody leaves; an escrow is closed any time after its own claim and refund.
fn leave(r: &mut Run, order: &[u16]) {
    let far = r.s.pre.iter().flatten().map(|p| p.end.max(p.vest_end).max(p.imm_ts)).max().unwrap_or(0).max(r.s.now);
    r.exec(&Op::Time { to: far });
    let mut i = 0usize;
    let mut key = || {
        let k = order.get(i % order.len().max(1)).copied().unwrap_or(0) as u32 ^ (i as u32 * 40503 & 0xffff);
        i += 1;
        k
    };
    let mut acts: Vec<(u32, Op)> = vec![];
    for p in 0..r.env.terms.len() {
        if r.s.pre[p].is_none() {
            continue;
        }
        let c = r.env.creator(p);
        acts.push((key(), Op::CreatorWithdraw { p, dest: Dest::W(c) }));
        acts.push((key(), Op::CollectFee { p, dest: Dest::W(c) }));
        acts.push((key(), Op::Unsold { p }));
    }
    for (p, u, reg) in r.s.esc.keys().cloned().collect::<Vec<_>>() {
        let mut k = [key(), key(), key()];
        k[2] = k[2].max(k[0]).max(k[1]);
        acts.push((k[0], Op::Claim { p, u, reg, dest: Dest::W(u) }));
        acts.push((k[1], Op::Refund { p, u, reg, dest: Dest::W(u) }));
        acts.push((k[2], Op::Close { p, u, reg, rx: u }));
    }
    acts.sort_by_key(|a| a.0);
    for (_, op) in acts {
        r.exec(&op);
    }
}

fn exit_order(id: &str, m: &MetaRaw, pf: &Profile, tracing: bool) -> Out {
    let raw = Raw { drain: None, ..m.raw.clone() };
    let mut a = base_run(id, &raw, pf, tracing);
    let n = buyers(&a.s);
    let mut b = a.clone();
    b.out = Out::default();
    let order: Vec<u16> = m.raw.drain.clone().unwrap_or_default();
    let other: Vec<u16> = m.plan.iter().flat_map(|x| [x.0, x.2 as u16, (x.2 >> 16) as u16]).collect();
    leave(&mut a, &order);
    leave(&mut b, &other);
    let mut out = a.out.clone();
    out.findings.retain(|f| f.tags.contains(id));
    absorb(&mut out, &b.out, "the same exits in another order", tracing);
    let d = balances(&a.s, &b.s, &BTreeMap::new(), &|_| true);
    if !d.is_empty() {
        report(&mut out, id, "exit", a.step, format!("what is paid out depends on the order of the exits: {}", d.join(", ")));
    }
    if n >= 2 {
        out.keys.push(h64(&format!("{:?}{:?}", a.hist.iter().map(|h| &h.op).collect::<Vec<_>>(), other)));
        out.samples.push(format!("{n} buyers leave in two different orders; terms {:?}", a.env.terms));
    }
    out
}

fn claim_pace(id: &str, m: &MetaRaw, pf: &Profile, tracing: bool) -> Out {
    let raw = Raw { drain: None, ..m.raw.clone() };
    let mut a = base_run(id, &raw, pf, tracing);
    let mut b = a.clone();
    b.out = Out::default();
    let far = a.s.pre.iter().flatten().map(|p| p.end.max(p.vest_end).max(p.imm_ts)).max().unwrap_or(0);
    let now = a.s.now;
    let mut steps = m.plan.clone();
    steps.sort();
    let mut claims = 0;
    for (pos, kind, x) in &steps {
        let span = far.saturating_sub(now) as u128;
        let t = now + (span * *pos as u128 / 65_535) as u64;
        b.exec(&Op::Time { to: t });
        let ks: Vec<_> = b.s.esc.keys().filter(|k| k.1 < N_USERS).cloned().collect();
        if ks.is_empty() {
            break;
        }
        let (p, u, reg) = ks[*x as usize % ks.len()];
        if kind % 4 == 0 {
            b.exec(&Op::Refresh { p, u, reg });
        } else if b.exec(&Op::Claim { p, u, reg, dest: Dest::W(u) }) {
            claims += 1;
        }
    }
    let order: Vec<u16> = m.raw.drain.clone().unwrap_or_default();
    a.drain(&order);
    b.drain(&order);
    let mut out = a.out.clone();
    out.findings.retain(|f| f.tags.contains(id));
    absorb(&mut out, &b.out, "the same with claims along the way", tracing);
    let fee = has_fee(a.env.kind(0));
    let bs = a.env.cs(0);
    let d = balances(&a.s, &b.s, &BTreeMap::new(), &|t| match t {
        Tok::W(_, s) => *s != bs || !fee,
        _ => true,
    });
    if !d.is_empty() {
        report(&mut out, id, "claim", a.step, format!("what is paid out depends on when it was claimed: {}", d.join(", ")));
    }
    if claims > 0 {
        out.keys.push(h64(&format!("{:?}{:?}", a.hist.iter().map(|h| &h.op).collect::<Vec<_>>(), steps)));
        out.samples.push(format!("{claims} claims along the way; terms {:?}", a.env.terms));
    }
    out
}

/// The state after a list of operations as the model sees it, if all are accepted.
fn foresee(r: &Run, ops: &[Op]) -> Option<Snap> {
    let mut s = r.s.clone();
    for op in ops {
        match predict_safe(&r.env, &s, op) {
            Ok(Pred::Ok(b)) => s = b.0,
            _ => return None,
        }
    }
    Some(s)
}
fn alike(a: &Snap, b: &Snap) -> bool {
    a.pre == b.pre && a.esc == b.esc && a.bal == b.bal
}

fn detours(id: &str, m: &MetaRaw, pf: &Profile, tracing: bool) -> Out {
    let a = base_run(id, &m.raw, pf, tracing);
    let mut out = a.out.clone();
    out.findings.retain(|f| f.tags.contains(id));
    let mut b = Run::new(id, mk_env(&m.raw), tracing);
    let n = a.hist.len().max(1);
    let mut taken = 0usize;
    let mut affected = 0usize;
    let mut bad = None;
    'all: for (i, h) in a.hist.iter().enumerate() {
        let mut whole = true;
        for (pos, kind, x) in &m.plan {
            let sale = matches!(h.op, Op::Deposit { .. } | Op::Withdraw { .. });
            // aim at the sale: positions are drawn over the whole history, half of them count only there
            if *pos as usize % n != i && !(sale && kind % 2 == 0 && (*pos as usize / n + i) % 4 == 0) {
                continue;
            }
            if kind / 2 % 4 == 3 {
                let Some(parts) = split(&h.op, *x as u64) else { continue };
                let (Some(s1), Some(s2)) = (foresee(&b, std::slice::from_ref(&h.op)), foresee(&b, &parts)) else { continue };
                if !whole || !alike(&s1, &s2) {
                    continue;
                }
                for o in &parts {
                    if !b.exec(o) {
                        return out;
                    }
                }
                taken += 1;
                whole = false;
                continue;
            }
            if !whole {
                continue;
            }
            let Some(ops) = detour(&b, &h.op, *kind, *x as u64) else { continue };
            match foresee(&b, &ops) {
                Some(s) if alike(&s, &b.s) => {}
                _ => continue,
            }
            for o in &ops {
                if !b.exec(o) {
                    // whether that is right is decided elsewhere
                    return out;
                }
            }
            taken += 1;
        }
        if !whole {
            affected += 1;
            continue;
        }
        let ok = b.exec(&h.op);
        affected += (taken > 0 && pays(h)) as usize;
        if let Some(w) = same_step(h, ok, &b.hist.last().unwrap().ev) {
            bad = Some((i, h.op.name(), format!("after a detour, {w}")));
            break 'all;
        }
    }
    absorb(&mut out, &b.out, "the same history with detours", tracing);
    if bad.is_none() {
        bad = compare(&a.s, &b.s, &BTreeMap::new()).map(|w| (n, "end", format!("after a detour, {w}")));
    }
    if let Some((i, op, w)) = bad {
        report(&mut out, id, op, i, w);
    }
    if taken > 0 && affected > 0 {
        out.keys.push(h64(&format!("{:?}{:?}", a.hist.iter().map(|h| &h.op).collect::<Vec<_>>(), m.plan)));
        out.samples.push(format!("{taken} detours, {affected} accepted payments afterwards; terms {:?}", a.env.terms));
    }
    out
}

fn split(op: &Op, x: u64) -> Option<Vec<Op>> {
    match op {
        Op::Deposit { p, u, reg, amt, payer } if *amt >= 2 => {
            let f = 1 + (x.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 1) % (amt - 1);
            let o = |amt| Op::Deposit { p: *p, u: *u, reg: *reg, amt, payer: *payer };
            Some(vec![o(f), o(amt - f)])
        }
        Op::Withdraw { p, u, reg, amt, dest } if *amt >= 2 => {
            let f = 1 + (x.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 1) % (amt - 1);
            let o = |amt| Op::Withdraw { p: *p, u: *u, reg: *reg, amt, dest: *dest };
            Some(vec![o(f), o(amt - f)])
        }
        _ => None,
    }
}

fn detour(b: &Run, next: &Op, kind: u8, x: u64) -> Option<Vec<Op>> {
    let np = b.env.terms.len();
    let p = op_target(next).0.unwrap_or(x as usize % np);
    b.s.pre[p].as_ref()?;
    let y = x >> 4;
    if kind / 2 % 4 == 2 {
        // somebody joins and leaves again
        let nr = b.env.t(p).regs.len() as u64;
        let free: Vec<(usize, u8)> =
            (0..N_USERS).flat_map(|u| (0..nr as u8).map(move |r| (u, r))).filter(|(u, r)| !b.s.esc.contains_key(&(p, *u, *r))).collect();
        if free.is_empty() {
            return None;
        }
        let (u, reg) = free[y as usize % free.len()];
        let rg = &b.env.t(p).regs[reg as usize];
        let cap = rg.bmax;
        let mut v = vec![Op::CreateEscrow { p, u, reg, cap, how: How::Permissionless }];
        if y % 3 != 0 {
            let s = foresee(b, &v)?;
            let e = s.esc.get(&(p, u, reg))?;
            let amt = amount(b, &s, p, e, y)?;
            v.push(Op::Deposit { p, u, reg, amt, payer: u });
            let d = foresee(b, &v)?.esc.get(&(p, u, reg))?.dep;
            v.push(Op::Withdraw { p, u, reg, amt: d, dest: Dest::W(u) });
        }
        v.push(Op::Close { p, u, reg, rx: u });
        return Some(v);
    }
    let ks: Vec<_> = b.s.esc.keys().filter(|k| k.0 == p && k.1 < N_USERS).cloned().collect();
    if ks.is_empty() {
        return None;
    }
    let k = ks[y as usize % ks.len()];
    let e = b.s.esc[&k].clone();
    let (p, u, reg) = k;
    if kind / 2 % 4 == 1 && e.dep > 0 {
        // out and in again
        let w = [e.dep, (e.dep / 2).max(1), 1][y as usize / 64 % 3];
        let v = vec![Op::Withdraw { p, u, reg, amt: w, dest: Dest::W(u) }];
        let d = e.dep - foresee(b, &v)?.esc.get(&k)?.dep;
        let mut v = v;
        v.push(Op::Deposit { p, u, reg, amt: d, payer: u });
        return Some(v);
    }
    let amt = amount(b, &b.s, p, &e, y)?;
    let mut v = vec![Op::Deposit { p, u, reg, amt, payer: u }];
    let d = foresee(b, &v)?.esc.get(&k)?.dep - e.dep;
    v.push(Op::Withdraw { p, u, reg, amt: d, dest: Dest::W(u) });
    Some(v)
}

fn amount(b: &Run, s: &Snap, p: usize, e: &Esc, y: u64) -> Option<u64> {
    let q = b.env.quota(s, p, e);
    let bmin = b.env.t(p).regs.get(e.reg as usize)?.bmin;
    let q = match b.env.t(p).mode {
        PRORATA => q.min(WALLET_BAL / 64),
        _ => q,
    };
    if q == 0 {
        return None;
    }
    Some(match y / 64 % 5 {
        0 => q,
        1 => (q - 1).max(1),
        2 => bmin.min(q).max(1),
        3 => 1,
        _ => 1 + (y.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 1) % q,
    })
}

/// A renaming of buyers, registries and times.
struct Renaming {
    users: Vec<usize>,
    regs: Vec<u8>,
    shift: u64,
}

fn shuffle<T>(v: &mut [T], mut k: u64) {
    for i in (1..v.len()).rev() {
        k = k.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(0x1234_5677);
        v.swap(i, (k >> 33) as usize % (i + 1));
    }
}

impl Renaming {
    fn new(plan: &[(u16, u8, u32)], nregs: usize) -> Self {
        let x = plan.first().copied().unwrap_or((0, 0, 0));
        let mut users: Vec<usize> = (0..N_USERS).collect();
        let mut regs: Vec<u8> = (0..nregs as u8).collect();
        let k = x.2 as u64;
        let what = x.1 % 8;
        if what & 1 != 0 {
            shuffle(&mut users, k);
        }
        if what & 2 != 0 || what == 0 {
            shuffle(&mut regs, k ^ 0x5555);
            if regs.windows(2).all(|w| w[0] < w[1]) {
                regs.reverse();
            }
        }
        let shift = match (what & 4 != 0 || nregs < 2 && what & 1 == 0, x.0 % 8) {
            (false, _) => 0,
            (_, 0) => 1,
            (_, 1) => k % 1000,
            (_, 2) => k,
            (_, 3) => 1 << 31,
            (_, 4) => 1 << 32,
            (_, 5) => (1 << 33) + k,
            (_, 6) => (1 << 31) - T0 + k % 10_000_000,
            _ => (1 << 32) - T0 + k % 10_000_000,
        };
        Renaming { users, regs, shift }
    }
    fn w(&self, u: usize) -> usize {
        self.users.get(u).copied().unwrap_or(u)
    }
    fn r(&self, r: u8) -> u8 {
        self.regs.get(r as usize).copied().unwrap_or(r)
    }
    /// zero means that there is none
    fn t(&self, t: u64) -> u64 {
        if t == 0 {
            0
        } else {
            t + self.shift
        }
    }
    fn d(&self, d: Dest) -> Dest {
        match d {
            Dest::W(u) => Dest::W(self.w(u)),
            Dest::Vault => Dest::Vault,
        }
    }
    fn list<T: Clone>(&self, v: &[T]) -> Vec<T> {
        let mut n = v.to_vec();
        for (i, x) in v.iter().enumerate() {
            n[self.r(i as u8) as usize] = x.clone();
        }
        n
    }
    fn aux(&self, a: Aux) -> Aux {
        match a {
            Aux::Operator(c, o) => Aux::Operator(self.w(c), self.w(o)),
            x => x,
        }
    }
    fn at(&self, a: At) -> At {
        match a {
            At::Esc(p, u, r) => At::Esc(p, self.w(u), self.r(r)),
            At::Aux(x) => At::Aux(self.aux(x)),
            x => x,
        }
    }
    fn env(&self, e: &Env) -> Env {
        let mut e = e.clone();
        e.t0 = self.t(e.t0);
        for x in e.start.iter_mut() {
            *x = self.t(*x);
        }
        for c in e.creators.iter_mut() {
            *c = self.w(*c);
        }
        for t in e.terms.iter_mut().flatten() {
            t.start = self.t(t.start);
            t.end = self.t(t.end);
            t.lock.ts = self.t(t.lock.ts);
            t.regs = self.list(&t.regs);
        }
        for l in e.lists.iter_mut().flat_map(|l| l.values_mut()) {
            for x in l.iter_mut() {
                *x = (self.w(x.0), self.r(x.1), x.2);
            }
        }
        e
    }
    fn op(&self, op: &Op) -> Op {
        match op.clone() {
            Op::InitFixedArgs { p, owner, q_price, disable_withdraw } => Op::InitFixedArgs { p, owner: self.w(owner), q_price, disable_withdraw },
            Op::CloseFixedArgs { p, signer } => Op::CloseFixedArgs { p, signer: self.w(signer) },
            Op::Init { p, payer, args_of } => Op::Init { p, payer: self.w(payer), args_of },
            Op::CreateEscrow { p, u, reg, cap, how } => {
                let how = match how {
                    How::Operator { creator, owner } => How::Operator { creator: self.w(creator), owner: self.w(owner) },
                    h => h,
                };
                Op::CreateEscrow { p, u: self.w(u), reg: self.r(reg), cap, how }
            }
            Op::Deposit { p, u, reg, amt, payer } => Op::Deposit { p, u: self.w(u), reg: self.r(reg), amt, payer: self.w(payer) },
            Op::Withdraw { p, u, reg, amt, dest } => Op::Withdraw { p, u: self.w(u), reg: self.r(reg), amt, dest: self.d(dest) },
            Op::Claim { p, u, reg, dest } => Op::Claim { p, u: self.w(u), reg: self.r(reg), dest: self.d(dest) },
            Op::Refresh { p, u, reg } => Op::Refresh { p, u: self.w(u), reg: self.r(reg) },
            Op::Refund { p, u, reg, dest } => Op::Refund { p, u: self.w(u), reg: self.r(reg), dest: self.d(dest) },
            Op::Close { p, u, reg, rx } => Op::Close { p, u: self.w(u), reg: self.r(reg), rx: self.w(rx) },
            Op::CreatorWithdraw { p, dest } => Op::CreatorWithdraw { p, dest: self.d(dest) },
            Op::CollectFee { p, dest } => Op::CollectFee { p, dest: self.d(dest) },
            Op::MerkleClose { p, version, rx } => Op::MerkleClose { p, version, rx: self.w(rx) },
            Op::OperatorCreate { c, o } => Op::OperatorCreate { c: self.w(c), o: self.w(o) },
            Op::OperatorRevoke { c, o } => Op::OperatorRevoke { c: self.w(c), o: self.w(o) },
            Op::ServerClose { p, rx } => Op::ServerClose { p, rx: self.w(rx) },
            Op::Donate { p, side, amt, from } => Op::Donate { p, side, amt, from: self.w(from) },
            Op::Dust { at, amt } => Op::Dust { at: self.at(at), amt },
            Op::Crowd { p, reg, n } => Op::Crowd { p, reg: self.r(reg), n },
            Op::Time { to } => Op::Time { to: self.t(to) },
            x @ (Op::Unsold { .. } | Op::MerkleCreate { .. } | Op::ServerCreate { .. } | Op::Legacy { .. } | Op::Epoch { .. }) => x,
        }
    }
    fn key(&self, k: solana_sdk::pubkey::Pubkey) -> solana_sdk::pubkey::Pubkey {
        (0..N_USERS).find(|u| wallet(*u) == k).map(|u| wallet(self.w(u))).unwrap_or(k)
    }
    /// What a state looks like under the new names.
    fn snap(&self, s: &Snap) -> Snap {
        let mut n = s.clone();
        n.now = self.t(s.now);
        for p in n.pre.iter_mut().flatten() {
            p.owner = self.key(p.owner);
            for t in [&mut p.start, &mut p.end, &mut p.created, &mut p.imm_ts, &mut p.vest_start, &mut p.vest_end] {
                *t = self.t(*t);
            }
            let k = p.nreg as usize;
            if k <= p.regs.len() && k >= self.regs.len() {
                p.regs = self.list(&p.regs);
            }
        }
        n.esc = s
            .esc
            .iter()
            .map(|((p, u, r), e)| {
                let mut e = e.clone();
                e.owner = self.key(e.owner);
                e.reg = self.r(e.reg);
                e.created = self.t(e.created);
                e.refreshed = self.t(e.refreshed);
                ((*p, self.w(*u), self.r(*r)), e)
            })
            .collect();
        n.bal = s
            .bal
            .iter()
            .map(|(t, v)| match t {
                Tok::W(u, side) => (Tok::W(self.w(*u), *side), *v),
                t => (*t, *v),
            })
            .collect();
        n
    }
}

fn renamed(id: &str, m: &MetaRaw, pf: &Profile, tracing: bool) -> Out {
    let a = base_run(id, &m.raw, pf, tracing);
    let mut out = a.out.clone();
    out.findings.retain(|f| f.tags.contains(id));
    let env = mk_env(&m.raw);
    // one renaming for all presales (lists of one may be shown to the other)
    let nregs = env.terms.iter().flatten().map(|t| t.regs.len()).min().unwrap_or(1);
    let rn = Renaming::new(&m.plan, nregs);
    let mut b = Run::new(id, rn.env(&env), tracing);
    // wallets do not all start with the same amount
    let start = rn.snap(&Run::new(id, env, false).s);
    let adj = b.s.bal.iter().map(|(t, v)| (*t, *v as i128 - start.bal.get(t).copied().unwrap_or(0) as i128)).collect();
    let mut bad = None;
    let mut paid = 0;
    let mut short = false;
    for (i, h) in a.hist.iter().enumerate() {
        let op = rn.op(&h.op);
        let ok = b.exec(&op);
        paid += pays(h) as usize;
        if matches!(h.op, Op::Init { .. } | Op::Deposit { .. } | Op::Donate { .. }) && (h.funds || b.hist.last().is_some_and(|l| l.funds)) {
            short = true;
            break;
        }
        if ok != h.ok {
            bad = Some((i, h.op.name(), format!("{:?} is {}, but under other names {:?} is {}", h.op, word(h.ok), op, word(ok))));
            break;
        }
    }
    absorb(&mut out, &b.out, &format!("the same history with buyers {:?}, registries {:?}, {} s later", rn.users, rn.regs, rn.shift), tracing);
    if bad.is_none() && !short {
        let e = rn.snap(&a.s);
        let d = balances(&e, &b.s, &adj, &|_| true);
        if !d.is_empty() {
            bad = Some((a.hist.len(), "end", format!("under other names, token balances differ: {}", d.join(", "))));
        } else if let Some(p) = (0..e.pre.len()).find(|p| e.pre[*p] != b.s.pre[*p]) {
            bad = Some((a.hist.len(), "end", format!("under other names, presale{p} ends differently: {} and {}", brief(&e.pre[p]), brief(&b.s.pre[p]))));
        } else if e.esc != b.s.esc {
            let k = e.esc.keys().chain(b.s.esc.keys()).find(|k| e.esc.get(k) != b.s.esc.get(k)).unwrap();
            bad = Some((a.hist.len(), "end", format!("under other names, escrow {k:?} ends differently: {:?} and {:?}", e.esc.get(k), b.s.esc.get(k))));
        }
    }
    if let Some((i, op, w)) = bad {
        report(&mut out, id, op, i, w);
    }
    if paid > 0 && !short {
        out.keys.push(h64(&format!("{:?}{:?}{:?}{}", a.hist.iter().map(|h| &h.op).collect::<Vec<_>>(), rn.users, rn.regs, rn.shift)));
        out.samples.push(format!("{paid} accepted payments, replayed with buyers {:?}, registries {:?}, {} s later; terms {:?}", rn.users, rn.regs, rn.shift, a.env.terms));
    }
    out
}
