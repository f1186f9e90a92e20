//! Runs one raw scenario against the program and collects findings and coverage.

use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};

#[derive(Default, Clone)]
pub struct Out {
    pub findings: Vec<Finding>,
    pub trace: Vec<String>,
    /// hashes of non-trivial cases
    pub keys: Vec<u64>,
    pub samples: Vec<String>,
    /// operations by name: (accepted, rejected)
    pub ops: BTreeMap<&'static str, (u64, u64)>,
    pub txs: u64,
    pub tampered: u64,
    pub classes: BTreeMap<&'static str, u64>,
    /// predicted reasons of rejected operations
    pub reasons: BTreeMap<String, u64>,
}

/// One executed operation and how it ended.
#[derive(Clone)]
pub struct Step {
    pub op: Op,
    pub ok: bool,
    pub ev: Vec<(String, Vec<u8>)>,
    /// rejected because of missing tokens, among others
    pub funds: bool,
}

#[derive(Clone)]
pub struct Run<'a> {
    pub id: &'a str,
    pub w: World,
    pub env: Env,
    pub s: Snap,
    pub out: Out,
    pub step: usize,
    /// per presale and registry: totals of closed escrows (deposit, fee, claimed)
    pub closed: BTreeMap<(usize, u8), (u128, u128, u128)>,
    pub ever: BTreeMap<(usize, u8), u64>,
    /// escrows of wallets outside the scenario
    pub crowd: BTreeMap<(usize, u8), u64>,
    /// tokens put into a vault outside the protocol: donations and self payments
    pub extra: BTreeMap<Tok, u128>,
    pub tracing: bool,
    /// once something deviated: the state the history should have led to
    pub ideal: Option<Snap>,
    pub lost: bool,
    pub hist: Vec<Step>,
}

pub fn h64<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl<'a> Run<'a> {
    pub fn new(id: &'a str, env: Env, tracing: bool) -> Self {
        let mut w = fresh();
        w.epoch = 600;
        w.set_time(env.t0 as i64);
        for side in 0..2 {
            if has_fee(env.kind(side)) {
                let c = env.fee[env.cs(side)];
                set_fee_cfg(&mut w, &env.mint(side), &c);
            }
        }
        if env.rich {
            // base tokens are with the first creator, quote tokens with the buyers
            let c = env.creator(0);
            let few = |i: usize| 1u64 << (40 + i % 3);
            deal(&mut w, &env.mint(0), &|i| if i == c { u64::MAX } else if i < N_USERS { 0 } else { few(i) });
            deal(&mut w, &env.mint(1), &|i| if i < N_USERS { u64::MAX >> (1 + i) } else { few(i) });
        }
        let s = snapshot(&w, &env);
        Run {
            id,
            w,
            env,
            s,
            out: Out::default(),
            step: 0,
            closed: BTreeMap::new(),
            ever: BTreeMap::new(),
            crowd: BTreeMap::new(),
            extra: BTreeMap::new(),
            tracing,
            ideal: None,
            lost: false,
            hist: vec![],
        }
    }

    pub fn class(&mut self, c: &'static str) {
        *self.out.classes.entry(c).or_default() += 1;
    }

    pub fn find(&mut self, op: &str, what: String, tags: BTreeSet<&'static str>) {
        let dup = self.out.findings.iter().filter(|f| f.op == op && f.tags == tags).count();
        if dup < 3 && self.out.findings.len() < 200 {
            if self.tracing {
                self.out.trace.push(format!("    !! {what} {tags:?}"));
            }
            self.out.findings.push(Finding { step: self.step, op: op.to_string(), what, tags });
        }
    }

    pub fn tamper(&mut self, op: &Op, tam: u16, n: usize) {
        let Ok(Pred::Ok(b)) = predict_safe(&self.env, &self.s, op) else { return };
        let moved = b.0.bal != self.s.bal;
        for (l, ix) in variants(&self.env, &self.s, op, moved).into_iter().skip(tam as usize % 2).take(1) {
            let mut w2 = self.w.clone();
            let res = w2.send(&[ix.build()]).map(|m| events_of(&m));
            self.out.txs += 1;
            let act = snapshot(&w2, &self.env);
            let pred = Ok(Pred::Ok(b.clone()));
            for (what, mut tags) in judge(&w2, &self.env, &self.s, op, &pred, &res, &act) {
                tags.insert("C23");
                self.find(op.name(), format!("{l}: {what}"), tags);
            }
            self.class("calls written another way");
        }
        // only the ones the property at hand is about
        let mut all = tampers(&self.w, &self.env, &self.s, op, moved);
        all.retain(|t| t.tags.contains(&self.id));
        let len = all.len();
        for i in 0..n.min(len) {
            let t = &all[(tam as usize + i) % len];
            let mut w2 = self.w.clone();
            for (k, a) in &t.forge {
                w2.svm.set_account(*k, a.clone()).unwrap();
            }
            let r = w2.send(&[t.ix.build()]);
            self.out.txs += 1;
            self.out.tampered += 1;
            if matches!(self.id, "C15" | "C16" | "C17" | "C19" | "C23" | "C26") {
                self.nontrivial(&(op.name(), &t.label, h64(&format!("{op:?}{}", self.s.now))), || {
                    format!("tampered {}: {} -> rejected; {:?}", op.name(), t.label, op)
                });
            }
            if r.is_ok() {
                let tags: BTreeSet<&'static str> = t.tags.iter().copied().collect();
                let l = t.label.clone();
                self.find(op.name(), format!("tampered call accepted: {l} ({op:?})"), tags);
            }
        }
    }

    pub fn nontrivial<T: Hash>(&mut self, key: &T, sample: impl FnOnce() -> String) {
        self.out.keys.push(h64(key));
        if self.out.samples.len() < 2 {
            let s = sample();
            self.out.samples.push(s);
        }
    }

    pub fn exec(&mut self, op: &Op) -> bool {
        self.step += 1;
        let pred = predict_safe(&self.env, &self.s, op);
        let res = send_op(&mut self.w, &self.env, &self.s, op);
        if build_needed(op) {
            self.out.txs += 1;
            let e = self.out.ops.entry(op.name()).or_default();
            if res.is_ok() {
                e.0 += 1;
            } else {
                e.1 += 1;
            }
        }
        if let (Ok(Pred::Fail(why)), true) = (&pred, build_needed(op)) {
            *self.out.reasons.entry(format!("{}: {}", op.name(), why.iter().map(|w| format!("{w:?}")).collect::<Vec<_>>().join("+"))).or_default() += 1;
        }
        let act = snapshot(&self.w, &self.env);
        if self.tracing {
            let o = match (&pred, &res) {
                (Ok(Pred::Fail(w)), Err(e)) => format!("rejected as predicted {w:?} [{}]", short(&e.err)),
                (Ok(Pred::Ok(_)), Ok(_)) => "ok".to_string(),
                (_, Ok(_)) => "accepted".to_string(),
                (_, Err(e)) => format!("rejected [{}]", short(&e.err)),
            };
            self.out.trace.push(format!("{:3} t={} {:?} -> {}", self.step, self.s.now, op, o));
        }
        if matches!(self.id, "C28" | "C29" | "C30") {
            self.hist.push(Step {
                op: op.clone(),
                ok: res.is_ok(),
                ev: res.as_ref().cloned().unwrap_or_default(),
                funds: matches!(&pred, Ok(Pred::Fail(w)) if w.contains(&Why::Funds)),
            });
        }
        let found = judge(&self.w, &self.env, &self.s, op, &pred, &res, &act);
        let deviates = !found.is_empty();
        for (what, tags) in found {
            self.find(op.name(), what, tags);
        }
        self.follow(op, &pred, res.is_ok(), &act, deviates);
        match op {
            Op::Dust { .. } => self.class("address funded by somebody"),
            Op::Crowd { .. } => self.class("many other escrows"),
            Op::Legacy { .. } => self.class("presales of the previous version"),
            _ => {}
        }
        self.mark(op, &pred, res.is_ok(), &act);
        let ok = res.is_ok();
        if ok {
            self.ghost(op, &act);
        }
        self.s = act;
        if ok {
            self.invariants(op);
        }
        ok
    }

    /// Keep the state the history should have led to, once the observed one has left it.
    fn follow(&mut self, op: &Op, pred: &Result<Pred, String>, ok: bool, act: &Snap, deviates: bool) {
        if self.lost || (self.ideal.is_none() && !deviates) {
            return;
        }
        let Some(ideal) = self.ideal.take() else {
            match pred {
                Ok(Pred::Fail(_)) => self.ideal = Some(self.s.clone()),
                Ok(Pred::Ok(b)) => self.ideal = Some(complete(&self.w, &self.env, op, &b.0)),
                Err(_) => self.lost = true,
            }
            return;
        };
        let Ok(p) = predict_safe(&self.env, &ideal, op) else {
            self.lost = true;
            return;
        };
        let found = crate::rt::quiet(|| {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| judge_history(&self.env, &ideal, &self.s, op, &p, ok, act)))
        });
        for (what, tags) in found.unwrap_or_default() {
            self.find(op.name(), what, tags);
        }
        self.ideal = Some(match p {
            Pred::Fail(_) => ideal,
            Pred::Ok(b) => complete(&self.w, &self.env, op, &b.0),
        });
    }

    fn ghost(&mut self, op: &Op, act: &Snap) {
        match op {
            Op::Init { p, args_of, .. } => {
                if let (Some(a), Some(t)) = (args_of, self.env.terms[*p].as_mut()) {
                    if t.mode == FIXED {
                        let src = self.ideal.as_ref().unwrap_or(&self.s);
                        if let Some((_, d)) = src.aux.get(&Aux::FixedArgs(*a)) {
                            t.q_price = rd_u128(d, 24);
                            t.disable_withdraw = d[23];
                        }
                    }
                }
                self.env.start[*p] = self.env.t(*p).start.max(self.s.now);
            }
            Op::Crowd { p, reg, n } => *self.crowd.entry((*p, *reg)).or_default() += n,
            Op::CreateEscrow { p, reg, .. } => *self.ever.entry((*p, *reg)).or_default() += 1,
            Op::Close { p, u, reg, .. } => {
                if let Some(e) = self.s.esc.get(&(*p, *u, *reg)) {
                    let c = self.closed.entry((*p, *reg)).or_default();
                    c.0 += e.dep as u128;
                    c.1 += e.fee as u128;
                    c.2 += e.claimed as u128;
                }
            }
            Op::Donate { p, side, .. } => {
                let t = if *side == 0 { Tok::BV(*p) } else { Tok::QV(*p) };
                let d = act.bal[&t] - self.s.bal[&t];
                *self.extra.entry(t).or_default() += d as u128;
            }
            Op::Withdraw { p, u, reg, dest: Dest::Vault, .. } => {
                let k = (*p, *u, *reg);
                let d = self.s.esc[&k].dep.saturating_sub(act.esc.get(&k).map(|e| e.dep).unwrap_or(0));
                *self.extra.entry(Tok::QV(*p)).or_default() += d as u128;
            }
            Op::Claim { p, dest: Dest::Vault, .. } => {
                let d = act.pre[*p].as_ref().unwrap().claimed.saturating_sub(self.s.pre[*p].as_ref().unwrap().claimed);
                *self.extra.entry(Tok::BV(*p)).or_default() += d as u128;
            }
            Op::Refund { p, dest: Dest::Vault, .. } => {
                let d = act.pre[*p].as_ref().unwrap().refunded.saturating_sub(self.s.pre[*p].as_ref().unwrap().refunded);
                *self.extra.entry(Tok::QV(*p)).or_default() += d as u128;
            }
            Op::CreatorWithdraw { p, dest: Dest::Vault } => {
                let pr = self.s.pre[*p].as_ref().unwrap();
                if self.env.phase(&self.s, *p) == Phase::Failed {
                    *self.extra.entry(Tok::BV(*p)).or_default() += pr.supply as u128;
                } else {
                    *self.extra.entry(Tok::QV(*p)).or_default() += pr.dep.min(pr.max_cap) as u128;
                }
            }
            Op::CollectFee { p, dest: Dest::Vault } => {
                let f = self.env.fee_due(&self.s, *p);
                *self.extra.entry(Tok::QV(*p)).or_default() += f as u128;
            }
            _ => {}
        }
    }

    /// History invariants, evaluated on the observed state only.
    fn invariants(&mut self, op: &Op) {
        let name = op.name();
        for p in 0..self.env.terms.len() {
            let Some(pr) = self.s.pre[p].clone() else { continue };
            let env = self.env.clone();
            let s = &self.s;
            let escs: Vec<(u8, Esc)> = s.esc.iter().filter(|(k, _)| k.0 == p).map(|(k, e)| (k.2, e.clone())).collect();
            let mut bad: Vec<(String, Vec<&'static str>)> = vec![];
            if escs.iter().any(|(_, e)| e.reg as usize >= env.t(p).regs.len()) {
                bad.push(("an escrow belongs to a registry that does not exist".into(), vec!["C15", "C03"]));
                for (what, tags) in bad {
                    self.find(name, what, tags.into_iter().collect());
                }
                return;
            }
            let ph = env.phase(s, p);
            let qv = *s.bal.get(&Tok::QV(p)).unwrap_or(&0) as u128;
            let bv = *s.bal.get(&Tok::BV(p)).unwrap_or(&0) as u128;
            let r = crate::rt::quiet(|| {
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    // quote liabilities
                    let refunds: u128 = escs
                        .iter()
                        .filter(|(_, e)| e.refunded == 0)
                        .map(|(_, e)| match env.refund(s, p, e) {
                            Some((a, f)) => a as u128 + f as u128,
                            None => 0,
                        })
                        .sum();
                    let ql = match ph {
                        Phase::NotStarted | Phase::Ongoing => {
                            escs.iter().map(|(_, e)| e.dep as u128 + e.fee as u128).sum::<u128>()
                        }
                        Phase::Failed => refunds,
                        Phase::Completed => {
                            let c = if pr.creator_withdrawn == 0 { pr.dep.min(pr.max_cap) as u128 } else { 0 };
                            let f = if pr.fee_collected == 0 { env.fee_due(s, p) as u128 } else { 0 };
                            c + f + refunds
                        }
                    };
                    let total_supply: u128 = env.t(p).regs.iter().map(|r| r.supply as u128).sum();
                    let bl = match ph {
                        Phase::NotStarted | Phase::Ongoing => total_supply,
                        Phase::Failed => {
                            if pr.creator_withdrawn == 0 {
                                total_supply
                            } else {
                                0
                            }
                        }
                        Phase::Completed => {
                            let a: u128 =
                                escs.iter().map(|(_, e)| (env.full_allocation(s, p, e).saturating_sub(e.claimed)) as u128).sum();
                            a + if pr.unsold_done == 0 { env.unsold(s, p) as u128 } else { 0 }
                        }
                    };
                    (ql, bl)
                }))
            });
            match r {
                Ok((ql, bl)) => {
                    if qv < ql {
                        bad.push((format!("quote vault of presale{p} holds {qv} but owes {ql} ({ph:?})"), vec!["C01"]));
                    }
                    if bv < bl {
                        bad.push((format!("base vault of presale{p} holds {bv} but owes {bl} ({ph:?})"), vec!["C02"]));
                    }
                }
                Err(_) => bad.push(("liabilities cannot be computed: counters are inconsistent".into(), vec!["C03", "C01", "C02"])),
            }
            // counters
            let n = env.t(p).regs.len();
            let mut sums = (0u128, 0u128, 0u128, 0u64);
            for ri in 0..n {
                let c = self.closed.get(&(p, ri as u8)).cloned().unwrap_or_default();
                let live: Vec<&Esc> = escs.iter().filter(|(r, _)| *r as usize == ri).map(|(_, e)| e).collect();
                let d = c.0 + live.iter().map(|e| e.dep as u128).sum::<u128>();
                let f = c.1 + live.iter().map(|e| e.fee as u128).sum::<u128>();
                let cl = c.2 + live.iter().map(|e| e.claimed as u128).sum::<u128>();
                let g = &pr.regs[ri];
                let count = live.len() as u64 + self.crowd.get(&(p, ri as u8)).unwrap_or(&0);
                if (g.dep as u128, g.fee as u128, g.claimed as u128, g.escrows) != (d, f, cl, count) {
                    bad.push((
                        format!(
                            "registry {ri} records (deposit, fee, claimed, escrows) = {:?}, its escrows add up to {:?}",
                            (g.dep, g.fee, g.claimed, g.escrows),
                            (d, f, cl, count)
                        ),
                        vec!["C03"],
                    ));
                }
                sums.0 += d;
                sums.1 += f;
                sums.2 += cl;
                sums.3 += count;
                if ph == Phase::Completed && cl > env.reg_sold(s, p, ri) as u128 {
                    bad.push((
                        format!("registry {ri}: {cl} claimed, only {} sold", env.reg_sold(s, p, ri)),
                        vec!["C02", "C09"],
                    ));
                }
                if g.bps == 0 && g.fee != 0 {
                    bad.push((format!("registry {ri} charges no fee but recorded {}", g.fee), vec!["C04"]));
                }
            }
            if (pr.dep as u128, pr.fee as u128, pr.claimed as u128, pr.escrows) != sums {
                bad.push((
                    format!("presale totals {:?} differ from the sum over escrows {:?}", (pr.dep, pr.fee, pr.claimed, pr.escrows), sums),
                    vec!["C03"],
                ));
            }
            if env.t(p).mode != PRORATA && pr.dep > env.t(p).max_cap {
                bad.push((format!("deposits {} exceed the maximum cap {}", pr.dep, pr.max_cap), vec!["C04", "C01"]));
            }
            for (_, e) in &escs {
                let ra = &env.t(p).regs[e.reg as usize];
                if e.dep > ra.bmax.min(e.cap) || (e.dep != 0 && e.dep < ra.bmin) {
                    bad.push((
                        format!("escrow holds {} outside its allowed range [{}, {}]", e.dep, ra.bmin, ra.bmax.min(e.cap)),
                        vec!["C04", "C05"],
                    ));
                }
            }
            for (what, tags) in bad {
                self.find(name, what, tags.into_iter().collect());
            }
        }
    }

    /// Does this step count as a non-trivial case of the property under check?
    fn mark(&mut self, op: &Op, pred: &Result<Pred, String>, ok: bool, act: &Snap) {
        if !build_needed(op) {
            return;
        }
        let id = self.id;
        let (tp, _) = op_target(op);
        let phase = tp.and_then(|p| self.s.pre[p].as_ref().map(|_| self.env.phase(&self.s, p)));
        let why: &[Why] = match pred {
            Ok(Pred::Fail(w)) => w,
            _ => &[],
        };
        let name = op.name();
        let moved = |t: &dyn Fn(&Tok) -> bool| act.bal.iter().any(|(k, v)| t(k) && self.s.bal.get(k) != Some(v));
        let hit = match id {
            "C01" => ok && moved(&|t| matches!(t, Tok::QV(_))),
            "C02" => ok && (moved(&|t| matches!(t, Tok::BV(_))) || act.supply != self.s.supply),
            "C03" => ok && act.pre != self.s.pre,
            "C04" => {
                name == "deposit"
                    && (ok || why.iter().all(|w| matches!(w, Why::Zero | Why::CapRange | Why::Funds | Why::Overflow)))
            }
            "C05" => {
                name == "withdraw"
                    && (ok || why.iter().all(|w| matches!(w, Why::Zero | Why::CapRange | Why::Balance | Why::Mode)))
            }
            "C06" => {
                (ok && phase.is_some() && !matches!(op, Op::Refresh { .. } | Op::Donate { .. })) || why == [Why::Phase]
            }
            "C07" => {
                ok && matches!(op, Op::Deposit { .. })
                    && tp.map(|p| act.pre[p].as_ref().map(|x| x.end) != self.s.pre[p].as_ref().map(|x| x.end)).unwrap_or(false)
            }
            "C08" => ok && matches!(op, Op::Claim { .. } | Op::Refresh { .. }) && phase == Some(Phase::Completed),
            "C09" => {
                ok && matches!(op, Op::Claim { .. })
                    && moved(&|t| matches!(t, Tok::BV(_)))
                    && op_target(op).1.map(|k| self.ever.get(&(k.0, k.2)).copied().unwrap_or(0) >= 2).unwrap_or(false)
            }
            "C10" => {
                matches!(op, Op::Refund { .. })
                    && phase == Some(Phase::Completed)
                    && ((ok && moved(&|t| matches!(t, Tok::QV(_)))) || why == [Why::Done] || why == [Why::Phase])
            }
            "C11" => matches!(op, Op::Refund { .. } | Op::CreatorWithdraw { .. }) && phase == Some(Phase::Failed) && (ok || why == [Why::Done]),
            "C12" => matches!(op, Op::CreatorWithdraw { .. }) && (ok || why == [Why::Done] || why == [Why::Phase]),
            "C13" => matches!(op, Op::CollectFee { .. }) && ((ok && moved(&|t| matches!(t, Tok::QV(_)))) || why == [Why::Done] || why == [Why::Phase]),
            "C14" => matches!(op, Op::Unsold { .. }) && (ok || why == [Why::Done] || why == [Why::Phase] || why == [Why::NoUnsold]),
            "C15" => {
                matches!(op, Op::CreateEscrow { .. })
                    && (ok || why.iter().all(|w| matches!(w, Why::Entitled | Why::RegIndex | Why::PersonalCap | Why::Exists)))
            }
            "C18" | "C27" if matches!(op, Op::Init { .. }) => true,
            "C19" => {
                matches!(op, Op::InitFixedArgs { .. } | Op::CloseFixedArgs { .. })
                    || matches!(op, Op::Init { p, .. } if self.env.t(*p).mode == FIXED)
            }
            "C20" => matches!(op, Op::Close { .. }) && (ok || why == [Why::Owed] || why == [Why::Phase]),
            "C21" => ok && tp.is_some() && !matches!(op, Op::InitFixedArgs { .. } | Op::CloseFixedArgs { .. }),
            "C23" => {
                ok && op_side(&self.env, &self.s, op).map(|s| self.env.kind(s) != K_SPL).unwrap_or(false)
                    && moved(&|t| matches!(t, Tok::QV(_) | Tok::BV(_)))
            }
            "C24" => ok && !matches!(op, Op::Donate { .. }),
            "C26" => {
                op_props(&self.env, &self.s, op).contains(&"C26")
                    && (ok || why.iter().all(|w| matches!(w, Why::Phase | Why::Mode | Why::Exists | Why::Missing)))
            }
            "C27" => ok,
            _ => false,
        };
        if ok {
            if let Some(p) = tp {
                let m = match self.env.t(p).mode {
                    FIXED => "accepted ops on fixed-price presales",
                    PRORATA => "accepted ops on pro-rata presales",
                    _ => "accepted ops on first-come presales",
                };
                self.class(m);
            }
        }
        if hit {
            let d = tp.and_then(|p| self.s.pre[p].as_ref().map(|x| (x.dep, x.claimed, x.end, x.supply, x.max_cap)));
            let op2 = op.clone();
            let now = self.s.now;
            let t = tp.map(|p| self.env.t(p).clone());
            self.nontrivial(&(format!("{op:?}"), now, d, ok, tp.map(|p| self.env.t(p).supply_hash())), || {
                format!(
                    "t={} {:?} {} presale terms {:?} state(dep,claimed,end,supply,max)={:?}",
                    now,
                    op2,
                    if ok { "accepted".to_string() } else { format!("rejected {why:?}") },
                    t,
                    d
                )
            });
        }
    }

    /// Everybody leaves, in the given order; afterwards only rounding dust may remain.
    pub fn drain(&mut self, order: &[u16]) {
        let np = self.env.terms.len();
        let mut far = self.s.now;
        for p in 0..np {
            if let Some(pr) = &self.s.pre[p] {
                far = far.max(pr.end).max(pr.vest_end).max(pr.imm_ts);
            }
        }
        self.exec(&Op::Time { to: far + (order.first().copied().unwrap_or(0) % 3) as u64 });
        let mut acts: Vec<(u32, Op)> = vec![];
        let mut i = 0usize;
        let mut key = |cls: u32| {
            let k = order.get(i % order.len().max(1)).copied().unwrap_or(0) as u32 ^ (i as u32 * 40503 & 0xff);
            i += 1;
            k | cls
        };
        for p in 0..np {
            if self.s.pre[p].is_none() {
                continue;
            }
            acts.push((key(0), Op::CreatorWithdraw { p, dest: Dest::W(self.env.creator(p)) }));
            acts.push((key(0), Op::CollectFee { p, dest: Dest::W(self.env.creator(p)) }));
            acts.push((key(0), Op::Unsold { p }));
        }
        // an escrow is closed at the very end, or (sometimes) any time after its own exits
        let late = order.get(1).copied().unwrap_or(0) % 2 == 0;
        for k in self.s.esc.keys().cloned().collect::<Vec<_>>() {
            let (p, u, reg) = k;
            let (a, b, c) = (key(0), key(0), key(0));
            let c = if late { c | 1 << 20 } else { c.max(a).max(b) };
            acts.push((a, Op::Claim { p, u, reg, dest: Dest::W(u) }));
            acts.push((b, Op::Refund { p, u, reg, dest: Dest::W(u) }));
            acts.push((c, Op::Close { p, u, reg, rx: u }));
        }
        acts.sort_by_key(|a| a.0);
        let had: BTreeSet<_> = self.s.esc.keys().cloned().collect();
        for (_, op) in acts {
            self.exec(&op);
        }
        let env = self.env.clone();
        for p in 0..np {
            let Some(pr) = self.s.pre[p].clone() else { continue };
            let ph = env.phase(&self.s, p);
            let n: u64 = (0..5).map(|r| self.ever.get(&(p, r)).copied().unwrap_or(0)).sum();
            let mut bad: Vec<(String, Vec<&'static str>)> = vec![];
            let left: Vec<_> = self.s.esc.keys().filter(|k| k.0 == p).collect();
            if !left.is_empty() {
                bad.push((format!("escrows {left:?} cannot be closed after everything was paid out"), vec!["C25", "C20"]));
            }
            let q = self.s.bal[&Tok::QV(p)] as u128;
            let b = self.s.bal[&Tok::BV(p)] as u128;
            let qx = self.extra.get(&Tok::QV(p)).copied().unwrap_or(0);
            let bx = self.extra.get(&Tok::BV(p)).copied().unwrap_or(0);
            let (qd, bd) = match ph {
                Phase::Failed => (0, 0),
                Phase::Completed if env.t(p).mode == PRORATA => (3 * (n as u128 + 5), 2 * n as u128),
                _ => (0, 2 * n as u128),
            };
            if q < qx || q - qx > qd {
                bad.push((format!("quote vault keeps {q} after full exit (donated {qx}, dust bound {qd}, {ph:?})"), vec!["C25", "C01"]));
            }
            if b < bx || b - bx > bd {
                bad.push((format!("base vault keeps {b} after full exit (donated {bx}, dust bound {bd}, {ph:?})"), vec!["C25", "C02"]));
            }
            // pro-rata fairness of the final allocation
            if ph == Phase::Completed {
                for r in 0..env.t(p).regs.len() {
                    let sold = env.reg_sold(&self.s, p, r) as u128;
                    let c = self.closed.get(&(p, r as u8)).cloned().unwrap_or_default();
                    let ne = self.ever.get(&(p, r as u8)).copied().unwrap_or(0) as u128;
                    if pr.regs[r].dep > 0 && (c.2 > sold || c.2 + 2 * ne < sold) && left.is_empty() {
                        bad.push((format!("registry {r}: {} of {} sold tokens were claimed", c.2, sold), vec!["C09", "C25"]));
                    }
                }
            }
            if self.id == "C25" && n > 0 && (pr.dep > 0 || !had.is_empty()) {
                let k = (p, pr.dep, pr.claimed, pr.refunded, pr.end, n);
                self.nontrivial(&k, || format!("full exit of presale{p} {ph:?}: {n} escrows, deposits {}, claimed {}, refunded {}, left quote {q} base {b}", pr.dep, pr.claimed, pr.refunded));
            }
            for (what, tags) in bad {
                self.find("drain", what, tags.into_iter().collect());
            }
        }
        self.class("full-exit runs");
    }
}

fn build_needed(op: &Op) -> bool {
    !matches!(op, Op::Time { .. } | Op::Epoch { .. } | Op::Dust { .. } | Op::Crowd { .. } | Op::Legacy { .. })
}
pub fn short(e: &str) -> String {
    e.chars().take(80).collect()
}

impl Terms {
    pub fn supply_hash(&self) -> u64 {
        h64(&format!("{self:?}"))
    }
}

pub fn run(id: &str, raw: &Raw, pf: &Profile, tracing: bool) -> Out {
    history(id, raw, pf, tracing).out
}

/// Run a scenario and keep everything.
pub fn history<'a>(id: &'a str, raw: &Raw, pf: &Profile, tracing: bool) -> Run<'a> {
    let env = mk_env(raw);
    let mut r = Run::new(id, env, tracing);
    if tracing {
        r.out.trace.push(format!("env base_kind={} quote_kind={} same_mint={} fee={:?}", raw.base_kind, raw.quote_kind, raw.same_mint, r.env.fee));
        for (i, t) in r.env.terms.iter().enumerate() {
            let l = format!("presale{i} terms {:?}", t.as_ref().unwrap());
            r.out.trace.push(l);
        }
    }
    let ntam = if pf.tamper >= 50 { 12 } else { 4 };
    if pf.pre_before_init {
        for o in &raw.pre {
            step_raw(&mut r, o, ntam);
        }
    }
    let np = raw.terms.len();
    for p in 0..np {
        let t = r.env.t(p).clone();
        let c = r.env.creator(p);
        let mut args_of = None;
        if t.mode == FIXED {
            if !r.s.aux.contains_key(&Aux::FixedArgs(p)) {
                let op = Op::InitFixedArgs { p, owner: c, q_price: t.q_price, disable_withdraw: t.disable_withdraw };
                if raw.init_tam > 0 {
                    r.tamper(&op, raw.init_tam, ntam);
                }
                r.exec(&op);
            }
            args_of = Some(p);
        }
        let payer = if raw.init_tam % 5 == 1 { FUNDER } else { CREATOR0 + p };
        if raw.init_tam % 3 == 1 && np == 2 && t.mode == FIXED {
            // the price account of another presale, whoever owns it
            let q = 1 - p;
            if !r.s.aux.contains_key(&Aux::FixedArgs(q)) {
                let t2 = r.env.t(q).clone();
                let owner = if raw.who & 1 == 0 { c } else { r.env.creator(q) };
                let (q_price, disable_withdraw) = if t2.mode == FIXED { (t2.q_price, t2.disable_withdraw) } else { (t.q_price, 1 - (t.disable_withdraw & 1)) };
                r.exec(&Op::InitFixedArgs { p: q, owner, q_price, disable_withdraw });
            }
            r.exec(&Op::Init { p, payer, args_of: Some(1 - p) });
        }
        let odd = raw.odd as u64;
        if odd % 4 == 0 {
            let at = [At::Pre(p), At::Vault(p, 0), At::Vault(p, 1)][(odd / 4) as usize % 3];
            if r.s.pre[p].is_none() {
                r.exec(&Op::Dust { at, amt: dust_amt(odd * 2654435761 >> 7) });
            }
        }
        let op = Op::Init { p, payer, args_of };
        if raw.init_tam > 0 {
            r.tamper(&op, raw.init_tam, ntam);
        }
        r.exec(&op);
        if odd % 5 == 0 && r.s.pre[p].is_some() {
            let k = odd / 5;
            let n = [1, 254, 255, 256, 65_534, 65_535, u32::MAX as u64 - 1, u32::MAX as u64, 1 << 40][k as usize % 9];
            r.exec(&Op::Crowd { p, reg: (k / 9 % t.regs.len().max(1) as u64) as u8, n });
        }
        if odd % 6 == 0 && r.s.pre[p].is_some() {
            r.exec(&Op::Legacy { p });
        }
    }
    if r.s.pre.iter().all(|p| p.is_none()) || pf.init_only {
        return r;
    }
    if !pf.pre_before_init {
        for o in &raw.pre {
            step_raw(&mut r, o, ntam);
        }
    }
    // into the sale window
    let first = (0..np).find(|p| r.s.pre[*p].is_some()).unwrap();
    let st = (0..np).filter(|p| r.s.pre[*p].is_some()).map(|p| r.env.start[p]).max().unwrap();
    let st = if st < r.s.pre[first].as_ref().unwrap().end { st } else { r.env.start[first] };
    if !raw.mid.is_empty() || raw.fill_mode > 0 {
        r.exec(&Op::Time { to: st });
    }
    for o in &raw.mid {
        step_raw(&mut r, o, ntam);
    }
    if raw.fill_mode > 0 {
        fill(&mut r, raw);
    }
    let en = (0..np).filter_map(|p| r.s.pre[p].as_ref().map(|x| x.end)).max().unwrap();
    if !raw.post.is_empty() {
        r.exec(&Op::Time { to: en });
        for o in &raw.post {
            step_raw(&mut r, o, ntam);
        }
    }
    if let Some(d) = &raw.drain {
        r.drain(d);
    }
    r
}

fn step_raw(r: &mut Run, o: &RawOp, ntam: usize) {
    for op in resolve(&r.env, &r.s, o) {
        if o.tam > 0 {
            r.tamper(&op, o.tam, ntam);
        }
        r.exec(&op);
    }
}

/// Push deposits towards the minimum (1) or maximum (2) cap.
fn fill(r: &mut Run, raw: &Raw) {
    let np = raw.terms.len();
    for p in 0..np {
        let n = raw.fill.len();
        for (i, f) in raw.fill.iter().enumerate() {
            let Some(pr) = &r.s.pre[p] else { break };
            let t = r.env.t(p);
            let target = if raw.fill_mode == 1 { t.min_cap } else { t.max_cap };
            let need = target.saturating_sub(pr.dep);
            let share = if i + 1 == n { need } else { (need / (n - i) as u64).saturating_add(f.3 % (need / 4 + 1)) };
            let amt = if raw.fill_mode == 2 && t.mode == PRORATA {
                share.max((target / n as u64).saturating_add(1)).saturating_mul(1 + f.3 % 4)
            } else if raw.fill_mode == 2 && f.3 % 4 == 0 {
                share.saturating_mul(2)
            } else {
                share
            };
            let o = RawOp {
                k: O_DEPOSIT,
                p: if p == 0 { 0 } else { 3 },
                u: f.0,
                r: f.1,
                a: (12, 3 | 1 << 20),
                t: (4, 0),
                x: 3 + (f.2 % 4) * 16,
                tam: 0,
            };
            for op in resolve(&r.env, &r.s, &o) {
                let op = match op {
                    Op::Deposit { p, u, reg, payer, .. } => Op::Deposit { p, u, reg, payer, amt: amt.max(1) },
                    x => x,
                };
                r.exec(&op);
            }
        }
    }
}
