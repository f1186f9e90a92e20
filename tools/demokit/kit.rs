//! Helpers to write a fixed history against the program and compare with literal expectations.
#![allow(dead_code)]
pub use crate::exec::*;
pub use crate::model::*;
pub use crate::world::*;
pub use solana_sdk::pubkey::Pubkey;

pub const NOW: u64 = 1_700_000_000;

pub struct Demo {
    pub w: World,
    pub env: Env,
    pub s: Snap,
    pub events: Vec<(String, Vec<u8>)>,
}

pub fn reg(bmin: u64, bmax: u64, supply: u64, bps: u16) -> RegArgs {
    RegArgs { bmin, bmax, supply, bps }
}
/// starts now, lasts 1000 seconds
pub fn terms(mode: u8, min_cap: u64, max_cap: u64, regs: Vec<RegArgs>) -> Terms {
    Terms { mode, wl: WL_NONE, max_cap, min_cap, start: NOW, end: NOW + 1000, unsold: 0, disable_early: 0, regs, lock: LockArgs::default(), q_price: 1u128 << 64, disable_withdraw: 0 }
}

impl Demo {
    pub fn new(ts: Vec<Terms>) -> Self {
        Self::with_kinds(ts, K_SPL, K_SPL, None)
    }
    pub fn with_kinds(ts: Vec<Terms>, base_kind: usize, quote_kind: usize, fee: Option<[FeeCfg; 2]>) -> Self {
        let n = ts.len();
        let z = FeeCfg::default();
        let env = Env {
            base_kind,
            quote_kind,
            same_mint: false,
            fee: fee.unwrap_or([z; 2]),
            start: ts.iter().map(|t| t.start.max(NOW)).collect(),
            terms: ts.into_iter().map(Some).collect(),
            lists: vec![Default::default(); n],
            creators: vec![],
            t0: NOW,
            rich: false,
        };
        let mut w = fresh();
        w.epoch = 600;
        w.set_time(NOW as i64);
        for side in 0..2 {
            if has_fee(env.kind(side)) {
                set_fee_cfg(&mut w, &env.mint(side), &env.fee[side]);
            }
        }
        let s = snapshot(&w, &env);
        Demo { w, env, s, events: vec![] }
    }
    pub fn try_op(&mut self, op: &Op) -> Result<(), String> {
        let r = send_op(&mut self.w, &self.env, &self.s, op);
        self.s = snapshot(&self.w, &self.env);
        match r {
            Ok(e) => {
                self.events = e;
                Ok(())
            }
            Err(e) => Err(e.err),
        }
    }
    pub fn ok(&mut self, op: Op) {
        if let Err(e) = self.try_op(&op) {
            fail(&format!("{op:?} must succeed but was rejected: {e}"));
        }
    }
    pub fn rejected(&mut self, op: Op) {
        if self.try_op(&op).is_ok() {
            fail(&format!("{op:?} must be rejected but was accepted"));
        }
    }
    pub fn init(&mut self, p: usize) {
        let t = self.env.t(p).clone();
        let c = self.env.creator(p);
        let mut args_of = None;
        if t.mode == FIXED {
            self.ok(Op::InitFixedArgs { p, owner: c, q_price: t.q_price, disable_withdraw: t.disable_withdraw });
            args_of = Some(p);
        }
        self.ok(Op::Init { p, payer: c, args_of });
    }
    pub fn time(&mut self, to: u64) {
        self.ok(Op::Time { to });
    }
    pub fn escrow(&mut self, p: usize, u: usize) {
        self.ok(Op::CreateEscrow { p, u, reg: 0, cap: 0, how: How::Permissionless });
    }
    /// operator presale: registry and cap chosen
    pub fn escrow_op(&mut self, p: usize, u: usize, reg: u8, cap: u64) {
        let (c, o) = (self.env.creator(p), OPOWNER0);
        if !self.s.aux.contains_key(&Aux::Operator(c, o)) {
            self.ok(Op::OperatorCreate { c, o });
        }
        self.ok(Op::CreateEscrow { p, u, reg, cap, how: How::Operator { creator: c, owner: o } });
    }
    pub fn dep(&mut self, p: usize, u: usize, reg: u8, amt: u64) {
        self.ok(Op::Deposit { p, u, reg, amt, payer: u });
    }
    pub fn bal(&self, t: Tok) -> u64 {
        self.s.bal[&t]
    }
    pub fn e(&self, p: usize, u: usize, reg: u8) -> Esc {
        self.s.esc[&(p, u, reg)].clone()
    }
    pub fn p(&self, p: usize) -> Pre {
        self.s.pre[p].clone().unwrap()
    }
    pub fn ix(&self, op: &Op) -> Ix {
        build(&self.env, &self.s, op).unwrap()
    }
    /// sends a (possibly altered) instruction
    pub fn send(&mut self, ix: &Ix) -> bool {
        let r = self.w.send(&[ix.build()]).is_ok();
        self.s = snapshot(&self.w, &self.env);
        r
    }
    /// the operation with one account replaced must be rejected
    pub fn rejected_with(&mut self, op: Op, role: &str, k: Pubkey) {
        let mut ix = self.ix(&op);
        ix.get_mut(role).unwrap().pubkey = k;
        if self.send(&ix) {
            fail(&format!("{op:?} with {role} replaced must be rejected but was accepted"));
        }
    }
    pub fn rejected_unsigned(&mut self, op: Op, role: &str) {
        let mut ix = self.ix(&op);
        ix.get_mut(role).unwrap().is_signer = false;
        if self.send(&ix) {
            fail(&format!("{op:?} without the signature of {role} must be rejected but was accepted"));
        }
    }
    /// change of a balance caused by an operation that must succeed
    pub fn delta(&mut self, t: Tok, op: Op) -> i128 {
        let a = self.bal(t) as i128;
        self.ok(op);
        self.bal(t) as i128 - a
    }
}

pub fn fail(m: &str) -> ! {
    eprintln!("DEMO: {m}");
    std::process::exit(1)
}
pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    if got != want {
        fail(&format!("{what}: got {got:?}, expected {want:?}"));
    }
}
