//! Scenario generation.  Raw scenarios are plain integers (so proptest can shrink them); they are
//! turned into valid-by-construction presale terms and resolved against the observed state when run.

use crate::exec::*;
use crate::model::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub const T0: u64 = 1_700_000_000;

// operation kinds
pub const O_CREATE: u8 = 0;
pub const O_DEPOSIT: u8 = 1;
pub const O_WITHDRAW: u8 = 2;
pub const O_CLAIM: u8 = 3;
pub const O_REFRESH: u8 = 4;
pub const O_REFUND: u8 = 5;
pub const O_CLOSE: u8 = 6;
pub const O_CWITHDRAW: u8 = 7;
pub const O_COLLECT: u8 = 8;
pub const O_UNSOLD: u8 = 9;
pub const O_MCREATE: u8 = 10;
pub const O_MCLOSE: u8 = 11;
pub const O_OPCREATE: u8 = 12;
pub const O_OPREVOKE: u8 = 13;
pub const O_SCREATE: u8 = 14;
pub const O_SCLOSE: u8 = 15;
pub const O_DONATE: u8 = 16;
pub const O_TIME: u8 = 17;
pub const O_EPOCH: u8 = 18;
pub const O_FIXEDINIT: u8 = 19;
pub const O_FIXEDCLOSE: u8 = 20;
pub const O_REINIT: u8 = 21;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawOp {
    pub k: u8,
    pub p: u8,
    pub u: u8,
    pub r: u8,
    /// amount selector and value
    pub a: (u8, u64),
    /// time selector and value
    pub t: (u8, u32),
    pub x: u8,
    /// 0: none, otherwise one tampered variant is tried first
    pub tam: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawTerms {
    pub mode: u8,
    pub wl: u8,
    pub nreg: u8,
    pub mag: u8,
    pub seeds: [u64; 6],
    pub price: (i8, u64),
    pub regs: [(u64, u16, u64); 5],
    pub start: (u8, u32),
    pub dur: (u8, u32),
    pub lock: (u8, u32, u32, u16),
    pub ts: (u8, u32),
    pub unsold: u8,
    pub flags: u8,
    pub min_sel: u8,
    pub sup_sel: u8,
    /// boundary mutations (field, variant)
    pub muts: Vec<(u8, u8)>,
    pub list_seed: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Raw {
    pub base_kind: u8,
    pub quote_kind: u8,
    pub same_mint: bool,
    pub fees: [(u16, u64, u16, u64, u8); 2],
    pub terms: Vec<RawTerms>,
    pub pre: Vec<RawOp>,
    pub mid: Vec<RawOp>,
    pub fill: Vec<(u8, u8, u8, u64)>,
    pub fill_mode: u8,
    pub post: Vec<RawOp>,
    pub drain: Option<Vec<u16>>,
    pub init_tam: u16,
    /// who creates the presales
    #[serde(default)]
    pub who: u8,
    /// rare circumstances: addresses funded in advance, many other escrows
    #[serde(default)]
    pub odd: u16,
    /// when it all happens
    #[serde(default)]
    pub era: (u8, u32),
    /// nearly all tokens of a mint are with few wallets, and the terms are as large
    pub rich: bool,
}

#[derive(Clone, Debug)]
pub struct Profile {
    /// weights
    pub modes: [u32; 3],
    pub wls: [u32; 3],
    pub kinds_b: [u32; 6],
    pub kinds_q: [u32; 6],
    pub two_presales: u32,
    pub same_mint: u32,
    /// chance in percent that an op is preceded by a tampered variant
    pub tamper: u32,
    pub pre: Vec<(u32, u8)>,
    pub mid: Vec<(u32, u8)>,
    pub post: Vec<(u32, u8)>,
    pub n_pre: std::ops::Range<usize>,
    pub n_mid: std::ops::Range<usize>,
    pub n_post: std::ops::Range<usize>,
    pub n_fill: std::ops::Range<usize>,
    /// fill_mode weights: none, to min cap-ish, to/over max cap
    pub fill: [u32; 3],
    pub drain: u32,
    pub n_mut: std::ops::Range<usize>,
    pub mags: [u32; 4],
    pub no_lock: u32,
    pub multi_reg: bool,
    /// only create the presales
    pub init_only: bool,
    pub disable_early: u32,
    /// run the `pre` operations before the presales are created
    pub pre_before_init: bool,
    /// percentage of fixed price presales that allow withdrawing
    pub allow_withdraw: u32,
    /// use operations of every phase in every phase
    pub phase_mix: bool,
    /// aim at presales that miss their minimum cap
    pub fail: bool,
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            modes: [4, 4, 4],
            wls: [4, 3, 3],
            kinds_b: [10, 2, 3, 1, 2, 1],
            kinds_q: [10, 2, 3, 1, 2, 1],
            two_presales: 25,
            same_mint: 3,
            tamper: 0,
            pre: vec![
                (2, O_TIME),
                (1, O_MCREATE),
                (1, O_MCLOSE),
                (1, O_OPCREATE),
                (1, O_OPREVOKE),
                (1, O_SCREATE),
                (1, O_SCLOSE),
                (1, O_CREATE),
                (1, O_DEPOSIT),
                (1, O_DONATE),
            ],
            mid: vec![
                (6, O_CREATE),
                (14, O_DEPOSIT),
                (6, O_WITHDRAW),
                (3, O_TIME),
                (1, O_CLAIM),
                (1, O_REFUND),
                (2, O_CLOSE),
                (1, O_REFRESH),
                (1, O_CWITHDRAW),
                (1, O_COLLECT),
                (1, O_UNSOLD),
                (1, O_MCREATE),
                (1, O_MCLOSE),
                (1, O_OPCREATE),
                (1, O_OPREVOKE),
                (1, O_SCREATE),
                (1, O_SCLOSE),
                (1, O_DONATE),
                (1, O_EPOCH),
            ],
            post: vec![
                (10, O_CLAIM),
                (4, O_REFRESH),
                (5, O_REFUND),
                (5, O_CLOSE),
                (3, O_CWITHDRAW),
                (3, O_COLLECT),
                (3, O_UNSOLD),
                (7, O_TIME),
                (1, O_EPOCH),
                (1, O_DEPOSIT),
                (1, O_WITHDRAW),
                (1, O_CREATE),
                (1, O_MCREATE),
                (1, O_MCLOSE),
                (1, O_SCREATE),
                (1, O_SCLOSE),
                (1, O_DONATE),
                (1, O_OPREVOKE),
                (1, O_OPCREATE),
            ],
            n_pre: 0..4,
            n_mid: 2..16,
            n_post: 2..20,
            n_fill: 0..6,
            fill: [3, 4, 4],
            drain: 60,
            n_mut: 0..1,
            mags: [4, 3, 3, 1],
            no_lock: 20,
            multi_reg: true,
            init_only: false,
            disable_early: 35,
            pre_before_init: false,
            allow_withdraw: 50,
            phase_mix: false,
            fail: false,
        }
    }
}

fn weighted(w: &[u32]) -> BoxedStrategy<u8> {
    let v: Vec<(u32, BoxedStrategy<u8>)> =
        w.iter().enumerate().filter(|(_, w)| **w > 0).map(|(i, w)| (*w, Just(i as u8).boxed())).collect();
    proptest::strategy::Union::new_weighted(v).boxed()
}
fn wkinds(w: &[(u32, u8)]) -> BoxedStrategy<u8> {
    proptest::strategy::Union::new_weighted(
        w.iter().filter(|x| x.0 > 0).map(|(w, k)| (*w, Just(*k).boxed())).collect(),
    )
    .boxed()
}
fn pct(p: u32) -> BoxedStrategy<bool> {
    if p == 0 {
        Just(false).boxed()
    } else if p >= 100 {
        Just(true).boxed()
    } else {
        prop_oneof![100 - p => Just(false), p => Just(true)].boxed()
    }
}

fn raw_op(kinds: &[(u32, u8)], tamper: u32) -> BoxedStrategy<RawOp> {
    let tam = if tamper == 0 {
        Just(0u16).boxed()
    } else {
        prop_oneof![100 - tamper.min(99) => Just(0u16), tamper => 1u16..2000].boxed()
    };
    (
        wkinds(kinds),
        any::<u8>(),
        any::<u8>(),
        any::<u8>(),
        (0u8..14, any::<u64>()),
        (0u8..12, any::<u32>()),
        any::<u8>(),
        tam,
    )
        .prop_map(|(k, p, u, r, a, t, x, tam)| RawOp { k, p, u, r, a, t, x, tam })
        .boxed()
}

fn raw_terms(pf: &Profile) -> BoxedStrategy<RawTerms> {
    let nreg = if pf.multi_reg { 1u8..6 } else { 1u8..2 };
    let n_mut = pf.n_mut.clone();
    let no_lock = pf.no_lock;
    (
        (weighted(&pf.modes), weighted(&pf.wls), nreg, weighted(&pf.mags)),
        any::<[u64; 6]>(),
        (-34i8..31, any::<u64>()),
        any::<[(u64, u16, u64); 5]>(),
        (0u8..6, any::<u32>()),
        (0u8..6, any::<u32>()),
        (
            prop_oneof![no_lock => Just(0u8), 100 - no_lock => 1u8..8],
            any::<u32>(),
            any::<u32>(),
            any::<u16>(),
        ),
        (0u8..6, any::<u32>()),
        (0u8..2, pct(pf.disable_early), pct(100 - pf.allow_withdraw)).prop_map(|(u, e, w)| (u, (e as u8) | ((w as u8) << 1))),
        (if pf.fail { (1u8..3).boxed() } else { (0u8..8).boxed() }, 0u8..4),
        proptest::collection::vec((0u8..40, 0u8..12), n_mut),
        any::<u64>(),
    )
        .prop_map(|(a, seeds, price, regs, start, dur, lock, ts, uf, sel, muts, list_seed)| RawTerms {
            mode: a.0,
            wl: a.1,
            nreg: a.2,
            mag: a.3,
            seeds,
            price,
            regs,
            start,
            dur,
            lock,
            ts,
            unsold: uf.0,
            flags: uf.1,
            min_sel: sel.0,
            sup_sel: sel.1,
            muts,
            list_seed,
        })
        .boxed()
}

pub fn raw(pf: &Profile) -> BoxedStrategy<Raw> {
    let mut pf = pf.clone();
    if pf.phase_mix {
        let (pre, mid, post) = (pf.pre.clone(), pf.mid.clone(), pf.post.clone());
        let half = |v: &[(u32, u8)]| -> Vec<(u32, u8)> { v.iter().filter(|x| x.1 != O_TIME).map(|x| (x.0.min(4), x.1)).collect() };
        pf.pre.extend(half(&mid));
        pf.pre.extend(half(&post));
        pf.mid.extend(half(&post));
        pf.post.extend(half(&mid));
        let _ = pre;
    }
    let pf = &pf;
    let np = prop_oneof![100 - pf.two_presales => Just(1usize), pf.two_presales.max(1) => Just(2usize)];
    let rt = raw_terms(pf);
    let terms = np.prop_flat_map(move |n| proptest::collection::vec(rt.clone(), n..n + 1));
    let drain = pf.drain;
    let tam = if pf.tamper == 0 { Just(0u16).boxed() } else { prop_oneof![1 => Just(0u16), 1 => 1u16..2000].boxed() };
    let fee = (0u16..10_001, any::<u64>(), 0u16..10_001, any::<u64>(), any::<u8>());
    (
        (weighted(&pf.kinds_b), weighted(&pf.kinds_q), pct(pf.same_mint)),
        (fee.clone(), fee),
        terms,
        proptest::collection::vec(raw_op(&pf.pre, pf.tamper), pf.n_pre.clone()),
        proptest::collection::vec(raw_op(&pf.mid, pf.tamper), pf.n_mid.clone()),
        proptest::collection::vec((any::<u8>(), any::<u8>(), any::<u8>(), any::<u64>()), pf.n_fill.clone()),
        weighted(&pf.fill),
        proptest::collection::vec(raw_op(&pf.post, pf.tamper), pf.n_post.clone()),
        (pct(drain), proptest::collection::vec(any::<u16>(), 0..40)),
        (tam, any::<u8>(), prop_oneof![2 => Just(1u16), 1 => any::<u16>()], ((prop_oneof![4 => Just(0u8), 1 => 1u8..6], any::<u32>()), pct(6))),
    )
        .prop_map(|(k, f, terms, pre, mid, fill, fill_mode, post, dr, init_tam)| Raw {
            base_kind: k.0,
            quote_kind: k.1,
            same_mint: k.2,
            fees: [f.0, f.1],
            terms,
            pre,
            mid,
            fill,
            fill_mode,
            post,
            drain: if dr.0 { Some(dr.1) } else { None },
            init_tam: init_tam.0,
            who: init_tam.1,
            odd: init_tam.2,
            era: init_tam.3 .0,
            rich: init_tam.3 .1 && !k.2,
        })
        .boxed()
}

// ------------------------------------------------------------------ terms

/// value with a magnitude of up to `bits` bits, derived from v (>= 1)
fn sized(v: u64, bits: u32) -> u64 {
    let b = 1 + (v % bits as u64) as u32;
    let m = v.rotate_left(17) ^ (v >> 7);
    (m & (u64::MAX >> (64 - b))).max(1)
}
fn frac(v: u64, lo: u64, hi: u64) -> u64 {
    if hi <= lo {
        return lo;
    }
    let n = (hi - lo) as u128 + 1;
    lo + (((v as u128) * n) >> 64) as u64
}

fn mag_bits(mag: u8) -> (u32, u32) {
    match mag {
        0 => (1, 9),
        1 => (8, 30),
        2 => (25, 50),
        9 => (61, 64),
        _ => (48, 57),
    }
}
fn in_mag(mag: u8, v: u64) -> u64 {
    let (lo, hi) = mag_bits(mag);
    let b = lo + (v % (hi - lo + 1) as u64) as u32;
    let m = v.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
    ((1u64 << (b - 1)) | (m & ((1u64 << (b - 1)) - 1))).max(1)
}

pub fn mk_terms(r: &RawTerms, now: u64, rich: bool) -> Terms {
    let (mag, bits) = if rich { (9, 64) } else { (r.mag, 60) };
    let limit = if rich { 1u64 << 63 } else { 1 << 57 };
    let perm = r.wl != WL_NONE;
    let n = if perm { r.nreg.clamp(1, 5) as usize } else { 1 };
    let mut t = Terms {
        mode: r.mode,
        wl: r.wl,
        unsold: r.unsold,
        disable_early: r.flags & 1,
        disable_withdraw: (r.flags >> 1) & 1,
        ..Default::default()
    };
    let parts = |total: u64| -> Vec<u64> {
        // split total into n parts, each at least 1
        let mut left = total;
        let mut v = vec![];
        for i in 0..n {
            let rest = (n - 1 - i) as u64;
            let x = if i == n - 1 { left } else { frac(r.regs[i].0, 1, left - rest).min(left - rest) };
            v.push(x);
            left -= x;
        }
        v
    };
    if t.mode == FIXED {
        // Q64.64 price: mantissa in [2^32, 2^33) scaled by 2^(32+e-...)
        let mant = (1u128 << 63) | (r.price.1 as u128 >> 1);
        let e = r.price.0;
        let mut q = match r.seeds[5] % 4 {
            0 => 1u128 << 64, // round prices
            _ => mant << 1,
        };
        if r.seeds[5] % 4 == 1 {
            // small integer price
            q = (1 + (r.price.1 % 7) as u128) << 64;
        }
        if e >= 0 {
            q <<= e as u32;
        } else {
            q >>= (-e) as u32;
        }
        t.q_price = q;
        let mut m = in_mag(mag, r.seeds[0]).max(2);
        if cost(q, m as u128) > ruint::aliases::U256::from(limit) {
            m = (tokens(q, limit) as u64).max(2);
        }
        let c = to_u64(cost(q, m as u128)).unwrap();
        let step = to_u64(cost(q, m as u128 + 1)).unwrap() - c;
        t.max_cap = (c + if r.seeds[1] % 3 == 0 { frac(r.seeds[1], 0, step.saturating_sub(1)) } else { 0 }).max(2);
        let mut mm = tokens(q, t.max_cap) as u64;
        // make sure min < max in tokens
        t.min_cap = match r.min_sel {
            0 => 1,
            1 => to_u64(cost(q, (mm - 1) as u128)).unwrap().max(1),
            2 => t.max_cap - 1,
            _ => frac(r.seeds[2], 1, t.max_cap / 2 + 1),
        };
        while t.min_cap > 1 && tokens(q, t.min_cap) >= mm as u128 {
            t.min_cap /= 2;
        }
        t.min_cap = t.min_cap.max(1);
        let extra = match r.sup_sel {
            0 => 0,
            1 => r.seeds[3] % 5,
            2 => frac(r.seeds[3], 0, mm.min(1 << 60)),
            _ => sized(r.seeds[3], bits),
        };
        mm = mm.max(n as u64);
        let total = mm.saturating_add(extra).clamp(n as u64, if rich { u64::MAX } else { (1 << 61).max(mm) });
        let sup = parts(total);
        let unit = to_u64(cost(q, 1)).unwrap();
        for i in 0..n {
            let (bmin, bmax) = if perm {
                (unit, t.max_cap)
            } else {
                let bmax = match r.seeds[4] % 4 {
                    0 | 1 => t.max_cap,
                    2 => frac(r.seeds[4], unit, t.max_cap),
                    _ => frac(r.seeds[4], unit, (t.max_cap / 3).max(unit)),
                };
                let bmin = match (r.seeds[4] >> 8) % 4 {
                    0 | 1 => unit,
                    2 => bmax,
                    _ => frac(r.regs[0].2, unit, bmax),
                };
                (bmin, bmax)
            };
            t.regs.push(RegArgs { bmin, bmax, supply: sup[i], bps: bps_of(r.regs[i].1) });
        }
    } else {
        t.max_cap = in_mag(mag, r.seeds[0]);
        t.min_cap = match r.min_sel {
            0 => 1,
            1 => t.max_cap,
            2 => t.max_cap - t.max_cap / 8,
            _ => frac(r.seeds[2], 1, t.max_cap / 2 + 1).min(t.max_cap),
        };
        let total = match r.sup_sel {
            0 => in_mag(mag, r.seeds[3]),
            1 => sized(r.seeds[3], 12),
            _ => sized(r.seeds[3], bits),
        }
        .max(n as u64);
        let sup = parts(total);
        for i in 0..n {
            let (bmin, bmax) = if perm {
                (1, t.max_cap)
            } else {
                let bmax = match r.seeds[4] % 4 {
                    0 | 1 => t.max_cap,
                    2 => frac(r.seeds[4], 1, t.max_cap),
                    _ => frac(r.seeds[4], 1, (t.max_cap / 3).max(1)),
                };
                let bmin = match (r.seeds[4] >> 8) % 5 {
                    0 => 0,
                    1 => 1,
                    2 => bmax,
                    _ => frac(r.regs[0].2, 1, bmax),
                };
                (bmin, bmax)
            };
            t.regs.push(RegArgs { bmin, bmax, supply: sup[i], bps: bps_of(r.regs[i].1) });
        }
    }
    // timing
    t.start = match r.start.0 {
        0 => 0,
        1 => now,
        2 => now + 1,
        3 => now + r.start.1 as u64 % 100,
        4 => now + r.start.1 as u64 % DAY30,
        _ => now - r.start.1 as u64 % 1000,
    };
    let eff = t.start.max(now);
    t.end = eff
        + match r.dur.0 {
            0 => 60,
            1 => DAY30,
            2 => 61 + r.dur.1 as u64 % 40,
            3 => 60 + r.dur.1 as u64 % 3600,
            _ => 60 + r.dur.1 as u64 % (DAY30 - 60),
        };
    let small = |v: u32| 1 + v as u64 % 50;
    let big = |v: u32| 1 + v as u64 % (YEAR10 / 2 - 2);
    let pb = 1 + r.lock.3 % 9999;
    let mut l = LockArgs::default();
    match r.lock.0 {
        0 => {}
        1 => {
            l.bps = 10_000;
        }
        2 => {
            l.bps = 0;
            l.vest = small(r.lock.2);
            l.lock = if r.lock.1 % 2 == 0 { 0 } else { small(r.lock.1) };
        }
        3 => {
            l.bps = pb;
            l.lock = small(r.lock.1);
            l.vest = small(r.lock.2);
        }
        4 => {
            l.bps = pb;
            l.lock = 0;
            l.vest = big(r.lock.2);
        }
        5 => {
            l.bps = pb;
            l.lock = big(r.lock.1);
            l.vest = 0;
        }
        6 => {
            l.bps = 0;
            l.lock = big(r.lock.1);
            l.vest = big(r.lock.2);
        }
        _ => {
            l.bps = pb;
            l.lock = big(r.lock.1);
            l.vest = big(r.lock.2);
        }
    }
    if r.lock.0 != 0 {
        let ve = t.end + l.lock + l.vest;
        l.ts = if l.bps == 0 || l.bps == 10_000 {
            if r.ts.0 % 2 == 0 {
                0
            } else {
                t.end
            }
        } else {
            match r.ts.0 {
                0 => 0,
                1 => t.end,
                2 => ve,
                3 => t.end + l.lock,
                _ => frac((r.ts.1 as u64) << 32, t.end, ve),
            }
        };
    }
    t.lock = l;
    for m in &r.muts {
        mutate(&mut t, *m, r, now);
    }
    t
}
fn bps_of(v: u16) -> u16 {
    match v % 6 {
        0 | 1 => 0,
        2 => 1,
        3 => 5000,
        _ => (v / 6) % 5001,
    }
}

/// Push one parameter to (or just over) a boundary.
fn mutate(t: &mut Terms, m: (u8, u8), r: &RawTerms, now: u64) {
    let v = m.1 as u64;
    let ri = (m.1 as usize) % t.regs.len().max(1);
    let around = |x: u64, k: u64| match k % 3 {
        0 => x.saturating_sub(1),
        1 => x,
        _ => x.saturating_add(1),
    };
    let unit = if t.q_price > 0 { to_u64(cost(t.q_price, 1)).unwrap_or(1) } else { 1 };
    match m.0 {
        0 => t.min_cap = 0,
        1 => t.min_cap = around(t.max_cap, v),
        2 => t.max_cap = around(t.min_cap, v),
        3 => t.end = around(t.start.max(now), v),
        4 => t.end = around(t.start.max(now) + 60, v),
        5 => t.end = around(t.start.max(now) + DAY30, v),
        6 => {
            t.start = around(now + DAY30, v);
            t.end = t.start + 100;
            if t.lock.ts != 0 {
                t.lock.ts = t.end;
            }
        }
        7 => t.wl = 3 + m.1,
        8 => t.mode = 3 + m.1,
        9 => t.disable_early = m.1,
        10 => t.regs.clear(),
        11 => {
            while t.regs.len() < 6 {
                let x = t.regs.last().cloned().unwrap_or_default();
                t.regs.push(x);
            }
        }
        12 if !t.regs.is_empty() => t.regs[ri].supply = 0,
        13 if !t.regs.is_empty() => t.regs[ri].bps = around(5000, v) as u16,
        14 if !t.regs.is_empty() => t.regs[ri].bps = 10_000 + v as u16 * 100,
        15 if !t.regs.is_empty() => t.regs[ri].bmax = around(t.max_cap, v),
        16 if !t.regs.is_empty() => t.regs[ri].bmax = around(t.regs[ri].bmin, v),
        17 if !t.regs.is_empty() => t.regs[ri].bmin = around(t.regs[ri].bmax, v),
        18 if !t.regs.is_empty() => t.regs[ri].bmin = around(unit, v),
        19 if !t.regs.is_empty() => {
            t.regs[ri].bmax = 0;
            t.regs[ri].bmin = 0;
        }
        20 if !t.regs.is_empty() => t.regs[ri].supply = u64::MAX - v,
        21 => t.lock.bps = around(10_000, v) as u16,
        22 => {
            t.lock.bps = 10_000;
            t.lock.lock = v % 2;
            t.lock.vest = (v / 2) % 2;
            t.lock.ts = 0;
        }
        23 => {
            t.lock.bps = r.lock.3 % 9999;
            t.lock.lock = 0;
            t.lock.vest = 0;
            t.lock.ts = 0;
        }
        24 => {
            t.lock.lock = around(YEAR10, v).saturating_sub(t.lock.vest.min(YEAR10 - 2));
            t.lock.bps %= 10_000;
        }
        25 => t.lock.ts = around(t.end, v),
        26 => t.lock.ts = around(t.end.saturating_add(t.lock.lock).saturating_add(t.lock.vest), v),
        27 => t.lock.ts = 1 + v,
        28 => t.lock.lock = u64::MAX - v,
        29 => t.lock.vest = u64::MAX - v,
        30 => t.end = u64::MAX - v,
        31 => t.max_cap = u64::MAX - v,
        32 => t.q_price = around(1 << (v * 5), v) as u128,
        33 => t.q_price = u128::MAX >> (v * 8),
        34 if t.mode == FIXED && !t.regs.is_empty() => {
            // supply just around what the maximum cap buys
            let mtok = (tokens(t.q_price.max(1), t.max_cap).min(1 << 61)) as u64;
            let others: u64 = t.regs.iter().enumerate().filter(|(i, _)| *i != ri).fold(0, |a, (_, r)| a.saturating_add(r.supply));
            t.regs[ri].supply = around(mtok.saturating_sub(others), v);
        }
        35 => t.unsold = m.1 % 4,
        36 => t.lock.pad = m.1 % 2,
        37 => {
            // several registries without a whitelist
            t.wl = WL_NONE;
            if t.regs.len() == 1 && v % 2 == 0 {
                let x = t.regs[0].clone();
                t.regs.push(x);
            }
        }
        38 => {
            t.wl = WL_NONE + 1 + (v % 2) as u8;
        }
        39 => t.min_cap = around(t.min_cap, v),
        _ => {}
    }
}

/// whitelists: per version a list of (user, registry, cap)
pub fn mk_lists(r: &RawTerms, t: &Terms) -> BTreeMap<u64, Vec<(usize, u8, u64)>> {
    let mut m = BTreeMap::new();
    let mut x = r.list_seed;
    let mut next = || {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        x ^ (x >> 29)
    };
    let n = t.regs.len().max(1);
    // the last version may differ from an earlier one only in its high bits
    let last = [2, 257, (1 << 32) + 1, u64::MAX][(r.list_seed >> 11) as usize % 4];
    for v in [0, 1, last] {
        let mut l = vec![];
        for u in 0..N_USERS {
            for rg in 0..n {
                let k = next();
                if k % 100 < if v == 0 { 75 } else { 40 } {
                    let ra = t.regs.get(rg).cloned().unwrap_or_default();
                    let s = next();
                    let cap = match s % 10 {
                        0 | 1 | 2 => ra.bmax,
                        3 => ra.bmin,
                        4 => ra.bmax.saturating_add(1),
                        5 if s >> 8 & 1 == 0 => u64::MAX,
                        5 => ra.bmin.saturating_sub(1),
                        _ => frac(next(), ra.bmin, ra.bmax),
                    };
                    let rr = if s % 97 == 3 { n as u8 } else { rg as u8 };
                    l.push((u, rr, cap));
                }
            }
        }
        if l.is_empty() {
            l.push((0, 0, t.regs.first().map(|r| r.bmax).unwrap_or(1)));
        }
        m.insert(v, l);
    }
    m
}

pub fn mk_fee(f: (u16, u64, u16, u64, u8)) -> FeeCfg {
    let bps = |b: u16| match b % 7 {
        0 => 0,
        1 => 10_000,
        2 => 1,
        3 => 9_999,
        _ => b,
    };
    let max = |m: u64| match m % 5 {
        0 => 0,
        1 => u64::MAX,
        2 => m >> 40,
        _ => sized(m, 50),
    };
    FeeCfg {
        old_bps: bps(f.0),
        old_max: max(f.1),
        new_bps: bps(f.2),
        new_max: max(f.3),
        new_epoch: 600 + (f.4 % 4) as u64,
    }
}

/// One wallet each, one wallet for both, or creators that also buy.
pub fn mk_creators(who: u8, n: usize) -> Vec<usize> {
    let buyer = who as usize / 8 % N_USERS;
    (0..n)
        .map(|p| match who % 8 {
            5 => CREATOR0,
            6 => buyer,
            7 if p == 0 => buyer,
            _ => CREATOR0 + p,
        })
        .collect()
}

/// The time at which a scenario begins: today, or when second counters reach 31 or 32 bits.
pub fn begin(era: (u8, u32)) -> u64 {
    let off = era.1 as u64;
    match era.0 {
        0 => T0,
        1 => (1 << 31) - off % 200,
        2 => (1 << 31) - off % (2 * DAY30),
        3 => (1 << 32) - off % 200,
        4 => (1 << 32) - off % (2 * DAY30),
        _ => (1 << 32) + off % (1 << 30),
    }
}

pub fn mk_env(r: &Raw) -> Env {
    let now = begin(r.era);
    let terms: Vec<Option<Terms>> = r.terms.iter().map(|t| Some(mk_terms(t, now, r.rich))).collect();
    let lists = r.terms.iter().zip(&terms).map(|(r, t)| mk_lists(r, t.as_ref().unwrap())).collect();
    Env {
        base_kind: r.base_kind as usize,
        quote_kind: r.quote_kind as usize,
        same_mint: r.same_mint,
        fee: [mk_fee(r.fees[0]), mk_fee(r.fees[1])],
        start: terms.iter().map(|t| t.as_ref().unwrap().start.max(now)).collect(),
        creators: mk_creators(r.who, r.terms.len()),
        terms,
        lists,
        t0: now,
        rich: r.rich,
    }
}

// ------------------------------------------------------------------ resolving operations

/// server addresses: any string, of any length, not only ASCII
fn url_of(o: &RawOp) -> String {
    let n = o.x as usize;
    match o.a.0 {
        0 => String::new(),
        1 => "\u{0}".repeat(n % 5),
        2 => "https://präsale.example/ü".to_string() + &"é".repeat(n % 40),
        3 => "事前販売".repeat(1 + n % 20),
        4 => "🚀".repeat(n % 30) + "x",
        5 => "https://x.y/".to_string() + &"z".repeat(n + 120),
        _ => "https://x.y/".to_string() + &"z".repeat(n % 40),
    }
}

fn version_of(env: &Env, p: usize, k: u64) -> u64 {
    let n = env.lists[p].len();
    *env.lists[p].keys().nth(k as usize % n).unwrap()
}

fn pick_user(u: u8) -> usize {
    u as usize % N_USERS
}

/// lamports around the rent of the accounts concerned
pub fn dust_amt(k: u64) -> u64 {
    let r = [rent(0), rent(ESCROW_LEN), rent(PRESALE_LEN), rent(152)][(k >> 4) as usize % 4];
    match k % 8 {
        0 => 1,
        1 => r - 1,
        2 => r,
        3 => r + 1,
        4 => 2 * r,
        _ => 1 + (k >> 8) % (3 * r),
    }
}

pub fn resolve(env: &Env, s: &Snap, o: &RawOp) -> Vec<Op> {
    let v = resolve_op(env, s, o);
    let k = o.a.1 ^ (o.t.1 as u64) << 7 ^ (o.x as u64) << 3;
    if k % 11 != 0 {
        return v;
    }
    // somebody was there first
    let mut out = vec![];
    for op in v {
        let at = match &op {
            Op::CreateEscrow { p, u, reg, .. } if s.pre[*p].is_some() && !s.esc.contains_key(&(*p, *u, *reg)) => Some(At::Esc(*p, *u, *reg)),
            Op::MerkleCreate { p, version } if s.pre[*p].is_some() => Some(At::Aux(Aux::Merkle(*p, *version))),
            Op::ServerCreate { p, .. } if s.pre[*p].is_some() => Some(At::Aux(Aux::Server(*p))),
            Op::OperatorCreate { c, o } => Some(At::Aux(Aux::Operator(*c, *o))),
            Op::InitFixedArgs { p, .. } => Some(At::Aux(Aux::FixedArgs(*p))),
            Op::Close { p, u, reg, .. } if s.esc.contains_key(&(*p, *u, *reg)) => Some(At::Esc(*p, *u, *reg)),
            Op::MerkleClose { p, version, .. } if s.aux.contains_key(&Aux::Merkle(*p, *version)) => Some(At::Aux(Aux::Merkle(*p, *version))),
            Op::ServerClose { p, .. } if s.aux.contains_key(&Aux::Server(*p)) => Some(At::Aux(Aux::Server(*p))),
            Op::OperatorRevoke { c, o } if s.aux.contains_key(&Aux::Operator(*c, *o)) => Some(At::Aux(Aux::Operator(*c, *o))),
            Op::CloseFixedArgs { p, .. } if s.aux.contains_key(&Aux::FixedArgs(*p)) => Some(At::Aux(Aux::FixedArgs(*p))),
            Op::Donate { p, .. } => Some(At::Pre(*p)),
            _ => None,
        };
        if let Some(at) = at {
            out.push(Op::Dust { at, amt: dust_amt(k / 11) });
        }
        out.push(op);
    }
    out
}

fn resolve_op(env: &Env, s: &Snap, o: &RawOp) -> Vec<Op> {
    let np = env.terms.len();
    let p = if (o.p as usize) % 4 < 3 { 0 } else { np - 1 };
    let created = s.pre[p].is_some();
    let t = env.t(p);
    let n = t.regs.len().max(1);
    let u = pick_user(o.u);
    let reg = if o.r == 255 { n as u8 } else { (o.r as usize % n) as u8 };
    // prefer existing escrows for per-escrow operations
    let mine: Vec<(usize, usize, u8)> = s.esc.keys().filter(|k| k.0 == p && k.1 < N_USERS).cloned().collect();
    let pick = |pref: bool| -> (usize, u8) {
        if pref && !mine.is_empty() && o.u % 8 != 7 {
            let k = mine[(o.u as usize * 7 + o.r as usize) % mine.len()];
            (k.1, k.2)
        } else {
            (u, reg)
        }
    };
    if mine.is_empty() && created && matches!(o.k, O_WITHDRAW | O_CLAIM | O_REFRESH | O_REFUND | O_CLOSE) && o.r % 5 != 0 {
        return vec![];
    }
    let appointer = |k: u8| {
        let a = env.appointers();
        a[k as usize % a.len()]
    };
    let rx = [RENT_RX, FUNDER, u, ATTACKER][(o.x % 4) as usize];
    let dest = |own: usize| match o.x % 8 {
        0 => Dest::W((o.x as usize / 8) % N_WALLETS),
        1 if o.x > 128 => Dest::Vault,
        _ => Dest::W(own),
    };
    match o.k {
        O_CREATE => create_ops(env, s, p, u, reg, o),
        O_DEPOSIT => {
            let (mut u, mut reg) = pick(o.a.1 % 3 != 0);
            if created && env.phase(s, p) != Phase::Ongoing && (o.a.1 >> 30) % 4 != 0 {
                return vec![];
            }
            if let (Some(e), true) = (s.esc.get(&(p, u, reg)), created && t.mode != FCFS) {
                if env.quota(s, p, e) == 0 && (o.a.1 >> 32) % 4 != 0 {
                    // make room again
                    return vec![Op::Withdraw { p, u, reg, amt: frac(o.a.1, 1, e.dep.max(1)), dest: dest(u) }];
                }
            }
            let mut v = vec![];
            if !s.esc.contains_key(&(p, u, reg)) && created && o.u % 16 != 15 {
                if (o.a.1 >> 20) % 8 == 0 {
                    v.extend(create_ops(env, s, p, u, reg, o));
                } else {
                    (u, reg) = entitled(env, s, p, u, reg, o, &mut v);
                }
            }
            let k = (p, u, reg);
            let e = s.esc.get(&k).cloned().unwrap_or_else(|| Esc {
                reg,
                cap: match v.last() {
                    Some(Op::CreateEscrow { cap, how, .. }) if *how != How::Permissionless => *cap,
                    _ => t.regs.get(reg as usize).map(|r| r.bmax).unwrap_or(1),
                },
                ..Default::default()
            });
            let amt = if created && (reg as usize) < t.regs.len() { deposit_amt(env, s, p, &e, o.a) } else { o.a.1 >> 8 };
            let payer = match o.x % 16 {
                0 => FUNDER,
                1 => PAUPER,
                2 => u.wrapping_add(1) % N_USERS,
                _ => u,
            };
            v.push(Op::Deposit { p, u, reg, amt, payer });
            v
        }
        O_WITHDRAW => {
            let (mut u, mut reg) = pick(true);
            let rich: Vec<_> = mine.iter().filter(|k| s.esc[k].dep > 0).collect();
            if !rich.is_empty() && o.x % 8 != 7 {
                let k = rich[(o.u as usize * 7 + o.r as usize) % rich.len()];
                (u, reg) = (k.1, k.2);
            }
            let dep = s.esc.get(&(p, u, reg)).map(|e| e.dep).unwrap_or(5);
            let bmin = t.regs.get(reg as usize).map(|r| r.bmin).unwrap_or(1);
            let amt = match o.a.0 {
                0 | 1 => dep,
                2 => dep.saturating_add(1),
                3 => dep.saturating_sub(bmin),
                4 => dep.saturating_sub(bmin).saturating_add(1),
                5 => 0,
                6 => 1,
                7 => dep.saturating_sub(1),
                8 => u64::MAX,
                _ => frac(o.a.1, 1, dep.max(1)),
            };
            vec![Op::Withdraw { p, u, reg, amt, dest: dest(u) }]
        }
        O_CLAIM => {
            let (u, reg) = pick(true);
            vec![Op::Claim { p, u, reg, dest: dest(u) }]
        }
        O_REFRESH => {
            let (u, reg) = pick(true);
            vec![Op::Refresh { p, u, reg }]
        }
        O_REFUND => {
            let (u, reg) = pick(true);
            vec![Op::Refund { p, u, reg, dest: dest(u) }]
        }
        O_CLOSE => {
            let (u, reg) = pick(true);
            vec![Op::Close { p, u, reg, rx: if o.x % 4 == 2 { u } else { rx } }]
        }
        O_CWITHDRAW => vec![Op::CreatorWithdraw { p, dest: dest(env.creator(p)) }],
        O_COLLECT => vec![Op::CollectFee { p, dest: dest(env.creator(p)) }],
        O_UNSOLD => vec![Op::Unsold { p }],
        O_MCREATE => vec![Op::MerkleCreate { p, version: version_of(env, p, o.a.1) }],
        O_MCLOSE => {
            let have: Vec<u64> = env.lists[p].keys().cloned().filter(|v| s.aux.contains_key(&Aux::Merkle(p, *v))).collect();
            if have.is_empty() && (created && t.wl != WL_MERKLE || o.u % 4 != 0) && o.r % 4 != 0 {
                return vec![];
            }
            let version = if !have.is_empty() && o.u % 8 != 0 { have[o.a.1 as usize % have.len()] } else { version_of(env, p, o.a.1) };
            vec![Op::MerkleClose { p, version, rx }]
        }
        O_OPCREATE => vec![Op::OperatorCreate { c: appointer(o.p), o: OPS[o.u as usize % OPS.len()] }],
        O_OPREVOKE => {
            let have: Vec<(usize, usize)> = env
                .appointers()
                .into_iter()
                .flat_map(|c| OPS.map(|w| (c, w)))
                .filter(|(c, w)| s.aux.contains_key(&Aux::Operator(*c, *w)))
                .collect();
            if !have.is_empty() && o.x % 8 != 0 {
                let (c, w) = have[(o.p as usize + o.u as usize) % have.len()];
                return vec![Op::OperatorRevoke { c, o: w }];
            }
            if o.r % 4 != 0 {
                return vec![];
            }
            vec![Op::OperatorRevoke { c: appointer(o.p), o: OPS[o.u as usize % OPS.len()] }]
        }
        O_SCREATE => vec![Op::ServerCreate { p, url: url_of(o) }],
        O_SCLOSE => {
            if !s.aux.contains_key(&Aux::Server(p)) && o.r % 4 != 0 {
                return vec![];
            }
            vec![Op::ServerClose { p, rx }]
        }
        O_DONATE => {
            if !created {
                return vec![];
            }
            vec![Op::Donate { p, side: (o.x % 2) as usize, amt: 1 + sized(o.a.1, 40), from: FUNDER }]
        }
        O_TIME => vec![Op::Time { to: time_of(env, s, p, o.t) }],
        O_EPOCH => vec![Op::Epoch { to: s.epoch + 1 + (o.x % 2) as u64 }],
        O_FIXEDINIT => {
            let q = match o.a.0 {
                0 => 0,
                1 => 1,
                2 => t.q_price.max(1),
                _ => ((o.a.1 as u128) << (o.x % 64)).max(1),
            };
            let dw = match o.u % 8 {
                7 => 2 + o.u / 8 % 200,
                x => x % 2,
            };
            vec![Op::InitFixedArgs { p, owner: [env.creator(p), FUNDER, u, env.creator(np - 1 - p)][o.x as usize % 4], q_price: q, disable_withdraw: dw }]
        }
        O_FIXEDCLOSE => {
            let real = s
                .aux
                .get(&Aux::FixedArgs(p))
                .and_then(|(_, d)| (0..N_WALLETS).find(|w| wallet(*w).as_ref() == &d[40..72]))
                .unwrap_or(0);
            let signer = if o.x % 4 == 0 { [env.creator(p), FUNDER, ATTACKER, u][(o.x as usize / 4) % 4] } else { real };
            vec![Op::CloseFixedArgs { p, signer }]
        }
        O_REINIT => vec![Op::Init { p, payer: env.creator(p), args_of: if t.mode == FIXED { Some(p) } else { None } }],
        _ => vec![],
    }
}

fn create_ops(env: &Env, s: &Snap, p: usize, u: usize, reg: u8, o: &RawOp) -> Vec<Op> {
    let t = env.t(p);
    // sometimes use an entitlement route that does not match the whitelist mode
    let route = if o.a.0 == 13 { (t.wl + 1 + (o.x % 2)) % 3 } else { t.wl };
    let reg_ok = (reg as usize) < t.regs.len();
    let ra = t.regs.get(reg as usize).cloned().unwrap_or_default();
    match route {
        WL_NONE => vec![Op::CreateEscrow { p, u, reg: 0, cap: 0, how: How::Permissionless }],
        WL_AUTH => {
            let mut v = vec![];
            let c = if o.x % 16 == 3 { env.not_creator(p) } else { env.creator(p) };
            let ow = match o.x % 16 {
                5 => OPOWNER1,
                13 => CREATOR0,
                _ => OPOWNER0,
            };
            let cap = match o.t.0 {
                0 => ra.bmin,
                1 => ra.bmin.saturating_sub(1),
                2 => ra.bmax.saturating_add(1),
                3 => 0,
                4 => u64::MAX,
                5 | 6 => ra.bmax,
                _ => frac((o.t.1 as u64) << 32 | o.t.1 as u64, ra.bmin, ra.bmax),
            };
            if o.x % 8 != 6 && !s.aux.contains_key(&Aux::Operator(c, ow)) && c == env.creator(p) {
                v.push(Op::OperatorCreate { c, o: ow });
            }
            let reg = if reg_ok { reg } else { [t.regs.len() as u8, 5, 255][o.x as usize / 16 % 3] };
            v.push(Op::CreateEscrow { p, u, reg, cap, how: How::Operator { creator: c, owner: ow } });
            v
        }
        _ => {
            let mut v = vec![];
            let cp = if o.x % 32 == 9 { env.terms.len() - 1 - p } else { p };
            let version = if o.x % 5 == 4 { version_of(env, cp, 1 + (o.x as u64 / 5) % 2) } else { 0 };
            let l = &env.lists[cp][&version];
            let entry = l.iter().position(|(w, r, _)| *w == u && *r == reg);
            let mut cap = entry.map(|i| l[i].2).unwrap_or(ra.bmax);
            if o.t.0 == 2 {
                cap = cap.wrapping_add(1);
            }
            if !s.aux.contains_key(&Aux::Merkle(cp, version)) && s.pre[cp].is_some() && o.x % 7 != 6 {
                v.push(Op::MerkleCreate { p: cp, version });
            }
            let entry = entry.or(Some(o.t.1 as usize % l.len()));
            v.push(Op::CreateEscrow { p, u, reg, cap, how: How::Merkle { cp, version, entry } });
            v
        }
    }
}

/// A buyer who may create an escrow, with the operations to get there.
fn entitled(env: &Env, s: &Snap, p: usize, u: usize, reg: u8, o: &RawOp, v: &mut Vec<Op>) -> (usize, u8) {
    let t = env.t(p);
    let n = t.regs.len().max(1);
    let (mut u, mut reg) = (u, (reg as usize % n) as u8);
    let mut tried = 0;
    while s.esc.contains_key(&(p, u, reg)) && tried < N_USERS {
        u = (u + 1) % N_USERS;
        tried += 1;
    }
    if s.esc.contains_key(&(p, u, reg)) {
        return (u, reg);
    }
    let ra = t.regs.get(reg as usize).cloned().unwrap_or_default();
    let part = (o.t.1 as u64) << 32 | o.t.1 as u64;
    match t.wl {
        WL_NONE => v.push(Op::CreateEscrow { p, u, reg: 0, cap: 0, how: How::Permissionless }),
        WL_AUTH => {
            let c = env.creator(p);
            if !s.aux.contains_key(&Aux::Operator(c, OPOWNER0)) {
                v.push(Op::OperatorCreate { c, o: OPOWNER0 });
            }
            let cap = match o.t.0 {
                0 => ra.bmin,
                1..=6 => ra.bmax,
                _ => frac(part, ra.bmin, ra.bmax),
            };
            v.push(Op::CreateEscrow { p, u, reg, cap, how: How::Operator { creator: c, owner: OPOWNER0 } });
        }
        _ => {
            let version = if o.x % 8 == 4 { 1 } else { 0 };
            let l = &env.lists[p][&version];
            let good: Vec<usize> = (0..l.len())
                .filter(|i| {
                    let (w, r, c) = l[*i];
                    (r as usize) < t.regs.len()
                        && !s.esc.contains_key(&(p, w, r))
                        && c >= t.regs[r as usize].bmin
                        && c <= t.regs[r as usize].bmax
                })
                .collect();
            if !good.is_empty() {
                let i = good[(o.t.1 as usize + o.u as usize) % good.len()];
                if !s.aux.contains_key(&Aux::Merkle(p, version)) {
                    v.push(Op::MerkleCreate { p, version });
                }
                let (w, r, c) = l[i];
                (u, reg) = (w, r);
                v.push(Op::CreateEscrow { p, u, reg, cap: c, how: How::Merkle { cp: p, version, entry: Some(i) } });
            }
        }
    }
    (u, reg)
}

fn deposit_amt(env: &Env, s: &Snap, p: usize, e: &Esc, a: (u8, u64)) -> u64 {
    let t = env.t(p);
    let pr = s.pre[p].as_ref().unwrap();
    let q = env.quota(s, p, e);
    let ra = &t.regs[e.reg as usize];
    let cap = ra.bmax.min(e.cap).saturating_sub(e.dep);
    let limit = if env.rich { 1u64 << (59 + a.1 % 5) } else { 1 << 57 };
    if matches!(a.0, 0..=3 | 6) && (a.1 >> 40) % 3 != 0 {
        // leave room for others
        let lo = ra.bmin.saturating_sub(e.dep).max(1);
        return frac(a.1.rotate_left(9), lo, lo.saturating_add(q / 6).min(q.max(lo))).min(limit);
    }
    match a.0 {
        0 => q.min(limit),
        1 => q.saturating_sub(1).min(limit),
        2 => q.saturating_add(1),
        3 => u64::MAX,
        4 => ra.bmin,
        5 => ra.bmin.saturating_sub(1),
        6 => t.max_cap.saturating_sub(pr.dep),
        7 => t.min_cap.saturating_sub(pr.dep),
        8 => sized(a.1, if env.rich { 64 } else { 57 }),
        9 => {
            if t.mode == FIXED {
                // around multiples of one token's cost
                let k = 1 + a.1 % 9;
                let c = to_u64(cost(t.q_price, k as u128)).unwrap_or(u64::MAX);
                match a.1 / 16 % 3 {
                    0 => c.saturating_sub(1),
                    1 => c,
                    _ => c.saturating_add(1),
                }
            } else {
                a.1 % 8
            }
        }
        10 => frac(a.1, 1, cap.max(1) / 4 + 1),
        11 => frac(a.1, ra.bmin.max(1), (ra.bmin.max(1)).saturating_mul(4).min(cap.max(1))),
        _ => frac(a.1, 1, cap.max(1)),
    }
}

pub fn time_of(env: &Env, s: &Snap, p: usize, t: (u8, u32)) -> u64 {
    let Some(pr) = s.pre[p].as_ref() else { return s.now + (t.1 % 50) as u64 };
    let off = [0i64, -1, 1, 0][(t.1 % 4) as usize];
    let at = |x: u64| (x as i64 + off).max(0) as u64;
    let f = |lo: u64, hi: u64| frac((t.1 as u64) << 32 | t.1 as u64, lo.min(hi), hi);
    match env.phase(s, p) {
        Phase::NotStarted => match t.0 {
            0..=3 => at(env.start[p]),
            4 => at(pr.end),
            _ => f(s.now, env.start[p]),
        },
        Phase::Ongoing => match t.0 {
            0..=2 => f(s.now, pr.end - 1),
            3 => at(pr.end),
            4 => s.now + 1,
            _ => f(s.now, s.now + (pr.end - s.now) / 4),
        },
        _ => match t.0 {
            0 => at(pr.imm_ts),
            1 => at(pr.vest_start),
            2 => at(pr.vest_end),
            // decades later
            3 if t.1 % 8 == 7 => (1 << 32) + f(0, (pr.vest_end - pr.vest_start).max(10)),
            3 => s.now + 1,
            4 => f(s.now, pr.vest_start),
            5 => f(s.now, pr.imm_ts),
            6 => f(s.now, s.now + s.now.abs_diff(pr.vest_end) * 2),
            7 | 8 => f(pr.vest_start.max(s.now), pr.vest_end),
            9 => f(s.now, s.now + (pr.vest_end.saturating_sub(s.now)) / 8),
            _ => f(s.now, pr.vest_end),
        },
    }
}
