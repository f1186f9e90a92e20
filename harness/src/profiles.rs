//! Which scenarios each property is searched with, and how many of them per tier.

use crate::gen::*;
use crate::meta::Rel;

#[derive(Clone)]
pub enum Kind {
    Sim(Box<Profile>),
    Meta(Box<Profile>, Rel),
    Merkle,
    Ext,
}

#[derive(Clone)]
pub struct Campaign {
    pub name: &'static str,
    pub kind: Kind,
    pub quick: usize,
    pub thorough: usize,
}

fn sim(name: &'static str, quick: usize, p: Profile) -> Campaign {
    Campaign { name, kind: Kind::Sim(Box::new(p)), quick: quick * 8 / 5, thorough: quick * 25 }
}

fn meta(name: &'static str, quick: usize, rel: Rel, p: Profile) -> Campaign {
    Campaign { name, kind: Kind::Meta(Box::new(p), rel), quick, thorough: quick * 25 }
}

fn d() -> Profile {
    Profile::default()
}

/// weights of the buying phase when withdrawals matter
fn withdraw_mid() -> Vec<(u32, u8)> {
    vec![
        (4, O_CREATE),
        (14, O_DEPOSIT),
        (14, O_WITHDRAW),
        (3, O_TIME),
        (1, O_CLOSE),
        (1, O_REFUND),
        (1, O_CLAIM),
        (1, O_DONATE),
        (1, O_EPOCH),
    ]
}
fn money_mid() -> Vec<(u32, u8)> {
    vec![(4, O_CREATE), (16, O_DEPOSIT), (5, O_WITHDRAW), (3, O_TIME), (1, O_CLOSE), (1, O_DONATE), (1, O_EPOCH)]
}
fn claim_post() -> Vec<(u32, u8)> {
    vec![(14, O_CLAIM), (6, O_REFRESH), (10, O_TIME), (2, O_CLOSE), (1, O_CWITHDRAW), (1, O_UNSOLD), (1, O_REFUND), (1, O_EPOCH)]
}
fn admin_ops() -> Vec<(u32, u8)> {
    vec![
        (3, O_MCREATE),
        (3, O_MCLOSE),
        (3, O_OPCREATE),
        (3, O_OPREVOKE),
        (3, O_SCREATE),
        (3, O_SCLOSE),
        (2, O_TIME),
        (3, O_CREATE),
        (1, O_DEPOSIT),
    ]
}

pub const ALL: [&str; 30] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30",
];

pub fn campaigns(id: &str) -> Vec<Campaign> {
    match id {
        "C01" => vec![
            sim("money", 6000, Profile { mid: money_mid(), fill: [2, 3, 6], drain: 80, ..d() }),
            sim("mixed", 3000, d()),
            sim("prorata", 4000, Profile { modes: [1, 6, 1], mid: money_mid(), fill: [1, 2, 8], drain: 80, ..d() }),
        ],
        "C02" => vec![
            sim("money", 6000, Profile { mid: money_mid(), post: claim_post(), fill: [1, 4, 4], drain: 80, ..d() }),
            sim("mixed", 4000, d()),
        ],
        "C03" => vec![sim("mixed", 6000, d()), sim("money", 5000, Profile { mid: money_mid(), ..d() })],
        "C04" => vec![
            sim("deposits", 12000, Profile { mid: money_mid(), n_mid: 6..24, n_post: 0..4, drain: 10, ..d() }),
            sim("fixed", 5000, Profile { modes: [1, 0, 0], mid: money_mid(), n_mid: 6..24, n_post: 0..4, drain: 10, ..d() }),
            sim("mixed", 2000, Profile { tamper: 25, ..d() }),
        ],
        "C05" => vec![
            sim("fixed", 7000, Profile { modes: [1, 0, 0], allow_withdraw: 85, mid: withdraw_mid(), n_mid: 8..26, n_post: 0..5, fill: [3, 1, 1], drain: 20, ..d() }),
            sim("prorata", 6000, Profile { modes: [0, 1, 0], mid: withdraw_mid(), n_mid: 8..26, n_post: 0..5, fill: [3, 1, 1], drain: 20, ..d() }),
            sim("mixed", 2000, Profile { mid: withdraw_mid(), n_post: 0..8, tamper: 25, ..d() }),
        ],
        "C06" => vec![
            sim("phases", 9000, Profile { phase_mix: true, n_pre: 1..8, n_mid: 3..14, n_post: 4..16, ..d() }),
            sim("mixed", 3000, d()),
        ],
        "C07" => vec![
            sim("caps", 9000, Profile { modes: [4, 1, 4], mid: money_mid(), n_mid: 0..8, n_fill: 1..6, fill: [1, 1, 12], disable_early: 20, drain: 40, ..d() }),
            sim("mixed", 2500, d()),
        ],
        "C08" => vec![
            sim("vesting", 9000, Profile { mid: money_mid(), n_mid: 1..8, n_fill: 1..5, fill: [0, 4, 4], post: claim_post(), n_post: 8..30, no_lock: 8, drain: 60, ..d() }),
            sim("mixed", 2000, Profile { tamper: 25, ..d() }),
        ],
        "C09" => vec![
            sim("shares", 8000, Profile { mid: money_mid(), n_mid: 3..10, n_fill: 2..7, fill: [0, 3, 5], post: claim_post(), n_post: 2..14, drain: 85, no_lock: 40, wls: [6, 3, 3], ..d() }),
            sim("registries", 3000, Profile { wls: [0, 1, 1], mid: money_mid(), n_mid: 4..14, n_fill: 2..7, fill: [0, 3, 5], n_post: 0..6, drain: 95, no_lock: 60, ..d() }),
        ],
        "C10" => vec![
            sim("oversubscribed", 9000, Profile { modes: [0, 1, 0], mid: money_mid(), n_mid: 1..10, n_fill: 2..7, fill: [1, 2, 9], n_post: 3..18, drain: 60, ..d() }),
            sim("mixed", 2500, Profile { tamper: 25, ..d() }),
        ],
        "C11" => vec![
            sim("failed", 9000, Profile { mid: money_mid(), n_mid: 2..10, fill: [1, 0, 0], fail: true, n_post: 4..18, drain: 70, ..d() }),
            sim("mixed", 2500, Profile { tamper: 25, ..d() }),
        ],
        "C12" => vec![
            sim("creator", 9000, Profile { mid: money_mid(), n_mid: 2..10, n_fill: 1..5, fill: [2, 4, 4], post: creator_post(O_CWITHDRAW), drain: 40, ..d() }),
            sim("mixed", 2500, Profile { tamper: 25, ..d() }),
        ],
        "C13" => vec![
            sim("fees", 9000, Profile { mid: money_mid(), n_mid: 2..10, n_fill: 1..5, fill: [1, 4, 6], post: creator_post(O_COLLECT), drain: 40, ..d() }),
            sim("mixed", 2500, Profile { tamper: 25, ..d() }),
        ],
        "C14" => vec![
            sim("unsold", 9000, Profile { mid: money_mid(), n_mid: 2..10, n_fill: 1..5, fill: [1, 6, 3], modes: [6, 2, 3], post: creator_post(O_UNSOLD), drain: 40, ..d() }),
            sim("mixed", 2500, Profile { tamper: 25, ..d() }),
        ],
        "C15" => vec![
            sim("entitlement", 7000, Profile { wls: [2, 5, 5], mid: vec![(14, O_CREATE), (3, O_DEPOSIT), (1, O_WITHDRAW), (1, O_REFRESH), (2, O_MCREATE), (2, O_MCLOSE), (2, O_OPCREATE), (2, O_OPREVOKE), (2, O_TIME), (2, O_CLOSE)], n_mid: 6..24, n_post: 0..3, fill: [1, 0, 0], drain: 5, tamper: 50, ..d() }),
            sim("mixed", 2000, d()),
            Campaign { name: "long lists", kind: Kind::Merkle, quick: 1500, thorough: 40_000 },
        ],
        "C16" | "C17" => vec![
            sim("tampered", 3200, Profile { tamper: 60, two_presales: 60, n_fill: 1..4, kinds_b: [10, 1, 2, 1, 1, 1], kinds_q: [10, 1, 2, 1, 1, 1], ..d() }),
            sim("admin", 1200, Profile { tamper: 70, two_presales: 60, wls: [1, 4, 4], pre: admin_ops(), mid: admin_ops(), n_post: 0..6, ..d() }),
        ],
        "C18" => vec![
            sim("terms", 40000, Profile { n_mut: 0..4, init_only: true, tamper: 5, ..d() }),
            sim("boundaries", 40000, Profile { n_mut: 1..2, init_only: true, ..d() }),
            sim("mixed", 1500, Profile { n_mut: 0..2, ..d() }),
        ],
        "C19" => vec![
            sim("price accounts", 8000, Profile { modes: [1, 0, 0], two_presales: 40, pre_before_init: true, n_pre: 1..8, pre: vec![(3, O_FIXEDINIT), (2, O_FIXEDCLOSE), (1, O_TIME)], n_mid: 0..5, n_post: 0..5, drain: 20, tamper: 30, ..d() }),
            sim("terms", 12000, Profile { modes: [1, 0, 0], n_mut: 0..3, two_presales: 30, pre_before_init: true, n_pre: 0..5, pre: vec![(3, O_FIXEDINIT), (2, O_FIXEDCLOSE)], init_only: true, ..d() }),
            sim("sales", 3000, Profile { modes: [1, 0, 0], pre: vec![(3, O_FIXEDCLOSE), (2, O_FIXEDINIT), (1, O_TIME)], mid: vec![(3, O_CREATE), (12, O_DEPOSIT), (4, O_WITHDRAW), (2, O_FIXEDCLOSE), (1, O_FIXEDINIT), (2, O_TIME)], post: claim_post(), n_fill: 1..5, fill: [1, 4, 4], ..d() }),
        ],
        "C20" => vec![
            sim("closing", 9000, Profile { mid: money_mid(), n_mid: 2..12, post: vec![(12, O_CLOSE), (6, O_CLAIM), (4, O_REFUND), (5, O_TIME), (2, O_REFRESH), (1, O_CREATE)], n_post: 4..22, drain: 60, ..d() }),
            sim("after withdrawals", 5000, Profile { modes: [1, 4, 0], allow_withdraw: 90, mid: withdraw_mid(), n_mid: 4..16, n_fill: 1..4, fill: [2, 1, 6], post: vec![(12, O_CLOSE), (4, O_CLAIM), (3, O_REFUND), (5, O_TIME)], n_post: 3..14, drain: 60, ..d() }),
            sim("mixed", 2500, Profile { tamper: 25, ..d() }),
        ],
        "C21" => vec![sim("mixed", 9000, d()), sim("boundaries", 2000, Profile { n_mut: 0..3, ..d() })],
        "C22" => vec![Campaign { name: "whitelists", kind: Kind::Merkle, quick: 20000, thorough: 500_000 }],
        "C23" => vec![
            sim("token2022", 7000, Profile { kinds_b: [1, 2, 5, 3, 4, 1], kinds_q: [1, 2, 5, 3, 4, 1], mid: withdraw_mid(), tamper: 10, ..d() }),
            Campaign { name: "extensions", kind: Kind::Ext, quick: 6000, thorough: 60_000 },
        ],
        "C24" => vec![
            sim("mixed", 6000, Profile { kinds_b: [6, 1, 3, 1, 2, 1], kinds_q: [6, 1, 3, 1, 2, 1], ..d() }),
            sim("admin", 2000, Profile { wls: [1, 4, 4], pre: admin_ops(), mid: admin_ops(), n_pre: 2..8, n_post: 0..8, ..d() }),
            sim("price accounts", 2500, Profile { modes: [1, 0, 0], pre_before_init: true, n_pre: 1..8, pre: vec![(3, O_FIXEDINIT), (3, O_FIXEDCLOSE)], n_mid: 2..8, ..d() }),
        ],
        "C25" => vec![
            sim("exit", 9000, Profile { mid: money_mid(), n_mid: 3..14, n_fill: 1..6, fill: [2, 4, 5], n_post: 0..6, drain: 100, ..d() }),
            sim("exit after history", 3000, Profile { drain: 100, ..d() }),
        ],
        "C26" => vec![
            sim("admin", 8000, Profile { wls: [1, 4, 4], two_presales: 45, pre: admin_ops(), mid: admin_ops(), post: admin_ops(), n_pre: 2..10, n_mid: 2..14, n_post: 0..8, fill: [1, 0, 0], drain: 0, tamper: 25, ..d() }),
        ],
        "C27" => vec![
            sim("mixed", 6000, d()),
            sim("terms", 10000, Profile { n_mut: 0..2, init_only: true, tamper: 20, ..d() }),
            sim("admin", 2000, Profile { wls: [1, 4, 4], pre: admin_ops(), mid: admin_ops(), n_pre: 2..8, n_post: 0..8, ..d() }),
        ],
        "C28" => vec![
            meta("outsiders", 4000, Rel::Outsiders, Profile { mid: money_mid(), n_mid: 3..12, n_fill: 1..6, fill: [2, 4, 4], n_post: 2..10, drain: 80, two_presales: 10, ..d() }),
            meta("other presales", 3000, Rel::OtherPresale, Profile { two_presales: 100, mid: money_mid(), n_mid: 4..16, n_fill: 1..4, fill: [2, 3, 3], n_post: 3..14, drain: 70, ..d() }),
        ],
        "C29" => vec![
            meta("exit order", 3000, Rel::ExitOrder, Profile { mid: money_mid(), n_mid: 3..12, n_fill: 2..7, fill: [2, 4, 5], n_post: 0..5, drain: 100, ..d() }),
            meta("claim pace", 3000, Rel::ClaimPace, Profile { mid: money_mid(), n_mid: 2..8, n_fill: 1..6, fill: [1, 4, 5], post: claim_post(), n_post: 0..5, drain: 100, no_lock: 8, ..d() }),
            meta("detours", 4000, Rel::Detours, Profile { modes: [4, 4, 2], allow_withdraw: 90, kinds_q: [8, 3, 1, 2, 1, 1], mid: withdraw_mid(), n_mid: 5..16, n_fill: 0..5, fill: [2, 3, 3], n_post: 0..8, drain: 90, ..d() }),
        ],
        "C30" => vec![
            meta("registries", 6000, Rel::Renamed, Profile { wls: [0, 4, 4], mid: money_mid(), n_mid: 3..14, n_fill: 1..7, fill: [2, 4, 4], n_post: 2..10, drain: 80, two_presales: 10, ..d() }),
            meta("dates", 4000, Rel::Renamed, Profile { mid: money_mid(), n_mid: 2..10, n_fill: 1..5, fill: [2, 4, 4], post: claim_post(), n_post: 2..12, drain: 60, no_lock: 8, two_presales: 10, ..d() }),
        ],
        _ => vec![],
    }
}

fn creator_post(k: u8) -> Vec<(u32, u8)> {
    vec![
        (10, k),
        (2, O_CWITHDRAW),
        (2, O_COLLECT),
        (2, O_UNSOLD),
        (3, O_TIME),
        (3, O_CLAIM),
        (4, O_REFUND),
        (3, O_CLOSE),
        (1, O_DONATE),
        (1, O_EPOCH),
    ]
}
