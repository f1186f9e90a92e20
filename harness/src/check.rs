//! Runs a property's campaigns, shrinks failures, writes evidence and replay files.

use crate::gen::*;
use crate::meta::*;
use crate::profiles::*;
use crate::rt::say;
use crate::sim::{self, Out};
use crate::special::*;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Sim(Raw),
    Merkle(MerkleRaw),
    Ext(ExtRaw),
    Meta(MetaRaw),
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    campaign: String,
    violated: Vec<String>,
    history: Vec<String>,
    case: Case,
}

fn strategy(c: &Campaign) -> BoxedStrategy<Case> {
    match &c.kind {
        Kind::Sim(p) => raw(p).prop_map(Case::Sim).boxed(),
        Kind::Merkle => merkle_raw(true).prop_map(Case::Merkle).boxed(),
        Kind::Meta(p, _) => meta_raw(p).prop_map(Case::Meta).boxed(),
        Kind::Ext => ext_raw().prop_map(Case::Ext).boxed(),
    }
}

/// Which checks notice anything, with a fraction of the quick budget and without shrinking: used to
/// measure the checks against many planted changes.
pub fn survey(a: &[String]) -> i32 {
    let pct: usize = a[0].parse().expect("percent");
    let seed: u64 = a[1].parse().expect("seed");
    let ids: Vec<&str> = if a.len() > 2 { a[2..].iter().map(|s| s.as_str()).collect() } else { ALL.to_vec() };
    let mut found = vec![];
    for id in ids {
        let mut camps = campaigns(id);
        for c in camps.iter_mut() {
            c.quick = (c.quick * pct / 100).max(WORKERS);
        }
        let t = explore(id, &camps, seed, false, false, &|c, _, _, _| {
            say(&format!("{id} hangs in {}", c.name));
            say(&format!("FOUND {} {id}", found.join(" ")));
            std::process::exit(0)
        });
        if let Some((ci, _, _, case)) = t.failures.first() {
            let o = run_case(id, &camps[*ci], case, false);
            found.push(id);
            say(&format!("{id} after {} cases: {}", t.cases, hits(&o, id).first().cloned().unwrap_or_default().chars().take(240).collect::<String>()));
        }
    }
    say(&format!("FOUND {}", found.join(" ")));
    0
}

/// A panic of the harness itself means the observed state or outcome fits nothing the accounts can
/// hold; that never happens on a correct program and is reported as a finding of its own. A panic
/// while an input is being made (gen.rs) says nothing about the program: that case is dropped.
fn run_case(id: &str, c: &Campaign, case: &Case, tracing: bool) -> Out {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_inner(id, c, case, tracing))) {
        Ok(o) => o,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let mut o = Out::default();
            if crate::rt::GENERATING.with(|c| c.get()) {
                return o;
            }
            let f = crate::exec::Finding {
                step: 0,
                op: "observe".into(),
                what: format!("the observed state cannot be interpreted: {m}"),
                tags: ALL.into_iter().collect(),
            };
            o.trace.push(f.what.clone());
            o.findings.push(f);
            o
        }
    }
}

fn run_inner(id: &str, c: &Campaign, case: &Case, tracing: bool) -> Out {
    match (case, &c.kind) {
        (Case::Sim(r), Kind::Sim(p)) => sim::run(id, r, p, tracing),
        (Case::Meta(r), Kind::Meta(p, rel)) => run_meta(id, r, p, *rel, tracing),
        (Case::Merkle(r), _) => run_merkle(id, r, tracing),
        (Case::Ext(r), _) => run_ext(id, r, tracing),
        _ => panic!("case does not fit its campaign"),
    }
}

fn hits(o: &Out, id: &str) -> Vec<String> {
    o.findings.iter().filter(|f| f.tags.contains(id)).map(|f| format!("step {} {}: {}", f.step, f.op, f.what)).collect()
}

fn rng_seed(seed: u64, id: &str, camp: &str, worker: usize) -> [u8; 32] {
    solana_sdk::hash::hashv(&[&seed.to_le_bytes(), id.as_bytes(), camp.as_bytes(), &(worker as u64).to_le_bytes()]).to_bytes()
}

#[derive(Default)]
struct Tally {
    cases: u64,
    nontrivial_cases: u64,
    txs: u64,
    tampered: u64,
    keys: HashSet<u64>,
    samples: Vec<String>,
    ops: BTreeMap<&'static str, (u64, u64)>,
    classes: BTreeMap<&'static str, u64>,
    reasons: BTreeMap<String, u64>,
    per_campaign: BTreeMap<String, u64>,
    failures: Vec<(usize, usize, usize, Case)>,
}

impl Tally {
    fn add(&mut self, o: &Out, camp: &str) {
        self.cases += 1;
        self.nontrivial_cases += !o.keys.is_empty() as u64;
        self.txs += o.txs;
        self.tampered += o.tampered;
        self.keys.extend(o.keys.iter().copied());
        if self.samples.len() < 3 {
            self.samples.extend(o.samples.iter().take(1).cloned());
        }
        for (k, v) in &o.ops {
            let e = self.ops.entry(k).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        for (k, v) in &o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        for (k, v) in &o.reasons {
            *self.reasons.entry(k.clone()).or_default() += v;
        }
        *self.per_campaign.entry(camp.to_string()).or_default() += 1;
    }
    fn merge(&mut self, t: Tally) {
        self.cases += t.cases;
        self.nontrivial_cases += t.nontrivial_cases;
        self.txs += t.txs;
        self.tampered += t.tampered;
        self.keys.extend(t.keys);
        if self.samples.len() < 6 {
            self.samples.extend(t.samples.into_iter().take(1));
        }
        for (k, v) in t.ops {
            let e = self.ops.entry(k).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        for (k, v) in t.classes {
            *self.classes.entry(k).or_default() += v;
        }
        for (k, v) in t.reasons {
            *self.reasons.entry(k).or_default() += v;
        }
        for (k, v) in t.per_campaign {
            *self.per_campaign.entry(k).or_default() += v;
        }
        self.failures.extend(t.failures);
    }
}

const WORKERS: usize = 8;

/// The case each worker is running and since when: a call that never comes back would otherwise leave
/// the check without an answer.
static RUNNING: [Mutex<Option<(Instant, usize, usize, Case)>>; WORKERS] = [const { Mutex::new(None) }; WORKERS];
/// a case takes milliseconds
const HUNG_S: u64 = 90;
const HUNG_MB: u64 = 10_000;

fn resident_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096 >> 20
}

/// A case that has been running far too long, if any (the longest running one when memory is short).
fn hung() -> Option<(usize, usize, usize, Case)> {
    let mem = resident_mb() > HUNG_MB;
    let mut worst: Option<(u64, (usize, usize, usize, Case))> = None;
    for (w, r) in RUNNING.iter().enumerate() {
        let g = r.lock().unwrap();
        if let Some((t, ci, i, c)) = g.as_ref() {
            let e = t.elapsed().as_secs();
            if (e >= HUNG_S || (mem && e >= 3)) && worst.as_ref().map(|x| e > x.0).unwrap_or(true) {
                worst = Some((e, (*ci, w, i.to_owned(), c.clone())));
            }
        }
    }
    worst.map(|x| x.1)
}

/// counts a worker out, however it ends
struct Gone<'a>(&'a AtomicUsize);

impl Drop for Gone<'_> {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Ordering::Relaxed);
    }
}

/// Runs one case under the eye of the monitor.
fn watched(id: &str, c: &Campaign, at: (usize, usize, usize), case: &Case) -> Out {
    let (ci, w, i) = at;
    *RUNNING[w].lock().unwrap() = Some((Instant::now(), ci, i, case.clone()));
    let o = run_case(id, c, case, false);
    *RUNNING[w].lock().unwrap() = None;
    o
}

type Stuck<'a> = &'a (dyn Fn(&Campaign, usize, usize, &Case) + Sync);

fn explore(id: &str, camps: &[Campaign], seed: u64, thorough: bool, shrinking: bool, stuck: Stuck) -> Tally {
    let total = Mutex::new(Tally::default());
    let stop = AtomicBool::new(false);
    let left = AtomicUsize::new(WORKERS);
    std::thread::scope(|sc| {
        let left = &left;
        sc.spawn(move || {
            while left.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(std::time::Duration::from_millis(50));
                if let Some((ci, w, i, c)) = hung() {
                    stuck(&camps[ci], w, i, &c);
                }
            }
        });
        for w in 0..WORKERS {
            let (total, stop) = (&total, &stop);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let _gone = Gone(left);
                    let mut t = Tally::default();
                    for (ci, c) in camps.iter().enumerate() {
                        let n = if thorough { c.thorough } else { c.quick };
                        let n = n / WORKERS + usize::from(w < n % WORKERS);
                        let cfg = Config { failure_persistence: None, ..Config::default() };
                        let mut rn = TestRunner::new_with_rng(
                            cfg,
                            TestRng::from_seed(RngAlgorithm::ChaCha, &rng_seed(seed, id, c.name, w)),
                        );
                        let st = strategy(c);
                        for i in 0..n {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let mut tree = st.new_tree(&mut rn).expect("generator");
                            let case = tree.current();
                            let o = watched(id, c, (ci, w, i), &case);
                            t.add(&o, c.name);
                            if !hits(&o, id).is_empty() {
                                stop.store(true, Ordering::Relaxed);
                                let best = if shrinking { shrink(id, c, (ci, w, i), &mut tree, case) } else { case };
                                t.failures.push((ci, w, i, best));
                                break;
                            }
                        }
                    }
                    total.lock().unwrap().merge(t);
                })
                .unwrap();
        }
    });
    total.into_inner().unwrap()
}

fn shrink(id: &str, c: &Campaign, at: (usize, usize, usize), tree: &mut Box<dyn ValueTree<Value = Case>>, first: Case) -> Case {
    let mut best = first;
    let t = Instant::now();
    let mut budget = 3000;
    if !tree.simplify() {
        return best;
    }
    loop {
        budget -= 1;
        if budget == 0 || t.elapsed().as_secs() > 60 {
            break;
        }
        let cand = tree.current();
        let bad = !hits(&watched(id, c, at, &cand), id).is_empty();
        let more = if bad {
            best = cand;
            tree.simplify()
        } else {
            tree.complicate()
        };
        if !more {
            break;
        }
    }
    best
}

fn opt<'a>(a: &'a [String], k: &str) -> Option<&'a str> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|s| s.as_str())
}

pub fn check(a: &[String]) -> i32 {
    let id = a[0].clone();
    let camps = campaigns(&id);
    if camps.is_empty() {
        say(&format!("unknown property {id}"));
        return 2;
    }
    let tier = opt(a, "--tier").unwrap_or("quick").to_string();
    let seed: u64 = opt(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let dir = PathBuf::from(opt(a, "--verif").unwrap_or("/verif"));
    let t0 = Instant::now();
    let stuck = |c: &Campaign, w: usize, i: usize, case: &Case| {
        let why = "a call of this case never comes back";
        let f = keep(&dir, &id, seed, c, w, i, vec![why.into()], vec![], case);
        evidence(&dir, &id, &tier, seed, &Tally { cases: 1, samples: vec![why.into()], ..Default::default() }, t0, 1);
        say(&format!("  {why}"));
        say(&format!("VIOLATION property={id} replay={}", f.display()));
        std::process::exit(1)
    };
    let mut t = explore(&id, &camps, seed, tier == "thorough", true, &stuck);
    t.failures.sort_by_key(|f| (f.0, f.1, f.2));
    let mut lines = vec![];
    let mut violations = 0;
    if let Some((ci, w, i, case)) = t.failures.first() {
        let c = &camps[*ci];
        let o = run_case(&id, c, case, true);
        let hs = hits(&o, &id);
        let f = keep(&dir, &id, seed, c, *w, *i, hs.clone(), o.trace.clone(), case);
        violations = 1;
        for h in hs.iter().take(3) {
            lines.push(format!("  {}", h.chars().take(600).collect::<String>()));
        }
        lines.push(format!("VIOLATION property={id} replay={}", f.display()));
    }
    evidence(&dir, &id, &tier, seed, &t, t0, violations);
    for l in lines {
        say(&l);
    }
    say(&format!(
        "{id} {tier} seed={seed}: {} cases, {} distinct non-trivial, {} transactions, {:.1}s, violations={violations}",
        t.cases,
        t.keys.len(),
        t.txs,
        t0.elapsed().as_secs_f64()
    ));
    violations
}

/// Writes the replay file of a failing case.
#[allow(clippy::too_many_arguments)]
fn keep(dir: &Path, id: &str, seed: u64, c: &Campaign, w: usize, i: usize, violated: Vec<String>, history: Vec<String>, case: &Case) -> PathBuf {
    let rp = Replay { property: id.into(), campaign: c.name.to_string(), violated, history, case: case.clone() };
    let rd = dir.join("replays");
    std::fs::create_dir_all(&rd).expect("replays directory");
    let f = rd.join(format!("{id}-{seed}-{}-{w}-{i}.json", c.name.replace(' ', "_")));
    std::fs::write(&f, serde_json::to_string_pretty(&rp).unwrap()).expect("replay file");
    f
}

fn evidence(dir: &Path, id: &str, tier: &str, seed: u64, t: &Tally, t0: Instant, violations: i32) {
    let ev = serde_json::json!({
        "property": id,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.cases,
            "distinct_nontrivial": t.keys.len(),
            "rule": rule(id),
            "samples": t.samples.iter().map(|s| s.chars().take(900).collect::<String>()).collect::<Vec<_>>(),
            "nontrivial_cases": t.nontrivial_cases,
            "transactions": t.txs,
            "tampered_transactions": t.tampered,
            "cases_per_campaign": t.per_campaign,
            "operations_accepted_rejected": t.ops,
            "classes": t.classes,
            "predicted_rejections": t.reasons,
        },
        "assumptions": [
            "the program's Rust code compiled natively and run inside LiteSVM behaves as it does compiled to SBF (no compute or stack limits are modelled)",
            "the SPL token, Token-2022, associated-token and memo programs bundled with LiteSVM and the runtime's ownership, signer and rent rules are trusted",
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let ed = dir.join("evidence");
    std::fs::create_dir_all(&ed).expect("evidence directory");
    std::fs::write(ed.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence file");
}

pub fn replay(f: &str) -> i32 {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("replay format");
    let camps = campaigns(&r.property);
    let c = camps.iter().find(|c| c.name == r.campaign).expect("campaign");
    let o = run_case(&r.property, c, &r.case, true);
    for l in &o.trace {
        say(l);
    }
    let h = hits(&o, &r.property);
    for x in &h {
        say(&format!("violated: {x}"));
    }
    if h.is_empty() {
        say("property holds on this case");
        0
    } else {
        say(&format!("VIOLATION property={} replay={f}", r.property));
        1
    }
}

pub fn stats(a: &[String]) -> i32 {
    let id = &a[0];
    let mut camps = campaigns(id);
    let n: usize = a[1].parse().unwrap();
    let seed = a[2].parse().unwrap();
    for c in camps.iter_mut() {
        c.quick = n;
    }
    for c in &camps {
        let t0 = Instant::now();
        let t = explore(id, std::slice::from_ref(c), seed, false, false, &|_, _, _, _| {
            say("a case hangs");
            std::process::exit(1)
        });
        say(&format!("== {id}/{}: {} cases, {} nontrivial cases, {} keys, {} tx, {:?}", c.name, t.cases, t.nontrivial_cases, t.keys.len(), t.txs, t0.elapsed()));
        say(&format!("{:?}", t.ops));
        if a.len() > 3 {
            say(&format!("{:#?} {:?}", t.reasons, t.classes));
            for s in &t.samples {
                say(s);
            }
        }
        for f in t.failures.iter().take(1) {
            let o = run_case(id, c, &f.3, true);
            for l in &o.trace {
                say(l);
            }
        }
    }
    0
}

fn rule(id: &str) -> String {
    let what = match id {
        "C01" => "accepted operations that change a quote vault's balance",
        "C02" => "accepted operations that change a base vault's balance or the base supply",
        "C03" => "accepted operations that change a presale's recorded totals",
        "C04" => "deposits that are accepted, or rejected only because of amount limits, price granularity or funds",
        "C05" => "withdrawals that are accepted, or rejected only because of amount limits, balance or presale mode",
        "C06" => "accepted operations on a presale, and operations whose only obstacle is the presale's phase",
        "C07" => "deposits that end a presale early by reaching its maximum cap",
        "C08" => "accepted claims and refreshes on a completed presale",
        "C09" => "claims that pay tokens from a registry with at least two buyers",
        "C10" => "refunds of unused quote on a completed presale: paying, repeated, or refused because nothing is oversubscribed",
        "C11" => "refunds and supply recovery on a failed presale, first and repeated",
        "C12" => "creator withdrawals: first, repeated, and outside the allowed phase",
        "C13" => "fee collections: paying, repeated, and outside the allowed phase",
        "C14" => "unsold-supply actions: executed, repeated, with nothing unsold, and outside the allowed phase",
        "C15" => "escrow creations that are accepted, or rejected only because of entitlement, registry, personal cap or existing escrow, tampered proofs, signatures and accounts, and on-chain whitelists with at least two wallets",
        "C16" => "otherwise valid calls with a missing or foreign signature or a foreign account owner",
        "C17" => "otherwise valid calls with one account replaced by a forged or foreign one",
        "C18" => "creation attempts with generated terms at and around every limit",
        "C19" => "creations and closures of price accounts and fixed-price presale creations",
        "C20" => "escrow closures that are accepted, or rejected only because value is still owed or because of the phase",
        "C21" => "accepted operations on a presale (terms compared before and after)",
        "C22" => "whitelists with at least two wallets, distinct by root",
        "C23" => "accepted token movements of Token-2022 mints with fees, hooks or memo accounts, tampered hook accounts, and presale creations with generated mint extension sets",
        "C24" => "accepted operations, whose emitted events are compared byte for byte",
        "C25" => "full exits of presales with at least one deposit",
        "C26" => "whitelist, operator and server metadata operations that are accepted, or rejected only because of phase, mode or existence",
        "C27" => "accepted operations encoded with the fixed wire format and decoded with the fixed account layout",
        "C28" => "histories with accepted payments that are replayed with outsiders' actions in between, or without the other presale's payments, and compared",
        "C29" => "histories with accepted payments that are replayed with another exit order (at least two buyers), with claims along the way, or with detours during the sale, and compared",
        "C30" => "histories with accepted payments that are replayed with registries listed in another order, other buyers in each role, or all times shifted, and compared",
        _ => "",
    };
    format!("Scenarios come from proptest strategies over presale terms, token kinds and operation histories; a step is non-trivial if it is one of: {what}. Distinct by operation, time, presale state and terms.")
}
