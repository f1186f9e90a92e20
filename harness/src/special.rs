//! Checks that need their own generators: the off-chain whitelist builder and the token-extension
//! allow list.

use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::sim::*;
use crate::world::*;
use anchor_spl::token_2022::spl_token_2022 as t22;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solana_sdk::account::Account;
use solana_sdk::hash::hashv;
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeSet;
use t22::extension::ExtensionType as E;

// ------------------------------------------------------------------ whitelist builder

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MerkleRaw {
    /// (owner number, registry, cap)
    pub entries: Vec<(u16, u8, u64)>,
    pub version: u64,
    pub presale: u64,
    /// which altered entries are tried
    pub probes: Vec<(u16, u8, u64)>,
    /// also run the entries through the program
    pub onchain: bool,
}

pub fn merkle_raw(big: bool) -> BoxedStrategy<MerkleRaw> {
    let n = if big {
        prop_oneof![3 => 1usize..5, 4 => 1usize..20, 2 => 20usize..140, 1 => 250usize..270, 1 => 500usize..1200].boxed()
    } else {
        (1usize..30).boxed()
    };
    let cap = prop_oneof![2 => any::<u64>(), 1 => 0u64..4, 1 => Just(u64::MAX), 3 => 1u64..100_000];
    let entry = (prop_oneof![4 => any::<u16>(), 1 => 0u16..8], 0u8..7, cap.clone());
    (
        n.prop_flat_map(move |n| proptest::collection::vec(entry.clone(), n..n + 1)),
        prop_oneof![any::<u64>(), 0u64..5],
        any::<u64>(),
        proptest::collection::vec((any::<u16>(), any::<u8>(), cap), 3..12),
        prop_oneof![3 => Just(false), 2 => Just(true)],
    )
        .prop_map(|(entries, version, presale, probes, onchain)| MerkleRaw { entries, version, presale, probes, onchain })
        .boxed()
}

fn owner(n: u16) -> Pubkey {
    // wallets that exist on chain come first
    if (n as usize) < N_USERS {
        wallet(n as usize)
    } else {
        key(&format!("whitelisted-{n}"))
    }
}

const ONCHAIN: &str = "on chain: ";

pub fn run_merkle(id: &str, raw: &MerkleRaw, tracing: bool) -> Out {
    let mut out = Out::default();
    let mut bad: Vec<String> = vec![];
    let r = crate::rt::quiet(|| {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| merkle_body(id, raw, &mut out)))
    });
    match r {
        Ok(b) => bad.extend(b),
        Err(e) => bad.push(format!(
            "whitelist builder panicked: {}",
            e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    }
    for b in bad {
        if tracing {
            out.trace.push(format!("!! {b}"));
        }
        let mut tags: BTreeSet<&'static str> = ["C22"].into_iter().collect();
        if b.starts_with(ONCHAIN) {
            tags.insert("C15");
        }
        out.findings.push(Finding { step: 0, op: "whitelist".into(), what: b, tags });
    }
    out
}

fn merkle_body(id: &str, raw: &MerkleRaw, out: &mut Out) -> Vec<String> {
    use merkle_tree::config_merkle_tree::ConfigMerkleTree;
    use merkle_tree::merkle_tree::MerkleTree;
    use merkle_tree::tree_node::TreeNode;
    let mut bad = vec![];
    let nodes: Vec<TreeNode> = raw
        .entries
        .iter()
        .map(|(o, r, c)| TreeNode { escrow_owner: owner(*o), registry_index: *r, deposit_cap: *c, proof: None })
        .collect();
    // reference: one entry per wallet, at the position of its first, with the values of its last
    let mut want: Vec<(Pubkey, u8, u64)> = vec![];
    for (o, r, c) in &raw.entries {
        let k = owner(*o);
        match want.iter_mut().find(|e| e.0 == k) {
            Some(e) => *e = (k, *r, *c),
            None => want.push((k, *r, *c)),
        }
    }
    let leaves: Vec<[u8; 32]> = want.iter().map(|(k, r, c)| leaf_hash(k, *r, *c)).collect();
    let (root, proofs) = merkle(&leaves);
    let onchain = |root: [u8; 32], proofs: &[Vec<[u8; 32]>], out: &mut Out| -> Vec<String> {
        merkle_onchain(raw, root, proofs, &want, out).into_iter().map(|b| format!("{ONCHAIN}{b}")).collect()
    };
    if id == "C15" {
        // whatever the tool does, the program has to honour proofs of the published tree
        let b = onchain(root, &proofs, out);
        if !b.is_empty() {
            return b;
        }
    }
    let tree = match ConfigMerkleTree::new(nodes, raw.version) {
        Ok(t) => t,
        Err(e) => return vec![format!("a valid list of {} entries is refused: {e:?}", want.len())],
    };
    out.txs += 1;
    {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        std::hash::Hash::hash(&root, &mut h);
        if want.len() > 1 {
            out.keys.push(std::hash::Hasher::finish(&h));
            out.samples.push(format!(
                "whitelist of {} entries ({} wallets), version {}, first {:?}",
                raw.entries.len(),
                want.len(),
                raw.version,
                want[0]
            ));
        }
    }
    if tree.merkle_root != root {
        bad.push(format!("root of {} entries differs from the reference", want.len()));
    }
    if tree.version != raw.version || tree.max_num_nodes != want.len() as u64 {
        bad.push("version or entry count recorded wrongly".into());
    }
    let got: Vec<(Pubkey, u8, u64)> = tree.tree_nodes.iter().map(|n| (n.escrow_owner, n.registry_index, n.deposit_cap)).collect();
    if got != want {
        bad.push(format!("entries in the tree {got:?} differ from the list {want:?}"));
        return bad;
    }
    let map = tree.convert_to_hashmap();
    if map.len() != want.len() {
        bad.push("map has a different number of wallets".into());
    }
    for (i, (k, r, c)) in want.iter().enumerate() {
        let p = tree.tree_nodes[i].proof.clone().unwrap_or_default();
        if p != proofs[i] {
            bad.push(format!("proof of entry {i} of {} differs from the reference", want.len()));
        }
        if !merkle_verify(&p, &tree.merkle_root, &leaf_hash(k, *r, *c)) {
            bad.push(format!("entry {i} of {} is not accepted with its own proof", want.len()));
        }
        let n = tree.get_node(k);
        if (n.escrow_owner, n.registry_index, n.deposit_cap, n.proof.clone()) != (*k, *r, *c, Some(p.clone())) {
            bad.push(format!("lookup of entry {i} returns {n:?}"));
        }
        if map.get(k) != Some(&n) {
            bad.push(format!("map entry {i} differs"));
        }
        if bad.len() > 4 {
            return bad;
        }
    }
    // anything that is not listed must not verify
    for (o, r, c) in &raw.probes {
        let i = *o as usize % want.len();
        let (k, wr, wc) = want[i];
        let p = tree.tree_nodes[i].proof.clone().unwrap_or_default();
        let cand = [
            (owner(o.wrapping_add(3)), wr, wc),
            (k, wr.wrapping_add(1 + r % 250), wc),
            (k, wr, wc.wrapping_add(1)),
            (k, wr, wc ^ (1 << (c % 64))),
            (k, *r, *c),
        ];
        for e in cand {
            if want.contains(&e) {
                continue;
            }
            if merkle_verify(&p, &tree.merkle_root, &leaf_hash(&e.0, e.1, e.2)) {
                bad.push(format!("unlisted entry {e:?} verifies"));
            }
        }
        let mut p2 = p.clone();
        if p2.is_empty() {
            p2.push([*r; 32]);
        } else {
            let j = *c as usize % p2.len();
            p2[j][(*r % 32) as usize] ^= 1 << (c % 8);
        }
        if merkle_verify(&p2, &tree.merkle_root, &leaf_hash(&k, wr, wc)) {
            bad.push("an altered proof verifies".into());
        }
        if p.len() > 1 {
            // an inner node must not pass as a leaf
            let inner = {
                let l = leaf_hash(&k, wr, wc);
                let (a, b) = if l <= p[0] { (l, p[0]) } else { (p[0], l) };
                hashv(&[&a, &b]).to_bytes()
            };
            let leaf = hashv(&[&[0u8], &inner]).to_bytes();
            if merkle_verify(&p[1..], &tree.merkle_root, &leaf) {
                bad.push("an inner node verifies as a leaf".into());
            }
        }
    }
    // file round trip
    let dir = std::env::temp_dir().join(format!("pbt-{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::create_dir_all(&dir).unwrap();
    let f = dir.join("tree.json");
    tree.write_to_file(&f);
    match ConfigMerkleTree::new_from_file(&f) {
        Ok(t2) => {
            if (t2.merkle_root, t2.version, t2.max_num_nodes) != (tree.merkle_root, tree.version, tree.max_num_nodes)
                || t2.tree_nodes != tree.tree_nodes
            {
                bad.push("tree differs after being written and read back".into());
            }
            if t2.verify_proof().is_err() {
                bad.push("tree does not verify after being read back".into());
            }
        }
        Err(e) => bad.push(format!("written tree cannot be read back: {e:?}")),
    }
    let _ = std::fs::remove_dir_all(&dir);
    // account address
    let pk = key(&format!("presale-{}", raw.presale));
    if tree.get_merkle_root_config_pubkey(pk, &PROGRAM) != merkle_config_key(&pk, raw.version) {
        bad.push("whitelist account address differs from the one the program uses".into());
    }
    // the general tree, unsorted: every path verifies its own leaf and no other
    let items: Vec<Vec<u8>> = raw.entries.iter().map(|(o, r, c)| [&o.to_le_bytes()[..], &[*r], &c.to_le_bytes()].concat()).collect();
    let t = MerkleTree::new(&items, false);
    let mut lvl: Vec<[u8; 32]> = items.iter().map(|i| hashv(&[&[0u8], i]).to_bytes()).collect();
    let base = lvl.clone();
    while lvl.len() > 1 {
        lvl = lvl
            .chunks(2)
            .map(|c| hashv(&[&[1u8], &c[0], c.get(1).unwrap_or(&c[0])]).to_bytes())
            .collect();
    }
    if t.get_root().map(|h| h.to_bytes()) != Some(lvl[0]) {
        bad.push("plain tree root differs from the reference".into());
    }
    if t.find_path(items.len()).is_some() {
        bad.push("path for an index past the end".into());
    }
    let step = (items.len() / 24).max(1);
    for i in (0..items.len()).step_by(step) {
        let h = solana_sdk::hash::Hash::new_from_array(base[i]);
        match t.find_path(i) {
            Some(p) => {
                if !p.verify(h) && items.len() > 1 {
                    bad.push(format!("plain path {i} of {} does not verify", items.len()));
                }
                let j = (i + 1) % items.len();
                if base[j] != base[i] && p.verify(solana_sdk::hash::Hash::new_from_array(base[j])) && items.len() > 1 {
                    bad.push(format!("plain path {i} verifies leaf {j}"));
                }
            }
            None => bad.push(format!("no path for leaf {i}")),
        }
    }
    if raw.onchain && id != "C15" && bad.is_empty() {
        let proofs: Vec<_> = tree.tree_nodes.iter().map(|n| n.proof.clone().unwrap_or_default()).collect();
        bad.extend(onchain(tree.merkle_root, &proofs, out));
    }
    bad
}

fn merkle_onchain(
    raw: &MerkleRaw,
    root: [u8; 32],
    proofs: &[Vec<[u8; 32]>],
    want: &[(Pubkey, u8, u64)],
    out: &mut Out,
) -> Vec<String> {
    let mut bad = vec![];
    let mut rt = plain_terms();
    rt.wl = WL_MERKLE;
    rt.nreg = 5;
    let r = plain_raw(rt, 0, 0);
    let mut env = mk_env(&r);
    // let any cap in 1..=u64::MAX be acceptable to the registries
    let t = env.terms[0].as_mut().unwrap();
    t.max_cap = u64::MAX;
    for g in t.regs.iter_mut() {
        g.bmax = u64::MAX;
        g.bmin = 1;
    }
    let mut run = Run::new("C22", env, false);
    run.exec(&Op::Init { p: 0, payer: CREATOR0, args_of: None });
    if run.s.pre[0].is_none() {
        return bad; // another property's business
    }
    let pk = run.env.presale(0);
    let cfg = merkle_config_key(&pk, raw.version);
    let ix = Ix::new("create_merkle_root_config")
        .acc("presale", pk, F::R)
        .acc("config", cfg, F::W)
        .acc("creator", wallet(CREATOR0), F::WS)
        .acc("system", SYSTEM, F::R)
        .event_cpi()
        .bytes(&root)
        .u64(raw.version);
    if let Err(e) = run.w.send(&[ix.build()]) {
        return vec![format!("the generated root cannot be published: {}", e.err)];
    }
    let to = run.env.start[0];
    run.exec(&Op::Time { to });
    let n = want.len();
    let mk = |k: &Pubkey, r: u8, c: u64, proof: &[[u8; 32]]| {
        let mut ix = merkle_ix(&run.env, 0, 0, r, c, 0, raw.version, proof);
        ix.get_mut("config").unwrap().pubkey = cfg;
        ix.get_mut("owner").unwrap().pubkey = *k;
        ix.get_mut("escrow").unwrap().pubkey = escrow_key(&pk, k, r);
        ix.build()
    };
    for j in 0..n.min(6) {
        let i = (j * 7 + raw.presale as usize % n) % n;
        let (k, r, c) = want[i];
        let proof = proofs[i].clone();
        if proof.len() > 25 {
            continue;
        }
        let ok = r < 5 && c > 0;
        // a bigger cap than listed
        if c < u64::MAX && r < 5 {
            let mut w2 = run.w.clone();
            out.txs += 1;
            if w2.send(&[mk(&k, r, c + 1, &proof)]).is_ok() {
                bad.push(format!("entry {i} usable with a larger cap"));
            }
        }
        let mut w2 = run.w.clone();
        out.txs += 1;
        let res = w2.send(&[mk(&k, r, c, &proof)]);
        if res.is_ok() != ok {
            bad.push(format!("entry {:?} with its generated proof: {:?}", want[i], res.err().map(|e| e.err)));
        }
    }
    bad
}

fn plain_terms() -> RawTerms {
    RawTerms {
        mode: FCFS,
        wl: WL_NONE,
        nreg: 1,
        mag: 1,
        seeds: [77_777, 1, 5, 123_456_789, 0, 3],
        price: (0, 0),
        regs: [(1 << 60, 0, 0); 5],
        start: (0, 0),
        dur: (1, 5000),
        lock: (0, 0, 0, 0),
        ts: (0, 0),
        unsold: 0,
        flags: 0,
        min_sel: 0,
        sup_sel: 0,
        muts: vec![],
        list_seed: 1,
    }
}
fn plain_raw(t: RawTerms, bk: u8, qk: u8) -> Raw {
    Raw {
        base_kind: bk,
        quote_kind: qk,
        same_mint: false,
        fees: [(0, 0, 0, 0, 0); 2],
        terms: vec![t],
        pre: vec![],
        mid: vec![],
        fill: vec![],
        fill_mode: 0,
        post: vec![],
        drain: None,
        init_tam: 0,
        who: 0,
        odd: 1,
        era: (0, 0),
        rich: false,
    }
}

// ------------------------------------------------------------------ extension allow list

pub const ALLOWED: [E; 4] = [E::TransferFeeConfig, E::MetadataPointer, E::TokenMetadata, E::TransferHook];
pub const OTHERS: [E; 11] = [
    E::MintCloseAuthority,
    E::ConfidentialTransferMint,
    E::DefaultAccountState,
    E::NonTransferable,
    E::InterestBearingConfig,
    E::PermanentDelegate,
    E::ConfidentialTransferFeeConfig,
    E::GroupPointer,
    E::TokenGroup,
    E::GroupMemberPointer,
    E::TokenGroupMember,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ExtRaw {
    /// order matters: extensions are laid out in this order
    pub exts: Vec<u8>,
    pub quote: bool,
    pub other_kind: u8,
    pub mode: u8,
    pub native: bool,
    /// content bytes of the extensions
    pub fill: u8,
}

pub fn ext_raw() -> BoxedStrategy<ExtRaw> {
    let any_ext = prop_oneof![3 => 0u8..4, 2 => 4u8..15];
    (
        prop_oneof![
            1 => proptest::collection::vec(0u8..4, 0..5),
            2 => proptest::collection::vec(any_ext, 0..5),
            2 => (proptest::collection::vec(0u8..4, 0..4), 4u8..15, any::<u8>()).prop_map(|(mut v, e, at)| {
                let i = at as usize % (v.len() + 1);
                v.insert(i, e);
                v
            }),
        ],
        any::<bool>(),
        0u8..2,
        1u8..3,
        prop_oneof![12 => Just(false), 1 => Just(true)],
        prop_oneof![Just(0u8), any::<u8>()],
    )
        .prop_map(|(e, quote, other_kind, mode, native, fill)| {
            let mut seen = BTreeSet::new();
            ExtRaw { exts: e.into_iter().filter(|x| seen.insert(*x)).collect(), quote, other_kind, mode, native, fill }
        })
        .boxed()
}

fn ext(i: u8) -> E {
    if i < 4 {
        ALLOWED[i as usize]
    } else {
        OTHERS[i as usize - 4]
    }
}

fn tlv_len(e: E) -> usize {
    match e {
        E::TransferFeeConfig => 108,
        E::MintCloseAuthority => 32,
        E::ConfidentialTransferMint => 65,
        E::DefaultAccountState => 1,
        E::NonTransferable => 0,
        E::InterestBearingConfig => 52,
        E::PermanentDelegate => 32,
        E::TransferHook => 64,
        E::ConfidentialTransferFeeConfig => 129,
        E::MetadataPointer => 64,
        E::GroupPointer => 64,
        E::TokenGroup => 80,
        E::GroupMemberPointer => 64,
        E::TokenGroupMember => 72,
        E::ConfidentialMintBurn => 196,
        _ => 0,
    }
}

fn ext_bytes(e: E, mint: &Pubkey, fill: u8) -> Vec<u8> {
    match e {
        E::TokenMetadata => {
            let mut d = vec![0u8; 32];
            d.extend_from_slice(mint.as_ref());
            for s in ["Presale token", "PRE", "https://example.org/m.json"] {
                let s = &s[..s.len() - (fill as usize % s.len())];
                d.extend((s.len() as u32).to_le_bytes());
                d.extend(s.as_bytes());
            }
            d.extend(0u32.to_le_bytes());
            d
        }
        E::DefaultAccountState => vec![1],
        E::MetadataPointer | E::GroupPointer | E::GroupMemberPointer | E::MintCloseAuthority | E::PermanentDelegate => {
            vec![fill; tlv_len(e)]
        }
        E::TransferFeeConfig => {
            let mut d = vec![0u8; 108];
            d[..64].fill(fill);
            d
        }
        _ => vec![0; tlv_len(e)],
    }
}

pub fn run_ext(id: &str, raw: &ExtRaw, tracing: bool) -> Out {
    let mut t = plain_terms();
    t.mode = raw.mode;
    let side = raw.quote as usize;
    let (bk, qk) = if raw.quote { (raw.other_kind, 1) } else { (1, raw.other_kind) };
    let r = plain_raw(t, bk, qk);
    let mut env = mk_env(&r);
    env.terms[0].as_mut().unwrap().mode = raw.mode;
    let mut run = Run::new(id, env, tracing);
    let mint = run.env.mint(side);
    let old = run.w.acct(&mint).unwrap();
    let mut data = old.data[..82].to_vec();
    if side == 0 {
        data[36..44].fill(0); // minted afresh below
    }
    if !raw.exts.is_empty() {
        data.resize(165, 0);
        data.push(1);
        for i in &raw.exts {
            let e = ext(*i);
            let b = ext_bytes(e, &mint, raw.fill);
            data.extend((e as u16).to_le_bytes());
            data.extend((b.len() as u16).to_le_bytes());
            data.extend(b);
        }
        if data.len() == 355 {
            data.extend([0, 0]);
        }
    }
    let acct = Account { lamports: 10_000_000_000, data, owner: TOKEN22, executable: false, rent_epoch: u64::MAX };
    // make sure the token program itself can read this mint
    {
        use t22::extension::{BaseStateWithExtensions, StateWithExtensions};
        let m = StateWithExtensions::<t22::state::Mint>::unpack(&acct.data).expect("generated mint unpacks");
        assert_eq!(m.get_extension_types().expect("extension types").len(), raw.exts.len());
    }
    run.w.svm.set_account(mint, acct).unwrap();
    // the creator's token account must match the mint's extensions
    let a = ata(&wallet(CREATOR0), &mint, &TOKEN22);
    if side == 0 {
        run.w.svm.set_account(a, Account::default()).unwrap();
        if let Err(e) = try_create_ata(&mut run.w, wallet(CREATOR0), mint, TOKEN22) {
            if std::env::var_os("PBT_DEBUG").is_some() {
                crate::rt::say(&format!("no account for {:?}: {}", raw.exts.iter().map(|e| ext(*e)).collect::<Vec<_>>(), e.err));
            }
            run.class("extension sets unknown to the token program");
            return run.out;
        }
        let r = run.w.send(&[t22::instruction::mint_to(&TOKEN22, &mint, &a, &feepayer(), &[], CREATOR_BAL).unwrap()]);
        if r.is_err() {
            // cannot be minted at all with this set (non-transferable, confidential-only): nothing to offer
            run.class("unmintable extension sets");
            return run.out;
        }
    }
    run.s = snapshot(&run.w, &run.env);
    let allowed = raw.exts.iter().all(|e| *e < 4);
    let op = Op::Init { p: 0, payer: CREATOR0, args_of: None };
    let mut ix = build(&run.env, &run.s, &op).unwrap();
    if raw.native && raw.quote {
        // the Token-2022 native mint is never accepted
        let nm = t22::native_mint::id();
        let mut m = old.clone();
        m.data.truncate(82);
        m.data[0..4].fill(0);
        run.w.svm.set_account(nm, m).unwrap();
        let pk = presale_key(&base_key(0), &run.env.mint(0), &nm);
        for (role, k) in [
            ("quote_mint", nm),
            ("presale", pk),
            ("base_token_vault", base_vault_key(&pk)),
            ("quote_token_vault", quote_vault_key(&pk)),
        ] {
            ix.get_mut(role).unwrap().pubkey = k;
        }
        let r = run.w.send(&[ix.build()]);
        run.out.txs += 1;
        if r.is_ok() {
            run.find("init", "a presale over the Token-2022 native mint was accepted".into(), ["C23", "C18"].into_iter().collect());
        }
        run.nontrivial(&("native", raw.mode, raw.other_kind), || "presale over the Token-2022 native mint -> rejected".into());
        return run.out;
    }
    let names: Vec<String> = raw.exts.iter().map(|e| format!("{:?}", ext(*e))).collect();
    let sname = if raw.quote { "quote" } else { "base" };
    if allowed {
        run.exec(&op);
        run.class("allowed extension sets");
    } else {
        let r = run.w.send(&[ix.build()]);
        run.out.txs += 1;
        run.class("disallowed extension sets");
        if r.is_ok() {
            run.find("init", format!("{sname} mint with extensions {names:?} was accepted"), ["C23", "C18"].into_iter().collect());
        }
    }
    if tracing {
        run.out.trace.push(format!("init with {sname} mint extensions {names:?}, expected {}", if allowed { "accept" } else { "reject" }));
    }
    run.nontrivial(&(&raw.exts, raw.quote, raw.other_kind, raw.mode), || {
        format!("{sname} mint with extensions {names:?} -> {}", if allowed { "accepted" } else { "rejected" })
    });
    run.out
}
