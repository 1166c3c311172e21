//! C12 (Merkle commitments), C13 (public data), C15 (challenges, ivs, random files).
use crate::par::*;
use crate::seal::STUB;
use pospace_real::proof_of_space::{pospace as space_drv, verifier as space_ver};
use postorage_real::proof_of_storage::merkle_tree::{generate_merkle_proof, generate_merkle_tree_from_data, generate_merkle_tree_from_file, verify_merkle_proof};
use postorage_real::proof_of_storage::{postorage as drv, verifier};
use rs_merkle::{algorithms::Sha256, Hasher, MerkleProof, MerkleTree};
use rug::integer::Order;
use rug::Integer;
use serde::{Deserialize, Serialize};
use simrt::driver::{viol, Ctx, Res, Sim, Tier};
use simrt::plan::*;
use simrt::{reset_world, run, world, FaultKind, Out, Phase, PhaseInfo, Rng};
use std::collections::BTreeSet;

// ---- C12 --------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Alt {
    /// another value for the k-th claimed leaf
    Leaf(u32, u32),
    /// the claimed leaves at other positions
    Shift(u32),
    /// the proof of one set for another set of the same size
    Positions(Vec<u32>),
    Root(u32),
    /// bit of the proof
    Proof(u32),
    /// proof cut short by that many hashes
    Cut(u32),
    /// proof for the same positions of a file that differs in one byte
    OtherFile(u32),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct P12 {
    leaves: usize,
    leaf_len: usize,
    /// bytes missing from the last leaf
    ragged: usize,
    data: Data,
    faults: Vec<PF>,
    /// byte positions (ppm) changed one at a time
    changes: Vec<u32>,
    proofs: Vec<(Vec<u32>, Vec<Alt>)>,
    driver: Option<(usize, Option<u32>, u64)>,
}
pub struct C12;
type Tree = (Vec<[u8; 32]>, [u8; 32]);

fn real_tree(path: &'static str, len: usize, leaf: usize, ph: Phase) -> (Out<Tree>, PhaseInfo) {
    run(ph, move || {
        let (l, _, r) = generate_merkle_tree_from_file(path, len, leaf);
        (l, r)
    })
}
/// A last leaf that is not full may be hashed as it is or filled up with zeros.
fn ref_leaves(d: &[u8], leaf: usize, fill: bool) -> Vec<[u8; 32]> {
    d.chunks(leaf)
        .map(|c| {
            let mut c = c.to_vec();
            if fill {
                c.resize(leaf, 0);
            }
            Sha256::hash(&c)
        })
        .collect()
}
/// Binary tree over the leaves; a lone node moves up unchanged.
fn ref_root(l: &[[u8; 32]]) -> [u8; 32] {
    let mut v = l.to_vec();
    while v.len() > 1 {
        v = v
            .chunks(2)
            .map(|c| {
                if c.len() == 1 {
                    c[0]
                } else {
                    let mut b = c[0].to_vec();
                    b.extend_from_slice(&c[1]);
                    Sha256::hash(&b)
                }
            })
            .collect();
    }
    v[0]
}

impl Sim for C12 {
    type Plan = P12;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when a fault struck the reading of the file, a byte of it was changed, or an altered proof was judged"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 40_000 } else { 120_000 }
    }
    fn gen(&self, r: &mut Rng, tier: Tier, _index: u64) -> P12 {
        let wide = r.chance(1, 60);
        let leaves = match r.below(10) {
            _ if wide => r.us(1, 3),
            0 => r.us(60, if tier == Tier::Quick { 200 } else { 2000 }),
            1 => 1,
            _ => r.us(1, 20),
        };
        let leaf_len = match r.below(5) {
            _ if wide => r.us(65_000, 300_000),
            0 => r.us(1, 4),
            1 => r.us(1000, 9000),
            _ => r.us(16, 300),
        };
        let ppm = |r: &mut Rng| match r.below(5) {
            0 => 0,
            1 => 999_999,
            _ => r.below(1_000_000) as u32,
        };
        let proofs = (0..r.us(1, 3))
            .map(|_| {
                (
                    (0..r.us(1, leaves.min(8))).map(|_| r.below(leaves as u64) as u32).collect(),
                    (0..r.us(0, 4))
                        .map(|_| match r.below(7) {
                            0 => Alt::Leaf(r.next() as u32, r.below(256) as u32),
                            1 => Alt::Shift(r.range(1, 1000) as u32),
                            2 => Alt::Positions((0..8).map(|_| r.below(leaves as u64) as u32).collect()),
                            3 => Alt::Root(r.below(256) as u32),
                            4 => Alt::Proof(r.below(1_000_000) as u32),
                            5 => Alt::Cut(r.range(1, 3) as u32),
                            _ => Alt::OtherFile(r.below(1_000_000) as u32),
                        })
                        .collect(),
                )
            })
            .collect();
        P12 {
            leaves,
            leaf_len,
            ragged: if r.chance(1, 3) { r.us(0, leaf_len - 1) } else { 0 },
            data: Data::gen(r),
            faults: match r.below(3) {
                0 => gen_soft(r),
                1 => gen_faults(r, Family::Read),
                _ => vec![],
            },
            changes: (0..r.us(0, 3)).map(|_| ppm(r)).collect(),
            proofs,
            driver: if r.chance(1, 3) { Some((r.us(1, leaves), if r.chance(1, 2) { Some(ppm(r)) } else { None }, r.next())) } else { None },
        }
    }
    fn run(&self, p: &P12, ctx: &mut Ctx) -> Res {
        const F: &str = "store/tree";
        const G: &str = "store/tree2";
        reset_world(17, 1, 0);
        let n = p.leaves * p.leaf_len - p.ragged;
        let d = p.data.bytes(n);
        put(F, &d);
        let (o, i) = real_tree(F, n, p.leaf_len, Phase::clean());
        let (leaves, root) = match o {
            Out::Ok(x) => x,
            o => return viol("clean-failure", format!("building the tree: {}", o.what())),
        };
        let fill = leaves == ref_leaves(&d, p.leaf_len, true);
        let want = ref_leaves(&d, p.leaf_len, fill);
        if leaves != want {
            return viol("wrong-leaves", format!("{} leaves, {} expected; first difference at {:?}", leaves.len(), want.len(), (0..want.len()).find(|&k| leaves.get(k) != want.get(k))));
        }
        if root != ref_root(&want) {
            return viol("wrong-root", "the root is not the root over the leaves' hashes");
        }
        ctx.sub += 1;
        if !p.faults.is_empty() {
            let (o, j) = real_tree(F, n, p.leaf_len, Phase::faulty(&scale(&p.faults, i.ops)));
            ctx.sub += 1;
            if j.hard + j.soft > 0 {
                ctx.nontrivial = true;
            }
            match o {
                Out::Ok((l, r)) => {
                    if l != leaves || r != root {
                        return viol("root-changed-by-fault", "a read that was cut short or failed changed the reported root");
                    }
                    ctx.probe("same-root");
                }
                Out::Panic(m) => {
                    if j.hard == 0 {
                        return viol("clean-failure", format!("building the tree failed although every read worked: {}", m));
                    }
                    ctx.probe("failed-visibly");
                }
                o => return viol("no-progress", o.what()),
            }
        }
        if get(F) != d {
            return viol("file-modified", "building the tree changed the file");
        }
        for c in &p.changes {
            let mut e = d.clone();
            let at = n * *c as usize / 1_000_000;
            e[at] ^= 1 << (c % 8);
            put(G, &e);
            ctx.nontrivial = true;
            ctx.sub += 1;
            ctx.fault("byte_changed");
            match real_tree(G, n, p.leaf_len, Phase::clean()).0 {
                Out::Ok((_, r)) => {
                    if r == root {
                        return viol("change-not-covered", format!("changing byte {} of {} (leaf {} of {}) left the root as it was", at, n, at / p.leaf_len, p.leaves));
                    }
                }
                o => return viol("clean-failure", format!("building the tree: {}", o.what())),
            }
        }
        let chunks: Vec<Vec<u8>> = d
            .chunks(p.leaf_len)
            .map(|c| {
                let mut c = c.to_vec();
                if fill {
                    c.resize(p.leaf_len, 0);
                }
                c
            })
            .collect();
        match run(Phase::clean(), move || generate_merkle_tree_from_data(&chunks).2).0 {
            Out::Ok(r) if r == root => {}
            Out::Ok(_) => return viol("wrong-root", "the tree made from data has another root than the tree made from the file"),
            o => return viol("clean-failure", format!("building the tree from data: {}", o.what())),
        }
        for (idx, alts) in &p.proofs {
            let idx: Vec<usize> = idx.iter().map(|&i| i as usize % p.leaves).collect::<BTreeSet<_>>().into_iter().collect();
            let prove = |path: &'static str, idx: Vec<usize>, len: usize, leaf: usize| {
                run(Phase::clean(), move || {
                    let (_, t, _) = generate_merkle_tree_from_file(path, len, leaf);
                    generate_merkle_proof(&idx, &t).to_bytes()
                })
                .0
            };
            let judge = |proof: Vec<u8>, root: [u8; 32], idx: Vec<usize>, leaves: Vec<[u8; 32]>| {
                run(Phase::clean(), move || match MerkleProof::<Sha256>::try_from(proof) {
                    Ok(pr) => verify_merkle_proof(pr, root, &idx, &leaves).accepted(),
                    Err(_) => false,
                })
                .0
            };
            let proof = match prove(F, idx.clone(), n, p.leaf_len) {
                Out::Ok(x) => x,
                o => return viol("clean-failure", format!("proving {:?} of {}: {}", idx, p.leaves, o.what())),
            };
            match judge(proof.clone(), root, idx.clone(), leaves.clone()) {
                Out::Ok(true) => ctx.probe("true-proof-accepted"),
                o => return viol("true-proof-rejected", format!("a proof of leaves {:?} of {} was rejected: {}", idx, p.leaves, o.what())),
            }
            ctx.sub += 1;
            for a in alts {
                let (mut pr, mut rt, mut ix, mut lv) = (proof.clone(), root, idx.clone(), leaves.clone());
                match a {
                    Alt::Leaf(k, b) => {
                        let k = ix[*k as usize % ix.len()];
                        lv[k][*b as usize / 8] ^= 1 << (b % 8);
                    }
                    Alt::Shift(s) => {
                        let to: BTreeSet<usize> = ix.iter().map(|&i| (i + *s as usize) % p.leaves).collect();
                        let vals: Vec<[u8; 32]> = ix.iter().map(|&i| leaves[i]).collect();
                        let to: Vec<usize> = to.into_iter().collect();
                        for (k, &t) in to.iter().enumerate() {
                            lv[t] = vals[k];
                        }
                        ix = to;
                        if ix.iter().all(|&i| lv[i] == leaves[i]) {
                            continue;
                        }
                    }
                    Alt::Positions(v) => {
                        let mut set: BTreeSet<usize> = BTreeSet::new();
                        for &x in v {
                            if set.len() < ix.len() {
                                set.insert(x as usize % p.leaves);
                            }
                        }
                        let to: Vec<usize> = set.into_iter().collect();
                        let distinct: BTreeSet<&[u8; 32]> = leaves.iter().collect();
                        if to == ix || to.len() != ix.len() || distinct.len() != leaves.len() {
                            continue;
                        }
                        ix = to;
                    }
                    Alt::Root(b) => rt[*b as usize / 8] ^= 1 << (b % 8),
                    Alt::Proof(x) => {
                        if pr.is_empty() {
                            continue;
                        }
                        let bit = (pr.len() as u64 * 8 * *x as u64 / 1_000_000) as usize;
                        pr[bit / 8] ^= 1 << (bit % 8);
                    }
                    Alt::Cut(k) => {
                        if pr.is_empty() {
                            continue;
                        }
                        let l = pr.len().saturating_sub(32 * *k as usize);
                        pr.truncate(l);
                    }
                    Alt::OtherFile(x) => {
                        let mut e = d.clone();
                        let at = n * *x as usize / 1_000_000;
                        e[at] ^= 0x40;
                        put(G, &e);
                        pr = match prove(G, ix.clone(), n, p.leaf_len) {
                            Out::Ok(x) => x,
                            o => return viol("clean-failure", format!("proving: {}", o.what())),
                        };
                        lv = ref_leaves(&e, p.leaf_len, fill);
                    }
                }
                ctx.nontrivial = true;
                ctx.sub += 1;
                ctx.fault("proof_or_claim_altered");
                match judge(pr, rt, ix.clone(), lv) {
                    Out::Ok(true) => return viol("false-proof-accepted", format!("{:?} was accepted for leaves {:?} of {}", a, ix, p.leaves)),
                    Out::Ok(false) | Out::Panic(_) => ctx.probe("false-proof-rejected"),
                    o => return viol("no-progress", o.what()),
                }
            }
        }
        // the driver works on whole blocks
        if let Some((count, change, entropy)) = p.driver.as_ref().filter(|_| p.ragged == 0) {
            let mut e = d.clone();
            if let Some(c) = change {
                e[n * *c as usize / 1_000_000] ^= 0x10;
            }
            ctx.absorb();
            reset_world(*entropy, 1, 0);
            put(F, &d);
            put(G, &e);
            let (len, leaf, count) = (n, p.leaf_len, *count);
            let (o, _) = run(Phase::clean(), move || drv::merkle_tree_proof(F, G, len, leaf, count).accepted());
            ctx.sub += 1;
            match (o, change) {
                (Out::Ok(true), None) => ctx.probe("driver-accepted"),
                (o, None) => return viol("true-proof-rejected", format!("merkle_tree_proof of equal files: {}", o.what())),
                (Out::Ok(true), Some(_)) => return viol("false-proof-accepted", "merkle_tree_proof accepted although one byte of the unsealed file differs"),
                (o, Some(_)) => {
                    if !matches!(o, Out::Ok(_)) && !o.loud() {
                        return viol("no-progress", o.what());
                    }
                    ctx.probe("driver-rejected");
                }
            }
        }
        Ok(())
    }
    fn shrink(&self, p: &P12) -> Vec<P12> {
        let mut out = vec![];
        for f in shrink_list(&p.faults) {
            out.push(P12 { faults: f, ..p.clone() });
        }
        for c in shrink_list(&p.changes) {
            out.push(P12 { changes: c, ..p.clone() });
        }
        for c in shrink_list(&p.proofs) {
            out.push(P12 { proofs: c, ..p.clone() });
        }
        for i in 0..p.proofs.len() {
            for c in shrink_list(&p.proofs[i].0) {
                if !c.is_empty() {
                    let mut q = p.clone();
                    q.proofs[i].0 = c;
                    out.push(q);
                }
            }
            for c in shrink_list(&p.proofs[i].1) {
                let mut q = p.clone();
                q.proofs[i].1 = c;
                out.push(q);
            }
        }
        for x in shrink_num(p.ragged, 0) {
            out.push(P12 { ragged: x, ..p.clone() });
        }
        if p.driver.is_some() {
            out.push(P12 { driver: None, ..p.clone() });
        }
        for x in shrink_num(p.leaves, 1) {
            out.push(P12 { leaves: x, driver: p.driver.clone().map(|d| (d.0.min(x), d.1, d.2)), ..p.clone() });
        }
        for x in shrink_num(p.leaf_len, 1) {
            out.push(P12 { leaf_len: x, ragged: p.ragged.min(x - 1), ..p.clone() });
        }
        out
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["merkle_tree.rs, postorage::merkle_tree_proof, read_file", "rs_merkle, sha2", "std::fs / std::io"]
    }
    fn stub(&self) -> Vec<&'static str> {
        STUB.to_vec()
    }
}
#[allow(dead_code)]
type Unused = MerkleTree<Sha256>;

// ---- C13 --------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op13 {
    Save { key: u64, iv: u64, faults: Vec<PF> },
    Load { faults: Vec<PF> },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct P13 {
    old: Old,
    ops: Vec<Op13>,
}
pub struct C13;
fn key13(seed: u64) -> Integer {
    let mut r = Rng::new(seed);
    match r.below(6) {
        0 => Integer::from(r.below(10)),
        1 => Para { blocks: 1, units: 1, pl: 256, seal_rounds: 1, vde_rounds: 1, mode_l: 0, cnt_l: 0, mode_s: 0, cnt_s: 0 }.key(),
        2 => Para { blocks: 1, units: 1, pl: 64, seal_rounds: 1, vde_rounds: 1, mode_l: 0, cnt_l: 0, mode_s: 0, cnt_s: 0 }.key(),
        _ => {
            let n = r.us(1, 300);
            Integer::from_digits(&r.bytes(n), Order::Lsf)
        }
    }
}
fn iv13(seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let n = *r.pick(&[128, 128, 128, 0, 1, 7, 300]);
    r.bytes(n)
}
impl Sim for C13 {
    type Plan = P13;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when a save was cut short by a crash or fault, or a later save followed an earlier one of another length"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 40_000 } else { 400_000 }
    }
    fn gen(&self, r: &mut Rng, tier: Tier, _index: u64) -> P13 {
        let k = r.us(2, if tier == Tier::Quick { 8 } else { 16 });
        let old = if r.chance(1, 2) { Old::none() } else { Old::gen(r, 400) };
        let ops = (0..k)
            .map(|i| {
                if i == 0 || r.chance(1, 2) {
                    Op13::Save {
                        key: r.next(),
                        iv: r.next(),
                        faults: match r.below(6) {
                            0 | 1 => vec![],
                            2 => gen_soft(r),
                            3 => gen_faults(r, Family::Write),
                            _ => vec![PF { pos: Pos::Head(r.below(9) as u32), kind: FaultKind::Crash(r.below(1001) as u32) }],
                        },
                    }
                } else {
                    Op13::Load {
                        faults: match r.below(4) {
                            0 => gen_soft(r),
                            1 => gen_faults(r, Family::Read),
                            _ => vec![],
                        },
                    }
                }
            })
            .collect();
        P13 { old, ops }
    }
    fn run(&self, p: &P13, ctx: &mut Ctx) -> Res {
        type V = (Integer, Vec<u8>);
        reset_world(19, 1, 0);
        p.old.apply(K);
        // what a load may return; None: whatever was there before the first save
        let mut allowed: Option<Vec<V>> = None;
        let mut strict = false;
        let check = |allowed: &Option<Vec<V>>, strict: bool, faults: &[PF], ctx: &mut Ctx, what: String| -> Res {
            // before the first completed save the file holds bytes no save wrote: nothing is promised
            if allowed.is_none() {
                return Ok(());
            }
            let (o, i) = run(Phase::faulty(&scale(faults, 8)), || drv::load_data(K));
            ctx.sub += 1;
            match o {
                Out::Ok(v) => {
                    if let Some(a) = allowed {
                        if !a.contains(&v) {
                            return viol("wrong-public-data", format!("{}: loading returned data that no save wrote (key of {} bits, iv of {} bytes)", what, v.0.significant_bits(), v.1.len()));
                        }
                        ctx.probe(if strict { "last-save-read-back" } else { "complete-data-after-interrupted-save" });
                    }
                }
                Out::Panic(m) => {
                    if strict && i.hard == 0 {
                        return viol("load-failed", format!("{}: loading failed although the last save completed: {}", what, m));
                    }
                    ctx.probe("load-failed-visibly");
                }
                o => return viol("no-progress", format!("{}: load: {}", what, o.what())),
            }
            Ok(())
        };
        for (n, op) in p.ops.iter().enumerate() {
            match op {
                Op13::Save { key, iv, faults } => {
                    let v: V = (key13(*key), iv13(*iv));
                    let (k2, i2) = v.clone();
                    let (o, i) = run(Phase::faulty(&scale(faults, 8)), move || drv::save_data(K, &k2, &i2));
                    if allowed.is_some() || i.hard + i.soft > 0 {
                        ctx.nontrivial = true;
                    }
                    match o {
                        Out::Ok(()) => {
                            allowed = Some(vec![v]);
                            strict = true;
                        }
                        Out::Crashed | Out::Panic(_) => {
                            if let Out::Panic(m) = &o {
                                if i.hard == 0 {
                                    return viol("clean-failure", format!("save failed although every storage operation worked: {}", m));
                                }
                            }
                            ctx.probe(if matches!(o, Out::Crashed) { "save-crashed" } else { "save-failed-visibly" });
                            if let Some(a) = &mut allowed {
                                a.push(v);
                            }
                            strict = false;
                        }
                        o => return viol("no-progress", format!("save: {}", o.what())),
                    }
                    check(&allowed, strict, &[], ctx, format!("after step {}", n))?;
                }
                Op13::Load { faults } => check(&allowed, strict, faults, ctx, format!("step {}", n))?,
            }
        }
        // faults stop: a save completes and reads back
        let v: V = (key13(4242), iv13(4242));
        let (k2, i2) = v.clone();
        let (o, _) = run(Phase::clean(), move || drv::save_data(K, &k2, &i2));
        if !o.is_ok() {
            return viol("no-recovery", format!("a save after the faults stopped: {}", o.what()));
        }
        check(&Some(vec![v]), true, &[], ctx, "final save".into())
    }
    fn shrink(&self, p: &P13) -> Vec<P13> {
        let mut out: Vec<P13> = shrink_list(&p.ops).into_iter().map(|ops| P13 { ops, ..p.clone() }).collect();
        for i in 0..p.ops.len() {
            let f = match &p.ops[i] {
                Op13::Save { faults, .. } | Op13::Load { faults } => faults,
            };
            for f in shrink_list(f) {
                let mut q = p.clone();
                match &mut q.ops[i] {
                    Op13::Save { faults, .. } | Op13::Load { faults } => *faults = f,
                }
                out.push(q);
            }
        }
        if p.old.len.is_some() {
            out.push(P13 { old: Old::none(), ..p.clone() });
        }
        out
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["postorage::save_data / load_data", "bincode, serde, rug", "std::fs / std::io"]
    }
    fn stub(&self) -> Vec<&'static str> {
        STUB.to_vec()
    }
}

// ---- C15 --------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Draw {
    StorageChallenges,
    SpaceChallenges,
    StorageParams(usize),
    SpaceParams,
    RandomFile,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum P15 {
    Storage { entropy: u64, lo: usize, width: usize, counts: Vec<usize>, faults: Vec<PF> },
    TooMany { entropy: u64, lo: usize, width: usize, extra: usize },
    StorageCover { entropy: u64, lo: usize, width: usize, n: usize },
    StorageMid { entropy: u64, lo: usize, width: usize, n: usize },
    Space { entropy: u64, n: usize, counts: Vec<usize>, faults: Vec<PF> },
    SpaceCover { entropy: u64, n: usize },
    Fresh { entropy: u64, what: Draw, clock: (u64, i64), clock2: (u64, i64), faults: Vec<PF> },
    File { entropy: u64, len: usize, old: Old, faults: Vec<PF> },
    FileCover { entropy: u64 },
    /// every byte value and every bit of an iv
    IvCover { entropy: u64, pl: usize },
    /// every digit of keys, messages and constants
    ParamCover { entropy: u64 },
    /// separate processes, each started anew at the same instant
    Restart { entropy: u64, what: Draw, clock: (u64, i64) },
    /// very many draws of one process: a small space of seeds shows as a repeated draw
    Many { entropy: u64, what: Draw, count: usize },
    /// wide ranges, by bucket
    StorageWide { entropy: u64, lo: usize, width: usize, n: usize },
    /// large tables, by bit
    SpaceWide { entropy: u64, n: usize },
}
pub struct C15;

/// One draw as bytes, long enough that two independent ones never coincide.
fn draw(w: &Draw) -> Vec<u8> {
    let put_us = |v: Vec<usize>| v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    match w {
        Draw::StorageChallenges => put_us(verifier::create_challenges(20, (0, 1 << 40))),
        Draw::SpaceChallenges => put_us(space_ver::create_challenges(40, 20)),
        Draw::StorageParams(pl) => drv::prepare_params(*pl).1,
        Draw::SpaceParams => {
            let (a, b, k, m) = space_drv::prepare_params();
            format!("{:?}{:?}{:?}{:?}", a.last(), b.last(), k, m).into_bytes()
        }
        Draw::RandomFile => {
            verifier::create_random_file("store/rnd", 64).unwrap();
            std::fs::read("store/rnd").unwrap()
        }
    }
}
/// One short draw (at least 80 random bits) as a number.
fn short_draw(w: &Draw) -> u128 {
    let pack = |v: Vec<usize>| v.iter().fold(0u128, |a, &x| simrt::rng::mix2(a as u64, x as u64) as u128 | (simrt::rng::mix2((a >> 64) as u64 ^ 77, x as u64) as u128) << 64);
    match w {
        Draw::StorageChallenges => pack(verifier::create_challenges(4, (0, 1 << 40))),
        Draw::SpaceChallenges => pack(space_ver::create_challenges(5, 20)),
        Draw::StorageParams(pl) => drv::prepare_params(*pl).1.iter().take(16).fold(0, |a, &b| a << 8 | b as u128),
        Draw::SpaceParams => {
            use ark_ff::PrimeField;
            let (_, _, k, m) = space_drv::prepare_params();
            let (k, m) = (k.into_repr(), m.into_repr());
            k.0[0] as u128 | (m.0[0] as u128) << 64
        }
        Draw::RandomFile => {
            verifier::create_random_file("store/rnd", 12).unwrap();
            get("store/rnd").iter().fold(0, |a, &b| a << 8 | b as u128)
        }
    }
}
/// The 64 hexadecimal digits of field elements.
fn hexes<T: ark_ff::PrimeField>(v: &[T]) -> Vec<Vec<u8>> {
    use ark_ff::BigInteger;
    v.iter().map(|x| x.into_repr().to_bytes_be().iter().flat_map(|b| [b >> 4, b & 15]).collect()).collect()
}
/// Pieces of one draw that must differ from each other (key, message and constants are separate draws).
fn pieces(w: &Draw) -> Vec<String> {
    match w {
        Draw::SpaceParams => {
            let (a, b, k, m) = space_drv::prepare_params();
            a.iter().chain(b.iter()).chain([k, m].iter()).map(|x| format!("{:?}", x)).collect()
        }
        Draw::StorageParams(pl) => {
            let iv = drv::prepare_params(*pl).1;
            iv.chunks(16).map(|c| format!("{:?}", c)).collect()
        }
        _ => vec![],
    }
}

impl Sim for C15 {
    type Plan = P15;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when draws of several processes or several draws of one process were compared, an entropy or disk fault struck, or the request was at the edge of what exists"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 60_000 } else { 200_000 }
    }
    fn limit_s(&self) -> u64 {
        60
    }
    fn gen(&self, r: &mut Rng, tier: Tier, index: u64) -> P15 {
        let entropy = r.next();
        if index < if tier == Tier::Quick { 12 } else { 60 } {
            let what = match index % 6 {
                0 => Draw::StorageChallenges,
                1 => Draw::SpaceChallenges,
                2 => Draw::StorageParams(*r.pick(&[64, 128, 256])),
                3 => Draw::RandomFile,
                _ => Draw::SpaceParams,
            };
            let count = if matches!(what, Draw::SpaceParams) { 120_000 } else { 250_000 };
            return P15::Many { entropy, what, count };
        }
        let what = |r: &mut Rng| match r.below(5) {
            0 => Draw::StorageChallenges,
            1 => Draw::SpaceChallenges,
            2 => Draw::StorageParams(*r.pick(&[64, 128, 256])),
            3 => Draw::SpaceParams,
            _ => Draw::RandomFile,
        };
        let rf = |r: &mut Rng| {
            (0..r.us(0, 3))
                .map(|_| PF { pos: Pos::Head(0), kind: if r.chance(1, 2) { FaultKind::GetrandomEintr } else { FaultKind::GetrandomShort(r.below(1000) as u32) } })
                .collect::<Vec<PF>>()
        };
        let width = match r.below(4) {
            0 => r.us(1, 4),
            1 => r.us(1000, 1 << 30),
            _ => r.us(1, 60),
        };
        let lo = *r.pick(&[0, 0, 1, 10, 1000, 1 << 33]);
        match r.below(14) {
            10 => P15::IvCover { entropy, pl: *r.pick(&[64, 128, 256, 32]) },
            11 => P15::ParamCover { entropy },
            12 => P15::StorageWide { entropy, lo, width: 1 << r.us(6, 40), n: r.us(1, 20) },
            13 => P15::SpaceWide { entropy, n: r.us(7, 40) },
            0 | 1 => P15::Storage { entropy, lo, width, counts: (0..r.us(1, 5)).map(|_| if r.chance(1, 3) { width.min(100) } else { r.us(0, width.min(100)) }).collect(), faults: rf(r) },
            2 => P15::TooMany { entropy, lo, width: r.us(0, 30), extra: r.us(1, 20) },
            3 if r.chance(1, 12) => {
                let width = r.us(25, 2000);
                P15::StorageMid { entropy, lo, width, n: match r.below(3) {
                    0 => r.us(1, width),
                    1 => r.us(width - width / 8, width),
                    _ => r.us(1, 40).min(width),
                } }
            }
            3 => {
                let width = r.us(2, 24);
                P15::StorageCover { entropy, lo, width, n: r.us(1, width) }
            }
            4 => P15::Space { entropy, n: r.us(1, 24), counts: (0..r.us(1, 4)).map(|_| r.us(0, 200)).collect(), faults: rf(r) },
            5 => P15::SpaceCover { entropy, n: r.us(1, 6) },
            6 if r.chance(1, 3) => P15::Restart { entropy, what: what(r), clock: (r.range(1, 1 << 50), r.next() as i64 >> 3) },
            6 | 7 => P15::Fresh {
                entropy,
                what: what(r),
                clock: (r.range(1, 1 << 50), r.next() as i64 >> 3),
                clock2: (r.range(1, 1 << 50), r.next() as i64 >> 3),
                faults: rf(r),
            },
            8 => P15::File { entropy, len: match r.below(4) { 0 => r.us(0, 3), 1 => r.us(1000, 5000), _ => r.us(1, 600) }, old: Old::gen(r, 600), faults: if r.chance(1, 3) { gen_soft(r) } else { gen_faults(r, Family::Write) } },
            _ => P15::FileCover { entropy },
        }
    }
    fn run(&self, p: &P15, ctx: &mut Ctx) -> Res {
        match p {
            P15::Storage { entropy, lo, width, counts, faults } => {
                reset_world(*entropy, 1, 0);
                let (lo, hi) = (*lo, lo + width);
                for &n in counts {
                    let (o, i) = run(Phase::faulty(&scale(faults, 0)), move || verifier::create_challenges(n, (lo, hi)));
                    ctx.sub += 1;
                    if i.hard + i.soft > 0 || n == *width {
                        ctx.nontrivial = true;
                    }
                    let c = match o {
                        Out::Ok(c) => c,
                        o => return viol("clean-failure", format!("create_challenges({}, {}..{}): {}", n, lo, hi, o.what())),
                    };
                    if c.len() != n {
                        return viol("wrong-count", format!("{} challenges instead of {}", c.len(), n));
                    }
                    if c.iter().any(|&x| x < lo || x >= hi) {
                        return viol("out-of-range", format!("{:?} is not inside {}..{}", c, lo, hi));
                    }
                    if c.windows(2).any(|w| w[0] >= w[1]) {
                        return viol("not-distinct-increasing", format!("{:?}", c));
                    }
                }
                Ok(())
            }
            P15::TooMany { entropy, lo, width, extra } => {
                reset_world(*entropy, 1, 0);
                let (lo, hi, n) = (*lo, lo + width, width + extra);
                let mut ph = Phase::clean();
                ph.max_ops = 100_000;
                let (o, _) = run(ph, move || verifier::create_challenges(n, (lo, hi)));
                ctx.sub += 1;
                ctx.nontrivial = true;
                match o {
                    Out::Panic(_) => {
                        ctx.probe("asking-for-too-many-failed-visibly");
                        Ok(())
                    }
                    Out::Ok(c) => viol("wrong-count", format!("asked for {} challenges out of {}, got {} without a failure", n, width, c.len())),
                    o => viol("no-progress", o.what()),
                }
            }
            P15::StorageCover { entropy, lo, width, n } => {
                reset_world(*entropy, 1, 0);
                let (lo, w, n) = (*lo, *width, *n);
                // every position is expected 200 times or more
                let rounds = (200 * w).div_ceil(n);
                let (o, _) = run(Phase::clean(), move || {
                    let mut c = vec![0u64; w];
                    let mut pairs = vec![0u64; w * w];
                    for _ in 0..rounds {
                        let d = verifier::create_challenges(n, (lo, lo + w));
                        for (i, &x) in d.iter().enumerate() {
                            if x >= lo && x < lo + w {
                                c[x - lo] += 1;
                                for &y in &d[i + 1..] {
                                    if y > x && y < lo + w {
                                        pairs[(x - lo) * w + y - lo] += 1;
                                    }
                                }
                            }
                        }
                    }
                    (c, pairs)
                });
                ctx.sub += 1;
                ctx.nontrivial = true;
                let (c, pairs) = match o {
                    Out::Ok(c) => c,
                    o => return viol("clean-failure", o.what()),
                };
                let e2 = rounds as f64 * (n * (n - 1)) as f64 / (w * (w - 1)) as f64;
                for x in 0..w {
                    for y in x + 1..w {
                        let k = pairs[x * w + y];
                        if (k as f64 - e2).abs() > 9.0 * e2.sqrt() + 12.0 {
                            return viol("biased", format!("positions {} and {} of {} were challenged together {} times in {} draws of {}, expected about {:.0}", x, y, w, k, rounds, n, e2));
                        }
                    }
                }
                let e = (rounds * n) as f64 / w as f64;
                let q = 1.0 - n as f64 / w as f64;
                for (k, &x) in c.iter().enumerate() {
                    if (x as f64 - e).abs() > 9.0 * (e * q).sqrt() + if q > 0.0 { 4.0 } else { 1e-9 } {
                        return viol("biased", format!("position {} of {} was challenged {} times in {} draws of {}, expected about {:.0}", k, w, x, rounds, n, e));
                    }
                }
                Ok(())
            }
            P15::StorageMid { entropy, lo, width, n } => {
                reset_world(*entropy, 1, 0);
                let (lo, w, n) = (*lo, *width, *n);
                // every position is expected 60 times or more
                let rounds = (60 * w).div_ceil(n);
                let (o, _) = run(Phase::clean(), move || {
                    let mut c = vec![0u64; w];
                    for _ in 0..rounds {
                        for x in verifier::create_challenges(n, (lo, lo + w)) {
                            if x >= lo && x < lo + w {
                                c[x - lo] += 1;
                            }
                        }
                    }
                    c
                });
                ctx.sub += 1;
                ctx.nontrivial = true;
                let c = match o {
                    Out::Ok(c) => c,
                    o => return viol("clean-failure", o.what()),
                };
                let e = (rounds * n) as f64 / w as f64;
                let q = 1.0 - n as f64 / w as f64;
                for (k, &x) in c.iter().enumerate() {
                    // expected count e >= 60: a position never challenged is below the band
                    if (x as f64 - e).abs() > (7.0 * (e * q).sqrt() + 3.0).min(59.5) {
                        return viol("biased", format!("position {} of {} was challenged {} times in {} draws of {}, expected about {:.0}", k, w, x, rounds, n, e));
                    }
                }
                Ok(())
            }
            P15::Space { entropy, n, counts, faults } => {
                reset_world(*entropy, 1, 0);
                let n = *n;
                for &k in counts {
                    let (o, i) = run(Phase::faulty(&scale(faults, 0)), move || space_ver::create_challenges(k, n));
                    ctx.sub += 1;
                    if i.hard + i.soft > 0 || counts.len() > 1 {
                        ctx.nontrivial = true;
                    }
                    let c = match o {
                        Out::Ok(c) => c,
                        o => return viol("clean-failure", format!("space create_challenges({}, {}): {}", k, n, o.what())),
                    };
                    if c.len() != k {
                        return viol("wrong-count", format!("{} space challenges instead of {}", c.len(), k));
                    }
                    if c.iter().any(|&x| x >> n != 0) {
                        return viol("out-of-range", format!("a space challenge is not below 2^{}", n));
                    }
                }
                Ok(())
            }
            P15::SpaceCover { entropy, n } => {
                reset_world(*entropy, 1, 0);
                let n = *n;
                let total = 200usize << n;
                let (o, _) = run(Phase::clean(), move || {
                    let mut c = vec![0u64; 1 << n];
                    let mut done = 0;
                    while done < total {
                        for x in space_ver::create_challenges(100, n) {
                            if x >> n == 0 {
                                c[x] += 1;
                            }
                            done += 1;
                        }
                    }
                    (c, done)
                });
                ctx.sub += 1;
                ctx.nontrivial = true;
                let (c, done) = match o {
                    Out::Ok(c) => c,
                    o => return viol("clean-failure", o.what()),
                };
                let e = done as f64 / (1u64 << n) as f64;
                for (k, &x) in c.iter().enumerate() {
                    if (x as f64 - e).abs() > 9.0 * e.sqrt() + 4.0 {
                        return viol("biased", format!("slot {} of 2^{} was challenged {} times in {}, expected about {:.0}", k, n, x, done, e));
                    }
                }
                Ok(())
            }
            P15::Fresh { entropy, what, clock, clock2, faults } => {
                // five processes one after another, two draws each, all started at the same instant
                let mut seen: BTreeSet<Vec<u8>> = BTreeSet::new();
                reset_world(*entropy, clock.0, clock.1);
                ctx.nontrivial = true;
                let mut first = vec![];
                for k in 0..20 {
                    world().mono = clock.0;
                    world().wall = clock.1;
                    let w = what.clone();
                    let (o, _) = run(Phase::faulty(&scale(faults, 0)), move || (draw(&w), draw(&w)));
                    let (a, b) = match o {
                        Out::Ok(x) => x,
                        o => return viol("clean-failure", format!("{:?}: {}", what, o.what())),
                    };
                    if k == 0 {
                        first = a.clone();
                    }
                    ctx.sub += 2;
                    if !seen.insert(a) || !seen.insert(b) {
                        return viol("draw-repeated", format!("{:?}: a draw was repeated (process {}, same clock)", what, k));
                    }
                }
                let w = what.clone();
                if let Out::Ok(v) = run(Phase::clean(), move || pieces(&w)).0 {
                    let s: BTreeSet<&String> = v.iter().collect();
                    if s.len() != v.len() {
                        return viol("draw-repeated", format!("{:?}: two of the values drawn together are equal", what));
                    }
                }
                ctx.absorb();
                // the same entropy at another time
                reset_world(*entropy, clock2.0, clock2.1);
                let w = what.clone();
                match run(Phase::faulty(&scale(faults, 0)), move || draw(&w)).0 {
                    Out::Ok(x) => {
                        if x != first {
                            return viol("depends-on-clock", format!("{:?}: the same entropy gave another value at another time", what));
                        }
                    }
                    o => return viol("clean-failure", format!("{:?}: {}", what, o.what())),
                }
                Ok(())
            }
            P15::Restart { entropy, what, clock } => {
                let mut seen: BTreeSet<Vec<u8>> = BTreeSet::new();
                ctx.nontrivial = true;
                for k in 0..5 {
                    let w = what.clone();
                    let got = simrt::driver::in_new_process(move || {
                        reset_world(simrt::rng::mix2(*entropy, k), clock.0, clock.1);
                        match run(Phase::clean(), move || (draw(&w), draw(&w))).0 {
                            Out::Ok((a, b)) => [vec![0], (a.len() as u32).to_le_bytes().to_vec(), a, b].concat(),
                            o => [vec![1], o.what().into_bytes()].concat(),
                        }
                    });
                    let Some(got) = got else { return viol("clean-failure", format!("{:?}: the process died", what)) };
                    if got[0] != 0 {
                        return viol("clean-failure", format!("{:?}: {}", what, String::from_utf8_lossy(&got[1..])));
                    }
                    ctx.mixin(simrt::rng::hash_bytes(&got));
                    ctx.fault("process_restart");
                    let n = u32::from_le_bytes(got[1..5].try_into().unwrap()) as usize;
                    ctx.sub += 2;
                    if !seen.insert(got[5..5 + n].to_vec()) || !seen.insert(got[5 + n..].to_vec()) {
                        return viol("draw-repeated", format!("{:?}: a draw was repeated after a restart (process {}, same clock)", what, k));
                    }
                }
                Ok(())
            }
            P15::Many { entropy, what, count } => {
                reset_world(*entropy, 1, 0);
                let (w, n) = (what.clone(), *count);
                let mut ph = Phase::clean();
                ph.max_ops = u64::MAX / 4;
                let (o, _) = run(ph, move || {
                    let mut seen = std::collections::HashSet::with_capacity(n);
                    (0..n).find(|_| !seen.insert(short_draw(&w)))
                });
                ctx.sub += 1;
                ctx.nontrivial = true;
                match o {
                    Out::Ok(None) => Ok(()),
                    Out::Ok(Some(k)) => viol("draw-repeated", format!("{:?}: draw {} of one process has been drawn before", what, k)),
                    o => viol("clean-failure", format!("{:?}: {}", what, o.what())),
                }
            }
            P15::File { entropy, len, old, faults } => {
                reset_world(*entropy, 1, 0);
                const F: &str = "store/rnd";
                old.apply(F);
                let len = *len;
                let start = world().fs.clone();
                let mk = |ph: Phase| run(ph, move || verifier::create_random_file(F, len).is_ok());
                let (o, i) = mk(Phase::clean());
                match o {
                    Out::Ok(true) => {}
                    o => return viol("clean-failure", format!("create_random_file: {}", o.what())),
                }
                if get(F).len() != len {
                    return viol("wrong-length", format!("the random file has {} bytes instead of {}", get(F).len(), len));
                }
                let a = get(F);
                world().fs = start;
                let (o, j) = mk(Phase::faulty(&scale(faults, i.ops)));
                ctx.sub += 2;
                if j.hard + j.soft > 0 {
                    ctx.nontrivial = true;
                }
                match o {
                    Out::Ok(true) => {
                        let b = get(F);
                        if b.len() != len {
                            return viol("wrong-length", format!("success was reported over a random file of {} bytes instead of {}", b.len(), len));
                        }
                        if len >= 32 && a == b {
                            return viol("draw-repeated", "two random files are equal");
                        }
                        ctx.probe("file-complete");
                    }
                    Out::Ok(false) | Out::Panic(_) => {
                        if j.hard == 0 {
                            return viol("clean-failure", "create_random_file failed although every storage operation worked");
                        }
                        ctx.probe("failed-visibly");
                    }
                    o => return viol("no-progress", o.what()),
                }
                let (o, _) = mk(Phase::clean());
                if !matches!(o, Out::Ok(true)) || get(F).len() != len {
                    return viol("no-recovery", "create_random_file after the faults stopped");
                }
                Ok(())
            }
            P15::IvCover { entropy, pl } => {
                reset_world(*entropy, 1, 0);
                let pl = *pl;
                let (o, _) = run(Phase::clean(), move || (0..200).map(|_| drv::prepare_params(pl).1).collect::<Vec<_>>());
                let v = match o {
                    Out::Ok(v) => v,
                    o => return viol("clean-failure", format!("prepare_params: {}", o.what())),
                };
                ctx.sub += 1;
                ctx.nontrivial = true;
                let len = v.iter().map(|x| x.len()).min().unwrap_or(0);
                if len < 16 {
                    return viol("biased", format!("an iv has only {} bytes", len));
                }
                let mut c = [0f64; 256];
                let mut total = 0f64;
                for &b in v.iter().flatten() {
                    c[b as usize] += 1.0;
                    total += 1.0;
                }
                let e = total / 256.0;
                for k in 0..256 {
                    if c[k] < 0.2 * e || c[k] > 2.0 * e + 10.0 {
                        return viol("biased", format!("byte value {} occurs {} times in {} bytes of ivs, expected about {:.0}", k, c[k], total, e));
                    }
                }
                for i in 0..len {
                    for b in 0..8 {
                        let k = v.iter().filter(|x| x[i] >> b & 1 == 1).count();
                        if !(30..=170).contains(&k) {
                            return viol("biased", format!("bit {} of byte {} is set in {} of 200 ivs", b, i, k));
                        }
                    }
                }
                Ok(())
            }
            P15::ParamCover { entropy } => {
                reset_world(*entropy, 1, 0);
                let (o, _) = run(Phase::clean(), move || {
                    let (mut c, mut k) = (vec![], vec![]);
                    for _ in 0..100 {
                        let (a, b, x, y) = space_drv::prepare_params();
                        c.extend(a);
                        c.extend(b);
                        k.push(x);
                        k.push(y);
                    }
                    c.truncate(1000);
                    // each kind of value must itself be well spread
                    vec![("constants", hexes(&c)), ("keys", hexes(&k.iter().step_by(2).cloned().collect::<Vec<_>>())), ("messages", hexes(&k.iter().skip(1).step_by(2).cloned().collect::<Vec<_>>()))]
                });
                let all = match o {
                    Out::Ok(v) => v,
                    o => return viol("clean-failure", format!("space prepare_params: {}", o.what())),
                };
                ctx.sub += 1;
                ctx.nontrivial = true;
                for (what, v) in all {
                    for d in 0..64 {
                        for b in 0..4 {
                            if d == 0 && b == 3 {
                                continue; // above the field's modulus
                            }
                            let k = v.iter().filter(|x| x[d] >> b & 1 == 1).count();
                            if k * 8 < v.len() || (v.len() - k) * 8 < v.len() {
                                return viol("biased", format!("bit {} of {} is set in {} of {}", (63 - d) * 4 + b, what, k, v.len()));
                            }
                        }
                    }
                }
                Ok(())
            }
            P15::StorageWide { entropy, lo, width, n } => {
                reset_world(*entropy, 1, 0);
                let (lo, w, n) = (*lo, *width, *n);
                let rounds = 3200usize.div_ceil(n);
                let (o, _) = run(Phase::clean(), move || {
                    let (mut hi, mut low) = (vec![0u64; 16], vec![0u64; 16]);
                    for _ in 0..rounds {
                        for x in verifier::create_challenges(n, (lo, lo + w)) {
                            let x = x.wrapping_sub(lo);
                            if x < w {
                                hi[x / (w / 16)] += 1;
                                low[x % 16] += 1;
                            }
                        }
                    }
                    (hi, low)
                });
                let (hi, low) = match o {
                    Out::Ok(v) => v,
                    o => return viol("clean-failure", o.what()),
                };
                ctx.sub += 1;
                ctx.nontrivial = true;
                let e = (rounds * n) as f64 / 16.0;
                for k in 0..16 {
                    for (what, c) in [("sixteenth", hi[k]), ("residue class modulo 16", low[k])] {
                        if (c as f64 - e).abs() > 9.0 * e.sqrt() + 4.0 {
                            return viol("biased", format!("{} {} of a range of {} was challenged {} times in {} draws of {}, expected about {:.0}", what, k, w, c, rounds, n, e));
                        }
                    }
                }
                Ok(())
            }
            P15::SpaceWide { entropy, n } => {
                reset_world(*entropy, 1, 0);
                let n = *n;
                let (o, _) = run(Phase::clean(), move || space_ver::create_challenges(1000, n));
                let c = match o {
                    Out::Ok(v) => v,
                    o => return viol("clean-failure", o.what()),
                };
                ctx.sub += 1;
                ctx.nontrivial = true;
                for b in 0..n {
                    let k = c.iter().filter(|&&x| x >> b & 1 == 1).count();
                    if !(350..=650).contains(&k) {
                        return viol("biased", format!("bit {} of {}-bit challenges is set in {} of 1000", b, n, k));
                    }
                    for a in 0..b {
                        let k = c.iter().filter(|&&x| (x >> a ^ x >> b) & 1 == 1).count();
                        if !(350..=650).contains(&k) {
                            return viol("biased", format!("bits {} and {} of {}-bit challenges differ in {} of 1000", a, b, n, k));
                        }
                    }
                }
                Ok(())
            }
            P15::FileCover { entropy } => {
                reset_world(*entropy, 1, 0);
                const F: &str = "store/rnd";
                let n = 256 * 100 + (*entropy % 20) as usize * (*entropy % 20) as usize * 700;
                let (o, _) = run(Phase::clean(), move || verifier::create_random_file(F, n).is_ok());
                if !matches!(o, Out::Ok(true)) {
                    return viol("clean-failure", "create_random_file");
                }
                ctx.sub += 1;
                ctx.nontrivial = true;
                let data = get(F);
                for part in data.chunks(256 * 100).filter(|p| p.len() == 256 * 100) {
                    let mut c = [0u64; 256];
                    for &b in part {
                        c[b as usize] += 1;
                    }
                    for (k, &x) in c.iter().enumerate() {
                        if (x as f64 - 100.0).abs() > 80.0 {
                            return viol("biased", format!("byte value {} occurs {} times in {} random bytes, expected about 100", k, x, part.len()));
                        }
                    }
                }
                let mut seen = std::collections::HashSet::new();
                for w in data.windows(12) {
                    if !seen.insert(w) {
                        return viol("draw-repeated", format!("twelve bytes in a row occur twice in a random file of {} bytes", n));
                    }
                }
                Ok(())
            }
        }
    }
    fn shrink(&self, p: &P15) -> Vec<P15> {
        let mut out = vec![];
        match p {
            P15::Storage { entropy, lo, width, counts, faults } => {
                for c in shrink_list(counts) {
                    out.push(P15::Storage { entropy: *entropy, lo: *lo, width: *width, counts: c, faults: faults.clone() });
                }
                for f in shrink_list(faults) {
                    out.push(P15::Storage { entropy: *entropy, lo: *lo, width: *width, counts: counts.clone(), faults: f });
                }
            }
            P15::Space { entropy, n, counts, faults } => {
                for c in shrink_list(counts) {
                    out.push(P15::Space { entropy: *entropy, n: *n, counts: c, faults: faults.clone() });
                }
                for f in shrink_list(faults) {
                    out.push(P15::Space { entropy: *entropy, n: *n, counts: counts.clone(), faults: f });
                }
            }
            P15::Fresh { entropy, what, clock, clock2, faults } => {
                for f in shrink_list(faults) {
                    out.push(P15::Fresh { entropy: *entropy, what: what.clone(), clock: *clock, clock2: *clock2, faults: f });
                }
            }
            P15::File { entropy, len, old, faults } => {
                for f in shrink_list(faults) {
                    out.push(P15::File { entropy: *entropy, len: *len, old: old.clone(), faults: f });
                }
                for l in shrink_num(*len, 0) {
                    out.push(P15::File { entropy: *entropy, len: l, old: old.clone(), faults: faults.clone() });
                }
                if old.len.is_some() {
                    out.push(P15::File { entropy: *entropy, len: *len, old: Old::none(), faults: faults.clone() });
                }
            }
            P15::Many { entropy, what, count } => {
                for c in shrink_num(*count, 2) {
                    out.push(P15::Many { entropy: *entropy, what: what.clone(), count: c });
                }
            }
            P15::StorageCover { entropy, lo, width, n } => {
                for w in shrink_num(*width, 2) {
                    out.push(P15::StorageCover { entropy: *entropy, lo: *lo, width: w, n: (*n).min(w) });
                }
            }
            _ => {}
        }
        out
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["storage create_challenges, prepare_params, create_random_file; space create_challenges, prepare_params", "rand, getrandom", "std::fs / std::io"]
    }
    fn stub(&self) -> Vec<&'static str> {
        STUB.to_vec()
    }
}
