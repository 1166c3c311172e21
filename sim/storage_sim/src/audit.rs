//! C10, C11: parallel unsealing under a seeded scheduler; audits between prover and verifier.
use crate::par::*;
use crate::seal::{REAL, STUB};
use postorage_real::proof_of_storage::common::blake3_hash;
use postorage_real::proof_of_storage::merkle_tree::{generate_merkle_proof, generate_merkle_tree_from_data, verify_merkle_proof};
use postorage_real::proof_of_storage::postorage as drv;
use postorage_real::proof_of_storage::verifier;
use rs_merkle::{algorithms::Sha256, MerkleProof};
use serde::{Deserialize, Serialize};
use simrt::driver::{viol, Ctx, Res, Sim, Tier};
use simrt::plan::*;
use simrt::rng::mix2;
use simrt::{reset_world, run, FaultKind, Out, Phase, Policy, Rng, SchedCfg};

pub fn gen_sched(r: &mut Rng) -> SchedCfg {
    SchedCfg {
        seed: r.next(),
        policy: match r.below(8) {
            0 => Policy::Lazy,
            1 => Policy::Random { permille: 500 },
            2 => Policy::Random { permille: 100 },
            3 => Policy::Random { permille: 10 },
            4 | 5 => Policy::Pct { changes: r.range(1, 6) as u32, horizon: *r.pick(&[200, 2000, 20_000]) },
            _ => Policy::Starve { permille: 100, victim: r.below(5) as u32 },
        },
        spurious: *r.pick(&[0, 0, 20, 200]),
        random_wake: r.chance(1, 2),
        script: None,
    }
}

/// How the verifier turns delivered blocks into a verdict.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum How {
    Sequential,
    Together,
    Parallel(usize, SchedCfg),
}
impl How {
    pub fn gen(r: &mut Rng) -> How {
        match r.below(4) {
            0 => How::Together,
            1 => How::Parallel(r.us(1, 6), gen_sched(r)),
            _ => How::Sequential,
        }
    }
}

#[derive(Default, Debug)]
pub struct Audited {
    /// the committed sealed blocks are the delivered ones
    pub path: Option<bool>,
    /// the delivered blocks unseal to the original ones
    pub content: Option<bool>,
    pub why: String,
    pub stuck: bool,
    pub hard: u64,
    pub soft: u64,
}
impl Audited {
    pub fn accepted(&self) -> bool {
        self.path == Some(true) && self.content == Some(true)
    }
}

pub struct Wire {
    pub msgs: Vec<Msg>,
    pub proof: Vec<u8>,
    pub hash: Vec<u8>,
}
pub type Tamper<'a> = Option<&'a dyn Fn(&mut Wire)>;

/// One audit of the sealed file by the blocks' identifiers `ids` and the original file.
pub fn audit(p: &Para, origin: &[u8], iv: &[u8], ids: &[Vec<u8>], ch: &[usize], how: &How, faults: &[PF], tamper: Tamper) -> Audited {
    let mut a = Audited::default();
    let q = p.real();
    // prover: gather what was asked for, commit to it, open the commitment
    let (q1, ch1, ids1) = (q.clone(), ch.to_vec(), ids.to_vec());
    let (o, _) = run(Phase::clean(), move || {
        let mut msgs = vec![];
        let mut all = vec![7u8];
        for &i in &ch1 {
            let m = verifier::single_unseal_prepare(S, i, &q1);
            for u in &m.0 {
                all.extend_from_slice(u);
            }
            msgs.push(m);
        }
        let (_, tree, root) = generate_merkle_tree_from_data(&ids1);
        let proof = generate_merkle_proof(&ch1, &tree).to_bytes();
        (Wire { msgs, proof, hash: blake3_hash(&all) }, root)
    });
    let (mut wire, root) = match o {
        Out::Ok(x) => x,
        o => {
            a.stuck = !o.loud();
            a.why = format!("prover: {}", o.what());
            a.path = Some(false);
            a.content = Some(false);
            return a;
        }
    };
    if let Some(t) = tamper {
        t(&mut wire);
    }
    let Wire { msgs, proof, hash } = wire;
    // verifier: the commitment
    let (ch2, ids2, m2) = (ch.to_vec(), ids.to_vec(), msgs.clone());
    let (o, _) = run(Phase::clean(), move || {
        let mut all = vec![7u8];
        for m in &m2 {
            for u in &m.0 {
                all.extend_from_slice(u);
            }
        }
        if blake3_hash(&all) != hash {
            return false;
        }
        let mut ids = ids2;
        for (k, &i) in ch2.iter().enumerate() {
            ids[i] = blake3_hash(&m2[k].0.concat());
        }
        let (leaves, _, _) = generate_merkle_tree_from_data(&ids);
        let proof = MerkleProof::<Sha256>::try_from(proof).unwrap();
        verify_merkle_proof(proof, root, &ch2, &leaves).accepted()
    });
    a.path = Some(matches!(o, Out::Ok(true)));
    if !matches!(o, Out::Ok(true)) {
        a.why = format!("commitment: {}; ", o.what());
    }
    // verifier: the content
    let (key, iv, ch3, origin_l) = (p.key(), iv.to_vec(), ch.to_vec(), origin.len());
    let _ = origin_l;
    let how2 = how.clone();
    let mut ph = Phase::faulty(&scale(faults, 3 * ch.len() as u64));
    ph.max_steps = 5_000_000;
    if let How::Parallel(_, s) = how {
        ph.sched = s.clone();
    }
    let (o, i) = run(ph, move || {
        let mut bl: Vec<Block> = msgs.iter().map(|m| m.0.clone()).collect();
        let pre: Vec<Vec<u8>> = msgs.iter().map(|m| m.1.clone()).collect();
        let dep: Vec<Vec<Block>> = msgs.iter().map(|m| m.2.clone()).collect();
        let got = match how2 {
            How::Together => return verifier::batch_unseal_and_verify(&q, O, &ch3, &bl, &pre, &dep, &key, &iv).accepted(),
            How::Sequential => verifier::batch_unseal(&q, &ch3, &mut bl, &pre, &dep, &key, &iv),
            How::Parallel(n, _) => verifier::batch_unseal_parallel(&q, &ch3, &bl, &pre, &dep, &key, &iv, n),
        };
        ch3.iter().enumerate().all(|(k, &c)| verifier::batch_verify(O, c, &got[k], q.block_l, q.unit_l).accepted())
    });
    a.hard = i.hard;
    a.soft = i.soft;
    a.content = Some(matches!(o, Out::Ok(true)));
    if !matches!(o, Out::Ok(true)) {
        a.why += &format!("content: {}", o.what());
        a.stuck = !matches!(o, Out::Ok(_)) && !o.loud();
    }
    a
}

// ---- C10 --------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct P10 {
    para: Para,
    data: Data,
    iv: u64,
    idx: Vec<u32>,
    pool: usize,
    sched: SchedCfg,
    spawn_fail: Option<u32>,
    jumps: Vec<u64>,
}
pub struct C10;
impl Sim for C10 {
    type Plan = P10;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when at least two threads were alive at once and the scheduler switched between them"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 8000 } else { 150_000 }
    }
    fn gen(&self, r: &mut Rng, tier: Tier, _index: u64) -> P10 {
        let para = Para::gen_small(r, 12);
        let n = match r.below(8) {
            0 => 0,
            1 => r.us(6, 20),
            _ => r.us(1, 6),
        };
        let mut idx: Vec<u32> = (0..n).map(|_| r.below(para.blocks as u64) as u32).collect();
        if r.chance(1, 2) {
            idx.sort();
            idx.dedup();
        }
        P10 {
            data: Data::gen(r),
            iv: r.next(),
            idx,
            pool: match r.below(6) {
                0 => 1,
                1 => r.us(5, if tier == Tier::Quick { 10 } else { 16 }),
                _ => r.us(1, 4),
            },
            sched: gen_sched(r),
            spawn_fail: if r.chance(1, 12) { Some(r.below(6) as u32) } else { None },
            jumps: if r.chance(1, 6) { vec![r.range(1, 100_000_000)] } else { vec![] },
            para,
        }
    }
    fn run(&self, p: &P10, ctx: &mut Ctx) -> Res {
        reset_world(11, 1_000_000, 1_600_000_000_000_000_000);
        let para = &p.para;
        let origin = p.data.bytes(para.data_l());
        let iv = iv_of(p.iv);
        put(O, &origin);
        let (o, _) = pad_seal(para, &iv, Phase::clean());
        if !o.is_ok() {
            return viol("clean-failure", format!("pad and seal: {}", o.what()));
        }
        let idx: Vec<usize> = p.idx.iter().map(|&i| i as usize % para.blocks).collect();
        let (q, key) = (para.real(), para.key());
        let (q0, idx0, key0, iv0) = (q.clone(), idx.clone(), key.clone(), iv.clone());
        let (o, _) = run(Phase::clean(), move || {
            let (mut b, mut pre, mut dep) = (vec![], vec![], vec![]);
            for &i in &idx0 {
                let (x, y, z) = verifier::single_unseal_prepare(S, i, &q0);
                b.push(x);
                pre.push(y);
                dep.push(z);
            }
            let seq = verifier::batch_unseal(&q0, &idx0, &mut b.clone(), &pre, &dep, &key0, &iv0);
            (b, pre, dep, seq)
        });
        let (b, pre, dep, seq) = match o {
            Out::Ok(x) => x,
            o => return viol("clean-failure", format!("sequential unsealing of {:?}: {}", idx, o.what())),
        };
        let mut faults: Vec<PF> = p.jumps.iter().map(|&j| PF { pos: Pos::Head(0), kind: FaultKind::MonoJump(j) }).collect();
        if let Some(k) = p.spawn_fail {
            faults.push(PF { pos: Pos::Head(0), kind: FaultKind::SpawnFail(k) });
        }
        let mut ph = Phase::faulty(&scale(&faults, 0));
        ph.sched = p.sched.clone();
        ph.max_steps = 20_000_000;
        let (pool, idx1) = (p.pool, idx.clone());
        let keep = (b.clone(), pre.clone(), dep.clone(), iv.clone());
        let (o, i) = run(ph, move || {
            let got = verifier::batch_unseal_parallel(&q, &idx1, &b, &pre, &dep, &key, &iv, pool);
            (got, (b, pre, dep, iv) == keep)
        });
        ctx.record = Some(i.record.clone());
        ctx.sub += 1;
        if i.max_live > 1 && i.switches > 0 {
            ctx.nontrivial = true;
        }
        ctx.probe(&format!("threads-alive-max-{}", i.max_live));
        match o {
            Out::Ok((got, kept)) => {
                if got != seq {
                    let k = (0..seq.len()).find(|&k| got.get(k) != seq.get(k));
                    return viol("differs-from-sequential", format!("pool of {}: {} blocks returned for {}, first difference at position {:?}", p.pool, got.len(), seq.len(), k));
                }
                if !kept {
                    return viol("input-modified", "the inputs changed");
                }
                ctx.probe("equal");
            }
            Out::Panic(m) => {
                if i.hard == 0 {
                    return viol("clean-failure", format!("parallel unsealing failed although nothing went wrong: {}", m));
                }
                ctx.probe("failed-visibly");
            }
            Out::Deadlock(m) => return viol("deadlock", format!("pool of {}, {} blocks: {}", p.pool, seq.len(), m)),
            o => return viol("no-progress", o.what()),
        }
        if i.leftover > 0 {
            ctx.probe("threads-left-blocked-at-return");
        }
        Ok(())
    }
    fn script(&self, p: &P10, rec: &[(u64, u32)]) -> Option<P10> {
        let mut q = p.clone();
        q.sched.script = Some(rec.to_vec());
        Some(q)
    }
    fn shrink(&self, p: &P10) -> Vec<P10> {
        let mut out = vec![];
        for x in shrink_list(&p.idx) {
            out.push(P10 { idx: x, ..p.clone() });
        }
        for x in shrink_num(p.pool, 1) {
            out.push(P10 { pool: x, ..p.clone() });
        }
        if p.spawn_fail.is_some() {
            out.push(P10 { spawn_fail: None, ..p.clone() });
        }
        if !p.jumps.is_empty() {
            out.push(P10 { jumps: vec![], ..p.clone() });
        }
        if let Some(s) = &p.sched.script {
            for x in shrink_list(s) {
                let mut q = p.clone();
                q.sched.script = Some(x);
                out.push(q);
            }
        }
        for q in p.para.shrinks() {
            out.push(P10 { para: q, ..p.clone() });
        }
        out
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["verifier::batch_unseal_parallel and batch_unseal", "threadpool crate, std::sync and std::thread (every futex, thread start and exit goes through the simulated scheduler)", "vde, blake3"]
    }
    fn stub(&self) -> Vec<&'static str> {
        vec!["kernel scheduler and futexes (seeded, one thread at a time; switches at futex calls, thread start/exit and every allocation)", "disk", "clock"]
    }
}

// ---- C11 --------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Where {
    /// the k-th block the audit touches
    Touched(u32),
    /// the k-th block it does not touch
    Elsewhere(u32),
    Challenged(u32),
    Any(u32),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Rot {
    Bit,
    /// the block reads as zeros from here to its end (lost sectors)
    Zeros,
    /// another block was written here (misdirected write)
    Misdirected(u32),
    /// the file ends inside this block
    Truncated,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Tam {
    Block(u32, u32),
    Pred(u32, u32),
    Dep(u32, u32, u32),
    Swap(u32, u32),
    /// answer k replaced by a copy of answer l
    Copy(u32, u32),
    /// answer k replaced by the one of an earlier sealing (other iv)
    Replay(u32),
    /// answer for another block of the same sealing
    Other(u32, u32),
    Proof(u32),
    /// the prover's early commitment to its answer
    Hash(u32),
    /// answer k arrives with its last units (0), those of a dependency (1), part of the predecessor's
    /// identifier (2) or a whole dependency (3) missing
    Cut(u32, u8, u32),
    /// answer k arrives with a unit too many
    Extend(u32),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Round {
    challenges: Vec<u32>,
    damage: Vec<(Where, Rot, u32)>,
    tamper: Option<Tam>,
    how: How,
    faults: Vec<PF>,
    /// one bit of the verifier's original differs: block and place
    #[serde(default)]
    odamage: Option<(Where, u32)>,
    /// after the audit, the driver's own audit of the first ten blocks: pool size and schedule
    #[serde(default)]
    driver: Option<(usize, SchedCfg)>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct P11 {
    para: Para,
    data: Data,
    iv: u64,
    rounds: Vec<Round>,
}
pub struct C11;

fn flip(b: &mut [u8], ppm: u32) -> bool {
    if b.is_empty() {
        return false;
    }
    let bit = (b.len() as u64 * 8 * ppm as u64 / 1_000_000) as usize;
    b[bit / 8] ^= 1 << (bit % 8);
    true
}
fn flip_units(b: &mut Block, ppm: u32) -> bool {
    if b.is_empty() {
        return false;
    }
    let k = (b.len() as u64 * ppm as u64 / 1_000_000) as usize;
    let inner = ((b.len() as u64 * ppm as u64) % 1_000_000) as u32;
    flip(&mut b[k], inner)
}

impl Sim for C11 {
    type Plan = P11;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when stored damage, message tampering or a verifier-side fault was part of at least one audit"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 4500 } else { 60_000 }
    }
    fn gen(&self, r: &mut Rng, tier: Tier, _index: u64) -> P11 {
        let para = Para::gen(r);
        let b = para.blocks as u64;
        let k = r.us(1, if tier == Tier::Quick { 4 } else { 10 });
        let ppm = |r: &mut Rng| r.below(1_000_000) as u32;
        let rounds = (0..k)
            .map(|_| Round {
                challenges: (0..if r.chance(1, 8) { r.us(5, 40) } else { r.us(1, 4) }).map(|_| r.below(b) as u32).collect(),
                damage: if r.chance(1, 2) {
                    (0..r.us(1, 2))
                        .map(|_| {
                            (
                                match r.below(6) {
                                    0 => Where::Challenged(r.next() as u32),
                                    1 | 2 => Where::Touched(r.next() as u32),
                                    3 | 4 => Where::Elsewhere(r.next() as u32),
                                    _ => Where::Any(r.next() as u32),
                                },
                                match r.below(8) {
                                    0 => Rot::Zeros,
                                    1 => Rot::Misdirected(r.next() as u32),
                                    2 => Rot::Truncated,
                                    _ => Rot::Bit,
                                },
                                match r.below(6) {
                                    0 => 0,
                                    1 => 999_999,
                                    _ => ppm(r),
                                },
                            )
                        })
                        .collect()
                } else {
                    vec![]
                },
                tamper: if r.chance(2, 5) {
                    let (a, c) = (r.next() as u32, r.next() as u32);
                    let x = ppm(r);
                    Some(match r.below(12) {
                        9 | 10 => Tam::Cut(a, r.below(4) as u8, c),
                        11 => Tam::Extend(a),
                        0 => Tam::Block(a, x),
                        1 => Tam::Pred(a, x),
                        2 => Tam::Dep(a, c, x),
                        3 => Tam::Swap(a, c),
                        4 => Tam::Copy(a, c),
                        5 => Tam::Replay(a),
                        6 => Tam::Other(a, c),
                        7 => Tam::Proof(x),
                        _ => Tam::Hash(x),
                    })
                } else {
                    None
                },
                how: How::gen(r),
                faults: match r.below(5) {
                    0 => gen_faults(r, Family::Read),
                    1 => gen_soft(r),
                    _ => vec![],
                },
                odamage: if r.chance(1, 6) { Some((if r.chance(2, 3) { Where::Challenged(r.next() as u32) } else { Where::Any(r.next() as u32) }, match r.below(5) {
                        0 => 0,
                        1 => 999_999,
                        _ => ppm(r),
                    })) } else { None },
                driver: if b >= 10 && r.chance(1, 4) { Some((if r.chance(1, 2) { 0 } else { r.us(1, 5) }, gen_sched(r))) } else { None },
            })
            .collect();
        P11 { para, data: Data::gen(r), iv: r.next(), rounds }
    }
    fn run(&self, p: &P11, ctx: &mut Ctx) -> Res {
        let para = &p.para;
        let origin = p.data.bytes(para.data_l());
        let iv = iv_of(p.iv);
        let iv_old = iv_of(mix2(p.iv, 99));
        reset_world(13, 1_000_000, 1_600_000_000_000_000_000);
        put(O, &origin);
        // an earlier sealing of the same data, for replays
        let need_old = iv_old != iv && p.rounds.iter().any(|r| matches!(r.tamper, Some(Tam::Replay(_))));
        let mut older = vec![];
        if need_old {
            match pad_seal(para, &iv_old, Phase::clean()).0 {
                Out::Ok(_) => {}
                o => return viol("clean-failure", format!("pad and seal: {}", o.what())),
            }
            older = get(S);
        }
        let ids = match pad_seal(para, &iv, Phase::clean()).0 {
            Out::Ok(x) => x,
            o => return viol("clean-failure", format!("pad and seal: {}", o.what())),
        };
        let sealed = get(S);
        let bp = para.block_pl();
        if sealed.len() != bp * para.blocks {
            return viol("clean-failure", "the sealed file has the wrong length");
        }
        for (rn, r) in p.rounds.iter().enumerate() {
            let mut ch: Vec<usize> = r.challenges.iter().map(|&k| k as usize % para.blocks).collect();
            ch.sort();
            ch.dedup();
            let mut t: Vec<usize> = ch.iter().flat_map(|&c| touched(para, &sealed, c)).collect();
            t.sort();
            t.dedup();
            let rest: Vec<usize> = (0..para.blocks).filter(|b| !t.contains(b)).collect();
            let mut s = sealed.clone();
            let mut end = s.len();
            for (w, rot, ppm) in &r.damage {
                let b = match w {
                    Where::Touched(k) => t[*k as usize % t.len()],
                    Where::Elsewhere(k) => {
                        if rest.is_empty() {
                            continue;
                        }
                        rest[*k as usize % rest.len()]
                    }
                    Where::Challenged(k) => ch[*k as usize % ch.len()],
                    Where::Any(k) => *k as usize % para.blocks,
                };
                let from = b * bp + (bp as u64 * *ppm as u64 / 1_000_000) as usize;
                match rot {
                    Rot::Bit => {
                        flip(&mut s[b * bp..(b + 1) * bp], *ppm);
                    }
                    Rot::Zeros => s[from..(b + 1) * bp].fill(0),
                    Rot::Misdirected(k) => {
                        let o = *k as usize % para.blocks;
                        s[b * bp..(b + 1) * bp].copy_from_slice(&sealed[o * bp..(o + 1) * bp]);
                    }
                    Rot::Truncated => end = end.min(from),
                }
            }
            // what lies past the end of a file reads as zeros or not at all
            if s[end..].iter().all(|&b| b == 0) {
                end = s.len();
            }
            let cut = end / bp * bp;
            if end < s.len() && s[end..(cut + bp).min(s.len())].iter().all(|&b| b == 0) {
                // the cut must be visible in every block it touches
                end = cut;
            }
            s[end..].fill(0);
            let hurt: Vec<usize> = (0..para.blocks).filter(|&b| s[b * bp..(b + 1) * bp] != sealed[b * bp..(b + 1) * bp]).collect();
            if !hurt.is_empty() {
                ctx.fault("bit_rot_in_sealed_file");
            }
            let stored = s[..end].to_vec();
            put(S, &stored);
            let mut orig = origin.clone();
            let mut obad = None;
            if let Some((w, ppm)) = &r.odamage {
                let b = match w {
                    Where::Challenged(k) => ch[*k as usize % ch.len()],
                    Where::Touched(k) | Where::Elsewhere(k) | Where::Any(k) => *k as usize % para.blocks,
                };
                let bl = para.block_l();
                if flip(&mut orig[b * bl..(b + 1) * bl], *ppm) {
                    ctx.fault("verifier_original_differs");
                    obad = Some(b);
                }
            }
            put(O, &orig);
            let bad_orig = obad.map_or(false, |b| ch.contains(&b));
            let bad_touch: Vec<usize> = hurt.iter().copied().filter(|b| t.contains(b)).collect();
            let bad_ch = hurt.iter().any(|b| ch.contains(b));
            // tampering on the wire: (changes the commitment check, changes the content check)
            let effect = std::cell::Cell::new((false, false));
            // material for replays and misdelivery
            let mut foreign: Option<Msg> = None;
            match &r.tamper {
                Some(Tam::Replay(k)) if need_old => {
                    put(S, &older);
                    let c = ch[*k as usize % ch.len()];
                    foreign = prepare_one(para, c, Phase::clean()).0.ok();
                    put(S, &stored);
                }
                Some(Tam::Other(_, c)) => foreign = prepare_one(para, *c as usize % para.blocks, Phase::clean()).0.ok(),
                _ => {}
            }
            let tam = |w: &mut Wire| {
                let n = w.msgs.len();
                let at = |k: u32| k as usize % n;
                let old = w.msgs.clone();
                let (old_proof, old_hash) = (w.proof.clone(), w.hash.clone());
                match r.tamper.as_ref().unwrap() {
                    Tam::Block(k, x) => {
                        flip_units(&mut w.msgs[at(*k)].0, *x);
                    }
                    Tam::Pred(k, x) => {
                        flip(&mut w.msgs[at(*k)].1, *x);
                    }
                    Tam::Dep(k, l, x) => {
                        let d = &mut w.msgs[at(*k)].2;
                        if !d.is_empty() {
                            let l = *l as usize % d.len();
                            flip_units(&mut d[l], *x);
                        }
                    }
                    Tam::Swap(k, l) => w.msgs.swap(at(*k), at(*l)),
                    Tam::Copy(k, l) => w.msgs[at(*k)] = old[at(*l)].clone(),
                    Tam::Replay(k) | Tam::Other(k, _) => {
                        if let Some(f) = &foreign {
                            w.msgs[at(*k)] = f.clone();
                        }
                    }
                    Tam::Proof(x) => {
                        flip(&mut w.proof, *x);
                    }
                    Tam::Hash(x) => {
                        flip(&mut w.hash, *x);
                    }
                    Tam::Cut(k, what, n) => {
                        let m = &mut w.msgs[at(*k)];
                        let n = *n as usize;
                        match what {
                            0 => {
                                let l = m.0.len();
                                m.0.truncate(n % l.max(1));
                            }
                            1 => {
                                if !m.2.is_empty() {
                                    let d = n % m.2.len();
                                    let l = m.2[d].len();
                                    m.2[d].truncate((n >> 8) % l.max(1));
                                }
                            }
                            2 => {
                                let l = m.1.len();
                                m.1.truncate(n % l.max(1));
                            }
                            _ => {
                                if !m.2.is_empty() {
                                    let d = n % m.2.len();
                                    m.2.remove(d);
                                }
                            }
                        }
                    }
                    Tam::Extend(k) => {
                        let m = &mut w.msgs[at(*k)];
                        let u = m.0[0].clone();
                        m.0.push(u);
                    }
                }
                let blocks = (0..n).any(|k| w.msgs[k].0 != old[k].0);
                // the predecessor identifier of block 0 is not used
                let pred = (0..n).any(|k| ch[k] != 0 && w.msgs[k].1 != old[k].1);
                let deps = (0..n).any(|k| w.msgs[k].2 != old[k].2);
                effect.set((blocks || w.proof != old_proof || w.hash != old_hash, blocks || pred || deps));
            };
            let a = audit(para, &origin, &iv, &ids, &ch, &r.how, &r.faults, if r.tamper.is_some() { Some(&tam) } else { None });
            let (e_path, e_content) = effect.get();
            ctx.sub += 1;
            if r.tamper.is_some() && (e_path || e_content) {
                ctx.fault("message_altered_swapped_or_replayed");
            }
            if !hurt.is_empty() || obad.is_some() || e_path || e_content || a.hard + a.soft > 0 {
                ctx.nontrivial = true;
            }
            if get(S) != stored || get(O) != orig {
                return viol("files-modified", format!("audit {} changed a stored file", rn));
            }
            if a.stuck {
                return viol("no-progress", a.why);
            }
            // tampering can undo damage only by chance; both together must still be refused
            // a whole message of another block or sealing is consistent in itself: its content may
            // well be right, and only the commitment tells it apart
            let whole = matches!(r.tamper, Some(Tam::Replay(_) | Tam::Other(..) | Tam::Swap(..) | Tam::Copy(..) | Tam::Extend(_)));
            let must_reject_content = (bad_orig && bad_touch.is_empty() && !e_content) || (!bad_touch.is_empty() && !e_content) || (bad_touch.is_empty() && e_content && !whole);
            let must_reject_path = (bad_ch && !e_path) || (!bad_ch && e_path);
            if must_reject_content && a.content == Some(true) {
                return viol("damage-accepted", format!("audit {} of blocks {:?} accepted although {} (damaged blocks it touches: {:?}, tampering {:?})", rn, ch, if bad_orig { "the original it compares with differs" } else if bad_touch.is_empty() { "its messages were altered" } else { "stored data it touches was damaged" }, bad_touch, r.tamper));
            }
            if must_reject_path && a.path == Some(true) {
                return viol("damage-accepted", format!("the commitment check of audit {} of {:?} accepted other sealed blocks (damaged {:?}, tampering {:?})", rn, ch, hurt, r.tamper));
            }
            if bad_touch.is_empty() && bad_orig && !e_path && !e_content {
                ctx.probe("other-original-rejected");
            } else if bad_touch.is_empty() && !e_path && !e_content {
                if !a.accepted() && a.hard == 0 {
                    return viol("good-audit-rejected", format!("audit {} of blocks {:?} of an intact replica (damage elsewhere: {:?}) was rejected: {}", rn, ch, hurt, a.why));
                }
                ctx.probe(if a.accepted() { if hurt.is_empty() { "intact-accepted" } else { "damage-elsewhere-accepted" } } else { "failed-visibly" });
            } else {
                ctx.probe(if bad_touch.is_empty() { "tampering-rejected" } else { "damage-rejected" });
            }
            // the shipped driver audits the first ten blocks with the saved key and iv
            if let (Some((pool, sched)), true) = (&r.driver, para.blocks >= 10) {
                let (key, iv2) = (para.key(), iv.clone());
                let (o, _) = run(Phase::clean(), move || drv::save_data(K, &key, &iv2));
                if !o.is_ok() {
                    return viol("clean-failure", format!("save_data: {}", o.what()));
                }
                let q = para.real();
                let mut ph = Phase::clean();
                ph.sched = sched.clone();
                ph.max_steps = 20_000_000;
                let pool = *pool;
                let (o, _) = run(ph, move || drv::test_unseal_single_and_verify(&q, K, O, S, pool).accepted());
                let mut t: Vec<usize> = (0..10).flat_map(|c| touched(para, &sealed, c)).collect();
                t.sort();
                t.dedup();
                let bad = hurt.iter().any(|b| t.contains(b)) || obad.map_or(false, |b| b < 10);
                ctx.sub += 1;
                match o {
                    Out::Ok(true) if bad => return viol("damage-accepted", format!("the driver's audit of the first ten blocks accepted although {} differ (original block {:?})", if hurt.is_empty() { "the originals".to_string() } else { format!("sealed blocks {:?}", hurt) }, obad)),
                    Out::Ok(true) => ctx.probe("driver-audit-accepted"),
                    o if !o.loud() && !o.is_ok() => return viol("no-progress", format!("driver's audit: {}", o.what())),
                    o if !bad => return viol("good-audit-rejected", format!("the driver's audit of the first ten blocks (damage elsewhere: {:?}): {}", hurt, o.what())),
                    _ => ctx.probe("driver-audit-rejected"),
                }
                if get(S) != stored || get(O) != orig {
                    return viol("files-modified", "the driver's audit changed a stored file");
                }
            }
        }
        Ok(())
    }
    fn shrink(&self, p: &P11) -> Vec<P11> {
        let mut out: Vec<P11> = shrink_list(&p.rounds).into_iter().filter(|r| !r.is_empty()).map(|rounds| P11 { rounds, ..p.clone() }).collect();
        for i in 0..p.rounds.len() {
            let mut push = |f: &dyn Fn(&mut Round)| {
                let mut q = p.clone();
                f(&mut q.rounds[i]);
                out.push(q);
            };
            for d in shrink_list(&p.rounds[i].damage) {
                push(&|r: &mut Round| r.damage = d.clone());
            }
            for c in shrink_list(&p.rounds[i].challenges) {
                if !c.is_empty() {
                    push(&|r: &mut Round| r.challenges = c.clone());
                }
            }
            for f in shrink_list(&p.rounds[i].faults) {
                push(&|r: &mut Round| r.faults = f.clone());
            }
            if p.rounds[i].odamage.is_some() {
                push(&|r: &mut Round| r.odamage = None);
            }
            if p.rounds[i].driver.is_some() {
                push(&|r: &mut Round| r.driver = None);
            }
            if p.rounds[i].tamper.is_some() {
                push(&|r: &mut Round| r.tamper = None);
            }
            if !matches!(p.rounds[i].how, How::Sequential) {
                push(&|r: &mut Round| r.how = How::Sequential);
            }
        }
        for q in p.para.shrinks() {
            out.push(P11 { para: q, ..p.clone() });
        }
        out
    }
    fn real(&self) -> Vec<&'static str> {
        let mut v = REAL.to_vec();
        v.push("merkle_tree (rs_merkle), threadpool");
        v
    }
    fn stub(&self) -> Vec<&'static str> {
        let mut v = STUB.to_vec();
        v.push("network between prover and verifier (in-process messages, tampered in transit)");
        v
    }
}

