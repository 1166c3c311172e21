//! C05 and C06: prover and verifier nodes, their disk, and the network between them.
use crate::refm::*;
use ark_bls12_381::{Bls12_381, Fr};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_groth16::{PreparedVerifyingKey, Proof, ProvingKey};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use super::pos::mimc::mimc_df::MIMC5_DF_ROUNDS;
use super::pos::mimc::mimc_hash::MIMC5_HASH_ROUNDS;
use super::pos::proof_of_space::{pospace as drv, prover, verifier};
use serde::{Deserialize, Serialize};
use simrt::driver::{viol, Ctx, Res, Sim, Tier};
use simrt::plan::*;
use simrt::rng::mix2;
use simrt::{reset_world, run, world, Out, Phase, PhaseInfo, Rng};
use std::sync::OnceLock;

pub const N: usize = drv::N;
pub const R: usize = drv::RESPONSE_COUNT;
pub const CC: usize = drv::CHALLENGE_COUNT;
const CSEED: u64 = 0xc0ffee;
/// Compiled twice: against the small constants of cfg(verif_sim) and against the production ones.
/// At production size the whole table takes seconds to mark, so steps of a session work on a table
/// in which only some thousand of the marks are present; the whole of it is made in `Whole` runs.
pub const BIG: bool = N > 12;

/// A verifier call counts as acceptance unless it fails visibly in whatever way it can.
pub trait Verdict {
    fn accepted(self) -> bool;
}
impl Verdict for () {
    fn accepted(self) -> bool {
        true
    }
}
impl Verdict for bool {
    fn accepted(self) -> bool {
        self
    }
}
impl<T: Verdict, E> Verdict for Result<T, E> {
    fn accepted(self) -> bool {
        self.map_or(false, |t| t.accepted())
    }
}

pub fn dfc() -> Vec<Fr> {
    consts(CSEED, MIMC5_DF_ROUNDS)
}
pub fn hc() -> Vec<Fr> {
    consts(CSEED + 1, MIMC5_HASH_ROUNDS)
}

/// One trusted setup, shared by all simulated sessions (the code says circuits are reusable).
pub struct Setup {
    pub pk: ProvingKey<Bls12_381>,
}
static SETUP: OnceLock<Result<Setup, String>> = OnceLock::new();
pub fn setup() -> Result<&'static Setup, String> {
    SETUP
        .get_or_init(|| {
            reset_world(77, 1, 0);
            let (o, _) = run(Phase::clean(), || prover::construct_circuit(&dfc(), &hc()));
            match o {
                Out::Ok(pk) => Ok(Setup { pk }),
                o => Err(o.what()),
            }
        })
        .as_ref()
        .map_err(|e| e.clone())
}

/// Everything a verifier knows about a session, and everything a prover sends.
#[derive(Clone)]
pub struct Stmt {
    pub key: Fr,
    pub m: Fr,
    pub challenges: Vec<usize>,
}
#[derive(Clone)]
pub struct Answer {
    pub idx: Vec<usize>,
    pub x_hash: Fr,
    pub proof: Proof<Bls12_381>,
}
impl Stmt {
    /// what the proof speaks about
    fn claim(&self, a: &Answer) -> Option<(Fr, Fr, Vec<usize>, Fr)> {
        let v: Option<Vec<usize>> = a.idx.iter().map(|&i| self.challenges.get(i).copied()).collect();
        v.map(|v| (self.key, self.m, v, a.x_hash))
    }
}
pub fn increasing(idx: &[usize]) -> bool {
    idx.windows(2).all(|w| w[0] < w[1])
}

/// The real verifier, in a phase of its own.
pub fn verify(pvk: &PreparedVerifyingKey<Bls12_381>, s: &Stmt, a: &Answer) -> Out<bool> {
    let (pvk, s, a) = (pvk.clone(), s.clone(), a.clone());
    run(Phase::clean(), move || verifier::verify(pvk, a.proof, s.key, s.m, &s.challenges, &a.idx, a.x_hash).accepted()).0
}
/// The same, called many times inside one living verifier process.
fn verify_here(pvk: &PreparedVerifyingKey<Bls12_381>, s: &Stmt, a: &Answer) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| verifier::verify(pvk.clone(), a.proof.clone(), s.key, s.m, &s.challenges, &a.idx, a.x_hash).accepted())).unwrap_or(false)
}

/// slot -> the preimages the prover knows of
pub fn known(key: Fr, m: Fr) -> Vec<Vec<usize>> {
    if !BIG {
        return preimages(N, key, m, &dfc());
    }
    let c = dfc();
    let mut v = vec![vec![]; 1 << N];
    for i in 0..4000usize {
        let x = (i * 263 + 1) % (1 << N);
        v[low(df(Fr::from(x as u64), key, m, &c), N)].push(x);
    }
    v
}

/// The prover's own table, made by the real code.
fn make_table(key: Fr, m: Fr) -> Result<Vec<u8>, String> {
    if BIG {
        let mut t = vec![0u8; size(N)];
        for (y, xs) in known(key, m).iter().enumerate() {
            if let Some(&x) = xs.last() {
                put_slot(&mut t, N, y, x, true);
            }
        }
        world().fs.put(P, &t);
        return Ok(t);
    }
    let (o, _) = run(Phase::clean(), move || {
        prover::prepare_space(P, N).unwrap();
        prover::mark_space(P, key, m, &dfc(), N);
    });
    if !o.is_ok() {
        return Err(o.what());
    }
    Ok(world().fs.get(P).cloned().unwrap_or_default())
}

type A1 = (Vec<Fr>, Vec<usize>, Fr);
fn answer1(key: Fr, ch: &[usize], ph: Phase) -> (Out<A1>, PhaseInfo) {
    let ch = ch.to_vec();
    run(ph, move || prover::response_1(P, &ch, key, &hc(), N))
}
pub fn answer2(pk: &ProvingKey<Bls12_381>, key: Fr, m: Fr, xs: Vec<Fr>, ch: Vec<usize>, idx: Vec<usize>, h: Fr) -> Out<(PreparedVerifyingKey<Bls12_381>, Proof<Bls12_381>)> {
    let pk = pk.clone();
    run(Phase::clean(), move || prover::response_2(pk, key, &xs, m, &dfc(), &ch, &idx, h, &hc())).0
}

// ---- C05 --------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Ch {
    Fresh,
    Seeded(u64),
    /// aim for this many occupied slots among the challenges
    Occupied(usize, u64),
    Same(u64),
    Extremes(u64),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum P05 {
    /// the top-level driver, `runs` times over the same paths and log
    Driver { key: El, m: El, cseed: u64, entropy: u64, log: usize, runs: usize, faults: Vec<PF>, faulty_run: usize },
    /// the top-level driver on a disk that acknowledges table writes and keeps zeros
    Lying { key: El, m: El, cseed: u64, entropy: u64, log: usize, permille: u32, salt: u64 },
    /// the top-level driver, without faults
    Whole { key: El, m: El, cseed: u64, entropy: u64, log: usize },
    /// the sample program
    Program { entropy: u64, log: usize },
    /// the protocol step by step, disk working in pieces
    Steps { key: El, m: El, entropy: u64, rounds: Vec<(Ch, Vec<PF>)> },
}
pub struct C05;
const LOG: &str = "space/log";

fn log_now(p: &str) -> Vec<u8> {
    world().fs.get(p).cloned().unwrap_or_default()
}
fn lines(b: &[u8]) -> usize {
    b.iter().filter(|&&c| c == b'\n').count()
}
fn driver(key: Fr, m: Fr, cseed: u64, ph: Phase) -> (Out<()>, PhaseInfo) {
    run(ph, move || {
        let mut f = std::fs::OpenOptions::new().read(true).write(true).append(true).create(true).open(LOG).unwrap();
        drv::pospace(P, consts(cseed, MIMC5_DF_ROUNDS), consts(cseed + 1, MIMC5_HASH_ROUNDS), key, m, &mut f);
    })
}
fn old_log(n: usize) -> Vec<u8> {
    (0..n).map(|i| if i % 17 == 16 { b'\n' } else { b'a' + (i % 20) as u8 }).collect()
}

impl Sim for C05 {
    type Plan = P05;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when a complete proof was made and judged by the verifier, or a fault struck a driver run"
    }
    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick if BIG => 6,
            Tier::Quick => 130,
            _ if BIG => 120,
            _ => 8000,
        }
    }
    fn warm(&self) {
        if !BIG {
            let _ = setup();
        }
    }
    fn limit_s(&self) -> u64 {
        150
    }
    fn gen(&self, r: &mut Rng, tier: Tier, index: u64) -> P05 {
        if BIG && index % 3 == 0 {
            return P05::Whole { key: El::gen(r), m: El::gen(r), cseed: r.next() >> 1, entropy: r.next(), log: r.us(0, 400) };
        }
        if BIG {
            return P05::Steps {
                key: El::gen(r),
                m: El::gen(r),
                entropy: r.next(),
                rounds: (0..3)
                    .map(|k| {
                        let s = r.next();
                        (if k == 0 { Ch::Occupied(*r.pick(&[R - 1, R, R, R + 1]), s) } else { Ch::Occupied(r.us(R, CC), s) }, if r.chance(1, 2) { gen_soft(r) } else { vec![] })
                    })
                    .collect(),
            };
        }
        if index < 2 {
            return P05::Program { entropy: r.next(), log: r.us(0, 400) };
        }
        if r.chance(1, 8) {
            return P05::Lying { key: El::gen(r), m: El::gen(r), cseed: r.next() >> 1, entropy: r.next(), log: r.us(0, 400), permille: *r.pick(&[1000, 1000, 990, 950, 800]), salt: r.next() };
        }
        if r.chance(2, 5) {
            let runs = r.us(1, 3);
            return P05::Driver {
                key: El::gen(r),
                m: El::gen(r),
                cseed: r.next() >> 1,
                entropy: r.next(),
                log: r.us(0, 400),
                runs,
                faults: if r.chance(1, 4) {
                    gen_soft(r)
                } else {
                    let mut f = gen_faults(r, Family::Both);
                    // the log is written in the last operations of a run
                    if r.chance(1, 3) {
                        for x in f.iter_mut() {
                            x.pos = Pos::Tail(r.below(14) as u32);
                        }
                    }
                    f
                },
                faulty_run: r.us(0, runs - 1),
            };
        }
        let k = r.us(1, if tier == Tier::Quick { 3 } else { 6 });
        P05::Steps {
            key: El::gen(r),
            m: El::gen(r),
            entropy: r.next(),
            rounds: (0..k)
                .map(|_| {
                    (
                        match r.below(8) {
                            0 | 1 => Ch::Fresh,
                            2 | 3 => Ch::Seeded(r.next()),
                            4 => Ch::Same(r.next()),
                            5 => Ch::Extremes(r.next()),
                            _ => Ch::Occupied(r.us(0, R + 1), r.next()),
                        },
                        if r.chance(1, 2) { gen_soft(r) } else { vec![] },
                    )
                })
                .collect(),
        }
    }
    fn run(&self, p: &P05, ctx: &mut Ctx) -> Res {
        match p {
            P05::Program { entropy, log } => {
                let path = drv::SAVED_DATA_DIR.join("/");
                // 5 samples; about 0.7% of programs draw too few occupied slots by chance
                let mut last = String::new();
                for attempt in 0..4u64 {
                    reset_world(mix2(*entropy, attempt), 1_000_000, 1_600_000_000_000_000_000);
                    let old = old_log(*log);
                    world().fs.put(&path, &old);
                    let (o, _) = run(Phase::clean(), drv::test_pospace);
                    let now = log_now(&path);
                    if !now.starts_with(&old) {
                        return viol("log-altered", "the sample program altered earlier log records");
                    }
                    ctx.sub += 1;
                    if o.is_ok() {
                        ctx.nontrivial = true;
                        if lines(&now[old.len()..]) < 5 {
                            return viol("no-record", format!("five accepted runs appended only {} lines", lines(&now[old.len()..])));
                        }
                        return Ok(());
                    }
                    last = o.what();
                    ctx.absorb();
                }
                viol("honest-run-rejected", format!("the sample program failed on four entropy streams: {}", last))
            }
            P05::Whole { key, m, cseed, entropy, log } => {
                let (key, m) = (key.fr(), m.fr());
                let old = old_log(*log);
                let mut last = String::new();
                for attempt in 0..3u64 {
                    // by chance (about 0.3%) too few challenged slots are occupied
                    reset_world(mix2(*entropy, attempt), 1_000_000, 1_600_000_000_000_000_000);
                    world().fs.put(LOG, &old);
                    let (o, _) = driver(key, m, *cseed, Phase::clean());
                    let now = log_now(LOG);
                    ctx.sub += 1;
                    if !now.starts_with(&old) {
                        return viol("log-altered", "a run altered earlier log records");
                    }
                    match o {
                        Out::Ok(()) if now.len() > old.len() => {
                            ctx.nontrivial = true;
                            ctx.probe("accepted");
                            return Ok(());
                        }
                        Out::Ok(()) => return viol("no-record", "an accepted run appended no record to the log"),
                        Out::Panic(_) if now.len() != old.len() => return viol("record-of-failed-run", "a failed run appended to the log"),
                        Out::Panic(e) => last = e,
                        o => return viol("no-progress", o.what()),
                    }
                    ctx.absorb();
                }
                viol("honest-run-rejected", format!("the fault-free driver failed on three independent draws of challenges: {}", last))
            }
            P05::Driver { key, m, cseed, entropy, log, runs, faults, faulty_run } => {
                let (key, m) = (key.fr(), m.fr());
                reset_world(*entropy, 1_000_000, 1_600_000_000_000_000_000);
                let old = old_log(*log);
                world().fs.put(LOG, &old);
                // fault-free run: operation count and shape of a record
                let snapshot = world().fs.clone();
                let mut dry = None;
                for _ in 0..5 {
                    world().fs = snapshot.clone();
                    let (o, i) = driver(key, m, *cseed, Phase::clean());
                    let now = log_now(LOG);
                    if !now.starts_with(&old) {
                        return viol("log-altered", "a run altered earlier log records");
                    }
                    ctx.sub += 1;
                    match o {
                        Out::Ok(()) => {
                            dry = Some((i.ops, lines(&now[old.len()..]), now.len() > old.len()));
                            break;
                        }
                        Out::Panic(_) => {
                            // by chance (about 0.1%) too few challenged slots are occupied
                            ctx.probe("fault-free-run-failed-once");
                            if now.len() != old.len() {
                                return viol("record-of-failed-run", "a failed run appended to the log");
                            }
                        }
                        o => return viol("no-progress", o.what()),
                    }
                }
                let (ops, shape, grew) = match dry {
                    None => return viol("honest-run-rejected", "the fault-free driver failed on five independent draws of challenges"),
                    Some(x) => x,
                };
                if !grew {
                    return viol("no-record", "an accepted run appended no record to the log");
                }
                world().fs = snapshot;
                for k in 0..*runs {
                    let before = log_now(LOG);
                    let f = if k == *faulty_run { scale(faults, ops) } else { vec![] };
                    let (o, j) = driver(key, m, *cseed, Phase::faulty(&f));
                    let now = log_now(LOG);
                    ctx.sub += 1;
                    if j.hard + j.soft > 0 {
                        ctx.nontrivial = true;
                    }
                    if !now.starts_with(&before) {
                        return viol("log-altered", format!("run {} altered earlier log records", k));
                    }
                    let added = &now[before.len()..];
                    match o {
                        Out::Ok(()) => {
                            ctx.nontrivial = true;
                            if lines(added) < shape {
                                return viol("no-record", format!("run {} was accepted but its record has {} of {} lines", k, lines(added), shape));
                            }
                            ctx.probe(if j.hard > 0 { "accepted-despite-faults" } else { "accepted" });
                        }
                        Out::Panic(e) => {
                            if j.hard == 0 {
                                // either too few occupied slots by chance, or a real failure: repeat
                                let mut all = true;
                                for _ in 0..4 {
                                    let (o, _) = driver(key, m, *cseed, Phase::faulty(&f));
                                    if o.is_ok() {
                                        all = false;
                                        break;
                                    }
                                }
                                if all {
                                    return viol("honest-run-rejected", format!("a run over a disk that only worked in pieces failed five times: {}", e));
                                }
                                ctx.probe("run-without-hard-fault-failed-once");
                            } else {
                                ctx.probe("failed-visibly");
                            }
                            if lines(added) >= shape {
                                return viol("record-of-failed-run", format!("run {} failed ({}) but appended a complete record", k, e));
                            }
                        }
                        o => return viol("no-progress", o.what()),
                    }
                }
                Ok(())
            }
            P05::Lying { key, m, cseed, entropy, log, permille, salt } => {
                reset_world(*entropy, 1_000_000, 1_600_000_000_000_000_000);
                let old = old_log(*log);
                world().fs.put(LOG, &old);
                let (o, _) = driver(key.fr(), m.fr(), *cseed, Phase::clean());
                let shape = lines(&log_now(LOG)[old.len().min(log_now(LOG).len())..]);
                if !o.is_ok() {
                    ctx.probe("fault-free-run-failed-once");
                    return Ok(());
                }
                world().fs.put(LOG, &old);
                world().fs.unlink(P);
                world().lose = Some((LOG.into(), *permille, *salt));
                let (o, _) = driver(key.fr(), m.fr(), *cseed, Phase::clean());
                world().lose = None;
                let now = log_now(LOG);
                ctx.sub += 1;
                if world().lost > 0 {
                    ctx.nontrivial = true;
                }
                if !now.starts_with(&old) {
                    return viol("log-altered", "a run altered earlier log records");
                }
                let added = lines(&now[old.len()..]);
                let empty = log_now(P).iter().all(|&b| b == 0);
                match o {
                    Out::Ok(()) if empty => return viol("short-answer-accepted", "the disk lost every mark, so no challenged slot is occupied, yet the run ended as a success"),
                    Out::Ok(()) => {
                        ctx.probe("accepted-despite-lost-writes");
                        if added < shape {
                            return viol("no-record", format!("the run was accepted but its record has {} of {} lines", added, shape));
                        }
                    }
                    Out::Panic(e) => {
                        ctx.probe("failed-visibly");
                        if added >= shape {
                            return viol("record-of-failed-run", format!("the run failed ({}) but appended a complete record", e));
                        }
                    }
                    o => return viol("no-progress", o.what()),
                }
                Ok(())
            }
            P05::Steps { key, m, entropy, rounds } => {
                let s = match setup() {
                    Ok(s) => s,
                    Err(e) => return viol("setup-failed", e),
                };
                let (key, m) = (key.fr(), m.fr());
                reset_world(*entropy, 1, 0);
                let table = match make_table(key, m) {
                    Ok(t) => t,
                    Err(e) => return viol("clean-failure", format!("reserve and mark: {}", e)),
                };
                let pre = known(key, m);
                let occ: Vec<usize> = (0..1 << N).filter(|&y| !pre[y].is_empty()).collect();
                let emp: Vec<usize> = (0..1 << N).filter(|&y| pre[y].is_empty()).collect();
                for (ch, faults) in rounds {
                    let ch: Vec<usize> = match ch {
                        Ch::Fresh => match run(Phase::clean(), || verifier::create_challenges(CC, N)).0 {
                            Out::Ok(c) => c,
                            o => return viol("clean-failure", format!("create_challenges: {}", o.what())),
                        },
                        Ch::Seeded(s) => {
                            let mut r = Rng::new(*s);
                            (0..CC).map(|_| r.us(0, (1 << N) - 1)).collect()
                        }
                        Ch::Same(s) => {
                            let mut r = Rng::new(*s);
                            let a = *r.pick(&occ);
                            let b = r.us(0, (1 << N) - 1);
                            (0..CC).map(|_| if r.chance(2, 3) { a } else { b }).collect()
                        }
                        Ch::Extremes(s) => {
                            let mut r = Rng::new(*s);
                            (0..CC).map(|_| *r.pick(&[0, (1 << N) - 1, occ[0], *occ.last().unwrap(), 1 << (N - 1)])).collect()
                        }
                        Ch::Occupied(k, s) => {
                            let mut r = Rng::new(*s);
                            let mut v: Vec<usize> = (0..CC).map(|i| if i < *k || emp.is_empty() { *r.pick(&occ) } else { *r.pick(&emp) }).collect();
                            for i in (1..v.len()).rev() {
                                let j = r.us(0, i);
                                v.swap(i, j);
                            }
                            v
                        }
                    };
                    let have = ch.iter().filter(|&&y| !pre[y].is_empty()).count();
                    world().fs.put(P, &table);
                    let (o, i) = answer1(key, &ch, Phase::clean());
                    if !o.is_ok() {
                        return viol("clean-failure", format!("first response: {}", o.what()));
                    }
                    let (o, j) = answer1(key, &ch, Phase::faulty(&scale(faults, i.ops)));
                    let (xs, idx, h) = match o {
                        Out::Ok(a) => a,
                        o if j.hard > 0 => {
                            ctx.probe(if o.loud() { "failed-visibly" } else { "stuck" });
                            continue;
                        }
                        o => return viol("clean-failure", format!("first response: {}", o.what())),
                    };
                    let o = answer2(&s.pk, key, m, xs, ch.clone(), idx.clone(), h);
                    ctx.sub += 1;
                    ctx.nontrivial = true;
                    let (pvk, proof) = match o {
                        Out::Ok(x) => x,
                        o => {
                            if have >= R {
                                return viol("honest-run-rejected", format!("{} of {} challenged slots are occupied but making the proof failed: {}", have, CC, o.what()));
                            }
                            ctx.probe("too-few-occupied-no-proof");
                            continue;
                        }
                    };
                    let v = verify(&pvk, &Stmt { key, m, challenges: ch.clone() }, &Answer { idx: idx.clone(), x_hash: h, proof });
                    match (v, have >= R) {
                        (Out::Ok(true), true) => ctx.probe("accepted"),
                        (Out::Ok(true), false) => return viol("short-answer-accepted", format!("only {} challenged slots are occupied, {} are required, yet the verifier accepted", have, R)),
                        (o, true) => return viol("honest-run-rejected", format!("an honest answer to {:?} (answered {:?}) was rejected: {}", ch, idx, o.what())),
                        (_, false) => ctx.probe("too-few-occupied-rejected"),
                    }
                }
                Ok(())
            }
        }
    }
    fn shrink(&self, p: &P05) -> Vec<P05> {
        let mut out = vec![];
        match p {
            P05::Program { .. } | P05::Whole { .. } | P05::Lying { .. } => {}
            P05::Driver { key, m, cseed, entropy, log, runs, faults, faulty_run } => {
                for f in shrink_list(faults) {
                    out.push(P05::Driver { key: key.clone(), m: m.clone(), cseed: *cseed, entropy: *entropy, log: *log, runs: *runs, faults: f, faulty_run: *faulty_run });
                }
                if *runs > 1 {
                    out.push(P05::Driver { key: key.clone(), m: m.clone(), cseed: *cseed, entropy: *entropy, log: *log, runs: 1, faults: faults.clone(), faulty_run: 0 });
                }
            }
            P05::Steps { key, m, entropy, rounds } => {
                for r in shrink_list(rounds) {
                    if !r.is_empty() {
                        out.push(P05::Steps { key: key.clone(), m: m.clone(), entropy: *entropy, rounds: r });
                    }
                }
                for i in 0..rounds.len() {
                    if !rounds[i].1.is_empty() {
                        let mut r = rounds.clone();
                        r[i].1 = vec![];
                        out.push(P05::Steps { key: key.clone(), m: m.clone(), entropy: *entropy, rounds: r });
                    }
                }
            }
        }
        out
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["proof_of_space::pospace::{pospace, test_pospace}", "proof_of_space::prover (all)", "proof_of_space::verifier (all)", "circuit::pospace_circuit", "mimc", "ark-groth16 setup, prover and verifier", "rand::thread_rng", "std::fs / std::io"]
    }
    fn stub(&self) -> Vec<&'static str> {
        vec!["disk", "clock", "entropy source", "protocol constants (small, through cfg(verif_sim))"]
    }
}

// ---- C06 --------------------------------------------------------------------------------

/// An honestly executed session.
#[derive(Clone)]
pub struct Sess {
    pub st: Stmt,
    pub table: Vec<u8>,
    pub xs: Vec<Fr>,
    pub a: Answer,
}
pub struct PoolOf {
    pub pvk: PreparedVerifyingKey<Bls12_381>,
    pub s: Vec<Sess>,
}
static POOL: OnceLock<Result<PoolOf, String>> = OnceLock::new();
const SESS: usize = if BIG { 2 } else { 10 };
pub fn pool() -> Result<&'static PoolOf, String> {
    POOL.get_or_init(|| {
        let su = setup()?;
        let mut v = vec![];
        let mut pvk = None;
        for i in 0..SESS as u64 {
            reset_world(1000 + i, 1, 0);
            // pairs of sessions share key and message, or only one of them
            let key = El::Rand(500 + i / 4).fr();
            let m = El::Rand(600 + i / 2).fr();
            let table = make_table(key, m)?;
            let pre = known(key, m);
            table_ok(&table, N, &pre)?;
            let occ: Vec<usize> = (0..1 << N).filter(|&y| !pre[y].is_empty()).collect();
            let mut done = None;
            for t in 0..20u64 {
                let mut r = Rng::new(mix2(i, t));
                let ch: Vec<usize> = if BIG {
                    (0..CC).map(|_| if r.chance(632, 1000) { *r.pick(&occ) } else { r.us(0, (1 << N) - 1) }).collect()
                } else if i % 5 == 4 {
                    // challenges with repetitions
                    let a = r.us(0, 63);
                    (0..CC).map(|_| if r.chance(1, 3) { a } else { r.us(0, (1 << N) - 1) }).collect()
                } else {
                    (0..CC).map(|_| r.us(0, (1 << N) - 1)).collect()
                };
                let (o, _) = answer1(key, &ch, Phase::clean());
                let (xs, idx, h) = match o {
                    Out::Ok(a) => a,
                    o => return Err(format!("first response: {}", o.what())),
                };
                if idx.len() < R {
                    continue;
                }
                match answer2(&su.pk, key, m, xs.clone(), ch.clone(), idx.clone(), h) {
                    Out::Ok((p, proof)) => {
                        pvk = Some(p);
                        done = Some(Sess { st: Stmt { key, m, challenges: ch }, table: table.clone(), xs, a: Answer { idx, x_hash: h, proof } });
                    }
                    o => return Err(format!("second response: {}", o.what())),
                }
                break;
            }
            v.push(done.ok_or("no session with enough occupied slots")?);
        }
        Ok(PoolOf { pvk: pvk.unwrap(), s: v })
    })
    .as_ref()
    .map_err(|e| e.clone())
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Mut {
    Key(El),
    KeyOf(usize),
    Msg(El),
    MsgOf(usize),
    /// challenge entry (counted among answered ones) replaced
    Chal(usize, usize),
    ChalOf(usize),
    ChalRotate(usize),
    ChalTrunc(usize),
    Idx(usize, usize),
    /// this index moved by so many times the number of challenges (wraps around)
    IdxWrap(usize, usize),
    /// this answered challenge plus that many times 2^N
    ChalHigh(usize, usize),
    IdxSwap(usize, usize),
    IdxDup(usize, usize),
    IdxDrop(usize),
    IdxPush(usize),
    IdxOf(usize),
    Hash(El),
    HashAdd(El),
    HashOf(usize),
    ProofOf(usize),
    ProofPart(u8, usize),
    ProofTwist(u8),
    ProofByte(usize, u8),
}
fn gen_mut(r: &mut Rng) -> Mut {
    let s = r.us(0, SESS - 1);
    match r.below(26) {
        22 | 23 => Mut::IdxWrap(r.us(0, R - 1), *r.pick(&[1, 1, 2, 3, 1 << 20, 1 << 58])),
        24 => Mut::ChalHigh(r.us(0, R - 1), *r.pick(&[1, 1, 2, 3, 1 << 26, 1 << 40])),
        0 => Mut::Key(El::gen(r)),
        1 => Mut::KeyOf(s),
        2 => Mut::Msg(El::gen(r)),
        3 => Mut::MsgOf(s),
        4 | 5 => Mut::Chal(r.us(0, R - 1), r.us(0, (1 << N) - 1)),
        6 => Mut::ChalOf(s),
        7 => Mut::ChalRotate(r.us(1, CC - 1)),
        8 => Mut::ChalTrunc(r.us(0, CC - 1)),
        9 => Mut::Idx(r.us(0, R - 1), r.us(0, CC)),
        10 => Mut::IdxSwap(r.us(0, R - 1), r.us(0, R - 1)),
        11 => Mut::IdxDup(r.us(0, R - 1), r.us(0, R - 1)),
        12 => Mut::IdxDrop(r.us(0, R - 1)),
        13 => Mut::IdxPush(r.us(0, CC - 1)),
        14 => Mut::IdxOf(s),
        15 => Mut::Hash(El::gen(r)),
        16 => Mut::HashAdd(El::gen(r)),
        17 => Mut::HashOf(s),
        18 => Mut::ProofOf(s),
        19 => Mut::ProofPart(r.below(3) as u8, s),
        20 => Mut::ProofTwist(r.below(6) as u8),
        _ => Mut::ProofByte(r.us(0, 400), 1 << r.below(8)),
    }
}
/// None: the message no longer parses and never reaches the verifier.
fn mutate(p: &PoolOf, st: &mut Stmt, a: &mut Answer, mu: &Mut) -> Option<()> {
    let o = |i: &usize| &p.s[*i % p.s.len()];
    match mu {
        Mut::Key(e) => st.key = e.fr(),
        Mut::KeyOf(s) => st.key = o(s).st.key,
        Mut::Msg(e) => st.m = e.fr(),
        Mut::MsgOf(s) => st.m = o(s).st.m,
        Mut::Chal(k, v) => {
            let i = *a.idx.get(*k % a.idx.len().max(1))?;
            *st.challenges.get_mut(i)? = *v;
        }
        Mut::ChalOf(s) => st.challenges = o(s).st.challenges.clone(),
        Mut::ChalRotate(k) => {
            let n = st.challenges.len();
            if n > 0 {
                st.challenges.rotate_left(*k % n);
            }
        }
        Mut::ChalTrunc(k) => st.challenges.truncate(*k),
        Mut::ChalHigh(k, v) => {
            let i = *a.idx.get(*k % a.idx.len().max(1))?;
            let c = st.challenges.get_mut(i)?;
            *c = c.wrapping_add(v.wrapping_mul(1 << N));
        }
        Mut::IdxWrap(k, v) => {
            // from position k on, so that the order stays increasing
            for i in a.idx.iter_mut().skip(*k) {
                *i = i.wrapping_add(v.wrapping_mul(CC));
            }
        }
        Mut::Idx(k, v) => *a.idx.get_mut(*k)? = *v,
        Mut::IdxSwap(i, j) => {
            let n = a.idx.len().max(1);
            if a.idx.is_empty() {
                return Some(());
            }
            a.idx.swap(*i % n, *j % n);
        }
        Mut::IdxDup(i, j) => {
            let v = *a.idx.get(*i)?;
            *a.idx.get_mut(*j)? = v;
        }
        Mut::IdxDrop(i) => {
            if *i < a.idx.len() {
                a.idx.remove(*i);
            }
        }
        Mut::IdxPush(v) => a.idx.push(*v),
        Mut::IdxOf(s) => a.idx = o(s).a.idx.clone(),
        Mut::Hash(e) => a.x_hash = e.fr(),
        Mut::HashAdd(e) => a.x_hash += e.fr(),
        Mut::HashOf(s) => a.x_hash = o(s).a.x_hash,
        Mut::ProofOf(s) => a.proof = o(s).a.proof.clone(),
        Mut::ProofPart(k, s) => match k {
            0 => a.proof.a = o(s).a.proof.a,
            1 => a.proof.b = o(s).a.proof.b,
            _ => a.proof.c = o(s).a.proof.c,
        },
        Mut::ProofTwist(k) => match k {
            0 => a.proof.a = -a.proof.a,
            1 => a.proof.b = -a.proof.b,
            2 => a.proof.c = -a.proof.c,
            3 => std::mem::swap(&mut a.proof.a, &mut a.proof.c),
            4 => a.proof.a = (a.proof.a.into_projective() + ark_bls12_381::G1Affine::prime_subgroup_generator().into_projective()).into_affine(),
            _ => a.proof.c = ark_bls12_381::G1Affine::default(),
        },
        Mut::ProofByte(pos, x) => {
            let mut b = vec![];
            a.proof.serialize(&mut b).ok()?;
            let n = b.len();
            b[*pos % n] ^= x;
            a.proof = Proof::deserialize(&b[..]).ok()?;
        }
    }
    Some(())
}

/// Network faults, by send number.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Nf {
    Drop,
    Dup(u64),
    Delay(u64),
    Misroute(usize),
    Corrupt(Mut),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum P06 {
    /// sessions talk over a lossy network until each is accepted
    Net { sessions: Vec<usize>, faults: Vec<(u64, Nf)>, resend: u64, seed: u64 },
    /// one assembled answer with fields changed
    Tamper { sess: usize, muts: Vec<Vec<Mut>> },
    /// answers with repeated or unordered indices, honestly proven
    Indices { sess: usize, idx: Vec<usize> },
    /// the honest indices with one neighbouring pair repeated or swapped, honestly proven
    Repeat { sess: usize, k: usize, swap: bool },
    /// bit rot between marking and answering
    Rot { sess: usize, flips: Vec<usize>, ch: u64 },
}
pub struct C06;

struct Deliv {
    at: u64,
    seq: u64,
    to: usize,
    commit: Option<(Vec<usize>, Fr)>,
    proof: Option<Proof<Bls12_381>>,
}

fn same(a: &Proof<Bls12_381>, b: &Proof<Bls12_381>) -> bool {
    a == b
}

impl Sim for C06 {
    type Plan = P06;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when an altered, misdelivered, replayed or re-indexed answer reached the real verifier"
    }
    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick if BIG => 8,
            Tier::Quick => 1200,
            _ if BIG => 100,
            _ => 40_000,
        }
    }
    fn warm(&self) {
        if !BIG {
            let _ = pool();
        }
    }
    fn limit_s(&self) -> u64 {
        150
    }
    fn gen(&self, r: &mut Rng, tier: Tier, i: u64) -> P06 {
        if BIG && i % 2 == 0 {
            // every position once, then anything
            let mut muts: Vec<Vec<Mut>> = (0..R).map(|k| vec![if r.chance(1, 2) { Mut::Chal(k, r.us(0, (1 << N) - 1)) } else { Mut::ChalHigh(k, r.us(1, 9)) }]).collect();
            muts.extend((0..R - 1).map(|k| vec![Mut::IdxSwap(k, k + 1)]));
            muts.extend((0..60).map(|_| (0..if r.chance(5, 6) { 1 } else { 2 }).map(|_| gen_mut(r)).collect::<Vec<_>>()));
            return P06::Tamper { sess: r.us(0, SESS - 1), muts };
        }
        if BIG {
            let k = match i % 8 {
                1 => R - 2,
                3 => 0,
                _ => r.us(0, R - 2),
            };
            return P06::Repeat { sess: r.us(0, SESS - 1), k, swap: i % 8 == 7 };
        }
        match r.below(10) {
            0..=3 => {
                let k = r.us(2, 4);
                let n = r.us(2, if tier == Tier::Quick { 8 } else { 24 });
                P06::Net {
                    sessions: (0..k).map(|_| r.us(0, SESS - 1)).collect(),
                    faults: (0..n)
                        .map(|_| {
                            (
                                r.below(3 * n as u64),
                                match r.below(7) {
                                    0 => Nf::Drop,
                                    1 => Nf::Dup(r.range(1, 400)),
                                    2 => Nf::Delay(r.range(1, 900)),
                                    3 | 4 => Nf::Misroute(r.us(0, k - 1)),
                                    _ => Nf::Corrupt(gen_mut(r)),
                                },
                            )
                        })
                        .collect(),
                    resend: r.range(20, 300),
                    seed: r.next(),
                }
            }
            4..=6 => P06::Tamper { sess: r.us(0, SESS - 1), muts: (0..r.us(3, 10)).map(|_| (0..if r.chance(3, 4) { 1 } else { r.us(2, 3) }).map(|_| gen_mut(r)).collect()).collect() },
            7 | 8 => {
                let sess = r.us(0, SESS - 1);
                if r.chance(1, 4) {
                    return P06::Repeat { sess, k: r.us(0, R - 2), swap: r.chance(1, 2) };
                }
                let idx = match r.below(4) {
                    0 => {
                        let a = r.us(0, CC - 1);
                        vec![a; R]
                    }
                    1 => {
                        let a = r.us(0, CC - 1);
                        let mut v: Vec<usize> = (0..R).map(|_| r.us(0, CC - 1)).collect();
                        v[0] = a;
                        v[R - 1] = a;
                        v
                    }
                    _ => (0..R).map(|_| r.us(0, CC - 1)).collect(),
                };
                P06::Indices { sess, idx }
            }
            _ => P06::Rot { sess: r.us(0, SESS - 1), flips: (0..*r.pick(&[1usize, 2, 5, 20, 80])).map(|_| r.us(0, size(N) * 8 - 1)).collect(), ch: r.next() },
        }
    }
    fn run(&self, plan: &P06, ctx: &mut Ctx) -> Res {
        let p = match pool() {
            Ok(p) => p,
            Err(e) => return viol("honest-session-failed", e),
        };
        reset_world(6, 1, 0);
        match plan {
            P06::Tamper { sess, muts } => {
                let base = &p.s[*sess];
                // verdicts of one verifier process, ending with the untouched answer
                let mut cases: Vec<(Stmt, Answer, Option<bool>, String)> = vec![];
                for ms in muts {
                    let (mut st, mut a) = (base.st.clone(), base.a.clone());
                    let mut ok = true;
                    for mu in ms {
                        if mutate(p, &mut st, &mut a, mu).is_none() {
                            ok = false;
                        }
                    }
                    if !ok {
                        ctx.probe("dropped-by-transport");
                        continue;
                    }
                    let want = expected(p, &st, &a);
                    cases.push((st, a, want, format!("{:?}", ms)));
                }
                cases.push((base.st.clone(), base.a.clone(), Some(true), "untouched, after the altered ones".into()));
                judge_all(p, cases, ctx)
            }
            P06::Indices { sess, .. } | P06::Repeat { sess, .. } => {
                let base = &p.s[*sess];
                let pre = known(base.st.key, base.st.m);
                let wish: Vec<usize> = match plan {
                    P06::Indices { idx, .. } => idx.clone(),
                    P06::Repeat { k, swap, .. } => {
                        let mut v = base.a.idx.clone();
                        if *swap {
                            v.swap(*k, *k + 1);
                        } else {
                            v[*k + 1] = v[*k];
                        }
                        v
                    }
                    _ => unreachable!(),
                };
                let mut xs = vec![];
                let mut use_idx = vec![];
                for i in wish {
                    // the nearest occupied challenge from i on
                    let j = (0..CC).map(|d| (i + d) % CC).find(|&j| !pre[base.st.challenges[j]].is_empty());
                    match j {
                        Some(j) => {
                            use_idx.push(j);
                            xs.push(Fr::from(pre[base.st.challenges[j]][0] as u64));
                        }
                        None => return Ok(()),
                    }
                }
                let h = chain(&xs, base.st.key, &hc());
                ctx.mixin(simrt::rng::hash_bytes(format!("{}{:?}", sess, use_idx).as_bytes()));
                let su = match setup() {
                    Ok(s) => s,
                    Err(e) => return viol("setup-failed", e),
                };
                let o = answer2(&su.pk, base.st.key, base.st.m, xs, base.st.challenges.clone(), use_idx.clone(), h);
                let proof = match o {
                    Out::Ok((_, proof)) => proof,
                    o => {
                        if increasing(&use_idx) {
                            return viol("honest-answer-rejected", format!("proving answers to {:?} failed: {}", use_idx, o.what()));
                        }
                        ctx.probe("prover-refused");
                        return Ok(());
                    }
                };
                ctx.nontrivial = true;
                ctx.sub += 1;
                let a = Answer { idx: use_idx.clone(), x_hash: h, proof };
                let v = matches!(verify(&p.pvk, &base.st, &a), Out::Ok(true));
                ctx.fault(if increasing(&use_idx) { "reindexed_answer" } else { "repeated_or_unordered_indices" });
                if increasing(&use_idx) {
                    if !v {
                        return viol("honest-answer-rejected", format!("a truthful answer to the distinct challenges {:?} was rejected", use_idx));
                    }
                } else if v {
                    return viol("repeated-answer-accepted", format!("the verifier accepted an answer whose indices {:?} are not {} distinct challenges in increasing order", use_idx, R));
                }
                Ok(())
            }
            P06::Rot { sess, flips, ch } => {
                let base = &p.s[*sess];
                let su = match setup() {
                    Ok(s) => s,
                    Err(e) => return viol("setup-failed", e),
                };
                let mut t = base.table.clone();
                for f in flips {
                    t[f / 8] ^= 1 << (f % 8);
                    ctx.fault("bit_rot");
                }
                world().fs.put(P, &t);
                ctx.mixin(simrt::rng::hash_bytes(&t));
                let mut r = Rng::new(*ch);
                // aim some challenges at the damaged slots
                let chs: Vec<usize> = (0..CC).map(|_| if r.chance(1, 3) { (*r.pick(flips) / (N + 1)).min((1 << N) - 1) } else { r.us(0, (1 << N) - 1) }).collect();
                let (o, _) = answer1(base.st.key, &chs, Phase::clean());
                let (xs, idx, h) = match o {
                    Out::Ok(a) => a,
                    Out::Panic(_) => {
                        ctx.probe("prover-refused");
                        return Ok(());
                    }
                    o => return viol("no-progress", o.what()),
                };
                let o = answer2(&su.pk, base.st.key, base.st.m, xs.clone(), chs.clone(), idx.clone(), h);
                let proof = match o {
                    Out::Ok((_, p)) => p,
                    _ => {
                        ctx.probe("prover-refused");
                        return Ok(());
                    }
                };
                let truth = idx.len() == R && xs.len() == R && (0..R).all(|i| low(df(xs[i], base.st.key, base.st.m, &dfc()), N) == chs[idx[i]]);
                let st = Stmt { key: base.st.key, m: base.st.m, challenges: chs.clone() };
                let v = matches!(verify(&p.pvk, &st, &Answer { idx: idx.clone(), x_hash: h, proof }), Out::Ok(true));
                ctx.nontrivial = true;
                ctx.sub += 1;
                ctx.probe(if truth { "rot-missed-answers" } else { "rot-hit-answers" });
                if v && !truth {
                    return viol("damaged-answer-accepted", format!("the table was damaged at bits {:?}; the answer to {:?} is not made of true preimages but was accepted", flips, idx.iter().map(|&i| chs[i]).collect::<Vec<_>>()));
                }
                if !v && truth && increasing(&idx) {
                    return viol("honest-answer-rejected", "an answer made of true preimages was rejected".to_string());
                }
                Ok(())
            }
            P06::Net { sessions, faults, resend, seed } => {
                let ns = sessions.len();
                let mut accepted = vec![false; ns];
                let mut q: Vec<Deliv> = vec![];
                let mut seq = 0u64;
                let mut sends = 0u64;
                let mut r = Rng::new(*seed);
                let horizon = 4000u64;
                let mut commit: Vec<Option<(Vec<usize>, Fr)>> = vec![None; ns];
                let mut cases = vec![];
                let mut who = vec![];
                // time of the next transmission of each session
                let mut next: Vec<u64> = (0..ns).map(|_| r.range(1, 50)).collect();
                let mut now;
                loop {
                    // next event: a transmission or a delivery
                    let tx = (0..ns).filter(|&i| !accepted[i] && next[i] < horizon).min_by_key(|&i| (next[i], i));
                    let rx = (0..q.len()).min_by_key(|&i| (q[i].at, q[i].seq));
                    match (tx, rx) {
                        (None, None) => break,
                        (Some(i), d) if d.map_or(true, |k| next[i] <= q[k].at) => {
                            now = next[i];
                            next[i] = now + resend;
                            let s = &p.s[sessions[i]];
                            let msgs = [Deliv { at: 0, seq: 0, to: i, commit: Some((s.a.idx.clone(), s.a.x_hash)), proof: None }, Deliv { at: 0, seq: 0, to: i, commit: None, proof: Some(s.a.proof.clone()) }];
                            for mut m in msgs {
                                m.at = now + r.range(1, 30);
                                let mine: Vec<&Nf> = faults.iter().filter(|f| f.0 == sends && now < horizon / 2).map(|f| &f.1).collect();
                                sends += 1;
                                let mut copies = vec![m.at];
                                let mut lost = false;
                                for f in mine {
                                    match f {
                                        Nf::Drop => {
                                            lost = true;
                                            ctx.fault("message_drop")
                                        }
                                        Nf::Dup(d) => {
                                            copies.push(m.at + d);
                                            ctx.fault("message_duplicate")
                                        }
                                        Nf::Delay(d) => {
                                            copies[0] += d;
                                            ctx.fault("message_delay")
                                        }
                                        Nf::Misroute(t) => {
                                            m.to = *t % ns;
                                            ctx.fault("message_misroute")
                                        }
                                        Nf::Corrupt(mu) => {
                                            let mut st = s.st.clone();
                                            let mut a = Answer { idx: m.commit.as_ref().map_or(vec![0; R], |c| c.0.clone()), x_hash: m.commit.as_ref().map_or(s.a.x_hash, |c| c.1), proof: s.a.proof.clone() };
                                            if mutate(p, &mut st, &mut a, mu).is_none() {
                                                lost = true;
                                            }
                                            if m.commit.is_some() {
                                                m.commit = Some((a.idx, a.x_hash));
                                            } else {
                                                m.proof = Some(a.proof);
                                            }
                                            ctx.fault("message_corrupt")
                                        }
                                    }
                                }
                                if lost {
                                    continue;
                                }
                                for t in copies {
                                    seq += 1;
                                    q.push(Deliv { at: t, seq, to: m.to, commit: m.commit.clone(), proof: m.proof.clone() });
                                }
                            }
                        }
                        (_, Some(k)) => {
                            let d = q.remove(k);
                            now = d.at;
                            ctx.mixin(now ^ d.seq << 32);
                            if let Some(c) = d.commit {
                                commit[d.to] = Some(c);
                            } else if let (Some(c), Some(pr)) = (commit[d.to].clone(), d.proof) {
                                let st = p.s[sessions[d.to]].st.clone();
                                let a = Answer { idx: c.0, x_hash: c.1, proof: pr };
                                let want = expected(p, &st, &a);
                                if want == Some(true) {
                                    accepted[d.to] = true;
                                }
                                cases.push((st, a, want, format!("delivered to session {} at {}", d.to, now)));
                                who.push(d.to);
                            }
                        }
                        _ => unreachable!(),
                    }
                }
                if accepted.iter().any(|a| !a) {
                    // the network healed at horizon/2, so every session got through in the model
                    return viol("harness-network", "a session never got through although the network healed");
                }
                world().mono += 4_000_000_000;
                judge_all(p, cases, ctx)
            }
        }
    }
    fn shrink(&self, p: &P06) -> Vec<P06> {
        let mut out = vec![];
        match p {
            P06::Net { sessions, faults, resend, seed } => {
                for f in shrink_list(faults) {
                    out.push(P06::Net { sessions: sessions.clone(), faults: f, resend: *resend, seed: *seed });
                }
                for s in shrink_list(sessions) {
                    if !s.is_empty() {
                        out.push(P06::Net { sessions: s, faults: faults.clone(), resend: *resend, seed: *seed });
                    }
                }
            }
            P06::Tamper { sess, muts } => {
                for m in shrink_list(muts) {
                    out.push(P06::Tamper { sess: *sess, muts: m });
                }
                for i in 0..muts.len() {
                    for m in shrink_list(&muts[i]) {
                        let mut v = muts.clone();
                        v[i] = m;
                        out.push(P06::Tamper { sess: *sess, muts: v });
                    }
                }
            }
            P06::Rot { sess, flips, ch } => {
                for f in shrink_list(flips) {
                    if !f.is_empty() {
                        out.push(P06::Rot { sess: *sess, flips: f, ch: *ch });
                    }
                }
            }
            P06::Indices { .. } | P06::Repeat { .. } => {}
        }
        out
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["proof_of_space::verifier::verify", "proof_of_space::prover::{prepare_space, mark_space, response_1, construct_circuit, response_2}", "circuit::pospace_circuit", "ark-groth16 setup, prover and verifier"]
    }
    fn stub(&self) -> Vec<&'static str> {
        vec!["network between prover and verifier (simulated messages)", "disk", "entropy source", "protocol constants (small, through cfg(verif_sim))"]
    }
}

/// Some(true): must be accepted. Some(false): must be rejected. None: no verdict required.
fn expected(p: &PoolOf, st: &Stmt, a: &Answer) -> Option<bool> {
    let claim = st.claim(a);
    // the session this proof was made in
    let made = p.s.iter().find(|s| same(&s.a.proof, &a.proof));
    match (made, claim) {
        (Some(s), Some(c)) => {
            let orig = s.st.claim(&s.a).unwrap();
            let untouched = st.key == s.st.key && st.m == s.st.m && st.challenges == s.st.challenges && a.idx == s.a.idx && a.x_hash == s.a.x_hash;
            if untouched {
                Some(true)
            } else if c != orig || a.idx.len() != R || !increasing(&a.idx) {
                Some(false)
            } else {
                None
            }
        }
        _ => Some(false),
    }
}

fn judge_all(p: &'static PoolOf, cases: Vec<(Stmt, Answer, Option<bool>, String)>, ctx: &mut Ctx) -> Res {
    let c2: Vec<(Stmt, Answer)> = cases.iter().map(|c| (c.0.clone(), c.1.clone())).collect();
    let (o, _) = run(Phase::clean(), move || c2.iter().map(|(s, a)| verify_here(&p.pvk, s, a)).collect::<Vec<bool>>());
    let got = match o {
        Out::Ok(v) => v,
        o => return viol("no-progress", format!("verifier: {}", o.what())),
    };
    for (i, (st, a, want, what)) in cases.iter().enumerate() {
        ctx.sub += 1;
        // what was delivered, in order, is this run's history
        let mut d = format!("{:?}{:?}{:?}{:?}{:?}", st.key, st.m, st.challenges, a.idx, a.x_hash).into_bytes();
        let _ = a.proof.serialize(&mut d);
        ctx.mixin(simrt::rng::hash_bytes(&d));
        ctx.mixin(got[i] as u64 + 2 * i as u64);
        match want {
            Some(false) => {
                ctx.nontrivial = true;
                ctx.probe("must-reject");
                if got[i] {
                    return viol("altered-answer-accepted", format!("the verifier accepted an answer it was not made for: {}", what));
                }
            }
            Some(true) => {
                ctx.probe("must-accept");
                if !got[i] {
                    return viol("honest-answer-rejected", format!("a correctly delivered honest answer was rejected: {}", what));
                }
            }
            None => ctx.probe("no-verdict-required"),
        }
    }
    Ok(())
}
