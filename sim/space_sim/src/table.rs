//! C01-C04: the prover's table on a faulty disk.
use crate::refm::*;
use ark_bls12_381::Fr;
use pospace_real::mimc::mimc_df::MIMC5_DF_ROUNDS;
use pospace_real::mimc::mimc_hash::MIMC5_HASH_ROUNDS;
use pospace_real::proof_of_space::prover as real;
use pospace_small::proof_of_space::prover as small;
use serde::{Deserialize, Serialize};
use simrt::driver::{viol, Ctx, Res, Sim, Tier};
use simrt::plan::*;
use simrt::{reset_world, run, world, FaultKind, Out, Phase, PhaseInfo, Rng};

pub fn reserve(n: usize, ph: Phase) -> (Out<bool>, PhaseInfo) {
    run(ph, move || real::prepare_space(P, n).is_ok())
}
pub fn mark(n: usize, key: Fr, m: Fr, c: Vec<Fr>, ph: Phase) -> (Out<()>, PhaseInfo) {
    run(ph, move || {
        real::mark_space(P, key, m, &c, n);
    })
}
pub fn file() -> Option<Vec<u8>> {
    world().fs.get(P).cloned()
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Pre {
    Keep,
    Missing,
    /// garbage of that many bytes
    Junk(usize, u64),
    /// zeroes
    Zero(usize),
}
fn gen_pre(r: &mut Rng) -> Pre {
    match r.below(8) {
        0 => Pre::Missing,
        1 => Pre::Zero(r.us(0, 4000)),
        2 => Pre::Junk(r.us(1, 40), r.next()),
        3 | 4 => Pre::Junk(r.us(1, 30_000), r.next()),
        _ => Pre::Keep,
    }
}
fn apply_pre(p: &Pre) {
    let w = world();
    match p {
        Pre::Keep => {}
        Pre::Missing => {
            w.fs.unlink(P);
        }
        Pre::Junk(l, s) => {
            let mut b = Rng::new(*s).bytes(*l);
            for x in b.iter_mut() {
                *x |= 1;
            }
            w.fs.put(P, &b)
        }
        Pre::Zero(l) => w.fs.put(P, &vec![0; *l]),
    }
}

fn zero_ok(n: usize) -> Result<(), String> {
    match file() {
        None => Err("there is no file".into()),
        Some(f) if f.len() != size(n) => Err(format!("the file has {} bytes, expected {}", f.len(), size(n))),
        Some(f) => match f.iter().position(|&b| b != 0) {
            Some(i) => Err(format!("byte {} is {}", i, f[i])),
            None => Ok(()),
        },
    }
}

// ---- C01 --------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RStep {
    n: usize,
    pre: Pre,
    faults: Vec<PF>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct P01 {
    steps: Vec<RStep>,
}
pub struct C01;
impl Sim for C01 {
    type Plan = P01;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when at least one injected storage fault hit the reservation, or the path held other data before"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 20_000 } else { 300_000 }
    }
    fn gen(&self, r: &mut Rng, tier: Tier, index: u64) -> P01 {
        if index < 2 {
            // production size
            return P01 { steps: vec![RStep { n: 20, pre: Pre::Junk(if index == 0 { 3_000_000 } else { 100 }, 7), faults: vec![PF { pos: gen_pos(r), kind: gen_kind(r, Family::Write) }] }] };
        }
        let k = r.us(1, if tier == Tier::Quick { 4 } else { 8 });
        let steps = (0..k)
            .map(|_| RStep {
                n: match r.below(12) {
                    0 => r.us(12, if tier == Tier::Quick { 14 } else { 16 }),
                    1 | 2 => r.us(10, 12),
                    _ => r.us(3, 9),
                },
                pre: gen_pre(r),
                faults: gen_faults(r, Family::Write),
            })
            .collect();
        P01 { steps }
    }
    fn run(&self, p: &P01, ctx: &mut Ctx) -> Res {
        reset_world(1, 5_000_000_000, 1_700_000_000_000_000_000);
        for s in &p.steps {
            apply_pre(&s.pre);
            let before = world().fs.clone();
            if file().is_some() {
                ctx.nontrivial = true;
                ctx.probe("path-already-used");
            }
            let (o, i) = reserve(s.n, Phase::clean());
            match o {
                Out::Ok(true) => {}
                o => return viol("clean-failure", format!("reserving n={} without any fault: {}", s.n, o.what())),
            }
            if let Err(e) = zero_ok(s.n) {
                return viol("wrong-space", format!("reserving n={} without any fault: {}", s.n, e));
            }
            ctx.sub += 1;
            if s.faults.is_empty() {
                continue;
            }
            world().fs = before;
            let (o, j) = reserve(s.n, Phase::faulty(&scale(&s.faults, i.ops)));
            if j.hard + j.soft > 0 {
                ctx.nontrivial = true;
            }
            ctx.sub += 1;
            match o {
                Out::Ok(true) => {
                    if let Err(e) = zero_ok(s.n) {
                        return viol("silent-wrong-space", format!("reserving n={} reported success although {}", s.n, e));
                    }
                    ctx.probe(if j.hard > 0 { "succeeded-despite-faults" } else { "succeeded" });
                }
                Out::Ok(false) | Out::Panic(_) => {
                    ctx.probe("failed-visibly");
                    if j.hard + j.soft == 0 {
                        return viol("clean-failure", format!("reserving n={} failed although no fault was injected", s.n));
                    }
                }
                o => return viol("no-progress", format!("reserving n={}: {}", s.n, o.what())),
            }
            let (o, _) = reserve(s.n, Phase::clean());
            match o {
                Out::Ok(true) => {}
                o => return viol("no-recovery", format!("repeating the reservation of n={} after the faults stopped: {}", s.n, o.what())),
            }
            if let Err(e) = zero_ok(s.n) {
                return viol("wrong-space", format!("repeated reservation of n={}: {}", s.n, e));
            }
        }
        Ok(())
    }
    fn shrink(&self, p: &P01) -> Vec<P01> {
        let mut out: Vec<P01> = shrink_list(&p.steps).into_iter().filter(|s| !s.is_empty()).map(|steps| P01 { steps }).collect();
        for i in 0..p.steps.len() {
            for f in shrink_list(&p.steps[i].faults) {
                let mut q = p.clone();
                q.steps[i].faults = f;
                out.push(q);
            }
            for n in shrink_num(p.steps[i].n, 3) {
                let mut q = p.clone();
                q.steps[i].n = n;
                out.push(q);
            }
        }
        out
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["proof_of_space::prover::prepare_space", "std::fs / std::io"]
    }
    fn stub(&self) -> Vec<&'static str> {
        vec!["disk (in-memory file system with fault injection)", "clock"]
    }
}

// ---- C02 --------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct P02 {
    n: usize,
    key: El,
    m: El,
    cseed: u64,
    pre: Pre,
    /// mark an older table with another key first
    older: Option<(usize, u64)>,
    clock: (u64, i64),
    faults: Vec<PF>,
}
pub struct C02;
fn dfc(seed: u64) -> Vec<Fr> {
    consts(seed, MIMC5_DF_ROUNDS)
}
fn hc(seed: u64) -> Vec<Fr> {
    consts(seed ^ 0x77, MIMC5_HASH_ROUNDS)
}
fn gen_n(r: &mut Rng, tier: Tier) -> usize {
    match r.below(12) {
        0 => r.us(9, if tier == Tier::Quick { 11 } else { 13 }),
        1 | 2 | 3 => r.us(7, 9),
        _ => r.us(3, 7),
    }
}
impl Sim for C02 {
    type Plan = P02;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when at least one injected fault hit the marking, or the path held an older table"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 30_000 } else { 300_000 }
    }
    fn gen(&self, r: &mut Rng, tier: Tier, index: u64) -> P02 {
        let n = match (index, tier) {
            (0, Tier::Quick) => 17,
            (0, Tier::Thorough) => 20,
            (1, _) => 16,
            (2, _) => 13,
            (3, _) => 12,
            (4, _) => 14,
            _ => gen_n(r, tier),
        };
        P02 {
            n,
            key: El::gen(r),
            m: El::gen(r),
            cseed: r.next(),
            pre: gen_pre(r),
            older: if r.chance(1, 3) && index > 4 { Some((gen_n(r, tier), r.next())) } else { None },
            clock: (r.below(1 << 50), r.next() as i64 >> 8),
            faults: if index < 5 { vec![PF { pos: gen_pos(r), kind: gen_kind(r, Family::Both) }] } else { gen_faults(r, Family::Both) },
        }
    }
    fn run(&self, p: &P02, ctx: &mut Ctx) -> Res {
        reset_world(2, p.clock.0 + 1, p.clock.1);
        apply_pre(&p.pre);
        let (key, m, c) = (p.key.fr(), p.m.fr(), dfc(p.cseed));
        if let Some((n, s)) = p.older {
            ctx.probe("older-table");
            ctx.nontrivial = true;
            let _ = reserve(n, Phase::clean());
            let _ = mark(n, El::Rand(s).fr(), m, c.clone(), Phase::clean());
        }
        let pre = preimages(p.n, key, m, &c);
        let prepare = |ctx: &mut Ctx| -> Res {
            match reserve(p.n, Phase::clean()).0 {
                Out::Ok(true) => {}
                o => return viol("clean-failure", format!("reserving n={}: {}", p.n, o.what())),
            }
            ctx.sub += 1;
            Ok(())
        };
        prepare(ctx)?;
        let reserved = world().fs.clone();
        let (o, i) = mark(p.n, key, m, c.clone(), Phase::clean());
        if !o.is_ok() {
            return viol("clean-failure", format!("marking n={} without any fault: {}", p.n, o.what()));
        }
        let good = file().unwrap_or_default();
        if let Err(e) = table_ok(&good, p.n, &pre) {
            return viol("wrong-table", format!("marking n={} without any fault: {}", p.n, e));
        }
        ctx.sub += 1;
        if pre.iter().any(|x| x.len() > 1) {
            ctx.probe("slot-with-several-preimages");
        }
        if p.faults.is_empty() {
            return Ok(());
        }
        world().fs = reserved;
        let (o, j) = mark(p.n, key, m, c.clone(), Phase::faulty(&scale(&p.faults, i.ops)));
        ctx.sub += 1;
        if j.hard + j.soft > 0 {
            ctx.nontrivial = true;
        }
        match o {
            Out::Ok(()) => {
                let t = file().unwrap_or_default();
                if let Err(e) = table_ok(&t, p.n, &pre) {
                    return viol("silent-wrong-table", format!("marking n={} reported success although {}", p.n, e));
                }
                if j.hard == 0 && t != good {
                    return viol("clock-dependent-table", format!("marking n={} twice with the same key and message gave different tables", p.n));
                }
                ctx.probe("succeeded-despite-faults");
            }
            Out::Panic(e) => {
                ctx.probe("failed-visibly");
                if j.hard + j.soft == 0 {
                    return viol("clean-failure", format!("marking n={} failed although no fault was injected: {}", p.n, e));
                }
                let len = file().map_or(0, |f| f.len());
                if len != size(p.n) {
                    return viol("table-resized", format!("a failed marking of n={} left {} bytes", p.n, len));
                }
            }
            o => return viol("no-progress", format!("marking n={}: {}", p.n, o.what())),
        }
        prepare(ctx)?;
        let (o, _) = mark(p.n, key, m, c.clone(), Phase::clean());
        if !o.is_ok() {
            return viol("no-recovery", format!("marking n={} after the faults stopped: {}", p.n, o.what()));
        }
        if let Err(e) = table_ok(&file().unwrap_or_default(), p.n, &pre) {
            return viol("wrong-table", format!("marking n={} after the faults stopped: {}", p.n, e));
        }
        Ok(())
    }
    fn shrink(&self, p: &P02) -> Vec<P02> {
        let mut out = vec![];
        for f in shrink_list(&p.faults) {
            out.push(P02 { faults: f, ..p.clone() });
        }
        for n in shrink_num(p.n, 3) {
            out.push(P02 { n, ..p.clone() });
        }
        if p.older.is_some() {
            out.push(P02 { older: None, ..p.clone() });
        }
        if p.pre != Pre::Missing {
            out.push(P02 { pre: Pre::Missing, ..p.clone() });
        }
        if p.key != El::Small(1) {
            out.push(P02 { key: El::Small(1), ..p.clone() });
        }
        out
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["proof_of_space::prover::{prepare_space, mark_space}", "proof_of_space::convert", "mimc::mimc_df::mimc5_df", "std::fs / std::io", "ark-ff"]
    }
    fn stub(&self) -> Vec<&'static str> {
        vec!["disk (in-memory file system with fault injection)", "clock"]
    }
}

// ---- C03 --------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct CrashAt {
    in_mark: bool,
    pos: Pos,
    torn: u32,
    /// power loss: permille of unsynced operations that survive
    power: Option<(u32, u64)>,
    /// continue with marking only (process crash during marking)
    mark_only: bool,
    /// this attempt was made with another key (the next one starts from scratch)
    other: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct P03 {
    n: usize,
    key: El,
    m: El,
    cseed: u64,
    pre: Pre,
    crashes: Vec<CrashAt>,
}
pub struct C03;
impl Sim for C03 {
    type Plan = P03;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when at least one crash or power loss really struck inside reserve or mark"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 20_000 } else { 300_000 }
    }
    fn gen(&self, r: &mut Rng, tier: Tier, index: u64) -> P03 {
        let k = r.us(1, if tier == Tier::Quick { 4 } else { 8 });
        P03 {
            n: match (index, tier) {
                (0 | 1, Tier::Quick) => 17 - index as usize,
                (0 | 1 | 2 | 3, Tier::Thorough) => 18 - index as usize,
                (i, _) if i < 12 => 13 + (i % 3) as usize,
                (i, _) if i < 300 => 10 + (i % 4) as usize,
                _ => gen_n(r, tier).min(9),
            },
            key: El::gen(r),
            m: El::gen(r),
            cseed: r.next(),
            pre: gen_pre(r),
            crashes: (0..k)
                .map(|_| {
                    let in_mark = r.chance(2, 3);
                    let power = if r.chance(1, 2) { Some((*r.pick(&[0u32, 200, 500, 800, 1000]), r.next())) } else { None };
                    let other = in_mark && r.chance(1, 5);
                    CrashAt { in_mark, pos: gen_pos(r), torn: r.below(1001) as u32, mark_only: in_mark && !other && power.is_none() && r.chance(1, 2), power, other }
                })
                .collect(),
        }
    }
    fn run(&self, p: &P03, ctx: &mut Ctx) -> Res {
        reset_world(3, 1, 0);
        apply_pre(&p.pre);
        let start = world().fs.clone();
        let (key, m, c) = (p.key.fr(), p.m.fr(), dfc(p.cseed));
        let pre = preimages(p.n, key, m, &c);
        let (o, ri) = reserve(p.n, Phase::clean());
        if !matches!(o, Out::Ok(true)) {
            return viol("clean-failure", format!("reserve: {}", o.what()));
        }
        let (o, mi) = mark(p.n, key, m, c.clone(), Phase::clean());
        if !o.is_ok() {
            return viol("clean-failure", format!("mark: {}", o.what()));
        }
        let good = file().unwrap_or_default();
        if let Err(e) = table_ok(&good, p.n, &pre) {
            return viol("wrong-table", e);
        }
        world().fs = start;
        world().fs.start_tracking();
        // after a crash inside marking with the reservation intact, marking alone must repair
        let mut skip_reserve = false;
        for cr in &p.crashes {
            if !cr.in_mark {
                let f = vec![PF { pos: cr.pos.clone(), kind: FaultKind::Crash(cr.torn) }];
                let (o, _) = reserve(p.n, Phase::faulty(&scale(&f, ri.ops)));
                skip_reserve = false;
                match o {
                    Out::Crashed => {
                        ctx.nontrivial = true;
                        ctx.probe("crash-in-reserve")
                    }
                    Out::Ok(true) => {}
                    o => return viol("no-recovery", format!("reserve after a crash: {}", o.what())),
                }
            } else {
                if !skip_reserve || cr.other {
                    let (o, _) = reserve(p.n, Phase::clean());
                    if !matches!(o, Out::Ok(true)) {
                        return viol("no-recovery", format!("reserve after a crash: {}", o.what()));
                    }
                    if let Err(e) = zero_ok(p.n) {
                        return viol("wrong-space", format!("reserve after a crash: {}", e));
                    }
                }
                let f = vec![PF { pos: cr.pos.clone(), kind: FaultKind::Crash(cr.torn) }];
                let k = if cr.other { key + Fr::from(3u64) } else { key };
                let (o, _) = mark(p.n, k, m, c.clone(), Phase::faulty(&scale(&f, mi.ops)));
                match o {
                    Out::Crashed => {
                        ctx.nontrivial = true;
                        ctx.probe(if cr.other { "crash-in-mark-under-another-key" } else { "crash-in-mark" });
                        skip_reserve = cr.mark_only;
                    }
                    Out::Ok(()) => skip_reserve = cr.mark_only,
                    o => return viol("no-recovery", format!("mark after a crash: {}", o.what())),
                }
            }
            if let Some((keep, s)) = cr.power {
                let lost = world().fs.power_loss(&mut Rng::new(s), keep);
                ctx.fault("power_loss");
                if lost > 0 {
                    ctx.probe("power-loss-lost-writes");
                }
                skip_reserve = false;
            }
            ctx.sub += 1;
        }
        if skip_reserve {
            ctx.probe("repair-by-marking-alone");
            let (o, _) = mark(p.n, key, m, c.clone(), Phase::clean());
            if !o.is_ok() {
                return viol("no-recovery", format!("marking alone after a crash: {}", o.what()));
            }
            if let Err(e) = table_ok(&file().unwrap_or_default(), p.n, &pre) {
                return viol("mark-not-repairable", format!("n={}: marking alone after a process crash left a wrong table: {}", p.n, e));
            }
        }
        let (o, _) = reserve(p.n, Phase::clean());
        if !matches!(o, Out::Ok(true)) {
            return viol("no-recovery", format!("final reserve: {}", o.what()));
        }
        let (o, _) = mark(p.n, key, m, c.clone(), Phase::clean());
        if !o.is_ok() {
            return viol("no-recovery", format!("final mark: {}", o.what()));
        }
        let t = file().unwrap_or_default();
        if let Err(e) = table_ok(&t, p.n, &pre) {
            return viol("not-repaired", format!("n={}: after crashes and a complete rerun: {}", p.n, e));
        }
        if t != good {
            return viol("rerun-differs", format!("n={}: the table after crashes and a complete rerun differs from that of an uninterrupted run", p.n));
        }
        ctx.sub += 1;
        Ok(())
    }
    fn shrink(&self, p: &P03) -> Vec<P03> {
        let mut out: Vec<P03> = shrink_list(&p.crashes).into_iter().map(|crashes| P03 { crashes, ..p.clone() }).collect();
        for n in shrink_num(p.n, 3) {
            out.push(P03 { n, ..p.clone() });
        }
        if p.pre != Pre::Missing {
            out.push(P03 { pre: Pre::Missing, ..p.clone() });
        }
        out
    }
    fn real(&self) -> Vec<&'static str> {
        C02.real()
    }
    fn stub(&self) -> Vec<&'static str> {
        vec!["disk (in-memory file system that knows which writes are durable)", "process lifetime (crash = stops dead at a file operation)"]
    }
}

// ---- C04 --------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Tab {
    /// really reserved and marked
    Marked,
    /// arbitrary content; flag density in percent
    Any(u64, u32),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct P04 {
    n: usize,
    small: bool,
    key: El,
    m: El,
    cseed: u64,
    tab: Tab,
    /// challenges, faults, and whether the table is first replaced by another one
    rounds: Vec<(Vec<usize>, Vec<PF>, Option<(u64, u32)>)>,
}
pub struct C04;
type Ans = (Vec<Fr>, Vec<usize>, Fr);
fn respond(small_lib: bool, ch: Vec<usize>, key: Fr, h: Vec<Fr>, n: usize, ph: Phase) -> (Out<Ans>, PhaseInfo) {
    if small_lib {
        run(ph, move || small::response_1(P, &ch, key, &h, n))
    } else {
        run(ph, move || real::response_1(P, &ch, key, &h, n))
    }
}
fn gen_challenges(r: &mut Rng, n: usize) -> Vec<usize> {
    let top = 1usize << n;
    let len = match r.below(8) {
        0 => 0,
        1 => r.us(1, 3),
        2 => r.us(90, 150),
        3 => 100,
        _ => r.us(2, 80),
    };
    let style = r.below(5);
    (0..len)
        .map(|i| match style {
            0 => i % top,
            1 => top - 1 - i % top,
            2 if r.chance(1, 2) => *r.pick(&[0, top - 1, top / 2, 1]),
            _ => r.us(0, top - 1),
        })
        .collect()
}
impl Sim for C04 {
    type Plan = P04;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when an answer skipped an unoccupied slot or stopped at the required count, or a storage fault struck"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 30_000 } else { 400_000 }
    }
    fn gen(&self, r: &mut Rng, tier: Tier, index: u64) -> P04 {
        let n = match index {
            0 => 14,
            1 | 2 => 20,
            3 => 17,
            4 => 22,
            5 => 12,
            6 => 13,
            _ => gen_n(r, tier),
        };
        let k = r.us(1, 5);
        P04 {
            n,
            small: r.chance(1, 2),
            key: El::gen(r),
            m: El::gen(r),
            cseed: r.next(),
            tab: if r.chance(1, 2) && n < 14 { Tab::Marked } else { Tab::Any(r.next(), *r.pick(&[0u32, 5, 50, 95, 100])) },
            rounds: (0..k).map(|_| (gen_challenges(r, n), gen_faults(r, Family::Read), if n < 14 && r.chance(1, 3) { Some((r.next(), *r.pick(&[5u32, 50, 100]))) } else { None })).collect(),
        }
    }
    fn run(&self, p: &P04, ctx: &mut Ctx) -> Res {
        reset_world(4, 1, 0);
        let (key, m, c, h) = (p.key.fr(), p.m.fr(), dfc(p.cseed), hc(p.cseed));
        let any = |s: u64, d: u32| {
            let mut r = Rng::new(s);
            let mut t = vec![0; size(p.n)];
            for y in 0..1 << p.n {
                put_slot(&mut t, p.n, y, r.us(0, (1 << p.n) - 1), r.chance(d as u64, 100));
            }
            world().fs.put(P, &t);
        };
        match &p.tab {
            Tab::Marked => {
                let _ = reserve(p.n, Phase::clean());
                let _ = mark(p.n, key, m, c.clone(), Phase::clean());
                let pre = preimages(p.n, key, m, &c);
                if let Err(e) = table_ok(&file().unwrap_or_default(), p.n, &pre) {
                    return viol("wrong-table", e);
                }
            }
            Tab::Any(s, d) => any(*s, *d),
        }
        let want_r = if p.small { pospace_small::proof_of_space::pospace::RESPONSE_COUNT } else { pospace_real::proof_of_space::pospace::RESPONSE_COUNT };
        for (ch, faults, other) in &p.rounds {
            if let Some((s, d)) = other {
                any(*s, *d);
                ctx.probe("table-replaced");
            }
            let table = file().unwrap_or_default();
            let ch: Vec<usize> = ch.iter().map(|c| c % (1 << p.n)).collect();
            let mut xs = vec![];
            let mut idx = vec![];
            for (i, &y) in ch.iter().enumerate() {
                if xs.len() == want_r {
                    ctx.nontrivial = true;
                    ctx.probe("stopped-at-required-count");
                    break;
                }
                let (x, f) = slot(&table, p.n, y);
                if f {
                    xs.push(Fr::from(x as u64));
                    idx.push(i);
                } else {
                    ctx.nontrivial = true;
                }
            }
            let hx = chain(&xs, key, &h);
            let judge = |a: &Ans, what: &str| -> Res {
                if a.1 != idx {
                    return viol("wrong-indices", format!("{}: n={} answered indices {:?}, the occupied challenges are {:?}", what, p.n, a.1, idx));
                }
                if a.0 != xs {
                    return viol("untruthful-answer", format!("{}: n={} answered values differ from the stored ones", what, p.n));
                }
                if a.2 != hx {
                    return viol("wrong-hash", format!("{}: n={} published hash is not the chained hash of the answered values", what, p.n));
                }
                Ok(())
            };
            let unchanged = |what: &str| -> Res {
                if file().as_ref() != Some(&table) {
                    return viol("table-modified", format!("{}: answering changed the stored table", what));
                }
                Ok(())
            };
            let (o, i) = respond(p.small, ch.clone(), key, h.clone(), p.n, Phase::clean());
            match &o {
                Out::Ok(a) => judge(a, "without faults")?,
                o => return viol("clean-failure", format!("answering without any fault: {}", o.what())),
            }
            unchanged("without faults")?;
            ctx.sub += 1;
            if faults.is_empty() {
                continue;
            }
            let (o, j) = respond(p.small, ch.clone(), key, h.clone(), p.n, Phase::faulty(&scale(faults, i.ops)));
            if j.hard + j.soft > 0 {
                ctx.nontrivial = true;
            }
            match &o {
                Out::Ok(a) => judge(a, "with storage faults")?,
                Out::Panic(_) if j.hard + j.soft > 0 => ctx.probe("failed-visibly"),
                o => return viol("no-progress", format!("answering with storage faults: {}", o.what())),
            }
            unchanged("with storage faults")?;
            ctx.sub += 1;
        }
        Ok(())
    }
    fn shrink(&self, p: &P04) -> Vec<P04> {
        let mut out: Vec<P04> = shrink_list(&p.rounds).into_iter().filter(|s| !s.is_empty()).map(|rounds| P04 { rounds, ..p.clone() }).collect();
        for i in 0..p.rounds.len() {
            for f in shrink_list(&p.rounds[i].1) {
                let mut q = p.clone();
                q.rounds[i].1 = f;
                out.push(q);
            }
            for f in shrink_list(&p.rounds[i].0) {
                let mut q = p.clone();
                q.rounds[i].0 = f;
                out.push(q);
            }
        }
        for n in shrink_num(p.n, 3) {
            out.push(P04 { n, ..p.clone() });
        }
        out
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["proof_of_space::prover::response_1 (built with the shipped and with the small constants)", "proof_of_space::prover::{prepare_space, mark_space}", "mimc::mimc_hash::multi_mimc5_hash", "std::fs / std::io"]
    }
    fn stub(&self) -> Vec<&'static str> {
        vec!["disk (in-memory file system with fault injection)"]
    }
}
