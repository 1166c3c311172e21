//! C08, C09, C14, C16: sealing and unsealing on a faulty disk.
use crate::audit::{audit, How};
use crate::par::*;
use postorage_real::proof_of_storage::{postorage as drv, prover, verifier};
use serde::{Deserialize, Serialize};
use simrt::driver::{viol, Ctx, Res, Sim, Tier};
use simrt::plan::*;
use simrt::rng::mix2;
use simrt::{reset_world, run, world, FaultKind, Out, Phase, PhaseInfo, Rng};
use std::fs::OpenOptions;

pub const REAL: [&str; 3] = ["proof_of_storage prover/verifier/depend/common", "vde (rug/GMP), blake3", "std::fs / std::io"];
pub const STUB: [&str; 3] = ["disk (in-memory file system with fault injection)", "clock", "entropy source (getrandom)"];

// ---- C08 --------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum P08 {
    Steps { para: Para, data: Data, iv: u64, olds: (Old, Old), faults: (Vec<PF>, Vec<PF>) },
    Driver { para: Para, data: Data, entropy: u64, olds: (Old, Old, Old), faults: Vec<PF>, unseal: bool, save: bool },
    Program { para: Para, entropy: u64, olds: (Old, Old, Old), faults: Vec<PF>, unseal: bool, leaves: usize, parallel: usize },
    /// the repository's own parameter sets, at full block size; `full`: with all their data and rounds
    Preset { l: usize, entropy: u64, full: bool },
}
pub struct C08;

fn join(p: [&str; 4]) -> String {
    p.join("/")
}

fn c08_steps(para: &Para, data: &Data, iv: u64, olds: &(Old, Old), faults: &(Vec<PF>, Vec<PF>), ctx: &mut Ctx) -> Res {
    reset_world(3, 1_000_000, 1_600_000_000_000_000_000);
    let origin = data.bytes(para.data_l());
    let iv = iv_of(iv);
    put(O, &origin);
    olds.0.apply(S);
    olds.1.apply(U);
    let start = world().fs.clone();
    let check_u = |what: &str| -> Res {
        if get(O) != origin {
            return viol("origin-modified", format!("{}: the original file changed: {}", what, first_diff(&get(O), &origin)));
        }
        let u = get(U);
        if u != origin {
            return viol("wrong-data", format!("{}: unsealed data differs from the original: {}", what, first_diff(&u, &origin)));
        }
        Ok(())
    };
    let (o, i1) = pad_seal(para, &iv, Phase::clean());
    if !o.is_ok() {
        return viol("clean-failure", format!("pad and seal without any fault: {}", o.what()));
    }
    let (o, i2) = unseal_compress(para, &iv, Phase::clean());
    if !o.is_ok() {
        return viol("clean-failure", format!("unseal and compress without any fault: {}", o.what()));
    }
    check_u("without any fault")?;
    ctx.sub += 1;
    if faults.0.is_empty() && faults.1.is_empty() {
        return Ok(());
    }
    world().fs = start;
    let (o, j1) = pad_seal(para, &iv, Phase::faulty(&scale(&faults.0, i1.ops)));
    let mut done = judge(&o, &j1, "sealing", ctx)?;
    let mut hit = j1.hard + j1.soft;
    if done {
        let (o, j2) = unseal_compress(para, &iv, Phase::faulty(&scale(&faults.1, i2.ops)));
        done = judge(&o, &j2, "unsealing", ctx)?;
        hit += j2.hard + j2.soft;
    }
    if hit > 0 {
        ctx.nontrivial = true;
    }
    ctx.sub += 1;
    if done {
        return check_u("over a faulty disk, with success reported");
    }
    if get(O) != origin {
        return viol("origin-modified", "a failed run changed the original file");
    }
    // faults stop: start over on what is left
    let (o, _) = pad_seal(para, &iv, Phase::clean());
    if !o.is_ok() {
        return viol("no-recovery", format!("pad and seal after the faults stopped: {}", o.what()));
    }
    let (o, _) = unseal_compress(para, &iv, Phase::clean());
    if !o.is_ok() {
        return viol("no-recovery", format!("unseal and compress after the faults stopped: {}", o.what()));
    }
    check_u("starting over after a failed run")
}
/// Was it a success? A failure must be visible and must have a reason.
fn judge<T>(o: &Out<T>, i: &PhaseInfo, what: &str, ctx: &mut Ctx) -> Result<bool, simrt::driver::Viol> {
    match o {
        Out::Ok(_) => {
            ctx.probe(if i.hard > 0 { "succeeded-despite-faults" } else { "succeeded" });
            Ok(true)
        }
        Out::Panic(m) => {
            ctx.probe("failed-visibly");
            if i.hard == 0 {
                return viol("clean-failure", format!("{} failed although every storage operation worked ({} of them piecemeal): {}", what, i.soft, m));
            }
            Ok(false)
        }
        o => viol("no-progress", format!("{}: {}", what, o.what())),
    }
}

fn driver(para: &Para, save: bool, unseal: bool, ph: Phase) -> (Out<()>, PhaseInfo) {
    let q = para.real();
    run(ph, move || {
        let open = |p: &str| OpenOptions::new().read(true).write(true).append(true).create(true).open(p).unwrap();
        let (mut a, mut b) = (open("store/run"), open("store/stat"));
        drv::seal_and_unseal(&q, O, S, U, K, &mut a, save, unseal, &mut b);
    })
}

impl Sim for C08 {
    type Plan = P08;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when an injected fault struck sealing or unsealing, or the target paths held other data before"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 2500 } else { 60_000 }
    }
    fn gen(&self, r: &mut Rng, tier: Tier, index: u64) -> P08 {
        let none = (Old::none(), Old::none());
        let big = |blocks, units, mode_l, cnt_l, mode_s, cnt_s| P08::Steps {
            para: Para { blocks, units, pl: 64, seal_rounds: 1, vde_rounds: 1, mode_l, cnt_l, mode_s, cnt_s },
            data: Data { kind: 0, seed: index },
            iv: index,
            olds: none.clone(),
            faults: (vec![], vec![]),
        };
        match index {
            // more than 65536 blocks, more than 65536 units, deep long modes, full random mode
            0 => return big(65_540, 1, 0, 7, 0, 1),
            1 => return big(1, 65_540, 0, 1, 0, 7),
            2 => return big(700, 1, 3, 0, 2, 70),
            3 => return big(300, 1, 2, 70, 1, 3),
            4 => return big(300, 2, 0, 0, 0, 10),
            5 => return big(2, 300, 0, 0, 0, 40),
            6..=9 => return P08::Preset { l: [1, 4, 16, 64][index as usize - 6], entropy: r.next(), full: false },
            10 if tier == Tier::Thorough => return P08::Preset { l: 1, entropy: r.next(), full: true },
            _ => {}
        }
        let wide = r.chance(1, 100);
        let para = if wide { Para::gen_wide(r) } else if r.chance(1, 3) { Para::gen_small(r, 4) } else { Para::gen(r) };
        let (l, pl) = (para.data_l(), para.block_pl() * para.blocks);
        let f = |r: &mut Rng| {
            if wide || r.chance(1, 3) {
                gen_soft(r)
            } else {
                gen_faults(r, Family::Both)
            }
        };
        match r.below(10) {
            0 | 1 => P08::Driver {
                data: Data::gen(r),
                entropy: r.next(),
                olds: (Old::gen(r, pl), Old::gen(r, l), Old::gen(r, 400)),
                faults: f(r),
                unseal: r.chance(2, 3),
                save: r.chance(1, 2),
                para,
            },
            2 | 3 => {
                let unseal = r.chance(1, 2);
                let mut para = para;
                if !unseal {
                    para.blocks = para.blocks.max(10);
                    if para.pl > 64 {
                        para.units = 1;
                    }
                }
                P08::Program {
                    entropy: r.next(),
                    olds: (Old::gen(r, pl), Old::gen(r, l), Old::gen(r, 400)),
                    faults: f(r),
                    unseal,
                    leaves: r.us(1, para.blocks),
                    parallel: r.us(0, 4),
                    para,
                }
            }
            _ => P08::Steps {
                data: Data::gen(r),
                iv: r.next(),
                olds: (Old::gen(r, pl), Old::gen(r, l)),
                faults: if r.chance(1, 8) { (vec![], vec![]) } else { (f(r), f(r)) },
                para,
            },
        }
    }
    fn run(&self, p: &P08, ctx: &mut Ctx) -> Res {
        match p {
            P08::Steps { para, data, iv, olds, faults } => {
                if olds.0.len.is_some() || olds.1.len.is_some() || para.blocks > 256 || para.units > 256 {
                    ctx.nontrivial = true;
                }
                c08_steps(para, data, *iv, olds, faults, ctx)
            }
            P08::Driver { para, data, entropy, olds, faults, unseal, save } => {
                reset_world(*entropy, 1_000_000, 1_600_000_000_000_000_000);
                let origin = data.bytes(para.data_l());
                put(O, &origin);
                olds.0.apply(S);
                olds.1.apply(U);
                olds.2.apply(K);
                put("store/run", b"older run\n");
                put("store/stat", b"older stat\n");
                ctx.nontrivial = true;
                let start = world().fs.clone();
                let outcome = |what: &str| -> Res {
                    if get(O) != origin {
                        return viol("origin-modified", format!("{}: the original file changed: {}", what, first_diff(&get(O), &origin)));
                    }
                    if !get("store/run").starts_with(b"older run\n") || !get("store/stat").starts_with(b"older stat\n") {
                        return viol("log-altered", format!("{}: earlier log records were altered", what));
                    }
                    if !*unseal {
                        // unseal later, in another process, from the saved public data
                        let q = para.real();
                        let (o, _) = run(Phase::clean(), move || {
                            let (key, iv) = drv::load_data(K);
                            prover::unseal(&q, S, &key, &iv);
                            prover::copy_and_compress(S, U, q.data_l, q.unit_l, q.unit_pl);
                        });
                        if !o.is_ok() {
                            return viol("clean-failure", format!("{}: unsealing with the saved public data: {}", what, o.what()));
                        }
                    }
                    if get(U) != origin {
                        return viol("wrong-data", format!("{}: unsealed data differs from the original: {}", what, first_diff(&get(U), &origin)));
                    }
                    Ok(())
                };
                let (o, i) = driver(para, *save, *unseal, Phase::clean());
                if !o.is_ok() {
                    return viol("clean-failure", format!("the driver failed without any fault: {}", o.what()));
                }
                outcome("driver without any fault")?;
                ctx.sub += 1;
                if faults.is_empty() {
                    return Ok(());
                }
                world().fs = start;
                let (o, j) = driver(para, *save, *unseal, Phase::faulty(&scale(faults, i.ops)));
                ctx.sub += 1;
                if judge(&o, &j, "the driver", ctx)? {
                    return outcome("driver over a faulty disk, with success reported");
                }
                let (o, _) = driver(para, *save, *unseal, Phase::clean());
                if !o.is_ok() {
                    return viol("no-recovery", format!("the driver after the faults stopped: {}", o.what()));
                }
                outcome("driver run again after a failed run")
            }
            P08::Preset { l, entropy, full } => {
                reset_world(*entropy, 1_000_000, 1_600_000_000_000_000_000);
                let mut q = postorage_real::proof_of_storage::common::gen_posdata(*l);
                if !*full {
                    // two whole blocks, and what the last one lacks or has too much
                    q.vde_rounds = 1;
                    q.data_l = q.data_l % q.block_l.max(1) + 2 * q.block_l;
                }
                let origin = Data { kind: 0, seed: *entropy }.bytes(q.data_l);
                put(O, &origin);
                ctx.nontrivial = true;
                ctx.probe("preset");
                let (o, _) = run(Phase::clean(), move || {
                    let (key, iv) = drv::prepare_params(q.unit_pl);
                    prover::copy_and_pad(O, S, q.data_l, q.unit_l);
                    prover::seal(&q, S, &key, &iv);
                    prover::unseal(&q, S, &key, &iv);
                    prover::copy_and_compress(S, U, q.data_l, q.unit_l, q.unit_pl);
                });
                if !o.is_ok() {
                    return viol("clean-failure", format!("sealing and unsealing with the preset {}: {}", l, o.what()));
                }
                if get(O) != origin || get(U) != origin {
                    return viol("wrong-data", format!("preset {}: {}", l, first_diff(&get(U), &origin)));
                }
                ctx.sub += 1;
                Ok(())
            }
            P08::Program { para, entropy, olds, faults, unseal, leaves, parallel } => {
                let (po, ps, pu, pk) = (join(drv::ORIGIN_DATA_DIR), join(drv::SEALED_DATA_DIR), join(drv::UNSEALED_DATA_DIR), join(drv::TARGET_DIR));
                reset_world(*entropy, 1_000_000, 1_600_000_000_000_000_000);
                olds.0.apply(&ps);
                olds.1.apply(&pu);
                olds.2.apply(&pk);
                ctx.nontrivial = true;
                let start = world().fs.clone();
                let seal = |ph: Phase| {
                    let mut q = para.real();
                    q.leaves_to_prove_count = *leaves;
                    let (u, par) = (*unseal, *parallel);
                    run(ph, move || drv::test_postorage(q, true, true, u, u, !u, par))
                };
                let outcome = |what: &str| -> Res {
                    let origin = get(&po);
                    if origin.len() != para.data_l() {
                        return viol("wrong-data", format!("{}: the created original has {} bytes instead of {}", what, origin.len(), para.data_l()));
                    }
                    if *unseal {
                        if get(&pu) != origin {
                            return viol("wrong-data", format!("{}: unsealed data differs from the original: {}", what, first_diff(&get(&pu), &origin)));
                        }
                    } else {
                        let mut q = para.real();
                        let par = *parallel;
                        q.leaves_to_prove_count = 1;
                        // a later process unseals single blocks only
                        let (o, _) = run(Phase::clean(), move || drv::test_postorage(q, false, false, false, false, true, par));
                        if !o.is_ok() {
                            return viol("clean-failure", format!("{}: unsealing single blocks in a later process: {}", what, o.what()));
                        }
                    }
                    Ok(())
                };
                let (o, i) = seal(Phase::clean());
                if !o.is_ok() {
                    return viol("clean-failure", format!("the sample program failed without any fault: {}", o.what()));
                }
                outcome("sample program without any fault")?;
                ctx.sub += 1;
                if faults.is_empty() {
                    return Ok(());
                }
                world().fs = start;
                let (o, j) = seal(Phase::faulty(&scale(faults, i.ops)));
                ctx.sub += 1;
                if judge(&o, &j, "the sample program", ctx)? {
                    return outcome("sample program over a faulty disk, with success reported");
                }
                let (o, _) = seal(Phase::clean());
                if !o.is_ok() {
                    return viol("no-recovery", format!("the sample program after the faults stopped: {}", o.what()));
                }
                outcome("sample program run again after a failed run")
            }
        }
    }
    fn shrink(&self, p: &P08) -> Vec<P08> {
        let mut out = vec![];
        match p {
            P08::Steps { para, data, iv, olds, faults } => {
                let mk = |para: &Para, olds: &(Old, Old), faults: &(Vec<PF>, Vec<PF>)| P08::Steps { para: para.clone(), data: data.clone(), iv: *iv, olds: olds.clone(), faults: faults.clone() };
                for f in shrink_list(&faults.0) {
                    out.push(mk(para, olds, &(f, faults.1.clone())));
                }
                for f in shrink_list(&faults.1) {
                    out.push(mk(para, olds, &(faults.0.clone(), f)));
                }
                if olds.0.len.is_some() {
                    out.push(mk(para, &(Old::none(), olds.1.clone()), faults));
                }
                if olds.1.len.is_some() {
                    out.push(mk(para, &(olds.0.clone(), Old::none()), faults));
                }
                for q in para.shrinks() {
                    out.push(mk(&q, olds, faults));
                }
            }
            P08::Driver { para, data, entropy, olds, faults, unseal, save } => {
                for f in shrink_list(faults) {
                    out.push(P08::Driver { para: para.clone(), data: data.clone(), entropy: *entropy, olds: olds.clone(), faults: f, unseal: *unseal, save: *save });
                }
                for q in para.shrinks() {
                    out.push(P08::Driver { para: q, data: data.clone(), entropy: *entropy, olds: olds.clone(), faults: faults.clone(), unseal: *unseal, save: *save });
                }
            }
            P08::Preset { .. } => {}
            P08::Program { para, entropy, olds, faults, unseal, leaves, parallel } => {
                for f in shrink_list(faults) {
                    out.push(P08::Program { para: para.clone(), entropy: *entropy, olds: olds.clone(), faults: f, unseal: *unseal, leaves: *leaves, parallel: *parallel });
                }
                for q in para.shrinks() {
                    if q.blocks >= if *unseal { 1 } else { 10 } {
                        out.push(P08::Program { leaves: (*leaves).min(q.blocks), para: q, entropy: *entropy, olds: olds.clone(), faults: faults.clone(), unseal: *unseal, parallel: *parallel });
                    }
                }
            }
        }
        out
    }
    fn real(&self) -> Vec<&'static str> {
        let mut v = REAL.to_vec();
        v.push("postorage drivers seal_and_unseal, test_postorage; threadpool");
        v
    }
    fn stub(&self) -> Vec<&'static str> {
        STUB.to_vec()
    }
}

// ---- C09 --------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Query {
    Single(u32),
    Set(Vec<u32>),
    /// byte range, begin and length as parts per million of the sealed file
    Range(u32, u32),
    /// a range of a few bytes around block boundary number .0 (offset .1, length .2)
    Near(u32, i32, u32),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct P09 {
    para: Para,
    data: Data,
    iv: u64,
    queries: Vec<(Query, Vec<PF>)>,
}
pub struct C09;
type Got = (Vec<usize>, Vec<Block>, bool);

/// The real preparation and unsealing of a query, as one process.
fn ask(p: &Para, iv: &[u8], q: &Query, compare: bool, ph: Phase) -> (Out<Got>, PhaseInfo, Vec<usize>) {
    let (r, key, iv) = (p.real(), p.key(), iv.to_vec());
    match q {
        Query::Single(_) | Query::Set(_) => {
            let idx: Vec<usize> = match q {
                Query::Single(i) => vec![*i as usize % p.blocks],
                Query::Set(v) => v.iter().map(|&i| i as usize % p.blocks).collect(),
                _ => vec![],
            };
            let want = idx.clone();
            let (o, i) = run(ph, move || {
                let (mut b, mut ids, mut deps) = (vec![], vec![], vec![]);
                for &i in &idx {
                    let (x, y, z) = verifier::single_unseal_prepare(S, i, &r);
                    b.push(x);
                    ids.push(y);
                    deps.push(z);
                }
                let got = verifier::batch_unseal(&r, &idx, &mut b.clone(), &ids, &deps, &key, &iv);
                if compare {
                    verifier::batch_unseal_and_verify(&r, O, &idx, &b, &ids, &deps, &key, &iv);
                    for (k, g) in got.iter().enumerate() {
                        verifier::batch_verify(O, idx[k], g, r.block_l, r.unit_l);
                    }
                }
                (idx, got, true)
            });
            (o, i, want)
        }
        Query::Range(..) | Query::Near(..) => {
            let total = p.blocks * p.block_pl();
            let (b, e) = match q {
                Query::Range(b, l) => {
                    let b = total as u64 * *b as u64 / 1_000_000;
                    let l = total as u64 * *l as u64 / 1_000_000;
                    (b as usize, (b + l) as usize)
                }
                Query::Near(k, o, l) => {
                    let at = (*k as usize % p.blocks) * p.block_pl();
                    let b = (at as i64 + *o as i64).max(0) as usize;
                    (b, b + *l as usize)
                }
                _ => (0, 0),
            };
            let b = b.min(total - 1);
            let e = e.max(b).min(total);
            let want: Vec<usize> = (0..p.blocks).filter(|&i| i * p.block_pl() < e && (i + 1) * p.block_pl() > b && b < e).collect();
            let (o, i) = run(ph, move || {
                let (idx, bl, ids, deps) = verifier::batch_unseal_prepare(S, b, e, &r);
                let got = verifier::batch_unseal(&r, &idx, &mut bl.clone(), &ids, &deps, &key, &iv);
                if compare {
                    verifier::batch_unseal_and_verify(&r, O, &idx, &bl, &ids, &deps, &key, &iv);
                }
                (idx, got, true)
            });
            (o, i, want)
        }
    }
}

impl Sim for C09 {
    type Plan = P09;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when several different queries ran on one sealed file, or a read fault struck a query"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 2500 } else { 60_000 }
    }
    fn gen(&self, r: &mut Rng, tier: Tier, index: u64) -> P09 {
        let wide = r.chance(1, 80);
        let mut para = if wide { Para::gen_wide(r) } else { Para::gen(r) };
        if index == 0 {
            para = Para { blocks: 65_540, units: 1, pl: 64, seal_rounds: 1, vde_rounds: 1, mode_l: 0, cnt_l: 7, mode_s: 0, cnt_s: 1 };
        }
        if index == 1 {
            para = Para { blocks: 680, units: 1, pl: 64, seal_rounds: 1, vde_rounds: 1, mode_l: 3, cnt_l: 0, mode_s: 0, cnt_s: 1 };
        }
        let k = r.us(1, if tier == Tier::Quick { 6 } else { 12 });
        let big = para.blocks as u32;
        let queries = (0..k)
            .map(|_| {
                (
                    match r.below(9) {
                        0 | 1 => Query::Single(r.below(big as u64) as u32),
                        2 => Query::Single(if r.chance(1, 2) { 0 } else { big - 1 }),
                        3 | 4 => Query::Set((0..r.us(0, 6)).map(|_| r.below(big as u64) as u32).collect()),
                        5 | 6 => Query::Range(r.below(1_000_000) as u32, r.below(if index == 0 { 200 } else { 1_000_001 }) as u32),
                        7 => Query::Near(r.below(big as u64) as u32, r.below(5) as i32 - 2, r.below(4) as u32),
                        _ => {
                            if index == 0 {
                                Query::Range(999_900, 100)
                            } else {
                                Query::Range(0, 1_000_000)
                            }
                        }
                    },
                    match r.below(4) {
                        _ if wide => gen_soft(r),
                        0 => vec![],
                        1 => gen_soft(r),
                        _ => gen_faults(r, Family::Read),
                    },
                )
            })
            .collect();
        P09 { para, data: Data::gen(r), iv: r.next(), queries }
    }
    fn run(&self, p: &P09, ctx: &mut Ctx) -> Res {
        reset_world(3, 1_000_000, 1_600_000_000_000_000_000);
        let para = &p.para;
        let origin = p.data.bytes(para.data_l());
        let iv = iv_of(p.iv);
        put(O, &origin);
        let (o, _) = pad_seal(para, &iv, Phase::clean());
        if !o.is_ok() {
            return viol("clean-failure", format!("pad and seal: {}", o.what()));
        }
        let sealed = get(S);
        if p.queries.len() > 1 {
            ctx.nontrivial = true;
        }
        for (q, faults) in &p.queries {
            let mut ops = 0;
            // with faults, once without the comparison against the original, which would hide
            // that other data was returned, and once with it
            for (faulty, compare) in [(false, true), (false, false), (true, false), (true, true)] {
                if faulty && faults.is_empty() {
                    continue;
                }
                let ph = if faulty { Phase::faulty(&scale(faults, ops)) } else { Phase::clean() };
                let (o, i, want) = ask(para, &iv, q, compare, ph);
                if !faulty {
                    ops = i.ops;
                }
                ctx.sub += 1;
                if i.hard + i.soft > 0 {
                    ctx.nontrivial = true;
                }
                if get(S) != sealed {
                    return viol("sealed-modified", format!("query {:?} changed the sealed file: {}", q, first_diff(&get(S), &sealed)));
                }
                if get(O) != origin {
                    return viol("origin-modified", format!("query {:?} changed the original file", q));
                }
                match o {
                    Out::Ok((idx, got, _)) => {
                        ctx.probe(if i.hard > 0 { "answered-despite-faults" } else { "answered" });
                        if idx != want {
                            return viol("wrong-blocks", format!("query {:?} covered blocks {:?} instead of {:?}", q, idx, want));
                        }
                        if got.len() != want.len() {
                            return viol("wrong-blocks", format!("query {:?} gave {} blocks instead of {}", q, got.len(), want.len()));
                        }
                        for (k, b) in got.iter().enumerate() {
                            if *b != want_block(para, &origin, want[k]) {
                                return viol("wrong-data", format!("query {:?}: block {} differs from the original block", q, want[k]));
                            }
                        }
                    }
                    Out::Panic(m) => {
                        ctx.probe("failed-visibly");
                        if i.hard == 0 {
                            return viol("clean-failure", format!("query {:?} (blocks {:?}) failed although every storage operation worked: {}", q, want, m));
                        }
                    }
                    o => return viol("no-progress", format!("query {:?}: {}", q, o.what())),
                }
            }
        }
        let (o, _) = unseal_compress(para, &iv, Phase::clean());
        if !o.is_ok() {
            return viol("clean-failure", format!("full unseal after the queries: {}", o.what()));
        }
        if get(U) != origin {
            return viol("wrong-data", format!("full unseal after the queries: {}", first_diff(&get(U), &origin)));
        }
        Ok(())
    }
    fn shrink(&self, p: &P09) -> Vec<P09> {
        let mut out: Vec<P09> = shrink_list(&p.queries).into_iter().map(|queries| P09 { queries, ..p.clone() }).collect();
        for i in 0..p.queries.len() {
            for f in shrink_list(&p.queries[i].1) {
                let mut q = p.clone();
                q.queries[i].1 = f;
                out.push(q);
            }
            if let Query::Set(v) = &p.queries[i].0 {
                for f in shrink_list(v) {
                    let mut q = p.clone();
                    q.queries[i].0 = Query::Set(f);
                    out.push(q);
                }
            }
        }
        for q in p.para.shrinks() {
            out.push(P09 { para: q, ..p.clone() });
        }
        out
    }
    fn real(&self) -> Vec<&'static str> {
        REAL.to_vec()
    }
    fn stub(&self) -> Vec<&'static str> {
        STUB.to_vec()
    }
}

// ---- C14 --------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Attempt {
    /// seal under another iv / other data of the same shape (an earlier life of the file)
    other: Option<u64>,
    faults: Vec<PF>,
    /// power loss afterwards: permille of not yet durable operations that survive, and a seed
    power: Option<(u32, u64)>,
    /// clock of this attempt
    mono: u64,
    wall: i64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct P14 {
    para: Para,
    data: Data,
    iv: u64,
    old: Old,
    entropy: u64,
    attempts: Vec<Attempt>,
}
pub struct C14;
impl Sim for C14 {
    type Plan = P14;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when at least one attempt was cut short by a crash, power loss or storage fault"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 3000 } else { 80_000 }
    }
    fn gen(&self, r: &mut Rng, tier: Tier, _index: u64) -> P14 {
        let para = if r.chance(1, 2) { Para::gen_small(r, 5) } else { Para::gen(r) };
        let k = r.us(1, if tier == Tier::Quick { 4 } else { 8 });
        let attempts = (0..k)
            .map(|_| Attempt {
                other: if r.chance(1, 4) { Some(r.next()) } else { None },
                faults: match r.below(6) {
                    0 => gen_faults(r, Family::Both),
                    1 => gen_soft(r),
                    2 => vec![],
                    _ => vec![PF { pos: gen_pos(r), kind: FaultKind::Crash(r.below(1001) as u32) }],
                },
                power: if r.chance(1, 2) { Some((*r.pick(&[0, 300, 700, 950]), r.next())) } else { None },
                mono: r.range(1, 1 << 50),
                wall: r.next() as i64 >> 2,
            })
            .collect();
        P14 { old: Old::gen(r, para.block_pl() * para.blocks), para, data: Data::gen(r), iv: r.next(), entropy: r.next(), attempts }
    }
    fn run(&self, p: &P14, ctx: &mut Ctx) -> Res {
        let para = &p.para;
        let origin = p.data.bytes(para.data_l());
        let iv = iv_of(p.iv);
        // the uninterrupted sealing everything is compared with
        reset_world(mix2(p.entropy, 1), 1, 0);
        put(O, &origin);
        let (o, i) = pad_seal(para, &iv, Phase::clean());
        let ids = match o {
            Out::Ok(x) => x,
            o => return viol("clean-failure", format!("pad and seal: {}", o.what())),
        };
        let sealed = get(S);
        let check_ids = |ids: &Vec<Vec<u8>>, s: &[u8]| -> Res {
            if s.len() != para.blocks * para.block_pl() {
                return viol("wrong-length", format!("the sealed file has {} bytes instead of {}", s.len(), para.blocks * para.block_pl()));
            }
            if ids.len() != para.blocks {
                return viol("wrong-id", format!("{} identifiers for {} blocks", ids.len(), para.blocks));
            }
            for k in 0..para.blocks {
                if ids[k] != id_of(s, para, k) {
                    return viol("wrong-id", format!("the identifier of block {} is not the hash of the stored sealed block", k));
                }
            }
            Ok(())
        };
        check_ids(&ids, &sealed)?;
        let ops = i.ops;
        ctx.absorb();
        reset_world(mix2(p.entropy, 2), 7, 5);
        put(O, &origin);
        p.old.apply(S);
        for (k, a) in p.attempts.iter().enumerate() {
            world().mono = world().mono.max(a.mono);
            world().mono0 = world().mono;
            world().wall = a.wall;
            world().fs.start_tracking();
            let (iv2, other) = match a.other {
                Some(s) => (iv_of(s), true),
                None => (iv.clone(), false),
            };
            if other {
                put(O, &Data { kind: 0, seed: a.other.unwrap() }.bytes(para.data_l()));
            }
            let before = get(O);
            let (o, j) = pad_seal(para, &iv2, Phase::faulty(&scale(&a.faults, ops)));
            ctx.sub += 1;
            if get(O) != before {
                return viol("origin-modified", format!("attempt {} changed the original file", k));
            }
            match o {
                Out::Ok(x) => {
                    if !other {
                        check_ids(&x, &get(S))?;
                        if get(S) != sealed || x != ids {
                            return viol("not-reproducible", format!("attempt {} reported success with another sealed file: {}", k, first_diff(&get(S), &sealed)));
                        }
                    }
                    ctx.probe("completed");
                }
                Out::Crashed => {
                    ctx.nontrivial = true;
                    ctx.probe("crashed");
                }
                Out::Panic(m) => {
                    ctx.nontrivial = true;
                    ctx.probe("failed-visibly");
                    if j.hard == 0 {
                        return viol("clean-failure", format!("attempt {} failed although every storage operation worked: {}", k, m));
                    }
                }
                o => return viol("no-progress", o.what()),
            }
            if let Some((keep, s)) = a.power {
                let lost = world().fs.power_loss(&mut Rng::new(s), keep);
                if lost > 0 {
                    ctx.nontrivial = true;
                }
                ctx.fault("power_loss");
                if get(O) != before {
                    return viol("origin-modified", format!("the original file changed in the power loss after attempt {}", k));
                }
            }
            world().fs.stop_tracking();
            if other {
                put(O, &origin);
            }
        }
        let (o, _) = pad_seal(para, &iv, Phase::clean());
        match o {
            Out::Ok(x) => {
                check_ids(&x, &get(S))?;
                if get(S) != sealed || x != ids {
                    return viol("not-reproducible", format!("sealing again after {} attempts gave another sealed file: {}", p.attempts.len(), first_diff(&get(S), &sealed)));
                }
            }
            o => return viol("no-recovery", format!("pad and seal after {} attempts: {}", p.attempts.len(), o.what())),
        }
        ctx.sub += 1;
        // and it is a good one
        let (o, _) = unseal_compress(para, &iv, Phase::clean());
        if !o.is_ok() || get(U) != origin {
            return viol("wrong-data", "the sealed file does not unseal to the original");
        }
        Ok(())
    }
    fn shrink(&self, p: &P14) -> Vec<P14> {
        let mut out: Vec<P14> = shrink_list(&p.attempts).into_iter().map(|attempts| P14 { attempts, ..p.clone() }).collect();
        for i in 0..p.attempts.len() {
            for f in shrink_list(&p.attempts[i].faults) {
                let mut q = p.clone();
                q.attempts[i].faults = f;
                out.push(q);
            }
            if p.attempts[i].power.is_some() {
                let mut q = p.clone();
                q.attempts[i].power = None;
                out.push(q);
            }
            if p.attempts[i].other.is_some() {
                let mut q = p.clone();
                q.attempts[i].other = None;
                out.push(q);
            }
        }
        if p.old.len.is_some() {
            out.push(P14 { old: Old::none(), ..p.clone() });
        }
        for q in p.para.shrinks() {
            out.push(P14 { para: q, ..p.clone() });
        }
        out
    }
    fn real(&self) -> Vec<&'static str> {
        REAL.to_vec()
    }
    fn stub(&self) -> Vec<&'static str> {
        STUB.to_vec()
    }
}

// ---- C16 --------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Change {
    Iv(u64),
    /// flip in one bit of the iv
    IvBit(u32),
    /// byte position (ppm) and non-zero xor
    Byte(u32, u8),
    First(u8),
    Last(u8),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct P16 {
    para: Para,
    data: Data,
    iv: u64,
    change: Change,
    /// stale blocks left from the other sealing, which blocks are audited, how
    stale: Vec<u32>,
    challenges: Vec<u32>,
    how: How,
    entropy: u64,
}
pub struct C16;
impl Sim for C16 {
    type Plan = P16;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when two different sealings were compared and an audit touched a stale block"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 3000 } else { 80_000 }
    }
    fn gen(&self, r: &mut Rng, _tier: Tier, index: u64) -> P16 {
        let mut para = Para::gen(r);
        if index < 12 {
            // many blocks in every mode, with few and many dependencies; many units
            let k = index as usize;
            (para.blocks, para.units) = if k < 8 { (r.us(258, 530), 1) } else { (r.us(2, 3), r.us(258, 530)) };
            (para.pl, para.seal_rounds, para.vde_rounds) = (64, 1, 1);
            (para.mode_l, para.cnt_l) = (k % 4, if k % 8 < 4 { 1 } else { 3 });
            (para.mode_s, para.cnt_s) = (k % 3, r.us(0, 2));
        }
        let b = para.blocks as u64;
        P16 {
            data: Data::gen(r),
            iv: r.next(),
            change: match r.below(6) {
                0..=2 if index < 12 => Change::First(r.range(1, 255) as u8),
                0 => Change::Iv(r.next()),
                1 => Change::IvBit(r.below(1_000_000) as u32),
                2 => Change::First(r.range(1, 255) as u8),
                3 => Change::Last(r.range(1, 255) as u8),
                _ => Change::Byte(r.below(1_000_000) as u32, 1 << r.below(8)),
            },
            stale: (0..r.us(1, 3)).map(|_| r.below(b) as u32).collect(),
            challenges: (0..r.us(1, 3)).map(|_| r.below(b) as u32).collect(),
            how: How::gen(r),
            entropy: r.next(),
            para,
        }
    }
    fn run(&self, p: &P16, ctx: &mut Ctx) -> Res {
        let para = &p.para;
        let origin = p.data.bytes(para.data_l());
        let mut origin2 = origin.clone();
        let iv = iv_of(p.iv);
        let mut iv2 = iv.clone();
        let n = origin.len();
        // first block that must differ
        let from = match &p.change {
            Change::Iv(s) => {
                iv2 = iv_of(*s);
                0
            }
            Change::IvBit(k) => {
                if !iv2.is_empty() {
                    let bit = iv2.len() * 8 * *k as usize / 1_000_000;
                    iv2[bit / 8] ^= 1 << (bit % 8);
                }
                0
            }
            Change::Byte(k, x) => {
                let i = n * *k as usize / 1_000_000;
                origin2[i] ^= x;
                i / para.block_l()
            }
            Change::First(x) => {
                origin2[0] ^= x;
                0
            }
            Change::Last(x) => {
                origin2[n - 1] ^= x;
                para.blocks - 1
            }
        };
        if iv2 == iv && origin2 == origin {
            return Ok(());
        }
        let one = |o: &[u8], iv: &[u8], e: u64| -> Result<(Vec<Vec<u8>>, Vec<u8>), simrt::driver::Viol> {
            reset_world(e, 1, 0);
            put(O, o);
            match pad_seal(para, iv, Phase::clean()).0 {
                Out::Ok(ids) => Ok((ids, get(S))),
                o => viol("clean-failure", format!("pad and seal: {}", o.what())),
            }
        };
        let (_, s2) = one(&origin2, &iv2, mix2(p.entropy, 1))?;
        ctx.absorb();
        let (ids, s1) = one(&origin, &iv, mix2(p.entropy, 2))?;
        let bp = para.block_pl();
        if s1.len() != bp * para.blocks || s2.len() != s1.len() {
            return viol("wrong-length", "a sealed file has the wrong length");
        }
        for b in 0..para.blocks {
            let same = s1[b * bp..(b + 1) * bp] == s2[b * bp..(b + 1) * bp];
            ctx.sub += 1;
            if b < from && !same {
                return viol("earlier-block-changed", format!("changing original block {} changed sealed block {}", from, b));
            }
            if b >= from && same {
                return viol("not-bound", format!("{:?} (block {}) left sealed block {} as it was", p.change, from, b));
            }
        }
        // a prover that kept some blocks of the other sealing
        let mut mixed = s1.clone();
        let mut stale: Vec<usize> = p.stale.iter().map(|&k| k as usize % para.blocks).collect();
        stale.retain(|&b| b >= from);
        for &b in &stale {
            mixed[b * bp..(b + 1) * bp].copy_from_slice(&s2[b * bp..(b + 1) * bp]);
        }
        let mut ch: Vec<usize> = p.challenges.iter().map(|&k| k as usize % para.blocks).collect();
        ch.sort();
        ch.dedup();
        put(S, &mixed);
        // with stale blocks the prover follows its own (mixed) file
        let hit: Vec<usize> = stale.iter().copied().filter(|b| ch.iter().any(|&c| touched(para, &mixed, c).contains(b) || c == *b)).collect();
        let a = audit(para, &origin, &iv, &ids, &ch, &p.how, &[], None);
        if hit.is_empty() {
            ctx.probe("audit-away-from-stale-blocks");
            if !a.accepted() {
                return viol("good-audit-rejected", format!("an audit of {:?} that touches no stale block ({:?}) was rejected: {}", ch, stale, a.why));
            }
        } else {
            ctx.nontrivial = true;
            ctx.probe("audit-of-stale-blocks");
            // stale blocks all of a piece are consistent in themselves: only the commitment tells
            // them apart, unless the block's own data or iv differ
            let is = |s: &[u8], b: usize| mixed[b * bp..(b + 1) * bp] == s[b * bp..(b + 1) * bp];
            let bl = para.block_l();
            let mut must = false;
            for &c in &ch {
                let mut t = touched(para, &mixed, c);
                t.push(c);
                let (old, new) = (t.iter().all(|&b| is(&s2, b)), t.iter().all(|&b| is(&s1, b)));
                let differs = origin[c * bl..(c + 1) * bl] != origin2[c * bl..(c + 1) * bl] || (c == 0 && iv != iv2);
                must |= !new && (!old || differs);
            }
            if a.accepted() || (must && a.content == Some(true)) {
                return viol("stale-accepted", format!("an audit of {:?} accepted although it touches stale blocks {:?}", ch, hit));
            }
            if hit.iter().any(|b| ch.contains(b)) && a.path == Some(true) {
                return viol("stale-accepted", format!("the commitment check of {:?} accepted stale blocks {:?}", ch, hit));
            }
            if a.stuck {
                return viol("no-progress", a.why);
            }
        }
        Ok(())
    }
    fn shrink(&self, p: &P16) -> Vec<P16> {
        let mut out = vec![];
        for s in shrink_list(&p.stale) {
            out.push(P16 { stale: s, ..p.clone() });
        }
        for s in shrink_list(&p.challenges) {
            if !s.is_empty() {
                out.push(P16 { challenges: s, ..p.clone() });
            }
        }
        for q in p.para.shrinks() {
            out.push(P16 { para: q, ..p.clone() });
        }
        out
    }
    fn real(&self) -> Vec<&'static str> {
        let mut v = REAL.to_vec();
        v.push("merkle_tree (rs_merkle), threadpool");
        v
    }
    fn stub(&self) -> Vec<&'static str> {
        let mut v = STUB.to_vec();
        v.push("network between prover and verifier (in-process messages)");
        v
    }
}
