//! C07: a Byzantine prover node. It has the real proving key, the real circuit (as the constraint
//! system the code under test synthesises) and full freedom over every wire; seeded search looks for
//! an assignment that satisfies the constraints while the public statement is false. A satisfying one
//! is turned into a real Groth16 proof and handed to the real verifier; acceptance is the violation.
use crate::net::*;
use crate::refm::*;
use super::session::{answer2, dfc, hc, known, setup, verify, Answer, Stmt, BIG, N, R};
use ark_bls12_381::{Bls12_381, Fr};
use ark_ff::{BigInteger, Field, FpParameters, One, PrimeField, Zero};
use ark_groth16::{create_random_proof, prepare_verifying_key, Proof};
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem, ConstraintSystemRef, OptimizationGoal, SynthesisError};
use super::pos::circuit::pospace_circuit::PospaceDemo;
use serde::{Deserialize, Serialize};
use simrt::driver::{viol, Ctx, Res, Sim, Tier};
use simrt::plan::*;
use simrt::rng::mix2;
use simrt::{reset_world, run, Out, Phase, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

struct Circ {
    net: Net,
    /// the variable holding x_i, and whether the key was added to it
    x: Vec<Option<(usize, bool)>>,
    y: Vec<Option<usize>>,
    /// free wires that carry bit k of y_i
    bit: BTreeMap<usize, (usize, usize)>,
    groups: BTreeMap<(usize, usize), Vec<usize>>,
    /// free wires of no known role
    loose: Vec<usize>,
}

impl std::ops::Deref for Circ {
    type Target = Net;
    fn deref(&self) -> &Net {
        &self.net
    }
}

/// Synthesise the real circuit with the given inputs; the honest prover's own wire values.
fn synth(key: Fr, m: Fr, xs: &[Fr], yn: &[Fr], h: Fr) -> Option<ConstraintSystemRef<Fr>> {
    let cs = ConstraintSystem::<Fr>::new_ref();
    cs.set_optimization_goal(OptimizationGoal::Constraints);
    let (d, c) = (dfc(), hc());
    let x: Vec<Option<Fr>> = xs.iter().map(|x| Some(*x)).collect();
    let y: Vec<Option<Fr>> = yn.iter().map(|x| Some(*x)).collect();
    let cs2 = cs.clone();
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        PospaceDemo { key: Some(key), x: &x, m: Some(m), df_constants: &d, yn: &y, x_hash: Some(h), hash_constants: &c }.generate_constraints(cs2)
    }))
    .ok()?
    .ok()?;
    Some(cs)
}
fn honest(key: Fr, m: Fr, xs: &[Fr]) -> Option<Vec<Fr>> {
    let yn: Vec<Fr> = xs.iter().map(|&x| Fr::from(low(df(x, key, m, &dfc()), N) as u64)).collect();
    synth(key, m, xs, &yn, chain(xs, key, &hc())).map(|c| wires(&c))
}
fn ybit(y: Fr, k: usize) -> bool {
    k < 256 && y.into_repr().get_bit(k)
}

static CIRC: OnceLock<Result<Circ, String>> = OnceLock::new();
fn circ() -> Result<&'static Circ, String> {
    CIRC.get_or_init(learn).as_ref().map_err(|e| e.clone())
}
fn learn() -> Result<Circ, String> {
    let mut r = Rng::new(0xb12);
    let mut samples = vec![];
    for _ in 0..48 {
        let f = |r: &mut Rng| El::Rand(r.next()).fr();
        let (key, m) = (f(&mut r), f(&mut r));
        let xs: Vec<Fr> = (0..R).map(|_| f(&mut r)).collect();
        let w = honest(key, m, &xs).ok_or("the circuit could not be synthesised")?;
        samples.push((key, m, xs, w));
    }
    let (k0, m0, x0, _) = &samples[0];
    let yn: Vec<Fr> = x0.iter().map(|&x| Fr::from(low(df(x, *k0, *m0, &dfc()), N) as u64)).collect();
    let cs = synth(*k0, *m0, x0, &yn, chain(x0, *k0, &hc())).unwrap();
    let net = Net::of(&cs).ok_or("no matrices")?;
    let (ni, nv) = (net.ni, net.nv);
    if samples.iter().any(|s| s.3.len() != nv) {
        return Err("the circuit's shape depends on its inputs".into());
    }
    let all = |f: &dyn Fn(&(Fr, Fr, Vec<Fr>, Vec<Fr>)) -> bool| samples.iter().all(|s| f(s));
    let x = (0..R)
        .map(|i| (ni..nv).find(|&v| all(&|s| s.3[v] == s.2[i])).map(|v| (v, false)).or((ni..nv).find(|&v| all(&|s| s.3[v] == s.2[i] + s.0)).map(|v| (v, true))))
        .collect();
    let ys: Vec<Vec<Fr>> = samples.iter().map(|s| s.2.iter().map(|&x| df(x, s.0, s.1, &dfc())).collect()).collect();
    let y = (0..R).map(|i| (ni..nv).find(|&v| samples.iter().zip(&ys).all(|(s, y)| s.3[v] == y[i]))).collect();
    let mut sig: BTreeMap<Vec<bool>, Vec<(usize, usize)>> = BTreeMap::new();
    for i in 0..R {
        for k in 0..256 {
            sig.entry(ys.iter().map(|y| ybit(y[i], k)).collect()).or_default().push((i, k));
        }
    }
    let mut bit = BTreeMap::new();
    let mut groups: BTreeMap<(usize, usize), Vec<usize>> = BTreeMap::new();
    let mut loose = vec![];
    let xv: &Vec<Option<(usize, bool)>> = &x;
    let mut zeros = 0;
    for s in &net.steps {
        if let Step::Free(v) = *s {
            if v < ni || xv.iter().any(|e| *e == Some((v, false))) {
                continue;
            }
            if samples.iter().all(|s| s.3[v].is_zero() || s.3[v].is_one()) {
                let w: Vec<bool> = samples.iter().map(|s| s.3[v].is_one()).collect();
                if let Some(c) = sig.get(&w) {
                    let at = if c.len() == 1 {
                        c[0]
                    } else {
                        zeros += 1;
                        c[(zeros - 1) % c.len()]
                    };
                    bit.insert(v, at);
                    groups.entry(at).or_default().push(v);
                    continue;
                }
            }
            loose.push(v);
        }
    }
    Ok(Circ { net, x, y, bit, groups, loose })
}

#[derive(Default, Clone)]
struct Force {
    set: BTreeMap<usize, Fr>,
    flip: BTreeSet<usize>,
    alias: BTreeMap<usize, u64>,
    /// set after everything else was computed
    pin: BTreeMap<usize, Fr>,
}

impl Circ {
    /// Recompute every wire from the free ones.
    fn forward(&self, base: &[Fr], f: &Force) -> Vec<Fr> {
        let mut v = base.to_vec();
        for s in &self.steps {
            match *s {
                Step::Check => {}
                Step::Free(w) => {
                    if let Some(x) = f.set.get(&w) {
                        v[w] = *x;
                    } else if let Some(&(i, k)) = self.bit.get(&w) {
                        if let Some(y) = self.y[i] {
                            let mut n = v[y].into_repr();
                            let m = <<Fr as PrimeField>::Params as FpParameters>::MODULUS;
                            for _ in 0..f.alias.get(&i).copied().unwrap_or(0) {
                                n.add_nocarry(&m);
                            }
                            let b = k < 256 && n.get_bit(k);
                            v[w] = if b != f.flip.contains(&w) { Fr::one() } else { Fr::zero() };
                        }
                    }
                }
                Step::Def(w, c) => {
                    if let Some(x) = f.set.get(&w) {
                        v[w] = *x;
                        continue;
                    }
                    self.net.solve(&mut v, w, c, base[w]);
                }
            }
        }
        for (w, x) in &f.pin {
            v[*w] = *x;
        }
        v
    }
    fn statement(&self, v: &[Fr]) -> Option<(Fr, Fr, Vec<usize>, Fr)> {
        if self.ni != R + 4 {
            return None;
        }
        let mut s = vec![];
        for i in 0..R {
            let n = v[3 + i].into_repr();
            if n.num_bits() as usize > N {
                return None;
            }
            s.push(n.as_ref()[0] as usize);
        }
        Some((v[1], v[2], s, v[3 + R]))
    }
}

/// Some true answers give this statement: known ones, or any made of numbers below 2^N.
fn truth(key: Fr, m: Fr, slots: &[usize], h: Fr, used: Option<&[Fr]>) -> bool {
    if let Some(xs) = used {
        if xs.len() == slots.len() && (0..slots.len()).all(|i| low(df(xs[i], key, m, &dfc()), N) == slots[i]) && chain(xs, key, &hc()) == h {
            return true;
        }
    }
    let pre = known(key, m);
    let c = hc();
    let mut front = vec![key];
    for &s in slots {
        let mut next = vec![];
        for &r in &front {
            for &x in &pre[s] {
                let x = Fr::from(x as u64);
                next.push(r + x + hash1(x, r, &c));
            }
        }
        front = next;
    }
    front.contains(&h)
}

/// The real prover, with the wires replaced before the proof is computed.
struct Forger<'a> {
    key: Fr,
    m: Fr,
    xs: &'a [Fr],
    wires: &'a [Fr],
}
impl<'a> ConstraintSynthesizer<Fr> for Forger<'a> {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> {
        let (d, c) = (dfc(), hc());
        let x: Vec<Option<Fr>> = self.xs.iter().map(|x| Some(*x)).collect();
        let yn: Vec<Option<Fr>> = self.xs.iter().map(|&x| Some(Fr::from(low(df(x, self.key, self.m, &d), N) as u64))).collect();
        let h = chain(self.xs, self.key, &c);
        PospaceDemo { key: Some(self.key), x: &x, m: Some(self.m), df_constants: &d, yn: &yn, x_hash: Some(h), hash_constants: &c }.generate_constraints(cs.clone())?;
        let mut b = cs.borrow_mut().unwrap();
        let ni = b.instance_assignment.len();
        b.instance_assignment.copy_from_slice(&self.wires[..ni]);
        b.witness_assignment.copy_from_slice(&self.wires[ni..]);
        Ok(())
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Dev {
    /// bit k of y_i on all wires that carry it, or on one
    Flip(usize, usize, Option<usize>),
    Alias(usize, u64),
    /// a wire (by ppm of all wires) gets another value, everything after it follows
    Set(u32, El),
    Loose(u32, El),
    /// the same, with the value of the other session
    Other(u32),
    /// a public input claimed differently
    Pub(usize, El),
    PubOther(usize),
    PubSlot(usize, usize),
}
/// A wire the prover turns until the books balance.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Knob {
    Any(u32),
    Loose(u32),
    Bit(usize, usize, u32),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Trial {
    devs: Vec<Dev>,
    knob: Option<Knob>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum P07 {
    /// the real prover fed with lies: (key, m, x's, slots, hash), each true or from the other session
    Liar { key: El, m: El, seed: u64, lies: Vec<(u8, usize)> },
    Search { key: El, m: El, seed: u64, trials: Vec<Trial> },
    /// wires from two honest sessions, split along every seam of the constraint system
    Splice { key: El, m: El, seed: u64, same_key: bool, same_m: bool },
}
pub struct C07;

fn pick_xs(key: Fr, m: Fr, seed: u64) -> Vec<Fr> {
    let pre = known(key, m);
    let mut r = Rng::new(seed);
    let mut v: Vec<usize> = vec![];
    while v.len() < R {
        let s = r.us(0, (1 << N) - 1);
        if !pre[s].is_empty() {
            v.push(pre[s][r.us(0, pre[s].len() - 1)]);
        }
    }
    v.into_iter().map(|x| Fr::from(x as u64)).collect()
}
impl C07 {
    /// A satisfying assignment: is its statement false, and does the real verifier accept a proof of it?
    fn judge(&self, c: &Circ, v: &[Fr], what: &str, ctx: &mut Ctx) -> Res {
        let Some((key, m, slots, h)) = c.statement(v) else { return Ok(()) };
        let xs: Option<Vec<Fr>> = c.x.iter().map(|e| e.map(|(w, k)| v[w] - if k { key } else { Fr::zero() })).collect();
        let Some(xs) = xs else { return Ok(()) };
        if truth(key, m, &slots, h, Some(&xs)) {
            ctx.probe("satisfied-and-true");
            return Ok(());
        }
        ctx.probe("satisfied-but-false");
        let su = match setup() {
            Ok(s) => s,
            Err(e) => return viol("setup-failed", e),
        };
        let pk = su.pk.clone();
        let w = v.to_vec();
        let (o, _) = run(Phase::clean(), move || {
            // any honest inputs give the circuit its shape
            let f = Forger { key: w[1], m: w[2], xs: &vec![Fr::one(); R], wires: &w };
            create_random_proof::<Bls12_381, _, _>(f, &pk, &mut ark_std::rand::rngs::OsRng).ok()
        });
        let proof: Proof<Bls12_381> = match o {
            Out::Ok(Some(p)) => p,
            _ => {
                ctx.probe("no-proof-made");
                return Ok(());
            }
        };
        // a challenge list in which these slots are challenged one after another
        let st = Stmt { key, m, challenges: slots.clone() };
        let a = Answer { idx: (0..R).collect(), x_hash: h, proof };
        let pvk = prepare_verifying_key(&su.pk.vk);
        ctx.sub += 1;
        if matches!(verify(&pvk, &st, &a), Out::Ok(true)) {
            return viol("false-statement-accepted", format!("{}: the verifier accepted a proof that slots {:?} are answered by preimages with the given hash; the prover used x = {:?}, of which slots {:?} and hash match: {}", what, slots, xs.iter().map(|x| x.into_repr().to_string()).collect::<Vec<_>>(), xs.iter().map(|&x| low(df(x, key, m, &dfc()), N)).collect::<Vec<_>>(), chain(&xs, key, &hc()) == h));
        }
        ctx.probe("forgery-rejected");
        Ok(())
    }

    fn trial(&self, c: &Circ, base: &[Fr], other: &[Fr], t: &Trial, ctx: &mut Ctx) -> Res {
        let mut f = Force::default();
        for d in &t.devs {
            match d {
                Dev::Flip(i, k, which) => {
                    if let Some(g) = c.groups.get(&(*i, *k)) {
                        match which {
                            None => f.flip.extend(g.iter()),
                            Some(n) => {
                                f.flip.insert(g[n % g.len()]);
                            }
                        }
                    }
                }
                Dev::Alias(i, n) => {
                    f.alias.insert(*i, *n);
                }
                Dev::Set(k, e) => {
                    let w = 1 + nth(*k, c.nv - 1);
                    f.set.insert(w, e.fr());
                }
                Dev::Loose(k, e) => {
                    if !c.loose.is_empty() {
                        f.set.insert(c.loose[nth(*k, c.loose.len())], e.fr());
                    }
                }
                Dev::Other(k) => {
                    let w = 1 + nth(*k, c.nv - 1);
                    f.set.insert(w, other[w]);
                }
                Dev::Pub(p, e) => {
                    f.pin.insert(1 + p % (c.ni - 1), e.fr());
                }
                Dev::PubOther(p) => {
                    let p = 1 + p % (c.ni - 1);
                    f.pin.insert(p, other[p]);
                }
                Dev::PubSlot(i, s) => {
                    f.pin.insert(3 + i, Fr::from(*s as u64));
                }
            }
        }
        ctx.sub += 1;
        let v = c.forward(base, &f);
        let b = c.broken(&v);
        ctx.mixin(b.len() as u64 | (b.first().map_or(0, |x| x.0 as u64) << 32));
        if b.is_empty() {
            return self.judge(c, &v, &format!("{:?}", t), ctx);
        }
        let Some(knob) = &t.knob else { return Ok(()) };
        let w = match knob {
            Knob::Any(k) => 1 + nth(*k, c.nv - 1),
            Knob::Loose(k) => {
                if c.loose.is_empty() {
                    return Ok(());
                }
                c.loose[nth(*k, c.loose.len())]
            }
            Knob::Bit(i, k, n) => match c.groups.get(&(*i, *k)) {
                Some(g) => g[*n as usize % g.len()],
                None => return Ok(()),
            },
        };
        if f.pin.contains_key(&w) {
            return Ok(());
        }
        // secant step on the first broken constraint; exact if the dependence is affine
        let (c0, r0) = b[0];
        let mut f1 = f.clone();
        f1.set.insert(w, v[w] + Fr::one());
        f1.flip.remove(&w);
        let v1 = c.forward(base, &f1);
        let r1 = c.residual(&v1, c0);
        let Some(inv) = (r0 - r1).inverse() else { return Ok(()) };
        f1.set.insert(w, v[w] + r0 * inv);
        let v2 = c.forward(base, &f1);
        let b2 = c.broken(&v2);
        ctx.mixin(b2.len() as u64 | (b2.first().map_or(0, |x| x.0 as u64) << 32));
        if b2.is_empty() {
            return self.judge(c, &v2, &format!("{:?}", t), ctx);
        }
        Ok(())
    }
}

fn gen_trial(r: &mut Rng) -> Trial {
    let ppm = |r: &mut Rng| r.below(1_000_000) as u32;
    let low_bit = |r: &mut Rng| if r.chance(4, 5) { r.us(0, N - 1) } else { r.us(0, 255) };
    let dev = |r: &mut Rng| match r.below(16) {
        0..=3 => {
            let w = if r.chance(1, 2) { None } else { Some(r.us(0, 2)) };
            Dev::Flip(r.us(0, R - 1), low_bit(r), w)
        }
        4 | 5 => Dev::Alias(r.us(0, R - 1), r.range(1, 2)),
        6..=8 => Dev::Set(ppm(r), if r.chance(1, 6) { El::Small(r.below(3)) } else { El::gen(r) }),
        9 | 10 => Dev::Loose(ppm(r), El::gen(r)),
        11 | 12 => Dev::Other(ppm(r)),
        13 => Dev::Pub(r.us(0, R + 2), El::gen(r)),
        14 => Dev::PubOther(r.us(0, R + 2)),
        _ => Dev::PubSlot(r.us(0, R - 1), r.us(0, (1 << N) - 1)),
    };
    let n = if r.chance(3, 4) { 1 } else { 2 };
    let devs = (0..n).map(|_| dev(r)).collect();
    let knob = match r.below(5) {
        0 => None,
        1 | 2 => Some(Knob::Any(ppm(r))),
        3 => Some(Knob::Loose(ppm(r))),
        _ => Some(Knob::Bit(r.us(0, R - 1), if r.chance(2, 3) { r.us(N, 240) } else { r.us(0, 255) }, r.below(2) as u32)),
    };
    Trial { devs, knob }
}

impl Sim for C07 {
    type Plan = P07;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when the Byzantine prover tried at least one false statement or altered wire against the real circuit"
    }
    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick if BIG => 8,
            Tier::Quick => 3_000,
            _ if BIG => 200,
            _ => 60_000,
        }
    }
    fn warm(&self) {
        if !BIG {
            let _ = setup();
            let _ = circ();
        }
    }
    fn limit_s(&self) -> u64 {
        150
    }
    fn gen(&self, r: &mut Rng, _tier: Tier, index: u64) -> P07 {
        let (key, m, seed) = (El::Rand(r.next()), El::gen(r), r.next());
        if BIG {
            return match index % 8 {
                0 => P07::Splice { key, m, seed, same_key: true, same_m: true },
                1 => P07::Splice { key, m, seed, same_key: r.chance(1, 2), same_m: r.chance(1, 2) },
                _ => P07::Search { key, m, seed, trials: (0..60).map(|_| gen_trial(r)).collect() },
            };
        }
        match if index < 8 { 9 } else { r.below(10) } {
            0 => P07::Liar { key, m, seed, lies: (0..r.us(1, 2)).map(|_| (r.below(6) as u8, r.us(0, R - 1))).collect() },
            1 => P07::Splice { key, m, seed, same_key: r.chance(3, 4), same_m: r.chance(3, 4) },
            9 if index < 8 => P07::Splice { key, m, seed, same_key: index & 1 == 0, same_m: index & 2 == 0 },
            _ => P07::Search { key, m, seed, trials: (0..40).map(|_| gen_trial(r)).collect() },
        }
    }
    fn run(&self, p: &P07, ctx: &mut Ctx) -> Res {
        reset_world(9, 1, 0);
        let c = match circ() {
            Ok(c) => c,
            Err(e) => return viol("setup-failed", e),
        };
        let other_of = |key: Fr, m: Fr, seed: u64| {
            let xs = pick_xs(key, m, mix2(seed, 2));
            (xs.clone(), honest(key, m, &xs))
        };
        match p {
            P07::Liar { key, m, seed, lies } => {
                let (key, m) = (key.fr(), m.fr());
                let xs = pick_xs(key, m, *seed);
                let xs2 = pick_xs(key, m, mix2(*seed, 2));
                let slot = |x: Fr| low(df(x, key, m, &dfc()), N);
                let mut slots: Vec<usize> = xs.iter().map(|&x| slot(x)).collect();
                let (mut pk_, mut pm, mut px, mut h) = (key, m, xs.clone(), chain(&xs, key, &hc()));
                let mut r = Rng::new(mix2(*seed, 3));
                for (k, i) in lies {
                    match k {
                        0 => px[*i] = xs2[*i],
                        1 => slots[*i] = (slots[*i] + r.us(1, (1 << N) - 1)) % (1 << N),
                        2 => h = chain(&xs2, key, &hc()),
                        3 => pk_ = El::Rand(r.next()).fr(),
                        4 => pm = El::Rand(r.next()).fr(),
                        _ => {
                            px = xs2.clone();
                            h = chain(&xs2, key, &hc());
                        }
                    }
                }
                // a hasty prover proves with (pk_, pm, px); the verifier asks about (key, m)
                ctx.nontrivial = true;
                ctx.fault("lying_prover");
                ctx.mixin(simrt::rng::hash_bytes(format!("{:?}{:?}{:?}{:?}{:?}", pk_, pm, px, slots, h).as_bytes()));
                let su = match setup() {
                    Ok(s) => s,
                    Err(e) => return viol("setup-failed", e),
                };
                let idx: Vec<usize> = (0..R).collect();
                let proof = match answer2(&su.pk, pk_, pm, px.clone(), slots.clone(), idx.clone(), h) {
                    Out::Ok((_, p)) => p,
                    Out::Panic(_) => {
                        ctx.probe("prover-refused");
                        return Ok(());
                    }
                    o => return viol("no-progress", o.what()),
                };
                let pvk = prepare_verifying_key(&su.pk.vk);
                for (k, mm) in [(key, m), (pk_, pm)] {
                    let t = truth(k, mm, &slots, h, Some(&px));
                    let st = Stmt { key: k, m: mm, challenges: slots.clone() };
                    let v = matches!(verify(&pvk, &st, &Answer { idx: idx.clone(), x_hash: h, proof: proof.clone() }), Out::Ok(true));
                    ctx.sub += 1;
                    ctx.probe(if t { "true-statement" } else { "false-statement" });
                    if v && !t {
                        return viol("false-statement-accepted", format!("the prover lied ({:?}) and the verifier accepted: slots {:?}", lies, slots));
                    }
                }
                Ok(())
            }
            P07::Search { key, m, seed, trials } => {
                let (key, m) = (key.fr(), m.fr());
                let xs = pick_xs(key, m, *seed);
                let Some(base) = honest(key, m, &xs) else { return viol("setup-failed", "no wires") };
                let (_, Some(other)) = other_of(key, m, *seed) else { return viol("setup-failed", "no wires") };
                ctx.mixin(simrt::rng::hash_bytes(format!("{:?}", base[1]).as_bytes()));
                if !c.broken(&base).is_empty() {
                    // an honest prover cannot prove: C05's business
                    ctx.probe("honest-wires-unsatisfied");
                    return Ok(());
                }
                let again = c.forward(&base, &Force::default());
                ctx.probe(if c.broken(&again).is_empty() { "recomputed-honest-wires-satisfied" } else { "recomputed-honest-wires-unsatisfied" });
                ctx.probe_n("wires", c.nv as u64);
                ctx.probe_n("loose-wires", c.loose.len() as u64);
                ctx.nontrivial = true;
                for t in trials {
                    ctx.fault("byzantine_wire_assignment");
                    self.trial(c, &base, &other, t, ctx)?;
                }
                Ok(())
            }
            P07::Splice { key, m, seed, same_key, same_m } => {
                let (key, m) = (key.fr(), m.fr());
                let xs = pick_xs(key, m, *seed);
                let Some(a) = honest(key, m, &xs) else { return viol("setup-failed", "no wires") };
                let k2 = if *same_key { key } else { El::Rand(mix2(*seed, 5)).fr() };
                let m2 = if *same_m { m } else { El::Rand(mix2(*seed, 6)).fr() };
                let (_, Some(b)) = other_of(k2, m2, *seed) else { return viol("setup-failed", "no wires") };
                if !c.broken(&a).is_empty() || !c.broken(&b).is_empty() {
                    ctx.probe("honest-wires-unsatisfied");
                    return Ok(());
                }
                ctx.nontrivial = true;
                ctx.fault("spliced_sessions");
                // classes that hold public inputs or answers matter; swap each, and its complement
                let keys: Vec<Vec<usize>> = c.seams(&a, &b).into_iter().filter(|v| v.iter().any(|&w| w < c.ni || c.x.iter().any(|e| e.map(|e| e.0) == Some(w)))).collect();
                ctx.probe(&format!("seams-{}", keys.len()));
                ctx.mixin(keys.len() as u64);
                ctx.mixin(simrt::rng::hash_bytes(format!("{:?}{:?}", a[1], b[c.ni - 1]).as_bytes()));
                let mut masks: Vec<u64> = (0..keys.len().min(16)).flat_map(|i| [1u64 << i, !(1u64 << i)]).collect();
                let mut r = Rng::new(mix2(*seed, 7));
                masks.extend((0..8).map(|_| r.next()));
                if keys.len() < 2 {
                    masks.clear();
                }
                for mask in masks {
                    let mut v = a.clone();
                    for (i, k) in keys.iter().enumerate() {
                        if mask >> (i % 64) & 1 == 1 {
                            for &w in k {
                                v[w] = b[w];
                            }
                        }
                    }
                    ctx.sub += 1;
                    if c.broken(&v).is_empty() {
                        self.judge(c, &v, "wires of two honest sessions spliced", ctx)?;
                    }
                }
                Ok(())
            }
        }
    }
    fn shrink(&self, p: &P07) -> Vec<P07> {
        let mut out = vec![];
        match p {
            P07::Search { key, m, seed, trials } => {
                for t in shrink_list(trials) {
                    out.push(P07::Search { key: key.clone(), m: m.clone(), seed: *seed, trials: t });
                }
                if trials.len() == 1 {
                    for d in shrink_list(&trials[0].devs) {
                        out.push(P07::Search { key: key.clone(), m: m.clone(), seed: *seed, trials: vec![Trial { devs: d, knob: trials[0].knob.clone() }] });
                    }
                    if trials[0].knob.is_some() {
                        out.push(P07::Search { key: key.clone(), m: m.clone(), seed: *seed, trials: vec![Trial { devs: trials[0].devs.clone(), knob: None }] });
                    }
                }
            }
            P07::Liar { key, m, seed, lies } => {
                for l in shrink_list(lies) {
                    out.push(P07::Liar { key: key.clone(), m: m.clone(), seed: *seed, lies: l });
                }
            }
            _ => {}
        }
        out
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["circuit::pospace_circuit (constraint system), prover::construct_circuit (trusted setup), prover::response_2", "verifier::verify", "ark-groth16, ark-relations, ark-bls12-381"]
    }
    fn stub(&self) -> Vec<&'static str> {
        vec!["the prover node is Byzantine: its wire values are chosen by the simulator, its proof is computed by the real prover code of ark-groth16", "statement truth is decided by an independent reference of the delay function and hash", "N, response and challenge counts are the small ones of cfg(verif_sim)"]
    }
}
