//! C18: the standalone circuits as a two-party protocol. A prover node (honest, or Byzantine with
//! every wire at its disposal) and a verifier node exchange outputs and Groth16 proofs for the power,
//! equality and MiMC circuits; independent native functions decide what may be accepted.
use crate::net::*;
use crate::refm::*;
use ark_bls12_381::{Bls12_381, Fr};
use ark_ff::{BigInteger, BigInteger256, Field, FpParameters, One, PrimeField, Zero};
use ark_groth16::{create_random_proof, generate_random_parameters, prepare_verifying_key, verify_proof, PreparedVerifyingKey, Proof, ProvingKey};
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem, ConstraintSystemRef, OptimizationGoal, SynthesisError};
use pospace_gadget::circuit::{equal_circuit, mimc3_df_circuit::MiMC3DFDemo, mimc5_df_circuit::MiMC5DFDemo, mimc5_hash_circuit::MiMC5HashDemo, mimc7_hash_circuit::MiMC7HashDemo, pow_circuit};
use pospace_gadget::mimc::{mimc_df, mimc_hash};
use serde::{Deserialize, Serialize};
use simrt::driver::{viol, Ctx, Res, Sim, Tier};
use simrt::plan::*;
use simrt::rng::{hash_bytes, mix2};
use simrt::{reset_world, run, Out, Phase, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Pow,
    Equal(usize),
    Df3,
    Df5,
    Hash5(usize),
    Hash7(usize),
}
const KINDS: [Kind; 16] = [Kind::Pow, Kind::Equal(8), Kind::Equal(1), Kind::Equal(20), Kind::Equal(255), Kind::Equal(256), Kind::Df3, Kind::Df5, Kind::Hash5(1), Kind::Hash5(3), Kind::Hash7(1), Kind::Hash7(3), Kind::Equal(64), Kind::Hash5(2), Kind::Hash5(7), Kind::Hash7(2)];
const POW_BITS: usize = pow_circuit::INPUT_SIZE;
const EQ_BITS: usize = equal_circuit::INPUT_SIZE;

/// What the prover knows.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Inp {
    a: El,
    b: El,
    xs: Vec<El>,
    e: u32,
}
impl Inp {
    fn gen(r: &mut Rng, k: Kind) -> Inp {
        let n = if let Kind::Hash5(n) | Kind::Hash7(n) = k { n } else { 0 };
        let full = (1u64 << POW_BITS) - 1;
        let e = match r.below(8) {
            0 => r.below(4),
            1 => full - r.below(3),
            2 => 1 << r.below(POW_BITS as u64),
            _ => r.below(full + 1),
        };
        Inp { a: El::gen(r), b: El::gen(r), xs: (0..n).map(|_| El::gen(r)).collect(), e: e as u32 }
    }
    /// no special values: used to learn which wire is which
    fn plain(r: &mut Rng, k: Kind) -> Inp {
        let n = if let Kind::Hash5(n) | Kind::Hash7(n) = k { n } else { 0 };
        let f = |r: &mut Rng| El::Rand(r.next());
        Inp { a: f(r), b: f(r), xs: (0..n).map(|_| f(r)).collect(), e: r.below(1 << POW_BITS) as u32 }
    }
    fn val(&self) -> Val {
        Val { a: self.a.fr(), b: self.b.fr(), xs: self.xs.iter().map(|x| x.fr()).collect(), e: self.e }
    }
}
#[derive(Clone, Debug, PartialEq)]
struct Val {
    a: Fr,
    b: Fr,
    xs: Vec<Fr>,
    e: u32,
}

fn c3() -> Vec<Fr> {
    consts(0xd3, mimc_df::MIMC3_DF_ROUNDS)
}
fn c5() -> Vec<Fr> {
    consts(0xd5, mimc_df::MIMC5_DF_ROUNDS)
}
fn h5() -> Vec<Fr> {
    consts(0xa5, mimc_hash::MIMC5_HASH_ROUNDS)
}
fn h7() -> Vec<Fr> {
    consts(0xa7, mimc_hash::MIMC7_HASH_ROUNDS)
}

// ---- the reference: what each circuit is supposed to prove
fn power(x: Fr, e: u64) -> Fr {
    (0..e).fold(Fr::one(), |r, _| r * x)
}
fn ref_pow(g: Fr, e: u32) -> Fr {
    // bit by bit from the top; no code shared with the circuit
    let mut y = Fr::one();
    for i in (0..32).rev() {
        y = y * y;
        if e >> i & 1 == 1 {
            y *= g;
        }
    }
    y
}
fn ref_df3(xl: Fr, xr: Fr) -> Fr {
    let (mut l, mut r) = (xl, xr);
    for k in c3() {
        let n = power(l + k, 3) + r;
        r = l;
        l = n;
    }
    l
}
fn ref_chain(xs: &[Fr], key: Fr, c: &[Fr], e: u64) -> Fr {
    let mut r = key;
    for x in xs {
        let mut h = power(*x + r, e);
        for k in &c[1..] {
            h = power(h + r + k, e);
        }
        r = r + x + h + r;
    }
    r
}
fn low_bits(x: Fr, d: usize) -> Fr {
    let n = x.into_repr();
    let mut s = Fr::zero();
    let mut p = Fr::one();
    for i in 0..d.min(256) {
        if n.get_bit(i) {
            s += p;
        }
        p = p + p;
    }
    s
}
/// The public values a true proof speaks about.
fn native(k: Kind, v: &Val) -> Vec<Fr> {
    match k {
        Kind::Pow => vec![ref_pow(v.a, v.e)],
        Kind::Equal(d) => vec![low_bits(v.a, d), v.a],
        Kind::Df3 => vec![ref_df3(v.a, v.b)],
        Kind::Df5 => vec![df(v.a, Fr::zero(), v.b, &c5())],
        Kind::Hash5(_) => vec![ref_chain(&v.xs, v.a, &h5(), 5)],
        Kind::Hash7(_) => vec![ref_chain(&v.xs, v.a, &h7(), 7)],
    }
}
/// The repository's own native function.
fn own(k: Kind, v: &Val) -> Option<Fr> {
    Some(match k {
        Kind::Df3 => mimc_df::mimc3_df(v.a, v.b, &c3()),
        Kind::Df5 => mimc_df::mimc5_df(v.a, v.b, &c5()),
        Kind::Hash5(_) => mimc_hash::multi_mimc5_hash(&v.xs, v.a, &h5()),
        Kind::Hash7(_) => mimc_hash::multi_mimc7_hash(&v.xs, v.a, &h7()),
        _ => return None,
    })
}

/// The real circuit with the given inputs (without any for the power, equality and delay circuits,
/// as their users do for the setup).
struct Circuit {
    k: Kind,
    v: Option<Val>,
}
impl ConstraintSynthesizer<Fr> for Circuit {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> {
        let a = self.v.as_ref().map(|v| v.a);
        let b = self.v.as_ref().map(|v| v.b);
        match self.k {
            Kind::Pow => {
                let bits: Vec<Option<u8>> = (0..POW_BITS).map(|i| self.v.as_ref().map(|v| (v.e >> i & 1) as u8)).collect();
                pow_circuit::PowDemo { g: a, x_bits: &bits }.generate_constraints(cs)
            }
            Kind::Equal(d) => {
                let n = a.map(|a| a.into_repr());
                let bits: Vec<Option<u8>> = (0..EQ_BITS).map(|i| n.map(|n| n.get_bit(i) as u8)).collect();
                equal_circuit::EqualDemo { x1: a.map(|a| low_bits(a, d)), x2: a, x_bits: &bits, difficulty: d }.generate_constraints(cs)
            }
            Kind::Df3 => MiMC3DFDemo::sim_new(a, b, &c3()).generate_constraints(cs),
            Kind::Df5 => MiMC5DFDemo::sim_new(a, b, &c5()).generate_constraints(cs),
            Kind::Hash5(n) | Kind::Hash7(n) => {
                let xs: Vec<Option<Fr>> = match &self.v {
                    Some(v) => v.xs.iter().map(|x| Some(*x)).collect(),
                    None => vec![Some(Fr::one()); n],
                };
                let a = a.or(Some(Fr::one()));
                if let Kind::Hash5(_) = self.k {
                    MiMC5HashDemo::sim_new(&xs, a, &h5()).generate_constraints(cs)
                } else {
                    MiMC7HashDemo::sim_new(&xs, a, &h7()).generate_constraints(cs)
                }
            }
        }
    }
}
fn synth(k: Kind, v: &Val) -> Option<ConstraintSystemRef<Fr>> {
    let cs = ConstraintSystem::<Fr>::new_ref();
    cs.set_optimization_goal(OptimizationGoal::Constraints);
    let (cs2, v) = (cs.clone(), v.clone());
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || Circuit { k, v: Some(v) }.generate_constraints(cs2))).ok()?.ok()?;
    Some(cs)
}
fn honest(k: Kind, v: &Val) -> Option<Vec<Fr>> {
    synth(k, v).map(|c| wires(&c))
}

struct Lab {
    pk: ProvingKey<Bls12_381>,
    pvk: PreparedVerifyingKey<Bls12_381>,
    net: Net,
    /// wires that hold a, b and the xs
    a: Option<usize>,
    b: Option<usize>,
    xs: Vec<Option<usize>>,
    /// free wires that carry bit k of the word (exponent, or x2)
    bit: BTreeMap<usize, usize>,
    groups: BTreeMap<usize, Vec<usize>>,
    /// all wires that carry bit k
    all_bits: Vec<Option<usize>>,
    loose: Vec<usize>,
}
static LABS: OnceLock<Vec<Result<Lab, String>>> = OnceLock::new();
fn labs() -> &'static Vec<Result<Lab, String>> {
    LABS.get_or_init(|| KINDS.iter().map(|&k| lab(k)).collect())
}
fn word_bit(k: Kind, v: &Val, alias: u64, i: usize) -> bool {
    match k {
        Kind::Pow => i < 32 && v.e >> i & 1 == 1,
        _ => {
            let mut n: BigInteger256 = v.a.into_repr();
            let m = <<Fr as PrimeField>::Params as FpParameters>::MODULUS;
            for _ in 0..alias {
                n.add_nocarry(&m);
            }
            i < 256 && n.get_bit(i)
        }
    }
}
fn word_len(k: Kind) -> usize {
    match k {
        Kind::Pow => POW_BITS,
        Kind::Equal(_) => EQ_BITS,
        _ => 0,
    }
}
fn lab(k: Kind) -> Result<Lab, String> {
    reset_world(0x18, 1, 0);
    let (o, _) = run(Phase::clean(), move || generate_random_parameters::<Bls12_381, _, _>(Circuit { k, v: None }, &mut ark_std::rand::rngs::OsRng));
    let pk = match o {
        Out::Ok(Ok(pk)) => pk,
        Out::Ok(Err(e)) => return Err(format!("{:?}: no setup: {:?}", k, e)),
        o => return Err(format!("{:?}: no setup: {}", k, o.what())),
    };
    let pvk = prepare_verifying_key(&pk.vk);
    let mut r = Rng::new(0xb18);
    let mut samples: Vec<(Val, Vec<Fr>)> = vec![];
    for _ in 0..40 {
        let v = Inp::plain(&mut r, k).val();
        let w = honest(k, &v).ok_or(format!("{:?}: the circuit could not be synthesised", k))?;
        samples.push((v, w));
    }
    let cs = synth(k, &samples[0].0).unwrap();
    let net = Net::of(&cs).ok_or("no matrices")?;
    let (ni, nv) = (net.ni, net.nv);
    if samples.iter().any(|s| s.1.len() != nv) {
        return Err(format!("{:?}: the circuit's shape depends on its inputs", k));
    }
    let find = |f: &dyn Fn(&Val) -> Fr| (1..nv).find(|&w| samples.iter().all(|s| s.1[w] == f(&s.0)));
    let a = find(&|v| v.a);
    let b = find(&|v| v.b);
    let xs = (0..samples[0].0.xs.len()).map(|i| find(&|v| v.xs[i])).collect();
    let mut sig: BTreeMap<Vec<bool>, usize> = BTreeMap::new();
    for i in 0..word_len(k) {
        sig.insert(samples.iter().map(|s| word_bit(k, &s.0, 0, i)).collect(), i);
    }
    let role = |w: usize| -> Option<usize> {
        if !samples.iter().all(|s| s.1[w].is_zero() || s.1[w].is_one()) {
            return None;
        }
        sig.get(&samples.iter().map(|s| s.1[w].is_one()).collect::<Vec<_>>()).copied()
    };
    let mut all_bits = vec![None; word_len(k)];
    for w in (ni..nv).rev() {
        if let Some(i) = role(w) {
            all_bits[i] = Some(w);
        }
    }
    let (mut bit, mut groups, mut loose) = (BTreeMap::new(), BTreeMap::<usize, Vec<usize>>::new(), vec![]);
    for s in &net.steps {
        if let Step::Free(w) = *s {
            if w < ni {
                continue;
            }
            if let Some(i) = role(w) {
                bit.insert(w, i);
                groups.entry(i).or_default().push(w);
            } else {
                loose.push(w);
            }
        }
    }
    Ok(Lab { pk, pvk, net, a, b, xs, bit, groups, all_bits, loose })
}

#[derive(Default, Clone)]
struct Force {
    set: BTreeMap<usize, Fr>,
    flip: BTreeSet<usize>,
    alias: u64,
    pin: BTreeMap<usize, Fr>,
}
impl Lab {
    fn forward(&self, k: Kind, val: &Val, base: &[Fr], f: &Force) -> Vec<Fr> {
        let mut v = base.to_vec();
        for s in &self.net.steps {
            match *s {
                Step::Check => {}
                Step::Free(w) => {
                    if let Some(x) = f.set.get(&w) {
                        v[w] = *x;
                    } else if let Some(&i) = self.bit.get(&w) {
                        v[w] = if word_bit(k, val, f.alias, i) != f.flip.contains(&w) { Fr::one() } else { Fr::zero() };
                    }
                }
                Step::Def(w, c) => match f.set.get(&w) {
                    Some(x) => v[w] = *x,
                    None => self.net.solve(&mut v, w, c, base[w]),
                },
            }
        }
        for (w, x) in &f.pin {
            v[*w] = *x;
        }
        v
    }
    /// Do the values on the prover's own input wires map to the public ones? None: cannot tell.
    fn truth(&self, k: Kind, v: &[Fr]) -> Option<bool> {
        let out = &v[1..self.net.ni];
        match k {
            Kind::Equal(d) => Some(out.len() == 2 && out[0] == low_bits(out[1], d)),
            Kind::Pow => {
                let g = v[self.a?];
                let mut e = 0;
                for (i, w) in self.all_bits.iter().enumerate() {
                    let b = v[(*w)?];
                    if b.is_one() {
                        e |= 1 << i;
                    } else if !b.is_zero() {
                        return Some(false);
                    }
                }
                Some(out == [ref_pow(g, e)])
            }
            Kind::Df3 | Kind::Df5 => Some(out == native(k, &Val { a: v[self.a?], b: v[self.b?], xs: vec![], e: 0 })),
            Kind::Hash5(_) | Kind::Hash7(_) => {
                let xs: Option<Vec<Fr>> = self.xs.iter().map(|w| w.map(|w| v[w])).collect();
                Some(out == native(k, &Val { a: v[self.a?], b: Fr::zero(), xs: xs?, e: 0 }))
            }
        }
    }
}

/// The real prover, with the wires replaced before the proof is computed.
struct Forger {
    k: Kind,
    v: Val,
    wires: Vec<Fr>,
}
impl ConstraintSynthesizer<Fr> for Forger {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> {
        Circuit { k: self.k, v: Some(self.v) }.generate_constraints(cs.clone())?;
        let mut b = cs.borrow_mut().unwrap();
        let ni = b.instance_assignment.len();
        b.instance_assignment.copy_from_slice(&self.wires[..ni]);
        b.witness_assignment.copy_from_slice(&self.wires[ni..]);
        Ok(())
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Dev {
    Flip(usize, Option<usize>),
    Alias(u64),
    Set(u32, El),
    Loose(u32, El),
    Other(u32),
    Pub(usize, El),
    PubOther(usize),
    /// a public value off by a power of two
    PubNear(usize, u32, bool),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Knob {
    Any(u32),
    Loose(u32),
    Bit(usize, usize),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Trial {
    devs: Vec<Dev>,
    knob: Option<Knob>,
}
/// What the network, or a dishonest sender, makes of one message (output, proof).
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Msg {
    /// delivered as sent (again, late, out of order)
    Plain,
    Out(usize, El),
    Near(usize, u32, bool),
    Swapped,
    /// the other prover's output with this proof, or the other way round
    OtherOut,
    OtherProof,
    /// both from the other session: a correct message, only for somebody else
    Cross,
    NegA,
    SwapAC,
    MixB,
    MixC,
    FewerOutputs,
    MoreOutputs,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum P18 {
    Session { kind: usize, me: Inp, other: Inp, faults: Vec<PF>, entropy: u64, msgs: Vec<Msg> },
    Search { kind: usize, me: Inp, other: Inp, trials: Vec<Trial> },
    Splice { kind: usize, me: Inp, other: Inp, seed: u64, share: u8 },
}
pub struct C18;

fn delta(k: u32, neg: bool) -> Fr {
    let d = (0..k % 256).fold(Fr::one(), |p, _| p + p);
    if neg {
        -d
    } else {
        d
    }
}

impl C18 {
    fn judge(&self, k: Kind, l: &Lab, val: &Val, v: &[Fr], what: String, ctx: &mut Ctx) -> Res {
        match l.truth(k, v) {
            None => {
                ctx.probe("inputs-not-on-wires");
                return Ok(());
            }
            Some(true) => {
                ctx.probe("satisfied-and-true");
                return Ok(());
            }
            Some(false) => {}
        }
        ctx.probe("satisfied-but-false");
        let (pk, w, val) = (l.pk.clone(), v.to_vec(), val.clone());
        let (o, _) = run(Phase::clean(), move || create_random_proof::<Bls12_381, _, _>(Forger { k, v: val, wires: w }, &pk, &mut ark_std::rand::rngs::OsRng).ok());
        let Out::Ok(Some(proof)) = o else {
            ctx.probe("no-proof-made");
            return Ok(());
        };
        ctx.sub += 1;
        if verify_proof(&l.pvk, &proof, &v[1..l.net.ni]).unwrap_or(false) {
            let say = |w: Option<usize>| w.map_or("?".into(), |w| v[w].into_repr().to_string());
            return viol(
                "false-output-accepted",
                format!("{:?} ({}): the verifier accepted the output {:?}; the prover's own inputs were a={} b={} xs={:?}", k, what, v[1..l.net.ni].iter().map(|x| x.into_repr().to_string()).collect::<Vec<_>>(), say(l.a), say(l.b), l.xs.iter().map(|w| say(*w)).collect::<Vec<_>>()),
            );
        }
        ctx.probe("forgery-rejected");
        Ok(())
    }
    fn trial(&self, k: Kind, l: &Lab, val: &Val, base: &[Fr], other: &[Fr], t: &Trial, ctx: &mut Ctx) -> Res {
        let n = &l.net;
        let mut f = Force::default();
        for d in &t.devs {
            match d {
                Dev::Flip(i, which) => {
                    if let Some(g) = l.groups.get(i) {
                        match which {
                            None => f.flip.extend(g.iter()),
                            Some(x) => {
                                f.flip.insert(g[x % g.len()]);
                            }
                        }
                    }
                }
                Dev::Alias(x) => f.alias = *x,
                Dev::Set(p, e) => {
                    f.set.insert(1 + nth(*p, n.nv - 1), e.fr());
                }
                Dev::Loose(p, e) => {
                    if !l.loose.is_empty() {
                        f.set.insert(l.loose[nth(*p, l.loose.len())], e.fr());
                    }
                }
                Dev::Other(p) => {
                    let w = 1 + nth(*p, n.nv - 1);
                    f.set.insert(w, other[w]);
                }
                Dev::Pub(p, e) => {
                    f.pin.insert(1 + p % (n.ni - 1), e.fr());
                }
                Dev::PubOther(p) => {
                    let p = 1 + p % (n.ni - 1);
                    f.pin.insert(p, other[p]);
                }
                Dev::PubNear(p, d, neg) => {
                    let p = 1 + p % (n.ni - 1);
                    f.pin.insert(p, base[p] + delta(*d, *neg));
                }
            }
        }
        ctx.sub += 1;
        let v = l.forward(k, val, base, &f);
        let b = n.broken(&v);
        ctx.mixin(b.len() as u64 | (b.first().map_or(0, |x| x.0 as u64) << 32));
        if b.is_empty() {
            return self.judge(k, l, val, &v, format!("{:?}", t), ctx);
        }
        let w = match &t.knob {
            None => return Ok(()),
            Some(Knob::Any(p)) => 1 + nth(*p, n.nv - 1),
            Some(Knob::Loose(p)) => {
                if l.loose.is_empty() {
                    return Ok(());
                }
                l.loose[nth(*p, l.loose.len())]
            }
            Some(Knob::Bit(i, x)) => match l.groups.get(i) {
                Some(g) => g[x % g.len()],
                None => return Ok(()),
            },
        };
        if f.pin.contains_key(&w) {
            return Ok(());
        }
        // secant step on the first broken constraint; exact if the dependence is affine
        let (c0, r0) = b[0];
        let mut f1 = f.clone();
        f1.flip.remove(&w);
        f1.set.insert(w, v[w] + Fr::one());
        let v1 = l.forward(k, val, base, &f1);
        let Some(inv) = (r0 - n.residual(&v1, c0)).inverse() else { return Ok(()) };
        f1.set.insert(w, v[w] + r0 * inv);
        let v2 = l.forward(k, val, base, &f1);
        let b2 = n.broken(&v2);
        ctx.mixin(b2.len() as u64 | (b2.first().map_or(0, |x| x.0 as u64) << 32));
        if b2.is_empty() {
            return self.judge(k, l, val, &v2, format!("{:?}", t), ctx);
        }
        Ok(())
    }
}

fn gen_trial(r: &mut Rng, k: Kind) -> Trial {
    let ppm = |r: &mut Rng| r.below(1_000_000) as u32;
    let wl = word_len(k);
    let word = |r: &mut Rng| -> usize {
        if let Kind::Equal(d) = k {
            match r.below(4) {
                0 => (d + r.us(0, 3)).saturating_sub(2).min(wl - 1),
                1 => r.us(wl - 4, wl - 1),
                _ => r.us(0, wl - 1),
            }
        } else {
            r.us(0, wl - 1)
        }
    };
    let one = |r: &mut Rng| {
        let hi = if wl > 0 { 12 } else { 8 };
        match r.below(hi) {
            0 | 1 => Dev::Set(ppm(r), if r.chance(1, 6) { El::Small(r.below(3)) } else { El::gen(r) }),
            2 | 3 => Dev::Loose(ppm(r), El::gen(r)),
            4 => Dev::Other(ppm(r)),
            5 => Dev::Pub(r.us(0, 1), El::gen(r)),
            6 => Dev::PubOther(r.us(0, 1)),
            7 => Dev::PubNear(r.us(0, 1), r.below(256) as u32, r.chance(1, 2)),
            8 => Dev::Alias(r.range(1, 2)),
            _ => Dev::Flip(word(r), if r.chance(1, 2) { None } else { Some(r.us(0, 2)) }),
        }
    };
    let n = if r.chance(3, 4) { 1 } else { 2 };
    let devs = (0..n).map(|_| one(r)).collect();
    let knob = match r.below(5) {
        0 => None,
        1 | 2 => Some(Knob::Any(ppm(r))),
        3 if wl > 0 => Some(Knob::Bit(word(r), r.us(0, 1))),
        _ => Some(Knob::Loose(ppm(r))),
    };
    Trial { devs, knob }
}
fn gen_msg(r: &mut Rng) -> Msg {
    match r.below(14) {
        0 | 1 => Msg::Plain,
        2 => Msg::Out(r.us(0, 1), El::gen(r)),
        3 | 4 => Msg::Near(r.us(0, 1), r.below(256) as u32, r.chance(1, 2)),
        5 => Msg::Swapped,
        6 => Msg::OtherOut,
        7 => Msg::OtherProof,
        8 => Msg::Cross,
        9 => Msg::NegA,
        10 => Msg::SwapAC,
        11 => Msg::MixB,
        12 => Msg::MixC,
        _ => {
            if r.chance(1, 2) {
                Msg::FewerOutputs
            } else {
                Msg::MoreOutputs
            }
        }
    }
}

impl Sim for C18 {
    type Plan = P18;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when an altered or misdelivered message reached the verifier, or the Byzantine prover tried at least one altered wire assignment against the real circuit"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 1600 } else { 80_000 }
    }
    fn warm(&self) {
        let _ = labs();
    }
    fn gen(&self, r: &mut Rng, _tier: Tier, index: u64) -> P18 {
        let kind = if index < 4 * KINDS.len() as u64 { index as usize % KINDS.len() } else { r.us(0, KINDS.len() - 1) };
        let k = KINDS[kind];
        let (me, other) = (Inp::gen(r, k), Inp::gen(r, k));
        let what = if index < 4 * KINDS.len() as u64 { [0, 9, 4, 4][index as usize / KINDS.len()] } else { r.below(10) };
        match what {
            0 | 1 => P18::Session { kind, me, other, faults: if r.chance(1, 2) { gen_soft(r) } else { vec![] }, entropy: r.next(), msgs: (0..r.us(3, 8)).map(|_| gen_msg(r)).collect() },
            9 => P18::Splice { kind, me: Inp::plain(r, k), other: Inp::plain(r, k), seed: r.next(), share: r.below(4) as u8 },
            _ => {
                let (me, other) = if r.chance(3, 4) { (Inp::plain(r, k), Inp::plain(r, k)) } else { (me, other) };
                P18::Search { kind, me, other, trials: (0..40).map(|_| gen_trial(r, k)).collect() }
            }
        }
    }
    fn run(&self, p: &P18, ctx: &mut Ctx) -> Res {
        let (P18::Session { kind, .. } | P18::Search { kind, .. } | P18::Splice { kind, .. }) = p;
        let k = KINDS[*kind];
        let l = match &labs()[*kind] {
            Ok(l) => l,
            Err(e) => return viol("setup-failed", e.clone()),
        };
        ctx.mixin(*kind as u64);
        match p {
            P18::Session { me, other, faults, entropy, msgs, .. } => {
                reset_world(*entropy, 1, 0);
                let mut sent: Vec<(Vec<Fr>, Proof<Bls12_381>)> = vec![];
                for (i, inp) in [me, other].into_iter().enumerate() {
                    let v = inp.val();
                    let out = native(k, &v);
                    let ph = if i == 0 { Phase::faulty(&scale(faults, 4)) } else { Phase::clean() };
                    let (pk, v2) = (l.pk.clone(), v.clone());
                    let (o, _) = run(ph, move || (own(k, &v2), create_random_proof::<Bls12_381, _, _>(Circuit { k, v: Some(v2) }, &pk, &mut ark_std::rand::rngs::OsRng)));
                    let (mine, proof) = match o {
                        Out::Ok((mine, Ok(p))) => (mine, p),
                        Out::Ok((_, Err(e))) => return viol("honest-proof-failed", format!("{:?} {:?}: {:?}", k, inp, e)),
                        o => return viol("honest-proof-failed", format!("{:?} {:?}: {}", k, inp, o.what())),
                    };
                    // the native functions take any number of inputs
                    let long: Vec<Fr> = (0..entropy % 11).map(|i| El::gen(&mut Rng::new(mix2(*entropy, i))).fr()).collect();
                    for k in [Kind::Hash5(long.len()), Kind::Hash7(long.len())] {
                        let v = Val { xs: long.clone(), ..v.clone() };
                        if own(k, &v) != Some(native(k, &v)[0]) {
                            return viol("native-function-wrong", format!("{:?} {:?}: the repository's native function is not the key-chained hash", k, v));
                        }
                    }
                    if let Some(m) = mine {
                        if m != out[0] {
                            return viol("native-function-wrong", format!("{:?} {:?}: the repository's native function gives {}, the definition {}", k, inp, m.into_repr(), out[0].into_repr()));
                        }
                    }
                    ctx.sub += 1;
                    if !verify_proof(&l.pvk, &proof, &out).unwrap_or(false) {
                        return viol("honest-proof-rejected", format!("{:?} {:?}: a proof made from these inputs was not accepted with the native output {:?}", k, inp, out.iter().map(|x| x.into_repr().to_string()).collect::<Vec<_>>()));
                    }
                    sent.push((out, proof));
                }
                ctx.absorb();
                for m in msgs {
                    let (mut out, mut proof) = sent[0].clone();
                    let far = &sent[1];
                    let no = out.len();
                    match m {
                        Msg::Plain => {}
                        Msg::Out(i, e) => out[i % no] = e.fr(),
                        Msg::Near(i, d, neg) => out[i % no] += delta(*d, *neg),
                        Msg::Swapped => out.reverse(),
                        Msg::OtherOut => out = far.0.clone(),
                        Msg::OtherProof => proof = far.1.clone(),
                        Msg::Cross => (out, proof) = far.clone(),
                        Msg::NegA => proof.a = -proof.a,
                        Msg::SwapAC => std::mem::swap(&mut proof.a, &mut proof.c),
                        Msg::MixB => proof.b = far.1.b,
                        Msg::MixC => proof.c = far.1.c,
                        Msg::FewerOutputs => {
                            out.pop();
                        }
                        Msg::MoreOutputs => out.push(Fr::zero()),
                    }
                    // an unaltered proof speaks about its own output only; the rest cannot be a proof
                    let want = if proof == sent[0].1 {
                        out == sent[0].0
                    } else if proof == far.1 {
                        out == far.0
                    } else {
                        false
                    };
                    if *m != Msg::Plain {
                        ctx.nontrivial = true;
                        ctx.fault(match m {
                            Msg::Plain | Msg::Cross => "misdelivered_message",
                            Msg::OtherOut | Msg::OtherProof | Msg::MixB | Msg::MixC => "mixed_sessions",
                            _ => "altered_message",
                        });
                    }
                    ctx.sub += 1;
                    ctx.mixin(hash_bytes(format!("{:?}", out).as_bytes()));
                    let got = verify_proof(&l.pvk, &proof, &out).unwrap_or(false);
                    if got && !want {
                        return viol("false-output-accepted", format!("{:?} {:?}: accepted after {:?}", k, me, m));
                    }
                    if !got && want {
                        return viol("honest-proof-rejected", format!("{:?} {:?}: rejected although correct ({:?})", k, me, m));
                    }
                }
                Ok(())
            }
            P18::Search { me, other, trials, .. } => {
                reset_world(9, 1, 0);
                let val = me.val();
                let (Some(base), Some(oth)) = (honest(k, &val), honest(k, &other.val())) else { return viol("setup-failed", "no wires") };
                ctx.mixin(hash_bytes(format!("{:?}", base[1]).as_bytes()));
                if !l.net.broken(&base).is_empty() {
                    ctx.probe("honest-wires-unsatisfied");
                    return Ok(());
                }
                let again = l.forward(k, &val, &base, &Force::default());
                ctx.probe(if l.net.broken(&again).is_empty() { "recomputed-honest-wires-satisfied" } else { "recomputed-honest-wires-unsatisfied" });
                if l.truth(k, &base) != Some(true) {
                    ctx.probe(if l.truth(k, &base).is_none() { "inputs-not-on-wires" } else { "honest-output-not-native" });
                }
                ctx.nontrivial = true;
                for t in trials {
                    ctx.fault("byzantine_wire_assignment");
                    self.trial(k, l, &val, &base, &oth, t, ctx)?;
                }
                Ok(())
            }
            P18::Splice { me, other, seed, share, .. } => {
                reset_world(9, 1, 0);
                let val = me.val();
                let mut o = other.val();
                // sessions that agree on some inputs leave more seams between the others
                match share {
                    1 => o.a = val.a,
                    2 => {
                        o.b = val.b;
                        o.xs.truncate(1);
                        o.xs.extend(val.xs.iter().skip(1));
                    }
                    3 => {
                        if let (Some(x), Some(y)) = (o.xs.first_mut(), val.xs.first()) {
                            *x = *y;
                        }
                        o.e = val.e;
                    }
                    _ => {}
                }
                let (Some(a), Some(b)) = (honest(k, &val), honest(k, &o)) else { return viol("setup-failed", "no wires") };
                if !l.net.broken(&a).is_empty() || !l.net.broken(&b).is_empty() {
                    ctx.probe("honest-wires-unsatisfied");
                    return Ok(());
                }
                ctx.nontrivial = true;
                ctx.fault("spliced_sessions");
                let seams = l.net.seams(&a, &b);
                ctx.mixin(seams.len() as u64);
                ctx.mixin(hash_bytes(format!("{:?}{:?}", a[1], b[1]).as_bytes()));
                let mut masks: Vec<u64> = (0..seams.len().min(16)).flat_map(|i| [1u64 << i, !(1u64 << i)]).collect();
                let mut r = Rng::new(mix2(*seed, 7));
                masks.extend((0..8).map(|_| r.next()));
                if seams.len() < 2 {
                    masks.clear();
                }
                for mask in masks {
                    let mut v = a.clone();
                    for (i, s) in seams.iter().enumerate() {
                        if mask >> (i % 64) & 1 == 1 {
                            for &w in s {
                                v[w] = b[w];
                            }
                        }
                    }
                    ctx.sub += 1;
                    if l.net.broken(&v).is_empty() {
                        self.judge(k, l, &val, &v, "wires of two honest sessions spliced".into(), ctx)?;
                    }
                }
                Ok(())
            }
        }
    }
    fn shrink(&self, p: &P18) -> Vec<P18> {
        let mut out = vec![];
        match p {
            P18::Session { kind, me, other, faults, entropy, msgs } => {
                let mk = |f: Vec<PF>, m: Vec<Msg>| P18::Session { kind: *kind, me: me.clone(), other: other.clone(), faults: f, entropy: *entropy, msgs: m };
                out.extend(shrink_list(faults).into_iter().map(|f| mk(f, msgs.clone())));
                out.extend(shrink_list(msgs).into_iter().map(|m| mk(faults.clone(), m)));
            }
            P18::Search { kind, me, other, trials } => {
                let mk = |t: Vec<Trial>| P18::Search { kind: *kind, me: me.clone(), other: other.clone(), trials: t };
                out.extend(shrink_list(trials).into_iter().map(mk));
                if let [t] = &trials[..] {
                    out.extend(shrink_list(&t.devs).into_iter().map(|d| mk(vec![Trial { devs: d, knob: t.knob.clone() }])));
                    if t.knob.is_some() {
                        out.push(mk(vec![Trial { devs: t.devs.clone(), knob: None }]));
                    }
                }
            }
            P18::Splice { .. } => {}
        }
        out
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["circuit::{pow,equal,mimc3_df,mimc5_df,mimc5_hash,mimc7_hash}_circuit (constraint systems)", "mimc::{mimc_df,mimc_hash} (native functions)", "ark-groth16, ark-relations, ark-bls12-381 (setup, proving, verification)"]
    }
    fn stub(&self) -> Vec<&'static str> {
        vec!["entropy comes from the simulator", "the network between prover and verifier", "the Byzantine prover's wire values are chosen by the simulator, its proof is computed by the real prover code of ark-groth16", "what is true is decided by independent native functions"]
    }
}
