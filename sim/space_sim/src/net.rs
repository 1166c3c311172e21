//! Constraint systems as the code under test synthesises them, from a Byzantine prover's point of view.
use ark_bls12_381::Fr;
use ark_ff::{Field, One, Zero};
use ark_relations::r1cs::ConstraintSystemRef;
use std::collections::{BTreeMap, BTreeSet};

pub type Lc = Vec<(usize, Fr)>;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    Free(usize),
    Def(usize, usize),
    Check,
}
/// A constraint system as the code under test synthesises it, and an order in which its wires can be
/// computed one after another.
pub struct Net {
    /// One and the public inputs come first
    pub ni: usize,
    pub nv: usize,
    pub cons: Vec<[Lc; 3]>,
    pub steps: Vec<Step>,
}
impl Net {
    pub fn of(cs: &ConstraintSystemRef<Fr>) -> Option<Net> {
        cs.finalize();
        let mx = cs.to_matrices()?;
        let conv = |v: &Vec<(Fr, usize)>| -> Lc { v.iter().filter(|e| !e.0.is_zero()).map(|&(c, i)| (i, c)).collect() };
        let cons: Vec<[Lc; 3]> = (0..mx.a.len()).map(|i| [conv(&mx.a[i]), conv(&mx.b[i]), conv(&mx.c[i])]).collect();
        let ni = mx.num_instance_variables;
        let nv = ni + mx.num_witness_variables;
        let mut seen = vec![false; nv];
        seen[0] = true;
        let mut steps = vec![];
        for (ci, c) in cons.iter().enumerate() {
            let mut un: BTreeSet<usize> = BTreeSet::new();
            for l in c {
                un.extend(l.iter().map(|e| e.0).filter(|&v| !seen[v]));
            }
            let has = |l: &Lc, v: usize| l.iter().any(|e| e.0 == v);
            let lin: Vec<usize> = un.iter().copied().filter(|&v| !(has(&c[0], v) && has(&c[1], v))).collect();
            // not linear in two unknowns of different factors at once, but a guess for one of them helps
            let def = lin.iter().copied().filter(|&v| v >= ni).max().or(lin.iter().copied().max());
            for &v in &un {
                seen[v] = true;
                if Some(v) != def {
                    steps.push(Step::Free(v));
                }
            }
            steps.push(def.map_or(Step::Check, |v| Step::Def(v, ci)));
        }
        for v in 1..nv {
            if !seen[v] {
                steps.push(Step::Free(v));
            }
        }
        Some(Net { ni, nv, cons, steps })
    }
    /// Wire w from constraint c, all others given.
    pub fn solve(&self, v: &mut [Fr], w: usize, c: usize, otherwise: Fr) {
        v[w] = Fr::zero();
        let [a, b, c] = &self.cons[c];
        let co = |l: &Lc| l.iter().filter(|e| e.0 == w).map(|e| e.1).fold(Fr::zero(), |s, x| s + x);
        let (va, vb, vc) = (dot(a, v), dot(b, v), dot(c, v));
        // (va + ca t) * (vb + cb t) = vc + cc t with ca or cb zero
        let k = co(a) * vb + co(b) * va - co(c);
        let rhs = vc - va * vb;
        v[w] = if k == -Fr::one() {
            -rhs
        } else if k.is_one() {
            rhs
        } else {
            match k.inverse() {
                Some(i) => rhs * i,
                None => otherwise,
            }
        };
    }
    pub fn broken(&self, v: &[Fr]) -> Vec<(usize, Fr)> {
        let mut out = vec![];
        for i in 0..self.cons.len() {
            let r = self.residual(v, i);
            if !r.is_zero() {
                out.push((i, r));
            }
        }
        out
    }
    pub fn residual(&self, v: &[Fr], i: usize) -> Fr {
        let [a, b, c] = &self.cons[i];
        dot(a, v) * dot(b, v) - dot(c, v)
    }
    /// Classes of wires that differ between two assignments and share a constraint.
    pub fn seams(&self, a: &[Fr], b: &[Fr]) -> Vec<Vec<usize>> {
        let mut up: Vec<usize> = (0..self.nv).collect();
        fn find(up: &mut Vec<usize>, mut x: usize) -> usize {
            while up[x] != x {
                up[x] = up[up[x]];
                x = up[x];
            }
            x
        }
        for con in &self.cons {
            let vs: Vec<usize> = con.iter().flat_map(|l| l.iter().map(|e| e.0)).filter(|&v| a[v] != b[v]).collect();
            for w in vs.windows(2) {
                let (x, y) = (find(&mut up, w[0]), find(&mut up, w[1]));
                up[x] = y;
            }
        }
        let mut classes: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for v in 0..self.nv {
            if a[v] != b[v] {
                let k = find(&mut up, v);
                classes.entry(k).or_default().push(v);
            }
        }
        classes.into_values().collect()
    }
}

pub fn wires(cs: &ConstraintSystemRef<Fr>) -> Vec<Fr> {
    let c = cs.borrow().unwrap();
    c.instance_assignment.iter().chain(c.witness_assignment.iter()).copied().collect()
}
pub fn dot(l: &Lc, v: &[Fr]) -> Fr {
    let mut s = Fr::zero();
    for (i, c) in l {
        if c.is_one() {
            s += v[*i];
        } else {
            s += v[*i] * c;
        }
    }
    s
}

pub fn nth(k: u32, n: usize) -> usize {
    (k as u64 * n as u64 / 1_000_000) as usize
}

