//! Parameters, data and dependency reference for the storage simulations.
use postorage_real::proof_of_storage::postorage::PosPara;
use postorage_real::proof_of_storage::{common, merkle_tree, prover, verifier};
use postorage_real::vde::rug_sloth::{P_1024, P_2048, P_512};
use rug::Integer;
use serde::{Deserialize, Serialize};
use simrt::plan::*;
use simrt::{run, world, Out, Phase, PhaseInfo, Rng};
use std::str::FromStr;

pub const O: &str = "store/origin";
pub const S: &str = "store/sealed";
pub const U: &str = "store/unsealed";
pub const K: &str = "store/pub";

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Para {
    pub blocks: usize,
    pub units: usize,
    /// 64, 128 or 256 bytes per stored unit
    pub pl: usize,
    pub seal_rounds: usize,
    pub vde_rounds: usize,
    pub mode_l: usize,
    pub cnt_l: usize,
    pub mode_s: usize,
    pub cnt_s: usize,
}
impl Para {
    pub fn real(&self) -> PosPara {
        let l = self.pl - 1;
        PosPara {
            data_l: l * self.units * self.blocks,
            unit_l: l,
            block_l: l * self.units,
            big_block_l: l * self.units * self.blocks,
            unit_pl: self.pl,
            block_pl: self.pl * self.units,
            big_block_pl: self.pl * self.units * self.blocks,
            seal_rounds: self.seal_rounds,
            vde_rounds: self.vde_rounds,
            vde_mode: "sloth".to_string(),
            mode_l: self.mode_l,
            mode_s: self.mode_s,
            cnt_l: self.cnt_l,
            cnt_s: self.cnt_s,
            leaves_to_prove_count: 1,
        }
    }
    pub fn unit_l(&self) -> usize {
        self.pl - 1
    }
    pub fn block_l(&self) -> usize {
        self.unit_l() * self.units
    }
    pub fn block_pl(&self) -> usize {
        self.pl * self.units
    }
    pub fn data_l(&self) -> usize {
        self.block_l() * self.blocks
    }
    pub fn key(&self) -> Integer {
        Integer::from_str(match self.pl {
            64 => P_512,
            128 => P_1024,
            _ => P_2048,
        })
        .unwrap()
    }
    /// Small enough that a seal takes milliseconds.
    pub fn gen(r: &mut Rng) -> Para {
        let pl = *r.pick(&[64, 64, 64, 64, 64, 64, 64, 128, 256]);
        let (mut blocks, mut units) = (r.us(1, 14), r.us(1, 6));
        match r.below(30) {
            0 if pl == 64 => {
                blocks = r.us(250, 280);
                units = 1
            }
            1 if pl == 64 => {
                units = r.us(250, 270);
                blocks = r.us(1, 2)
            }
            2 => blocks = r.us(20, 40),
            3 | 4 if pl == 64 => {
                units = r.us(7, 70);
                blocks = r.us(1, 4)
            }
            5 if pl == 64 => {
                blocks = r.us(15, 130);
                units = r.us(1, 2)
            }
            _ => {}
        }
        if pl > 64 {
            blocks = blocks.min(5);
            units = units.min(3);
        }
        let big = blocks * units > 60;
        let mode_l = *r.pick(&[0, 0, 0, 1, 2, 3]);
        let mode_s = *r.pick(&[0, 0, 1, 2]);
        Para {
            blocks,
            units,
            pl,
            seal_rounds: if big { *r.pick(&[1, 1, 1, 2]) } else { *r.pick(&[1, 1, 1, 1, 2, 2, 2, 3, 3, 5]) },
            vde_rounds: if big || pl > 64 { 1 } else { *r.pick(&[1, 1, 1, 1, 1, 1, 2, 2, 3, 3, 7, 10]) },
            mode_l,
            cnt_l: match r.below(6) {
                0 | 1 => 0,
                2 => r.us(6, if big { 12 } else { 40 }),
                _ => r.us(1, 4),
            },
            mode_s,
            cnt_s: match r.below(6) {
                0 => 0,
                1 => r.us(8, if big { 12 } else { 40 }),
                2 | 3 if units > 10 => r.us(8, 40),
                _ => r.us(1, 6),
            },
        }
    }
    /// At most `b` blocks.
    pub fn gen_small(r: &mut Rng, b: usize) -> Para {
        let mut p = Para::gen(r);
        p.blocks = 1 + (p.blocks - 1) % b;
        p.units = 1 + (p.units - 1) % 6;
        if p.pl == 64 && r.chance(1, 12) {
            p.blocks = 1 + (p.blocks - 1) % 3;
            p.units = r.us(7, 40);
            p.seal_rounds = p.seal_rounds.min(2);
            p.vde_rounds = 1;
            if r.chance(1, 2) {
                p.cnt_s = r.us(8, 40);
            }
        }
        p
    }
    /// Blocks of more than 64 KiB.
    pub fn gen_wide(r: &mut Rng) -> Para {
        let mut p = Para::gen(r);
        (p.pl, p.units, p.blocks, p.vde_rounds, p.seal_rounds) = (64, r.us(1025, 1200), r.us(1, 2), 1, 1);
        p
    }
    pub fn shrinks(&self) -> Vec<Para> {
        let mut out = vec![];
        for x in shrink_num(self.blocks, 1) {
            out.push(Para { blocks: x, ..self.clone() });
        }
        for x in shrink_num(self.units, 1) {
            out.push(Para { units: x, ..self.clone() });
        }
        if self.pl != 64 {
            out.push(Para { pl: 64, ..self.clone() });
        }
        for x in shrink_num(self.seal_rounds, 1) {
            out.push(Para { seal_rounds: x, ..self.clone() });
        }
        for x in shrink_num(self.vde_rounds, 1) {
            out.push(Para { vde_rounds: x, ..self.clone() });
        }
        for x in shrink_num(self.cnt_l, 0) {
            out.push(Para { cnt_l: x, ..self.clone() });
        }
        for x in shrink_num(self.cnt_s, 0) {
            out.push(Para { cnt_s: x, ..self.clone() });
        }
        if self.mode_l > 1 {
            out.push(Para { mode_l: 1, ..self.clone() });
        }
        if self.mode_s > 1 {
            out.push(Para { mode_s: 1, ..self.clone() });
        }
        out
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Data {
    pub kind: u8,
    pub seed: u64,
}
impl Data {
    pub fn gen(r: &mut Rng) -> Data {
        Data { kind: *r.pick(&[0, 0, 0, 0, 1, 2, 3, 4]), seed: r.next() }
    }
    pub fn bytes(&self, n: usize) -> Vec<u8> {
        let mut r = Rng::new(self.seed);
        match self.kind {
            1 => vec![0; n],
            2 => vec![0xff; n],
            3 => {
                let k = r.us(1, 80);
                let p = r.bytes(k);
                (0..n).map(|i| p[i % k]).collect()
            }
            4 => {
                let mut v = vec![0; n];
                for _ in 0..1 + n / 100 {
                    let i = r.us(0, n.max(1) - 1);
                    if n > 0 {
                        v[i] = r.next() as u8;
                    }
                }
                v
            }
            _ => r.bytes(n),
        }
    }
}
/// The iv of a plan: usually the 128 bytes prepare_params() makes, sometimes other lengths.
pub fn iv_of(seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let n = *r.pick(&[128, 128, 128, 128, 0, 1, 16, 200]);
    r.bytes(n)
}

// ---- the dependency rules, written from their documentation ------------------------------

/// Blocks whose content enters the sealing of block `i`, besides its predecessor.
pub fn long_deps(p: &Para, i: usize, pred_id: &[u8]) -> Vec<usize> {
    if i == 0 {
        return vec![];
    }
    match p.mode_l {
        0 => {
            let n = if p.cnt_l == 0 { i / 10 + 1 } else { p.cnt_l };
            random_deps(p.blocks, pred_id, i, n)
        }
        1 => (0..p.cnt_l).map(|k| 1 + 2 * k).filter(|&d| d <= i).map(|d| i - d).collect(),
        2 => (0..p.cnt_l.min(60)).map(|k| 1 + (1usize << k)).filter(|&d| d <= i).map(|d| i - d).collect(),
        3 => (0..(i / 10).min(60)).map(|k| 1 + (1usize << k)).filter(|&d| d <= i).map(|d| i - d).collect(),
        _ => vec![],
    }
}
fn random_deps(num: usize, data: &[u8], index: usize, count: usize) -> Vec<usize> {
    let step = if num <= 256 {
        1
    } else if num <= 65536 {
        2
    } else {
        3
    };
    let mut out = vec![];
    let mut h: Vec<u8> = blake3::hash(data).as_bytes()[..16].to_vec();
    let rounds = (count / (8 * step)).max(1);
    for k in 0..rounds {
        if k > 0 {
            h = blake3::hash(&h).as_bytes()[..16].to_vec();
        }
        for c in h.chunks_exact(step) {
            if out.len() < count {
                let v: usize = c.iter().enumerate().map(|(j, &b)| j * 256 + b as usize).sum();
                out.push(v % index);
            }
        }
    }
    out.sort();
    out.dedup();
    out
}
pub fn id_of(sealed: &[u8], p: &Para, i: usize) -> Vec<u8> {
    blake3::hash(&sealed[i * p.block_pl()..(i + 1) * p.block_pl()]).as_bytes().to_vec()
}
/// Every stored block an audit of block `i` must notice damage in.
pub fn touched(p: &Para, sealed: &[u8], i: usize) -> Vec<usize> {
    let mut v = vec![i];
    if i > 0 {
        v.push(i - 1);
        v.extend(long_deps(p, i, &id_of(sealed, p, i - 1)));
    }
    v.sort();
    v.dedup();
    v
}

// ---- the real operations, each in a phase of its own -------------------------------------

pub fn pad_seal(p: &Para, iv: &[u8], ph: Phase) -> (Out<Vec<Vec<u8>>>, PhaseInfo) {
    let (q, key, iv) = (p.real(), p.key(), iv.to_vec());
    run(ph, move || {
        prover::copy_and_pad(O, S, q.data_l, q.unit_l);
        prover::seal(&q, S, &key, &iv).0
    })
}
pub fn unseal_compress(p: &Para, iv: &[u8], ph: Phase) -> (Out<()>, PhaseInfo) {
    let (q, key, iv) = (p.real(), p.key(), iv.to_vec());
    run(ph, move || {
        prover::unseal(&q, S, &key, &iv);
        prover::copy_and_compress(S, U, q.data_l, q.unit_l, q.unit_pl);
    })
}
pub type Block = Vec<Vec<u8>>;
pub type Msg = (Block, Vec<u8>, Vec<Block>);
pub fn prepare_one(p: &Para, i: usize, ph: Phase) -> (Out<Msg>, PhaseInfo) {
    let q = p.real();
    run(ph, move || verifier::single_unseal_prepare(S, i, &q))
}
pub fn get(path: &str) -> Vec<u8> {
    world().fs.get(path).cloned().unwrap_or_default()
}
pub fn put(path: &str, d: &[u8]) {
    world().fs.put(path, d)
}
/// Block `i` of the original, in the padded form unsealing yields.
pub fn want_block(p: &Para, origin: &[u8], i: usize) -> Block {
    let b = &origin[i * p.block_l()..(i + 1) * p.block_l()];
    b.chunks(p.unit_l())
        .map(|c| {
            let mut v = c.to_vec();
            v.push(0);
            v
        })
        .collect()
}
pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("{} bytes instead of {}", a.len(), b.len());
    }
    match (0..a.len()).find(|&i| a[i] != b[i]) {
        Some(i) => format!("byte {} is {} instead of {}", i, a[i], b[i]),
        None => "equal".into(),
    }
}

/// A verifier call counts as acceptance unless it fails visibly in whatever way it can.
pub trait Verdict {
    fn accepted(self) -> bool;
}
impl Verdict for () {
    fn accepted(self) -> bool {
        true
    }
}
impl Verdict for bool {
    fn accepted(self) -> bool {
        self
    }
}
impl<T: Verdict, E> Verdict for Result<T, E> {
    fn accepted(self) -> bool {
        self.map_or(false, |t| t.accepted())
    }
}
#[allow(dead_code)]
pub fn uses() {
    let _ = (common::blake3_hash, merkle_tree::verify_merkle_proof);
}

/// What a path held before a run.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Old {
    pub len: Option<usize>,
    pub seed: u64,
}
impl Old {
    pub fn gen(r: &mut Rng, around: usize) -> Old {
        Old {
            len: match r.below(5) {
                0 | 1 => None,
                2 => Some(r.us(0, around)),
                3 => Some(around + r.us(1, 3000)),
                _ => Some(around),
            },
            seed: r.next(),
        }
    }
    pub fn apply(&self, path: &str) {
        match self.len {
            None => {
                world().fs.unlink(path);
            }
            Some(n) => put(path, &Rng::new(self.seed).bytes(n)),
        }
    }
    pub fn none() -> Old {
        Old { len: None, seed: 0 }
    }
}
