//! Independent reference model of the space protocol: delay function, chained hash, table layout.
//! Written from the protocol description; shares no code with /repo.
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, Field, PrimeField};
use serde::{Deserialize, Serialize};
use simrt::rng::mix2;
use simrt::Rng;

pub const P: &str = "space/table";

/// A field element chosen by a plan.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum El {
    Rand(u64),
    Small(u64),
    /// -x
    Neg(u64),
}
impl El {
    pub fn fr(&self) -> Fr {
        match self {
            El::Rand(s) => {
                let mut r = Rng::new(*s);
                Fr::from_le_bytes_mod_order(&r.bytes(48))
            }
            El::Small(x) => Fr::from(*x),
            El::Neg(x) => -Fr::from(*x),
        }
    }
    pub fn gen(r: &mut Rng) -> El {
        match r.below(12) {
            0 => El::Small(r.below(3)),
            1 => El::Small(r.next()),
            2 => El::Neg(r.range(1, 5)),
            _ => El::Rand(r.next()),
        }
    }
}

pub fn consts(seed: u64, n: usize) -> Vec<Fr> {
    (0..n).map(|i| Fr::from_le_bytes_mod_order(&Rng::new(mix2(seed, i as u64)).bytes(48))).collect()
}

fn p5(t: Fr) -> Fr {
    let q = t.square().square();
    q * t
}

/// y = Feistel network with x -> x^5 over (x+key, m)
pub fn df(x: Fr, key: Fr, m: Fr, c: &[Fr]) -> Fr {
    let (mut l, mut r) = (x + key, m);
    for k in c {
        let n = p5(l + k) + r;
        r = l;
        l = n;
    }
    l
}

pub fn low(y: Fr, n: usize) -> usize {
    let b = y.into_repr().to_bytes_le();
    let mut v = 0u64;
    for i in 0..8 {
        v |= (b[i] as u64) << (8 * i);
    }
    (v & ((1u64 << n) - 1)) as usize
}

pub fn hash1(x: Fr, key: Fr, c: &[Fr]) -> Fr {
    let mut h = p5(x + key);
    for k in &c[1..] {
        h = p5(h + key + k);
    }
    h + key
}

pub fn chain(xs: &[Fr], key: Fr, c: &[Fr]) -> Fr {
    let mut r = key;
    for x in xs {
        let h = hash1(*x, r, c);
        r = r + x + h;
    }
    r
}

pub fn size(n: usize) -> usize {
    (n + 1) * (1 << n) / 8
}

/// slot -> set of preimages
pub fn preimages(n: usize, key: Fr, m: Fr, c: &[Fr]) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]; 1 << n];
    for x in 0..1usize << n {
        v[low(df(Fr::from(x as u64), key, m, c), n)].push(x);
    }
    v
}

fn bit(t: &[u8], i: usize) -> bool {
    t[i / 8] >> (i % 8) & 1 == 1
}

/// (x, flag) of a slot
pub fn slot(t: &[u8], n: usize, y: usize) -> (usize, bool) {
    let base = (n + 1) * y;
    let mut x = 0;
    for i in 0..n {
        if bit(t, base + i) {
            x |= 1 << i;
        }
    }
    (x, bit(t, base + n))
}

pub fn put_slot(t: &mut [u8], n: usize, y: usize, x: usize, flag: bool) {
    let base = (n + 1) * y;
    for i in 0..=n {
        let v = if i < n { x >> i & 1 == 1 } else { flag };
        let k = base + i;
        if v {
            t[k / 8] |= 1 << (k % 8);
        } else {
            t[k / 8] &= !(1 << (k % 8));
        }
    }
}

/// The whole table is right, or a description of what is wrong.
pub fn table_ok(t: &[u8], n: usize, pre: &[Vec<usize>]) -> Result<(), String> {
    if t.len() != size(n) {
        return Err(format!("file has {} bytes, expected {}", t.len(), size(n)));
    }
    for y in 0..1usize << n {
        let (x, f) = slot(t, n, y);
        if pre[y].is_empty() {
            if f || x != 0 {
                return Err(format!("slot {} has no preimage but holds x={} flag={}", y, x, f));
            }
        } else if !f {
            return Err(format!("slot {} is reachable (from {:?}) but not flagged", y, pre[y]));
        } else if !pre[y].contains(&x) {
            return Err(format!("slot {} holds x={}, its preimages are {:?}", y, x, pre[y]));
        }
    }
    Ok(())
}
