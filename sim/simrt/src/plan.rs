//! Building blocks for plans: fault positions relative to a dry run, generators, shrinkers.
use crate::rng::Rng;
use crate::world::{Fault, FaultKind};
use serde::{Deserialize, Serialize};

/// Where in a phase a fault strikes, relative to the number of operations of a fault-free run.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Pos {
    /// parts per million of the dry run
    Ppm(u32),
    /// operation number from the start
    Head(u32),
    /// operation number from the end
    Tail(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct PF {
    pub pos: Pos,
    pub kind: FaultKind,
}

pub fn at(p: &Pos, ops: u64) -> u64 {
    match p {
        Pos::Ppm(x) => ops.saturating_mul(*x as u64) / 1_000_000,
        Pos::Head(x) => *x as u64,
        Pos::Tail(x) => ops.saturating_sub(1 + *x as u64),
    }
}

pub fn scale(f: &[PF], ops: u64) -> Vec<Fault> {
    let mut v: Vec<Fault> = f.iter().map(|x| Fault { at: at(&x.pos, ops), kind: x.kind.clone() }).collect();
    v.sort_by_key(|x| x.at);
    v
}

pub fn gen_pos(r: &mut Rng) -> Pos {
    match r.below(8) {
        0 => Pos::Head(r.below(8) as u32),
        1 | 2 => Pos::Tail(r.below(8) as u32),
        _ => Pos::Ppm(r.below(1_000_000) as u32),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Family {
    /// the disk works, only not always in one piece
    Soft,
    /// reads go wrong
    Read,
    /// writes go wrong
    Write,
    Both,
}

pub fn gen_kind(r: &mut Rng, fam: Family) -> FaultKind {
    let p = |r: &mut Rng| if r.chance(1, 6) { 0 } else { r.below(1000) as u32 };
    let soft = |r: &mut Rng| match r.below(7) {
        0 | 1 => FaultKind::ShortRead(p(r)),
        2 | 3 => FaultKind::ShortWrite(p(r)),
        4 => FaultKind::MonoJump(*r.pick(&[1, 1000, 10_000_000, 1_000_000_000]) * r.range(1, 9)),
        5 => FaultKind::WallJump(r.range(1, 1_000_000_000_000) as i64 - 500_000_000_000),
        _ => FaultKind::GetrandomShort(p(r)),
    };
    let open = |r: &mut Rng| FaultKind::OpenFail(*r.pick(&[libc::EACCES, libc::EMFILE, libc::EIO, libc::EROFS, libc::ENOSPC]));
    let rd = |r: &mut Rng| match r.below(8) {
        0 | 1 | 2 => FaultKind::EioRead,
        3 => FaultKind::EintrRead,
        4 => FaultKind::SeekFail,
        5 => open(r),
        _ => FaultKind::ShortRead(p(r)),
    };
    let wr = |r: &mut Rng| match r.below(11) {
        0 | 1 => FaultKind::EioWrite,
        2 => FaultKind::EintrWrite,
        3 | 4 => FaultKind::TornWrite(r.below(1000) as u32),
        5 | 6 => FaultKind::Enospc(r.below(1000) as u32),
        7 => FaultKind::SeekFail,
        8 => open(r),
        9 => FaultKind::ShortWrite(p(r)),
        _ => match r.below(3) {
            0 => FaultKind::SyncFail,
            1 => FaultKind::TruncFail,
            _ => FaultKind::EioWrite,
        },
    };
    match fam {
        Family::Soft => soft(r),
        Family::Read => {
            if r.chance(1, 5) {
                soft(r)
            } else {
                rd(r)
            }
        }
        Family::Write => {
            if r.chance(1, 5) {
                soft(r)
            } else {
                wr(r)
            }
        }
        Family::Both => match r.below(5) {
            0 => soft(r),
            1 | 2 => rd(r),
            _ => wr(r),
        },
    }
}

/// A fault list: usually one or two hard faults, sometimes a storm of soft ones.
pub fn gen_faults(r: &mut Rng, fam: Family) -> Vec<PF> {
    let n = match r.below(10) {
        0 => 0,
        1..=5 => 1,
        6 | 7 => 2,
        8 => r.us(3, 6),
        _ => r.us(8, 40),
    };
    let f = if n > 6 { Family::Soft } else { fam };
    (0..n).map(|_| PF { pos: gen_pos(r), kind: gen_kind(r, f) }).collect()
}

/// A storm of soft faults only.
pub fn gen_soft(r: &mut Rng) -> Vec<PF> {
    if r.chance(1, 3) {
        return vec![PF { pos: Pos::Head(0), kind: FaultKind::Piecemeal(*r.pick(&[30, 300, 700, 1000]), r.next()) }];
    }
    let n = *r.pick(&[1usize, 2, 4, 12, 40]);
    (0..n).map(|_| PF { pos: gen_pos(r), kind: gen_kind(r, Family::Soft) }).collect()
}

/// Smaller versions of a list: halves first, then single removals.
pub fn shrink_list<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let mut out = vec![];
    let n = v.len();
    if n == 0 {
        return out;
    }
    out.push(vec![]);
    if n > 2 {
        out.push(v[..n / 2].to_vec());
        out.push(v[n / 2..].to_vec());
    }
    if n > 1 {
        for i in 0..n.min(40) {
            let mut w = v.to_vec();
            w.remove(i);
            out.push(w);
        }
    }
    out
}

/// Smaller versions of a number, not below `lo`.
pub fn shrink_num(x: usize, lo: usize) -> Vec<usize> {
    let mut out = vec![];
    if x > lo {
        out.push(lo);
        let mid = lo + (x - lo) / 2;
        if mid != lo {
            out.push(mid);
        }
        if x - 1 != mid && x - 1 != lo {
            out.push(x - 1);
        }
    }
    out
}
