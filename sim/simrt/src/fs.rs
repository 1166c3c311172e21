//! The simulated file system: files live in memory, survive simulated process restarts, and
//! remember which writes have not been made durable yet (for simulated power loss).
use crate::rng::Rng;
use std::collections::BTreeMap;

pub const FD_BASE: i32 = 1 << 20;

#[derive(Clone, Debug)]
enum Pend {
    Write(usize, Vec<u8>),
    Trunc(usize),
}

#[derive(Clone, Debug, Default)]
pub struct Inode {
    pub data: Vec<u8>,
    durable: Vec<u8>,
    pend: Vec<Pend>,
    ever_durable: bool,
}

#[derive(Clone, Debug)]
pub struct Fd {
    pub ino: usize,
    pub pos: u64,
    pub flags: i32,
}

#[derive(Clone, Debug, Default)]
pub struct SimFs {
    pub names: BTreeMap<String, usize>,
    pub inodes: Vec<Inode>,
    /// descriptor table: index of an open file description
    pub fds: Vec<Option<usize>>,
    pub ofds: Vec<Fd>,
    pub track: bool,
    pub capacity: Option<u64>,
}

fn norm(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            x => out.push(x),
        }
    }
    out.join("/")
}

impl SimFs {
    pub fn lookup(&self, p: &str) -> Option<usize> {
        self.names.get(&norm(p)).copied()
    }
    pub fn is_dir(&self, p: &str) -> bool {
        let n = norm(p);
        if n.is_empty() {
            return true;
        }
        let pre = format!("{}/", n);
        self.names.range(pre.clone()..).next().map_or(false, |(k, _)| k.starts_with(&pre))
    }
    pub fn create(&mut self, p: &str) -> usize {
        let i = self.inodes.len();
        self.inodes.push(Inode::default());
        self.names.insert(norm(p), i);
        i
    }
    pub fn unlink(&mut self, p: &str) -> bool {
        self.names.remove(&norm(p)).is_some()
    }
    pub fn rename(&mut self, a: &str, b: &str) -> bool {
        match self.names.remove(&norm(a)) {
            Some(i) => {
                self.names.insert(norm(b), i);
                true
            }
            None => false,
        }
    }
    /// Harness access: content of a file, bypassing the simulation.
    pub fn get(&self, p: &str) -> Option<&Vec<u8>> {
        self.lookup(p).map(|i| &self.inodes[i].data)
    }
    /// Harness access: put a file there, already durable.
    pub fn put(&mut self, p: &str, data: &[u8]) {
        let i = match self.lookup(p) {
            Some(i) => i,
            None => self.create(p),
        };
        let n = &mut self.inodes[i];
        n.data = data.to_vec();
        n.durable = data.to_vec();
        n.pend.clear();
        n.ever_durable = true;
    }
    pub fn total(&self) -> u64 {
        self.names.values().map(|&i| self.inodes[i].data.len() as u64).sum()
    }
    pub fn fd(&mut self, fd: i32) -> Option<&mut Fd> {
        let i = (fd - FD_BASE) as usize;
        let o = self.fds.get(i).copied().flatten()?;
        self.ofds.get_mut(o)
    }
    pub fn alloc_fd(&mut self, f: Fd) -> i32 {
        self.ofds.push(f);
        let o = self.ofds.len() - 1;
        self.slot(o)
    }
    /// A second descriptor for the same open file (shared offset).
    pub fn dup_fd(&mut self, fd: i32) -> Option<i32> {
        let o = self.fds.get((fd - FD_BASE) as usize).copied().flatten()?;
        Some(self.slot(o))
    }
    fn slot(&mut self, o: usize) -> i32 {
        for (i, s) in self.fds.iter_mut().enumerate() {
            if s.is_none() {
                *s = Some(o);
                return FD_BASE + i as i32;
            }
        }
        self.fds.push(Some(o));
        FD_BASE + self.fds.len() as i32 - 1
    }
    pub fn close(&mut self, fd: i32) -> bool {
        let i = (fd - FD_BASE) as usize;
        match self.fds.get_mut(i) {
            Some(s) if s.is_some() => {
                *s = None;
                true
            }
            _ => false,
        }
    }
    pub fn write_at(&mut self, ino: usize, off: usize, d: &[u8]) {
        let track = self.track;
        let n = &mut self.inodes[ino];
        if n.data.len() < off {
            n.data.resize(off, 0);
        }
        let over = d.len().min(n.data.len() - off);
        n.data[off..off + over].copy_from_slice(&d[..over]);
        n.data.extend_from_slice(&d[over..]);
        if track {
            n.pend.push(Pend::Write(off, d.to_vec()));
        }
    }
    pub fn truncate(&mut self, ino: usize, len: usize) {
        let track = self.track;
        let n = &mut self.inodes[ino];
        n.data.resize(len, 0);
        if track {
            n.pend.push(Pend::Trunc(len));
        }
    }
    pub fn sync(&mut self, ino: usize) {
        if self.track {
            let n = &mut self.inodes[ino];
            n.durable = n.data.clone();
            n.ever_durable = true;
            n.pend.clear();
        }
    }
    /// Start tracking durability; everything present now counts as durable.
    pub fn start_tracking(&mut self) {
        self.track = true;
        for n in self.inodes.iter_mut() {
            n.durable = n.data.clone();
            n.ever_durable = true;
            n.pend.clear();
        }
    }
    pub fn stop_tracking(&mut self) {
        self.track = false;
        for n in self.inodes.iter_mut() {
            n.durable = vec![];
            n.pend.clear();
        }
    }
    /// Power loss: each not-yet-durable operation survives or not, writes may be torn.
    /// keep is in permille. Returns how many operations were lost or torn.
    pub fn power_loss(&mut self, rng: &mut Rng, keep: u32) -> u64 {
        let mut lost = 0;
        for n in self.inodes.iter_mut() {
            let mut d = n.durable.clone();
            for p in n.pend.drain(..) {
                if !rng.chance(keep as u64, 1000) {
                    lost += 1;
                    continue;
                }
                match p {
                    Pend::Trunc(l) => d.resize(l, 0),
                    Pend::Write(off, w) => {
                        let mut k = w.len();
                        if k > 1 && rng.chance(1, 8) {
                            k = rng.us(1, k - 1);
                            lost += 1;
                        }
                        if d.len() < off + k {
                            d.resize(off + k, 0);
                        }
                        d[off..off + k].copy_from_slice(&w[..k]);
                    }
                }
            }
            n.data = d.clone();
            n.durable = d;
        }
        self.fds.clear();
        self.ofds.clear();
        lost
    }
    pub fn close_all(&mut self) {
        self.fds.clear();
        self.ofds.clear();
    }
}
