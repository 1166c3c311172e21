//! Global simulator state: file system, clock, entropy, faults, scheduler.
//! Exactly one thread at a time may touch it: the simulated thread holding the baton, or the
//! harness thread while no phase is running.
use crate::fs::SimFs;
use crate::raw;
use crate::rng::{mix, Rng};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum FaultKind {
    /// read returns only part (permille of the request, at least 1 byte, less than all)
    ShortRead(u32),
    EintrRead,
    EioRead,
    ShortWrite(u32),
    EintrWrite,
    EioWrite,
    /// part of the data reaches the file, the call reports EIO
    TornWrite(u32),
    /// disk full from here to the end of the phase (first write stores permille of its data)
    Enospc(u32),
    OpenFail(i32),
    SeekFail,
    SyncFail,
    TruncFail,
    /// the process stops dead at this operation; a write in flight stores permille of its data
    Crash(u32),
    /// monotonic clock jumps forward by that many ms (machine suspended); wall clock by any amount
    MonoJump(u64),
    WallJump(i64),
    GetrandomEintr,
    GetrandomShort(u32),
    /// the thread creation after that many successful ones fails
    SpawnFail(u32),
    /// a disk that works in pieces: from here to the end of the phase every read and write is
    /// short with this probability (permille; the second number chooses which and by how much)
    Piecemeal(u32, u64),
}

impl FaultKind {
    pub fn name(&self) -> &'static str {
        match self {
            FaultKind::ShortRead(_) => "short_read",
            FaultKind::EintrRead => "eintr_read",
            FaultKind::EioRead => "eio_read",
            FaultKind::ShortWrite(_) => "short_write",
            FaultKind::EintrWrite => "eintr_write",
            FaultKind::EioWrite => "eio_write",
            FaultKind::TornWrite(_) => "torn_write_eio",
            FaultKind::Enospc(_) => "enospc",
            FaultKind::OpenFail(_) => "open_fail",
            FaultKind::SeekFail => "seek_fail",
            FaultKind::SyncFail => "sync_fail",
            FaultKind::TruncFail => "truncate_fail",
            FaultKind::Crash(_) => "crash",
            FaultKind::MonoJump(_) => "mono_clock_jump",
            FaultKind::WallJump(_) => "wall_clock_jump",
            FaultKind::GetrandomEintr => "getrandom_eintr",
            FaultKind::GetrandomShort(_) => "getrandom_short",
            FaultKind::SpawnFail(_) => "thread_spawn_fail",
            FaultKind::Piecemeal(..) => "piecemeal_disk",
        }
    }
    /// Faults that the operating system contract lets happen to a call that then continues:
    /// the caller sees no failed operation.
    pub fn benign(&self) -> bool {
        matches!(
            self,
            FaultKind::ShortRead(_)
                | FaultKind::ShortWrite(_)
                | FaultKind::MonoJump(_)
                | FaultKind::WallJump(_)
                | FaultKind::GetrandomEintr
                | FaultKind::GetrandomShort(_)
                | FaultKind::Piecemeal(..)
        )
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Fault {
    /// earliest file operation of the phase at which it fires (counted from 0)
    pub at: u64,
    pub kind: FaultKind,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Open,
    Read,
    Write,
    Seek,
    Close,
    Sync,
    Trunc,
    Meta,
    Rand,
    Clock,
    Spawn,
}

// ---- scheduling -------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Policy {
    /// switch with probability permille at each yield point, uniformly among runnable threads
    Random { permille: u32 },
    /// priority scheduling with `changes` random priority drops (PCT)
    Pct { changes: u32, horizon: u64 },
    /// never switch unless blocked; pick uniformly when blocked
    Lazy,
    /// Random, but one thread chosen per run is starved for long stretches
    Starve { permille: u32, victim: u32 },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct SchedCfg {
    pub seed: u64,
    pub policy: Policy,
    /// probability (permille per decision) of a spurious futex wake-up
    pub spurious: u32,
    /// wake futex waiters in random order instead of first-come-first-served
    pub random_wake: bool,
    /// replay: exactly these non-default decisions (decision number, value)
    pub script: Option<Vec<(u64, u32)>>,
}

impl SchedCfg {
    pub fn lazy() -> SchedCfg {
        SchedCfg { seed: 0, policy: Policy::Lazy, spurious: 0, random_wake: false, script: Some(vec![]) }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub(crate) enum St {
    Run,
    Fut { addr: usize, bits: u32, deadline: Option<u64> },
    Join(usize),
    Sleep(u64),
    Drain,
    Done,
}

pub(crate) struct Th {
    pub st: St,
    pub baton: &'static AtomicU32,
    pub pthread: u64,
    pub prio: u64,
    pub timed_out: bool,
    pub seq: u64,
}

pub(crate) struct Sched {
    pub cfg: SchedCfg,
    pub rng: Rng,
    pub th: Vec<Th>,
    pub cur: usize,
    pub decisions: u64,
    pub record: Vec<(u64, u32)>,
    pub script_pos: usize,
    pub steps: u64,
    pub switches: u64,
    pub spurious: u64,
    pub budget: u64,
    pub change_points: Vec<u64>,
    pub seq: u64,
    pub starve_until: u64,
    pub max_live: usize,
    /// steps since the last switch; every policy is fair in the long run
    pub since: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Running,
    Finished,
    Crashed,
    Deadlock(String),
    Budget,
}

pub struct World {
    pub fs: SimFs,
    /// monotonic ns and wall clock offset
    pub mono: u64,
    pub mono0: u64,
    pub wall: i64,
    pub entropy: Rng,
    pub entropy_bytes: u64,
    pub hash: u64,
    pub events: u64,
    pub fired: BTreeMap<&'static str, u64>,
    /// phase
    pub ops: u64,
    pub pending: Vec<Fault>,
    pub full: bool,
    pub max_ops: u64,
    pub end: End,
    pub(crate) sched: Sched,
    pub trace: Option<Vec<String>>,
    /// non-benign faults fired in this phase
    pub hard: u64,
    pub soft: u64,
    /// a lying disk: writes to files other than this one are acknowledged, but (permille) the
    /// medium keeps zeros; the file, the permille, and a salt for choosing
    pub lose: Option<(String, u32, u64)>,
    pub lost: u64,
}

thread_local! {
    pub static SIM: Cell<u32> = const { Cell::new(0) };   // 1 + simulated thread id, 0 outside
    pub static HOOK: Cell<bool> = const { Cell::new(false) };
}
pub static MULTI: AtomicBool = AtomicBool::new(false);
pub(crate) static PHASE_DONE: AtomicU32 = AtomicU32::new(0);
static mut WORLD: Option<Box<World>> = None;

#[allow(static_mut_refs)]
pub fn world() -> &'static mut World {
    unsafe { WORLD.as_mut().expect("no world") }
}

fn new_sched(cfg: SchedCfg, budget: u64) -> Sched {
    let mut rng = Rng::new(cfg.seed);
    let mut change_points = vec![];
    if let Policy::Pct { changes, horizon } = &cfg.policy {
        for _ in 0..*changes {
            change_points.push(rng.below(*horizon));
        }
        change_points.sort();
    }
    let p0 = rng.next() | (1 << 63);
    let main = Th { st: St::Run, baton: Box::leak(Box::new(AtomicU32::new(0))), pthread: 0, prio: p0, timed_out: false, seq: 0 };
    Sched {
        cfg,
        rng,
        th: vec![main],
        cur: 0,
        decisions: 0,
        record: vec![],
        script_pos: 0,
        steps: 0,
        switches: 0,
        spurious: 0,
        budget,
        change_points,
        seq: 1,
        starve_until: 0,
        max_live: 1,
        since: 0,
    }
}

/// Replace the world by a fresh one. Entropy and clock start from the given values.
#[allow(static_mut_refs)]
pub fn reset_world(entropy_seed: u64, mono0: u64, wall0: i64) {
    end_process();
    unsafe {
        WORLD = Some(Box::new(World {
            fs: SimFs::default(),
            mono: mono0,
            mono0,
            wall: wall0,
            entropy: Rng::new(entropy_seed),
            entropy_bytes: 0,
            hash: 0x51,
            events: 0,
            fired: BTreeMap::new(),
            ops: 0,
            pending: vec![],
            full: false,
            max_ops: u64::MAX,
            end: End::Running,
            sched: new_sched(SchedCfg::lazy(), u64::MAX),
            trace: None,
            hard: 0,
            soft: 0,
            lose: None,
            lost: 0,
        }));
    }
}

impl World {
    pub fn ev(&mut self, kind: u8, a: u64, b: u64) {
        self.events += 1;
        self.hash = mix(self.hash ^ (kind as u64) << 56 ^ a.rotate_left(8) ^ b.rotate_left(31) ^ (self.sched.cur as u64) << 48);
        if let Some(t) = &mut self.trace {
            if t.len() < 4000 {
                t.push(format!("{} t{} {} {} {}", self.events, self.sched.cur, kind as char, a, b));
            }
        }
    }
    pub fn fire(&mut self, k: &FaultKind) {
        *self.fired.entry(k.name()).or_insert(0) += 1;
        if k.benign() {
            self.soft += 1
        } else {
            self.hard += 1
        }
        let code = hash_name(k.name());
        let ops = self.ops;
        self.ev(b'F', code, ops);
    }
    /// Called once per operation: which fault, if any, hits it. `n` = request size.
    pub fn fault_for(&mut self, op: Op, n: usize) -> Option<FaultKind> {
        let counted = !matches!(op, Op::Rand | Op::Clock | Op::Spawn | Op::Close);
        let ops = self.ops;
        if counted {
            self.ops += 1;
            if self.ops > self.max_ops {
                end_phase(End::Budget);
            }
        }
        self.mono += 1000;
        let mut i = 0;
        while i < self.pending.len() {
            if self.pending[i].at > ops {
                break;
            }
            let k = self.pending[i].kind.clone();
            if matches!(k, FaultKind::MonoJump(_) | FaultKind::WallJump(_)) && mix(self.mono ^ i as u64) % 3 != 0 {
                // strike between any two operations, clock readings included
                i += 1;
                continue;
            }
            match &k {
                FaultKind::MonoJump(ms) => {
                    self.mono += ms * 1_000_000;
                    self.wall += (*ms as i64) * 1_000_000;
                    self.pending.remove(i);
                    self.fire(&k);
                    continue;
                }
                FaultKind::WallJump(ms) => {
                    self.wall = self.wall.saturating_add(ms.saturating_mul(1_000_000));
                    self.pending.remove(i);
                    self.fire(&k);
                    continue;
                }
                FaultKind::Piecemeal(permille, salt) => {
                    let h = mix(salt ^ mix(ops));
                    let short = match op {
                        Op::Read => FaultKind::ShortRead((h >> 32) as u32 % 1000),
                        Op::Write => FaultKind::ShortWrite((h >> 32) as u32 % 1000),
                        _ => {
                            i += 1;
                            continue;
                        }
                    };
                    if n > 1 && (h % 1000) < *permille as u64 {
                        self.fire(&short);
                        return Some(short);
                    }
                    i += 1;
                    continue;
                }
                _ => {}
            }
            let fits = match (&k, op) {
                (FaultKind::ShortRead(_), Op::Read) | (FaultKind::ShortWrite(_), Op::Write) => n > 1,
                (FaultKind::EintrRead, Op::Read) | (FaultKind::EioRead, Op::Read) => n > 0,
                (FaultKind::EintrWrite, Op::Write) | (FaultKind::EioWrite, Op::Write) | (FaultKind::TornWrite(_), Op::Write) | (FaultKind::Enospc(_), Op::Write) => n > 0,
                (FaultKind::OpenFail(_), Op::Open) => true,
                (FaultKind::SeekFail, Op::Seek) => true,
                (FaultKind::SyncFail, Op::Sync) => true,
                (FaultKind::TruncFail, Op::Trunc) => true,
                (FaultKind::Crash(_), _) => counted,
                (FaultKind::GetrandomEintr, Op::Rand) => n > 0,
                (FaultKind::GetrandomShort(_), Op::Rand) => n > 1,
                (FaultKind::SpawnFail(k), Op::Spawn) => self.sched.th.len() as u64 > *k as u64,
                _ => false,
            };
            if fits {
                self.pending.remove(i);
                self.fire(&k);
                return Some(k);
            }
            i += 1;
        }
        None
    }
}

fn hash_name(s: &str) -> u64 {
    crate::rng::hash_bytes(s.as_bytes())
}

// ---- end of a phase ---------------------------------------------------------------------

/// Never returns: the simulated process is gone.
pub fn end_phase(e: End) -> ! {
    let w = world();
    if w.end == End::Running {
        w.end = e;
    }
    raw::baton_give(&PHASE_DONE);
    let never = AtomicU32::new(0);
    loop {
        raw::baton_wait(&never);
    }
}

pub struct Phase {
    pub faults: Vec<Fault>,
    pub sched: SchedCfg,
    pub max_ops: u64,
    pub max_steps: u64,
}
impl Phase {
    pub fn clean() -> Phase {
        Phase { faults: vec![], sched: SchedCfg::lazy(), max_ops: 40_000_000, max_steps: 400_000_000 }
    }
    pub fn faulty(f: &[Fault]) -> Phase {
        let mut v = f.to_vec();
        v.sort_by_key(|x| x.at);
        Phase { faults: v, ..Phase::clean() }
    }
}

#[derive(Debug)]
pub enum Out<T> {
    Ok(T),
    Panic(String),
    Crashed,
    Deadlock(String),
    Budget,
}
impl<T> Out<T> {
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(t) => Some(t),
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn loud(&self) -> bool {
        matches!(self, Out::Panic(_))
    }
    pub fn what(&self) -> String {
        match self {
            Out::Ok(_) => "success".into(),
            Out::Panic(m) => format!("panic: {}", m),
            Out::Crashed => "crashed".into(),
            Out::Deadlock(m) => format!("deadlock: {}", m),
            Out::Budget => "step budget exhausted".into(),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct PhaseInfo {
    pub ops: u64,
    pub hard: u64,
    pub soft: u64,
    pub steps: u64,
    pub decisions: u64,
    pub switches: u64,
    pub max_live: usize,
    pub leftover: usize,
    pub record: Vec<(u64, u32)>,
}

type Job = Box<dyn FnOnce() + Send>;
/// The main thread of the simulated process, waiting for its next call.
static mut PROC: Option<std::sync::mpsc::Sender<Job>> = None;

/// The simulated process ends: descriptors and thread-local state are gone.
#[allow(static_mut_refs)]
pub fn end_process() {
    unsafe {
        PROC = None;
        if let Some(w) = WORLD.as_mut() {
            w.fs.close_all();
        }
    }
}
/// In a forked child: the thread does not exist here.
#[allow(static_mut_refs)]
pub fn forget_process() {
    unsafe { std::mem::forget(PROC.take()) };
    end_process();
}
#[allow(static_mut_refs)]
fn send_job(j: Job) {
    unsafe {
        if PROC.is_none() {
            let (tx, rx) = std::sync::mpsc::channel::<Job>();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    while let Ok(j) = rx.recv() {
                        j()
                    }
                })
                .expect("harness thread");
            PROC = Some(tx);
        }
        PROC.as_ref().unwrap().send(j).ok().expect("harness thread");
    }
}

/// Run `f` as the main thread of a simulated process over the current world. The same process
/// may run several phases (so thread-local state of the code survives between them); a crash,
/// failure, new world, or a coin derived from the history ends it. Files, clock and entropy
/// stream survive; threads never do.
pub fn run<T: Send + 'static>(ph: Phase, f: impl FnOnce() -> T + Send + 'static) -> (Out<T>, PhaseInfo) {
    use std::sync::{Arc, Mutex};
    {
        let w = world();
        w.ops = 0;
        w.pending = ph.faults;
        w.full = false;
        w.max_ops = ph.max_ops;
        w.end = End::Running;
        w.hard = 0;
        w.soft = 0;
        w.sched = new_sched(ph.sched, ph.max_steps);
        w.ev(b'P', 0, 0);
    }
    MULTI.store(false, Ordering::SeqCst);
    PHASE_DONE.store(0, Ordering::SeqCst);
    let slot: Arc<Mutex<Option<Result<T, String>>>> = Arc::new(Mutex::new(None));
    let s2 = slot.clone();
    // half of the time the next call comes from a new process, otherwise from the same one
    if mix(world().hash) & 1 == 0 {
        end_process();
    }
    send_job(Box::new(move || {
        HOOK.with(|h| h.set(false));
        SIM.with(|s| s.set(1));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        crate::sched::drain_main();
        HOOK.with(|h| h.set(true));
        SIM.with(|s| s.set(0));
        let r = r.map_err(|p| {
            if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            }
        });
        *s2.lock().unwrap() = Some(r);
        let w = world();
        if w.end == End::Running {
            w.end = End::Finished;
        }
        raw::baton_give(&PHASE_DONE);
    }));
    raw::baton_wait(&PHASE_DONE);
    MULTI.store(false, Ordering::SeqCst);
    let w = world();
    if w.end != End::Finished || !matches!(&*slot.lock().unwrap(), Some(Ok(_))) {
        end_process();
    }
    let info = PhaseInfo {
        ops: w.ops,
        hard: w.hard,
        soft: w.soft,
        steps: w.sched.steps,
        decisions: w.sched.decisions,
        switches: w.sched.switches,
        max_live: w.sched.max_live,
        leftover: w.sched.th.iter().skip(1).filter(|t| t.st != St::Done).count(),
        record: std::mem::take(&mut w.sched.record),
    };
    let sp = w.sched.spurious;
    if sp > 0 {
        *w.fired.entry("spurious_wake").or_insert(0) += sp;
    }
    let sw = w.sched.switches;
    if sw > 0 {
        *w.fired.entry("thread_preemption_or_switch").or_insert(0) += sw;
    }
    let steps = w.sched.steps;
    w.ev(b'E', steps, info.ops);
    let out = match w.end.clone() {
        End::Finished => match slot.lock().unwrap().take() {
            Some(Ok(v)) => Out::Ok(v),
            Some(Err(m)) => Out::Panic(m),
            None => unreachable!(),
        },
        End::Crashed => Out::Crashed,
        End::Deadlock(m) => Out::Deadlock(m),
        End::Budget => Out::Budget,
        End::Running => unreachable!(),
    };
    (out, info)
}
