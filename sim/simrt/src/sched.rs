//! Thread scheduler: real OS threads, exactly one of which holds the baton.
use crate::raw;
use crate::world::*;
use std::sync::atomic::Ordering;

impl Sched {
    /// One decision among `n` options; option 0 is the default and is not recorded.
    fn choose(&mut self, n: usize, pick: impl FnOnce(&mut Sched) -> usize) -> usize {
        let d = self.decisions;
        self.decisions += 1;
        let v = if self.cfg.script.is_some() {
            let s = self.cfg.script.as_ref().unwrap();
            let mut i = self.script_pos;
            while i < s.len() && s[i].0 < d {
                i += 1;
            }
            let v = if i < s.len() && s[i].0 == d { s[i].1 as usize } else { 0 };
            self.script_pos = i;
            if v < n {
                v
            } else {
                0
            }
        } else {
            pick(self)
        };
        if v != 0 {
            self.record.push((d, v as u32));
        }
        v
    }
}

/// After that many scheduling points without a switch, another runnable thread gets its turn.
const FAIR: u64 = 30_000;

fn live_update(w: &mut World) {
    let live = w.sched.th.iter().filter(|t| t.st != St::Done).count();
    if live > w.sched.max_live {
        w.sched.max_live = live;
    }
    MULTI.store(live > 1, Ordering::SeqCst);
}

/// Pick who runs next. The current thread's state has been set by the caller.
/// Returns the chosen thread (possibly the current one).
fn pick_next(w: &mut World) -> usize {
    loop {
        let cur = w.sched.cur;
        // timers that are due
        for i in 0..w.sched.th.len() {
            let due = match w.sched.th[i].st {
                St::Fut { deadline: Some(d), .. } => d <= w.mono,
                St::Sleep(d) => d <= w.mono,
                _ => false,
            };
            if due {
                w.sched.th[i].st = St::Run;
                w.sched.th[i].timed_out = true;
                w.ev(b'T', i as u64, 1);
            }
        }
        let mut cand: Vec<usize> = vec![];
        // default order: current thread first, then by id
        if w.sched.th[cur].st == St::Run {
            cand.push(cur);
        }
        for i in 0..w.sched.th.len() {
            if i != cur && w.sched.th[i].st == St::Run {
                cand.push(i);
            }
        }
        if cand.is_empty() {
            // nothing runnable: advance the clock to the next timer
            let mut best: Option<(u64, usize)> = None;
            for (i, t) in w.sched.th.iter().enumerate() {
                let d = match t.st {
                    St::Fut { deadline: Some(d), .. } => d,
                    St::Sleep(d) => d,
                    _ => continue,
                };
                if best.map_or(true, |b| d < b.0) {
                    best = Some((d, i));
                }
            }
            if let Some((d, i)) = best {
                if d > w.mono {
                    w.mono = d;
                }
                w.sched.th[i].st = St::Run;
                w.sched.th[i].timed_out = true;
                w.ev(b'T', i as u64, 0);
                continue;
            }
            if w.sched.th[0].st == St::Drain {
                w.sched.th[0].st = St::Run;
                return 0;
            }
            let mut m = String::new();
            for (i, t) in w.sched.th.iter().enumerate() {
                let s = match &t.st {
                    St::Fut { .. } => "waits for a lock/condition/channel",
                    St::Join(_) => "waits for a thread to end",
                    _ => continue,
                };
                m += &format!("thread {} {}; ", i, s);
            }
            end_phase(End::Deadlock(m));
        }
        // spurious wake-up of a blocked thread
        let sp = w.sched.cfg.spurious;
        if sp > 0 && w.sched.th.len() > 1 {
            let blocked: Vec<usize> = (0..w.sched.th.len()).filter(|&i| matches!(w.sched.th[i].st, St::Fut { .. })).collect();
            if !blocked.is_empty() {
                let nb = blocked.len();
                let v = w.sched.choose(nb + 1, |s| {
                    if s.rng.chance(sp as u64, 1000) {
                        1 + s.rng.below(nb as u64) as usize
                    } else {
                        0
                    }
                });
                if v > 0 {
                    let i = blocked[v - 1];
                    w.sched.th[i].st = St::Run;
                    w.sched.th[i].timed_out = false;
                    w.sched.spurious += 1;
                    w.ev(b'S', i as u64, 0);
                    continue;
                }
            }
        }
        if cand.len() == 1 {
            return cand[0];
        }
        let cur_runs = cand[0] == cur && w.sched.th[cur].st == St::Run;
        if cur_runs && w.sched.since > FAIR {
            // whoever polls must not keep the processor for ever
            w.sched.th[cur].prio = 0;
            let k = 1 + (w.sched.steps as usize / FAIR as usize) % (cand.len() - 1);
            return cand[k];
        }
        let n = cand.len();
        let steps = w.sched.steps;
        let prios: Vec<u64> = cand.iter().map(|&i| w.sched.th[i].prio).collect();
        let c2 = cand.clone();
        // PCT priority change
        if let Policy::Pct { .. } = w.sched.cfg.policy {
            if w.sched.cfg.script.is_none() {
                while let Some(&p) = w.sched.change_points.first() {
                    if p <= steps {
                        w.sched.change_points.remove(0);
                        let low = w.sched.change_points.len() as u64;
                        w.sched.th[cur].prio = low;
                    } else {
                        break;
                    }
                }
            }
        }
        let v = w.sched.choose(n, |s| match s.cfg.policy.clone() {
            Policy::Random { permille } => {
                if cur_runs && !s.rng.chance(permille as u64, 1000) {
                    0
                } else {
                    s.rng.below(n as u64) as usize
                }
            }
            Policy::Lazy => {
                if cur_runs {
                    0
                } else {
                    s.rng.below(n as u64) as usize
                }
            }
            Policy::Pct { .. } => {
                let mut b = 0;
                for i in 1..n {
                    if prios[i] > prios[b] {
                        b = i;
                    }
                }
                b
            }
            Policy::Starve { permille, victim } => {
                let others: Vec<usize> = (0..n).filter(|&i| c2[i] as u32 != victim).collect();
                let allow = steps >= s.starve_until;
                if allow && s.rng.chance(1, 50) {
                    s.starve_until = steps + s.rng.range(200, 20_000);
                }
                if cur_runs && (c2[0] as u32 != victim || allow) && !s.rng.chance(permille as u64, 1000) {
                    0
                } else if !others.is_empty() && !allow {
                    *s.rng.pick(&others)
                } else {
                    s.rng.below(n as u64) as usize
                }
            }
        });
        return cand[v];
    }
}

fn switch_to(next: usize, wait: bool) {
    let w = world();
    let cur = w.sched.cur;
    if next == cur {
        return;
    }
    w.sched.switches += 1;
    w.sched.since = 0;
    w.sched.cur = next;
    w.ev(b'X', cur as u64, next as u64);
    let mine = w.sched.th[cur].baton;
    let theirs = w.sched.th[next].baton;
    raw::baton_give(theirs);
    if wait {
        raw::baton_wait(mine);
    }
}

/// A scheduling point. Caller has HOOK set.
pub(crate) fn yield_now() {
    let w = world();
    w.sched.steps += 1;
    w.sched.since += 1;
    w.mono += 50;
    if w.sched.steps > w.sched.budget {
        end_phase(End::Budget);
    }
    if w.sched.th.len() > 1 {
        let n = pick_next(w);
        switch_to(n, true);
    }
}

/// Block the current thread (its state is already set) until somebody makes it runnable.
fn block() {
    let w = world();
    w.sched.steps += 1;
    if w.sched.steps > w.sched.budget {
        end_phase(End::Budget);
    }
    let n = pick_next(w);
    if n != w.sched.cur {
        switch_to(n, true);
    }
}

pub(crate) fn futex_wait(addr: usize, val: u32, bits: u32, deadline: Option<u64>) -> isize {
    yield_now();
    let w = world();
    let cur = w.sched.cur;
    let now_val = unsafe { (*(addr as *const std::sync::atomic::AtomicU32)).load(Ordering::SeqCst) };
    if now_val != val {
        return unsafe { raw::fail(libc::EAGAIN) };
    }
    if let Some(d) = deadline {
        if d <= w.mono {
            return unsafe { raw::fail(libc::ETIMEDOUT) };
        }
    }
    w.sched.seq += 1;
    let s = w.sched.seq;
    w.sched.th[cur].seq = s;
    w.sched.th[cur].timed_out = false;
    w.sched.th[cur].st = St::Fut { addr, bits, deadline };
    w.ev(b'W', cur as u64, 0);
    block();
    let w = world();
    let cur = w.sched.cur;
    if w.sched.th[cur].timed_out {
        w.sched.th[cur].timed_out = false;
        return unsafe { raw::fail(libc::ETIMEDOUT) };
    }
    0
}

pub(crate) fn futex_wake(addr: usize, n: u32, bits: u32) -> isize {
    let w = world();
    let mut woken = 0;
    while woken < n {
        let mut ws: Vec<usize> = (0..w.sched.th.len())
            .filter(|&i| matches!(w.sched.th[i].st, St::Fut { addr: a, bits: b, .. } if a == addr && b & bits != 0))
            .collect();
        if ws.is_empty() {
            break;
        }
        ws.sort_by_key(|&i| w.sched.th[i].seq);
        let k = ws.len();
        let random = w.sched.cfg.random_wake;
        let v = if k > 1 && random {
            w.sched.choose(k, |s| if random { s.rng.below(k as u64) as usize } else { 0 })
        } else {
            0
        };
        let i = ws[v];
        w.sched.th[i].st = St::Run;
        w.sched.th[i].timed_out = false;
        w.ev(b'w', i as u64, 0);
        woken += 1;
    }
    yield_now();
    woken as isize
}

pub(crate) fn sleep_until(t: u64) {
    let w = world();
    let cur = w.sched.cur;
    if w.sched.th.len() == 1 {
        if t > w.mono {
            w.mono = t;
        }
        return;
    }
    w.sched.th[cur].st = St::Sleep(t);
    block();
    let w = world();
    let cur = w.sched.cur;
    w.sched.th[cur].timed_out = false;
}

/// Register a thread about to be created; returns its id.
pub(crate) fn new_thread() -> usize {
    let w = world();
    let id = w.sched.th.len();
    let prio = w.sched.rng.next() | (1 << 63);
    w.sched.th.push(Th {
        st: St::Run,
        baton: Box::leak(Box::new(std::sync::atomic::AtomicU32::new(0))),
        pthread: 0,
        prio,
        timed_out: false,
        seq: 0,
    });
    live_update(w);
    w.ev(b'C', id as u64, 0);
    id
}

pub(crate) fn thread_exit(id: usize) {
    let w = world();
    w.sched.th[id].st = St::Done;
    for i in 0..w.sched.th.len() {
        if w.sched.th[i].st == St::Join(id) {
            w.sched.th[i].st = St::Run;
        }
    }
    w.ev(b'D', id as u64, 0);
    live_update(w);
    let n = pick_next(w);
    switch_to(n, false);
}

pub(crate) fn join(id: usize) {
    let w = world();
    let cur = w.sched.cur;
    if w.sched.th[id].st != St::Done {
        w.sched.th[cur].st = St::Join(id);
        block();
    }
}

/// The simulated main function has returned: let every other thread that can still run finish.
pub(crate) fn drain_main() {
    HOOK.with(|h| h.set(true));
    let w = world();
    loop {
        if w.sched.th.iter().skip(1).all(|t| t.st == St::Done) {
            break;
        }
        w.sched.th[0].st = St::Drain;
        w.sched.steps += 1;
        if w.sched.steps > w.sched.budget {
            end_phase(End::Budget);
        }
        // only threads other than main compete
        let n = pick_next(w);
        if n == 0 {
            break; // the rest is blocked for good; a real process would exit here
        }
        switch_to(n, true);
        // main resumes only when pick_next handed the baton back
        if w.sched.th[0].st == St::Run {
            break;
        }
    }
    HOOK.with(|h| h.set(false));
}
