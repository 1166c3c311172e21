//! Seeded search over plans: every simulated run happens in a forked child, one plan per child.
use crate::rng::{hash_bytes, mix2, Rng};
use crate::world;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}
pub fn viol<T>(class: &str, detail: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { class: class.to_string(), detail: detail.into() })
}
pub type Res = Result<(), Viol>;

/// What a run tells the driver besides its verdict.
#[derive(Default)]
pub struct Ctx {
    pub probes: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub record: Option<Vec<(u64, u32)>>,
    pub sub: u64,
    pub sig: u64,
    pub faults: BTreeMap<String, u64>,
    pub sim_ns: u64,
    pub events: u64,
}
impl Ctx {
    pub fn probe(&mut self, s: &str) {
        *self.probes.entry(s.to_string()).or_insert(0) += 1;
    }
    pub fn probe_n(&mut self, s: &str, n: u64) {
        *self.probes.entry(s.to_string()).or_insert(0) += n;
    }
    pub fn fault(&mut self, s: &str) {
        *self.faults.entry(s.to_string()).or_insert(0) += 1;
    }
    pub fn mixin(&mut self, v: u64) {
        self.sig = mix2(self.sig, v);
    }
    /// Fold the statistics of the current world into the report (call before replacing it).
    pub fn absorb(&mut self) {
        let w = world::world();
        for (k, v) in w.fired.iter() {
            *self.faults.entry(k.to_string()).or_insert(0) += v;
        }
        w.fired.clear();
        self.sim_ns += w.mono.saturating_sub(w.mono0);
        self.events += w.events;
        self.sig = mix2(self.sig, w.hash);
        w.mono0 = w.mono;
        w.events = 0;
    }
}

pub trait Sim {
    type Plan: Serialize + DeserializeOwned + Clone;
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn runs(&self, tier: Tier) -> u64;
    fn gen(&self, rng: &mut Rng, tier: Tier, index: u64) -> Self::Plan;
    fn run(&self, plan: &Self::Plan, ctx: &mut Ctx) -> Res;
    fn shrink(&self, _plan: &Self::Plan) -> Vec<Self::Plan> {
        vec![]
    }
    /// The plan with the scheduler's decisions made explicit.
    fn script(&self, _plan: &Self::Plan, _rec: &[(u64, u32)]) -> Option<Self::Plan> {
        None
    }
    fn real(&self) -> Vec<&'static str>;
    fn stub(&self) -> Vec<&'static str>;
    fn limit_s(&self) -> u64 {
        120
    }
    /// Deterministic work shared by all runs, done once before forking.
    fn warm(&self) {}
}

pub trait DynSim {
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn runs(&self, tier: Tier) -> u64;
    fn gen(&self, rng: &mut Rng, tier: Tier, index: u64) -> Value;
    fn run(&self, plan: &Value, ctx: &mut Ctx) -> Res;
    fn shrink(&self, plan: &Value) -> Vec<Value>;
    fn script(&self, plan: &Value, rec: &[(u64, u32)]) -> Option<Value>;
    fn real(&self) -> Vec<&'static str>;
    fn stub(&self) -> Vec<&'static str>;
    fn limit_s(&self) -> u64;
    fn warm(&self);
}
impl<S: Sim> DynSim for S {
    fn id(&self) -> &'static str {
        Sim::id(self)
    }
    fn rule(&self) -> &'static str {
        Sim::rule(self)
    }
    fn runs(&self, t: Tier) -> u64 {
        Sim::runs(self, t)
    }
    fn gen(&self, r: &mut Rng, t: Tier, i: u64) -> Value {
        serde_json::to_value(Sim::gen(self, r, t, i)).unwrap()
    }
    fn run(&self, p: &Value, c: &mut Ctx) -> Res {
        let p: S::Plan = serde_json::from_value(p.clone()).expect("plan");
        Sim::run(self, &p, c)
    }
    fn shrink(&self, p: &Value) -> Vec<Value> {
        let p: S::Plan = serde_json::from_value(p.clone()).expect("plan");
        Sim::shrink(self, &p).into_iter().map(|x| serde_json::to_value(x).unwrap()).collect()
    }
    fn script(&self, p: &Value, rec: &[(u64, u32)]) -> Option<Value> {
        let p: S::Plan = serde_json::from_value(p.clone()).expect("plan");
        Sim::script(self, &p, rec).map(|x| serde_json::to_value(x).unwrap())
    }
    fn real(&self) -> Vec<&'static str> {
        Sim::real(self)
    }
    fn stub(&self) -> Vec<&'static str> {
        Sim::stub(self)
    }
    fn limit_s(&self) -> u64 {
        Sim::limit_s(self)
    }
    fn warm(&self) {
        Sim::warm(self)
    }
}

/// Everything a child reports back.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Report {
    pub viol: Option<(String, String)>,
    pub hash: u64,
    pub events: u64,
    pub sim_ns: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub record: Option<Vec<(u64, u32)>>,
    pub sub: u64,
    #[serde(default)]
    pub harness_error: Option<String>,
}

fn child_main(sim: &dyn DynSim, plan: &Value) -> Report {
    let mut ctx = Ctx::default();
    world::reset_world(0, 1, 0);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sim.run(plan, &mut ctx)));
    ctx.absorb();
    let mut rep = Report {
        viol: None,
        hash: ctx.sig,
        events: ctx.events,
        sim_ns: ctx.sim_ns,
        faults: ctx.faults,
        probes: ctx.probes,
        nontrivial: ctx.nontrivial,
        record: ctx.record,
        sub: ctx.sub,
        harness_error: None,
    };
    match r {
        Ok(Ok(())) => {}
        Ok(Err(v)) => rep.viol = Some((v.class, v.detail)),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            rep.viol = Some(("uninterpretable-result".into(), format!("the oracle could not make sense of a result: {}", m)));
        }
    }
    rep
}

enum Job {
    Seed(u64),
    Plan(Value),
}

struct Child {
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    tag: u64,
    started: Instant,
    limit: u64,
}

#[derive(Clone, Debug)]
enum Done {
    Report(Report, Value),
    Died(i32),
    TimedOut,
    Harness(String),
}

struct Pool<'a> {
    sim: &'a dyn DynSim,
    seed: u64,
    tier: Tier,
    max: usize,
    kids: Vec<Child>,
}

fn plan_for(sim: &dyn DynSim, seed: u64, tier: Tier, index: u64) -> Value {
    let mut rng = Rng::new(mix2(mix2(seed, hash_bytes(sim.id().as_bytes())), index));
    sim.gen(&mut rng, tier, index)
}

/// Do `f` in a process of its own, whose static variables are those of a fresh start.
/// None: that process did not end well.
pub fn in_new_process(f: impl FnOnce() -> Vec<u8>) -> Option<Vec<u8>> {
    unsafe {
        let mut p = [0i32; 2];
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            crate::world::forget_process();
            let out = f();
            let mut off = 0;
            while off < out.len() {
                let n = libc::write(p[1], out[off..].as_ptr() as *const _, out.len() - off);
                if n <= 0 {
                    libc::_exit(1);
                }
                off += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(p[1]);
        let mut out = vec![];
        let mut b = [0u8; 4096];
        loop {
            let n = libc::read(p[0], b.as_mut_ptr() as *mut _, b.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&b[..n as usize]);
        }
        libc::close(p[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        (libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0).then_some(out)
    }
}

impl<'a> Pool<'a> {
    fn spawn(&mut self, job: Job, tag: u64, limit: u64) {
        unsafe {
            let mut p = [0i32; 2];
            assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let plan = match job {
                    Job::Seed(i) => plan_for(self.sim, self.seed, self.tier, i),
                    Job::Plan(v) => v,
                };
                let rep = child_main(self.sim, &plan);
                let out = serde_json::to_vec(&json!({"plan": plan, "report": rep})).unwrap();
                let mut off = 0;
                while off < out.len() {
                    let n = libc::write(p[1], out[off..].as_ptr() as *const _, out.len() - off);
                    if n <= 0 {
                        break;
                    }
                    off += n as usize;
                }
                libc::_exit(0);
            }
            libc::close(p[1]);
            self.kids.push(Child { pid, fd: p[0], buf: vec![], tag, started: Instant::now(), limit });
        }
    }
    fn wait_one(&mut self) -> (u64, Done) {
        loop {
            let mut pf: Vec<libc::pollfd> = self.kids.iter().map(|k| libc::pollfd { fd: k.fd, events: libc::POLLIN, revents: 0 }).collect();
            unsafe {
                libc::poll(pf.as_mut_ptr(), pf.len() as u64, 500);
            }
            for i in 0..self.kids.len() {
                if pf[i].revents != 0 {
                    let mut b = [0u8; 65536];
                    let n = unsafe { libc::read(self.kids[i].fd, b.as_mut_ptr() as *mut _, b.len()) };
                    if n > 0 {
                        self.kids[i].buf.extend_from_slice(&b[..n as usize]);
                    } else {
                        let k = self.kids.remove(i);
                        let mut st = 0;
                        unsafe {
                            libc::close(k.fd);
                            libc::waitpid(k.pid, &mut st, 0);
                        }
                        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
                            let v: Result<Value, _> = serde_json::from_slice(&k.buf);
                            return match v {
                                Ok(v) => match serde_json::from_value::<Report>(v["report"].clone()) {
                                    Ok(r) => (k.tag, Done::Report(r, v["plan"].clone())),
                                    Err(e) => (k.tag, Done::Harness(format!("bad report: {}", e))),
                                },
                                Err(e) => (k.tag, Done::Harness(format!("bad report: {}", e))),
                            };
                        }
                        if libc::WIFSIGNALED(st) {
                            return (k.tag, Done::Died(libc::WTERMSIG(st)));
                        }
                        return (k.tag, Done::Harness(format!("child exit status {}", libc::WEXITSTATUS(st))));
                    }
                } else if self.kids[i].started.elapsed().as_secs() > self.kids[i].limit {
                    let k = self.kids.remove(i);
                    unsafe {
                        libc::kill(k.pid, libc::SIGKILL);
                        libc::close(k.fd);
                        let mut st = 0;
                        libc::waitpid(k.pid, &mut st, 0);
                    }
                    return (k.tag, Done::TimedOut);
                }
            }
        }
    }
    fn kill_all(&mut self) {
        for k in self.kids.drain(..) {
            unsafe {
                libc::kill(k.pid, libc::SIGKILL);
                libc::close(k.fd);
                let mut st = 0;
                libc::waitpid(k.pid, &mut st, 0);
            }
        }
    }
    /// Run one plan to the end and normalise the outcome.
    fn one(&mut self, plan: &Value, limit: u64) -> Result<Report, String> {
        assert!(self.kids.is_empty());
        self.spawn(Job::Plan(plan.clone()), 0, limit);
        let d = self.wait_one().1;
        normalise(d).map(|x| x.0)
    }
}

fn normalise(d: Done) -> Result<(Report, Option<Value>), String> {
    match d {
        Done::Report(r, p) => Ok((r, Some(p))),
        Done::Died(libc::SIGKILL) => Err("a simulated run was killed (out of memory?)".into()),
        Done::Died(s) => Ok((Report { viol: Some(("abort".into(), format!("the process aborted with signal {}", s))), ..Default::default() }, None)),
        Done::TimedOut => Ok((Report { viol: Some(("hang".into(), "the run did not end within its wall-clock limit".into())), ..Default::default() }, None)),
        Done::Harness(m) => Err(m),
    }
}

pub struct Args {
    pub cmd: String,
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    pub evidence: Option<String>,
    pub replays: String,
    pub jobs: usize,
    pub runs: Option<u64>,
    pub budget_s: Option<u64>,
    pub file: Option<String>,
    pub index: Option<u64>,
    pub known: Option<String>,
}

fn args() -> Args {
    let mut a = Args {
        cmd: String::new(),
        property: String::new(),
        tier: Tier::Quick,
        seed: 1,
        evidence: None,
        replays: "/verif/replays".into(),
        jobs: 8,
        runs: None,
        budget_s: None,
        file: None,
        index: None,
        known: None,
    };
    let mut it = std::env::args().skip(1);
    a.cmd = it.next().unwrap_or_default();
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("value");
        match k.as_str() {
            "--property" => a.property = v(),
            "--tier" => a.tier = if v() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--seed" => a.seed = v().parse().expect("seed"),
            "--evidence" => a.evidence = Some(v()),
            "--replays" => a.replays = v(),
            "--jobs" => a.jobs = v().parse().unwrap(),
            "--runs" => a.runs = Some(v().parse().unwrap()),
            "--budget" => a.budget_s = Some(v().parse().unwrap()),
            "--index" => a.index = Some(v().parse().unwrap()),
            "--known" => a.known = Some(v()),
            f => a.file = Some(f.to_string()),
        }
    }
    a
}

#[derive(Deserialize)]
struct Known {
    status: String,
    property: String,
    class: String,
    matches: String,
    what: String,
}

fn load_known(p: &Option<String>, id: &str) -> Vec<Known> {
    let mut out = vec![];
    if let Some(p) = p {
        if let Ok(t) = std::fs::read_to_string(p) {
            for l in t.lines() {
                if let Ok(k) = serde_json::from_str::<Known>(l) {
                    if k.status == "known" && k.property == id {
                        out.push(k);
                    }
                }
            }
        }
    }
    out
}

pub fn main(sims: Vec<Box<dyn DynSim>>) -> ! {
    let a = args();
    std::panic::set_hook(Box::new(|_| {}));
    crate::hooks::init();
    let code = match a.cmd.as_str() {
        "list" => {
            for s in &sims {
                println!("{}", s.id());
            }
            0
        }
        "check" => match sims.iter().find(|s| s.id() == a.property) {
            Some(s) => check(s.as_ref(), &a),
            None => {
                eprintln!("no such property here: {}", a.property);
                2
            }
        },
        "replay" => replay(&sims, &a),
        "plan" => {
            let s = sims.iter().find(|s| s.id() == a.property).expect("property");
            let i = a.index.unwrap_or(0);
            s.warm();
            let plan = plan_for(s.as_ref(), a.seed, a.tier, i);
            println!("{}", serde_json::to_string(&plan).unwrap());
            let mut pool = Pool { sim: s.as_ref(), seed: a.seed, tier: a.tier, max: 1, kids: vec![] };
            let t = Instant::now();
            let r = pool.one(&plan, 600);
            println!("{:?}\n{:.3}s", r, t.elapsed().as_secs_f64());
            0
        }
        "determinism" => determinism(&sims, &a),
        c => {
            eprintln!("unknown command {:?}", c);
            2
        }
    };
    std::process::exit(code)
}

fn replay(sims: &[Box<dyn DynSim>], a: &Args) -> i32 {
    let f = a.file.clone().expect("replay file");
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("read replay file")).expect("json");
    let id = v["property"].as_str().unwrap();
    let s = match sims.iter().find(|s| s.id() == id) {
        Some(s) => s,
        None => {
            eprintln!("property {} is decided by the other binary", id);
            return 2;
        }
    };
    s.warm();
    let mut pool = Pool { sim: s.as_ref(), seed: 0, tier: a.tier, max: 1, kids: vec![] };
    match pool.one(&v["plan"], s.limit_s().max(300)) {
        Ok(r) => {
            println!("trace_hash={:016x} events={}", r.hash, r.events);
            match r.viol {
                Some((c, d)) => {
                    println!("class={} {}", c, d);
                    println!("same_class={} same_trace={}", v["class"] == json!(c), v["trace_hash"] == json!(format!("{:016x}", r.hash)));
                    println!("VIOLATION property={} replay={}", id, f);
                    1
                }
                None => {
                    println!("no violation");
                    0
                }
            }
        }
        Err(m) => {
            eprintln!("harness error: {}", m);
            2
        }
    }
}

fn determinism(sims: &[Box<dyn DynSim>], a: &Args) -> i32 {
    // every plan `--runs` of every requested property: run and print the trace hash
    for s in sims.iter().filter(|s| a.property.is_empty() || a.property.split(',').any(|p| p == s.id())) {
        s.warm();
        let n = a.runs.unwrap_or(20);
        let mut pool = Pool { sim: s.as_ref(), seed: a.seed, tier: a.tier, max: a.jobs, kids: vec![] };
        let mut next = 0;
        let mut got: BTreeMap<u64, String> = BTreeMap::new();
        while got.len() < n as usize {
            while next < n && pool.kids.len() < pool.max {
                pool.spawn(Job::Seed(next), next, 900);
                next += 1;
            }
            let (t, d) = pool.wait_one();
            got.insert(
                t,
                match d {
                    Done::Report(r, _) => format!("{:016x} {} {:?}", r.hash, r.events, r.viol.map(|v| v.0)),
                    x => format!("{:?}", x),
                },
            );
        }
        for (t, h) in got {
            println!("{} {} {}", s.id(), t, h);
        }
    }
    0
}

fn check(sim: &dyn DynSim, a: &Args) -> i32 {
    let t0 = Instant::now();
    println!("seed={} property={} tier={:?}", a.seed, sim.id(), a.tier);
    sim.warm();
    let known = load_known(&a.known, sim.id());
    let mut known_hit: BTreeSet<String> = BTreeSet::new();
    let runs = a.runs.unwrap_or_else(|| sim.runs(a.tier));
    let budget = a.budget_s.unwrap_or(match a.tier {
        Tier::Quick => 300,
        Tier::Thorough => 3600,
    });
    let mut pool = Pool { sim, seed: a.seed, tier: a.tier, max: a.jobs, kids: vec![] };
    let mut next = 0u64;
    let mut done = 0u64;
    let mut sim_s = 0.0f64;
    let mut tot = Report::default();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut nontrivial: BTreeSet<u64> = BTreeSet::new();
    let mut sub = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut bad: Option<(u64, Report, Value)> = None;
    let dup = if runs >= 40 { 8 } else { 2 }.min(runs);
    const DUP: u64 = 1 << 60;
    let mut first: BTreeMap<u64, u64> = BTreeMap::new();
    let mut second: BTreeMap<u64, u64> = BTreeMap::new();
    let mut dup_next = 0;
    // a violation counts once the same plan has shown it twice; an answer that never comes back
    // came from outside the plan and is reported as such
    let mut seen: BTreeMap<u64, (u32, u32)> = BTreeMap::new();
    let mut errors: BTreeMap<u64, u32> = BTreeMap::new();
    let mut unconfirmed = 0u64;
    loop {
        let over = t0.elapsed().as_secs() >= budget;
        while pool.kids.len() < pool.max && next < runs && !over && bad.is_none() {
            pool.spawn(Job::Seed(next), next, sim.limit_s());
            next += 1;
        }
        while pool.kids.len() < pool.max && (next >= runs || over) && dup_next < dup.min(next) && bad.is_none() {
            // spread over all runs
            let at = (2 * dup_next + 1) * next / (2 * dup);
            pool.spawn(Job::Seed(at), DUP + at, sim.limit_s());
            dup_next += 1;
        }
        if pool.kids.is_empty() || bad.is_some() {
            break;
        }
        let (tag, d) = pool.wait_one();
        let (rep, plan) = match normalise(d) {
            Ok(x) => x,
            Err(m) => {
                let e = errors.entry(tag).or_insert(0);
                *e += 1;
                if *e > 2 {
                    eprintln!("harness error: {}", m);
                    pool.kill_all();
                    return 2;
                }
                eprintln!("harness error, run repeated: {}", m);
                pool.spawn(Job::Seed(tag % DUP), tag, sim.limit_s() * 2);
                continue;
            }
        };
        if tag >= DUP {
            second.insert(tag - DUP, rep.hash);
            continue;
        }
        let plan = plan.unwrap_or_else(|| plan_for(sim, a.seed, a.tier, tag));
        if let Some((c, d)) = &rep.viol {
            if let Some(k) = known.iter().find(|k| &k.class == c && d.contains(&k.matches)) {
                if known_hit.insert(k.what.clone()) {
                    println!("KNOWN-FINDING: property={} {}", sim.id(), k.what);
                }
            } else {
                let e = seen.entry(tag).or_insert((0, 0));
                e.0 += 1;
                if e.0 == 2 {
                    bad = Some((tag, rep.clone(), plan.clone()));
                } else {
                    eprintln!("index {}: {} {}; running it again", tag, c, d);
                    pool.spawn(Job::Plan(plan), tag, sim.limit_s() * 2);
                    continue;
                }
            }
        } else if let Some(e) = seen.get_mut(&tag) {
            e.1 += 1;
            if e.1 < 2 {
                pool.spawn(Job::Plan(plan), tag, sim.limit_s() * 2);
                continue;
            }
            unconfirmed += 1;
            eprintln!("warning: index {}: seen once, then twice not, with the same plan; not counted", tag);
        }
        done += 1;
        first.insert(tag, rep.hash);
        hashes.insert(rep.hash);
        if rep.nontrivial {
            nontrivial.insert(rep.hash);
        }
        tot.events += rep.events;
        sim_s += rep.sim_ns as f64 / 1e9;
        sub += rep.sub;
        for (k, v) in &rep.faults {
            *tot.faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &rep.probes {
            *tot.probes.entry(k.clone()).or_insert(0) += v;
        }
        if samples.len() < 3 && rep.nontrivial {
            let mut s = plan.to_string();
            if s.len() > 3000 {
                let mut k = 3000;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            samples.push(json!({"index": tag, "plan": s, "outcome": if rep.viol.is_some() {"violation"} else {"held"}, "events": rep.events, "faults": rep.faults, "trace_hash": format!("{:016x}", rep.hash)}));
        }
    }
    pool.kill_all();
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut nviol = 0;
    if let Some((tag, rep, plan)) = bad {
        nviol = 1;
        code = 1;
        let (class, detail) = rep.viol.clone().unwrap();
        println!("violation found: seed={} index={} class={} {}", a.seed, tag, class, detail);
        let (plan, rep) = minimise(sim, &mut pool, plan, rep, &class);
        let (class, detail) = rep.viol.clone().unwrap_or((class, detail));
        let _ = std::fs::create_dir_all(&a.replays);
        let path = format!("{}/{}-seed{}-{}.json", a.replays, sim.id(), a.seed, tag);
        let trace_hash = format!("{:016x}", rep.hash);
        let out = json!({"property": sim.id(), "class": class, "detail": detail, "seed": a.seed, "index": tag, "tier": format!("{:?}", a.tier).to_lowercase(),
            "trace_hash": trace_hash, "faults_fired": rep.faults, "plan": plan,
            "how": format!("cd /verif && ./check.sh replay {}", path)});
        std::fs::write(&path, serde_json::to_string_pretty(&out).unwrap()).expect("write replay");
        println!("minimised: class={} {}", class, detail);
        println!("VIOLATION property={} replay={}", sim.id(), path);
    }
    let mut checked = 0;
    let mut mismatch = 0;
    for (k, h) in &second {
        if let Some(g) = first.get(k) {
            checked += 1;
            if g != h {
                mismatch += 1;
            }
        }
    }
    if mismatch > 0 {
        eprintln!("warning: {} of {} repeated runs had a different event trace", mismatch, checked);
    }
    let wall = t0.elapsed().as_secs_f64();
    if let Some(e) = &a.evidence {
        if let Some(d) = std::path::Path::new(e).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        let ev = json!({
            "property": sim.id(),
            "tier": format!("{:?}", a.tier).to_lowercase(),
            "seed": a.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": done,
                "distinct_nontrivial": nontrivial.len(),
                "rule": sim.rule(),
                "samples": samples,
                "distinct_event_traces": hashes.len(),
                "distinctness_measure": "64-bit rolling hash over every simulated event (operation kind, offset, size, thread, fault, clock and scheduling decision) of a run",
                "verdicts_compared_with_model": sub,
                "simulated_events": tot.events,
                "simulated_seconds": sim_s,
                "runs_per_hour_one_seed_each": (done as f64 / search_s * 3600.0) as u64,
                "faults_injected": tot.faults,
                "probes": tot.probes,
                "runs_repeated_for_determinism": checked,
                "repeat_mismatches": mismatch,
                "results_that_did_not_repeat": unconfirmed,
                "real_components": sim.real(),
                "stub_components": sim.stub(),
                "known_findings_seen": known_hit.iter().collect::<Vec<_>>(),
            },
            "assumptions": [
                "the executable's libc definitions receive every file, clock, entropy and thread call of the code under test",
                "one seed samples the space of plans; a clean batch is evidence, not proof"
            ],
            "wall_s": wall,
            "violations": nviol,
        });
        std::fs::write(e, serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    }
    println!(
        "{}: {} runs, {} distinct non-trivial, {} verdicts, {} events, {:.1} simulated s, {:.1} s wall; faults {:?}; probes {:?}; repeats {}/{} identical",
        sim.id(), done, nontrivial.len(), sub, tot.events, sim_s, wall, tot.faults, tot.probes, checked - mismatch, checked
    );
    code
}

fn minimise(sim: &dyn DynSim, pool: &mut Pool, plan: Value, rep: Report, class: &str) -> (Value, Report) {
    let t0 = Instant::now();
    let limit = 60;
    let mut plan = plan;
    let mut rep = rep;
    let mut steps = 0;
    if class == "hang" {
        return (plan, rep);
    }
    // make scheduling explicit
    if let Some(rec) = rep.record.clone() {
        if let Some(p) = sim.script(&plan, &rec) {
            if let Ok(r) = pool.one(&p, sim.limit_s()) {
                if r.viol.as_ref().map(|v| v.0.as_str()) == Some(class) {
                    plan = p;
                    rep = r;
                }
            }
        }
    }
    'outer: while t0.elapsed().as_secs() < limit {
        let cands = sim.shrink(&plan);
        if cands.is_empty() {
            break;
        }
        let mut i = 0;
        while i < cands.len() {
            if t0.elapsed().as_secs() >= limit {
                break 'outer;
            }
            let batch: Vec<Value> = cands[i..(i + pool.max).min(cands.len())].to_vec();
            for (k, c) in batch.iter().enumerate() {
                pool.spawn(Job::Plan(c.clone()), k as u64, sim.limit_s());
            }
            let mut best: Option<(u64, Report)> = None;
            for _ in 0..batch.len() {
                let (t, d) = pool.wait_one();
                if let Ok((r, _)) = normalise(d) {
                    if r.viol.as_ref().map(|v| v.0.as_str()) == Some(class) && best.as_ref().map_or(true, |b| t < b.0) {
                        best = Some((t, r));
                    }
                }
            }
            if let Some((t, r)) = best {
                plan = batch[t as usize].clone();
                rep = r;
                steps += 1;
                continue 'outer;
            }
            i += batch.len();
        }
        break;
    }
    println!("minimised in {} steps, {:.1} s", steps, t0.elapsed().as_secs_f64());
    (plan, rep)
}
