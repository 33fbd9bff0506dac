//! Runs a check: seeded search over plans in forked workers, confirmation, minimisation, replay
//! files and evidence.
use crate::conn::Outcome;
use crate::plan::{Plan, Scn};
use crate::rng::{Hash, Rng};
use crate::world::Viol;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

const WORKERS: usize = 8;
const CHUNK: usize = 120;

/// (weight, scenario, derived variants per base run, every how many jobs a big one)
pub type Mix = Vec<(u64, Scn, u32, u64)>;

#[derive(Serialize, Deserialize, Default)]
struct JobMsg {
    job: u64,
    runs: u64,
    plain: u64,
    polls: u64,
    io: u64,
    time: u64,
    cmds: u64,
    bytes: u64,
    conns: u64,
    hashes: Vec<u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    redone: u64,
    nondet: u64,
    scn: String,
}

#[derive(Serialize, Deserialize)]
struct ViolMsg {
    job: u64,
    variant: u32,
    plan: Plan,
    viol: Viol,
    hash: u64,
    /// Jobs this process ran before.
    warm: Vec<u64>,
}

#[derive(Serialize, Deserialize)]
enum Msg {
    Job(JobMsg),
    Viol(Box<ViolMsg>),
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub msg: String,
    pub verif_seed: u64,
    pub job: u64,
    pub variant: u32,
    pub hash: u64,
    /// Plans that have to run before in the same process (static state of the library).
    pub warmup: Vec<Plan>,
    pub plan: Plan,
    pub trace: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone)]
struct Rerun {
    viols: Vec<Viol>,
    hash: u64,
    trace: Vec<String>,
    points: Vec<(u32, u32)>,
}

// ---------------------------------------------------------------- processes

struct Shared {
    /// next job, then per worker (job, variant + 1, heartbeat)
    p: *mut std::sync::atomic::AtomicU64,
}
impl Shared {
    fn new() -> Shared {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Shared { p: p as _ }
    }
    fn at(&self, i: usize) -> &std::sync::atomic::AtomicU64 {
        unsafe { &*self.p.add(i) }
    }
}
use std::sync::atomic::Ordering::SeqCst;

struct Child {
    pid: i32,
    rx: std::fs::File,
    buf: Vec<u8>,
}

fn fork_child(f: impl FnOnce(&mut std::fs::File)) -> Child {
    let mut fd = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fd.as_mut_ptr()), 0);
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fd[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            if std::env::var_os("SIM_STDERR").is_none() {
                libc::dup2(null, 2);
            }
            let mut tx = std::fs::File::from_raw_fd(fd[1]);
            f(&mut tx);
            let _ = tx.flush();
            libc::_exit(0);
        }
        libc::close(fd[1]);
        Child { pid, rx: std::fs::File::from_raw_fd(fd[0]), buf: Vec::new() }
    }
}

fn send(tx: &mut std::fs::File, m: &impl Serialize) {
    let b = serde_json::to_vec(m).unwrap();
    let mut v = (b.len() as u32).to_le_bytes().to_vec();
    v.extend(b);
    let _ = tx.write_all(&v);
}

impl Child {
    /// Waits up to `ms` for data; `false` at the end of the stream.
    fn pump(&mut self) -> bool {
        let mut b = [0u8; 65536];
        match self.rx.read(&mut b) {
            Ok(0) | Err(_) => false,
            Ok(n) => {
                self.buf.extend_from_slice(&b[..n]);
                true
            }
        }
    }
    fn msgs<T: DeserializeOwned>(&mut self) -> Vec<T> {
        let mut out = Vec::new();
        let mut i = 0;
        while self.buf.len() - i >= 4 {
            let n = u32::from_le_bytes(self.buf[i..i + 4].try_into().unwrap()) as usize;
            if self.buf.len() - i - 4 < n {
                break;
            }
            if let Ok(m) = serde_json::from_slice(&self.buf[i + 4..i + 4 + n]) {
                out.push(m);
            }
            i += 4 + n;
        }
        self.buf.drain(..i);
        out
    }
    fn wait(&self) -> i32 {
        let mut st = 0;
        unsafe {
            libc::waitpid(self.pid, &mut st, 0);
        }
        st
    }
    fn kill(&self) {
        unsafe {
            libc::kill(self.pid, libc::SIGKILL);
        }
    }
}

fn poll_fds(fds: &[i32], ms: i32) -> Vec<bool> {
    let mut p: Vec<libc::pollfd> =
        fds.iter().map(|f| libc::pollfd { fd: *f, events: libc::POLLIN, revents: 0 }).collect();
    unsafe {
        libc::poll(p.as_mut_ptr(), p.len() as _, ms);
    }
    p.iter().map(|p| p.revents != 0).collect()
}

enum Forked<T> {
    Done(T),
    /// A panic of the harness itself: no verdict.
    Harness,
    Crash(String),
    Hang,
}

fn forked<T: Serialize + DeserializeOwned>(limit: Duration, f: impl FnOnce() -> T) -> Forked<T> {
    use std::os::fd::AsRawFd;
    let mut c = fork_child(|tx| send(tx, &f()));
    let t = Instant::now();
    loop {
        let r = poll_fds(&[c.rx.as_raw_fd()], 100);
        if r[0] && !c.pump() {
            break;
        }
        if t.elapsed() > limit {
            c.kill();
            c.wait();
            return Forked::Hang;
        }
    }
    let st = c.wait();
    match c.msgs().pop() {
        Some(x) if st == 0 => Forked::Done(x),
        _ if libc::WIFEXITED(st) => Forked::Harness,
        _ => Forked::Crash(status_text(st)),
    }
}

fn status_text(st: i32) -> String {
    if libc::WIFSIGNALED(st) {
        format!("signal {}", libc::WTERMSIG(st))
    } else {
        format!("exit status {}", libc::WEXITSTATUS(st))
    }
}

// ---------------------------------------------------------------- check

pub struct Check {
    pub id: String,
    pub mix: Mix,
    pub seed: u64,
    pub thorough: bool,
    pub budget: Duration,
    pub root: String,
}

impl Check {
    fn job(&self, i: u64) -> (Scn, u32, bool, u64) {
        let mut h = Hash(0xcbf29ce484222325);
        h.add(self.id.as_bytes());
        h.u64(self.seed);
        h.u64(i);
        let mut r = Rng::new(h.0);
        let total: u64 = self.mix.iter().map(|m| m.0).sum();
        let mut k = r.below(total);
        for (wt, scn, n, big) in &self.mix {
            if k < *wt {
                return (*scn, *n, *big > 0 && i % *big == *big / 2, r.next());
            }
            k -= wt;
        }
        unreachable!()
    }

    /// Runs one job; `f` sees every run and says whether to go on.
    fn run_job(&self, i: u64, mut f: impl FnMut(u32, &Plan, Option<Outcome>) -> bool) {
        let (scn, n, big, seed) = self.job(i);
        let base = Plan::base(scn, seed, big);
        if !f(0, &base, None) {
            return;
        }
        let out = base.run(false);
        let mut r = Rng::new(seed ^ 0xDE51);
        let n = if big { n.div_ceil(3) } else { n };
        let derived: Vec<Plan> = (0..n).map(|_| Plan::derive(scn, &base, &out, &mut r)).collect();
        if !f(0, &base, Some(out)) {
            return;
        }
        for (k, p) in derived.iter().enumerate() {
            let v = k as u32 + 1;
            if !f(v, p, None) || !f(v, p, Some(p.run(false))) {
                return;
            }
        }
    }

    /// The checks that see the violation in their own scenarios.
    fn checks_of(&self, v: &Viol, scn: Scn) -> Vec<String> {
        let has = |p: &str| crate::checks::mix(p).is_some_and(|m| m.iter().any(|m| m.1 == scn));
        let all = (1..=99).map(|n| format!("C{n:02}"));
        all.filter(|p| has(p) && v.props.iter().any(|x| x == "*" || x == p)).collect()
    }

    fn concerns(&self, v: &Viol, scn: Option<Scn>) -> bool {
        v.props.iter().any(|p| {
            p == "*"
                || *p == self.id
                || self.id == "ALL" && (scn.is_none() || crate::checks::mix(p).is_some_and(|m| m.iter().any(|m| Some(m.1) == scn)))
        })
    }

    fn worker(&self, sh: &Shared, w: usize, deadline: Instant, tx: &mut std::fs::File) {
        let tally = std::env::var("SIM_TALLY").ok().map(|f| std::fs::File::options().create(true).append(true).open(f).unwrap());
        let mut warm = Vec::new();
        for n in 0..CHUNK {
            if n > 0 && Instant::now() >= deadline {
                break;
            }
            let i = sh.at(0).fetch_add(1, SeqCst);
            let redo = i % 50 == 7;
            let mut m = JobMsg { job: i, scn: format!("{:?}", self.job(i).0), ..Default::default() };
            let slot = 8 + w * 4;
            sh.at(slot).store(i, SeqCst);
            self.run_job(i, |variant, plan, out| {
                sh.at(slot + 1).store(variant as u64 + 1, SeqCst);
                sh.at(slot + 2).fetch_add(1, SeqCst);
                let Some(out) = out else { return true };
                m.runs += 1;
                if variant == 0 {
                    m.plain += 1;
                }
                m.polls += out.polls;
                m.io += out.io_polls;
                m.time += out.time;
                m.cmds += out.commands;
                m.bytes += out.bytes;
                m.conns += out.conns;
                m.hashes.push(out.hash);
                for (k, n) in &out.faults {
                    *m.faults.entry(k.clone()).or_default() += n;
                }
                for (k, n) in &out.probes {
                    *m.probes.entry(k.to_string()).or_default() += n;
                }
                if redo {
                    m.redone += 1;
                    if plan.run(false).hash != out.hash {
                        m.nondet += 1;
                    }
                }
                if let Some(f) = &tally {
                    // only counts, for the comparison of the oracles in mutation tests
                    for v in &out.viols {
                        let l = format!("{:?} {} {}\n", self.job(i).0, v.class, self.checks_of(v, self.job(i).0).join(","));
                        let _ = std::io::Write::write_all(&mut &*f, l.as_bytes());
                    }
                    return out.viols.is_empty() && Instant::now() < deadline;
                }
                if let Some(v) = out.viols.iter().find(|v| self.concerns(v, Some(self.job(i).0))) {
                    send(
                        tx,
                        &Msg::Viol(Box::new(ViolMsg {
                            job: i,
                            variant,
                            plan: plan.clone(),
                            viol: v.clone(),
                            hash: out.hash,
                            warm: warm.clone(),
                        })),
                    );
                    return false;
                }
                // jobs that run into the end of the budget are cut short
                Instant::now() < deadline + Duration::from_millis(1500)
            });
            sh.at(slot + 1).store(0, SeqCst);
            send(tx, &Msg::Job(m));
            warm.push(i);
        }
    }

    fn rerun(&self, warm: &[Plan], plan: &Plan, trace: bool, limit: u64) -> Rerun {
        rerun(warm, plan, trace, limit)
    }

    /// Does `plan` show a violation of `class` that concerns this check?
    fn shows(&self, warm: &[Plan], plan: &Plan, class: &str, limit: u64) -> Option<(Viol, u64)> {
        let r = self.rerun(warm, plan, false, limit);
        let h = r.hash;
        r.viols.into_iter().find(|v| v.class == class && self.concerns(v, None)).map(|v| (v, h))
    }

    pub fn run(&self) -> i32 {
        use std::os::fd::AsRawFd;
        let t0 = Instant::now();
        let deadline = t0 + self.budget;
        let sh = Shared::new();
        let mut stats = Stats::default();
        let mut kids: Vec<Option<Child>> = (0..WORKERS).map(|_| None).collect();
        let mut beats = vec![(0u64, Instant::now()); WORKERS];
        let known = Known::load(&self.root);
        let mut cands: Vec<ViolMsg> = Vec::new();
        let mut done: Option<(Viol, String)> = None;
        let mut unrepro = 0u64;
        let mut spawn = true;
        let mut seen: HashSet<(String, u64)> = HashSet::new();
        let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
        loop {
            for w in 0..WORKERS {
                if kids[w].is_none() && spawn && Instant::now() < deadline {
                    let sh = &sh;
                    sh.at(8 + w * 4 + 1).store(0, SeqCst);
                    kids[w] = Some(fork_child(|tx| self.worker(sh, w, deadline, tx)));
                    beats[w] = (sh.at(8 + w * 4 + 2).load(SeqCst), Instant::now());
                }
            }
            let live: Vec<usize> = (0..WORKERS).filter(|w| kids[*w].is_some()).collect();
            if live.is_empty() {
                break;
            }
            let fds: Vec<i32> = live.iter().map(|w| kids[*w].as_ref().unwrap().rx.as_raw_fd()).collect();
            let rdy = poll_fds(&fds, 100);
            for (k, w) in live.iter().enumerate() {
                let w = *w;
                let c = kids[w].as_mut().unwrap();
                let mut fate = None;
                if rdy[k] {
                    let open = c.pump();
                    for m in c.msgs::<Msg>() {
                        match m {
                            Msg::Job(j) => stats.add(j),
                            Msg::Viol(v) => cands.push(*v),
                        }
                    }
                    if !open {
                        let st = c.wait();
                        if st != 0 && libc::WIFEXITED(st) {
                            stats.harness += 1;
                        } else if st != 0 {
                            fate = Some(("crash", status_text(st)));
                        }
                        kids[w] = None;
                    }
                } else {
                    let b = sh.at(8 + w * 4 + 2).load(SeqCst);
                    if b != beats[w].0 {
                        beats[w] = (b, Instant::now());
                    } else if beats[w].1.elapsed() > Duration::from_secs(30) {
                        c.kill();
                        c.wait();
                        kids[w] = None;
                        fate = Some(("hang", "no end within 30 s of real time".to_string()));
                    }
                }
                if let Some((class, text)) = fate {
                    let job = sh.at(8 + w * 4).load(SeqCst);
                    let variant = sh.at(8 + w * 4 + 1).load(SeqCst);
                    if variant == 0 {
                        continue;
                    }
                    let variant = variant as u32 - 1;
                    // the plan has to be made again
                    let plan = forked(Duration::from_secs(60), || {
                        let mut found = None;
                        self.run_job(job, |v, p, _| {
                            if v == variant {
                                found = Some(p.clone());
                            }
                            found.is_none()
                        });
                        found
                    });
                    if let Forked::Done(Some(plan)) = plan {
                        let viol = Viol { props: vec!["*".into()], class: class.into(), msg: format!("the process died or hung: {text}") };
                        cands.push(ViolMsg { job, variant, plan, viol, hash: 0, warm: Vec::new() });
                    } else {
                        unrepro += 1;
                    }
                }
            }
            while let Some(c) = cands.pop() {
                if done.is_some() {
                    continue;
                }
                if let Some(k) = known.find(&self.id, &c.viol) {
                    *known_hits.entry(k).or_default() += 1;
                    continue;
                }
                if !seen.insert((c.viol.class.clone(), c.job)) {
                    continue;
                }
                match self.confirm(&c) {
                    Some((warm, viol)) => {
                        spawn = false;
                        for k in kids.iter().flatten() {
                            k.kill();
                        }
                        if self.id == "ALL" {
                            done = Some((viol, String::new()));
                            continue;
                        }
                        let path = self.report(&c, warm, viol.clone());
                        done = Some((viol, path));
                    }
                    None => {
                        unrepro += 1;
                        if unrepro <= 5 {
                            eprintln!("unreproduced: job {} variant {} {:?}", c.job, c.variant, c.viol);
                        }
                    }
                }
            }
            if done.is_some() {
                for k in kids.iter_mut() {
                    if let Some(c) = k.take() {
                        c.kill();
                        c.wait();
                    }
                }
            }
        }
        for l in known.list(&self.id) {
            println!("KNOWN-FINDING: property={} {}", self.id, l);
        }
        let wall = t0.elapsed().as_secs_f64();
        self.evidence(&stats, wall, unrepro, done.as_ref(), &known_hits);
        println!(
            "{}: {} runs ({} jobs), {} distinct, {:.0} s simulated, faults {:?}, {:.1} s, unreproduced {}, nondeterministic {}/{}, harness failures {}",
            self.id, stats.runs, stats.jobs, stats.hashes.len(), stats.time as f64 / 1000.0, stats.faults, wall, unrepro, stats.nondet, stats.redone, stats.harness
        );
        match done {
            Some((v, path)) => {
                println!("  {} — {}", v.class, v.msg);
                println!("VIOLATION property={} replay={}", self.id, path);
                1
            }
            None => 0,
        }
    }

    fn confirm(&self, c: &ViolMsg) -> Option<(Vec<Plan>, Viol)> {
        let class = c.viol.class.as_str();
        for _ in 0..2 {
            if let Some((v, _)) = self.shows(&[], &c.plan, class, 40) {
                return Some((Vec::new(), v));
            }
        }
        if c.warm.is_empty() {
            return None;
        }
        // the state of the process matters: repeat what ran before
        let plans = forked(Duration::from_secs(120), || {
            let mut v = Vec::new();
            for i in &c.warm {
                self.run_job(*i, |_, p, out| {
                    if out.is_some() {
                        v.push(p.clone());
                    }
                    true
                });
            }
            self.run_job(c.job, |k, p, out| {
                if out.is_some() && k < c.variant {
                    v.push(p.clone());
                }
                k < c.variant
            });
            v
        });
        let Forked::Done(mut warm) = plans else { return None };
        let (mut viol, _) = self.shows(&warm, &c.plan, class, 120)?;
        // keep the shortest part that still matters
        let t = Instant::now();
        let mut again = true;
        while again && t.elapsed() < Duration::from_secs(45) {
            again = false;
            for w in crate::plan::removals(&warm) {
                if t.elapsed() > Duration::from_secs(45) {
                    break;
                }
                if let Some((v, _)) = self.shows(&w, &c.plan, class, 60) {
                    warm = w;
                    viol = v;
                    again = true;
                    break;
                }
            }
        }
        Some((warm, viol))
    }

    fn report(&self, c: &ViolMsg, warm: Vec<Plan>, viol: Viol) -> String {
        let class = viol.class.clone();
        let mut plan = c.plan.clone();
        let mut viol = viol;
        let t = Instant::now();
        let r = self.rerun(&warm, &plan, false, 40);
        if let Some(p) = plan.pinned(&r.points) {
            if self.shows(&warm, &p, &class, 40).is_some() {
                plan = p;
            }
        }
        let mut tries = 0;
        let limit = if class == "hang" { 10 } else { 40 };
        'outer: loop {
            for p in plan.shrinks() {
                tries += 1;
                if t.elapsed() > Duration::from_secs(45) || tries > 1500 {
                    break 'outer;
                }
                if let Some((v, _)) = self.shows(&warm, &p, &class, limit) {
                    plan = p;
                    viol = v;
                    continue 'outer;
                }
            }
            break;
        }
        let r = self.rerun(&warm, &plan, true, 60);
        let rep = Replay {
            property: self.id.clone(),
            class,
            msg: viol.msg.clone(),
            verif_seed: self.seed,
            job: c.job,
            variant: c.variant,
            hash: r.hash,
            warmup: warm,
            plan,
            trace: r.trace.iter().take(4000).cloned().collect(),
        };
        let dir = format!("{}/replays", self.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{:016x}.json", self.id, rep.hash ^ c.job);
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).expect("replay file");
        path
    }

    fn evidence(&self, s: &Stats, wall: f64, unrepro: u64, done: Option<&(Viol, String)>, known: &BTreeMap<String, u64>) {
        let mut samples = Vec::new();
        for i in 0..200u64 {
            if samples.len() >= 3 {
                break;
            }
            let (scn, _, big, seed) = self.job(i);
            if big {
                continue;
            }
            let p = Plan::base(scn, seed, false);
            let j = serde_json::to_value(&p).unwrap();
            let n = j.to_string().len();
            if n < 6000 || i > 150 {
                samples.push(serde_json::json!({"job": i, "scenario": format!("{scn:?}"), "seed": seed, "plan": if n < 6000 { j } else { serde_json::Value::Null }}));
            }
        }
        let per_h = |n: u64| (n as f64 / wall.max(0.001) * 3600.0) as u64;
        let mut cov = serde_json::json!({
            "evaluations": s.runs,
            "distinct_nontrivial": s.nontrivial.len(),
            "rule": crate::checks::rule(&self.id),
            "samples": samples,
            "explanation": crate::checks::explain(&self.id),
            "jobs_seeds": s.jobs,
            "fault_free_runs": s.plain,
            "derived_runs_with_faults_cancellations_or_other_schedule": s.runs - s.plain,
            "runs_per_hour": per_h(s.runs),
            "seeds_per_hour": per_h(s.jobs),
            "simulated_seconds": s.time / 1000,
            "scheduler_decisions": s.polls,
            "transport_polls": s.io,
            "commands_exchanged": s.cmds,
            "transports_opened": s.conns,
            "stream_bytes": s.bytes,
            "faults_fired": s.faults,
            "conditions_reached": s.probes,
            "distinct_executions": s.hashes.len(),
            "distinct_measure": "hash over every scheduling decision, every poll result of the transport (direction, length, fault), every byte the client writes, every server event and the virtual time of each",
            "runs_by_scenario": s.scn,
            "reexecuted_for_determinism": s.redone,
            "reexecutions_that_differed": s.nondet,
            "unreproducible_candidates": unrepro,
            "harness_failures": s.harness,
            "real_components": crate::checks::real(&self.id),
            "stubbed_components": crate::checks::stubs(&self.id),
        });
        if !known.is_empty() {
            cov["known_finding_hits"] = serde_json::json!(known);
        }
        let mut ev = serde_json::json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": crate::checks::assumptions(&self.id),
            "wall_s": wall,
        });
        if let Some((v, p)) = done {
            ev["violations"] = serde_json::json!([{"class": v.class, "message": v.msg, "replay": p}]);
        }
        let dir = format!("{}/evidence", self.root);
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(format!("{dir}/{}.json", self.id), serde_json::to_string_pretty(&ev).unwrap());
    }
}

fn rerun(warm: &[Plan], plan: &Plan, trace: bool, limit: u64) -> Rerun {
    let died = |class: &str, m: String| Rerun {
        viols: vec![Viol { props: vec!["*".into()], class: class.into(), msg: m }],
        hash: 0,
        trace: Vec::new(),
        points: Vec::new(),
    };
    match forked(Duration::from_secs(limit), || {
        for p in warm {
            p.run(false);
        }
        let o = plan.run(trace);
        Rerun { viols: o.viols, hash: o.hash, trace: o.trace, points: o.points }
    }) {
        Forked::Done(r) => r,
        Forked::Harness => Rerun { viols: Vec::new(), hash: 0, trace: vec!["the harness panicked".into()], points: Vec::new() },
        Forked::Crash(t) => died("crash", format!("the process died or hung: {t}")),
        Forked::Hang => died("hang", "the process died or hung: no end within the limit of real time".into()),
    }
}

pub fn replay(path: &str) -> i32 {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    crate::plan::LEAKS.store(r.property == "C23", std::sync::atomic::Ordering::Relaxed);
    let o = rerun(&r.warmup, &r.plan, true, 60);
    for t in &o.trace {
        println!("{t}");
    }
    let hit = o.viols.iter().find(|v| v.class == r.class && v.props.iter().any(|p| p == "*" || *p == r.property));
    println!("hash {:016x}, recorded {:016x}: {}", o.hash, r.hash, if o.hash == r.hash { "identical execution" } else { "different execution" });
    match hit {
        Some(v) => {
            println!("  {} — {}", v.class, v.msg);
            println!("VIOLATION property={} replay={}", r.property, path);
            1
        }
        None => {
            println!("not reproduced on this tree");
            0
        }
    }
}

#[derive(Default)]
struct Stats {
    jobs: u64,
    runs: u64,
    plain: u64,
    polls: u64,
    io: u64,
    time: u64,
    cmds: u64,
    bytes: u64,
    conns: u64,
    redone: u64,
    nondet: u64,
    harness: u64,
    hashes: HashSet<u64>,
    nontrivial: HashSet<u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    scn: BTreeMap<String, u64>,
}
impl Stats {
    fn add(&mut self, j: JobMsg) {
        self.jobs += 1;
        self.runs += j.runs;
        self.plain += j.plain;
        self.polls += j.polls;
        self.io += j.io;
        self.time += j.time;
        self.cmds += j.cmds;
        self.bytes += j.bytes;
        self.conns += j.conns;
        self.redone += j.redone;
        self.nondet += j.nondet;
        // a job in which nothing was exchanged is trivial
        if j.cmds > 0 || j.conns > 0 || j.polls > 0 {
            self.nontrivial.extend(j.hashes.iter());
        }
        self.hashes.extend(j.hashes);
        for (k, n) in j.faults {
            *self.faults.entry(k).or_default() += n;
        }
        for (k, n) in j.probes {
            *self.probes.entry(k).or_default() += n;
        }
        *self.scn.entry(j.scn).or_default() += j.runs;
    }
}

/// Committed list of genuine defects that are not repaired:
/// `finding: property=<id> class=<class> match=<text of the message> :: <what fails>`
struct Known(Vec<(String, String, String, String)>);
impl Known {
    fn load(root: &str) -> Known {
        let t = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
        let mut v = Vec::new();
        for l in t.lines() {
            let Some(l) = l.strip_prefix("finding: property=") else { continue };
            let Some((id, l)) = l.split_once(" class=") else { continue };
            let Some((class, l)) = l.split_once(" match=") else { continue };
            let Some((m, what)) = l.split_once(" :: ") else { continue };
            v.push((id.into(), class.into(), m.into(), what.into()));
        }
        Known(v)
    }
    fn find(&self, id: &str, v: &Viol) -> Option<String> {
        self.0.iter().find(|k| k.0 == id && k.1 == v.class && v.msg.contains(&k.2)).map(|k| k.3.clone())
    }
    fn list(&self, id: &str) -> Vec<String> {
        self.0.iter().filter(|k| k.0 == id).map(|k| k.3.clone()).collect()
    }
}
