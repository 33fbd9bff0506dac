//! Pool of real connections: users take a connection from an `AsyncPool`, use it in every way the
//! connection scenario knows (abandoned results, cancelled calls, faults), return it, and others
//! follow. At the end, when the network works again, everybody has to succeed.
use crate::conn::*;
use crate::gen::{self, Focus, G};
use crate::plan::{removals, shrink_net};
use crate::rng::Rng;
use crate::server::*;
use crate::wire;
use crate::world::*;
use mysql_connector::pool::{AsyncPool, AsyncPoolTrait, PoolItem};
use mysql_connector::Connection;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Round {
    pub id: u32,
    /// Drops the request after this many polls.
    pub cancel: Option<u32>,
    pub pause: u64,
    pub ops: Vec<Op>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct PcPlan {
    pub seed: u64,
    pub n: u8,
    pub login: LoginCfg,
    pub users: Vec<Vec<Round>>,
    /// Sequential users at the end.
    pub last: Vec<Round>,
    pub net: NetCfg,
    pub faults: Vec<Fault>,
    pub mis: Vec<Mis>,
    pub down: Vec<(u64, u64)>,
    /// The users repeat what they do so often.
    #[serde(default)]
    pub again: u16,
}

/// Bytes per repetition by which the memory of the code under test grew in the last run that had
/// enough repetitions.
pub static GROWTH: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);

/// The memory has to grow from each octave of the run to the next, by more each time, as it does
/// when something is kept for every repetition (also in a vector that doubles its room). What is
/// acquired once, when it is needed first, does not do that.
fn growth(seen: &[isize]) -> isize {
    let n = seen.len();
    if n < 32 {
        return 0;
    }
    let low: Vec<isize> = (0..4).map(|k| *seen[n >> (4 - k)..n >> (3 - k)].iter().min().unwrap()).collect();
    let by: Vec<isize> = low.windows(2).map(|x| x[1] - x[0]).collect();
    let unit = (n / 8) as isize;
    // a short run only gives a reason for a long one
    let steady = n < 256 || (by[0] >= unit / 2 && by[1] >= by[0] * 3 / 2 && by[2] >= by[1] * 3 / 2);
    if by[1] + by[2] >= unit && steady {
        ((by[1] + by[2]) / (n as isize * 3 / 8)).max(1)
    } else {
        0
    }
}

const HINT: u32 = 1_000_000;

#[derive(Default)]
struct Life {
    users: u32,
    broken: bool,
    in_use: bool,
}

struct Env {
    lives: RefCell<HashMap<u32, Life>>,
    sh: Rc<RefCell<Shared>>,
    login: LoginCfg,
    seed: u64,
    n: usize,
    seen: RefCell<Vec<isize>>,
}

type ConnPool<const N: usize> = AsyncPool<Connection, SimStream<false>, N>;

/// Returns whether the whole round went well.
async fn round<const N: usize>(env: &Rc<Env>, user: usize, pool: &Rc<ConnPool<N>>, rd: &Round) -> bool {
    if rd.pause > 0 {
        sleep(rd.pause).await;
    }
    let polls = Rc::new(RefCell::new(0u32));
    let t0 = now();
    let before = w(|w| w.conns.len());
    let r = counted(rd.cancel, pool.get(), polls.clone()).await;
    env.sh.borrow_mut().steps.push(StepStat {
        step: rd.id,
        part: user,
        c2s: 0,
        s2c: 0,
        polls: *polls.borrow(),
        conn: w(|w| w.conns.len()) > before,
    });
    let mut item: PoolItem<'_, Connection> = match r {
        None => {
            *env.sh.borrow_mut().probes.entry("cancelled-request").or_default() += 1;
            return true;
        }
        Some(Err(e)) => {
            let e = eout(&e);
            // somebody interfered with the opening of a connection
            let excuse = w(|w| {
                w.fault_counts.contains_key("connect-refused")
                    || w.open_fired.values().any(|v| !v.is_empty())
                    || w.conns.iter().any(|c| c.fired.iter().any(|f| f.1 >= t0))
                    || w.conns.iter().any(|c| !c.fired.is_empty() && !w.srv.sess[c.id as usize].login_ok)
            });
            if !excuse {
                w(|w| {
                    w.viol(&["C13", "C14", "C08"], "request-failed", format!("user {user}: a request failed without any fault: {}", e.text))
                });
            }
            *env.sh.borrow_mut().probes.entry("request-failed-after-fault").or_default() += 1;
            return false;
        }
        Some(Ok(x)) => x,
    };
    let id = item.data().id();
    let Some(tid) = w(|w| w.srv.sess.iter().position(|s| s.conn_id == id)) else {
        w(|w| w.viol(&["C08"], "wrong-connection-data", format!("user {user}: connection id {id} does not exist")));
        return false;
    };
    let tid = tid as u32;
    let (first, was_broken, shared) = {
        let mut l = env.lives.borrow_mut();
        let l = l.entry(tid).or_default();
        l.users += 1;
        let shared = l.in_use;
        l.in_use = true;
        (l.users == 1, l.broken, shared)
    };
    if shared {
        w(|w| w.viol(&["C12"], "shared", format!("user {user}: connection {tid} is used by two users at a time")));
    }
    if was_broken {
        w(|w| {
            w.viol(
                &["C14", "C13"],
                "broken-connection",
                format!("user {user} was given transport {tid}, on which an earlier user's call had failed for good"),
            )
        });
    }
    w(|w| {
        let c = &mut w.conns[tid as usize];
        c.keep_raw = false;
        c.raw_c2s = Vec::new();
    });
    let mut tr = Track {
        part: user,
        conn: tid,
        base_id: env.login.conn_id,
        lax: false,
        pooled: !first,
        timeout: env.login.timeout,
        taint: None,
        broken: false,
        pending: Vec::new(),
        sh: env.sh.clone(),
    };
    if !first {
        tr.probe("reused-connection");
    }
    // something may have happened to the transport that nobody has noticed yet
    tr.look();
    let de = w(|w| w.srv.sess[tid as usize].caps & wire::CAP_DEPRECATE_EOF != 0);
    let viols = w(|w| w.viols.len());
    for op in &rd.ops {
        if let Kind::Sleep(ms) = op.kind {
            sleep(ms).await;
            continue;
        }
        do_op(&mut tr, &mut item, op, de, env.seed).await;
    }
    tr.look();
    let mut l = env.lives.borrow_mut();
    let l = l.get_mut(&tid).unwrap();
    l.in_use = false;
    l.broken |= tr.broken;
    let good = !tr.broken && w(|w| w.viols.len()) == viols;
    drop(item);
    good
}

fn run_n<const N: usize>(plan: &PcPlan, trace: bool) -> Outcome {
    let mut script = HashMap::new();
    for rd in plan.users.iter().flatten().chain(&plan.last) {
        build_script(&rd.ops, plan.seed, &mut script);
    }
    let sh = Rc::new(RefCell::new(Shared::default()));
    let env = Rc::new(Env {
        lives: RefCell::new(HashMap::new()),
        sh: sh.clone(),
        login: plan.login.clone(),
        seed: plan.seed,
        n: N,
        seen: RefCell::new(Vec::with_capacity(plan.again as usize + 1)),
    });
    let pool: Rc<ConnPool<N>> = Rc::new(AsyncPool::new(Arc::new(options::<false>(&plan.login, 0))));
    let left = Rc::new(Cell::new(plan.users.len()));
    let mut tasks: Vec<Task> = Vec::new();
    let again = plan.again;
    for (i, rounds) in plan.users.iter().enumerate() {
        let (env, pool, rounds, left) = (env.clone(), pool.clone(), rounds.clone(), left.clone());
        tasks.push(Box::pin(async move {
            for _ in 0..again.max(1) {
                for r in &rounds {
                    round(&env, i, &pool, r).await;
                }
                if i == 0 {
                    env.seen.borrow_mut().push(crate::alloc::lib_bytes());
                }
            }
            left.set(left.get() - 1);
        }));
    }
    {
        let (env, pool, rounds) = (env.clone(), pool.clone(), plan.last.clone());
        let n = plan.users.len();
        let up = plan.down.iter().map(|d| d.1).max().unwrap_or(0);
        tasks.push(Box::pin(async move {
            while left.get() > 0 {
                sleep(5000).await;
            }
            // from here on nothing is wrong any more
            let t = now();
            if t < up {
                sleep(up - t).await;
            }
            w(|w| w.settle());
            let mut bad = 0;
            for r in &rounds {
                bad += !round(&env, n, &pool, r).await as usize;
            }
            // each connection that died before may fail one request
            if bad > env.n {
                w(|w| {
                    w.viol(
                        &["C14", "C13"],
                        "no-recovery",
                        format!("{bad} of {} requests with a working server failed, the pool had {} connections at most", rounds.len(), env.n),
                    )
                });
            }
        }));
    }
    let mut srv = Server::new(plan.seed ^ 0x5EED, vec![plan.login.clone()], Backend::Script(script));
    srv.mis = plan.mis.clone();
    let (mut world, res) = run(
        || {
            let mut wd = World::new(plan.seed, plan.net.clone(), plan.faults.clone(), srv);
            wd.next_step_hint = HINT;
            wd.down = plan.down.clone();
            if trace {
                wd.trace = Some(Vec::new());
            }
            wd
        },
        40_000_000 * plan.again.max(1) as u64,
        tasks,
    );
    GROWTH.store(growth(&env.seen.borrow()), std::sync::atomic::Ordering::Relaxed);
    let users = plan.users.len();
    for t in &res.stuck {
        if *t == users && res.stuck.len() > 1 {
            continue;
        }
        world.viols.push(Viol {
            props: vec!["C13".into(), "C07".into(), "*".into()],
            class: "stuck".into(),
            msg: format!("user {t}: a request or call never returned"),
        });
    }
    let max = world.conn_max.get(&0).cloned().unwrap_or(0);
    if max > env.n {
        world.viols.push(Viol {
            props: vec!["C12".into()],
            class: "bound".into(),
            msg: format!("{max} connections were open or being opened at a time, the limit is {}", env.n),
        });
    }
    let ids: HashSet<u32> = world.conns.iter().filter(|c| c.open).map(|c| c.id).collect();
    let leak = ids.len() > env.n;
    if leak {
        world.viols.push(Viol { props: vec!["C12".into()], class: "bound".into(), msg: format!("{} connections are left open", ids.len()) });
    }
    let sh = sh.borrow();
    Outcome {
        hash: world.hash.0,
        polls: world.polls,
        io_polls: world.io_polls,
        time: world.max_time,
        faults: std::mem::take(&mut world.fault_counts),
        steps: sh.steps.clone(),
        trace: world.trace.take().unwrap_or_default(),
        commands: world.srv.sess.iter().map(|s| s.cmds).sum(),
        bytes: world.conns.iter().map(|c| c.written + c.consumed).sum(),
        conns: world.conns.len() as u64,
        probes: sh.probes.clone(),
        viols: std::mem::take(&mut world.viols),
        points: Vec::new(),
        paddings: Vec::new(),
    }
}

pub fn run_pc(plan: &PcPlan, trace: bool) -> Outcome {
    match plan.n {
        1 => run_n::<1>(plan, trace),
        2 => run_n::<2>(plan, trace),
        _ => run_n::<3>(plan, trace),
    }
}

// ---------------------------------------------------------------- generation

/// A simple exchange whose outcome shows whether the connection is as new.
fn simple_round(g: &mut G) -> Round {
    let id = g.id();
    let mut ops = vec![Op { id: g.id(), cancel: None, kind: Kind::Cleanup }];
    let id2 = g.id();
    ops.push(Op { id: id2, cancel: None, kind: Kind::Query { pad: 0, resp: g.resp(id2, false, true), consume: Consume::Collect } });
    Round { id, cancel: None, pause: 0, ops }
}

pub fn gen_pc(seed: u64) -> PcPlan {
    let mut r = Rng::new(seed);
    let n = *r.pick(&[1u8, 1, 1, 2, 2, 3]);
    let mut lr = r.fork(1);
    let mut login = gen::gen_login(&mut lr, 0);
    login.secure = false;
    let mut nr = r.fork(2);
    let net = gen::gen_net(&mut nr, Focus::Mixed, login.timeout);
    let nu = 1 + r.usize(4);
    let mut g = G { r: &mut lr, next: 10, focus: Focus::Mixed, huge: 0 };
    let users = (0..nu)
        .map(|_| {
            let k = 1 + g.r.usize(3);
            (0..k)
                .map(|_| {
                    let id = g.id();
                    let m = g.r.usize(4);
                    let mut ops = Vec::new();
                    if g.r.pct(25) {
                        ops.push(Op { id: g.id(), cancel: None, kind: Kind::Cleanup });
                    }
                    for _ in 0..m {
                        ops.push(g.op(0, 99));
                    }
                    Round { id, cancel: None, pause: if g.r.bool() { 0 } else { g.r.log(3000) }, ops }
                })
                .collect()
        })
        .collect();
    let last = (0..2 * n as usize + 2).map(|_| simple_round(&mut g)).collect();
    PcPlan { seed: r.next(), n, login, users, last, net, faults: Vec::new(), mis: Vec::new(), down: Vec::new(), again: 0 }
}

/// The same work again and again.
pub fn gen_long(seed: u64) -> PcPlan {
    let mut p = gen_pc(seed);
    let mut r = Rng::new(seed ^ 0x10_46);
    p.users.truncate(1 + r.usize(2));
    for u in &mut p.users {
        u.truncate(2);
        for rd in u {
            rd.pause %= 50;
        }
    }
    p.again = 32 + r.below(20) as u16;
    p
}

pub fn derive_pc(base: &PcPlan, out: &Outcome, r: &mut Rng) -> PcPlan {
    let mut p = base.clone();
    p.seed = r.next();
    let t = p.login.timeout;
    if r.pct(30) {
        p.net = gen::gen_net(r, Focus::Mixed, t);
    }
    let in_users: HashSet<u32> =
        p.users.iter().flatten().flat_map(|rd| rd.ops.iter()).flat_map(|o| op_ids(o)).collect();
    let steps: Vec<&StepStat> = out.steps.iter().filter(|s| in_users.contains(&s.step)).collect();
    let gets: Vec<&StepStat> =
        out.steps.iter().filter(|s| p.users.iter().flatten().any(|rd| rd.id == s.step) && s.polls > 0).collect();
    let stall = |r: &mut Rng| -> Option<u64> {
        match r.below(4) {
            0 => None,
            1 => Some(t + 1 + r.log(2 * t)),
            _ => Some(1 + r.below(t / 2 - 100)),
        }
    };
    let n = 1 + r.usize(3);
    for _ in 0..n {
        match r.below(10) {
            // while connecting
            0 | 1 => {
                let k = r.below(out.conns.max(1) + 2) as u32;
                let kind = match r.below(6) {
                    0 => FaultKind::ConnErr,
                    1 => FaultKind::ConnStall(stall(r)),
                    2 => FaultKind::Eof,
                    3 => FaultKind::Stall(stall(r)),
                    4 => FaultKind::ServerDeath,
                    _ => FaultKind::StallWrite(stall(r)),
                };
                let off = r.below(if kind.is_read() { 200 } else { 120 });
                p.faults.push(Fault { step: HINT + k, off, kind });
            }
            2 => {
                let a = r.log(4 * t);
                let b = a + 1 + r.log(2 * t);
                p.down.push((a, b));
            }
            3 if !gets.is_empty() => {
                let s = r.pick(&gets);
                let k = 1 + r.below(s.polls as u64) as u32;
                for rd in p.users.iter_mut().flatten() {
                    if rd.id == s.step {
                        rd.cancel = Some(k);
                    }
                }
            }
            4..=6 if !steps.is_empty() => {
                let s = (*r.pick(&steps)).clone();
                if s.polls == 0 {
                    continue;
                }
                let k = 1 + r.below(s.polls as u64) as u32;
                for op in p.users.iter_mut().flatten().flat_map(|rd| rd.ops.iter_mut()) {
                    if op.id == s.step {
                        op.cancel = Some(k);
                    }
                    if let Kind::Prepare { runs, .. } = &mut op.kind {
                        for run in runs {
                            if run.id == s.step {
                                run.cancel = Some(k);
                            }
                        }
                    }
                }
            }
            _ if !steps.is_empty() => {
                let s = (*r.pick(&steps)).clone();
                if r.pct(10) {
                    if !p.mis.iter().any(|m| m.step == s.step) {
                        let kind = match r.below(3) {
                            0 => MisKind::BadSeq(1 + r.below(255) as u8),
                            1 => MisKind::Drop,
                            _ => MisKind::Dup,
                        };
                        p.mis.push(Mis { step: s.step, pkt: r.below(6) as u32, kind });
                    }
                    continue;
                }
                let kind = match r.below(12) {
                    0..=2 => FaultKind::Eof,
                    3 => FaultKind::Reset,
                    4 | 5 => FaultKind::Stall(stall(r)),
                    6 => FaultKind::WriteErr,
                    7 => FaultKind::StallWrite(stall(r)),
                    8 => FaultKind::BlackHole,
                    9 => FaultKind::ServerDeath,
                    10 => FaultKind::FlushErr,
                    _ => FaultKind::FlushStall(stall(r)),
                };
                let n = if kind.is_read() { s.s2c } else { s.c2s };
                // at the very end: the connection dies while it is idle
                let off = if r.pct(30) { n } else { r.below(n + 1) };
                p.faults.push(Fault { step: s.step, off, kind });
            }
            _ => {}
        }
    }
    p
}

fn op_ids(o: &Op) -> Vec<u32> {
    let mut v = vec![o.id];
    if let Kind::Prepare { runs, .. } = &o.kind {
        v.extend(runs.iter().map(|r| r.id));
    }
    v
}

pub fn shrink_pc(p: &PcPlan) -> Vec<PcPlan> {
    let mut out = Vec::new();
    for v in removals(&p.users) {
        out.push(PcPlan { users: v, ..p.clone() });
    }
    for v in removals(&p.faults) {
        out.push(PcPlan { faults: v, ..p.clone() });
    }
    for v in removals(&p.mis) {
        out.push(PcPlan { mis: v, ..p.clone() });
    }
    for v in removals(&p.down) {
        out.push(PcPlan { down: v, ..p.clone() });
    }
    if !p.last.is_empty() {
        out.push(PcPlan { last: Vec::new(), ..p.clone() });
    }
    for i in 0..p.users.len() {
        for v in removals(&p.users[i]) {
            let mut c = p.clone();
            c.users[i] = v;
            out.push(c);
        }
        for j in 0..p.users[i].len() {
            for v in removals(&p.users[i][j].ops) {
                let mut c = p.clone();
                c.users[i][j].ops = v;
                out.push(c);
            }
            if p.users[i][j].cancel.is_some() || p.users[i][j].pause > 0 {
                let mut c = p.clone();
                c.users[i][j].cancel = None;
                out.push(c.clone());
                c.users[i][j].pause = 0;
                out.push(c);
            }
        }
    }
    for n in shrink_net(&p.net) {
        out.push(PcPlan { net: n, ..p.clone() });
    }
    out
}
