//! Pool scenario at the granularity of single shared accesses: OS threads that run one at a time;
//! before every access to the pool's atomics and queues (hook in /repo) the seeded scheduler decides
//! which thread goes on. Every thread runs a few tasks; items are created by scripted futures
//! that take time, fail or are cancelled.
use crate::conn::Outcome;
use crate::plan::removals;
use crate::rng::{Hash, Rng};
use crate::world::Viol;
use mysql_connector::pool::{
    AsyncPool, AsyncPoolContent, AsyncPoolContentError, AsyncPoolTrait, PoolItem, SyncPool, VecPoolCtx,
};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Make {
    /// Delays (in scheduler steps) after which the creation goes on.
    pub delays: Vec<u32>,
    pub fail: bool,
    /// Instead of an end, the creation panics.
    #[serde(default)]
    pub panic: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Get {
    /// Gives the request up this many steps after it began.
    pub give_up: Option<u32>,
    /// Gives up after this many polls.
    pub polls: Option<u32>,
    pub make: Make,
    pub hold: u32,
    /// The item cannot be used any more afterwards.
    pub spoil: bool,
    /// The user panics while it has the item.
    #[serde(default)]
    pub panic: bool,
    /// The user keeps the item until nobody else can go on.
    #[serde(default)]
    pub hoard: bool,
}

/// What the simulated users and creations panic with.
struct UserPanic;
fn user_panic() -> ! {
    std::panic::resume_unwind(Box::new(UserPanic))
}
/// Runs a part of a task that may panic in this way. Whether it did not.
async fn survive(f: impl Future<Output = ()>) -> bool {
    let mut f = Some(Box::pin(f));
    std::future::poll_fn(move |cx| {
        let x = f.as_mut().unwrap();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.as_mut().poll(cx))) {
            Ok(p) => p.map(|_| true),
            Err(e) if e.is::<UserPanic>() => {
                f = None;
                Poll::Ready(false)
            }
            Err(e) => std::panic::resume_unwind(e),
        }
    })
    .await
}


#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Get(Get),
    /// Two requests of one task; the slower one is dropped.
    Race(Get, Get),
    Sleep(u32),
    /// A buffer of the synchronous pool is filled, held and given back.
    Buf { hold: u32, len: usize },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Sched {
    /// Switch to a random thread with this probability (percent).
    Random(u8),
    /// Run on without switching, except at these decisions.
    Points(Vec<(u32, u32)>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct PtPlan {
    pub seed: u64,
    pub n: u8,
    pub threads: Vec<Vec<Vec<Op>>>,
    pub sched: Sched,
    /// Wake-ups out of nowhere: (step, thread, task).
    pub spurious: Vec<(u32, u8, u8)>,
}

// ---------------------------------------------------------------- scheduler

#[derive(PartialEq, Clone, Copy)]
enum Th {
    Ready,
    Parked,
    Done,
}

struct St {
    cur: usize,
    rng: Rng,
    step: u32,
    th: Vec<Th>,
    flags: Vec<Vec<bool>>,
    timers: Vec<(u32, usize, usize)>,
    sched: Sched,
    used: Vec<(u32, u32)>,
    hash: Hash,
    trace: Option<Vec<String>>,
    viols: Vec<Viol>,
    probes: BTreeMap<&'static str, u64>,
    faults: BTreeMap<String, u64>,
    ended: bool,
    stop: bool,
    live: i64,
    waiting: BTreeMap<u32, String>,
    /// Items in the hands of users.
    held: usize,
    /// Tasks that keep their item until nobody can go on, and those that were told to return it.
    hoards: Vec<u32>,
    freed: Vec<u32>,
    n: usize,
}

struct Sim {
    m: Mutex<St>,
    cv: Vec<Condvar>,
    main: Condvar,
    n: usize,
    /// The run is over; items are dropped with the pool.
    closing: AtomicBool,
    next_item: AtomicI64,
    /// Elements of buffers that exist.
    els: Arc<std::sync::atomic::AtomicUsize>,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Sim>, usize)>> = const { RefCell::new(None) };
    static TASK: Cell<u32> = const { Cell::new(0) };
    static MAKE: RefCell<Option<Make>> = const { RefCell::new(None) };
}

const LIMIT: u32 = 60_000;

impl Sim {
    fn st<R>(&self, f: impl FnOnce(&mut St) -> R) -> R {
        f(&mut self.m.lock().unwrap_or_else(|e| e.into_inner()))
    }
    fn viol(&self, props: &[&str], class: &str, msg: String) {
        self.st(|s| {
            if s.viols.len() < 20 {
                let step = s.step;
                if let Some(t) = &mut s.trace {
                    t.push(format!("{step:>6} VIOLATION {class}: {msg}"));
                }
                s.viols.push(Viol {
                    props: props.iter().map(|x| x.to_string()).collect(),
                    class: class.into(),
                    msg: format!("[step {step}] {msg}"),
                });
            }
        })
    }
    fn probe(&self, p: &'static str) {
        self.st(|s| *s.probes.entry(p).or_default() += 1);
    }
    fn fault(&self, p: &'static str) {
        self.st(|s| *s.faults.entry(p.into()).or_default() += 1);
    }
    fn tr(&self, f: impl FnOnce() -> String) {
        self.st(|s| {
            let step = s.step;
            if let Some(t) = &mut s.trace {
                t.push(format!("{step:>6} {}", f()));
            }
        })
    }
}

impl St {
    /// One decision among `opts` (not empty); `cur` is what happens without a reason to switch.
    fn decide(&mut self, cur: Option<u32>, opts: &[u32]) -> u32 {
        self.step += 1;
        let default = cur.filter(|c| opts.contains(c)).unwrap_or(opts[0]);
        let pick = match &self.sched {
            Sched::Random(p) => {
                let p = *p as u64;
                if opts.len() > 1 && (cur.is_none() || self.rng.pct(p)) {
                    *self.rng.pick(opts)
                } else {
                    default
                }
            }
            Sched::Points(v) => match v.binary_search_by_key(&self.step, |x| x.0) {
                Ok(i) if opts.contains(&v[i].1) => v[i].1,
                _ => default,
            },
        };
        if pick != default {
            self.used.push((self.step, pick));
        }
        self.hash.u64((self.step as u64) << 8 | pick as u64);
        pick
    }

    fn fire(&mut self) {
        let step = self.step;
        let mut i = 0;
        while i < self.timers.len() {
            if self.timers[i].0 <= step {
                let (_, t, k) = self.timers.remove(i);
                self.flags[t][k] = true;
            } else {
                i += 1;
            }
        }
    }

    /// Nobody can go on and some users keep their items: the first of them returns its own. By
    /// then no request may be waiting unless all items are in use.
    fn relent(&mut self) {
        if self.held < self.n && !self.waiting.is_empty() {
            let w: Vec<String> = self.waiting.values().cloned().collect();
            let (held, n, step) = (self.held, self.n, self.step);
            self.viols.push(Viol {
                props: vec!["C13".into()],
                class: "idle-capacity".into(),
                msg: format!("[step {step}] nobody can go on with {held} of {n} items in use: {}", w.join(", ")),
            });
        }
        *self.probes.entry(if self.waiting.is_empty() { "hoarder" } else { "hoarder-waited-for" }).or_default() += 1;
        let who = self.hoards.remove(0);
        self.freed.push(who);
        let (t, k) = split(who);
        self.flags[t][k] = true;
    }

    /// Threads that can go on; jumps over time in which nobody can.
    fn runnable(&mut self) -> Vec<u32> {
        loop {
            self.fire();
            let v: Vec<u32> = (0..self.th.len())
                .filter(|t| match self.th[*t] {
                    Th::Ready => true,
                    Th::Parked => self.flags[*t].iter().any(|f| *f),
                    Th::Done => false,
                })
                .map(|t| t as u32)
                .collect();
            if !v.is_empty() {
                return v;
            }
            match self.timers.iter().map(|t| t.0).min() {
                Some(t) => self.step = self.step.max(t),
                None if !self.hoards.is_empty() => self.relent(),
                None => return v,
            }
        }
    }
}

fn pass(sim: &Arc<Sim>, me: usize, st: Th) {
    let mut s = sim.m.lock().unwrap_or_else(|e| e.into_inner());
    s.th[me] = st;
    if s.step > LIMIT && !s.ended {
        let step = s.step;
        s.viols.push(Viol {
            props: vec!["C13".into(), "*".into()],
            class: "spin".into(),
            msg: format!("still running after {step} steps"),
        });
        s.ended = true;
        s.stop = true;
        sim.main.notify_all();
    }
    let opts = s.runnable();
    if opts.is_empty() {
        s.ended = true;
        s.cur = usize::MAX;
        s.stop = true;
        sim.main.notify_all();
        for c in &sim.cv {
            c.notify_all();
        }
        return;
    }
    let next = s.decide(if st == Th::Done { None } else { Some(me as u32) }, &opts) as usize;
    s.cur = next;
    if next != me {
        sim.cv[next].notify_all();
    }
    if st == Th::Done {
        return;
    }
    while s.cur != me {
        if s.stop && st == Th::Parked {
            return;
        }
        s = sim.cv[me].wait(s).unwrap_or_else(|e| e.into_inner());
    }
    s.th[me] = Th::Ready;
    if s.stop && s.step > LIMIT {
        // given up: this thread never goes on
        drop(s);
        loop {
            std::thread::sleep(Duration::from_secs(3600));
        }
    }
}

fn hook(op: &'static str) {
    let me = ME.with(|m| m.borrow().clone());
    if let Some((sim, id)) = me {
        if sim.closing.load(SeqCst) {
            return;
        }
        pass(&sim, id, Th::Ready);
        sim.tr(|| format!("thread {id} task {}: {op}", TASK.with(|t| t.get())));
    }
}

struct Wk {
    sim: Arc<Sim>,
    thread: usize,
    task: usize,
}
impl Wake for Wk {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.sim.st(|s| {
            s.flags[self.thread][self.task] = true;
        });
    }
}

// ---------------------------------------------------------------- pool contents

struct Item {
    id: i64,
    sim: Arc<Sim>,
    used: AtomicBool,
    broken: AtomicBool,
}
impl Drop for Item {
    fn drop(&mut self) {
        let lost = !self.broken.load(SeqCst) && !self.sim.closing.load(SeqCst);
        self.sim.st(|s| s.live -= 1);
        self.sim.tr(|| format!("item {} destroyed", self.id));
        if lost && !std::thread::panicking() {
            self.sim.viol(&["C12", "C13"], "item-lost", format!("item {} was destroyed although it was given back intact", self.id));
        }
    }
}

struct Ctx(Arc<Sim>);
impl std::fmt::Debug for Ctx {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Ctx")
    }
}
#[derive(Debug)]
struct MakeErr(u32);
impl AsyncPoolContentError for Item {
    type Error = MakeErr;
}

struct NewFut {
    sim: Arc<Sim>,
    make: Make,
    who: u32,
    k: usize,
    done: bool,
    due: u32,
}
impl Future for NewFut {
    type Output = Result<Item, MakeErr>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = self.get_mut();
        hook("creation polled");
        assert!(!this.done, "creation polled after it ended");
        let sim = this.sim.clone();
        let now = sim.st(|s| s.step);
        if this.due > now {
            // woken by something else
            if this.who != u32::MAX {
                let (t, k) = split(this.who);
                sim.st(|s| s.timers.push((this.due, t, k)));
            }
            return Poll::Pending;
        }
        if this.k < this.make.delays.len() {
            let d = this.make.delays[this.k];
            this.k += 1;
            if d == 0 {
                cx.waker().wake_by_ref();
            } else if this.who != u32::MAX {
                let (t, k) = split(this.who);
                this.due = now + d;
                sim.st(|s| s.timers.push((now + d, t, k)));
            }
            return Poll::Pending;
        }
        this.done = true;
        if this.make.panic {
            sim.fault("creation-panic");
            sim.st(|s| s.live -= 1);
            sim.tr(|| format!("creation for task {} panics", this.who));
            user_panic();
        }
        if this.make.fail {
            sim.fault("creation-failure");
            sim.st(|s| s.live -= 1);
            sim.tr(|| format!("creation for task {} fails", this.who));
            FAILED.with(|f| f.set(true));
            return Poll::Ready(Err(MakeErr(this.who)));
        }
        let id = sim.next_item.fetch_add(1, SeqCst);
        sim.tr(|| format!("item {id} created"));
        Poll::Ready(Ok(Item { id, sim, used: AtomicBool::new(false), broken: AtomicBool::new(false) }))
    }
}
impl Drop for NewFut {
    fn drop(&mut self) {
        if !self.done {
            self.sim.st(|s| s.live -= 1);
            self.sim.fault("creation-cancelled");
            self.sim.tr(|| format!("creation for task {} cancelled", self.who));
        }
    }
}
thread_local! {
    static FAILED: Cell<bool> = const { Cell::new(false) };
}

fn split(who: u32) -> (usize, usize) {
    ((who / 100) as usize, (who % 100) as usize)
}

impl AsyncPoolContent<()> for Item {
    type Ctx = Ctx;
    fn new<'a>(ctx: &'a Ctx) -> Pin<Box<dyn Future<Output = Result<Self, MakeErr>> + 'a>> {
        let sim = ctx.0.clone();
        let who = TASK.with(|t| t.get());
        let (live, n) = sim.st(|s| {
            s.live += 1;
            (s.live, sim.n as i64)
        });
        sim.tr(|| format!("creation for task {who} begins, {live} exist"));
        if live > n {
            sim.viol(&["C12"], "bound", format!("{live} items exist or are being created, the limit is {n}"));
        }
        let make = MAKE.with(|m| m.borrow().clone()).unwrap_or(Make { delays: vec![], fail: false, panic: false });
        Box::pin(NewFut { sim, make, who, k: 0, done: false, due: 0 })
    }
    fn reusable(&self) -> bool {
        !self.broken.load(SeqCst)
    }
}

// ---------------------------------------------------------------- tasks

/// Suspends the task for `d` steps.
struct Nap {
    sim: Arc<Sim>,
    d: u32,
    until: Option<u32>,
}
impl Future for Nap {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> {
        let this = self.get_mut();
        let (t, k) = split(TASK.with(|t| t.get()));
        let d = this.d;
        let until = &mut this.until;
        this.sim.st(|s| {
            let u = *until.get_or_insert(s.step + d);
            if s.step >= u {
                Poll::Ready(())
            } else {
                s.timers.push((u, t, k));
                Poll::Pending
            }
        })
    }
}

type P<const N: usize> = AsyncPool<Item, (), N>;

/// Polls a request until it completes or is given up.
fn request<'a, const N: usize>(
    sim: &'a Arc<Sim>,
    pool: &'a P<N>,
    g: &'a Get,
    who: u32,
) -> impl Future<Output = Option<Result<PoolItem<'a, Item>, MakeErr>>> + 'a {
    let mut fut: Option<Pin<Box<dyn Future<Output = Result<PoolItem<'a, Item>, MakeErr>> + 'a>>> = None;
    let mut polls = 0;
    let mut start = None;
    let mut own_failure = false;
    std::future::poll_fn(move |cx| {
        let now = sim.st(|s| s.step);
        let begin = *start.get_or_insert(now);
        if fut.is_none() {
            fut = Some(pool.get());
            if let Some(d) = g.give_up {
                let (t, k) = split(who);
                sim.st(|s| s.timers.push((now + d, t, k)));
            }
        }
        if polls > 0 && g.give_up.is_some_and(|d| now >= begin + d) {
            sim.fault("request-cancelled");
            sim.tr(|| format!("task {who} gives its request up"));
            sim.st(|s| s.waiting.remove(&who));
            fut = None;
            return Poll::Ready(None);
        }
        MAKE.with(|m| *m.borrow_mut() = Some(g.make.clone()));
        FAILED.with(|f| f.set(false));
        let r = fut.as_mut().unwrap().as_mut().poll(cx);
        own_failure |= FAILED.with(|f| f.replace(false));
        match r {
            Poll::Ready(r) => {
                match &r {
                    Err(e) if e.0 == who => sim.probe("failure-reported"),
                    Err(e) => sim.viol(&["C13"], "foreign-failure", format!("task {who} got the failure of task {}", e.0)),
                    Ok(_) if own_failure => {
                        sim.viol(&["C13"], "failure-lost", format!("the creation for task {who} failed, but it was not told"))
                    }
                    Ok(_) => {}
                }
                if polls > 0 {
                    sim.probe("waited");
                }
                sim.st(|s| s.waiting.remove(&who));
                fut = None;
                Poll::Ready(Some(r))
            }
            Poll::Pending => {
                if own_failure {
                    sim.viol(&["C13"], "failure-lost", format!("the creation for task {who} failed, but its request goes on waiting"));
                }
                polls += 1;
                sim.st(|s| {
                    s.waiting.insert(who, format!("task {who} waits since step {begin}"));
                });
                if g.polls.is_some_and(|p| polls >= p) {
                    sim.fault("request-cancelled");
                    sim.tr(|| format!("task {who} gives its request up"));
                    sim.st(|s| s.waiting.remove(&who));
                    fut = None;
                    return Poll::Ready(None);
                }
                Poll::Pending
            }
        }
    })
}

/// Counts the items in the hands of users.
struct Held(Arc<Sim>);
impl Held {
    fn new(sim: &Arc<Sim>) -> Self {
        sim.st(|s| s.held += 1);
        Held(sim.clone())
    }
}
impl Drop for Held {
    fn drop(&mut self) {
        self.0.st(|s| s.held -= 1);
    }
}

async fn use_item(sim: &Arc<Sim>, item: PoolItem<'_, Item>, g: &Get, who: u32) {
    let (hold, spoil) = (g.hold, g.spoil);
    let _held = Held::new(sim);
    sim.tr(|| format!("task {who} has item {}", item.id));
    if item.used.swap(true, SeqCst) {
        sim.viol(&["C12"], "shared", format!("item {} is used by two users at a time", item.id));
    }
    if item.broken.load(SeqCst) {
        sim.viol(&["C14"], "broken-item", format!("item {} was handed out although it is not usable any more", item.id));
    }
    if hold > 0 {
        Nap { sim: sim.clone(), d: hold, until: None }.await;
    } else {
        hook("item in use");
    }
    if g.hoard {
        sim.tr(|| format!("task {who} keeps item {} until nobody can go on", item.id));
        sim.st(|s| s.hoards.push(who));
        std::future::poll_fn(|_| {
            sim.st(|s| match s.freed.iter().position(|x| *x == who) {
                Some(i) => {
                    s.freed.remove(i);
                    Poll::Ready(())
                }
                None => Poll::Pending,
            })
        })
        .await;
    }
    if spoil {
        sim.fault("item-broken");
        item.broken.store(true, SeqCst);
    }
    item.used.store(false, SeqCst);
    if g.panic {
        sim.fault("user-panic");
        sim.tr(|| format!("task {who} panics with item {}", item.id));
        user_panic();
    }
    sim.tr(|| format!("task {who} returns item {}", item.id));
    drop(item);
}

/// What the buffers hold: counts itself.
struct El(u8, Arc<std::sync::atomic::AtomicUsize>);
impl El {
    fn new(x: u8, n: &Arc<std::sync::atomic::AtomicUsize>) -> Self {
        n.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        El(x, n.clone())
    }
}
impl Drop for El {
    fn drop(&mut self) {
        self.1.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    }
}
const BUF_CAP: usize = 64;

async fn task<const N: usize>(sim: Arc<Sim>, pool: Arc<P<N>>, bufs: Arc<SyncPool<Vec<El>, N>>, ops: Vec<Op>, who: u32) {
    for op in &ops {
        let well = survive(step(&sim, &pool, &bufs, op, who)).await;
        if !well {
            sim.st(|s| s.waiting.remove(&who));
        }
    }
}

async fn step<const N: usize>(sim: &Arc<Sim>, pool: &P<N>, bufs: &SyncPool<Vec<El>, N>, op: &Op, who: u32) {
    match op {
        Op::Get(g) => match request(sim, pool, g, who).await {
            Some(Ok(item)) => use_item(sim, item, g, who).await,
            _ => {}
        },
        Op::Race(a, b) => {
            let mut x = Box::pin(request(sim, pool, a, who));
            let mut y = Box::pin(request(sim, pool, b, who));
            let (mut xd, mut yd) = (false, false);
            let r = std::future::poll_fn(|cx| {
                if !xd {
                    if let Poll::Ready(r) = x.as_mut().poll(cx) {
                        xd = true;
                        if r.is_some() {
                            return Poll::Ready(r);
                        }
                    }
                }
                if !yd {
                    if let Poll::Ready(r) = y.as_mut().poll(cx) {
                        yd = true;
                        if r.is_some() {
                            return Poll::Ready(r);
                        }
                    }
                }
                if xd && yd {
                    return Poll::Ready(None);
                }
                Poll::Pending
            })
            .await;
            sim.probe("race");
            sim.st(|s| s.waiting.remove(&who));
            // the loser is dropped while the winner is in use
            drop(x);
            drop(y);
            if let Some(Ok(item)) = r {
                use_item(sim, item, a, who).await;
            }
        }
        Op::Sleep(d) => Nap { sim: sim.clone(), d: *d, until: None }.await,
        Op::Buf { hold, len } => {
            let mut b = bufs.get();
            if !b.is_empty() {
                sim.viol(&["C15", "C12"], "dirty-buffer", format!("task {who} got a buffer holding {} bytes of another user", b.len()));
            }
            if b.capacity() > 2 * BUF_CAP {
                sim.viol(&["C23", "C15"], "buffer-not-cut", format!("task {who} got a buffer with room for {} elements, {BUF_CAP} may be kept", b.capacity()));
            }
            b.clear();
            b.extend((0..*len).map(|_| El::new(who as u8, &sim.els)));
            if *hold > 0 {
                Nap { sim: sim.clone(), d: *hold, until: None }.await;
            } else {
                hook("buffer in use");
            }
            if b.len() != *len || b.iter().any(|x| x.0 != who as u8) {
                sim.viol(&["C15", "C12"], "shared-buffer", format!("the buffer of task {who} was changed by somebody else"));
            }
            sim.probe("buffer");
        }
    }
}

fn thread_main<const N: usize>(sim: Arc<Sim>, me: usize, pool: Arc<P<N>>, bufs: Arc<SyncPool<Vec<El>, N>>, prog: Vec<Vec<Op>>) {
    ME.with(|m| *m.borrow_mut() = Some((sim.clone(), me)));
    mysql_connector::sim::set_hook(Some(hook));
    {
        // wait for the first turn
        let mut s = sim.m.lock().unwrap_or_else(|e| e.into_inner());
        while s.cur != me {
            s = sim.cv[me].wait(s).unwrap_or_else(|e| e.into_inner());
        }
    }
    let mut tasks: Vec<Option<Pin<Box<dyn Future<Output = ()>>>>> = prog
        .into_iter()
        .enumerate()
        .map(|(k, ops)| {
            Some(Box::pin(task(sim.clone(), pool.clone(), bufs.clone(), ops, (me * 100 + k) as u32)) as Pin<Box<dyn Future<Output = ()>>>)
        })
        .collect();
    let body = std::panic::AssertUnwindSafe(|| {
        while tasks.iter().any(|t| t.is_some()) {
            let pick = sim.st(|s| {
                let opts: Vec<u32> = (0..tasks.len()).filter(|k| tasks[*k].is_some() && s.flags[me][*k]).map(|k| k as u32).collect();
                for k in 0..tasks.len() {
                    if tasks[k].is_none() {
                        s.flags[me][k] = false;
                    }
                }
                if opts.is_empty() {
                    return None;
                }
                let k = s.decide(None, &opts) as usize;
                s.flags[me][k] = false;
                Some(k)
            });
            match pick {
                Some(k) => {
                    let who = (me * 100 + k) as u32;
                    TASK.with(|t| t.set(who));
                    let w = Waker::from(Arc::new(Wk { sim: sim.clone(), thread: me, task: k }));
                    let mut cx = Context::from_waker(&w);
                    let r = tasks[k].as_mut().unwrap().as_mut().poll(&mut cx);
                    TASK.with(|t| t.set(who));
                    if r.is_ready() {
                        tasks[k] = None;
                    }
                }
                None => {
                    pass(&sim, me, Th::Parked);
                    if sim.st(|s| s.stop) {
                        break;
                    }
                }
            }
        }
    });
    if std::panic::catch_unwind(body).is_err() {
        let m = crate::last_panic();
        sim.viol(&["*"], "panic", format!("panic in thread {me}: {m}"));
    }
    let left = tasks.iter().filter(|t| t.is_some()).count();
    if left > 0 {
        // deadlock or panic: the world has stopped, nothing may be scheduled any more
        mysql_connector::sim::set_hook(None);
        crate::alloc::abandon(tasks);
    }
    if !sim.st(|s| s.stop) {
        pass(&sim, me, Th::Done);
    }
    mysql_connector::sim::set_hook(None);
    ME.with(|m| *m.borrow_mut() = None);
}

fn run_n<const N: usize>(plan: &PtPlan, trace: bool) -> Outcome {
    let n = plan.threads.len();
    let mut timers: Vec<(u32, usize, usize)> = plan
        .spurious
        .iter()
        .filter(|x| (x.1 as usize) < n && (x.2 as usize) < plan.threads[x.1 as usize].len())
        .map(|x| (x.0, x.1 as usize, x.2 as usize))
        .collect();
    timers.sort();
    let sim = Arc::new(Sim {
        m: Mutex::new(St {
            cur: usize::MAX,
            rng: Rng::new(plan.seed),
            step: 0,
            th: vec![Th::Ready; n],
            flags: plan.threads.iter().map(|t| vec![true; t.len()]).collect(),
            timers,
            sched: plan.sched.clone(),
            used: Vec::new(),
            hash: Hash(0xcbf29ce484222325),
            trace: trace.then(Vec::new),
            viols: Vec::new(),
            probes: BTreeMap::new(),
            faults: BTreeMap::new(),
            ended: false,
            stop: false,
            live: 0,
            waiting: BTreeMap::new(),
            held: 0,
            hoards: Vec::new(),
            freed: Vec::new(),
            n: N,
        }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
        main: Condvar::new(),
        n: N,
        closing: AtomicBool::new(false),
        next_item: AtomicI64::new(0),
        els: Arc::default(),
    });
    let pool: Arc<P<N>> = Arc::new(AsyncPool::new(Ctx(sim.clone())));
    let bufs: Arc<SyncPool<Vec<El>, N>> = Arc::new(SyncPool::new(VecPoolCtx { size_cap: BUF_CAP, init_size: 16 }));
    let handles: Vec<_> = plan
        .threads
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let (sim, pool, bufs, p) = (sim.clone(), pool.clone(), bufs.clone(), p.clone());
            std::thread::Builder::new().stack_size(256 << 10).spawn(move || thread_main::<N>(sim, i, pool, bufs, p)).expect("thread")
        })
        .collect();
    let mut blocked = false;
    {
        let mut s = sim.m.lock().unwrap();
        let opts: Vec<u32> = (0..n as u32).collect();
        if n > 0 {
            s.cur = s.decide(None, &opts) as usize;
            let c = s.cur;
            sim.cv[c].notify_all();
            let mut last = (s.step, 0);
            while !s.ended {
                let (g, t) = sim.main.wait_timeout(s, Duration::from_millis(500)).unwrap_or_else(|e| e.into_inner());
                s = g;
                if t.timed_out() {
                    if s.step == last.0 {
                        last.1 += 1;
                        // a thread blocks outside the simulator's control: no verdict
                        if last.1 >= 12 {
                            blocked = true;
                            break;
                        }
                    } else {
                        last = (s.step, 0);
                    }
                }
            }
        }
    }
    let gave_up = sim.st(|s| s.step > LIMIT);
    if !blocked && !gave_up {
        for h in handles {
            let _ = h.join();
        }
    }
    let waiting: Vec<String> = sim.st(|s| s.waiting.values().cloned().collect());
    let unfinished = sim.st(|s| s.th.iter().any(|t| *t != Th::Done));
    let mut clean = !blocked && !gave_up;
    if clean && unfinished {
        clean = false;
        if sim.st(|s| s.viols.is_empty() || !waiting.is_empty()) {
            let idle = sim.st(|s| s.live);
            sim.viol(
                &["C13"],
                "lost-wakeup",
                format!("nobody can go on although every user has returned its items: {} ({idle} of {N} items exist)", waiting.join(", ")),
            );
        }
    }
    drop(bufs);
    if clean && sim.els.load(SeqCst) != 0 {
        sim.viol(&["C23", "C15"], "elements-leaked", format!("{} elements of buffers were never dropped", sim.els.load(SeqCst)));
    }
    if clean {
        // the full capacity is still there
        TASK.with(|t| t.set(u32::MAX));
        MAKE.with(|m| *m.borrow_mut() = None);
        let mut held = Vec::new();
        let waker = Waker::noop();
        let mut cx = Context::from_waker(waker);
        let mut futs: Vec<_> = (0..N).map(|_| pool.get()).collect();
        for (i, f) in futs.iter_mut().enumerate() {
            match f.as_mut().poll(&mut cx) {
                Poll::Ready(Ok(x)) => {
                    if x.used.swap(true, SeqCst) {
                        sim.viol(&["C12"], "shared", format!("item {} was handed out twice", x.id));
                    }
                    held.push(x);
                }
                _ => {
                    sim.viol(&["C13", "C12"], "capacity-lost", format!("after all users are done only {i} of {N} items can be taken"));
                    break;
                }
            }
        }
        if held.len() == N {
            if let Poll::Ready(Ok(x)) = pool.get().as_mut().poll(&mut cx) {
                sim.viol(&["C12"], "bound", format!("item {} was handed out although {N} items are in use", x.id));
                drop(x);
            }
        }
        drop(futs);
        for x in &held {
            x.used.store(false, SeqCst);
        }
        drop(held);
        sim.closing.store(true, SeqCst);
        drop(pool);
        let left = sim.st(|s| s.live);
        if left != 0 {
            sim.viol(&["C12"], "item-lost", format!("{left} items neither idle nor in use after the end"));
        }
    } else {
        sim.closing.store(true, SeqCst);
        crate::alloc::abandon(pool);
    }
    sim.st(|s| Outcome {
        viols: std::mem::take(&mut s.viols),
        hash: if blocked { 0 } else { s.hash.0 },
        polls: s.step as u64,
        faults: std::mem::take(&mut s.faults),
        trace: s.trace.take().unwrap_or_default(),
        probes: {
            let mut p = std::mem::take(&mut s.probes);
            if blocked {
                p.insert("blocked-outside-the-simulator", 1);
            }
            p
        },
        points: std::mem::take(&mut s.used),
        ..Default::default()
    })
}

pub fn run_pt(plan: &PtPlan, trace: bool) -> Outcome {
    match plan.n {
        1 => run_n::<1>(plan, trace),
        2 => run_n::<2>(plan, trace),
        3 => run_n::<3>(plan, trace),
        _ => run_n::<4>(plan, trace),
    }
}

// ---------------------------------------------------------------- generation

fn gen_get(r: &mut Rng, faulty: bool) -> Get {
    let n = r.usize(3);
    Get {
        give_up: (faulty && r.pct(20)).then(|| r.log(120) as u32),
        polls: (faulty && r.pct(12)).then(|| 1 + r.below(3) as u32),
        make: Make { delays: (0..n).map(|_| if r.pct(30) { 0 } else { r.log(40) as u32 }).collect(), fail: faulty && r.pct(15), panic: faulty && r.pct(4) },
        hold: if r.pct(40) { 0 } else { r.log(60) as u32 },
        spoil: faulty && r.pct(12),
        panic: faulty && r.pct(8),
        hoard: r.pct(12),
    }
}

fn gen_op(r: &mut Rng, faulty: bool) -> Op {
    match r.below(20) {
        0..=12 => Op::Get(gen_get(r, faulty)),
        13 | 14 => Op::Race(gen_get(r, faulty), gen_get(r, faulty)),
        15 | 16 => Op::Sleep(r.log(80) as u32),
        _ => Op::Buf { hold: if r.bool() { 0 } else { r.log(30) as u32 }, len: *r.pick(&[0, 1, 10, 64, 65, 200]) },
    }
}

fn gen_sched(r: &mut Rng) -> Sched {
    Sched::Random(*r.pick(&[2, 5, 10, 20, 50, 100]))
}

pub fn gen_pt(seed: u64) -> PtPlan {
    let mut r = Rng::new(seed);
    let n = *r.pick(&[1, 1, 1, 2, 2, 3, 4]);
    let nt = 1 + r.usize(4);
    let small = r.bool();
    if r.pct(25) {
        return gen_tight(r);
    }
    let threads = (0..nt)
        .map(|_| {
            let k = if r.pct(60) { 1 } else { 1 + r.usize(3) };
            (0..k)
                .map(|_| {
                    let m = if small { 1 + r.usize(2) } else { 1 + r.usize(5) };
                    (0..m).map(|_| gen_op(&mut r, false)).collect()
                })
                .collect()
        })
        .collect();
    PtPlan { seed: r.next(), n, threads, sched: gen_sched(&mut r), spurious: Vec::new() }
}

/// All items but one are kept, a few users contend for the last, which often does not survive.
fn gen_tight(mut r: Rng) -> PtPlan {
    let n = *r.pick(&[1u8, 2, 2, 2, 3]);
    let get = |hoard: bool| Get { give_up: None, polls: None, make: Make { delays: vec![], fail: false, panic: false }, hold: 0, spoil: false, panic: false, hoard };
    let mut threads: Vec<Vec<Vec<Op>>> = (1..n).map(|_| vec![vec![Op::Get(get(true))]]).collect();
    for _ in 0..2 + r.usize(2) {
        let ops = (0..1 + r.usize(2))
            .map(|_| {
                let mut g = get(r.pct(10));
                g.spoil = r.pct(50);
                g.make.fail = r.pct(15);
                if r.pct(30) {
                    g.hold = r.log(20) as u32;
                }
                if r.pct(15) {
                    g.make.delays = vec![r.log(20) as u32];
                }
                if r.pct(10) {
                    g.give_up = Some(r.log(60) as u32);
                }
                Op::Get(g)
            })
            .collect();
        threads.push(vec![ops]);
    }
    PtPlan { seed: r.next(), n, threads, sched: gen_sched(&mut r), spurious: Vec::new() }
}

/// Another schedule, with cancellations, failing creations and broken items.
pub fn derive_pt(base: &PtPlan, steps: u64, r: &mut Rng) -> PtPlan {
    let mut p = base.clone();
    p.seed = r.next();
    p.sched = gen_sched(r);
    if r.pct(80) {
        for t in &mut p.threads {
            for ops in t {
                for o in ops {
                    if r.pct(50) {
                        *o = gen_op(r, true);
                    }
                }
            }
        }
    }
    if r.pct(30) {
        let n = 1 + r.usize(4);
        for _ in 0..n {
            let t = r.usize(p.threads.len());
            p.spurious.push((r.below(steps + 1) as u32, t as u8, r.usize(p.threads[t].len()) as u8));
        }
    }
    p
}

pub fn pin(p: &PtPlan, points: &[(u32, u32)]) -> PtPlan {
    PtPlan { sched: Sched::Points(points.to_vec()), ..p.clone() }
}

pub fn shrink_pt(p: &PtPlan) -> Vec<PtPlan> {
    let mut out = Vec::new();
    if let Sched::Points(v) = &p.sched {
        for x in removals(v) {
            out.push(PtPlan { sched: Sched::Points(x), ..p.clone() });
        }
    }
    for x in removals(&p.spurious) {
        out.push(PtPlan { spurious: x, ..p.clone() });
    }
    for i in 0..p.threads.len() {
        // thread numbers are part of the schedule: empty a thread instead of removing it
        if !p.threads[i].is_empty() {
            let mut c = p.clone();
            c.threads[i].clear();
            out.push(c);
        }
        for k in 0..p.threads[i].len() {
            for v in removals(&p.threads[i][k]) {
                let mut c = p.clone();
                c.threads[i][k] = v;
                out.push(c);
            }
            for j in 0..p.threads[i][k].len() {
                let simple = |g: &Get| -> Vec<Get> {
                    let plain = Get { give_up: None, polls: None, make: Make { delays: vec![], fail: false, panic: false }, hold: 0, spoil: false, panic: false, hoard: false };
                    let mut v = Vec::new();
                    let mut add = |x: Get| {
                        if x != *g {
                            v.push(x)
                        }
                    };
                    add(plain);
                    add(Get { give_up: None, ..g.clone() });
                    add(Get { polls: None, ..g.clone() });
                    add(Get { hold: 0, ..g.clone() });
                    add(Get { spoil: false, ..g.clone() });
                    add(Get { make: Make { delays: vec![], ..g.make.clone() }, ..g.clone() });
                    v
                };
                match &p.threads[i][k][j] {
                    Op::Get(g) => {
                        for x in simple(g) {
                            let mut c = p.clone();
                            c.threads[i][k][j] = Op::Get(x);
                            out.push(c);
                        }
                    }
                    Op::Race(a, b) => {
                        for x in [a, b] {
                            let mut c = p.clone();
                            c.threads[i][k][j] = Op::Get(x.clone());
                            out.push(c);
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    out
}
