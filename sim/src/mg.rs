//! Migrations: a `Migrator` over a pool of real connections against the SQL engine, with failing
//! statements, lost replies, dying connections and crashes of the client process.
//!
//! The oracle is the server's own log of what was executed: which migrations' statements and which
//! changes of the record, in which order, compared with what a call has to do given the record at
//! the time it was made.
use crate::conn::*;
use crate::engine::*;
use crate::gen::{self, Focus};
use crate::plan::{removals, shrink_net};
use crate::rng::Rng;
use crate::server::*;
use crate::val::*;
use crate::world::*;
use mysql_connector::error::Error;
use mysql_connector::pool::{AsyncPool, AsyncPoolTrait};
use mysql_connector::types::Value;
use mysql_connector::{Connection, Migration, MigrationList, Migrator, Version};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;

pub type V3 = (u16, u16, u16);

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct MigSpec {
    pub name: String,
    /// Number of statements (= effects) of this migration.
    pub stmts: u8,
    /// 0: a connection per statement, 1: one connection for all, 2: as 1 with prepared statements,
    /// 3: as 1, leaving a result unread at the end, 4: two connections at a time,
    /// 5: one that `simple_migration` made
    pub style: u8,
    pub recorded: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ListSpec {
    pub version: V3,
    pub migs: Vec<MigSpec>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum MKind {
    Up,
    UpTo(Option<V3>),
    DownTo(V3),
    To(V3),
    OneDown,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct MOp {
    pub id: u32,
    pub kind: MKind,
    /// Works with a new migrator.
    pub fresh: bool,
    /// The call is dropped after this many polls...
    pub cancel: Option<u32>,
    /// ...with everything else of the process (otherwise only the call).
    pub crash: bool,
    pub pause: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct MgPlan {
    pub seed: u64,
    pub n: u8,
    pub login: LoginCfg,
    pub lists: Vec<ListSpec>,
    pub has_table: bool,
    pub ops: Vec<MOp>,
    pub net: NetCfg,
    pub faults: Vec<Fault>,
    pub efaults: Vec<EFault>,
    pub down: Vec<(u64, u64)>,
}

const HINT: u32 = 1_000_000;

struct Mig {
    idx: usize,
    spec: MigSpec,
    name: &'static str,
}
fn table(idx: usize, k: u8) -> String {
    format!("m{idx}_{k}")
}
impl Mig {
    async fn play(&self, pool: &dyn AsyncPoolTrait<Connection>, sql: Vec<String>) -> Result<(), Error> {
        match self.spec.style {
            0 => {
                for s in &sql {
                    pool.get().await?.execute_query(s).await?;
                }
            }
            4 => {
                let mut a = pool.get().await?;
                let mut b = pool.get().await?;
                for (i, s) in sql.iter().enumerate() {
                    let c = if i % 2 == 0 { &mut a } else { &mut b };
                    c.execute_query(s).await?;
                }
            }
            n => {
                let mut c = pool.get().await?;
                for s in &sql {
                    if n == 2 {
                        c.prepare_statement(s).await?.execute(&[] as &[Value]).await?;
                    } else {
                        c.execute_query(s).await?;
                    }
                }
                if n == 3 {
                    let mut r = c.query::<Vec<Value>>("select `version_0`, `name` from `migrations`").await?;
                    let _ = r.next().await?;
                }
            }
        }
        Ok(())
    }
}
impl Migration for Mig {
    fn name(&self) -> &'static str {
        self.name
    }
    fn up<'a>(&'a self, pool: &'a dyn AsyncPoolTrait<Connection>) -> Pin<Box<dyn Future<Output = Result<(), Error>> + 'a>> {
        let sql =
            (0..self.spec.stmts).map(|k| format!("create table if not exists `{}` (`id` int)", table(self.idx, k))).collect();
        Box::pin(self.play(pool, sql))
    }
    fn down<'a>(&'a self, pool: &'a dyn AsyncPoolTrait<Connection>) -> Pin<Box<dyn Future<Output = Result<(), Error>> + 'a>> {
        let sql = (0..self.spec.stmts).rev().map(|k| format!("drop table if exists `{}`", table(self.idx, k))).collect();
        Box::pin(self.play(pool, sql))
    }
}

/// One migration as the oracle sees it.
struct Known {
    version: V3,
    name: String,
    stmts: u8,
}

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Up(usize, u8),
    Down(usize, u8),
    Note(usize),
    Unnote(usize),
    Odd(String),
}

fn eng<R>(f: impl FnOnce(&mut Engine) -> R) -> R {
    w(|w| match &mut w.srv.backend {
        Backend::Sql(e) => f(e),
        _ => unreachable!(),
    })
}

fn row_key(r: &[Val]) -> Option<(V3, String)> {
    let n = |v: &Val| match v {
        Val::U16(x) => Some(*x),
        _ => None,
    };
    let Val::Bytes(b) = &r[3] else { return None };
    Some(((n(&r[0])?, n(&r[1])?, n(&r[2])?), String::from_utf8_lossy(&b.bytes()).into_owned()))
}

struct Oracle {
    known: Vec<Known>,
    sh: Rc<RefCell<Shared>>,
    /// The migrations whose record and effects disagree.
    doubt: BTreeSet<usize>,
    timeout: u64,
}

impl Oracle {
    fn find(&self, k: &(V3, String)) -> Option<usize> {
        self.known.iter().position(|x| x.version == k.0 && x.name == k.1)
    }
    /// (record, unknown rows)
    fn record(&self) -> (BTreeSet<usize>, Vec<String>) {
        let mut odd = Vec::new();
        let set = eng(|e| {
            let mut s = BTreeSet::new();
            if let Some(t) = e.tables.get("migrations") {
                for r in &t.rows {
                    match row_key(r).and_then(|k| self.find(&k)) {
                        Some(i) => {
                            s.insert(i);
                        }
                        None => odd.push(format!("{r:?}")),
                    }
                }
            }
            s
        });
        (set, odd)
    }
    fn find_doubt(&self, rec: &BTreeSet<usize>) -> BTreeSet<usize> {
        eng(|e| {
            (0..self.known.len())
                .filter(|i| {
                    let have = (0..self.known[*i].stmts).filter(|k| e.tables.contains_key(&table(*i, *k))).count();
                    have != if rec.contains(i) { self.known[*i].stmts as usize } else { 0 }
                })
                .collect()
        })
    }
    fn label(&self, i: usize) -> String {
        let k = &self.known[i];
        format!("{:?}/{}", k.version, k.name)
    }
    fn text(&self, v: &[Ev]) -> String {
        let mut s: Vec<String> = Vec::new();
        for e in v {
            s.push(match e {
                Ev::Up(i, k) => format!("up {}#{k}", self.label(*i)),
                Ev::Down(i, k) => format!("down {}#{k}", self.label(*i)),
                Ev::Note(i) => format!("record {}", self.label(*i)),
                Ev::Unnote(i) => format!("unrecord {}", self.label(*i)),
                Ev::Odd(x) => x.clone(),
            });
        }
        format!("[{}]", s.join(", "))
    }
    /// What a call has to do.
    fn expect(&self, kind: &MKind, rec: &BTreeSet<usize>) -> Vec<Ev> {
        let mut v = Vec::new();
        let up = |v: &mut Vec<Ev>, t: Option<V3>| {
            for (i, k) in self.known.iter().enumerate() {
                if t.is_none_or(|t| k.version <= t) && !rec.contains(&i) {
                    v.extend((0..k.stmts).map(|s| Ev::Up(i, s)));
                    v.push(Ev::Note(i));
                }
            }
        };
        let down = |v: &mut Vec<Ev>, f: &dyn Fn(usize) -> bool| {
            for (i, k) in self.known.iter().enumerate().rev() {
                if rec.contains(&i) && f(i) {
                    v.extend((0..k.stmts).rev().map(|s| Ev::Down(i, s)));
                    v.push(Ev::Unnote(i));
                }
            }
        };
        match kind {
            MKind::Up => up(&mut v, None),
            MKind::UpTo(t) => up(&mut v, *t),
            MKind::DownTo(t) => down(&mut v, &|i| self.known[i].version > *t),
            MKind::To(t) => {
                up(&mut v, Some(*t));
                down(&mut v, &|i| self.known[i].version > *t);
            }
            MKind::OneDown => {
                if let Some(last) = rec.iter().next_back() {
                    down(&mut v, &|i| i == *last);
                }
            }
        }
        v
    }
    /// What the server executed since log position `a`.
    fn events(&self, a: usize) -> Vec<Ev> {
        eng(|e| {
            let mut v = Vec::new();
            let mig = |n: &str| -> Option<(usize, u8)> {
                let (a, b) = n.strip_prefix('m')?.split_once('_')?;
                Some((a.parse().ok()?, b.parse().ok()?))
            };
            for l in &e.log[a..] {
                match &l.effect {
                    Effect::Create(n) => {
                        if let Some((i, k)) = mig(n) {
                            v.push(Ev::Up(i, k));
                        } else if n != "migrations" {
                            v.push(Ev::Odd(l.text.clone()));
                        }
                    }
                    Effect::Drop(n) => match mig(n) {
                        Some((i, k)) => v.push(Ev::Down(i, k)),
                        None => v.push(Ev::Odd(l.text.clone())),
                    },
                    Effect::Insert(n, r) if n == "migrations" => match row_key(r).and_then(|k| self.find(&k)) {
                        Some(i) => v.push(Ev::Note(i)),
                        None => v.push(Ev::Odd(l.text.clone())),
                    },
                    Effect::Delete(n, r) if n == "migrations" => {
                        for r in r {
                            match row_key(r).and_then(|k| self.find(&k)) {
                                Some(i) => v.push(Ev::Unnote(i)),
                                None => v.push(Ev::Odd(l.text.clone())),
                            }
                        }
                    }
                    Effect::Update(..) | Effect::Insert(..) | Effect::Delete(..) => v.push(Ev::Odd(l.text.clone())),
                    Effect::Select | Effect::Failed(_) => {}
                }
            }
            v
        })
    }
    fn probe(&self, p: &'static str) {
        *self.sh.borrow_mut().probes.entry(p).or_default() += 1;
    }

    /// Judges one call. `res`: None = the call was dropped, else its result.
    fn judge(&mut self, op: &MOp, before: &BTreeSet<usize>, log0: usize, res: &Option<Result<bool, Error>>, excuse: bool) {
        if eng(|e| !e.unsupported.is_empty()) {
            return;
        }
        let want = self.expect(&op.kind, before);
        let got = self.events(log0);
        let (rec, odd) = self.record();
        let what = format!("op {} {:?}", op.id, op.kind);
        let bad = |class: &str, msg: String| w(|w| w.viol(&["C16", "C17"], class, msg));
        if !odd.is_empty() {
            bad("foreign-record", format!("{what}: the record contains {odd:?}"));
        }
        // a reply that was lost leaves the call failed after the effect; otherwise nothing may be
        // executed beyond or beside what is asked for
        if got.len() > want.len() || want[..got.len()] != got[..] {
            bad(
                "wrong-steps",
                format!("{what}: executed {} but the record at the time of the call asks for {}", self.text(&got), self.text(&want)),
            );
        }
        let doubt = self.find_doubt(&rec);
        let new: Vec<usize> = doubt.difference(&self.doubt).cloned().collect();
        match res {
            Some(Ok(flag)) => {
                if got.len() < want.len() {
                    bad(
                        "success-without-work",
                        format!("{what} reported success after {} instead of {}", self.text(&got), self.text(&want)),
                    );
                }
                if let MKind::OneDown = op.kind {
                    if *flag == want.is_empty() {
                        bad("wrong-answer", format!("{what} returned {flag}, {} migrations were recorded", before.len()));
                    }
                }
                let target: BTreeSet<usize> = (0..self.known.len())
                    .filter(|i| {
                        let v = self.known[*i].version;
                        match &op.kind {
                            MKind::Up | MKind::UpTo(None) => true,
                            MKind::UpTo(Some(t)) => v <= *t || before.contains(i),
                            MKind::DownTo(t) => v <= *t && before.contains(i),
                            MKind::To(t) => v <= *t,
                            MKind::OneDown => before.contains(i) && before.iter().next_back() != Some(i),
                        }
                    })
                    .collect();
                if target != rec {
                    bad(
                        "wrong-record",
                        format!(
                            "{what} reported success, recorded are {:?}, they should be {:?}",
                            rec.iter().map(|i| self.label(*i)).collect::<Vec<_>>(),
                            target.iter().map(|i| self.label(*i)).collect::<Vec<_>>()
                        ),
                    );
                }
                if !new.is_empty() {
                    bad(
                        "effects-disagree",
                        format!("{what} reported success, record and effects of {} disagree", self.label(new[0])),
                    );
                }
                self.probe("op-ok");
                if !want.is_empty() {
                    self.probe("op-ok-with-work");
                }
            }
            other => {
                if new.len() > 1 {
                    bad(
                        "several-in-doubt",
                        format!("{what} failed and left {:?} in doubt", new.iter().map(|i| self.label(*i)).collect::<Vec<_>>()),
                    );
                }
                if let Some(Err(e)) = other {
                    if !excuse {
                        w(|w| {
                            w.viol(
                                &["C16", "C17", "C01"],
                                "failed-without-fault",
                                format!("{what} failed without any fault: {}", eout(e).text),
                            )
                        });
                    }
                    self.probe("op-failed");
                } else {
                    self.probe("op-dropped");
                }
                if !got.is_empty() && got.len() < want.len() {
                    self.probe("op-partly-done");
                }
                if !new.is_empty() {
                    self.probe("migration-in-doubt");
                }
            }
        }
        self.doubt = doubt;
    }
}

fn ver(v: V3) -> Version {
    Version(v.0, v.1, v.2)
}

async fn call(m: &mut Migrator<'_>, kind: &MKind) -> Result<bool, Error> {
    match kind {
        MKind::Up => m.up().await.map(|_| true),
        MKind::UpTo(t) => m.up_to_version(t.map(ver)).await.map(|_| true),
        MKind::DownTo(t) => m.down_to_version(ver(*t)).await.map(|_| true),
        MKind::To(t) => m.to_version(ver(*t)).await.map(|_| true),
        MKind::OneDown => m.one_down().await,
    }
}

async fn program<const N: usize>(plan: Rc<MgPlan>, sh: Rc<RefCell<Shared>>, lists: &'static [MigrationList]) {
    let mut idx = Vec::new();
    for l in &plan.lists {
        for m in &l.migs {
            idx.push(Known { version: l.version, name: m.name.clone(), stmts: m.stmts });
        }
    }
    let mut or = Oracle { known: idx, sh: sh.clone(), doubt: BTreeSet::new(), timeout: plan.login.timeout };
    let up = plan.down.iter().map(|d| d.1).max().unwrap_or(0);
    // after the planned calls the last one is repeated without faults
    let total = plan.ops.len() + N + 3;
    let mut i = 0;
    let mut calm = false;
    let mut dirty = false;
    'process: while i < total {
        let pool: AsyncPool<Connection, SimStream<false>, N> = AsyncPool::new(Arc::new(options::<false>(&plan.login, 0)));
        let mut mig: Option<Migrator<'_>> = None;
        while i < total {
            let last = i >= plan.ops.len();
            let Some(op) = plan.ops.get(i).or(plan.ops.last()) else { return };
            if last && !calm {
                calm = true;
                let t = now();
                if t < up {
                    sleep(up - t).await;
                }
                // an abandoned exchange may still be under way
                sleep(or.timeout + 1).await;
                w(|w| w.settle());
                eng(|e| e.faults.clear());
            }
            i += 1;
            if op.pause > 0 && !last {
                sleep(op.pause).await;
            }
            if op.fresh && !last {
                mig = None;
            }
            let (before, _) = or.record();
            let log0 = eng(|e| e.log.len());
            let polls = Rc::new(RefCell::new(0u32));
            let nconn = w(|w| w.conns.len());
            let cancel = if last { None } else { op.cancel };
            let kind = op.kind.clone();
            let pref = &pool;
            let slot = &mut mig;
            let fut = async move {
                if slot.is_none() {
                    *slot = Some(Migrator::new(pref, lists).await?);
                }
                call(slot.as_mut().unwrap(), &kind).await
            };
            let r = counted(cancel, fut, polls.clone()).await;
            w(|w| w.tr(|| format!("op {} {:?}: {}", op.id, op.kind, match &r {
                None => "dropped".to_string(),
                Some(Ok(f)) => format!("ok {f}"),
                Some(Err(e)) => format!("failed: {}", eout(e).text),
            })));
            sh.borrow_mut().steps.push(StepStat {
                step: op.id,
                part: 0,
                c2s: 0,
                s2c: eng(|e| e.count as u64),
                polls: *polls.borrow(),
                conn: w(|w| w.conns.len()) > nconn,
            });
            dirty |= r.is_none() || w(|w| !w.fault_counts.is_empty());
            or.judge(op, &before, log0, &r, dirty);
            if last {
                if let Some(Ok(_)) = r {
                    or.probe("recovered");
                    return;
                }
                if i == total && eng(|e| e.unsupported.is_empty()) {
                    let why = match &r {
                        Some(Err(e)) => eout(e).text,
                        _ => String::new(),
                    };
                    w(|w| {
                        w.viol(
                            &["C17", "C16"],
                            "no-recovery",
                            format!("{:?} still fails after the faults stopped: {why}", op.kind),
                        )
                    });
                }
            }
            if r.is_none() && op.crash {
                or.probe("crash");
                continue 'process;
            }
        }
    }
}

macro_rules! simple {
    ($($name:ident $up:literal $down:literal,)*) => {
        $(mysql_connector::simple_migration!($name, $up, $down);)*
        const SIMPLE: &[(&str, &dyn Migration)] = &[$((stringify!($name), &$name),)*];
    };
}
simple! {
    Simple0 "create table if not exists `m0_0` (`id` int)" "drop table if exists `m0_0`",
    Simple1 "create table if not exists `m1_0` (`id` int)" "drop table if exists `m1_0`",
    Simple2 "create table if not exists `m2_0` (`id` int)" "drop table if exists `m2_0`",
    Simple3 "create table if not exists `m3_0` (`id` int)" "drop table if exists `m3_0`",
    Simple4 "create table if not exists `m4_0` (`id` int)" "drop table if exists `m4_0`",
    Simple5 "create table if not exists `m5_0` (`id` int)" "drop table if exists `m5_0`",
}

/// Simple migrations are made for their place in the lists.
fn placed(plan: &MgPlan) -> MgPlan {
    let mut p = plan.clone();
    for (idx, m) in p.lists.iter_mut().flat_map(|l| l.migs.iter_mut()).enumerate() {
        match SIMPLE.get(idx) {
            Some(s) if m.style == 5 => {
                m.name = s.0.into();
                m.stmts = 1;
            }
            None if m.style == 5 => m.style = 0,
            _ => {}
        }
    }
    p
}

/// What a run made `'static`. Its end is the end of the run, when no task is left.
#[derive(Default)]
struct Owned {
    names: Vec<*mut str>,
    migs: Vec<*mut Mig>,
    slices: Vec<*mut [&'static dyn Migration]>,
    lists: Option<*mut [MigrationList]>,
}
impl Drop for Owned {
    fn drop(&mut self) {
        unsafe {
            if let Some(l) = self.lists.take() {
                drop(Box::from_raw(l));
            }
            self.slices.drain(..).for_each(|x| drop(Box::from_raw(x)));
            self.migs.drain(..).for_each(|x| drop(Box::from_raw(x)));
            self.names.drain(..).for_each(|x| drop(Box::from_raw(x)));
        }
    }
}

pub fn run_mg(plan: &MgPlan, trace: bool) -> Outcome {
    let plan = Rc::new(placed(plan));
    let mut e = Engine::default();
    let mut lists: Vec<MigrationList> = Vec::new();
    let mut idx = 0;
    let mut rows = Vec::new();
    let mut owned = Owned::default();
    for l in &plan.lists {
        let mut v: Vec<&'static dyn Migration> = Vec::new();
        for m in &l.migs {
            if m.recorded && plan.has_table {
                for k in 0..m.stmts {
                    e.tables.insert(
                        table(idx, k),
                        Table { cols: vec![tcol("id", ty::LONG, 0, true)], ..Table::default() },
                    );
                }
                rows.push(vec![
                    Val::U16(l.version.0),
                    Val::U16(l.version.1),
                    Val::U16(l.version.2),
                    Val::str(&m.name),
                    Val::Null,
                ]);
            }
            idx += 1;
            if m.style == 5 {
                v.push(SIMPLE[idx - 1].1);
                continue;
            }
            let idx = idx - 1;
            let name = Box::leak(m.name.clone().into_boxed_str());
            owned.names.push(name);
            let mig = Box::leak(Box::new(Mig { idx, spec: m.clone(), name }));
            owned.migs.push(mig);
            v.push(mig);
        }
        let v = Box::leak(v.into_boxed_slice());
        owned.slices.push(v);
        lists.push(MigrationList { version: ver(l.version), migrations: v });
    }
    if plan.has_table {
        // in any order
        let mut r = Rng::new(plan.seed ^ 77);
        for i in (1..rows.len()).rev() {
            rows.swap(i, r.usize(i + 1));
        }
        let c = |n: &str| tcol(n, ty::SHORT, UNSIGNED, false);
        e.tables.insert(
            "migrations".into(),
            Table {
                cols: vec![
                    c("version_0"),
                    c("version_1"),
                    c("version_2"),
                    tcol("name", ty::VARSTRING, 0, false),
                    tcol("applied_at", ty::DATETIME, 0, true),
                ],
                rows,
                next: 1,
                unique: true,
            },
        );
    }
    e.faults = plan.efaults.clone();
    let srv = Server::new(plan.seed ^ 0x5EED, vec![plan.login.clone()], Backend::Sql(Box::new(e)));
    let sh = Rc::new(RefCell::new(Shared::default()));
    let lists = Box::leak(lists.into_boxed_slice());
    owned.lists = Some(lists);
    let lists: &'static [MigrationList] = lists;
    let task: Task = match plan.n {
        1 => Box::pin(program::<1>(plan.clone(), sh.clone(), lists)),
        2 => Box::pin(program::<2>(plan.clone(), sh.clone(), lists)),
        _ => Box::pin(program::<3>(plan.clone(), sh.clone(), lists)),
    };
    let (mut world, res) = run(
        || {
            let mut wd = World::new(plan.seed, plan.net.clone(), plan.faults.clone(), srv);
            wd.next_step_hint = HINT;
            wd.down = plan.down.clone();
            if trace {
                wd.trace = Some(Vec::new());
            }
            wd
        },
        40_000_000,
        vec![task],
    );
    if !res.stuck.is_empty() {
        world.viols.push(Viol {
            props: vec!["C17".into(), "C16".into(), "C07".into(), "C13".into(), "*".into()],
            class: "stuck".into(),
            msg: "a migration call never returned".into(),
        });
    }
    let sh = sh.borrow();
    let mut faults = std::mem::take(&mut world.fault_counts);
    let dropped = sh.probes.get("op-dropped").cloned().unwrap_or(0);
    if dropped > 0 {
        faults.insert("call-dropped".into(), dropped);
    }
    Outcome {
        hash: world.hash.0,
        polls: world.polls,
        io_polls: world.io_polls,
        time: world.max_time,
        faults,
        steps: sh.steps.clone(),
        trace: world.trace.take().unwrap_or_default(),
        commands: world.srv.sess.iter().map(|s| s.cmds).sum(),
        bytes: world.conns.iter().map(|c| c.written + c.consumed).sum(),
        conns: world.conns.len() as u64,
        probes: sh.probes.clone(),
        viols: std::mem::take(&mut world.viols),
        points: Vec::new(),
        paddings: Vec::new(),
    }
}

// ---------------------------------------------------------------- generation

fn gen_ver(r: &mut Rng) -> V3 {
    let mut c = || *r.pick(&[0u16, 0, 1, 1, 2, 2, 3, 9, 10, 11, 99, 100, 255, 256, 300, 65535]);
    (c(), c(), c())
}

pub fn gen_mg(seed: u64) -> MgPlan {
    let mut r = Rng::new(seed);
    let n = *r.pick(&[1u8, 1, 2, 3]);
    let mut lr = r.fork(1);
    let mut login = gen::gen_login(&mut lr, 0);
    login.secure = false;
    let net = gen::gen_net(&mut r.fork(2), Focus::Mixed, login.timeout);
    let mut vs: BTreeSet<V3> = BTreeSet::new();
    let nl = 1 + r.usize(5);
    for _ in 0..nl {
        let mut v = gen_ver(&mut r);
        // near an existing version
        if let (true, Some(b)) = (r.pct(40), vs.iter().next_back().cloned()) {
            v = *r.pick(&[(b.0, b.1, v.2), (b.0, v.1, b.2), (v.0, b.1, b.2)]);
        }
        vs.insert(v);
    }
    let names = ["A", "a", "B", "AddUser", "x", "quo\"te", "back\\slash", "it's", "`tick`", "ünïcödé", "two words", "A;--", "%", "\"", "end\\", "", "trail ", " lead", "tab\t", "\nnl\n"];
    let full = r.below(4); // 0: nothing recorded, 1: all, 2: a prefix, 3: any
    let mut cut = r.usize(8);
    let lists: Vec<ListSpec> = vs
        .iter()
        .map(|v| {
            let mut used: Vec<String> = Vec::new();
            let nm = *r.pick(&[0usize, 1, 1, 2, 2, 3]);
            let migs = (0..nm)
                .filter_map(|_| {
                    let name = if r.pct(3) { "long".repeat(60) } else { r.pick(&names).to_string() };
                    if used.contains(&name) {
                        return None;
                    }
                    used.push(name.clone());
                    let recorded = match full {
                        0 => false,
                        1 => true,
                        2 => {
                            cut = cut.saturating_sub(1);
                            cut > 0
                        }
                        _ => r.bool(),
                    };
                    let style = match r.below(10) {
                        8 | 9 => 5,
                        0 | 1 => 1,
                        2 => 2,
                        3 => 3,
                        4 if n >= 2 => 4,
                        _ => 0,
                    };
                    Some(MigSpec { name, stmts: 1 + r.below(3) as u8, style, recorded })
                })
                .collect();
            ListSpec { version: *v, migs }
        })
        .collect();
    let all: Vec<V3> = vs.into_iter().collect();
    let target = |r: &mut Rng| -> V3 {
        if r.pct(70) {
            *r.pick(&all)
        } else {
            gen_ver(r)
        }
    };
    let no = 1 + r.usize(5);
    let ops = (0..no)
        .map(|i| MOp {
            id: 10 + i as u32,
            kind: match r.below(9) {
                0 | 1 => MKind::Up,
                2 | 3 => MKind::UpTo(if r.pct(10) { None } else { Some(target(&mut r)) }),
                4 | 5 => MKind::DownTo(if r.pct(30) { (0, 0, 0) } else { target(&mut r) }),
                6 | 7 => MKind::To(target(&mut r)),
                _ => MKind::OneDown,
            },
            fresh: r.pct(30),
            cancel: None,
            crash: false,
            pause: if r.pct(70) { 0 } else { r.log(3000) },
        })
        .collect();
    let has_table = full > 0 || r.bool();
    MgPlan { seed: r.next(), n, login, lists, has_table, ops, net, faults: vec![], efaults: vec![], down: vec![] }
}

pub fn derive_mg(base: &MgPlan, out: &Outcome, r: &mut Rng) -> MgPlan {
    let mut p = base.clone();
    p.seed = r.next();
    let t = p.login.timeout;
    if r.pct(30) {
        p.net = gen::gen_net(r, Focus::Mixed, t);
    }
    let count = out.steps.iter().map(|s| s.s2c).max().unwrap_or(1).max(1);
    let stall = |r: &mut Rng| -> Option<u64> {
        match r.below(4) {
            0 => None,
            1 => Some(t + 1 + r.log(2 * t)),
            _ => Some(1 + r.below(t / 2 - 100)),
        }
    };
    // a fault often makes somebody repeat the call
    if r.pct(50) && !p.ops.is_empty() {
        let i = r.usize(p.ops.len());
        let mut o = p.ops[i].clone();
        o.id += 100;
        o.fresh = r.bool();
        p.ops.insert(i + 1, o);
    }
    let n = 1 + r.usize(3);
    for _ in 0..n {
        match r.below(10) {
            0..=4 => {
                let nth = r.below(count) as u32;
                let kind = match r.below(6) {
                    0 | 1 => EKind::Err(ErrSpec::new(*r.pick(&[1213u16, 1205, 1044, 1366]), "HY000", "injected")),
                    2 => EKind::DieBefore,
                    3 | 4 => EKind::DieAfter,
                    _ => EKind::Silent,
                };
                if !p.efaults.iter().any(|f| f.nth == nth) {
                    p.efaults.push(EFault { nth, kind });
                }
            }
            5 | 6 => {
                let i = r.usize(p.ops.len());
                let polls = out.steps.iter().find(|s| s.step == p.ops[i].id % 100).map(|s| s.polls).unwrap_or(0);
                if polls > 0 {
                    p.ops[i].cancel = Some(1 + r.below(polls as u64) as u32);
                    p.ops[i].crash = r.bool();
                }
            }
            7 => {
                let a = r.log(4 * t);
                let b = a + 1 + r.log(2 * t);
                p.down.push((a, b));
            }
            _ => {
                let k = r.below(out.conns.max(1) + 1) as u32;
                let per = out.bytes / out.conns.max(1) / 2;
                let kind = match r.below(12) {
                    0 | 1 => FaultKind::Eof,
                    2 => FaultKind::Reset,
                    3 => FaultKind::Stall(stall(r)),
                    4 => FaultKind::WriteErr,
                    5 => FaultKind::StallWrite(stall(r)),
                    6 => FaultKind::BlackHole,
                    7 => FaultKind::ServerDeath,
                    8 => FaultKind::FlushErr,
                    9 => FaultKind::FlushStall(stall(r)),
                    10 => FaultKind::ConnErr,
                    _ => FaultKind::ConnStall(stall(r)),
                };
                let off = r.below(per.max(100) + 50);
                p.faults.push(Fault { step: HINT + k, off, kind });
            }
        }
    }
    p
}

pub fn shrink_mg(p: &MgPlan) -> Vec<MgPlan> {
    let mut out = Vec::new();
    for v in removals(&p.ops) {
        if !v.is_empty() {
            out.push(MgPlan { ops: v, ..p.clone() });
        }
    }
    for v in removals(&p.faults) {
        out.push(MgPlan { faults: v, ..p.clone() });
    }
    for v in removals(&p.efaults) {
        out.push(MgPlan { efaults: v, ..p.clone() });
    }
    for v in removals(&p.down) {
        out.push(MgPlan { down: v, ..p.clone() });
    }
    for v in removals(&p.lists) {
        out.push(MgPlan { lists: v, ..p.clone() });
    }
    for i in 0..p.lists.len() {
        for v in removals(&p.lists[i].migs) {
            let mut c = p.clone();
            c.lists[i].migs = v;
            out.push(c);
        }
        for j in 0..p.lists[i].migs.len() {
            let m = &p.lists[i].migs[j];
            if m.stmts > 1 || m.style > 0 {
                let mut c = p.clone();
                c.lists[i].migs[j].stmts = 1;
                c.lists[i].migs[j].style = 0;
                out.push(c);
            }
        }
    }
    for i in 0..p.ops.len() {
        let o = &p.ops[i];
        if o.cancel.is_some() || o.pause > 0 {
            let mut c = p.clone();
            c.ops[i].pause = 0;
            out.push(c.clone());
            c.ops[i].cancel = None;
            out.push(c);
        }
        if o.fresh {
            let mut c = p.clone();
            c.ops[i].fresh = false;
            out.push(c);
        }
    }
    for n in shrink_net(&p.net) {
        out.push(MgPlan { net: n, ..p.clone() });
    }
    out
}
