//! What can be simulated: plans of the scenarios, how they are generated, derived and shrunk.
use std::sync::atomic::AtomicBool;
use crate::entropy;
use crate::conn::{run_conn, ConnPlan, Kind, Outcome};
use crate::gen::{self, Focus};
use crate::mdl::{self, DPlan};
use crate::mg::{self, MgPlan};
use crate::pc::{self, PcPlan};
use crate::pt::{self, PtPlan};
use crate::rng::Rng;
use crate::txt::{self, TPlan};
use crate::world::{Fault, NetCfg, Viol};
use serde::{Deserialize, Serialize};
use std::rc::Rc;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Plan {
    Conn(ConnPlan),
    Pt(PtPlan),
    Pc(PcPlan),
    Mg(MgPlan),
    Md(DPlan),
    Tx(TPlan),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Scn {
    Conn(Focus),
    Bytes,
    PoolThreads,
    PoolConns,
    PoolLong,
    Migrate,
    Models,
    Text(bool),
}

/// Moves a value to or from the thread of a run.  The thread that started it waits meanwhile.
struct Alone<T>(T);
unsafe impl<T> Send for Alone<T> {}
impl<R, F: FnOnce() -> R> Alone<F> {
    fn call(self) -> R {
        (self.0)()
    }
}

/// Whether runs are repeated to see what they leave behind (C23).
pub static LEAKS: AtomicBool = AtomicBool::new(false);
const AGAIN: usize = 6;

impl Plan {
    /// Repeats the execution and looks at the memory that is still in use afterwards.
    fn leftovers(&self) -> Option<Viol> {
        let viol = |class: &str, msg: String| Viol { props: vec!["C23".into()], class: class.into(), msg };
        let seen: Vec<(isize, isize)> = (0..AGAIN)
            .map(|_| {
                drop(self.run_with(self.seed(), false));
                crate::alloc::blocks()
            })
            .collect();
        if crate::alloc::abandoned() {
            return None;
        }
        // the first repetitions may still fill caches
        let step = |k: usize| seen[k].0 - seen[k - 1].0;
        if (2..AGAIN).all(|k| step(k) > 0) {
            let n = (2..AGAIN).map(step).min().unwrap();
            return Some(viol("leak", format!("every repetition of this history leaves {n} or more further blocks of memory allocated")));
        }
        if let Plan::Pc(p) = self {
            // in the repetitions all buffers that are kept for reuse exist already
            let grew = || pc::GROWTH.load(std::sync::atomic::Ordering::Relaxed);
            if p.again > 0 && grew() > 0 {
                // what happens by chance or has a bound does not go on like this
                let on = |times: u16| {
                    drop(Plan::Pc(pc::PcPlan { again: p.again * times, ..p.clone() }).run_with(self.seed(), false));
                    grew()
                };
                if on(8) > 0 {
                    let by = on(64);
                    if by > 0 {
                        return Some(viol(
                            "grows",
                            format!("when the users repeat the same work, the memory of the pool and its connections grows by {by} bytes each time"),
                        ));
                    }
                }
            }
        }
        let large = seen[AGAIN - 1].1;
        (large > 0).then(|| viol("large-buffer-kept", format!("{large} blocks of more than 8 MiB are still allocated after everything was dropped")))
    }

    pub fn run(&self, trace: bool) -> Outcome {
        let mut o = self.run_with(self.seed(), trace);
        if LEAKS.load(std::sync::atomic::Ordering::Relaxed)
            && !o.viols.iter().any(|v| v.props.iter().any(|p| p == "C23"))
        {
            o.viols.extend(self.leftovers());
        }
        if let Plan::Conn(ConnPlan { again: Some(x), .. }) = self {
            if !o.paddings.is_empty() {
                let other = self.run_with(self.seed() ^ (x | 1), false);
                if let Some(p) = o.paddings.iter().find(|p| other.paddings.contains(p)) {
                    o.viols.push(Viol {
                        props: vec!["C09".into()],
                        class: "predictable-padding".into(),
                        msg: format!("the padding {p:02x?} of an encrypted password does not depend on the randomness of the operating system"),
                    });
                }
            }
        }
        o
    }
    fn run_with(&self, entropy: u64, trace: bool) -> Outcome {
        entropy::reset(entropy);
        // a new thread, as generators and hash maps take their seeds once per thread
        let run = Alone(|| match self {
            Plan::Conn(p) => run_conn(p, trace),
            Plan::Pt(p) => pt::run_pt(p, trace),
            Plan::Pc(p) => pc::run_pc(p, trace),
            Plan::Mg(p) => mg::run_mg(p, trace),
            Plan::Md(p) => mdl::run_md(p, trace),
            Plan::Tx(p) => txt::run_txt(p, trace),
        });
        std::thread::scope(|s| {
            let t = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || Alone(run.call())).expect("thread");
            t.join().unwrap_or_else(|e| std::panic::resume_unwind(e)).0
        })
    }
    fn seed(&self) -> u64 {
        match self {
            Plan::Conn(p) => p.seed,
            Plan::Pt(p) => p.seed,
            Plan::Pc(p) => p.seed,
            Plan::Mg(p) => p.seed,
            Plan::Md(p) => p.seed,
            Plan::Tx(p) => p.seed,
        }
    }

    /// Number of derived variants worth running for this base plan.
    pub fn base(scn: Scn, seed: u64, big: bool) -> Plan {
        match scn {
            Scn::Conn(f) => Plan::Conn(gen::gen(f, seed, big)),
            Scn::Bytes => Plan::Conn(gen::gen_bytes(seed)),
            Scn::PoolThreads => Plan::Pt(pt::gen_pt(seed)),
            Scn::PoolConns => Plan::Pc(pc::gen_pc(seed)),
            Scn::PoolLong => Plan::Pc(pc::gen_long(seed)),
            Scn::Migrate => Plan::Mg(mg::gen_mg(seed)),
            Scn::Models => Plan::Md(mdl::gen_md(seed)),
            Scn::Text(e) => Plan::Tx(txt::gen_txt(e, seed)),
        }
    }

    pub fn derive(scn: Scn, base: &Plan, out: &Outcome, r: &mut Rng) -> Plan {
        match (scn, base) {
            (Scn::Conn(f), Plan::Conn(p)) => Plan::Conn(gen::derive(f, p, &out.steps, r)),
            (Scn::Bytes, Plan::Conn(p)) => Plan::Conn(gen::derive_bytes(p, &out.steps, r)),
            (Scn::PoolThreads, Plan::Pt(p)) => Plan::Pt(pt::derive_pt(p, out.polls, r)),
            (Scn::PoolConns | Scn::PoolLong, Plan::Pc(p)) => Plan::Pc(pc::derive_pc(p, out, r)),
            (Scn::Migrate, Plan::Mg(p)) => Plan::Mg(mg::derive_mg(p, out, r)),
            (Scn::Models, Plan::Md(p)) => Plan::Md(mdl::derive_md(p, out, r)),
            (Scn::Text(_), Plan::Tx(p)) => Plan::Tx(txt::derive_txt(p, out, r)),
            _ => unreachable!(),
        }
    }

    /// Simpler plans, most promising first.
    pub fn shrinks(&self) -> Vec<Plan> {
        match self {
            Plan::Conn(p) => shrink_conn(p).into_iter().map(Plan::Conn).collect(),
            Plan::Pt(p) => pt::shrink_pt(p).into_iter().map(Plan::Pt).collect(),
            Plan::Pc(p) => pc::shrink_pc(p).into_iter().map(Plan::Pc).collect(),
            Plan::Mg(p) => mg::shrink_mg(p).into_iter().map(Plan::Mg).collect(),
            Plan::Md(p) => mdl::shrink_md(p).into_iter().map(Plan::Md).collect(),
            Plan::Tx(p) => txt::shrink_txt(p).into_iter().map(Plan::Tx).collect(),
        }
    }

    /// The same execution with its schedule written out.
    pub fn pinned(&self, points: &[(u32, u32)]) -> Option<Plan> {
        match self {
            Plan::Pt(p) => Some(Plan::Pt(pt::pin(p, points))),
            _ => None,
        }
    }
}

/// Removes halves, quarters, … single elements.
pub fn removals<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let mut out = Vec::new();
    if v.is_empty() {
        return out;
    }
    let mut n = v.len();
    loop {
        let mut i = 0;
        while i < v.len() {
            let mut x = v.to_vec();
            x.drain(i..(i + n).min(v.len()));
            out.push(x);
            i += n;
        }
        if n == 1 {
            return out;
        }
        n = n.div_ceil(2);
    }
}

pub fn shrink_faults(v: &[Fault]) -> Vec<Vec<Fault>> {
    removals(v)
}

pub fn shrink_net(n: &NetCfg) -> Vec<NetCfg> {
    let plain = NetCfg::plain();
    let mut out = Vec::new();
    if *n == plain {
        return out;
    }
    out.push(plain);
    let mut f = |c: fn(&mut NetCfg)| {
        let mut x = n.clone();
        c(&mut x);
        if x != *n {
            out.push(x);
        }
    };
    f(|n| (n.rd, n.wr) = (0, 0));
    f(|n| n.rd = 0);
    f(|n| n.wr = 0);
    f(|n| n.pend = 0);
    f(|n| n.lat = 0);
    f(|n| n.gap_pct = 0);
    f(|n| n.wgap_pct = 0);
    f(|n| n.trickle = false);
    f(|n| n.buffered = false);
    f(|n| n.hog = 0);
    out
}

fn shrink_conn(p: &ConnPlan) -> Vec<ConnPlan> {
    let mut out = Vec::new();
    macro_rules! with {
        ($c:ident, $body:block) => {{
            let mut $c = p.clone();
            $body
            out.push($c);
        }};
    }
    for i in 0..p.parts.len() {
        if p.parts.len() > 1 && !p.parts[i].ops.is_empty() {
            with!(c, { c.parts[i].ops.clear() });
        }
        if p.parts.len() > 1 && i + 1 == p.parts.len() {
            with!(c, {
                c.parts.pop();
            });
        }
    }
    for v in removals(&p.faults) {
        with!(c, { c.faults = v });
    }
    for v in removals(&p.mis) {
        with!(c, { c.mis = v });
    }
    for v in removals(&p.raw) {
        with!(c, { c.raw = v });
    }
    for v in removals(&p.mutate) {
        with!(c, { c.mutate = v });
    }
    for i in 0..p.parts.len() {
        for v in removals(&p.parts[i].ops) {
            with!(c, { c.parts[i].ops = v });
        }
        if p.parts[i].cancel.is_some() {
            with!(c, { c.parts[i].cancel = None });
        }
        if p.parts[i].start > 0 {
            with!(c, { c.parts[i].start = 0 });
        }
    }
    for n in shrink_net(&p.net) {
        with!(c, { c.net = n });
    }
    for i in 0..p.parts.len() {
        for j in 0..p.parts[i].ops.len() {
            let op = &p.parts[i].ops[j];
            if op.cancel.is_some() {
                with!(c, { c.parts[i].ops[j].cancel = None });
            }
            match &op.kind {
                Kind::Query { pad, resp, .. } | Kind::Exec { pad, resp } => {
                    if *pad > 0 {
                        with!(c, {
                            if let Kind::Query { pad, .. } | Kind::Exec { pad, .. } = &mut c.parts[i].ops[j].kind {
                                *pad = 0
                            }
                        });
                    }
                    for r in gen::shrink_resp(resp) {
                        let r = Rc::new(r);
                        with!(c, {
                            if let Kind::Query { resp, .. } | Kind::Exec { resp, .. } = &mut c.parts[i].ops[j].kind {
                                *resp = r
                            }
                        });
                    }
                }
                Kind::Prepare { pad, runs, .. } => {
                    if *pad > 0 {
                        with!(c, {
                            if let Kind::Prepare { pad, .. } = &mut c.parts[i].ops[j].kind {
                                *pad = 0
                            }
                        });
                    }
                    for v in removals(runs) {
                        with!(c, {
                            if let Kind::Prepare { runs, .. } = &mut c.parts[i].ops[j].kind {
                                *runs = v
                            }
                        });
                    }
                    for k in 0..runs.len() {
                        if runs[k].cancel.is_some() || runs[k].wrong.is_some() {
                            with!(c, {
                                if let Kind::Prepare { runs, .. } = &mut c.parts[i].ops[j].kind {
                                    runs[k].cancel = None;
                                    runs[k].wrong = None;
                                }
                            });
                        }
                        for r in gen::shrink_resp(&runs[k].resp) {
                            let r = Rc::new(r);
                            with!(c, {
                                if let Kind::Prepare { runs, .. } = &mut c.parts[i].ops[j].kind {
                                    runs[k].resp = r
                                }
                            });
                        }
                    }
                }
                _ => {}
            }
        }
    }
    out
}
