//! Connection scenario: several connections, each driven by one caller task through connect,
//! queries, prepared statements, abandoned results, cancelled calls and disconnect, while the
//! simulator decides scheduling, fragmentation, delays and faults.
use crate::server::*;
use crate::val::*;
use crate::wire;
use crate::world::*;
use mysql_connector::error::Error;
use mysql_connector::types::Value;
use mysql_connector::{Connection, ConnectionOptions};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Consume {
    /// `next()` this many times (also past errors in single values), then drop.
    Next(u32),
    Collect,
    CollectTwice,
    One,
    Finish,
    FinishInner,
    NextFinish(u32),
    IntoColumns,
    Drop,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Prep {
    pub params: u16,
    pub cols: Rc<Vec<ColSpec>>,
    pub warnings: u16,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Run {
    pub id: u32,
    pub params: Rc<Vec<Val>>,
    pub resp: Rc<Resp>,
    /// `None`: `execute`
    pub query: Option<Consume>,
    pub cancel: Option<u32>,
    /// Call with this many values first; it has to be refused without any effect.
    pub wrong: Option<u32>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Kind {
    Query { pad: usize, resp: Rc<Resp>, consume: Consume },
    Exec { pad: usize, resp: Rc<Resp> },
    Prepare { pad: usize, res: Result<Prep, ErrSpec>, runs: Vec<Run> },
    Cleanup,
    Sleep(u64),
    Disconnect,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Op {
    pub id: u32,
    pub cancel: Option<u32>,
    pub kind: Kind,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Part {
    pub login: LoginCfg,
    /// Cancels the connect call after this many polls.
    pub cancel: Option<u32>,
    pub start: u64,
    pub ops: Vec<Op>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ConnPlan {
    pub seed: u64,
    pub parts: Vec<Part>,
    pub net: NetCfg,
    pub faults: Vec<Fault>,
    pub mis: Vec<Mis>,
    /// Reply of these steps replaced by raw stream bytes.
    pub raw: Vec<(u32, Vec<u8>)>,
    #[serde(default)]
    pub mutate: Vec<Mutate>,
    /// Only "returns normally" is checked (hostile bytes).
    pub lax: bool,
    /// Run it once more with other randomness of the operating system.
    #[serde(default)]
    pub again: Option<u64>,
}

#[derive(Clone, Debug, Default)]
pub struct StepStat {
    pub step: u32,
    pub part: usize,
    pub c2s: u64,
    pub s2c: u64,
    pub polls: u32,
    pub conn: bool,
}

#[derive(Default)]
pub struct Outcome {
    pub viols: Vec<Viol>,
    pub hash: u64,
    pub polls: u64,
    pub io_polls: u64,
    pub time: u64,
    pub faults: BTreeMap<String, u64>,
    pub steps: Vec<StepStat>,
    pub trace: Vec<String>,
    pub commands: u64,
    pub bytes: u64,
    pub conns: u64,
    /// Probes: rare conditions reached.
    pub probes: BTreeMap<&'static str, u64>,
    /// Scheduling decisions that were not the default (thread-level scenario).
    pub points: Vec<(u32, u32)>,
    /// Seeds of the padding of encrypted passwords.
    pub paddings: Vec<Vec<u8>>,
}

// ---------------------------------------------------------------- texts

#[derive(Debug)]
struct Text {
    tag: char,
    id: u32,
    pad: usize,
    seed: u64,
}
impl TextGen for Text {
    fn text(&self) -> String {
        let mut s = format!("{}{}|", self.tag, self.id);
        if self.pad > 0 {
            let mut r = crate::rng::Rng::new(self.seed ^ self.id as u64);
            if self.pad < 200 {
                s += &r.text(self.pad);
            } else {
                let mut b = r.bytes(self.pad);
                for x in &mut b {
                    *x = 0x30 + (*x & 0x3F);
                }
                s += std::str::from_utf8(&b).unwrap();
            }
        }
        s
    }
}

// ---------------------------------------------------------------- observations

#[derive(Clone, Debug)]
pub struct EOut {
    /// Debug text of a server error.
    pub server: Option<String>,
    pub kind: &'static str,
    pub text: String,
}

impl EOut {
    /// May be about a single value.
    pub fn value(&self) -> bool {
        ["parse", "io", "protocol"].contains(&self.kind)
    }
}

pub fn eout(e: &Error) -> EOut {
    use mysql_connector::error::{ProtocolError as P, RuntimeError as R};
    let (server, kind) = match e {
        Error::Server(p) => (Some(format!("{p:?}")), "server"),
        Error::Protocol(P::Parse(_)) => (None, "parse"),
        Error::Protocol(P::Serialize(_)) => (None, "serialize"),
        Error::Protocol(P::Io(x)) if x.kind() == std::io::ErrorKind::TimedOut => (None, "timeout"),
        Error::Protocol(P::Io(_)) => (None, "io"),
        Error::Protocol(_) => (None, "protocol"),
        Error::Runtime(R::ParameterCountMismatch) => (None, "param-count"),
        Error::Runtime(R::InsecureAuth) => (None, "insecure-auth"),
        Error::Runtime(R::AuthPluginMismatch(_)) => (None, "plugin-mismatch"),
    };
    let mut text = format!("{e:?}");
    if text.len() > 200 {
        let mut n = 200;
        while !text.is_char_boundary(n) {
            n -= 1;
        }
        text.truncate(n);
    }
    EOut { server, kind, text }
}

/// Whether the error that was shown is this one. Its code, state and message have to be there, however
/// they are laid out.
pub fn is_err(shown: Option<&str>, e: &ErrSpec) -> bool {
    let Some(s) = shown else { return false };
    let code = s.split(|c: char| !c.is_ascii_digit()).any(|x| x == e.code.to_string());
    let state = e.state.as_ref().is_none_or(|x| s.contains(&format!("{x:?}")));
    code && state && s.contains(&format!("{:?}", e.msg))
}

pub fn err_text(e: &ErrSpec) -> String {
    match &e.state {
        Some(s) => format!("Error(ErrorPacket {{ code: {}, state: {:?}, message: {:?} }})", e.code, s, e.msg),
        None => format!("Error(ErrorPacket {{ code: {}, message: {:?} }})", e.code, e.msg),
    }
}

/// (affected, last id, status, warnings, message)
pub type Info = (u64, u64, u16, u16, Option<String>);

macro_rules! info {
    ($o:expr) => {{
        let o = $o;
        (o.affected_rows(), o.last_insert_id(), o.status().bits() & !0x0004, o.warnings(), o.message().cloned())
    }};
}

fn status(s: u16, more: bool) -> u16 {
    // 0x0004 is undefined in the protocol and dropped by the client
    let s = s & !0x0004;
    if more {
        s | wire::ST_MORE
    } else {
        s & !wire::ST_MORE
    }
}
fn text_opt(s: &Option<String>) -> Option<String> {
    s.clone().filter(|x| !x.is_empty())
}
fn ok_info(o: &OkSpec, more: bool) -> Info {
    (o.affected, o.last_id, status(o.status, more), o.warnings, text_opt(&o.info))
}
fn end_info(e: &EndSpec, more: bool, de: bool) -> Info {
    (0, 0, status(e.status, more), e.warnings, if de { text_opt(&e.info) } else { None })
}

#[derive(Default, Debug)]
struct Obs {
    call: Option<Result<(), EOut>>,
    /// Information packet handed to the caller.
    info: Option<Info>,
    cols: Option<Vec<(String, String, String, String, u8, u16)>>,
    /// Rows and value errors in the order `next()` returned them.
    rows: Vec<Result<Vec<Val>, EOut>>,
    /// The caller was told about the end of the result set.
    end: Option<Result<(), EOut>>,
    extra: Option<String>,
    done: bool,
    first_only: bool,
}

type Ob = Rc<RefCell<Obs>>;

fn row(v: &[Value]) -> Vec<Val> {
    v.iter().map(Val::from_lib).collect()
}

macro_rules! consume {
    ($rs:expr, $how:expr, $ob:expr) => {{
        let mut rs = $rs;
        let ob: &Ob = $ob;
        ob.borrow_mut().call = Some(Ok(()));
        ob.borrow_mut().cols = Some(cols_of(rs.columns()));
        match $how {
            Consume::Drop => {}
            Consume::IntoColumns => {
                let c = cols_of(&rs.into_columns());
                if Some(&c) != ob.borrow().cols.as_ref() {
                    ob.borrow_mut().extra = Some("into_columns() differs from columns()".into());
                }
            }
            Consume::Next(k) | Consume::NextFinish(k) => {
                for _ in 0..*k {
                    match rs.next().await {
                        Ok(Some(r)) => ob.borrow_mut().rows.push(Ok(row(&r))),
                        Ok(None) => {
                            ob.borrow_mut().end = Some(Ok(()));
                            break;
                        }
                        Err(e) => {
                            let e = eout(&e);
                            let again = ob.borrow().rows.iter().rev().take(2).filter(|r| r.is_err()).count() < 2;
                            if e.value() && again {
                                ob.borrow_mut().rows.push(Err(e));
                            } else {
                                ob.borrow_mut().end = Some(Err(e));
                                break;
                            }
                        }
                    }
                }
                let ended = ob.borrow().end.clone();
                match ended {
                    // the end is sticky
                    Some(Ok(())) => match rs.next().await {
                        Ok(None) => {}
                        Ok(Some(_)) => ob.borrow_mut().extra = Some("a row after the end".into()),
                        Err(e) => ob.borrow_mut().extra = Some(format!("an error after the end: {:?}", eout(&e))),
                    },
                    // and so is an error the server ended the result with
                    Some(Err(ref e)) if !e.value() => {
                        let t = crate::world::now();
                        match rs.next().await {
                            Err(_) if e.server.is_none() || crate::world::now() == t => {}
                            Err(_) => ob.borrow_mut().extra = Some("waited for a row after the server's error".into()),
                            Ok(_) => ob.borrow_mut().extra = Some("a row or the end after an error".into()),
                        }
                    }
                    _ => {}
                }
                if matches!($how, Consume::NextFinish(_)) && !matches!(ended, Some(Err(_))) {
                    match rs.finish().await {
                        Ok(o) => {
                            let mut b = ob.borrow_mut();
                            b.info = Some(info!(&o));
                            b.end = Some(Ok(()));
                        }
                        Err(e) => ob.borrow_mut().end = Some(Err(eout(&e))),
                    }
                }
            }
            Consume::Collect | Consume::CollectTwice => match rs.collect().await {
                Ok(v) => {
                    {
                        let mut b = ob.borrow_mut();
                        b.rows = v.iter().map(|r| Ok(row(r))).collect();
                        b.end = Some(Ok(()));
                    }
                    if matches!($how, Consume::CollectTwice) {
                        match rs.collect().await {
                            Ok(v) if v.is_empty() => {}
                            Ok(_) => ob.borrow_mut().extra = Some("a second collect() returned rows".into()),
                            Err(e) => {
                                ob.borrow_mut().extra = Some(format!("an error after the end: {:?}", eout(&e)))
                            }
                        }
                    }
                }
                Err(e) => ob.borrow_mut().end = Some(Err(eout(&e))),
            },
            Consume::One => match rs.one().await {
                Ok(x) => {
                    let mut b = ob.borrow_mut();
                    b.first_only = true;
                    b.rows = x.iter().map(|r| Ok(row(r))).collect();
                    b.end = Some(Ok(()));
                }
                Err(e) => ob.borrow_mut().end = Some(Err(eout(&e))),
            },
            Consume::Finish => match rs.finish().await {
                Ok(o) => {
                    let mut b = ob.borrow_mut();
                    b.info = Some(info!(&o));
                    b.end = Some(Ok(()));
                }
                Err(e) => ob.borrow_mut().end = Some(Err(eout(&e))),
            },
            Consume::FinishInner => match rs.finish_into_inner().await {
                Ok((o, c, _)) => {
                    let mut b = ob.borrow_mut();
                    b.info = Some(info!(&o));
                    b.end = Some(Ok(()));
                    if Some(cols_of(&c)) != b.cols {
                        b.extra = Some("finish_into_inner() columns differ from columns()".into());
                    }
                }
                Err(e) => ob.borrow_mut().end = Some(Err(eout(&e))),
            },
        }
        ob.borrow_mut().done = true;
    }};
}

fn cols_of(c: &[mysql_connector::types::Column]) -> Vec<(String, String, String, String, u8, u16)> {
    c.iter()
        .map(|c| {
            (
                c.name().into(),
                c.org_name().into(),
                c.table().into(),
                c.org_table().into(),
                c.r#type() as u8,
                c.flags().bits(),
            )
        })
        .collect()
}

// ---------------------------------------------------------------- driver

#[derive(Default)]
pub struct Shared {
    pub steps: Vec<StepStat>,
    pub probes: BTreeMap<&'static str, u64>,
}

pub struct Track {
    pub part: usize,
    pub conn: u32,
    pub base_id: u32,
    pub lax: bool,
    /// Taken from a pool after somebody else has used it.
    pub pooled: bool,
    pub timeout: u64,
    /// Why errors are acceptable from now on.
    pub taint: Option<String>,
    /// An error of the connection was reported to the caller after a fault.
    pub broken: bool,
    /// Result parts the caller left unread.
    pub pending: Vec<Result<Info, ErrSpec>>,
    pub sh: Rc<RefCell<Shared>>,
}

fn props(base: &[&'static str]) -> Vec<&'static str> {
    base.to_vec()
}

impl Track {
    pub fn viol(&self, p: &[&'static str], class: &str, msg: String) {
        if self.lax {
            return;
        }
        let mut p = props(p);
        if self.pooled {
            p.push("C14");
        }
        w(|w| w.viol(&p, class, format!("connection {}: {msg}", self.part)));
    }
    pub fn probe(&self, name: &'static str) {
        *self.sh.borrow_mut().probes.entry(name).or_default() += 1;
    }
    pub fn taint(&mut self, why: impl Into<String>) {
        if self.taint.is_none() {
            let s = why.into();
            w(|w| w.tr(|| format!("connection {}: errors are acceptable from here on ({s})", self.part)));
            self.taint = Some(s);
        }
    }
    /// Looks for faults that hit this connection.
    pub fn look(&mut self) {
        if self.taint.is_some() || self.conn == u32::MAX {
            return;
        }
        let why = w(|w| {
            let c = &w.conns[self.conn as usize];
            if let Some(f) = c.fired.iter().find(|f| f.2.map_or(true, |ms| ms + 300 >= self.timeout)) {
                return Some(format!("fault {}", f.0));
            }
            let s = &w.srv.sess[self.conn as usize];
            if let Some(x) = s.mis_hit.first() {
                return Some(format!("damaged reply of step {x}"));
            }
            None
        });
        if let Some(x) = why {
            self.taint(x);
        }
    }
    fn begin(&self, step: u32) -> (u64, u64, u64) {
        w(|w| {
            w.step_begin(self.conn, step);
            w.tr(|| format!("connection {}: call {step} begins", self.part));
            let c = &w.conns[self.conn as usize];
            (w.now(), c.written, c.consumed)
        })
    }
    /// Timing rules for a call that has just returned.
    fn timing(&self, step: u32, start: u64, polls: u32, before: (u64, u64), errs: &[&EOut], cancelled: bool) {
        let (t, c2s, s2c, stalled, progress, hog) = w(|w| {
            let c = &w.conns[self.conn as usize];
            (w.now(), c.written - before.0, c.consumed - before.1, c.stalled_at, c.last_progress, w.hog_end)
        });
        crate::alloc::lib(false, || self.sh.borrow_mut().steps.push(StepStat { step, part: self.part, c2s, s2c, polls, conn: false }));
        if cancelled {
            return;
        }
        let slack = 12;
        let base = stalled.unwrap_or(0).max(start).max(progress).max(hog);
        if t > base + self.timeout + slack {
            self.viol(
                &["C07"],
                "late-timeout",
                format!(
                    "call {step} returned {} ms after the last progress (t={base}), the timeout is {} ms",
                    t - base,
                    self.timeout
                ),
            );
        }
        let timed_out = errs.iter().any(|e| e.kind == "timeout");
        if timed_out {
            self.probe("timeout");
            let waited = t.saturating_sub(stalled.unwrap_or(t).max(start.min(t)));
            let cum = t - start.max(progress.min(t));
            if cum + 5 < self.timeout {
                self.viol(
                    &["C07"],
                    "early-timeout",
                    format!("call {step} timed out {cum} ms after the last progress (waiting {waited} ms), the timeout is {} ms", self.timeout),
                );
            }
        } else if errs.is_empty() && t > progress.max(start).max(hog) + slack {
            // completed, but held back after its last byte
            self.viol(&["C07"], "delayed-completion", format!("call {step} completed {} ms after its last byte", t - progress.max(start)));
        }
    }

    fn err_ok(&mut self, e: &EOut, what: &str, step: u32, pr: &[&'static str]) {
        self.look();
        if e.kind == "server" {
            let mut p = props(pr);
            p.extend(["C01", "C06"]);
            self.viol(&p, "foreign-error", format!("{what} of call {step} returned a server error the server did not send for it: {}", e.text));
            return;
        }
        if self.taint.is_none() {
            let mut p = props(pr);
            p.push("*");
            if e.kind == "timeout" {
                p.push("C07");
            }
            self.viol(&p, "unexpected-error", format!("{what} of call {step} failed without any fault: {}", e.text));
            self.taint("unexpected error");
        } else {
            self.broken = true;
            self.probe("error-after-fault");
        }
    }

    /// Compares what a query-like call produced with the server's reply to it.
    #[allow(clippy::too_many_arguments)]
    fn judge(&mut self, step: u32, resp: &Resp, binary: bool, de: bool, ob: &Obs, exec: bool, cancelled: bool) {
        self.look();
        if cancelled {
            self.taint(format!("call {step} dropped"));
            self.probe("cancelled-call");
        }
        if resp.raw() {
            self.taint("raw reply");
            return;
        }
        let mis: Option<Mis> = w(|w| w.srv.mis.iter().find(|m| m.step == step).cloned());
        let limit = mis.map(|m| {
            let mut ps = Vec::new();
            wire::reply(resp, binary, de, false, &mut ps);
            let k = m.pkt as usize % ps.len();
            let last = k + 1 == ps.len();
            match m.kind {
                MisKind::Dup if last => usize::MAX,
                MisKind::Dup => k + 1,
                _ => k,
            }
        });
        // nothing at or past packet `limit` may be delivered
        let limit = limit.unwrap_or(usize::MAX);
        let seqv = |t: &Track, what: String| {
            t.viol(
                &["C02", "C01", "C05"],
                "out-of-sequence-delivered",
                format!("call {step}: {what} was delivered although its packet is out of sequence"),
            )
        };
        let first = resp.first();
        match &ob.call {
            None => {
                if !cancelled {
                    self.viol(&["*"], "harness", format!("call {step} has no outcome"));
                }
                return;
            }
            Some(Err(e)) => match first {
                Resp::Err(x) if is_err(e.server.as_deref(), x) => {
                    if limit == 0 {
                        seqv(self, "the error".into());
                    }
                    self.probe("server-error");
                    self.pending.clear();
                    return;
                }
                Resp::Err(x) => {
                    self.look();
                    if self.taint.is_none() || e.kind == "server" {
                        self.viol(
                            &["C06", "C01"],
                            "server-error-lost",
                            format!("call {step}: the server refused it with {} but the caller got {}", err_text(x), e.text),
                        );
                        self.taint("lost error");
                    }
                    return;
                }
                Resp::Rows(rs) => {
                    // execute() of a statement that returns rows, or columns no client can read
                    if exec && e.kind != "server" {
                        self.taint("execute() of a query");
                    }
                    if rs.cols.iter().any(|c| ty::UNUSABLE.contains(&c.ty)) && e.kind != "server" {
                        self.taint("column of a type no server sends");
                    }
                    self.err_ok(e, "the call", step, &["C01", "C05", "C04"]);
                    return;
                }
                _ => {
                    self.err_ok(e, "the call", step, &["C01", "C06"]);
                    return;
                }
            },
            Some(Ok(())) => {}
        }
        match first {
            Resp::Err(x) => {
                self.viol(
                    &["C06", "C01", "C05"],
                    "error-as-success",
                    format!("call {step} succeeded although the server refused it with {}", err_text(x)),
                );
                self.taint("wrong result");
            }
            Resp::Ok(o) => {
                let want = ok_info(o, resp.more());
                if limit == 0 {
                    seqv(self, "the OK".into());
                }
                if ob.cols.as_ref().is_some_and(|c| !c.is_empty()) {
                    self.viol(&["C06", "C01"], "wrong-columns", format!("call {step}: columns reported for a reply without columns"));
                }
                if !ob.rows.is_empty() {
                    self.viol(&["C05", "C01"], "extra-row", format!("call {step}: rows returned for a reply without rows"));
                }
                if let Some(Err(e)) = &ob.end {
                    let e = e.clone();
                    self.err_ok(&e, "reading the result", step, &["C05", "C06"]);
                }
                if let Some(i) = &ob.info {
                    if *i != want {
                        self.viol(&["C06", "C01"], "wrong-info", format!("call {step}: reported {i:?}, the server sent {want:?}"));
                        self.taint("wrong result");
                    }
                }
                self.pending = rest_of(resp, de);
            }
            Resp::Rows(rs) => {
                if exec {
                    // cannot be represented by an OK packet except by its end
                    let want = end_info(&rs.end, resp.more(), de);
                    if rs.abort.is_some() || ob.info.as_ref() != Some(&want) {
                        self.viol(&["C06", "C01"], "wrong-info", format!("call {step}: execute() of a query returned {:?}", ob.info));
                    }
                    self.taint("execute() of a query");
                    return;
                }
                let want: Vec<_> = rs
                    .cols
                    .iter()
                    .map(|c| (c.name.clone(), c.org_name.clone(), c.table.clone(), c.org_table.clone(), c.ty, c.flags))
                    .collect();
                if let Some(c) = &ob.cols {
                    if *c != want {
                        let k = (0..c.len().min(want.len())).find(|k| c[*k] != want[*k]);
                        self.viol(
                            &["C06", "C01"],
                            "wrong-columns",
                            match k {
                                Some(k) => format!("call {step}: column {k} reported as {:?}, the server sent {:?}", c[k], want[k]),
                                None => format!("call {step}: {} columns reported, the server sent {}", c.len(), want.len()),
                            },
                        );
                        self.taint("wrong result");
                        return;
                    }
                }
                let head = 1 + rs.cols.len() + if de { 0 } else { 1 };
                if limit < head {
                    seqv(self, "the column list".into());
                }
                for (k, r) in ob.rows.iter().enumerate() {
                    let Some(wr) = rs.rows.get(k) else {
                        match r {
                            Ok(r) => {
                                self.viol(
                                    &["C05", "C01", "C04"],
                                    "extra-row",
                                    format!("call {step}: row {k} returned but the server sent {} rows: {}", rs.rows.len(), brief_row(r)),
                                );
                            }
                            Err(e) => {
                                let e = e.clone();
                                self.err_ok(&e, "reading a row", step, &["C05", "C04"]);
                            }
                        }
                        self.taint("wrong result");
                        return;
                    };
                    if head + k >= limit && r.is_ok() {
                        seqv(self, format!("row {k}"));
                    }
                    let bad = wr.iter().any(|v| matches!(v, Val::BadText(_)))
                        || (rs.cols.iter().zip(wr.iter()).any(|(c, v)| ty::UNUSABLE.contains(&c.ty) && *v != Val::Null));
                    let wr: Vec<Val> = if binary {
                        wr.clone()
                    } else {
                        wr.iter().zip(rs.cols.iter()).map(|(v, c)| wire::expect_text(v, c)).collect()
                    };
                    match r {
                        Ok(r) if bad => {
                            self.viol(
                                &["C04"],
                                "bad-value-accepted",
                                format!("call {step}: row {k} {} holds an unparsable value but was returned as {}", brief_row(&wr), brief_row(r)),
                            );
                        }
                        Ok(r) => {
                            if !same_row(r, &wr) {
                                let i = (0..r.len().min(wr.len())).find(|i| !r[*i].same(&wr[*i]));
                                self.viol(
                                    &["C04", "C05", "C01", "C15"],
                                    "wrong-row",
                                    match i {
                                        Some(i) => format!(
                                            "call {step}: row {k} column {i} (type {}) read as {}, the server sent {}",
                                            rs.cols[i].ty,
                                            r[i].brief(),
                                            wr[i].brief()
                                        ),
                                        None => format!("call {step}: row {k} has {} values instead of {}", r.len(), wr.len()),
                                    },
                                );
                                self.taint("wrong result");
                                return;
                            }
                        }
                        Err(e) => {
                            if bad {
                                self.probe("unparsable-value");
                            } else {
                                let e = e.clone();
                                self.err_ok(&e, "reading a row", step, &["C05", "C04"]);
                            }
                        }
                    }
                }
                let any_bad = rs.rows.iter().any(|r| {
                    r.iter().zip(rs.cols.iter()).any(|(v, c)| {
                        matches!(v, Val::BadText(_)) || (ty::UNUSABLE.contains(&c.ty) && *v != Val::Null)
                    })
                });
                let mut unread = true;
                match &ob.end {
                    None => {}
                    Some(Ok(())) => {
                        unread = false;
                        if let Some(x) = &rs.abort {
                            self.viol(
                                &["C05", "C06", "C01"],
                                "abort-as-end",
                                format!("call {step}: the end was reported although the server aborted the result with {}", err_text(x)),
                            );
                            self.taint("wrong result");
                        } else {
                            if head + rs.rows.len() >= limit {
                                seqv(self, "the end".into());
                            }
                            let expect = if ob.first_only { rs.rows.len().min(1) } else { rs.rows.len() };
                            let counted = matches!(ob.rows.len(), n if n == expect) || ob.info.is_some();
                            if !counted {
                                self.viol(
                                    &["C05", "C01"],
                                    "missing-rows",
                                    format!("call {step}: the end was reported after {} of {expect} rows", ob.rows.len()),
                                );
                                self.taint("wrong result");
                            }
                            if let Some(i) = &ob.info {
                                let want = end_info(&rs.end, resp.more(), de);
                                if *i != want {
                                    self.viol(&["C06", "C05"], "wrong-info", format!("call {step}: end reported as {i:?}, the server sent {want:?}"));
                                    self.taint("wrong result");
                                }
                            }
                        }
                        self.probe("complete-result");
                    }
                    Some(Err(e)) => {
                        let e = e.clone();
                        match &rs.abort {
                            Some(x) if is_err(e.server.as_deref(), x) => {
                                unread = false;
                                self.probe("aborted-result");
                                if head + rs.rows.len() >= limit {
                                    seqv(self, "the error".into());
                                }
                            }
                            _ if e.value() && any_bad => {
                                self.probe("unparsable-value");
                            }
                            _ => {
                                self.look();
                                if rs.abort.is_some() && self.taint.is_none() {
                                    self.viol(
                                        &["C05", "C06"],
                                        "server-error-lost",
                                        format!("call {step}: the server aborted with {} but the caller got {}", err_text(rs.abort.as_ref().unwrap()), e.text),
                                    );
                                    self.taint("lost error");
                                } else {
                                    self.err_ok(&e, "reading the result", step, &["C05", "C04"]);
                                }
                            }
                        }
                    }
                }
                self.pending.clear();
                if unread {
                    self.probe("abandoned-result");
                    match &rs.abort {
                        Some(x) => self.pending.push(Err(x.clone())),
                        None => self.pending.push(Ok(end_info(&rs.end, resp.more(), de))),
                    }
                }
                if rs.abort.is_none() {
                    self.pending.extend(rest_of(resp, de));
                }
            }
            _ => {}
        }
        if let Some(x) = &ob.extra {
            self.look();
            if self.taint.is_none() || x.contains("row") {
                self.viol(&["C05", "C06"], "after-end", format!("call {step}: {x}"));
            }
        }
    }
}

/// What follows the first result of a reply.
fn rest_of(resp: &Resp, de: bool) -> Vec<Result<Info, ErrSpec>> {
    let mut out = Vec::new();
    fn go(r: &Resp, more: bool, de: bool, out: &mut Vec<Result<Info, ErrSpec>>) -> bool {
        match r {
            Resp::Ok(o) => out.push(Ok(ok_info(o, more))),
            Resp::Err(e) => {
                out.push(Err(e.clone()));
                return false;
            }
            Resp::Rows(r) => match &r.abort {
                Some(e) => {
                    out.push(Err(e.clone()));
                    return false;
                }
                None => out.push(Ok(end_info(&r.end, more, de))),
            },
            Resp::Multi(v) => {
                for (i, x) in v.iter().enumerate() {
                    if !go(x, more || i + 1 < v.len(), de, out) {
                        return false;
                    }
                }
            }
            Resp::Raw(_) => {}
        }
        true
    }
    if resp.more() {
        go(resp, false, de, &mut out);
        let _ = out.remove(0);
    }
    out
}

pub fn options<const S: bool>(l: &LoginCfg, pool: u32) -> ConnectionOptions<SimStream<S>> {
    ConnectionOptions {
        user: l.user.clone(),
        password: l.password.clone(),
        db_name: l.db.clone(),
        connection: SimOptions { pool },
        max_allowed_packet: l.max_packet,
        timeout: Duration::from_millis(l.timeout),
        allow_cleartext_password: l.allow_clear,
        auth_plugin: l.pinned.map(|p| p.lib()),
        server_key: if l.preset_key {
            Some(Arc::new(
                mysql_connector::PublicKey::try_from_pem(crate::crypto::key(l.key as usize).pkcs8.as_bytes()).unwrap(),
            ))
        } else {
            None
        },
        #[cfg(not(feature = "time"))]
        sleep: Some(&lib_sleep),
    }
}

async fn connect(l: &LoginCfg, pool: u32) -> Result<Connection, Error> {
    if l.secure {
        Connection::connect(Arc::new(options::<true>(l, pool))).await
    } else {
        Connection::connect(Arc::new(options::<false>(l, pool))).await
    }
}

/// The client may give up this login by itself.
pub fn may_refuse(l: &LoginCfg) -> bool {
    if l.hostile.is_some() || l.raw_greeting.is_some() {
        return true;
    }
    let offered = Plug::parse(l.offered.as_bytes());
    let offered = if l.caps & wire::CAP_PLUGIN_AUTH == 0 { None } else { offered };
    let start = l.pinned.or(offered).unwrap_or(Plug::Native);
    if !l.allow_clear && start == Plug::Clear {
        return true;
    }
    if l.account != start {
        if !l.allow_clear && l.account == Plug::Clear {
            return true;
        }
        if l.pinned.is_some_and(|p| p != l.account) {
            return true;
        }
    }
    false
}

fn contains(hay: &[u8], needle: &[u8]) -> bool {
    !needle.is_empty() && hay.windows(needle.len()).any(|x| x == needle)
}

/// C09: forms of the password that can be computed from what was sent without any key.
pub fn leak_check(l: &LoginCfg, conn: u32) {
    if l.secure || l.allow_clear || l.password.len() < 8 {
        return;
    }
    let hit = w(|w| {
        let raw = &w.conns[conn as usize].raw_c2s;
        let s = &w.srv.sess[conn as usize];
        let pw = l.password.as_bytes();
        let mut forms: Vec<(&str, Vec<u8>)> = vec![
            ("the password", pw.to_vec()),
            ("SHA1(password)", crate::crypto::sha1(&[pw]).to_vec()),
            ("SHA1(SHA1(password))", crate::crypto::sha1(&[&crate::crypto::sha1(&[pw])]).to_vec()),
            ("SHA256(password)", crate::crypto::sha256(&[pw]).to_vec()),
            ("SHA256(SHA256(password))", crate::crypto::sha256(&[&crate::crypto::sha256(&[pw])]).to_vec()),
        ];
        for n in &s.nonces {
            if n.is_empty() {
                continue;
            }
            forms.push(("the password XOR the challenge", pw.iter().enumerate().map(|(i, b)| b ^ n[i % n.len()]).collect()));
        }
        let mut rev = pw.to_vec();
        rev.reverse();
        forms.push(("the reversed password", rev));
        forms.into_iter().find(|(_, f)| contains(raw, f)).map(|x| x.0)
    });
    if let Some(f) = hit {
        w(|w| w.viol(&["C09"], "password-leak", format!("conn {conn}: {f} was sent over an insecure transport")));
    }
}

async fn part_task(p: usize, part: Part, lax: bool, sh: Rc<RefCell<Shared>>, seed: u64) {
    let l = &part.login;
    if part.start > 0 {
        sleep(part.start).await;
    }
    let mut tr = Track {
        part: p,
        conn: u32::MAX,
        base_id: l.conn_id,
        lax,
        pooled: false,
        timeout: l.timeout,
        taint: None,
        broken: false,
        pending: Vec::new(),
        sh: sh.clone(),
    };
    let start = now();
    let polls = Rc::new(RefCell::new(0u32));
    let res = counted(part.cancel, connect(l, p as u32), polls.clone()).await;
    let conn_id = w(|w| w.conns.iter().find(|c| c.pool == p as u32).map(|c| c.id));
    let mut conn = match judge_connect(&mut tr, l, conn_id, res, start, *polls.borrow()) {
        Some(c) => c,
        None => return,
    };
    if l.hostile.is_some() {
        // whatever the caller does afterwards
        let _ = cancel_after(Some(3), conn.execute_query("select 1")).await;
        drop(conn);
        leak_check(l, tr.conn);
        return;
    }
    leak_check(l, tr.conn);
    let c = tr.conn;
    w(|w| {
        let c = &mut w.conns[c as usize];
        c.keep_raw = false;
        c.raw_c2s = Vec::new();
    });
    let de = w(|w| w.srv.sess[c as usize].caps & wire::CAP_DEPRECATE_EOF != 0);
    for op in &part.ops {
        if let Kind::Sleep(ms) = op.kind {
            sleep(ms).await;
            continue;
        }
        if let Kind::Disconnect = op.kind {
            let (start, a, b) = tr.begin(op.id);
            let polls = Rc::new(RefCell::new(0u32));
            let r = counted(op.cancel, conn.disconnect(), polls.clone()).await;
            tr.look();
            let cancelled = r.is_none();
            let e = match &r {
                Some(Err(e)) => Some(eout(e)),
                _ => None,
            };
            let es: Vec<&EOut> = e.iter().collect();
            tr.timing(op.id, start, *polls.borrow(), (a, b), &es, cancelled);
            match &e {
                Some(e) => {
                    let own = tr.pending.iter().any(|p| matches!(p, Err(x) if is_err(e.server.as_deref(), x)));
                    if !own {
                        tr.err_ok(e, "disconnect", op.id, &["C11"]);
                    }
                }
                None if !cancelled && tr.taint.is_none() => {
                    let seen = w(|w| w.srv.journal.iter().any(|j| *j == (c, Seen::Quit)));
                    if !seen {
                        tr.viol(&["C11", "C01"], "lost-command", "disconnect() succeeded but the server never saw it".into());
                    }
                }
                _ => {}
            }
            return;
        }
        do_op(&mut tr, &mut conn, op, de, seed).await;
    }
}

/// Drops the call after `k` polls, counting them.
pub async fn counted<T>(k: Option<u32>, f: impl std::future::Future<Output = T>, n: Rc<RefCell<u32>>) -> Option<T> {
    let mut f = Box::pin(f);
    std::future::poll_fn(move |cx| match crate::alloc::lib(true, || f.as_mut().poll(cx)) {
        std::task::Poll::Ready(x) => std::task::Poll::Ready(Some(x)),
        std::task::Poll::Pending => {
            *n.borrow_mut() += 1;
            match k {
                Some(k) if *n.borrow() >= k => std::task::Poll::Ready(None),
                _ => std::task::Poll::Pending,
            }
        }
    })
    .await
}

fn judge_connect(
    tr: &mut Track,
    l: &LoginCfg,
    conn: Option<u32>,
    res: Option<Result<Connection, Error>>,
    start: u64,
    polls: u32,
) -> Option<Connection> {
    let opened = w(|w| w.open_fired.get(&(tr.part as u32)).cloned().unwrap_or_default());
    if let Some(f) = opened.iter().find(|f| f.2.map_or(true, |ms| ms + 300 >= l.timeout)) {
        tr.taint(format!("fault {}", f.0));
    }
    let e = match &res {
        Some(Err(e)) => Some(eout(e)),
        _ => None,
    };
    let es: Vec<&EOut> = e.iter().collect();
    if let Some(c) = conn {
        tr.conn = c;
        tr.timing(tr.part as u32, start, polls, (0, 0), &es, res.is_none());
        tr.look();
    } else if res.is_some() {
        let t = now();
        let since = opened.first().map(|f| f.1).unwrap_or(start).max(start).max(w(|w| w.hog_end));
        if t > since + l.timeout + 12 {
            tr.viol(
                &["C07"],
                "late-timeout",
                format!("connect returned {} ms after the network stalled, the timeout is {} ms", t - since, l.timeout),
            );
        }
    }
    let Some(res) = res else {
        tr.probe("cancelled-connect");
        return None;
    };
    let sess = conn.map(|c| {
        w(|w| {
            let s = &w.srv.sess[c as usize];
            (s.login_ok, s.login_err.clone(), s.conn_id, s.resp_caps)
        })
    });
    let strict = l.hostile.is_none() && l.raw_greeting.is_none();
    let sess_accepted = conn.is_some_and(|c| w(|w| w.srv.sess[c as usize].accepted));
    match res {
        Ok(c) => {
            let Some((ok, _, id, caps)) = sess else {
                tr.viol(&["C08"], "connected-without-login", "connected without a transport".into());
                return None;
            };
            if !strict {
                if l.hostile.is_some() && !sess_accepted {
                    tr.viol(&["C08", "C09"], "connected-without-login", "connect succeeded although nothing the server sent accepts the login".into());
                    return None;
                }
                return Some(c);
            }
            if !ok {
                tr.viol(
                    &["C08", "C09"],
                    "connected-without-login",
                    "connect succeeded although the server did not accept the login".into(),
                );
                return None;
            }
            tr.probe("login");
            let d = c.data();
            let got = (d.id(), d.version(), d.is_mariadb(), d.capabilities().bits(), d.max_allowed_packet() as u64);
            let lim = match l.max_packet {
                Some(x) => x as u64,
                None => l.settings.unwrap_or(1 << 22),
            };
            let want = (id, l.expect_version, l.mariadb, l.caps & caps, lim);
            if got != want {
                tr.viol(
                    &["C08"],
                    "wrong-connection-data",
                    format!("connection reports (id, version, mariadb, capabilities, packet limit) {got:?}, the server's are {want:?}"),
                );
            }
            let req = wire::CAP_PROTOCOL_41 | wire::CAP_SECURE | wire::CAP_TRANSACTIONS | wire::CAP_PLUGIN_AUTH;
            let miss = (req & l.caps & !caps) | if l.db.is_some() { wire::CAP_CONNECT_WITH_DB & l.caps & !caps } else { 0 };
            if miss != 0 {
                tr.viol(&["C08"], "capability-not-agreed", format!("capabilities {miss:#x} offered and needed but not agreed"));
            }
            Some(c)
        }
        Err(_) => {
            let e = e.unwrap();
            let (ok, err) = match &sess {
                Some(s) => (s.0, s.1.clone()),
                None => (false, None),
            };
            if !strict {
                tr.probe("hostile-login-refused");
                return None;
            }
            match err {
                Some(x) if is_err(e.server.as_deref(), &x) => tr.probe("refused-login"),
                Some(x) => {
                    if tr.taint.is_none() || e.kind == "server" {
                        tr.viol(
                            &["C08", "C06"],
                            "refusal-lost",
                            format!("the server refused the login with {} but connect returned {}", err_text(&x), e.text),
                        );
                    }
                }
                None if e.kind == "server" => {
                    tr.viol(&["C08", "C01"], "foreign-error", format!("connect returned a server error that was never sent: {}", e.text))
                }
                None if tr.taint.is_some() => tr.probe("connect-failed-after-fault"),
                None if ok => tr.viol(
                    &["C08", "C07", "*"],
                    "connect-failed",
                    format!("the server accepted the login but connect returned {}", e.text),
                ),
                None if may_refuse(l) => {
                    let own = e.kind == "insecure-auth" || e.kind == "plugin-mismatch";
                    if !own {
                        tr.viol(&["C08"], "connect-failed", format!("expected a refusal by the client, got {}", e.text));
                    }
                    tr.probe("client-refused")
                }
                None => {
                    let extra: &[&'static str] = if e.kind == "timeout" { &["C08", "C11", "*"] } else { &["C08", "*"] };
                    tr.viol(extra, "connect-failed", format!("connect failed without any fault or refusal: {}", e.text))
                }
            }
            None
        }
    }
}

pub async fn do_op(tr: &mut Track, conn: &mut Connection, op: &Op, de: bool, seed: u64) {
    let ob: Ob = Default::default();
    let polls = Rc::new(RefCell::new(0u32));
    match &op.kind {
        Kind::Query { pad, resp, consume } => {
            let text = Text { tag: 'q', id: op.id, pad: *pad, seed }.text();
            let (start, a, b) = tr.begin(op.id);
            let o2 = ob.clone();
            let r = counted(
                op.cancel,
                async {
                    match conn.query::<Vec<Value>>(&text).await {
                        Ok(rs) => consume!(rs, consume, &o2),
                        Err(e) => o2.borrow_mut().call = Some(Err(eout(&e))),
                    }
                },
                polls.clone(),
            )
            .await;
            let ob = ob.borrow();
            tr.finish_op(op.id, start, (a, b), *polls.borrow(), &ob, r.is_none());
            tr.judge(op.id, resp, false, de, &ob, false, r.is_none());
        }
        Kind::Exec { pad, resp } => {
            let text = Text { tag: 'q', id: op.id, pad: *pad, seed }.text();
            let (start, a, b) = tr.begin(op.id);
            let o2 = ob.clone();
            let r = counted(
                op.cancel,
                async {
                    match conn.execute_query(&text).await {
                        Ok(x) => {
                            let mut o = o2.borrow_mut();
                            o.call = Some(Ok(()));
                            o.info = Some(info!(&x));
                            o.end = Some(Ok(()));
                        }
                        Err(e) => o2.borrow_mut().call = Some(Err(eout(&e))),
                    }
                },
                polls.clone(),
            )
            .await;
            let ob = ob.borrow();
            tr.finish_op(op.id, start, (a, b), *polls.borrow(), &ob, r.is_none());
            tr.judge(op.id, resp, false, de, &ob, true, r.is_none());
        }
        Kind::Cleanup => {
            let (start, a, b) = tr.begin(op.id);
            let r = counted(op.cancel, conn.cleanup(), polls.clone()).await;
            tr.look();
            let e = match &r {
                Some(Err(e)) => Some(eout(e)),
                _ => None,
            };
            let es: Vec<&EOut> = e.iter().collect();
            tr.timing(op.id, start, *polls.borrow(), (a, b), &es, r.is_none());
            let pend = std::mem::take(&mut tr.pending);
            match r {
                None => tr.taint("cleanup dropped"),
                Some(Ok(None)) => {
                    if !pend.is_empty() && tr.taint.is_none() && !matches!(pend.last(), Some(Err(_))) {
                        tr.viol(&["C01", "C06"], "cleanup-skipped", format!("cleanup found nothing although {} results were pending", pend.len()));
                    }
                }
                Some(Ok(Some(x))) => {
                    let i = info!(&x);
                    if !pend.iter().any(|p| matches!(p, Ok(y) if *y == i)) {
                        tr.viol(&["C06", "C01"], "wrong-info", format!("cleanup reported {i:?}, pending were {pend:?}"));
                    } else {
                        tr.probe("cleanup");
                    }
                }
                Some(Err(_)) => {
                    let e = e.unwrap();
                    let own = pend.iter().any(|p| matches!(p, Err(x) if is_err(e.server.as_deref(), x)));
                    if !own {
                        tr.err_ok(&e, "cleanup", op.id, &["C01"]);
                    }
                }
            }
        }
        Kind::Prepare { pad, res, runs } => {
            let text = Text { tag: 'p', id: op.id, pad: *pad, seed }.text();
            let (start, a, b) = tr.begin(op.id);
            let r = counted(op.cancel, conn.prepare_statement(&text), polls.clone()).await;
            tr.look();
            let e = match &r {
                Some(Err(e)) => Some(eout(e)),
                _ => None,
            };
            let es: Vec<&EOut> = e.iter().collect();
            tr.timing(op.id, start, *polls.borrow(), (a, b), &es, r.is_none());
            // damaged packets of the prepare reply
            let n = match res {
                Err(_) => 1,
                Ok(p) => {
                    1 + p.params as usize
                        + p.cols.len()
                        + if de { 0 } else { (p.params > 0) as usize + (!p.cols.is_empty()) as usize }
                }
            };
            let limit = w(|w| {
                w.srv.mis.iter().find(|m| m.step == op.id).map(|m| {
                    let k = m.pkt as usize % n;
                    match m.kind {
                        MisKind::Dup if k + 1 == n => usize::MAX,
                        MisKind::Dup => k + 1,
                        _ => k,
                    }
                })
            })
            .unwrap_or(usize::MAX);
            let mut stmt = match r {
                None => {
                    tr.taint(format!("call {} dropped", op.id));
                    tr.probe("cancelled-call");
                    return;
                }
                Some(Err(_)) => {
                    let e = e.unwrap();
                    match res {
                        Err(x) if is_err(e.server.as_deref(), x) => {
                            tr.probe("server-error");
                            tr.pending.clear();
                        }
                        Err(x) if tr.taint.is_none() => {
                            tr.viol(&["C06", "C01"], "server-error-lost", format!("prepare {}: refused with {} but the caller got {}", op.id, err_text(x), e.text));
                            tr.taint("lost error");
                        }
                        _ => tr.err_ok(&e, "prepare", op.id, &["C01", "C03"]),
                    }
                    return;
                }
                Some(Ok(s)) => s,
            };
            if let Err(x) = res {
                tr.viol(&["C06", "C01"], "error-as-success", format!("prepare {} succeeded although refused with {}", op.id, err_text(x)));
                tr.taint("wrong result");
                return;
            }
            if limit < n {
                tr.viol(&["C02", "C01"], "out-of-sequence-delivered", format!("prepare {} succeeded although packet {limit} of its reply is out of sequence", op.id));
            }
            tr.pending.clear();
            for run in runs {
                let ob: Ob = Default::default();
                let polls = Rc::new(RefCell::new(0u32));
                let vals: Vec<Value> = run.params.iter().map(|v| v.to_lib()).collect();
                if let Some(k) = run.wrong {
                    let v: Vec<Value> = (0..k as usize).map(|_| Value::Tiny(1)).collect();
                    if v.len() != vals.len() {
                        let (start, a, b) = tr.begin(run.id);
                        let r = if run.query.is_some() {
                            stmt.query::<_, Vec<Value>>(&v).await.err()
                        } else {
                            stmt.execute(&v).await.err()
                        };
                        let wr = w(|w| w.conns[tr.conn as usize].written);
                        let _ = (start, b);
                        match r {
                            Some(e) if eout(&e).kind == "param-count" => tr.probe("wrong-count-refused"),
                            Some(e) => {
                                tr.look();
                                if tr.taint.is_none() {
                                    tr.viol(&["C03"], "wrong-count", format!("run {}: {} values for {} parameters: {}", run.id, v.len(), vals.len(), eout(&e).text))
                                }
                            }
                            None => tr.viol(&["C03"], "wrong-count", format!("run {}: {} values for {} parameters were accepted", run.id, v.len(), vals.len())),
                        }
                        if wr != a {
                            tr.viol(&["C03"], "wrong-count", format!("run {}: a call with the wrong number of values sent {} bytes", run.id, wr - a));
                        }
                    }
                }
                let (start, a, b) = tr.begin(run.id);
                let o2 = ob.clone();
                let r = counted(
                    run.cancel,
                    async {
                        match &run.query {
                            Some(how) => match stmt.query::<_, Vec<Value>>(&vals).await {
                                Ok(rs) => consume!(rs, how, &o2),
                                Err(e) => o2.borrow_mut().call = Some(Err(eout(&e))),
                            },
                            None => match stmt.execute(&vals).await {
                                Ok(x) => {
                                    let mut o = o2.borrow_mut();
                                    o.call = Some(Ok(()));
                                    o.info = Some(info!(&x));
                                    o.end = Some(Ok(()));
                                }
                                Err(e) => o2.borrow_mut().call = Some(Err(eout(&e))),
                            },
                        }
                    },
                    polls.clone(),
                )
                .await;
                let ob = ob.borrow();
                tr.finish_op(run.id, start, (a, b), *polls.borrow(), &ob, r.is_none());
                tr.judge(run.id, &run.resp, true, de, &ob, run.query.is_none(), r.is_none());
            }
        }
        Kind::Sleep(_) | Kind::Disconnect => {}
    }
}

impl Track {
    fn finish_op(&mut self, step: u32, start: u64, before: (u64, u64), polls: u32, ob: &Obs, cancelled: bool) {
        let mut es: Vec<&EOut> = Vec::new();
        if let Some(Err(e)) = &ob.call {
            es.push(e);
        }
        if let Some(Err(e)) = &ob.end {
            es.push(e);
        }
        let _ = self.base_id;
        self.timing(step, start, polls, before, &es, cancelled);
    }
}

// ---------------------------------------------------------------- run

pub fn build_script(ops: &[Op], seed: u64, script: &mut HashMap<u32, Script>) {
    let gen = |tag: char, id: u32, pad: usize| -> Rc<dyn TextGen> { Rc::new(Text { tag, id, pad, seed }) };
    for op in ops {
        match &op.kind {
            Kind::Query { pad, resp, .. } | Kind::Exec { pad, resp } => {
                script.insert(op.id, Script::Query { text: gen('q', op.id, *pad), resp: resp.clone() });
            }
            Kind::Prepare { pad, res, runs } => {
                let res = res.clone().map(|p| PrepInfo { params: p.params, cols: p.cols, warnings: p.warnings });
                script.insert(op.id, Script::Prepare { text: gen('p', op.id, *pad), res });
                for r in runs {
                    script.insert(r.id, Script::Run { prep: op.id, params: r.params.clone(), resp: r.resp.clone() });
                }
            }
            _ => {}
        }
    }
}

pub fn run_conn(plan: &ConnPlan, trace: bool) -> Outcome {
    let mut script = HashMap::new();
    for p in &plan.parts {
        build_script(&p.ops, plan.seed, &mut script);
    }
    let sh = Rc::new(RefCell::new(Shared { steps: Vec::new(), probes: BTreeMap::new() }));
    let tasks: Vec<Task> = plan
        .parts
        .iter()
        .enumerate()
        .map(|(i, p)| Box::pin(part_task(i, p.clone(), plan.lax, sh.clone(), plan.seed)) as Task)
        .collect();
    let mut srv = Server::new(plan.seed ^ 0x5EED, plan.parts.iter().map(|p| p.login.clone()).collect(), Backend::Script(script));
    srv.mis = plan.mis.clone();
    srv.mutate = plan.mutate.clone();
    srv.raw_steps = plan.raw.iter().cloned().collect();
    let horizon = 40_000_000;
    let mem = crate::alloc::start();
    let (mut world, res) = run(
        || {
            let mut wd = World::new(plan.seed, plan.net.clone(), plan.faults.clone(), srv);
            if trace {
                wd.trace = Some(Vec::new());
            }
            wd
        },
        horizon,
        tasks,
    );
    for t in &res.stuck {
        let (conn, starved) = world
            .conns
            .iter()
            .find(|c| c.pool as usize == *t)
            .map(|c| (c.id as i64, c.read_polls_starved > 0))
            .unwrap_or((-1, false));
        let _ = starved;
        if !plan.lax {
            world.viols.push(Viol {
                props: vec!["C07".into(), "*".into()],
                class: "stuck".into(),
                msg: format!("connection {t} (transport {conn}): a call never returned"),
            });
        } else {
            world.viols.push(Viol { props: vec!["C10".into(), "C07".into()], class: "stuck".into(), msg: format!("connection {t}: a call never returned") });
        }
    }
    let mem = crate::alloc::peak(mem);
    let moved: u64 = world.conns.iter().map(|c| c.written + c.consumed).sum();
    if mem > (256 << 20) + 24 * moved {
        world.viols.push(Viol {
            props: vec!["C10".into()],
            class: "memory".into(),
            msg: format!("{} MiB of memory for {moved} bytes exchanged", mem >> 20),
        });
    }
    if plan.lax {
        world.viols.retain(|v| ["panic", "spin", "stuck", "memory"].contains(&v.class.as_str()));
    }
    let sh = sh.borrow();
    Outcome {
        hash: world.hash.0,
        polls: world.polls,
        io_polls: world.io_polls,
        time: world.max_time,
        faults: std::mem::take(&mut world.fault_counts),
        steps: sh.steps.clone(),
        trace: world.trace.take().unwrap_or_default(),
        commands: world.srv.sess.iter().map(|s| s.cmds).sum(),
        bytes: world.conns.iter().map(|c| c.written + c.consumed).sum(),
        conns: world.conns.len() as u64,
        probes: sh.probes.clone(),
        paddings: std::mem::take(&mut world.srv.seeds),
        viols: world.viols,
        points: Vec::new(),
    }
}
