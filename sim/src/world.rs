//! The simulated world of one run: clock, event queue, task executor and network.
//!
//! Everything is single threaded.  `SimStream` only carries an id; its state lives in the
//! thread-local `World`, so that the library sees a `Send + Sync` transport.
use crate::rng::{Hash, Rng};
use crate::server::Server;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::time::Instant;

// ---------------------------------------------------------------- plan parts

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct NetCfg {
    /// Fragmentation of reads/writes: 0 whole, 1 tiny, 2 small, 3 mixed, 4 large.
    pub rd: u8,
    pub wr: u8,
    /// Percentage of polls that return a spurious `Pending`.
    pub pend: u8,
    /// Maximal delay before a reply (ms).
    pub lat: u64,
    /// Percentage of packets delayed by up to `gap` ms before the header / between header and body.
    pub gap_pct: u8,
    pub gap: u64,
    /// Percentage of client frames accepted only after up to `wgap` ms.
    pub wgap_pct: u8,
    pub wgap: u64,
    /// The gaps may be anywhere, also within the body of a packet, and many.
    #[serde(default)]
    pub trickle: bool,
    /// Written bytes reach the server only after a flush.
    pub buffered: bool,
    /// Up to how long (ms) other work keeps the executor busy before a poll, now and then.
    #[serde(default)]
    pub hog: u64,
}

impl NetCfg {
    pub fn plain() -> Self {
        NetCfg { rd: 0, wr: 0, pend: 0, lat: 0, gap_pct: 0, gap: 0, wgap_pct: 0, wgap: 0, trickle: false, buffered: false, hog: 0 }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum FaultKind {
    /// Server-to-client direction.
    Eof,
    Reset,
    /// Nothing more for this many ms; `None`: for ever.
    Stall(Option<u64>),
    Corrupt(u8),
    /// Client-to-server direction.
    WriteErr,
    WriteZero,
    StallWrite(Option<u64>),
    /// Bytes from here on are accepted but never arrive.
    BlackHole,
    /// The server dies on receiving this byte: nothing of its pending output is delivered.
    ServerDeath,
    /// The server closes its side on receiving this byte, after delivering pending output.
    FlushErr,
    FlushStall(Option<u64>),
    /// While the transport is being opened.
    ConnErr,
    ConnStall(Option<u64>),
}

impl FaultKind {
    pub fn name(&self) -> &'static str {
        match self {
            FaultKind::Eof => "close",
            FaultKind::Reset => "reset",
            FaultKind::Stall(None) => "read-stall-forever",
            FaultKind::Stall(_) => "read-stall",
            FaultKind::Corrupt(_) => "corrupt-byte",
            FaultKind::WriteErr => "write-error",
            FaultKind::WriteZero => "write-zero",
            FaultKind::StallWrite(None) => "write-stall-forever",
            FaultKind::StallWrite(_) => "write-stall",
            FaultKind::BlackHole => "lost-writes",
            FaultKind::ServerDeath => "server-death",
            FaultKind::FlushErr => "flush-error",
            FaultKind::FlushStall(None) => "flush-stall-forever",
            FaultKind::FlushStall(_) => "flush-stall",
            FaultKind::ConnErr => "connect-error",
            FaultKind::ConnStall(None) => "connect-stall-forever",
            FaultKind::ConnStall(_) => "connect-stall",
        }
    }
    pub fn is_read(&self) -> bool {
        matches!(self, FaultKind::Eof | FaultKind::Reset | FaultKind::Stall(_) | FaultKind::Corrupt(_))
    }
    pub fn is_conn(&self) -> bool {
        matches!(self, FaultKind::ConnErr | FaultKind::ConnStall(_))
    }
    /// Duration of a stall that ends.
    pub fn transient(&self) -> Option<u64> {
        match self {
            FaultKind::Stall(x) | FaultKind::StallWrite(x) | FaultKind::FlushStall(x) | FaultKind::ConnStall(x) => *x,
            _ => None,
        }
    }
}

/// Armed when `step` begins on a connection; fires `off` bytes later in its direction.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Fault {
    pub step: u32,
    pub off: u64,
    pub kind: FaultKind,
}

// ---------------------------------------------------------------- world

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    /// Properties this contradicts.
    pub props: Vec<String>,
    pub class: String,
    pub msg: String,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum End {
    Open,
    Eof,
    Reset,
}

pub struct Conn {
    pub id: u32,
    pub pool: u32,
    rd: Rng,
    wr: Rng,
    inq: VecDeque<(u64, Vec<u8>, usize)>,
    last_avail: u64,
    pub sent_pkts: u64,
    slow_writes: u32,
    pub consumed: u64,
    pub written: u64,
    pub flushed: u64,
    unflushed: Vec<u8>,
    pub end: End,
    /// peer closed after the queue is drained
    fin: bool,
    armed: Vec<(bool, u64, FaultKind)>,
    stall_read: Option<Option<u64>>,
    stall_write: Option<Option<u64>>,
    stall_flush: Option<Option<u64>>,
    blackhole: bool,
    broken_write: bool,
    /// Every write accepts nothing from now on.
    zero_write: bool,
    pub step: u32,
    pub step_c2s: u64,
    pub step_s2c: u64,
    pub open: bool,
    /// (kind, when, duration if it ends by itself)
    pub fired: Vec<(&'static str, u64, Option<u64>)>,
    /// Since when the client is being held up without any progress.
    pub stalled_at: Option<u64>,
    /// Last time this transport made progress.
    pub last_progress: u64,
    // frame tracker of the written stream, for write gaps
    fr_left: usize,
    fr_head: [u8; 4],
    fr_hn: usize,
    wgap_done: bool,
    pub raw_c2s: Vec<u8>,
    pub keep_raw: bool,
    pub read_polls_starved: u64,
}

pub struct World {
    pub start: Instant,
    pub rng: Rng,
    pub net: NetCfg,
    /// End of the last time the executor was busy with something else, and how often it was.
    pub hog_end: u64,
    hogs: u32,
    pub faults: Vec<Fault>,
    pub conns: Vec<Conn>,
    pub srv: Server,
    events: BTreeMap<(u64, u64), Waker>,
    ev_seq: u64,
    pub hash: Hash,
    pub trace: Option<Vec<String>>,
    pub viols: Vec<Viol>,
    pub fault_counts: BTreeMap<String, u64>,
    pub conn_open: BTreeMap<u32, usize>,
    pub conn_max: BTreeMap<u32, usize>,
    /// The server refuses new connections while now is inside one of these windows.
    pub down: Vec<(u64, u64)>,
    pub polls: u64,
    pub poll_limit: u64,
    /// Polls since bytes moved or time passed, and that time.
    pub idle_polls: u64,
    idle_mark: u64,
    pub io_polls: u64,
    pub max_time: u64,
    /// Step of the connections being opened: 0 = the pool number, else `hint + attempts`.
    pub next_step_hint: u32,
    pub attempts: u32,
    /// Transport openings that hang, by pool: since when.
    pub opening: BTreeMap<u32, u64>,
    /// Faults that hit the opening of a transport, by pool.
    pub open_fired: BTreeMap<u32, Vec<(&'static str, u64, Option<u64>)>>,
}

thread_local! {
    static W: RefCell<Option<World>> = const { RefCell::new(None) };
}

pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    crate::alloc::lib(false, || W.with(|x| f(x.borrow_mut().as_mut().expect("no world"))))
}

/// Access to the world from where there may be none; what it allocates is not the library's.
fn off<R>(f: impl FnOnce(&RefCell<Option<World>>) -> R) -> R {
    crate::alloc::lib(false, || W.with(f))
}

/// Panic payload used to abandon a run that spins.
pub struct Spin;

pub fn now() -> u64 {
    w(|w| w.now())
}

impl World {
    pub fn new(seed: u64, net: NetCfg, faults: Vec<Fault>, srv: Server) -> World {
        World {
            start: Instant::now(),
            rng: Rng::new(seed),
            net,
            faults,
            hog_end: 0,
            hogs: 0,
            conns: Vec::new(),
            srv,
            events: BTreeMap::new(),
            ev_seq: 0,
            hash: Hash::default(),
            trace: None,
            viols: Vec::new(),
            fault_counts: BTreeMap::new(),
            conn_open: BTreeMap::new(),
            conn_max: BTreeMap::new(),
            down: Vec::new(),
            polls: 0,
            poll_limit: 300_000,
            idle_polls: 0,
            idle_mark: 0,
            io_polls: 0,
            max_time: 0,
            next_step_hint: 0,
            attempts: 0,
            opening: BTreeMap::new(),
            open_fired: BTreeMap::new(),
        }
    }
    pub fn now(&self) -> u64 {
        (Instant::now() - self.start).as_millis() as u64
    }
    pub fn viol(&mut self, props: &[&str], class: &str, msg: String) {
        if self.viols.len() < 20 {
            let m = format!("[t={}ms] {msg}", self.now());
            self.tr(|| format!("VIOLATION {class}: {m}"));
            self.viols.push(Viol {
                props: props.iter().map(|x| x.to_string()).collect(),
                class: class.into(),
                msg: m,
            });
        }
    }
    pub fn tr(&mut self, f: impl FnOnce() -> String) {
        if self.trace.is_some() {
            let s = format!("{:>7} {}", self.now(), f());
            self.trace.as_mut().unwrap().push(s);
        }
    }
    pub fn ev(&mut self, k: u64, a: u64, b: u64) {
        let n = self.now();
        self.hash.u64(k ^ a.rotate_left(16) ^ b.rotate_left(40));
        self.hash.u64(n);
    }
    pub fn at(&mut self, t: u64, waker: Waker) {
        self.ev_seq += 1;
        let n = self.ev_seq;
        self.events.insert((t, n), waker);
    }
    /// Does other work come before the next poll?
    fn hog(&mut self) -> Option<u64> {
        if self.net.hog == 0 || self.hogs >= 5 || !self.rng.pct(4) {
            return None;
        }
        self.hogs += 1;
        let ms = 1 + self.rng.below(self.net.hog);
        self.count_fault("busy-executor");
        self.ev(9, ms, 0);
        self.tr(|| format!("the executor is busy for {ms} ms"));
        Some(ms)
    }
    fn count_fault(&mut self, name: &str) {
        *self.fault_counts.entry(name.to_string()).or_default() += 1;
    }
    pub fn inject(&mut self, name: &str) {
        self.count_fault(name);
    }

    // ------------------------------------------------ connections

    pub fn open_conn(&mut self, pool: u32, step: u32) -> u32 {
        let id = self.conns.len() as u32;
        let seed = self.rng.next();
        let mut r = Rng::new(seed);
        self.conns.push(Conn {
            id,
            pool,
            rd: r.fork(1),
            wr: r.fork(2),
            inq: VecDeque::new(),
            last_avail: 0,
            sent_pkts: 0,
            slow_writes: 0,
            consumed: 0,
            written: 0,
            flushed: 0,
            unflushed: Vec::new(),
            end: End::Open,
            fin: false,
            armed: Vec::new(),
            stall_read: None,
            stall_write: None,
            stall_flush: None,
            blackhole: false,
            broken_write: false,
            zero_write: false,
            step: 0,
            step_c2s: 0,
            step_s2c: 0,
            open: true,
            fired: Vec::new(),
            stalled_at: None,
            last_progress: 0,
            fr_left: 0,
            fr_head: [0; 4],
            fr_hn: 0,
            wgap_done: false,
            raw_c2s: Vec::new(),
            keep_raw: true,
            read_polls_starved: 0,
        });
        self.step_begin(id, step);
        self.tr(|| format!("conn {id} opened (step {step})"));
        self.ev(1, id as u64, 0);
        let mut out = Vec::new();
        let mut srv = std::mem::take(&mut self.srv);
        srv.accept(id, self, &mut out);
        self.srv = srv;
        self.server_output(id, out);
        id
    }

    /// Marks the beginning of a client step on a connection and arms its faults.
    pub fn step_begin(&mut self, conn: u32, step: u32) {
        let c = &mut self.conns[conn as usize];
        c.step = step;
        c.step_c2s = c.written;
        c.step_s2c = c.consumed;
        for f in &self.faults {
            if f.step == step && !f.kind.is_conn() {
                let rd = f.kind.is_read();
                let base = if rd { c.consumed } else { c.written };
                c.armed.push((rd, base + f.off, f.kind.clone()));
            }
        }
    }

    /// No new faults from here on. Transports that would have died at their next use die now.
    pub fn settle(&mut self) {
        self.faults.clear();
        for i in 0..self.conns.len() {
            let armed = std::mem::take(&mut self.conns[i].armed);
            if !self.conns[i].open {
                continue;
            }
            for (rd, off, kind) in armed {
                let c = &mut self.conns[i];
                if rd && off <= c.consumed && matches!(kind, FaultKind::Eof | FaultKind::Reset) {
                    c.end = if kind == FaultKind::Eof { End::Eof } else { End::Reset };
                    self.fire(i as u32, &kind);
                }
            }
        }
    }

    /// (payload packets with their delays) -> queue
    pub fn server_output(&mut self, id: u32, out: Vec<(u64, Vec<u8>)>) {
        let now = self.now();
        let c = &mut self.conns[id as usize];
        for (delay, bytes) in out {
            c.sent_pkts += 1;
            // very long answers are not slowed down all the way
            let delay = if c.sent_pkts > 400 { 0 } else { delay };
            let at = c.last_avail.max(now) + delay;
            c.last_avail = at;
            if bytes.is_empty() {
                continue;
            }
            c.inq.push_back((at, bytes, 0));
        }
    }
    /// The server process of this connection dies: nothing undelivered arrives.
    pub fn server_die(&mut self, id: u32) {
        let c = &mut self.conns[id as usize];
        c.inq.clear();
        c.end = End::Reset;
        self.fire(id, &FaultKind::ServerDeath);
    }
    pub fn server_close(&mut self, id: u32) {
        self.conns[id as usize].fin = true;
    }

    /// Counts a poll; does the client keep polling without progress?
    fn idle(&mut self) -> bool {
        let n = self.now();
        if n != self.idle_mark {
            self.idle_mark = n;
            self.idle_polls = 0;
        }
        self.idle_polls += 1;
        self.idle_polls > self.poll_limit
    }

    fn feed_server(&mut self, id: u32, data: &[u8]) {
        let mut out = Vec::new();
        let mut srv = std::mem::take(&mut self.srv);
        srv.input(id, data, self, &mut out);
        self.srv = srv;
        if !out.is_empty() {
            self.server_output(id, out);
        }
    }

    fn fire(&mut self, id: u32, kind: &FaultKind) {
        let now = self.now();
        let name = kind.name();
        self.count_fault(name);
        self.tr(|| format!("conn {id} FAULT {name}"));
        self.ev(7, id as u64, name.len() as u64);
        self.conns[id as usize].fired.push((name, now, kind.transient()));
    }

    fn poll_read(&mut self, id: u32, cx: &mut Context, buf: &mut ReadBuf) -> Poll<io::Result<()>> {
        self.io_polls += 1;
        let now = self.now();
        let i = id as usize;
        // faults whose offset has been reached
        loop {
            let c = &mut self.conns[i];
            let pos = c.consumed;
            let Some(k) = c.armed.iter().position(|(rd, off, k)| *rd && *off <= pos && !matches!(k, FaultKind::Corrupt(_)))
            else {
                break;
            };
            let (_, _, kind) = c.armed.remove(k);
            match &kind {
                FaultKind::Eof => c.end = End::Eof,
                FaultKind::Reset => c.end = End::Reset,
                FaultKind::Stall(ms) => c.stall_read = Some(ms.map(|m| now + m)),
                _ => unreachable!(),
            }
            self.fire(id, &kind);
        }
        let c = &mut self.conns[i];
        match c.end {
            End::Eof => return Poll::Ready(Ok(())),
            End::Reset => return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())),
            End::Open => {}
        }
        match c.stall_read {
            Some(None) => {
                c.stalled_at.get_or_insert(now);
                return Poll::Pending;
            }
            Some(Some(t)) if now < t => {
                c.stalled_at.get_or_insert(now);
                let w = cx.waker().clone();
                self.at(t, w);
                return Poll::Pending;
            }
            _ => c.stall_read = None,
        }
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        if self.net.pend > 0 && c.rd.pct(self.net.pend as u64) {
            let late = c.rd.pct(10);
            if late {
                let w = cx.waker().clone();
                self.at(now + 1, w);
            } else {
                cx.waker().wake_by_ref();
            }
            return Poll::Pending;
        }
        let Some((at, data, pos)) = c.inq.front_mut() else {
            if c.fin {
                return Poll::Ready(Ok(()));
            }
            // nothing to come unless the client writes something
            c.read_polls_starved += 1;
            c.stalled_at.get_or_insert(now);
            return Poll::Pending;
        };
        if *at > now {
            c.stalled_at.get_or_insert(now);
            let (t, w) = (*at, cx.waker().clone());
            self.at(t, w);
            return Poll::Pending;
        }
        c.stalled_at = None;
        let avail = data.len() - *pos;
        let mut n = avail.min(buf.remaining());
        n = frag(&mut c.rd, self.net.rd, n);
        if let Some(off) = c.armed.iter().filter(|x| x.0 && x.1 > c.consumed).map(|x| x.1).min() {
            n = n.min((off - c.consumed) as usize);
        }
        let cor = c.armed.iter().position(|(rd, off, k)| *rd && *off <= c.consumed && matches!(k, FaultKind::Corrupt(_)));
        if let Some(k) = cor {
            let (_, _, kind) = c.armed.remove(k);
            let FaultKind::Corrupt(x) = kind else { unreachable!() };
            buf.put_slice(&[data[*pos] ^ x]);
            *pos += 1;
            if *pos == data.len() {
                c.inq.pop_front();
            }
            c.consumed += 1;
            c.last_progress = now;
            self.fire(id, &FaultKind::Corrupt(x));
            return Poll::Ready(Ok(()));
        }
        buf.put_slice(&data[*pos..*pos + n]);
        *pos += n;
        if *pos == data.len() {
            c.inq.pop_front();
        }
        c.consumed += n as u64;
        c.last_progress = now;
        self.ev(2, id as u64, n as u64);
        self.idle_polls = 0;
        Poll::Ready(Ok(()))
    }

    fn poll_write(&mut self, id: u32, cx: &mut Context, data: &[u8]) -> Poll<io::Result<usize>> {
        self.io_polls += 1;
        let now = self.now();
        let i = id as usize;
        loop {
            let c = &mut self.conns[i];
            let pos = c.written;
            let Some(k) = c.armed.iter().position(|(rd, off, k)| {
                !*rd && *off <= pos && !matches!(k, FaultKind::FlushErr | FaultKind::FlushStall(_))
            }) else {
                break;
            };
            let (_, _, kind) = c.armed.remove(k);
            self.fire(id, &kind);
            let c = &mut self.conns[i];
            match &kind {
                FaultKind::WriteErr => c.broken_write = true,
                FaultKind::WriteZero => c.zero_write = true,
                FaultKind::StallWrite(ms) => {
                    c.stall_write = Some(ms.map(|m| now + m));
                    c.wgap_done = true;
                }
                FaultKind::BlackHole => c.blackhole = true,
                FaultKind::ServerDeath => {
                    c.end = End::Reset;
                    c.inq.clear();
                }
                _ => unreachable!(),
            }
        }
        let c = &mut self.conns[i];
        if c.zero_write && !data.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if c.broken_write || c.end == End::Reset {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        match c.stall_write {
            Some(None) => {
                c.stalled_at.get_or_insert(now);
                return Poll::Pending;
            }
            Some(Some(t)) if now < t => {
                c.stalled_at.get_or_insert(now);
                let w = cx.waker().clone();
                self.at(t, w);
                return Poll::Pending;
            }
            _ => c.stall_write = None,
        }
        if data.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if self.net.pend > 0 && c.wr.pct(self.net.pend as u64) {
            if c.wr.pct(10) {
                let w = cx.waker().clone();
                self.at(now + 1, w);
            } else {
                cx.waker().wake_by_ref();
            }
            return Poll::Pending;
        }
        if (self.net.trickle || c.fr_hn == 0 && c.fr_left == 0) && !c.wgap_done && self.net.wgap_pct > 0 {
            c.wgap_done = true;
            c.slow_writes += 1;
            if c.slow_writes < 200 && c.wr.pct(self.net.wgap_pct as u64) {
                let t = now + c.wr.below(self.net.wgap + 1);
                let w = cx.waker().clone();
                self.at(t, w);
                *self.fault_counts.entry("slow-write".into()).or_default() += 1;
                self.conns[i].stalled_at.get_or_insert(now);
                self.conns[i].stall_write = Some(Some(t));
                return Poll::Pending;
            }
        }
        c.stalled_at = None;
        let mut n = frag(&mut c.wr, self.net.wr, data.len());
        if let Some(off) = c.armed.iter().filter(|x| !x.0 && x.1 > c.written).map(|x| x.1).min() {
            n = n.min((off - c.written) as usize);
        }
        // frame tracker
        let mut k = 0;
        while k < n {
            if c.fr_left > 0 {
                let t = c.fr_left.min(n - k);
                c.fr_left -= t;
                k += t;
            } else {
                c.fr_head[c.fr_hn] = data[k];
                c.fr_hn += 1;
                k += 1;
                if c.fr_hn == 4 {
                    c.fr_left = u32::from_le_bytes([c.fr_head[0], c.fr_head[1], c.fr_head[2], 0]) as usize;
                    c.fr_hn = 0;
                }
            }
            if c.fr_hn == 0 && c.fr_left == 0 {
                c.wgap_done = false;
            }
        }
        if self.net.trickle {
            c.wgap_done = false;
        }
        c.written += n as u64;
        c.last_progress = now;
        self.idle_polls = 0;
        let c = &mut self.conns[i];
        let dead = c.blackhole || c.end != End::Open;
        if c.keep_raw {
            c.raw_c2s.extend_from_slice(&data[..n]);
        }
        self.ev(3, id as u64, n as u64);
        self.hash.bulk(&data[..n]);
        if dead {
            return Poll::Ready(Ok(n));
        }
        if self.net.buffered {
            self.conns[i].unflushed.extend_from_slice(&data[..n]);
        } else {
            self.conns[i].flushed += n as u64;
            self.feed_server(id, &data[..n]);
        }
        Poll::Ready(Ok(n))
    }

    fn poll_flush(&mut self, id: u32, cx: &mut Context) -> Poll<io::Result<()>> {
        self.io_polls += 1;
        let now = self.now();
        let i = id as usize;
        loop {
            let c = &mut self.conns[i];
            let pos = c.written;
            let Some(k) = c
                .armed
                .iter()
                .position(|(rd, off, k)| !*rd && *off <= pos && matches!(k, FaultKind::FlushErr | FaultKind::FlushStall(_)))
            else {
                break;
            };
            let (_, _, kind) = c.armed.remove(k);
            self.fire(id, &kind);
            let c = &mut self.conns[i];
            match &kind {
                FaultKind::FlushErr => c.broken_write = true,
                FaultKind::FlushStall(ms) => c.stall_flush = Some(ms.map(|m| now + m)),
                _ => unreachable!(),
            }
        }
        let c = &mut self.conns[i];
        if c.broken_write || c.end == End::Reset {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        match c.stall_flush {
            Some(None) => {
                c.stalled_at.get_or_insert(now);
                return Poll::Pending;
            }
            Some(Some(t)) if now < t => {
                c.stalled_at.get_or_insert(now);
                let w = cx.waker().clone();
                self.at(t, w);
                return Poll::Pending;
            }
            Some(_) => {
                c.stall_flush = None;
                c.last_progress = now;
            }
            None => {}
        }
        if self.net.pend > 0 && c.wr.pct(self.net.pend as u64) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        c.stalled_at = None;
        let data = std::mem::take(&mut c.unflushed);
        self.ev(4, id as u64, data.len() as u64);
        if !data.is_empty() {
            self.conns[i].flushed += data.len() as u64;
            self.conns[i].last_progress = now;
            if !self.conns[i].blackhole && self.conns[i].end == End::Open {
                self.feed_server(id, &data);
            }
        }
        Poll::Ready(Ok(()))
    }

    fn drop_stream(&mut self, id: u32) {
        let c = &mut self.conns[id as usize];
        c.open = false;
        let pool = c.pool;
        *self.conn_open.entry(pool).or_default() -= 1;
        self.tr(|| format!("conn {id} dropped by the client"));
        self.ev(5, id as u64, 0);
        let mut srv = std::mem::take(&mut self.srv);
        srv.hangup(id, self);
        self.srv = srv;
    }
}

fn frag(r: &mut Rng, mode: u8, n: usize) -> usize {
    if n <= 1 {
        return n;
    }
    let k = match mode {
        0 => n,
        1 => 1 + r.usize(3),
        2 => 1 + r.usize(64),
        3 => match r.below(4) {
            0 => 1,
            1 => 1 + r.usize(8),
            2 => 1 + r.usize(n),
            _ => n,
        },
        _ => 4096 + r.usize(256 * 1024),
    };
    k.max(n / 100).min(n)
}

// ---------------------------------------------------------------- streams

#[derive(Debug)]
pub struct SimStream<const SECURE: bool> {
    id: u32,
}

#[derive(Debug, Default)]
pub struct SimOptions {
    pub pool: u32,
}

impl<const SECURE: bool> mysql_connector::Stream for SimStream<SECURE> {
    const SECURE: bool = SECURE;
    type Options = SimOptions;
    async fn connect(o: &SimOptions) -> Result<Self, io::Error> {
        let (step, refused, hold) = w(|w| {
            let n = w.now();
            let k = w.attempts;
            w.attempts += 1;
            let step = if w.next_step_hint == 0 { o.pool } else { w.next_step_hint + k };
            let mut d = w.down.iter().any(|(a, b)| n >= *a && n < *b);
            if d {
                w.count_fault("connect-refused");
            }
            let mut hold = if w.net.lat > 0 && w.rng.pct(30) { Some(w.rng.below(w.net.lat.min(200) + 1)) } else { Some(0) };
            let fs: Vec<FaultKind> =
                w.faults.iter().filter(|f| f.step == step && f.kind.is_conn()).map(|f| f.kind.clone()).collect();
            for f in fs {
                w.count_fault(f.name());
                w.open_fired.entry(o.pool).or_default().push((f.name(), n, f.transient()));
                match f {
                    FaultKind::ConnErr => d = true,
                    FaultKind::ConnStall(x) => hold = x,
                    _ => {}
                }
            }
            *w.conn_open.entry(o.pool).or_default() += 1;
            let n = w.conn_open[&o.pool];
            let m = w.conn_max.entry(o.pool).or_default();
            *m = (*m).max(n);
            (step, d, hold)
        });
        let guard = Opening(o.pool);
        match hold {
            None => {
                w(|w| {
                    let n = w.now();
                    w.opening.insert(o.pool, n)
                });
                std::future::pending::<()>().await;
            }
            Some(0) => {}
            Some(d) => {
                w(|w| {
                    let n = w.now();
                    w.opening.insert(o.pool, n)
                });
                sleep(d).await;
                w(|w| w.opening.remove(&o.pool));
            }
        }
        if refused {
            return Err(io::ErrorKind::ConnectionRefused.into());
        }
        let id = w(|w| w.open_conn(o.pool, step));
        std::mem::forget(guard);
        Ok(SimStream { id })
    }
}

/// A transport being opened counts as one of its pool's connections.
struct Opening(u32);
impl Drop for Opening {
    fn drop(&mut self) {
        off(|x| {
            if let Some(w) = x.borrow_mut().as_mut() {
                *w.conn_open.entry(self.0).or_default() -= 1;
                w.opening.remove(&self.0);
            }
        })
    }
}

impl<const S: bool> Drop for SimStream<S> {
    fn drop(&mut self) {
        off(|x| {
            if let Some(w) = x.borrow_mut().as_mut() {
                w.drop_stream(self.id)
            }
        })
    }
}

impl<const S: bool> AsyncRead for SimStream<S> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        check_spin();
        w(|w| w.poll_read(self.id, cx, buf))
    }
}

impl<const S: bool> AsyncWrite for SimStream<S> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        check_spin();
        w(|w| w.poll_write(self.id, cx, buf))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        check_spin();
        w(|w| w.poll_flush(self.id, cx))
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_flush(cx)
    }
}

fn check_spin() {
    if w(|w| w.idle()) {
        std::panic::panic_any(Spin);
    }
}

/// Sleep on the simulated clock, through the world's event queue.
pub struct SimSleep(Option<u64>, u64, bool);
pub fn sleep(ms: u64) -> SimSleep {
    SimSleep(None, ms, false)
}
impl Future for SimSleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        w(|w| {
            let n = w.now();
            let ms = self.1;
            let t = *self.0.get_or_insert(n + ms);
            if n >= t {
                Poll::Ready(())
            } else {
                let wk = cx.waker().clone();
                w.at(t, wk);
                Poll::Pending
            }
        })
    }
}

/// `ConnectionOptions::sleep` seam (build without the library's `time` feature).
#[allow(dead_code)]
pub fn lib_sleep(d: std::time::Duration) -> mysql_connector::TimeoutFuture {
    let ms = d.as_millis() as u64;
    let t = w(|w| w.now() + ms);
    Box::pin(SimSleep(Some(t), ms, false))
}

// ---------------------------------------------------------------- executor

struct Shared {
    ready: Vec<usize>,
    root: Option<Waker>,
}
struct TaskWake {
    id: usize,
    sh: Arc<Mutex<Shared>>,
}
impl Wake for TaskWake {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let mut s = self.sh.lock().unwrap();
        if !s.ready.contains(&self.id) {
            crate::alloc::lib(false, || s.ready.push(self.id));
        }
        if let Some(r) = s.root.take() {
            r.wake();
        }
    }
}

pub type Task = Pin<Box<dyn Future<Output = ()>>>;

#[derive(Debug, Default)]
pub struct ExecResult {
    /// Tasks that had not finished when nothing could make progress any more (or at the horizon).
    pub stuck: Vec<usize>,
    pub spin: bool,
}

/// Runs `tasks` to completion under the world's seeded scheduler. The world must be built by
/// `mk` inside the runtime (it samples the paused clock).
pub fn run(mk: impl FnOnce() -> World, horizon: u64, tasks: Vec<Task>) -> (World, ExecResult) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let sh = Arc::new(Mutex::new(Shared { ready: (0..tasks.len()).collect(), root: None }));
    let wakers: Vec<Waker> = (0..tasks.len()).map(|id| Waker::from(Arc::new(TaskWake { id, sh: sh.clone() }))).collect();
    let mut res = ExecResult::default();
    let mut slots: Vec<Option<Task>> = tasks.into_iter().map(Some).collect();
    {
        let _g = rt.enter();
        W.with(|x| *x.borrow_mut() = Some(mk()));
    }
    let body = std::panic::AssertUnwindSafe(|| {
        rt.block_on(tokio::task::unconstrained(Root {
            sh: sh.clone(),
            wakers,
            slots: &mut slots,
            horizon,
            sleep: None,
            hog: None,
            res: &mut res,
        }))
    });
    let out = std::panic::catch_unwind(body);
    let _g = rt.enter();
    let mut spin = false;
    if let Err(p) = out {
        if p.is::<Spin>() {
            spin = true;
        } else {
            let m = crate::last_panic();
            w(|w| w.viol(ALL, "panic", format!("the client panicked: {m}")));
        }
    }
    // a panic while dropping is caught too
    let d = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| slots.clear()));
    if d.is_err() {
        let m = crate::last_panic();
        w(|w| w.viol(ALL, "panic", format!("panic while dropping: {m}")));
    }
    res.spin |= spin;
    if res.spin {
        w(|w| w.viol(ALL, "spin", "the client keeps polling without progress".into()));
    }
    let t = w(|w| w.now());
    let mut world = W.with(|x| x.borrow_mut().take()).unwrap();
    world.max_time = t;
    (world, res)
}

/// Violations that contradict whatever property is being looked at.
pub const ALL: &[&str] = &["*"];

struct Root<'a> {
    sh: Arc<Mutex<Shared>>,
    wakers: Vec<Waker>,
    slots: &'a mut Vec<Option<Task>>,
    horizon: u64,
    sleep: Option<Pin<Box<tokio::time::Sleep>>>,
    /// The executor is busy with other work.
    hog: Option<Pin<Box<dyn Future<Output = ()>>>>,
    res: &'a mut ExecResult,
}

impl Future for Root<'_> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let this = &mut *self;
        let mut burst = 0u64;
        if let Some(h) = &mut this.hog {
            if h.as_mut().poll(cx).is_pending() {
                return Poll::Pending;
            }
            this.hog = None;
            w(|w| w.hog_end = w.now());
        }
        loop {
            if this.slots.iter().all(|x| x.is_none()) {
                return Poll::Ready(());
            }
            // due events become wake-ups
            let due: Vec<Waker> = w(|w| {
                let n = w.now();
                let rest = w.events.split_off(&(n + 1, 0));
                let due = std::mem::replace(&mut w.events, rest);
                due.into_values().collect()
            });
            for d in due {
                d.wake();
            }
            let pick = {
                let mut s = this.sh.lock().unwrap();
                s.root = None;
                if s.ready.is_empty() {
                    None
                } else {
                    let n = s.ready.len();
                    let k = if n == 1 { 0 } else { w(|w| w.rng.usize(n)) };
                    Some(s.ready.swap_remove(k))
                }
            };
            match pick {
                Some(id) => {
                    if let Some(ms) = w(|w| w.hog()) {
                        this.sh.lock().unwrap().ready.push(id);
                        let mut h = Box::pin(tokio::time::advance(std::time::Duration::from_millis(ms)));
                        assert!(h.as_mut().poll(cx).is_pending());
                        this.hog = Some(h);
                        return Poll::Pending;
                    }
                    burst += 1;
                    let spin = w(|w| {
                        w.polls += 1;
                        w.ev(6, id as u64, 0);
                        w.idle()
                    });
                    if spin || burst > 100_000_000 {
                        this.res.spin = true;
                        return Poll::Ready(());
                    }
                    if let Some(mut t) = this.slots[id].take() {
                        let mut c = Context::from_waker(&this.wakers[id]);
                        if t.as_mut().poll(&mut c).is_pending() {
                            this.slots[id] = Some(t);
                        }
                    }
                }
                None => {
                    let (n, next) = w(|w| (w.now(), w.events.keys().next().map(|k| k.0)));
                    if n >= this.horizon {
                        this.res.stuck =
                            this.slots.iter().enumerate().filter(|x| x.1.is_some()).map(|x| x.0).collect();
                        return Poll::Ready(());
                    }
                    let t = next.unwrap_or(u64::MAX).min(this.horizon);
                    let at = w(|w| w.start) + std::time::Duration::from_millis(t);
                    this.sh.lock().unwrap().root = Some(cx.waker().clone());
                    let mut s = Box::pin(tokio::time::sleep_until(at));
                    if s.as_mut().poll(cx).is_ready() {
                        continue;
                    }
                    this.sleep = Some(s);
                    return Poll::Pending;
                }
            }
        }
    }
}

/// Drops `fut` after its `k`-th `Pending`.
pub async fn cancel_after<T>(k: Option<u32>, fut: impl Future<Output = T>) -> Option<T> {
    let mut fut = Box::pin(fut);
    let mut n = 0;
    std::future::poll_fn(move |cx| match fut.as_mut().poll(cx) {
        Poll::Ready(x) => Poll::Ready(Some(x)),
        Poll::Pending => {
            n += 1;
            match k {
                Some(k) if n >= k => Poll::Ready(None),
                _ => Poll::Pending,
            }
        }
    })
    .await
}
