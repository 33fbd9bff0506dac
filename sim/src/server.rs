//! Simulated MySQL server: one strict protocol state machine per connection.
use crate::crypto;
use crate::engine::Engine;
use crate::rng::Rng;
use crate::val::*;
use crate::wire::{self, *};
use crate::world::World;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Plug {
    Native,
    Sha2,
    Clear,
}
impl Plug {
    pub fn name(self) -> &'static str {
        match self {
            Plug::Native => "mysql_native_password",
            Plug::Sha2 => "caching_sha2_password",
            Plug::Clear => "mysql_clear_password",
        }
    }
    pub fn parse(s: &[u8]) -> Option<Plug> {
        [Plug::Native, Plug::Sha2, Plug::Clear].into_iter().find(|p| p.name().as_bytes() == s)
    }
    pub fn lib(self) -> mysql_connector::types::AuthPlugin {
        use mysql_connector::types::AuthPlugin as A;
        match self {
            Plug::Native => A::Native,
            Plug::Sha2 => A::Sha2,
            Plug::Clear => A::Clear,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Host {
    Switch { plugin: String, nonce: Vec<u8>, nul: bool },
    FastOk,
    FullAuth,
    Key(u8),
    Ok,
    Err,
    Raw(Vec<u8>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct LoginCfg {
    // server
    pub version: String,
    pub expect_version: (u16, u16, u16),
    pub mariadb: bool,
    pub caps: u32,
    pub offered: String,
    pub account: Plug,
    pub account_password: String,
    pub cached: bool,
    pub key: u8,
    pub pkcs8: bool,
    /// (stage, error): 0 greeting, 1 handshake response, 2 after a switch, 3 instead of the key,
    /// 4 final, 5 after fast-auth-ok
    pub refuse: Option<(u8, ErrSpec)>,
    pub conn_id: u32,
    pub settings: Option<u64>,
    pub ok: OkSpec,
    pub hostile: Option<Vec<Vec<Host>>>,
    /// raw greeting payload instead of a valid one
    pub raw_greeting: Option<Vec<u8>>,
    /// send the nonce terminator as in MySQL (else MariaDB-style without plugin name NUL)
    pub plugin_nul: bool,
    /// more bytes of challenge data than anybody uses
    #[serde(default)]
    pub pad: u8,
    /// added to the default collation and status of the greeting
    #[serde(default)]
    pub greet: u32,
    // client
    pub user: String,
    pub password: String,
    pub db: Option<String>,
    pub pinned: Option<Plug>,
    pub allow_clear: bool,
    pub preset_key: bool,
    pub max_packet: Option<usize>,
    pub timeout: u64,
    pub secure: bool,
}

pub const BASE_CAPS: u32 = CAP_LONG_PASSWORD
    | CAP_CONNECT_WITH_DB
    | CAP_PROTOCOL_41
    | CAP_TRANSACTIONS
    | CAP_SECURE
    | CAP_PS_MULTI
    | CAP_PLUGIN_AUTH
    | CAP_DEPRECATE_EOF;

impl LoginCfg {
    /// Ordinary native-password login.
    pub fn simple() -> Self {
        LoginCfg {
            version: "8.0.36".into(),
            expect_version: (8, 0, 36),
            mariadb: false,
            caps: BASE_CAPS,
            offered: Plug::Native.name().into(),
            account: Plug::Native,
            account_password: "pw".into(),
            cached: true,
            key: 0,
            pkcs8: true,
            refuse: None,
            conn_id: 7,
            settings: Some(1 << 22),
            ok: OkSpec::plain(),
            hostile: None,
            raw_greeting: None,
            plugin_nul: true,
            pad: 0,
            greet: 0,
            user: "u".into(),
            password: "pw".into(),
            db: None,
            pinned: None,
            allow_clear: false,
            preset_key: false,
            max_packet: Some(1 << 22),
            timeout: 10_000,
            secure: false,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum MisKind {
    BadSeq(u8),
    Drop,
    Dup,
}
/// Misbehaviour of the server/transport at packet granularity.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Mis {
    pub step: u32,
    pub pkt: u32,
    pub kind: MisKind,
}

#[derive(Clone, Debug)]
pub struct PrepInfo {
    pub params: u16,
    pub cols: Rc<Vec<ColSpec>>,
    pub warnings: u16,
}

/// What the scripted backend answers, by step id.
#[derive(Clone, Debug)]
pub enum Script {
    Query { text: Rc<dyn TextGen>, resp: Rc<Resp> },
    Prepare { text: Rc<dyn TextGen>, res: Result<PrepInfo, ErrSpec> },
    Run { prep: u32, params: Rc<Vec<Val>>, resp: Rc<Resp> },
}
pub trait TextGen: std::fmt::Debug {
    fn text(&self) -> String;
}

#[derive(Default)]
pub enum Backend {
    #[default]
    None,
    Script(HashMap<u32, Script>),
    Sql(Box<Engine>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Seen {
    LoginOk,
    LoginErr,
    Query(u32),
    Prepare(u32),
    Run(u32),
    Long(u32),
    Quit,
    Hangup,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Phase {
    WaitResp,
    WaitSwitch(Plug),
    WaitPassword,
    WaitRsa,
    Hostile(usize),
    Cmd,
    Dead,
}

struct Stmt {
    step: u32,
    params: usize,
    sql: String,
    long: BTreeMap<usize, Vec<u8>>,
    types: Vec<(u8, bool)>,
}

pub struct Session {
    pub cfg: Rc<LoginCfg>,
    pub phase: Phase,
    inbuf: Vec<u8>,
    pos: usize,
    packet: Vec<u8>,
    in_packet: bool,
    seq: u8,
    pub caps: u32,
    pub nonces: Vec<Vec<u8>>,
    stmts: HashMap<u32, Stmt>,
    active: Option<Plug>,
    pub key_sent: bool,
    pub conn_id: u32,
    pub login_ok: bool,
    /// Something was sent that can be read as the acceptance of the login.
    pub accepted: bool,
    pub login_err: Option<ErrSpec>,
    pub resp_caps: u32,
    pub login_c2s: u64,
    pub secret_ok: bool,
    pub replies: u64,
    pub mis_hit: Vec<u32>,
    /// Step the last packet was sent in and how many packets were sent in it.
    pub sent: (u32, u32, u32),
    pub dead_sent: bool,
    pub user_seen: Option<(String, Option<String>)>,
    pub cmds: u64,
}

/// A packet of the server whose payload is damaged (hostile bytes).
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Mutate {
    pub step: u32,
    /// How many packets of the step precede it; from `BINARY` on, how many of those whose first
    /// byte is 0, as that of a row in the binary format.
    pub pkt: u32,
    pub seed: u64,
}

pub const BINARY: u32 = 1000;
const EVIL: [u8; 16] = [0, 1, 2, 3, 4, 8, 0x3A, 0x7F, 0x80, 0xFA, 0xFB, 0xFC, 0xFD, 0xFE, 0xFE, 0xFF];

pub fn mutate(p: &[u8], seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut v = p.to_vec();
    for _ in 0..1 + (r.below(3) == 0) as usize * r.usize(4) {
        let at = |r: &mut Rng, n: usize| -> usize {
            if r.pct(40) {
                r.usize(n.clamp(1, 6))
            } else {
                r.usize(n.max(1))
            }
        };
        match r.below(14) {
            0 | 1 if !v.is_empty() => {
                let i = at(&mut r, v.len());
                v[i] ^= 1 << r.below(8);
            }
            2..=4 if !v.is_empty() => {
                let i = at(&mut r, v.len());
                v[i] = *r.pick(&EVIL);
            }
            5 | 6 => {
                let n = match r.below(10) {
                    0..=3 => r.usize(v.len().min(8) + 1),
                    4..=6 => v.len() - r.usize(v.len().min(12) + 1),
                    _ => r.usize(v.len() + 1),
                };
                v.truncate(n);
            }
            7 => {
                let n = 1 + r.log(600) as usize;
                let b = r.bytes(n);
                v.extend(b);
            }
            8 => {
                // a length prefix
                let i = at(&mut r, v.len() + 1);
                let mut b = match r.below(3) {
                    0 => vec![0xFC],
                    1 => vec![0xFD],
                    _ => vec![0xFE],
                };
                let n = [2, 3, 8][(b[0] - 0xFC) as usize];
                if r.bool() {
                    b.extend(vec![0xFF; n]);
                } else {
                    let x = r.log(1 << 40);
                    b.extend(&x.to_le_bytes()[..n]);
                }
                if r.bool() {
                    let e = (i + 1).min(v.len());
                    let i = i.min(v.len());
                    v.splice(i..e, b);
                } else {
                    let i = i.min(v.len());
                    v.splice(i..i, b);
                }
            }
            9 if !v.is_empty() => {
                let i = at(&mut r, v.len());
                let n = 1 + r.usize(4);
                let e = (i + n).min(v.len());
                v.drain(i..e);
            }
            10 => {
                let i = r.usize(v.len() + 1);
                let n = 1 + r.usize(8);
                let b = r.bytes(n);
                v.splice(i..i, b);
            }
            11 => v.clear(),
            12 => {
                let n = r.log(60) as usize;
                v = r.bytes(n);
                if !v.is_empty() {
                    v[0] = *r.pick(&EVIL);
                }
            }
            _ if !v.is_empty() => {
                let i = at(&mut r, v.len());
                let e = (i + 1 + r.usize(8)).min(v.len());
                let x = *r.pick(&EVIL);
                v[i..e].fill(x);
            }
            _ => v.push(*r.pick(&EVIL)),
        }
    }
    v
}

#[derive(Default)]
pub struct Server {
    pub logins: Vec<Rc<LoginCfg>>,
    pub sess: Vec<Session>,
    pub backend: Backend,
    pub journal: Vec<(u32, Seen)>,
    pub rng: Option<Rng>,
    pub mis: Vec<Mis>,
    pub mutate: Vec<Mutate>,
    /// After this many commands over all connections the server answers every command with this
    /// raw payload sequence (hostile byte streams).
    pub raw_steps: HashMap<u32, Vec<u8>>,
    pub login_ids: u32,
    /// Padding seeds of the encrypted passwords received.
    pub seeds: Vec<Vec<u8>>,
}

type Out = Vec<(u64, Vec<u8>)>;

impl Server {
    pub fn new(seed: u64, logins: Vec<LoginCfg>, backend: Backend) -> Self {
        Server {
            logins: logins.into_iter().map(Rc::new).collect(),
            backend,
            rng: Some(Rng::new(seed)),
            ..Default::default()
        }
    }
    fn r(&mut self) -> &mut Rng {
        self.rng.as_mut().unwrap()
    }
    fn nonce(&mut self) -> Vec<u8> {
        let r = self.r();
        (0..20).map(|_| 1 + r.below(255) as u8).collect()
    }

    pub fn accept(&mut self, id: u32, w: &mut World, out: &mut Out) {
        let cfg = self.logins[w.conns[id as usize].pool as usize % self.logins.len()].clone();
        let nonce = self.nonce();
        let conn_id = cfg.conn_id.wrapping_add(id);
        self.sess.push(Session {
            phase: Phase::WaitResp,
            inbuf: Vec::new(),
            pos: 0,
            packet: Vec::new(),
            in_packet: false,
            seq: 0,
            caps: 0,
            nonces: vec![nonce.clone()],
            stmts: HashMap::new(),
            active: None,
            key_sent: false,
            conn_id,
            login_ok: false,
            accepted: false,
            login_err: None,
            resp_caps: 0,
            login_c2s: 0,
            secret_ok: true,
            replies: 0,
            mis_hit: Vec::new(),
            sent: (u32::MAX, 0, 0),
            dead_sent: false,
            user_seen: None,
            cmds: 0,
            cfg: cfg.clone(),
        });
        if let Some((0, e)) = &cfg.refuse {
            self.sess[id as usize].login_err = Some(e.clone());
            self.sess[id as usize].phase = Phase::Dead;
            self.journal.push((id, Seen::LoginErr));
            self.send(id, &err_packet(e), w, out);
            w.server_close(id);
            return;
        }
        if let Some(raw) = &cfg.raw_greeting {
            self.send(id, raw, w, out);
            return;
        }
        let mut b = vec![10];
        b.extend_from_slice(cfg.version.as_bytes());
        b.push(0);
        b.extend_from_slice(&conn_id.to_le_bytes());
        b.extend_from_slice(&nonce[..8]);
        b.push(0);
        b.extend_from_slice(&(cfg.caps as u16).to_le_bytes());
        b.push(45u8.wrapping_add(cfg.greet as u8));
        b.extend_from_slice(&(2 ^ (cfg.greet >> 8) as u16).to_le_bytes());
        b.extend_from_slice(&((cfg.caps >> 16) as u16).to_le_bytes());
        b.push(if cfg.caps & CAP_PLUGIN_AUTH != 0 { 21 + cfg.pad } else { 0 });
        b.extend_from_slice(&[0; 6]);
        // capabilities of MariaDB only
        b.extend_from_slice(&if cfg.mariadb { (conn_id ^ 0x1d).to_le_bytes() } else { [0; 4] });
        b.extend_from_slice(&nonce[8..]);
        b.push(0);
        if cfg.caps & CAP_PLUGIN_AUTH != 0 {
            b.resize(b.len() + cfg.pad as usize, (cfg.greet >> 24) as u8);
        }
        if cfg.caps & CAP_PLUGIN_AUTH != 0 {
            b.extend_from_slice(cfg.offered.as_bytes());
            if cfg.plugin_nul {
                b.push(0);
            }
        }
        self.send(id, &b, w, out);
    }

    pub fn hangup(&mut self, id: u32, _w: &mut World) {
        self.journal.push((id, Seen::Hangup));
        self.sess[id as usize].phase = Phase::Dead;
    }

    fn send(&mut self, id: u32, payload: &[u8], w: &mut World, out: &mut Out) {
        self.send_seq(id, payload, w, out, true)
    }

    fn send_seq(&mut self, id: u32, payload: &[u8], w: &mut World, out: &mut Out, first: bool) {
        let mut mutated = Vec::new();
        let payload = if self.mutate.is_empty() {
            payload
        } else {
            let step = w.conns[id as usize].step;
            let s = &mut self.sess[id as usize];
            if s.sent.0 != step {
                s.sent = (step, 0, 0);
            }
            let k = s.sent.1;
            s.sent.1 += 1;
            let zero = payload.first() == Some(&0);
            let z = BINARY + s.sent.2;
            s.sent.2 += zero as u32;
            match self.mutate.iter().find(|m| m.step == step && (m.pkt == k || zero && m.pkt == z)) {
                Some(m) => {
                    w.inject("hostile-packet");
                    mutated.extend(mutate(payload, m.seed));
                    &mutated
                }
                None => payload,
            }
        };
        let net = &w.net;
        let s = &mut self.sess[id as usize];
        s.accepted |= payload.first() == Some(&0);
        let mut fr = Vec::with_capacity(payload.len() + 4);
        frame(&mut fr, &mut s.seq, payload);
        let r = self.rng.as_mut().unwrap();
        let lat = if first && net.lat > 0 { r.below(net.lat + 1) } else { 0 };
        let mut gap = |fired: &mut u64| {
            if net.gap_pct > 0 && r.pct(net.gap_pct as u64) {
                *fired += 1;
                r.below(net.gap + 1)
            } else {
                0
            }
        };
        let mut fired = 0;
        let d1 = lat.max(gap(&mut fired));
        let d2 = gap(&mut fired);
        if net.trickle && gap(&mut fired) > 0 {
            // pauses at any byte
            let mut cut: Vec<usize> = vec![1, 2, 3, 4, 5, 6, fr.len() / 4, fr.len() / 2, fr.len() / 2 + 1, fr.len() - 1];
            cut.retain(|c| *c < fr.len());
            cut.sort();
            cut.dedup();
            let mut p = 0;
            let mut d = d1;
            for c in cut {
                let e = gap(&mut fired);
                if e > 0 {
                    out.push((d, fr[p..c].to_vec()));
                    (p, d) = (c, e);
                }
            }
            out.push((d, fr[p..].to_vec()));
        } else if d2 > 0 {
            out.push((d1, fr[..4].to_vec()));
            out.push((d2, fr[4..].to_vec()));
        } else if d1 == 0 && !out.is_empty() {
            out.last_mut().unwrap().1.extend_from_slice(&fr);
        } else {
            out.push((d1, fr));
        }
        if lat > 0 {
            *w.fault_counts.entry("latency".into()).or_default() += 1;
        }
        if fired > 0 {
            *w.fault_counts.entry("slow-packet".into()).or_default() += fired;
        }
    }

    /// Sends a whole reply, applying the misbehaviours planned for the step.
    fn send_all(&mut self, id: u32, step: u32, packets: Vec<Vec<u8>>, w: &mut World, out: &mut Out) {
        self.sess[id as usize].replies += 1;
        if let Some(raw) = self.raw_steps.get(&step) {
            out.push((0, raw.clone()));
            return;
        }
        let mis: Vec<Mis> = self.mis.iter().filter(|m| m.step == step).cloned().collect();
        let n = packets.len();
        for (k, p) in packets.iter().enumerate() {
            let m = mis.iter().find(|m| m.pkt as usize % n == k);
            match m.map(|m| &m.kind) {
                Some(MisKind::Drop) => {
                    w.inject("dropped-packet");
                    self.sess[id as usize].mis_hit.push(step);
                    let s = &mut self.sess[id as usize];
                    s.seq = s.seq.wrapping_add((p.len() / MAX + 1) as u8);
                }
                Some(MisKind::BadSeq(d)) => {
                    w.inject("bad-sequence");
                    self.sess[id as usize].mis_hit.push(step);
                    let s = &mut self.sess[id as usize];
                    let d = (*d).max(1);
                    s.seq = s.seq.wrapping_add(d);
                    self.send_seq(id, p, w, out, k == 0);
                    let s = &mut self.sess[id as usize];
                    s.seq = s.seq.wrapping_sub(d);
                }
                Some(MisKind::Dup) if k + 1 < n => {
                    w.inject("duplicated-packet");
                    self.sess[id as usize].mis_hit.push(step);
                    let q = self.sess[id as usize].seq;
                    self.send_seq(id, p, w, out, k == 0);
                    self.sess[id as usize].seq = q;
                    self.send_seq(id, p, w, out, false);
                }
                _ => self.send_seq(id, p, w, out, k == 0),
            }
        }
    }

    pub fn input(&mut self, id: u32, data: &[u8], w: &mut World, out: &mut Out) {
        let i = id as usize;
        self.sess[i].inbuf.extend_from_slice(data);
        loop {
            let s = &mut self.sess[i];
            if s.phase == Phase::Dead {
                s.inbuf.clear();
                s.pos = 0;
                return;
            }
            let b = &s.inbuf[s.pos..];
            if b.len() < 4 {
                break;
            }
            let len = u32::from_le_bytes([b[0], b[1], b[2], 0]) as usize;
            if b.len() < 4 + len {
                break;
            }
            let seq = b[3];
            let cmd_start = !s.in_packet && s.phase == Phase::Cmd;
            let want = if cmd_start { 0 } else { s.seq };
            if seq != want {
                let m = format!("conn {id}: client frame has sequence number {seq}, expected {want} (length {len})");
                s.phase = Phase::Dead;
                w.viol(&["C02", "C01", "C03", "C15", "C08"], "bad-client-sequence", m);
                return;
            }
            if !s.in_packet {
                s.packet = b[4..4 + len].to_vec();
            } else {
                s.packet.extend_from_slice(&b[4..4 + len]);
            }
            s.seq = seq.wrapping_add(1);
            s.in_packet = true;
            s.pos += 4 + len;
            if s.pos == s.inbuf.len() {
                s.inbuf.clear();
                s.pos = 0;
            } else if s.pos > 1 << 20 {
                s.inbuf.drain(..s.pos);
                s.pos = 0;
            }
            if len == MAX {
                continue;
            }
            s.in_packet = false;
            let p = std::mem::take(&mut s.packet);
            self.packet(id, p, w, out);
        }
    }
}

/// Every packet the client may send during a login, whatever the server did before.
fn allowed_answer(s: &Session, p: &[u8]) -> bool {
    let c = &s.cfg;
    let pw = c.password.as_bytes();
    let l = s.nonces.last().unwrap();
    let mut clear = pw.to_vec();
    clear.push(0);
    match s.active {
        Some(Plug::Native) => p == crypto::native(pw, l),
        Some(Plug::Clear) => c.allow_clear && p == clear,
        Some(Plug::Sha2) => {
            if p == [2] || p == crypto::caching(pw, l) || (c.secure && p == clear) {
                return true;
            }
            if l.is_empty() {
                return false;
            }
            let want: Vec<u8> = clear.iter().enumerate().map(|(i, b)| b ^ l[i % l.len()]).collect();
            let mine = |k: usize| !c.preset_key || k == c.key as usize;
            (0..crypto::KEYS).any(|k| mine(k) && crypto::key(k).decrypt(p).as_deref() == Some(&want[..]))
        }
        None => false,
    }
}

impl Server {
    fn refuse(&mut self, id: u32, e: ErrSpec, w: &mut World, out: &mut Out) {
        self.send(id, &err_packet(&e), w, out);
        let s = &mut self.sess[id as usize];
        s.login_err = Some(e);
        s.phase = Phase::Dead;
        self.journal.push((id, Seen::LoginErr));
        w.server_close(id);
        w.tr(|| format!("conn {id}: server refuses the login"));
    }
    fn login_done(&mut self, id: u32, w: &mut World, out: &mut Out) {
        let cfg = self.sess[id as usize].cfg.clone();
        if let Some((4, e)) = &cfg.refuse {
            return self.refuse(id, e.clone(), w, out);
        }
        self.send(id, &ok_packet(&cfg.ok, false), w, out);
        let s = &mut self.sess[id as usize];
        s.phase = Phase::Cmd;
        s.login_ok = true;
        s.login_c2s = w.conns[id as usize].written;
        self.journal.push((id, Seen::LoginOk));
        w.tr(|| format!("conn {id}: login complete"));
    }
    fn denied(&mut self, id: u32, w: &mut World, out: &mut Out) {
        self.refuse(id, ErrSpec::new(1045, "28000", "Access denied (wrong password)"), w, out)
    }
    /// Checks authentication data of the account's own plugin and goes on.
    fn verify(&mut self, id: u32, data: &[u8], first: bool, w: &mut World, out: &mut Out) {
        let i = id as usize;
        let cfg = self.sess[i].cfg.clone();
        let nonce = self.sess[i].nonces.last().unwrap().clone();
        let pw = cfg.account_password.as_bytes();
        match cfg.account {
            Plug::Native => {
                if data == crypto::native(pw, &nonce) {
                    self.login_done(id, w, out)
                } else {
                    self.denied(id, w, out)
                }
            }
            Plug::Clear => {
                // the terminator is part of the answer in both places
                if data.strip_suffix(&[0]) == Some(pw) {
                    self.login_done(id, w, out)
                } else {
                    self.denied(id, w, out)
                }
            }
            Plug::Sha2 => {
                if pw.is_empty() || data.is_empty() {
                    if pw.is_empty() && (data.is_empty() || data == [0]) {
                        self.login_done(id, w, out)
                    } else {
                        self.denied(id, w, out)
                    }
                    return;
                }
                if cfg.cached && data == crypto::caching(pw, &nonce) {
                    self.send(id, &[1, 3], w, out);
                    if let Some((5, e)) = &cfg.refuse {
                        return self.refuse(id, e.clone(), w, out);
                    }
                    self.login_done(id, w, out)
                } else if cfg.cached {
                    self.denied(id, w, out)
                } else {
                    self.send(id, &[1, 4], w, out);
                    self.sess[i].phase = Phase::WaitPassword;
                }
            }
        }
    }

    fn packet(&mut self, id: u32, p: Vec<u8>, w: &mut World, out: &mut Out) {
        let i = id as usize;
        let phase = self.sess[i].phase;
        w.ev(8, id as u64, p.len() as u64);
        match phase {
            Phase::WaitResp => self.handshake_response(id, &p, w, out),
            Phase::WaitSwitch(_) => {
                w.tr(|| format!("conn {id}: answer to the switch, {} bytes", p.len()));
                self.check_answer(id, &p, w);
                if let Some((2, e)) = &self.sess[i].cfg.refuse {
                    let e = e.clone();
                    return self.refuse(id, e, w, out);
                }
                self.verify(id, &p, false, w, out)
            }
            Phase::WaitPassword => {
                let cfg = self.sess[i].cfg.clone();
                self.check_answer(id, &p, w);
                if p == [2] {
                    if let Some((3, e)) = &cfg.refuse {
                        return self.refuse(id, e.clone(), w, out);
                    }
                    let k = crypto::key(cfg.key as usize);
                    let mut b = vec![1];
                    b.extend_from_slice(if cfg.pkcs8 { k.pkcs8 } else { k.pkcs1 }.as_bytes());
                    self.send(id, &b, w, out);
                    self.sess[i].key_sent = true;
                    self.sess[i].phase = Phase::WaitRsa;
                    return;
                }
                if cfg.secure {
                    let ok = p.strip_suffix(&[0]) == Some(cfg.account_password.as_bytes());
                    return if ok { self.login_done(id, w, out) } else { self.denied(id, w, out) };
                }
                self.rsa(id, &p, w, out)
            }
            Phase::WaitRsa => {
                self.check_answer(id, &p, w);
                self.rsa(id, &p, w, out)
            }
            Phase::Hostile(k) => {
                self.check_answer(id, &p, w);
                self.hostile_round(id, k, w, out)
            }
            Phase::Cmd => self.command(id, p, w, out),
            Phase::Dead => {}
        }
    }

    fn rsa(&mut self, id: u32, p: &[u8], w: &mut World, out: &mut Out) {
        let i = id as usize;
        let cfg = self.sess[i].cfg.clone();
        let nonce = self.sess[i].nonces.last().unwrap().clone();
        let Some(m) = crypto::key(cfg.key as usize).decrypt(p) else {
            return self.denied(id, w, out);
        };
        let m: Vec<u8> = m.iter().enumerate().map(|(i, b)| b ^ nonce[i % nonce.len()]).collect();
        if m.strip_suffix(&[0]) == Some(cfg.account_password.as_bytes()) {
            self.login_done(id, w, out)
        } else {
            self.denied(id, w, out)
        }
    }

    fn check_answer(&mut self, id: u32, p: &[u8], w: &mut World) {
        let s = &self.sess[id as usize];
        if !allowed_answer(s, p) {
            let prev = s.nonces.iter().rev().skip(1).any(|n| {
                let pw = s.cfg.password.as_bytes();
                !pw.is_empty() && (p == crypto::native(pw, n) || p == crypto::caching(pw, n))
            });
            let m = format!(
                "conn {id}: during the login the client sent {} bytes {:02x?} which are no answer to the last challenge (plugin {:?}{})",
                p.len(),
                &p[..p.len().min(40)],
                s.active,
                if prev { ", computed from an earlier challenge" } else { "" }
            );
            w.viol(&["C09", "C08"], "bad-login-answer", m);
        }
        if s.active == Some(Plug::Sha2) && p.len() > 40 {
            let seed = (0..crypto::KEYS).find_map(|k| crypto::key(k).open(p)).map(|x| x.0);
            if let Some(seed) = seed {
                let mut n = [0u8; 256];
                seed.iter().for_each(|b| n[*b as usize] += 1);
                // 20 random bytes contain one value eight times with probability 2e-12
                let weak = n.iter().any(|n| *n > 7);
                if weak || self.seeds.contains(&seed) {
                    let m = format!(
                        "conn {id}: the password is encrypted with the predictable padding {seed:02x?}{}",
                        if weak { "" } else { " of an earlier login" }
                    );
                    w.viol(&["C09"], "predictable-padding", m);
                }
                self.seeds.push(seed);
            }
        }
        let s = &self.sess[id as usize];
        if let (Some(pin), Some(a)) = (s.cfg.pinned, s.active) {
            if pin != a {
                let m = format!("conn {id}: pinned to {pin:?} but answered a {a:?} challenge");
                w.viol(&["C09"], "pinned-plugin-ignored", m);
            }
        }
    }

    fn hostile_round(&mut self, id: u32, k: usize, w: &mut World, out: &mut Out) {
        let i = id as usize;
        let cfg = self.sess[i].cfg.clone();
        let rounds = cfg.hostile.as_ref().unwrap();
        let Some(round) = rounds.get(k) else {
            self.sess[i].phase = Phase::Dead;
            w.server_close(id);
            return;
        };
        w.inject("hostile-login");
        self.sess[i].phase = Phase::Hostile(k + 1);
        for h in round {
            match h {
                Host::Switch { plugin, nonce, nul } => {
                    let mut b = vec![0xFE];
                    b.extend_from_slice(plugin.as_bytes());
                    b.push(0);
                    b.extend_from_slice(nonce);
                    if *nul {
                        b.push(0);
                    }
                    // the client drops one trailing terminator
                    let mut n = nonce.clone();
                    if !*nul && n.last() == Some(&0) {
                        n.pop();
                    }
                    self.sess[i].nonces.push(n);
                    self.sess[i].active = Plug::parse(plugin.as_bytes());
                    self.send(id, &b, w, out);
                }
                Host::FastOk => self.send(id, &[1, 3], w, out),
                Host::FullAuth => self.send(id, &[1, 4], w, out),
                Host::Key(n) => {
                    let mut b = vec![1];
                    b.extend_from_slice(crypto::key(*n as usize).pkcs8.as_bytes());
                    self.send(id, &b, w, out)
                }
                Host::Ok => {
                    self.send(id, &ok_packet(&cfg.ok, false), w, out);
                    self.sess[i].phase = Phase::Cmd;
                }
                Host::Err => self.send(id, &err_packet(&ErrSpec::new(1045, "28000", "no")), w, out),
                Host::Raw(r) => {
                    self.send(id, r, w, out);
                    if r.first() == Some(&0) {
                        // the client may take it for the end of the login
                        self.sess[i].phase = Phase::Cmd;
                    }
                }
            }
        }
    }

    fn handshake_response(&mut self, id: u32, p: &[u8], w: &mut World, out: &mut Out) {
        let i = id as usize;
        let cfg = self.sess[i].cfg.clone();
        let mut c = Cur(p);
        let parsed = (|| {
            let caps = c.uint(4)? as u32;
            c.uint(4)?;
            let coll = c.uint(1)?;
            c.take(23)?;
            let user = c.nul()?.to_vec();
            let auth = if caps & CAP_LENENC_AUTH != 0 {
                c.lenstr()?.to_vec()
            } else if caps & CAP_SECURE != 0 {
                let n = c.uint(1)? as usize;
                c.take(n)?.to_vec()
            } else {
                c.nul()?.to_vec()
            };
            let db = if caps & CAP_CONNECT_WITH_DB != 0 { Some(c.nul()?.to_vec()) } else { None };
            let plugin = if caps & CAP_PLUGIN_AUTH != 0 { Some(c.nul()?.to_vec()) } else { None };
            if caps & CAP_CONNECT_ATTRS != 0 {
                c.lenstr()?;
            }
            if !c.0.is_empty() {
                return None;
            }
            Some((caps, coll, user, auth, db, plugin))
        })();
        let Some((caps, coll, user, auth, db, plugin)) = parsed else {
            let m = format!("conn {id}: handshake response cannot be parsed: {p:02x?}");
            w.viol(&["C08", "C02"], "bad-handshake-response", m);
            self.sess[i].phase = Phase::Dead;
            w.server_close(id);
            return;
        };
        {
            let s = &mut self.sess[i];
            s.resp_caps = caps;
            s.caps = caps & cfg.caps;
        }
        if caps & CAP_PROTOCOL_41 == 0 {
            w.viol(&["C08"], "bad-handshake-response", format!("conn {id}: client did not ask for protocol 4.1"));
        }
        if user != cfg.user.as_bytes() || db.as_deref() != cfg.db.as_ref().map(|x| x.as_bytes()) {
            let m = format!(
                "conn {id}: login for user {:?} db {:?} instead of {:?} {:?}",
                String::from_utf8_lossy(&user),
                db.map(|x| String::from_utf8_lossy(&x).into_owned()),
                cfg.user,
                cfg.db
            );
            w.viol(&["C08", "C15"], "wrong-login-identity", m);
        }
        let cp = match &plugin {
            Some(x) => Plug::parse(x),
            None => Some(Plug::Native),
        };
        // Texts travel as UTF-8: four bytes per character since 5.5.3, three before.
        let want: &[std::ops::RangeInclusive<u64>] = if cfg.expect_version >= (5, 5, 3) {
            &[45..=46, 224..=247]
        } else {
            &[33..=33, 76..=76, 83..=83, 192..=215]
        };
        let intact = self.mutate.is_empty();
        if intact && !want.iter().any(|r| r.contains(&coll)) {
            let m = format!("conn {id}: the client announced collation {coll} to a server of version {:?}", cfg.expect_version);
            w.viol(&["C08", "C04"], "wrong-collation", m);
        }
        let offered = Plug::parse(cfg.offered.as_bytes());
        if intact && cfg.caps & CAP_PLUGIN_AUTH != 0 && cfg.pinned.is_none() && offered.is_some() && cp != offered {
            let m = format!("conn {id}: the server offered {offered:?}, which the client knows, but it answered with {cp:?}");
            w.viol(&["C08"], "offer-ignored", m);
        }
        // A server without pluggable authentication knows the native method only.
        let cp = if cfg.caps & CAP_PLUGIN_AUTH == 0 { Some(Plug::Native) } else { cp };
        self.sess[i].active = cp;
        w.tr(|| format!("conn {id}: handshake response, plugin {cp:?}"));
        self.check_answer(id, &auth, w);
        if cfg.hostile.is_some() {
            return self.hostile_round(id, 0, w, out);
        }
        if let Some((1, e)) = &cfg.refuse {
            return self.refuse(id, e.clone(), w, out);
        }
        if cp == Some(cfg.account) {
            return self.verify(id, &auth, true, w, out);
        }
        if cfg.caps & CAP_PLUGIN_AUTH == 0 {
            return self.denied(id, w, out);
        }
        let nonce = self.nonce();
        self.sess[i].nonces.push(nonce.clone());
        self.sess[i].active = Some(cfg.account);
        let mut b = vec![0xFE];
        b.extend_from_slice(cfg.account.name().as_bytes());
        b.push(0);
        b.extend_from_slice(&nonce);
        b.push(0);
        self.sess[i].phase = Phase::WaitSwitch(cfg.account);
        self.send(id, &b, w, out);
    }

    // ------------------------------------------------ commands

    fn bad_command(&mut self, id: u32, what: String, w: &mut World) {
        let m = format!("conn {id}: {what}");
        w.viol(&["C01", "C02", "C03", "C15", "C14"], "unexpected-command", m);
        self.sess[id as usize].phase = Phase::Dead;
        w.server_close(id);
    }

    fn command(&mut self, id: u32, p: Vec<u8>, w: &mut World, out: &mut Out) {
        let i = id as usize;
        self.sess[i].cmds += 1;
        // a command starts a fresh numbering: the client's frames were 0..n, the reply continues
        let step = w.conns[i].step;
        let de = self.sess[i].caps & CAP_DEPRECATE_EOF != 0;
        match p.first() {
            None => self.bad_command(id, "empty command packet".into(), w),
            Some(0x01) => {
                self.journal.push((id, Seen::Quit));
                self.sess[i].phase = Phase::Dead;
                w.server_close(id);
                w.tr(|| format!("conn {id}: COM_QUIT"));
            }
            Some(0x03) => {
                let text = &p[1..];
                w.tr(|| format!("conn {id}: COM_QUERY {:?} ({} bytes)", brief(text), text.len()));
                if text == b"select @@max_allowed_packet" {
                    let v = self.sess[i].cfg.settings.unwrap_or(1 << 22);
                    let col = ColSpec {
                        name: "@@max_allowed_packet".into(),
                        org_name: String::new(),
                        table: String::new(),
                        org_table: String::new(),
                        ty: ty::LONGLONG,
                        flags: UNSIGNED,
                        charset: 63,
                        len: 21,
                        decimals: 0,
                    };
                    let r = Resp::Rows(RowsSpec {
                        cols: Rc::new(vec![col]),
                        rows: Rc::new(vec![vec![Val::U64(v)]]),
                        end: EndSpec { status: 2, warnings: 0, info: None, counts: (0, 0) },
                        abort: None,
                    });
                    let mut ps = Vec::new();
                    wire::reply(&r, false, de, false, &mut ps);
                    return self.send_all(id, step, ps, w, out);
                }
                match &mut self.backend {
                    Backend::None => self.bad_command(id, "unexpected query".into(), w),
                    Backend::Script(sc) => {
                        let n = parse_id(text, b'q');
                        let hit = n.and_then(|n| sc.get(&n)).cloned();
                        match hit {
                            Some(Script::Query { text: t, resp }) if t.text().as_bytes() == text => {
                                let n = n.unwrap();
                                self.current(id, n, step, w);
                                self.journal.push((id, Seen::Query(n)));
                                let mut ps = Vec::new();
                                wire::reply(&resp, false, de, false, &mut ps);
                                self.send_all(id, n, ps, w, out)
                            }
                            _ => {
                                let m = format!("query {:?} ({} bytes) which no caller sent", brief(text), text.len());
                                self.bad_command(id, m, w)
                            }
                        }
                    }
                    Backend::Sql(_) => {
                        let text = text.to_vec();
                        self.sql(id, step, &String::from_utf8_lossy(&text), None, false, w, out)
                    }
                }
            }
            Some(0x16) => self.prepare(id, step, &p[1..], de, w, out),
            Some(0x17) => self.execute(id, step, &p[1..], de, w, out),
            Some(0x18) => {
                let mut c = Cur(&p[1..]);
                let (Some(sid), Some(idx)) = (c.uint(4), c.uint(2)) else {
                    return self.bad_command(id, "short COM_STMT_SEND_LONG_DATA".into(), w);
                };
                w.tr(|| format!("conn {id}: long data for statement {sid} parameter {idx}, {} bytes", c.0.len()));
                let s = &mut self.sess[i];
                match s.stmts.get_mut(&(sid as u32)) {
                    Some(st) if (idx as usize) < st.params => {
                        st.long.entry(idx as usize).or_default().extend_from_slice(c.0);
                        self.journal.push((id, Seen::Long(step)));
                    }
                    st => {
                        if st.is_none() {
                            w.viol(&["C22"], "not-open", format!("conn {id}: long data for the statement {sid}, which is not open"));
                        }
                        self.bad_command(id, format!("long data for unknown statement {sid} / parameter {idx}"), w)
                    }
                }
            }
            Some(0x19) => {
                let sid = Cur(&p[1..]).uint(4);
                w.tr(|| format!("conn {id}: COM_STMT_CLOSE {sid:?}"));
                let known = sid.and_then(|x| self.sess[i].stmts.remove(&(x as u32))).is_some();
                if !known || p.len() != 5 {
                    let m = format!("conn {id}: COM_STMT_CLOSE {sid:?} ({} bytes) closes no statement that this connection has open", p.len());
                    w.viol(&["C22"], "wrong-close", m);
                }
            }
            Some(0x0E) | Some(0x1F) => {
                if p[0] == 0x1F {
                    self.sess[i].stmts.clear();
                }
                self.send(id, &ok_packet(&OkSpec::plain(), false), w, out)
            }
            Some(0x1A) => {
                if let Some(st) = Cur(&p[1..]).uint(4).and_then(|x| self.sess[i].stmts.get_mut(&(x as u32))) {
                    st.long.clear();
                }
                self.send(id, &ok_packet(&OkSpec::plain(), false), w, out)
            }
            Some(x) => {
                let m = format!("unknown command byte {x:#x}, {} bytes {:02x?}", p.len(), &p[..p.len().min(32)]);
                self.bad_command(id, m, w)
            }
        }
    }

    /// A command text must be the one of the call that is running on this connection.
    fn current(&mut self, id: u32, n: u32, step: u32, w: &mut World) {
        if n != step {
            let m = format!("conn {id}: the command of call {n} arrived while call {step} is running");
            w.viol(&["C01", "C02", "C15", "C14"], "stray-command", m);
        }
    }

    fn new_stmt(&mut self, id: u32, step: u32, params: usize, sql: String, w: &mut World) -> u32 {
        let r = self.r();
        let mut sid = 1 + r.log(0xFFFF_FF00) as u32;
        let s = &mut self.sess[id as usize];
        if !s.stmts.is_empty() {
            let open: BTreeSet<u32> = s.stmts.keys().copied().collect();
            let m = format!("conn {id}: call {step} prepares a statement while {open:?} of this connection are still open");
            w.viol(&["C22"], "statement-left-open", m);
        }
        while s.stmts.contains_key(&sid) {
            sid = sid.wrapping_add(1);
        }
        s.stmts.insert(sid, Stmt { step, params, sql, long: BTreeMap::new(), types: Vec::new() });
        sid
    }

    fn prepare(&mut self, id: u32, step: u32, text: &[u8], de: bool, w: &mut World, out: &mut Out) {
        w.tr(|| format!("conn {id}: COM_STMT_PREPARE {:?} ({} bytes)", brief(text), text.len()));
        let (n, res, sql) = match &mut self.backend {
            Backend::None => return self.bad_command(id, "unexpected prepare".into(), w),
            Backend::Script(sc) => {
                let n = parse_id(text, b'p');
                match n.and_then(|n| sc.get(&n)).cloned() {
                    Some(Script::Prepare { text: t, res }) if t.text().as_bytes() == text => (n.unwrap(), res, String::new()),
                    _ => {
                        let m = format!("prepare {:?} ({} bytes) which no caller sent", brief(text), text.len());
                        return self.bad_command(id, m, w);
                    }
                }
            }
            Backend::Sql(e) => {
                let t = String::from_utf8_lossy(text).into_owned();
                let r = e.prepare(id, &t, w);
                (step, r, t)
            }
        };
        self.current(id, n, step, w);
        self.journal.push((id, Seen::Prepare(n)));
        let mut ps = Vec::new();
        match res {
            Err(e) => ps.push(err_packet(&e)),
            Ok(info) => {
                let sid = self.new_stmt(id, n, info.params as usize, sql, w);
                let mut b = vec![0];
                b.extend_from_slice(&sid.to_le_bytes());
                b.extend_from_slice(&(info.cols.len() as u16).to_le_bytes());
                b.extend_from_slice(&info.params.to_le_bytes());
                b.push(0);
                b.extend_from_slice(&info.warnings.to_le_bytes());
                ps.push(b);
                let eof = end_packet(&EndSpec { status: 2, warnings: 0, info: None, counts: (0, 0) }, false, false);
                for k in 0..info.params {
                    ps.push(col_packet(&ColSpec {
                        name: if k % 5 == 4 { format!("p{}", "?".repeat(300)) } else { "?".into() },
                        org_name: String::new(),
                        table: String::new(),
                        org_table: String::new(),
                        ty: ty::VARSTRING,
                        flags: 128,
                        charset: 63,
                        len: 0,
                        decimals: 0,
                    }));
                }
                if info.params > 0 && !de {
                    ps.push(eof.clone());
                }
                for c in info.cols.iter() {
                    ps.push(col_packet(c));
                }
                if !info.cols.is_empty() && !de {
                    ps.push(eof);
                }
            }
        }
        self.send_all(id, n, ps, w, out)
    }

    fn execute(&mut self, id: u32, step: u32, p: &[u8], de: bool, w: &mut World, out: &mut Out) {
        let i = id as usize;
        let mut c = Cur(p);
        let (Some(sid), Some(flags), Some(iter)) = (c.uint(4), c.uint(1), c.uint(4)) else {
            return self.bad_command(id, "short COM_STMT_EXECUTE".into(), w);
        };
        let Some(st) = self.sess[i].stmts.get_mut(&(sid as u32)) else {
            w.viol(&["C22"], "not-open", format!("conn {id}: execution of the statement {sid}, which is not open"));
            return self.bad_command(id, format!("execute of unknown statement {sid}"), w);
        };
        let vals = (|| -> Option<Vec<Val>> {
            if flags != 0 || iter != 1 {
                return None;
            }
            let n = st.params;
            let mut vals = Vec::with_capacity(n);
            if n > 0 {
                let bitmap = c.take((n + 7) / 8)?.to_vec();
                // unused bits must be clear
                for k in n..bitmap.len() * 8 {
                    if bitmap[k / 8] >> (k % 8) & 1 == 1 {
                        return None;
                    }
                }
                let bound = c.uint(1)?;
                if bound == 1 {
                    st.types.clear();
                    for _ in 0..n {
                        let t = c.uint(1)? as u8;
                        let f = c.uint(1)? as u8;
                        if f & 0x7F != 0 {
                            return None;
                        }
                        st.types.push((t, f == 0x80));
                    }
                } else if bound != 0 || st.types.len() != n {
                    return None;
                }
                for k in 0..n {
                    let (t, u) = st.types[k];
                    if let Some(x) = st.long.remove(&k) {
                        if !ty::STRINGS.contains(&t) {
                            return None;
                        }
                        vals.push(Val::Bytes(Blob::Lit(x)));
                    } else if bitmap[k / 8] >> (k % 8) & 1 == 1 {
                        vals.push(Val::Null);
                    } else {
                        vals.push(wire::param(&mut c, t, u)?);
                    }
                }
            }
            if !c.0.is_empty() {
                return None;
            }
            Some(vals)
        })();
        st.long.clear();
        let prep = st.step;
        let sql = st.sql.clone();
        let Some(vals) = vals else {
            let m = format!("conn {id}: malformed COM_STMT_EXECUTE for statement {sid} ({} bytes)", p.len());
            w.viol(&["C03", "C02"], "malformed-execute", m);
            self.sess[i].phase = Phase::Dead;
            w.server_close(id);
            return;
        };
        w.tr(|| format!("conn {id}: COM_STMT_EXECUTE {sid} {}", brief_row(&vals)));
        match &mut self.backend {
            Backend::None => self.bad_command(id, "unexpected execute".into(), w),
            Backend::Script(sc) => match sc.get(&step).cloned() {
                Some(Script::Run { prep: want, params, resp }) => {
                    if want != prep {
                        let m = format!("conn {id}: execute of the statement prepared by step {prep}, but the running call uses {want}");
                        w.viol(&["C03", "C01", "C14"], "wrong-statement", m);
                    }
                    if !same_row(&vals, &params) {
                        let k = (0..vals.len().min(params.len())).find(|k| !vals[*k].same(&params[*k]));
                        let m = match k {
                            Some(k) => format!(
                                "conn {id}: parameter {k} arrived as {} but {} was bound",
                                vals[k].brief(),
                                params[k].brief()
                            ),
                            None => format!("conn {id}: {} parameters arrived, {} were bound", vals.len(), params.len()),
                        };
                        w.viol(&["C03"], "wrong-parameter", m);
                    }
                    self.journal.push((id, Seen::Run(step)));
                    let mut ps = Vec::new();
                    wire::reply(&resp, true, de, false, &mut ps);
                    self.send_all(id, step, ps, w, out)
                }
                _ => self.bad_command(id, format!("execute of statement {sid} although the running call ({step}) executes nothing"), w),
            },
            Backend::Sql(_) => self.sql(id, step, &sql, Some(&vals), true, w, out),
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn sql(&mut self, id: u32, step: u32, text: &str, params: Option<&[Val]>, binary: bool, w: &mut World, out: &mut Out) {
        let i = id as usize;
        let de = self.sess[i].caps & CAP_DEPRECATE_EOF != 0;
        let mut be = std::mem::take(&mut self.backend);
        let Backend::Sql(e) = &mut be else { unreachable!() };
        let ans = e.exec(id, text, params, w);
        self.backend = be;
        match ans {
            crate::engine::Ans::Reply(r) => {
                let mut ps = Vec::new();
                wire::reply(&r, binary, de, false, &mut ps);
                self.send_all(id, step, ps, w, out)
            }
            crate::engine::Ans::Die => {
                self.sess[i].phase = Phase::Dead;
                w.server_die(id);
            }
            crate::engine::Ans::Silent => {}
        }
    }
}

fn brief(t: &[u8]) -> String {
    String::from_utf8_lossy(&t[..t.len().min(60)]).into_owned()
}
fn parse_id(t: &[u8], tag: u8) -> Option<u32> {
    if t.first() != Some(&tag) {
        return None;
    }
    let e = t.iter().position(|b| *b == b'|')?;
    std::str::from_utf8(&t[1..e]).ok()?.parse().ok()
}
