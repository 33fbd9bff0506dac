//! Texts and values that a caller writes into statements: what the simulated server reads there, stores
//! and sends back has to be what was escaped or formatted.
use crate::conn::*;
use crate::engine::*;
use crate::gen::{self, Focus, G};
use crate::mdl;
use crate::plan::{removals, shrink_net};
use crate::rng::Rng;
use crate::server::*;
use crate::val::*;
use crate::world::*;
use mysql_connector::error::Error;
use mysql_connector::types::{Hex, IdentifierEscape, StringEscape, UnquotedIdentifierEscape, Value};
use mysql_connector::Connection;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum TKind {
    /// Stored as a literal of the statement.
    Str(String),
    /// Used to find the row that holds it.
    Find(String),
    /// Names a column of the result.
    Ident(String),
    /// The same without quotes.
    Word(String),
    /// Formatted into the statement.
    Value(Val),
    /// Read as text from the server and parsed.
    Hex(Vec<u8>),
    /// Formatted and parsed.
    Bytes(Vec<u8>),
    /// Formatted only: no server takes it.
    Show(Val),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct TOp {
    pub id: u32,
    pub kind: TKind,
    pub binary: bool,
    pub cancel: Option<u32>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct TPlan {
    pub seed: u64,
    pub login: LoginCfg,
    pub ops: Vec<TOp>,
    pub net: NetCfg,
    pub faults: Vec<Fault>,
    pub efaults: Vec<EFault>,
}

const COLS: &[(&str, u8, u16)] = &[
    ("s", ty::VARSTRING, 0),
    ("b", ty::BLOB, 128),
    ("i8", ty::TINY, 0),
    ("i16", ty::SHORT, 0),
    ("i32", ty::LONG, 0),
    ("i64", ty::LONGLONG, 0),
    ("u8", ty::TINY, 32),
    ("u16", ty::SHORT, 32),
    ("u32", ty::LONG, 32),
    ("u64", ty::LONGLONG, 32),
    ("f32", ty::FLOAT, 0),
    ("f64", ty::DOUBLE, 0),
    ("d", ty::DATE, 0),
    ("t", ty::TIME, 0),
    ("dt", ty::DATETIME, 0),
];
fn column_of(v: &Val) -> &'static str {
    match v {
        Val::Null => "s",
        Val::I8(_) => "i8",
        Val::I16(_) => "i16",
        Val::I32(_) => "i32",
        Val::I64(_) => "i64",
        Val::U8(_) => "u8",
        Val::U16(_) => "u16",
        Val::U32(_) => "u32",
        Val::U64(_) => "u64",
        Val::F32(_) => "f32",
        Val::F64(_) => "f64",
        Val::Bytes(_) | Val::BadText(_) => "b",
        Val::Date(..) => "d",
        Val::Time(..) => "t",
        Val::Dt(..) => "dt",
    }
}
fn eng<R>(f: impl FnOnce(&mut Engine) -> R) -> R {
    w(|w| match &mut w.srv.backend {
        Backend::Sql(e) => f(e),
        _ => unreachable!(),
    })
}

/// What a user gets to see.
#[derive(Default, Debug)]
struct Got {
    /// Statements that succeeded.
    done: usize,
    text: String,
    names: Vec<String>,
    rows: Option<Vec<Vec<Val>>>,
    /// A writer that fails once after so many bytes was not noticed.
    lost: Option<usize>,
    hex: Option<[Option<Vec<u8>>; 3]>,
}

async fn read(c: &mut Connection, sql: &str, binary: bool, g: &Rc<RefCell<Got>>) -> Result<(), Error> {
    macro_rules! all {
        ($r:expr) => {{
            let mut r = $r;
            g.borrow_mut().names = r.columns().iter().map(|c| c.name().to_string()).collect();
            let v: Vec<Vec<Value>> = r.collect().await?;
            v.iter().map(|x| x.iter().map(Val::from_lib).collect()).collect::<Vec<Vec<Val>>>()
        }};
    }
    let rows = if binary {
        let mut st = c.prepare_statement(sql).await?;
        all!(st.query::<Value, Vec<Value>>(&[]).await?)
    } else {
        all!(c.query::<Vec<Value>>(sql).await?)
    };
    g.borrow_mut().rows = Some(rows);
    Ok(())
}

/// Fails once, after so many bytes.
struct Full(usize);
impl std::fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 {
            self.0 = usize::MAX;
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}

async fn act(c: &mut Connection, op: &TOp, g: &Rc<RefCell<Got>>) -> Result<(), Error> {
    let id = op.id;
    let say = |x: &dyn std::fmt::Display| -> String {
        use std::fmt::Write;
        let t = x.to_string();
        g.borrow_mut().text = t.clone();
        for n in (0..t.len()).rev().take(40) {
            if write!(Full(n), "{x}").is_ok() {
                g.borrow_mut().lost = Some(n);
            }
        }
        t
    };
    match &op.kind {
        TKind::Str(s) => {
            let t = say(&StringEscape(s));
            c.execute_query(&format!("insert into `notes` (`id`, `s`) values ({id}, {t})")).await?;
            g.borrow_mut().done += 1;
            read(c, &format!("select `s` from `notes` where `id` = {id}"), op.binary, g).await
        }
        TKind::Find(s) => {
            let t = say(&StringEscape(s));
            read(c, &format!("select `id`, `s` from `notes` where `s` = {t} and `id` = {id}"), op.binary, g).await
        }
        TKind::Ident(s) => {
            let t = say(&IdentifierEscape(s));
            read(c, &format!("select `id` as {t}, `s` from `notes` where `id` = {id}"), op.binary, g).await
        }
        TKind::Word(s) => {
            let t = say(&UnquotedIdentifierEscape(s));
            read(c, &format!("select `id` as x_{t}, `s` from `notes` where `id` = {id}"), op.binary, g).await
        }
        TKind::Value(v) => {
            let t = say(&v.to_lib());
            let col = column_of(v);
            c.execute_query(&format!("insert into `notes` (`id`, `{col}`) values ({id}, {t})")).await?;
            g.borrow_mut().done += 1;
            read(c, &format!("select `{col}` from `notes` where `id` = {id}"), op.binary, g).await
        }
        TKind::Hex(_) => {
            read(c, &format!("select `b` from `notes` where `id` = {id}"), op.binary, g).await?;
            let mut g = g.borrow_mut();
            if let Some([Val::Bytes(x)]) = g.rows.as_ref().and_then(|r| r.first()).map(|r| &r[..]) {
                let x = x.bytes();
                let a = Hex::try_from_hex(&x).ok().map(Vec::<u8>::from);
                let b = match std::str::from_utf8(&x) {
                    Ok(s) => s.parse::<Hex>().ok().map(Hex::into_bytes),
                    Err(_) => a.clone(),
                };
                let c = match std::str::from_utf8(&x) {
                    Ok(s) if s.chars().all(|c| c.is_ascii_graphic() && c != '"' && c != '\\') => {
                        // deserializers that lend the text, that own it and that produce it piece by piece
                        let j = format!("\"{s}\"");
                        match id % 3 {
                            0 => serde_json::from_str::<Hex>(&j).ok(),
                            1 => serde_json::from_value::<Hex>(s.into()).ok(),
                            _ => serde_json::from_reader::<_, Hex>(j.as_bytes()).ok(),
                        }
                        .map(Hex::into_bytes)
                    }
                    _ => a.clone(),
                };
                g.hex = Some([a, b, c]);
            }
            Ok(())
        }
        TKind::Bytes(x) => {
            let t = say(&Hex::new(x.clone()));
            let a = Hex::try_from_hex(&t).ok().map(Hex::into_bytes);
            let b = t.parse::<Hex>().ok().map(Hex::into_bytes);
            let j = serde_json::to_string(&Hex::new(x.clone())).unwrap_or_default();
            let c = match op.id % 4 {
                0 => serde_json::from_str::<Hex>(&j).ok(),
                1 => serde_json::from_reader::<_, Hex>(j.as_bytes()).ok(),
                2 => serde_json::to_value(Hex::new(x.clone())).ok().and_then(|x| serde_json::from_value::<Hex>(x).ok()),
                _ => TryInto::<Hex>::try_into(Value::from(Hex::new(x.clone()))).ok(),
            }
            .map(|x| x.to_vec());
            g.borrow_mut().hex = Some([a, b, c]);
            Ok(())
        }
        TKind::Show(v) => {
            say(&v.to_lib());
            Ok(())
        }
    }
}

/// Independent reading of hex text.
fn unhex(x: &[u8]) -> Option<Vec<u8>> {
    let x = x.strip_prefix(b"0x").or_else(|| x.strip_prefix(b"0X")).unwrap_or(x);
    if x.len() % 2 == 1 {
        return None;
    }
    x.chunks(2)
        .map(|p| Some(((p[0] as char).to_digit(16)? << 4 | (p[1] as char).to_digit(16)?) as u8))
        .collect()
}

fn judge(op: &TOp, r: &Option<Result<(), Error>>, got: &Got, log: &[Logged], dirty: bool) {
    let prop: &'static str = match op.kind {
        TKind::Str(_) | TKind::Find(_) | TKind::Ident(_) | TKind::Word(_) => "C20",
        _ => "C21",
    };
    let text = |s: &str| if s.chars().count() > 60 { format!("{:?}..", s.chars().take(60).collect::<String>()) } else { format!("{s:?}") };
    let what = match &op.kind {
        TKind::Str(s) | TKind::Find(s) | TKind::Ident(s) | TKind::Word(s) => format!("{} escaped as {}", text(s), text(&got.text)),
        TKind::Value(v) | TKind::Show(v) => format!("{} formatted as {}", v.brief(), text(&got.text)),
        TKind::Hex(x) => format!("hex text {}", text(&String::from_utf8_lossy(x))),
        TKind::Bytes(x) => format!("{} bytes as {}", x.len(), text(&got.text)),
    };
    let bad = |class: &str, msg: String| w(|w| w.viol(&[prop], class, format!("op {}: {what}: {msg}", op.id)));
    if let Some(n) = got.lost {
        bad("lost-text", format!("the writer fails after {n} bytes and formatting succeeds"));
    }
    // names that cannot be: the server refuses them
    let name = match &op.kind {
        TKind::Ident(s) => Some(s.chars().filter(|c| ('\u{1}'..='\u{FFFF}').contains(c)).collect::<String>()),
        TKind::Word(s) => Some(
            s.chars().filter(|c| c.is_ascii_alphanumeric() || "$_".contains(*c) || ('\u{80}'..='\u{FFFF}').contains(c)).collect::<String>(),
        ),
        _ => None,
    };
    let nameless = matches!(op.kind, TKind::Ident(_)) && name.as_ref().is_some_and(|n| n.trim().is_empty());
    let row = Val::I64(op.id as i64);
    for l in log {
        if l.fault.is_some() {
            continue;
        }
        match &l.effect {
            Effect::Failed(_) if nameless => {}
            Effect::Failed(code) => bad("literal-refused", format!("the server refuses the statement (error {code})")),
            Effect::Select => {}
            Effect::Insert(t, v) if t == "notes" && v.first() == Some(&row) => {
                let want = match &op.kind {
                    TKind::Str(s) => (Val::str(s), 1),
                    TKind::Value(v) => (v.clone(), 1 + COLS.iter().position(|c| c.0 == column_of(v)).unwrap()),
                    _ => {
                        bad("statement-altered", "a row was inserted".into());
                        continue;
                    }
                };
                for (k, x) in v.iter().enumerate().skip(1) {
                    let y = if k == want.1 { &want.0 } else { &Val::Null };
                    if !x.same(y) {
                        let z = match (&op.kind, x) {
                            // the server does not know `\z`
                            (TKind::Str(s), Val::Bytes(b)) if k == 1 && s.contains('\x1a') && b.bytes() == s.replace('\x1a', "z").as_bytes() => {
                                " (U+001A as z)"
                            }
                            _ => "",
                        };
                        bad("literal-changed", format!("the server reads {} instead of {}{z}", x.brief(), y.brief()));
                    }
                }
            }
            e => bad("statement-altered", format!("the server did something else: {e:?}")),
        }
    }
    if let (Some(Err(e)), false) = (r, dirty) {
        let refused = log.iter().any(|l| matches!(l.effect, Effect::Failed(_)));
        if !refused {
            bad("failed-without-fault", eout(e).text);
        }
    }
    if let Some(Ok(())) = r {
        let rows = got.rows.as_deref();
        match &op.kind {
            TKind::Str(s) => {
                let ok = eng(|e| e.tables["notes"].rows.iter().any(|x| x[0] == row && x[1].same(&Val::str(s))));
                if ok && rows.is_none_or(|r| r.len() != 1 || !r[0][0].same(&Val::str(s))) {
                    bad("wrong-text", format!("read back as {rows:?}"));
                }
            }
            TKind::Value(v) => {
                if rows.is_none_or(|r| r.len() != 1 || !r[0][0].same(v)) {
                    bad("wrong-value", format!("read back as {rows:?}"));
                }
            }
            TKind::Find(s) => {
                if rows.is_none_or(|r| r.len() != 1 || r[0][0] != row) {
                    let z = if s.contains('\x1a') { " (U+001A as z)" } else { "" };
                    bad("literal-changed", format!("the row with this text is not found{z}"));
                }
            }
            TKind::Ident(_) | TKind::Word(_) => {
                let n = name.as_deref().unwrap();
                let x = got.names.first().map(|x| x.as_str());
                let fits = match (&op.kind, x) {
                    (TKind::Ident(_), Some(x)) => nameless || x == n.trim_end_matches(' ') || x == n.trim_end(),
                    (_, Some(x)) => x == format!("x_{n}"),
                    _ => false,
                };
                if !fits || got.names.len() != 2 || rows.is_none_or(|r| r.len() != 1) {
                    bad("wrong-name", format!("the server reads {:?}", got.names));
                }
            }
            TKind::Hex(x) | TKind::Bytes(x) => {
                let want = if matches!(op.kind, TKind::Hex(_)) { unhex(x) } else { Some(x.clone()) };
                match &got.hex {
                    Some(x) if x.iter().all(|x| *x == want) => {}
                    y => bad("wrong-hex", format!("parsed as {y:?} instead of {want:?}")),
                }
            }
            TKind::Show(_) => {}
        }
    }
}

async fn program(plan: Rc<TPlan>, sh: Rc<RefCell<Shared>>) {
    let mut conn: Option<Connection> = None;
    let mut dirty = false;
    for op in &plan.ops {
        let log0 = eng(|e| e.log.len());
        let polls = Rc::new(RefCell::new(0u32));
        let got = Rc::new(RefCell::new(Got::default()));
        let nconn = w(|w| w.conns.len());
        let slot = &mut conn;
        let login = &plan.login;
        let g2 = got.clone();
        let fut = async move {
            if slot.is_none() {
                *slot = Some(Connection::connect(Arc::new(options::<false>(login, 0))).await?);
            }
            act(slot.as_mut().unwrap(), op, &g2).await
        };
        let r = counted(op.cancel, fut, polls.clone()).await;
        sh.borrow_mut().steps.push(StepStat {
            step: op.id,
            part: 0,
            c2s: 0,
            s2c: eng(|e| e.count as u64),
            polls: *polls.borrow(),
            conn: w(|w| w.conns.len()) > nconn,
        });
        w(|w| {
            w.tr(|| {
                let r = match &r {
                    None => "dropped".to_string(),
                    Some(Ok(())) => "ok".to_string(),
                    Some(Err(e)) => format!("failed: {}", eout(e).text),
                };
                format!("op {}: {:?} written as {:?}: {r}", op.id, op.kind, got.borrow().text)
            })
        });
        dirty |= r.is_none() || w(|w| !w.fault_counts.is_empty());
        if eng(|e| !e.unsupported.is_empty()) {
            w(|w| w.viol(&["C20", "C21"], "statement-altered", format!("op {}: {:?} made a statement of another kind", op.id, op.kind)));
            return;
        }
        let log: Vec<Logged> = eng(|e| e.log[log0..].to_vec());
        judge(op, &r, &got.borrow(), &log, dirty);
        let mut probe = |n: &'static str| *sh.borrow_mut().probes.entry(n).or_default() += 1;
        match &r {
            None => {
                probe("op-dropped");
                conn = None
            }
            Some(Err(e)) => {
                probe("op-failed");
                if eout(e).server.is_none() && dirty {
                    conn = None;
                }
            }
            Some(Ok(())) => probe("op-ok"),
        }
    }
}

pub fn run_txt(plan: &TPlan, trace: bool) -> Outcome {
    let plan = Rc::new(plan.clone());
    let mut e = Engine::default();
    let mut cols = vec![tcol("id", ty::LONGLONG, 0, false)];
    cols[0].key = true;
    cols.extend(COLS.iter().map(|c| tcol(c.0, c.1, c.2, true)));
    let mut rows = Vec::new();
    for op in &plan.ops {
        let mut r = vec![Val::Null; cols.len()];
        r[0] = Val::I64(op.id as i64);
        match &op.kind {
            TKind::Find(s) => r[1] = Val::str(s),
            TKind::Hex(x) => r[2] = Val::Bytes(Blob::Lit(x.clone())),
            TKind::Ident(_) | TKind::Word(_) => {}
            _ => continue,
        }
        rows.push(r);
    }
    e.tables.insert("notes".into(), Table { cols, rows, next: 1, unique: false });
    e.faults = plan.efaults.clone();
    let srv = Server::new(plan.seed ^ 0x5EED, vec![plan.login.clone()], Backend::Sql(Box::new(e)));
    let sh = Rc::new(RefCell::new(Shared::default()));
    let task: Task = Box::pin(program(plan.clone(), sh.clone()));
    let (mut world, res) = run(
        || {
            let mut wd = World::new(plan.seed, plan.net.clone(), plan.faults.clone(), srv);
            wd.next_step_hint = mdl::HINT;
            if trace {
                wd.trace = Some(Vec::new());
            }
            wd
        },
        40_000_000,
        vec![task],
    );
    if !res.stuck.is_empty() {
        world.viols.push(Viol { props: vec!["C20".into(), "C21".into(), "*".into()], class: "stuck".into(), msg: "a call never returned".into() });
    }
    let sh = sh.borrow();
    mdl::outcome(world, &sh)
}

// ---------------------------------------------------------------- generation

fn nasty(r: &mut Rng) -> String {
    const BITS: &[&str] = &[
        "'", "\"", "`", "\\", "\0", "\n", "\r", "\t", "\x08", "\x0b", "%", "_", "--", "-- ", "#", "/*", "*/", ";", "$", " ", "  ", "''", "\"\"",
        "``", "\\'", "\\\"", "\\\\", "\\0", "\\z", "\\Z", "\\n", "x'", "0x", "é", "ß", "日本", "\u{1F600}", "\u{FFFF}", "\u{10000}", "\u{10FFFF}",
        "\u{7f}", "\u{80}", "\u{85}", "\u{a0}", "\u{2028}", "\u{3000}", "\u{feff}", "\u{bf27}", "select", " or ", "=", ",", ")", "(", "1", "0", "a", "Z", "id", ".", "?", "@",
        "\u{1}", "\u{1f}", "union", "values", "');", "\");",
    ];
    let n = match r.below(8) {
        0 => 0,
        1..=3 => 1 + r.usize(2),
        4..=6 => r.usize(8),
        _ => r.usize(60),
    };
    let mut s = String::new();
    for _ in 0..n {
        match r.below(10) {
            0..=6 => s.push_str(r.pick(BITS)),
            7 => {
                let n = r.usize(6);
                s.push_str(&r.ident(n));
            }
            8 => s.push(char::from_u32(r.below(0x180) as u32).unwrap()),
            _ => {
                if let Some(c) = char::from_u32(r.log(0x110000) as u32) {
                    s.push(c)
                }
            }
        }
    }
    // rarely, as the server is known to read it as another character
    if r.pct(1) {
        s.push('\x1a');
    } else {
        s = s.replace('\x1a', "");
    }
    s
}

fn value(g: &mut G) -> Val {
    let v = match g.r.below(10) {
        0 => Val::Null,
        1..=3 => mdl::some_int(g),
        4 => {
            let d = g.r.bool();
            g.float(d)
        }
        5 => {
            // powers
            let e = g.r.below(600) as i32 - 300;
            let x = (1.0 + g.r.below(9_000_000) as f64 / 1e6) * 10f64.powi(e) * if g.r.bool() { 1.0 } else { -1.0 };
            if g.r.bool() {
                Val::F64(x.to_bits())
            } else {
                Val::F32(((1.0 + g.r.below(9_000) as f64 / 1e3) * 10f64.powi(e % 37)).to_bits_f32())
            }
        }
        6 => {
            let n = *g.r.pick(&[0usize, 1, 2, 3, 8, 40, 300]);
            Val::Bytes(Blob::Lit(g.r.bytes(n)))
        }
        _ => mdl::some_time(g),
    };
    match v {
        Val::F32(x) if !f32::from_bits(x).is_finite() => Val::F32(1.5f32.to_bits()),
        Val::F64(x) if !f64::from_bits(x).is_finite() => Val::F64(1.5f64.to_bits()),
        // the sign of zero is lost in a decimal
        Val::F32(x) if f32::from_bits(x) == 0.0 => Val::F32(0),
        Val::F64(x) if f64::from_bits(x) == 0.0 => Val::F64(0),
        v => v,
    }
}
trait F32 {
    fn to_bits_f32(self) -> u32;
}
impl F32 for f64 {
    fn to_bits_f32(self) -> u32 {
        (self as f32).to_bits()
    }
}

fn hex_text(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0usize, 1, 2, 3, 5, 20]);
    let mut s = match r.below(5) {
        0 => "0X".to_string(),
        1 => "0".to_string(),
        2 => "x".to_string(),
        3 => "0x".to_string(),
        _ => String::new(),
    };
    let b = r.bytes(n);
    for x in b {
        s += &if r.bool() { format!("{x:02x}") } else { format!("{x:02X}") };
    }
    let mut v = s.into_bytes();
    match r.below(6) {
        0 => {
            v.pop();
        }
        1 if !v.is_empty() => {
            let i = r.usize(v.len());
            v[i] = r.next() as u8;
        }
        _ => {}
    }
    v
}

pub fn gen_txt(escape: bool, seed: u64) -> TPlan {
    let mut r = Rng::new(seed);
    let mut lr = r.fork(1);
    let mut login = gen::gen_login(&mut lr, 0);
    login.secure = false;
    let net = gen::gen_net(&mut r.fork(2), Focus::Mixed, login.timeout);
    let mut g = G { r: &mut lr, next: 10, focus: Focus::Mixed, huge: 0 };
    let n = 2 + g.r.usize(14);
    let ops = (0..n)
        .map(|i| {
            let kind = if escape {
                let s = nasty(g.r);
                match g.r.below(6) {
                    0 | 1 => TKind::Str(s),
                    2 => TKind::Find(s),
                    3 | 4 => TKind::Ident(s),
                    _ => TKind::Word(s),
                }
            } else {
                match g.r.below(12) {
                    0 | 1 => TKind::Hex(hex_text(g.r)),
                    2 => {
                        let n = g.r.usize(40);
                        TKind::Bytes(g.r.bytes(n))
                    }
                    3 => TKind::Show(match g.r.below(3) {
                        0 => Val::Time(g.r.bool(), g.r.next() as u32, g.r.next() as u8, g.r.next() as u8, g.r.next() as u8, g.r.next() as u32),
                        1 => Val::Dt(g.r.next() as u16, g.r.next() as u8, 0, 99, 255, 255, g.r.next() as u32),
                        _ => Val::F64(g.r.next()),
                    }),
                    _ => TKind::Value(value(&mut g)),
                }
            };
            TOp { id: 10 + i as u32, kind, binary: g.r.bool(), cancel: None }
        })
        .collect();
    TPlan { seed: r.next(), login, ops, net, faults: vec![], efaults: vec![] }
}

pub fn derive_txt(base: &TPlan, out: &Outcome, r: &mut Rng) -> TPlan {
    let mut p = base.clone();
    p.seed = r.next();
    if r.pct(30) {
        p.net = gen::gen_net(r, Focus::Mixed, p.login.timeout);
    }
    let t = p.login.timeout;
    for _ in 0..1 + r.usize(2) {
        let k = r.usize(p.ops.len());
        let polls = out.steps.iter().find(|s| s.step == p.ops[k].id).map_or(0, |s| s.polls);
        mdl::disturb(&mut p.faults, &mut p.efaults, &mut p.ops[k].cancel, polls, t, out, r);
    }
    p
}

pub fn shrink_txt(p: &TPlan) -> Vec<TPlan> {
    let mut out = Vec::new();
    for v in removals(&p.ops) {
        out.push(TPlan { ops: v, ..p.clone() });
    }
    for v in removals(&p.faults) {
        out.push(TPlan { faults: v, ..p.clone() });
    }
    for v in removals(&p.efaults) {
        out.push(TPlan { efaults: v, ..p.clone() });
    }
    for n in shrink_net(&p.net) {
        out.push(TPlan { net: n, ..p.clone() });
    }
    for i in 0..p.ops.len() {
        let mut with = |f: &dyn Fn(&mut TOp)| {
            let mut c = p.clone();
            f(&mut c.ops[i]);
            if c.ops[i] != p.ops[i] {
                out.push(c);
            }
        };
        with(&|o| o.cancel = None);
        with(&|o| o.binary = false);
        if let TKind::Str(s) | TKind::Find(s) | TKind::Ident(s) | TKind::Word(s) = &p.ops[i].kind {
            for v in removals(&s.chars().collect::<Vec<_>>()) {
                with(&|o| match &mut o.kind {
                    TKind::Str(s) | TKind::Find(s) | TKind::Ident(s) | TKind::Word(s) => *s = v.iter().collect(),
                    _ => {}
                });
            }
        }
        if let TKind::Hex(s) | TKind::Bytes(s) = &p.ops[i].kind {
            for v in removals(s) {
                with(&|o| match &mut o.kind {
                    TKind::Hex(s) | TKind::Bytes(s) => *s = v.clone(),
                    _ => {}
                });
            }
        }
    }
    out
}
