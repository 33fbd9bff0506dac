//! A small SQL engine: tables, auto-increment keys, joins; enough for the statements the
//! migrator and the derived models send. Every statement is atomic and durable.
use crate::server::PrepInfo;
use crate::val::*;
use crate::world::World;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct TCol {
    pub name: String,
    pub ty: u8,
    pub flags: u16,
    pub nullable: bool,
    pub auto: bool,
    pub key: bool,
    /// Stored if an insert does not name the column.
    pub dflt: Val,
}
pub fn tcol(name: &str, ty: u8, flags: u16, nullable: bool) -> TCol {
    TCol { name: name.into(), ty, flags, nullable, auto: false, key: false, dflt: Val::Null }
}

#[derive(Clone, Debug, Default)]
pub struct Table {
    pub cols: Vec<TCol>,
    pub rows: Vec<Vec<Val>>,
    pub next: u64,
    pub unique: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum EKind {
    /// The statement fails with this error and has no effect.
    Err(ErrSpec),
    /// The connection's server thread dies before / after executing the statement.
    DieBefore,
    DieAfter,
    /// Executed, but the reply never comes.
    Silent,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct EFault {
    pub nth: u32,
    pub kind: EKind,
}

pub enum Ans {
    Reply(Resp),
    Die,
    Silent,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Effect {
    Create(String),
    Drop(String),
    Insert(String, Vec<Val>),
    Update(String, usize),
    Delete(String, Vec<Vec<Val>>),
    Select,
    Failed(u16),
}

#[derive(Clone, Debug)]
pub struct Logged {
    pub t: u64,
    pub conn: u32,
    pub text: String,
    pub params: Option<Vec<Val>>,
    pub effect: Effect,
    /// The client was (possibly) told about it.
    pub fault: Option<&'static str>,
}

/// How SELECT results are presented.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Present {
    /// Rotates/permutes the column order with this seed (0: as asked).
    pub shuffle: u64,
    /// Adds unrelated columns at these positions.
    pub extra: Vec<u8>,
    /// Leaves this selected column out.
    pub omit: Option<u8>,
    /// (row, column, replacement) applied to the presented result only.
    pub spoil: Option<(u32, u8, Val, u8)>,
}

#[derive(Default)]
pub struct Engine {
    pub tables: BTreeMap<String, Table>,
    pub faults: Vec<EFault>,
    pub count: u32,
    pub log: Vec<Logged>,
    pub present: Present,
    pub last_omitted: Option<String>,
    /// (table alias, column) of the spoiled column
    pub last_spoiled: Option<(String, String)>,
    /// The OK packet of an insert also carries a key the client chose itself.
    pub report_explicit: bool,
    pub unsupported: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Word(String),
    Num(String),
    Hex(Vec<u8>),
    Str(String),
    P(char),
}

fn word_char(c: char) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, '_' | '@' | '$' | '\u{80}'..='\u{FFFF}')
}

/// `0x1f` or `x'1f'` and its length.
fn hex_lit(b: &[char]) -> Option<(Vec<u8>, usize)> {
    let quoted = matches!(b, ['x' | 'X', '\'', ..]);
    if !quoted && !matches!(b, ['0', 'x', ..]) {
        return None;
    }
    let mut d: Vec<u8> = b[2..].iter().map_while(|c| c.to_digit(16)).map(|x| x as u8).collect();
    let n = 2 + d.len();
    if quoted {
        if d.len() % 2 == 1 || b.get(n) != Some(&'\'') {
            return None;
        }
    } else if d.is_empty() || b.get(n).is_some_and(|c| word_char(*c)) {
        // a name
        return None;
    } else if d.len() % 2 == 1 {
        d.insert(0, 0);
    }
    Some((d.chunks(2).map(|x| x[0] << 4 | x[1]).collect(), n + quoted as usize))
}

/// A number that is no integer: with an exponent it is a double, otherwise a decimal of up to 65 digits,
/// 30 of them behind the point.
fn number(x: &str) -> Option<f64> {
    if x.contains(['e', 'E']) {
        return x.parse().ok();
    }
    let (neg, y) = match x.strip_prefix('-') {
        Some(y) => (true, y),
        None => (false, x),
    };
    let (int, frac) = y.split_once('.').unwrap_or((y, ""));
    if frac.contains('.') {
        return None;
    }
    let int = int.trim_start_matches('0');
    let v: f64 = if int.len() > 65 {
        "9".repeat(65).parse().ok()?
    } else {
        format!("0{int}.{}0", &frac[..frac.len().min(30)]).parse().ok()?
    };
    Some(if neg { -v } else { v })
}

fn lex(s: &str) -> Option<Vec<Tok>> {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = Vec::new();
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() || c == '\x0b' {
            i += 1;
        } else if c == '`' {
            let mut t = String::new();
            i += 1;
            loop {
                match b.get(i)? {
                    '`' if b.get(i + 1) == Some(&'`') => {
                        t.push('`');
                        i += 2;
                    }
                    '`' => break,
                    // no identifier holds these
                    '\0' | '\u{10000}'.. => return None,
                    x => {
                        t.push(*x);
                        i += 1;
                    }
                }
            }
            i += 1;
            out.push(Tok::Id(t));
        } else if c == '"' || c == '\'' {
            let mut t = String::new();
            i += 1;
            loop {
                match *b.get(i)? {
                    '\\' => {
                        let e = *b.get(i + 1)?;
                        match e {
                            'n' => t.push('\n'),
                            'r' => t.push('\r'),
                            't' => t.push('\t'),
                            '0' => t.push('\0'),
                            'Z' => t.push('\x1a'),
                            'b' => t.push('\x08'),
                            '%' | '_' => {
                                t.push('\\');
                                t.push(e)
                            }
                            x => t.push(x),
                        }
                        i += 2;
                    }
                    x if x == c && b.get(i + 1) == Some(&c) => {
                        t.push(c);
                        i += 2;
                    }
                    x if x == c => break,
                    x => {
                        t.push(x);
                        i += 1;
                    }
                }
            }
            i += 1;
            out.push(Tok::Str(t));
        } else if let Some((h, n)) = hex_lit(&b[i..]) {
            out.push(Tok::Hex(h));
            i += n;
        } else if c.is_ascii_digit() || (c == '-' && b.get(i + 1).is_some_and(|x| x.is_ascii_digit())) {
            let st = i;
            i += 1;
            while i < b.len() && (b[i].is_ascii_digit() || b[i] == '.') {
                i += 1;
            }
            if matches!(b.get(i), Some('e' | 'E')) {
                let sign = matches!(b.get(i + 1), Some('-' | '+')) as usize;
                if b.get(i + 1 + sign).is_some_and(|x| x.is_ascii_digit()) {
                    i += 2 + sign;
                    while i < b.len() && b[i].is_ascii_digit() {
                        i += 1;
                    }
                }
            }
            out.push(Tok::Num(b[st..i].iter().collect()));
        } else if word_char(c) {
            let st = i;
            while i < b.len() && word_char(b[i]) {
                i += 1;
            }
            out.push(Tok::Word(b[st..i].iter().collect()));
        } else {
            out.push(Tok::P(c));
            i += 1;
        }
    }
    Some(out)
}

const RESERVED: &[&str] = &[
    "from", "inner", "join", "left", "right", "cross", "natural", "straight_join", "on", "using", "where", "and", "or", "group", "having",
    "order", "limit", "for", "union", "set", "values", "into", "use", "force", "ignore", "lock", "partition", "window",
];

/// Further words a correct statement may use.
const WORDS: &str = "
    all alter analyze any asc auto_increment avg begin between bigint binary bit blob bool boolean both by byte cascade case cast char
    character charset check coalesce collate column columns comment commit concat constraint convert count cross curdate current_date
    current_time current_timestamp curtime database databases date datetime day dec decimal default delayed desc describe distinct div
    double duplicate dynamic else end engine enum escape except explain false first float for force foreign found_rows full fulltext
    geometry grant group having high_priority hour if ifnull ignore in index innodb int integer intersect interval is isnull json key keys
    last_insert_id lateral leading left length like limit local lock locked longblob longtext low_priority match max mediumblob mediumint
    mediumtext memory min minute mod mode modify month myisam natural no now nowait null nullif numeric of offset only or order outer over
    partition precision primary quick range read recursive references regexp rename replace restrict returning right rlike rollback row
    row_count rows schema second select session share show signed skip sleep smallint sql_no_cache start straight_join substring sum tables
    temporary text then time timestamp tinyblob tinyint tinytext to trailing transaction trim true truncate uncommitted union unique unlock
    unsigned usage use user using utc_timestamp utf8 utf8mb4 uuid varbinary varchar version view when window with work write xor year
    zerofill";

struct Ps {
    t: Vec<Tok>,
    i: usize,
    params: Vec<Val>,
    np: usize,
    bound: bool,
}

impl Ps {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn kw(&mut self, w: &str) -> bool {
        match self.peek() {
            Some(Tok::Word(x)) if x.eq_ignore_ascii_case(w) => {
                self.i += 1;
                true
            }
            _ => false,
        }
    }
    fn p(&mut self, c: char) -> bool {
        if self.peek() == Some(&Tok::P(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn name(&mut self) -> Option<String> {
        match self.t.get(self.i)? {
            Tok::Id(x) | Tok::Word(x) => {
                let x = x.clone();
                self.i += 1;
                Some(x)
            }
            _ => None,
        }
    }
    /// [a.]b
    fn colref(&mut self) -> Option<(Option<String>, String)> {
        let a = self.name()?;
        if self.p('.') {
            Some((Some(a), self.name()?))
        } else {
            Some((None, a))
        }
    }
    /// [[as] a]
    fn alias(&mut self) -> Result<Option<String>, ()> {
        if self.kw("as") {
            return self.name().map(Some).ok_or(());
        }
        match self.peek() {
            Some(Tok::Id(_)) => Ok(self.name()),
            Some(Tok::Word(w)) if !RESERVED.contains(&&*w.to_ascii_lowercase()) => Ok(self.name()),
            _ => Ok(None),
        }
    }
    fn value(&mut self) -> Option<Val> {
        let t = self.t.get(self.i)?.clone();
        self.i += 1;
        Some(match t {
            Tok::P('?') => {
                self.np += 1;
                if self.bound {
                    self.params.get(self.np - 1)?.clone()
                } else {
                    Val::Null
                }
            }
            Tok::Num(x) => match x.parse::<i64>() {
                Ok(v) => Val::I64(v),
                Err(_) => match x.parse::<u64>() {
                    Ok(v) => Val::U64(v),
                    Err(_) => Val::F64(number(&x)?.to_bits()),
                },
            },
            Tok::Hex(x) => Val::Bytes(Blob::Lit(x)),
            Tok::Str(x) => Val::str(&x),
            Tok::Word(x) if x.eq_ignore_ascii_case("null") => Val::Null,
            _ => return None,
        })
    }
    fn end(&mut self) -> bool {
        self.p(';');
        self.i == self.t.len()
    }
}

fn as_int(v: &Val) -> Option<i128> {
    Some(match v {
        Val::I8(x) => *x as i128,
        Val::I16(x) => *x as i128,
        Val::I32(x) => *x as i128,
        Val::I64(x) => *x as i128,
        Val::U8(x) => *x as i128,
        Val::U16(x) => *x as i128,
        Val::U32(x) => *x as i128,
        Val::U64(x) => *x as i128,
        _ => return None,
    })
}

/// `2020-01-02`, `2020-01-02 03:04:05.6` or `-100:00:00.000001`
fn temporal(x: &str, t: u8) -> Option<Val> {
    let num = |x: &str, n: std::ops::RangeInclusive<usize>| -> Option<u32> {
        if n.contains(&x.len()) && x.bytes().all(|b| b.is_ascii_digit()) {
            x.parse().ok()
        } else {
            None
        }
    };
    let date = |x: &str| -> Option<(u16, u8, u8)> {
        let v: Vec<&str> = x.split('-').collect();
        let [y, m, d] = v[..] else { return None };
        Some((num(y, 4..=4)? as u16, num(m, 1..=2)? as u8, num(d, 1..=2)? as u8))
    };
    let time = |x: &str| -> Option<(u32, u8, u8, u32)> {
        let (x, f) = x.split_once('.').unwrap_or((x, ""));
        let us = if f.is_empty() { 0 } else { num(f, 1..=6)? * 10u32.pow(6 - f.len() as u32) };
        let v: Vec<&str> = x.split(':').collect();
        let (h, m, s) = match v[..] {
            [h, m, s] => (h, m, s),
            [h, m] if f.is_empty() => (h, m, "0"),
            _ => return None,
        };
        let (h, m, s) = (num(h, 1..=3)?, num(m, 1..=2)?, num(s, 1..=2)?);
        (m < 60 && s < 60).then_some((h, m as u8, s as u8, us))
    };
    Some(match t {
        ty::DATE => {
            let (y, m, d) = date(x)?;
            Val::Date(y, m, d)
        }
        ty::TIME => {
            let (neg, x) = match x.strip_prefix('-') {
                Some(x) => (true, x),
                None => (false, x),
            };
            let (d, x) = x.split_once(' ').unwrap_or(("0", x));
            let d = num(d, 1..=2).filter(|d| *d <= 34)?;
            let (h, m, s, us) = time(x)?;
            let h = d * 24 + h;
            if h > 838 {
                return None;
            }
            Val::Time(neg, h / 24, (h % 24) as u8, m, s, us)
        }
        _ => {
            let (a, b) = x.split_once([' ', 'T']).unwrap_or((x, "00:00:00"));
            let ((y, mo, d), (h, m, s, us)) = (date(a)?, time(b)?);
            if h > 23 {
                return None;
            }
            Val::Dt(y, mo, d, h as u8, m, s, us)
        }
    })
}

/// Converts to the column's storage type as a strict-mode server does.
fn coerce(v: &Val, c: &TCol) -> Result<Val, ErrSpec> {
    let u = c.flags & UNSIGNED != 0;
    let bad = || ErrSpec::new(1264, "22003", &format!("Out of range value for column '{}': {}", c.name, v.brief()));
    if *v == Val::Null {
        return if c.nullable || c.auto {
            Ok(Val::Null)
        } else {
            Err(ErrSpec::new(1048, "23000", &format!("Column '{}' cannot be null", c.name)))
        };
    }
    if let Some(x) = as_int(v) {
        return Ok(match (c.ty, u) {
            (ty::TINY, false) => Val::I8(x.try_into().map_err(|_| bad())?),
            (ty::TINY, true) => Val::U8(x.try_into().map_err(|_| bad())?),
            (ty::SHORT, false) => Val::I16(x.try_into().map_err(|_| bad())?),
            (ty::SHORT | ty::YEAR, true) => Val::U16(x.try_into().map_err(|_| bad())?),
            (ty::LONG | ty::INT24, false) => Val::I32(x.try_into().map_err(|_| bad())?),
            (ty::LONG | ty::INT24, true) => Val::U32(x.try_into().map_err(|_| bad())?),
            (ty::LONGLONG, false) => Val::I64(x.try_into().map_err(|_| bad())?),
            (ty::LONGLONG, true) => Val::U64(x.try_into().map_err(|_| bad())?),
            (ty::FLOAT, _) => Val::F32((x as f32).to_bits()),
            (ty::DOUBLE, _) => Val::F64((x as f64).to_bits()),
            _ => return Err(bad()),
        });
    }
    if let Val::Date(y, ..) | Val::Dt(y, ..) = v {
        if *y > 9999 {
            return Err(bad());
        }
    }
    match (v, c.ty) {
        (Val::F64(x), ty::FLOAT) => {
            let f = f64::from_bits(*x) as f32;
            return if f.is_finite() { Ok(Val::F32(f.to_bits())) } else { Err(bad()) };
        }
        (Val::Bytes(b), ty::DATE | ty::TIME | ty::DATETIME | ty::TIMESTAMP) => {
            if let Some(x) = std::str::from_utf8(&b.bytes()).ok().and_then(|x| temporal(x, c.ty)) {
                return Ok(x);
            }
        }
        _ => {}
    }
    let ok = match v {
        Val::F32(_) => c.ty == ty::FLOAT,
        Val::F64(_) => c.ty == ty::DOUBLE,
        Val::Bytes(_) => ty::STRINGS.contains(&c.ty),
        Val::Date(y, m, d) if c.ty == ty::DATETIME || c.ty == ty::TIMESTAMP => return Ok(Val::Dt(*y, *m, *d, 0, 0, 0, 0)),
        Val::Date(..) => c.ty == ty::DATE,
        Val::Dt(..) => c.ty == ty::DATETIME || c.ty == ty::TIMESTAMP,
        Val::Time(..) => c.ty == ty::TIME,
        _ => false,
    };
    if ok {
        Ok(match v {
            Val::Bytes(b) => Val::Bytes(Blob::Lit(b.bytes())),
            x => x.clone(),
        })
    } else {
        Err(ErrSpec::new(1366, "HY000", &format!("Incorrect value for column '{}': {}", c.name, v.brief())))
    }
}

fn eq(a: &Val, b: &Val) -> bool {
    match (as_int(a), as_int(b)) {
        (Some(x), Some(y)) => x == y,
        _ => a.same(b) && *a != Val::Null,
    }
}

enum Fail {
    Sql(ErrSpec),
    /// Not understood: an error of the statement or a gap of this engine.
    Unsupported,
    /// Correct SQL that is not implemented here.
    Beyond,
}
impl From<ErrSpec> for Fail {
    fn from(e: ErrSpec) -> Self {
        Fail::Sql(e)
    }
}

fn no_table(t: &str) -> ErrSpec {
    ErrSpec::new(1146, "42S02", &format!("Table 'db.{t}' doesn't exist"))
}
fn no_col(c: &str) -> ErrSpec {
    ErrSpec::new(1054, "42S22", &format!("Unknown column '{c}'"))
}
fn dup() -> ErrSpec {
    ErrSpec::new(1062, "23000", "Duplicate entry")
}

impl Engine {
    pub fn colspec(alias: &str, table: &str, c: &TCol) -> ColSpec {
        ColSpec {
            name: c.name.clone(),
            org_name: c.name.clone(),
            table: alias.into(),
            org_table: table.into(),
            ty: c.ty,
            flags: c.flags,
            charset: 45,
            len: 1024,
            decimals: if matches!(c.ty, ty::TIME | ty::DATETIME | ty::TIMESTAMP) { 6 } else { 0 },
        }
    }

    pub fn prepare(&mut self, conn: u32, text: &str, w: &mut World) -> Result<PrepInfo, ErrSpec> {
        let n = self.count;
        self.count += 1;
        if let Some(EFault { kind: EKind::Err(e), .. }) = self.faults.iter().find(|f| f.nth == n) {
            let e = e.clone();
            self.log.push(Logged {
                t: w.now(),
                conn,
                text: text.into(),
                params: None,
                effect: Effect::Failed(e.code),
                fault: Some("prepare-error"),
            });
            w.inject("prepare-error");
            return Err(e);
        }
        let syntax = ErrSpec::new(1064, "42000", "You have an error in your SQL syntax");
        let Some(t) = lex(text) else { return Err(syntax) };
        let np = t.iter().filter(|x| **x == Tok::P('?')).count();
        Ok(PrepInfo { params: np as u16, cols: Rc::new(Vec::new()), warnings: 0 })
    }

    /// Executes one statement; `n`-th statement faults apply here.
    pub fn exec(&mut self, conn: u32, text: &str, params: Option<&[Val]>, w: &mut World) -> Ans {
        let n = self.count;
        self.count += 1;
        let fault = self.faults.iter().find(|f| f.nth == n).map(|f| f.kind.clone());
        let log = |s: &mut Self, effect: Effect, fault: Option<&'static str>| {
            s.log.push(Logged {
                t: w.now(),
                conn,
                text: text.into(),
                params: params.map(|x| x.to_vec()),
                effect,
                fault,
            });
        };
        match &fault {
            Some(EKind::Err(e)) => {
                log(self, Effect::Failed(e.code), Some("statement-error"));
                w.inject("statement-error");
                return Ans::Reply(Resp::Err(e.clone()));
            }
            Some(EKind::DieBefore) => {
                log(self, Effect::Failed(0), Some("crash-before"));
                w.inject("crash-before-statement");
                return Ans::Die;
            }
            _ => {}
        }
        let r = self.run(text, params);
        let (resp, effect) = match r {
            Ok(x) => x,
            Err(Fail::Sql(e)) => {
                let c = e.code;
                (Resp::Err(e), Effect::Failed(c))
            }
            Err(f) => {
                if matches!(f, Fail::Beyond) || !self.malformed(text) {
                    self.unsupported.push(text.to_string());
                }
                (Resp::Err(ErrSpec::new(1064, "42000", "You have an error in your SQL syntax")), Effect::Failed(1064))
            }
        };
        match fault {
            Some(EKind::DieAfter) => {
                log(self, effect, Some("crash-after"));
                w.inject("crash-after-statement");
                Ans::Die
            }
            Some(EKind::Silent) => {
                log(self, effect, Some("lost-reply"));
                w.inject("lost-reply");
                Ans::Silent
            }
            _ => {
                log(self, effect, None);
                Ans::Reply(resp)
            }
        }
    }

    fn ok(affected: u64, last_id: u64) -> Resp {
        Resp::Ok(OkSpec { affected, last_id, status: 2, warnings: 0, info: None })
    }

    /// Is a statement that was not understood certainly wrong? It is if it uses nothing but what
    /// this engine implements.
    fn malformed(&self, text: &str) -> bool {
        const KNOWN: &[&str] = &[
            "select", "from", "inner", "join", "as", "on", "where", "and", "insert", "into", "values", "value", "update", "set", "delete", "null",
            "create", "drop", "table", "if", "not", "exists", "information_schema", "table_name", "table_schema", "database", "schema",
        ];
        let Some(t) = lex(text) else { return true };
        let mut depth = 0;
        for (i, x) in t.iter().enumerate() {
            match x {
                Tok::P('(') => depth += 1,
                Tok::P(')') => depth -= 1,
                Tok::P(',') if matches!(t.get(i + 1), None | Some(Tok::P(')' | ',' | ';'))) => return true,
                _ => {}
            }
            if depth < 0 {
                return true;
            }
        }
        let name = |w: &str| {
            self.tables.iter().any(|(n, t)| n.eq_ignore_ascii_case(w) || t.cols.iter().any(|c| c.name.eq_ignore_ascii_case(w)))
        };
        let known = |w: &str| KNOWN.contains(&&*w.to_ascii_lowercase()) || name(w);
        // a word that is neither one of the language nor can be an alias
        let odd = t.iter().enumerate().any(|(i, x)| match x {
            Tok::Word(w) if !known(w) && !WORDS.split_whitespace().any(|k| k.eq_ignore_ascii_case(w)) && !w.starts_with('@') => {
                let as_before = i > 0 && matches!(&t[i - 1], Tok::Word(a) if a.eq_ignore_ascii_case("as"));
                !as_before
                    && !t.iter().enumerate().any(|(j, y)| {
                        *y == *x && (t.get(j + 1) == Some(&Tok::P('.')) || j > 0 && t[j - 1] == Tok::P('.'))
                    })
            }
            _ => false,
        });
        depth != 0
            || odd
            || t.iter().all(|x| match x {
                Tok::Word(w) => known(w),
                Tok::P(c) => "(),.=*;?".contains(*c),
                _ => true,
            })
    }

    fn run(&mut self, text: &str, params: Option<&[Val]>) -> Result<(Resp, Effect), Fail> {
        let t = lex(text).ok_or(Fail::Unsupported)?;
        let mut p = Ps { t, i: 0, params: params.unwrap_or(&[]).to_vec(), np: 0, bound: params.is_some() };
        let p = &mut p;
        if p.kw("create") {
            if !p.kw("table") {
                return Err(Fail::Unsupported);
            }
            let ine = p.kw("if");
            if ine && !(p.kw("not") && p.kw("exists")) {
                return Err(Fail::Unsupported);
            }
            let n = p.name().ok_or(Fail::Unsupported)?;
            let cols = create_cols(p).ok_or(Fail::Unsupported)?;
            if self.tables.contains_key(&n) {
                return if ine {
                    Ok((Self::ok(0, 0), Effect::Create(n)))
                } else {
                    Err(ErrSpec::new(1050, "42S01", &format!("Table '{n}' already exists")).into())
                };
            }
            self.tables.insert(n.clone(), Table { cols, rows: vec![], next: 1, unique: n == "migrations" });
            return Ok((Self::ok(0, 0), Effect::Create(n)));
        }
        if p.kw("drop") {
            if !p.kw("table") {
                return Err(Fail::Unsupported);
            }
            let ie = p.kw("if") && p.kw("exists");
            let n = p.name().ok_or(Fail::Unsupported)?;
            if self.tables.remove(&n).is_none() && !ie {
                return Err(no_table(&n).into());
            }
            return Ok((Self::ok(0, 0), Effect::Drop(n)));
        }
        if p.kw("insert") {
            if !p.kw("into") {
                return Err(Fail::Unsupported);
            }
            let n = p.name().ok_or(Fail::Unsupported)?;
            let mut names = Vec::new();
            let mut vals = Vec::new();
            if p.kw("set") {
                loop {
                    names.push(p.colref().ok_or(Fail::Unsupported)?.1);
                    if !p.p('=') {
                        return Err(Fail::Unsupported);
                    }
                    vals.push(p.value().ok_or(Fail::Unsupported)?);
                    if !p.p(',') {
                        break;
                    }
                }
            } else {
                if p.p('(') && !p.p(')') {
                    loop {
                        names.push(p.colref().ok_or(Fail::Unsupported)?.1);
                        if !p.p(',') {
                            break;
                        }
                    }
                    if !p.p(')') {
                        return Err(Fail::Unsupported);
                    }
                }
                if !p.kw("values") && !p.kw("value") || !p.p('(') {
                    return Err(Fail::Unsupported);
                }
                if !p.p(')') {
                    loop {
                        vals.push(p.value().ok_or(Fail::Unsupported)?);
                        if !p.p(',') {
                            break;
                        }
                    }
                    if !p.p(')') {
                        return Err(Fail::Unsupported);
                    }
                }
                if p.peek() == Some(&Tok::P(',')) && p.t.get(p.i + 1) == Some(&Tok::P('(')) || names.is_empty() && !vals.is_empty() {
                    return Err(Fail::Beyond);
                }
            }
            if !p.end() {
                return Err(Fail::Unsupported);
            }
            if vals.len() != names.len() {
                return Err(ErrSpec::new(1136, "21S01", "Column count doesn't match value count").into());
            }
            let tb = self.tables.get_mut(&n).ok_or_else(|| no_table(&n))?;
            let mut row = vec![None; tb.cols.len()];
            for (c, v) in names.iter().zip(&vals) {
                let k = tb.cols.iter().position(|x| x.name == *c).ok_or_else(|| no_col(c))?;
                if row[k].is_some() {
                    return Err(ErrSpec::new(1110, "42000", &format!("Column '{c}' specified twice")).into());
                }
                row[k] = Some(coerce(v, &tb.cols[k])?);
            }
            let mut gen = 0;
            let mut out = Vec::new();
            for (k, v) in row.into_iter().enumerate() {
                let c = &tb.cols[k];
                out.push(match v {
                    Some(x) if !(c.auto && x == Val::Null) => {
                        if c.auto {
                            if let Some(i) = as_int(&x) {
                                tb.next = tb.next.max((i.max(0) as u64).saturating_add(1));
                            }
                        }
                        x
                    }
                    _ if c.auto => {
                        gen = tb.next;
                        tb.next += 1;
                        coerce(&Val::U64(gen), c)?
                    }
                    _ => c.dflt.clone(),
                });
            }
            if let Some(k) = tb.cols.iter().position(|c| c.auto || c.key) {
                if tb.rows.iter().any(|r| eq(&r[k], &out[k])) {
                    return Err(dup().into());
                }
            }
            if tb.unique && tb.rows.iter().any(|r| r[..4] == out[..4]) {
                return Err(dup().into());
            }
            tb.rows.push(out.clone());
            if let (true, Some(k)) = (self.report_explicit && gen == 0, tb.cols.iter().position(|c| c.auto)) {
                gen = as_int(&out[k]).map(|x| x as u64).unwrap_or(0);
            }
            return Ok((Self::ok(1, gen), Effect::Insert(n, out)));
        }
        if p.kw("update") {
            let n = p.name().ok_or(Fail::Unsupported)?;
            if !p.kw("set") {
                return Err(Fail::Unsupported);
            }
            let mut sets = Vec::new();
            loop {
                let c = p.colref().ok_or(Fail::Unsupported)?.1;
                if !p.p('=') {
                    return Err(Fail::Unsupported);
                }
                sets.push((c, p.value().ok_or(Fail::Unsupported)?));
                if !p.p(',') {
                    break;
                }
            }
            let tb = self.tables.get_mut(&n).ok_or_else(|| no_table(&n))?;
            let wh = conj(p, tb)?;
            if !p.end() {
                return Err(Fail::Unsupported);
            }
            let mut cs = Vec::new();
            for (c, v) in &sets {
                let k = tb.cols.iter().position(|x| x.name == *c).ok_or_else(|| no_col(c))?;
                cs.push((k, coerce(v, &tb.cols[k])?));
            }
            for (k, v) in cs.iter().filter(|c| tb.cols[c.0].key) {
                let is = |r: &Vec<Val>| wh.iter().all(|(k, v)| eq(&r[*k], v));
                let n = tb.rows.iter().filter(|r| is(r)).count();
                if n > 1 || n == 1 && tb.rows.iter().any(|r| !is(r) && eq(&r[*k], v)) {
                    return Err(dup().into());
                }
            }
            let mut hit = 0;
            for r in tb.rows.iter_mut() {
                if wh.iter().all(|(k, v)| eq(&r[*k], v)) {
                    hit += 1;
                    for (k, v) in &cs {
                        r[*k] = v.clone();
                    }
                }
            }
            return Ok((Self::ok(hit as u64, 0), Effect::Update(n, hit)));
        }
        if p.kw("delete") {
            if !p.kw("from") {
                return Err(Fail::Unsupported);
            }
            let n = p.name().ok_or(Fail::Unsupported)?;
            let tb = self.tables.get_mut(&n).ok_or_else(|| no_table(&n))?;
            let wh = conj(p, tb)?;
            if !p.end() {
                return Err(Fail::Unsupported);
            }
            let mut gone = Vec::new();
            tb.rows.retain(|r| {
                let hit = wh.iter().all(|(k, v)| eq(&r[*k], v));
                if hit {
                    gone.push(r.clone());
                }
                !hit
            });
            return Ok((Self::ok(gone.len() as u64, 0), Effect::Delete(n, gone)));
        }
        if p.kw("select") {
            return self.select(p).map(|r| (r, Effect::Select));
        }
        Err(Fail::Unsupported)
    }

    fn select(&mut self, p: &mut Ps) -> Result<Resp, Fail> {
        enum Item {
            Col(Option<String>, String, String),
            Lit(Val, String),
            All,
        }
        let mut items = Vec::new();
        loop {
            let it = match p.peek().ok_or(Fail::Unsupported)?.clone() {
                Tok::P('*') => {
                    p.i += 1;
                    Item::All
                }
                Tok::Num(x) => Item::Lit(p.value().ok_or(Fail::Unsupported)?, x),
                _ => {
                    let (a, c) = p.colref().ok_or(Fail::Unsupported)?;
                    if p.peek() == Some(&Tok::P('.')) && p.t.get(p.i + 1) == Some(&Tok::P('*')) {
                        return Err(Fail::Beyond);
                    }
                    let name = p.alias().map_err(|_| Fail::Unsupported)?.unwrap_or_else(|| c.clone());
                    Item::Col(a, c, name)
                }
            };
            items.push(it);
            if !p.p(',') {
                break;
            }
        }
        if !p.kw("from") {
            return Err(Fail::Unsupported);
        }
        let (q, n) = p.colref().ok_or(Fail::Unsupported)?;
        if q.as_deref().is_some_and(|q| q.eq_ignore_ascii_case("information_schema")) {
            return self.info_schema(p, &n);
        }
        // (alias, table)
        let mut srcs: Vec<(String, String)> = Vec::new();
        let alias = p.alias().map_err(|_| Fail::Unsupported)?.unwrap_or_else(|| n.clone());
        srcs.push((alias, n.clone()));
        let tb = self.tables.get(&n).ok_or_else(|| no_table(&n))?;
        let mut rows: Vec<Vec<Vec<Val>>> = tb.rows.iter().map(|r| vec![r.clone()]).collect();
        loop {
            p.kw("inner");
            if !p.kw("join") {
                break;
            }
            let n = p.name().ok_or(Fail::Unsupported)?;
            let alias = p.alias().map_err(|_| Fail::Unsupported)?.unwrap_or_else(|| n.clone());
            if srcs.iter().any(|s| s.0 == alias) {
                return Err(ErrSpec::new(1066, "42000", &format!("Not unique table/alias: '{alias}'")).into());
            }
            if !p.kw("on") {
                return Err(Fail::Unsupported);
            }
            let par = p.p('(');
            let a = p.colref().ok_or(Fail::Unsupported)?;
            if !p.p('=') {
                return Err(Fail::Unsupported);
            }
            let b = p.colref().ok_or(Fail::Unsupported)?;
            if p.kw("and") {
                return Err(Fail::Beyond);
            }
            if par && !p.p(')') {
                return Err(Fail::Unsupported);
            }
            let tb = self.tables.get(&n).ok_or_else(|| no_table(&n))?.clone();
            srcs.push((alias, n));
            let (x, y) = (self.find(&srcs, &a)?, self.find(&srcs, &b)?);
            let last = srcs.len() - 1;
            let mut next = Vec::new();
            for r in rows {
                for j in &tb.rows {
                    let g = |(s, c): (usize, usize)| if s == last { &j[c] } else { &r[s][c] };
                    if eq(g(x), g(y)) {
                        let mut k = r.clone();
                        k.push(j.clone());
                        next.push(k);
                    }
                }
            }
            rows = next;
        }
        if p.kw("where") {
            loop {
                if matches!(p.peek(), Some(Tok::P('(' | '?') | Tok::Num(_) | Tok::Str(_))) {
                    return Err(Fail::Beyond);
                }
                let c = p.colref().ok_or(Fail::Unsupported)?;
                if !p.p('=') {
                    return Err(Fail::Unsupported);
                }
                let v = p.value().ok_or(Fail::Unsupported)?;
                let at = self.find(&srcs, &c)?;
                rows.retain(|r| eq(&r[at.0][at.1], &v));
                if !p.kw("and") {
                    break;
                }
            }
        }
        if !p.end() {
            return Err(Fail::Unsupported);
        }
        let mut cols: Vec<ColSpec> = Vec::new();
        let mut pick: Vec<Result<(usize, usize), Val>> = Vec::new();
        for it in items {
            match it {
                Item::Lit(v, name) => {
                    cols.push(ColSpec {
                        name,
                        org_name: String::new(),
                        table: String::new(),
                        org_table: String::new(),
                        ty: ty::LONGLONG,
                        flags: 0,
                        charset: 63,
                        len: 1,
                        decimals: 0,
                    });
                    pick.push(Err(v));
                }
                Item::Col(a, c, name) => {
                    let at = self.find(&srcs, &(a, c))?;
                    let tb = &self.tables[&srcs[at.0].1];
                    let mut cs = Self::colspec(&srcs[at.0].0, &srcs[at.0].1, &tb.cols[at.1]);
                    cs.name = name;
                    cols.push(cs);
                    pick.push(Ok(at));
                }
                Item::All => {
                    for (s, (alias, n)) in srcs.iter().enumerate() {
                        for (k, c) in self.tables[n].cols.iter().enumerate() {
                            cols.push(Self::colspec(alias, n, c));
                            pick.push(Ok((s, k)));
                        }
                    }
                }
            }
        }
        let mut out: Vec<Vec<Val>> = rows
            .iter()
            .map(|r| {
                pick.iter()
                    .map(|p| match p {
                        Ok((s, c)) => r[*s][*c].clone(),
                        Err(v) => v.clone(),
                    })
                    .collect()
            })
            .collect();
        self.presentation(&mut cols, &mut out);
        Ok(Resp::Rows(RowsSpec {
            cols: Rc::new(cols),
            rows: Rc::new(out),
            end: EndSpec { status: 2, warnings: 0, info: None, counts: (0, 0) },
            abort: None,
        }))
    }

    fn presentation(&mut self, cols: &mut Vec<ColSpec>, rows: &mut [Vec<Val>]) {
        let pr = self.present.clone();
        self.last_omitted = None;
        self.last_spoiled = None;
        if let Some((r, c, v, ty)) = &pr.spoil {
            if !rows.is_empty() && !cols.is_empty() {
                let (r, c) = (*r as usize % rows.len(), *c as usize % cols.len());
                rows[r][c] = v.clone();
                self.last_spoiled = Some((cols[c].table.clone(), cols[c].name.clone()));
                if *v != Val::Null {
                    // the column is of another type for the whole result
                    cols[c].ty = *ty;
                    cols[c].flags = if matches!(v, Val::U8(_) | Val::U16(_) | Val::U32(_) | Val::U64(_)) { 32 } else { 0 };
                    for (i, row) in rows.iter_mut().enumerate() {
                        if i != r {
                            row[c] = v.clone();
                        }
                    }
                }
            }
        }
        if let Some(o) = pr.omit {
            if cols.len() > 1 {
                let k = o as usize % cols.len();
                let c = cols.remove(k);
                self.last_omitted = Some(format!("{}.{}", c.table, c.name));
                for r in rows.iter_mut() {
                    r.remove(k);
                }
            }
        }
        for (i, x) in pr.extra.iter().enumerate() {
            let k = *x as usize % (cols.len() + 1);
            let t = ["zz_other", "", "ext.nested"][i % 3];
            cols.insert(
                k,
                ColSpec {
                    name: format!("extra_{i}"),
                    org_name: format!("extra_{i}"),
                    table: t.into(),
                    org_table: "zz".into(),
                    ty: ty::VARSTRING,
                    flags: 0,
                    charset: 45,
                    len: 10,
                    decimals: 0,
                },
            );
            for r in rows.iter_mut() {
                r.insert(k, Val::str("unrelated"));
            }
        }
        if pr.shuffle != 0 {
            let mut rng = crate::rng::Rng::new(pr.shuffle);
            let n = cols.len();
            for i in (1..n).rev() {
                let j = rng.usize(i + 1);
                cols.swap(i, j);
                for r in rows.iter_mut() {
                    r.swap(i, j);
                }
            }
        }
    }

    fn find(&self, srcs: &[(String, String)], c: &(Option<String>, String)) -> Result<(usize, usize), Fail> {
        let mut hit = None;
        for (s, (alias, n)) in srcs.iter().enumerate() {
            if c.0.as_ref().is_some_and(|a| a != alias) {
                continue;
            }
            if let Some(k) = self.tables[n].cols.iter().position(|x| x.name == c.1) {
                if hit.is_some() {
                    return Err(ErrSpec::new(1052, "23000", &format!("Column '{}' is ambiguous", c.1)).into());
                }
                hit = Some((s, k));
            }
        }
        hit.ok_or_else(|| no_col(&c.1).into())
    }

    fn info_schema(&mut self, p: &mut Ps, view: &str) -> Result<Resp, Fail> {
        let v = view.to_ascii_uppercase();
        if v != "PARTITIONS" && v != "TABLES" {
            return Err(Fail::Unsupported);
        }
        let mut name = None;
        if p.kw("where") {
            loop {
                let c = p.colref().ok_or(Fail::Unsupported)?.1;
                if !p.p('=') {
                    return Err(Fail::Unsupported);
                }
                if c.eq_ignore_ascii_case("table_schema") {
                    if !((p.kw("database") || p.kw("schema")) && p.p('(') && p.p(')')) {
                        return Err(Fail::Unsupported);
                    }
                } else {
                    let Some(Val::Bytes(b)) = p.value() else { return Err(Fail::Unsupported) };
                    name = Some(String::from_utf8_lossy(&b.bytes()).into_owned());
                }
                if !p.kw("and") {
                    break;
                }
            }
        }
        let n = self.tables.keys().filter(|k| name.as_ref().is_none_or(|n| n == *k)).count();
        let cols = vec![ColSpec {
            name: "1".into(),
            org_name: String::new(),
            table: String::new(),
            org_table: String::new(),
            ty: ty::LONGLONG,
            flags: 1,
            charset: 63,
            len: 1,
            decimals: 0,
        }];
        Ok(Resp::Rows(RowsSpec {
            cols: Rc::new(cols),
            rows: Rc::new(vec![vec![Val::I64(1)]; n]),
            end: EndSpec { status: 2, warnings: 0, info: None, counts: (0, 0) },
            abort: None,
        }))
    }
}

/// `where a = v and ...`
fn conj(p: &mut Ps, tb: &Table) -> Result<Vec<(usize, Val)>, Fail> {
    let mut out = Vec::new();
    if p.kw("where") {
        loop {
            if matches!(p.peek(), Some(Tok::P('(' | '?') | Tok::Num(_) | Tok::Str(_))) {
                return Err(Fail::Beyond);
            }
            let c = p.colref().ok_or(Fail::Unsupported)?.1;
            if !p.p('=') {
                return Err(Fail::Unsupported);
            }
            let v = p.value().ok_or(Fail::Unsupported)?;
            let k = tb.cols.iter().position(|x| x.name == c).ok_or_else(|| no_col(&c))?;
            out.push((k, v));
            if !p.kw("and") {
                break;
            }
        }
    }
    Ok(out)
}

fn create_cols(p: &mut Ps) -> Option<Vec<TCol>> {
    if !p.p('(') {
        return None;
    }
    let mut cols = Vec::new();
    loop {
        // one definition up to a comma or the closing parenthesis at depth 0
        let mut depth = 0;
        let mut def = Vec::new();
        let done = loop {
            let t = p.peek()?.clone();
            p.i += 1;
            match t {
                Tok::P('(') => depth += 1,
                Tok::P(')') if depth == 0 => break true,
                Tok::P(')') => depth -= 1,
                Tok::P(',') if depth == 0 => break false,
                _ => {}
            }
            def.push(t);
        };
        if let Some(Tok::Id(n)) = def.first() {
            let words: Vec<String> = def
                .iter()
                .filter_map(|t| if let Tok::Word(w) = t { Some(w.to_ascii_lowercase()) } else { None })
                .collect();
            let t = match words.first().map(|x| x.as_str()) {
                Some("tinyint") => ty::TINY,
                Some("smallint") => ty::SHORT,
                Some("int" | "integer") => ty::LONG,
                Some("bigint") => ty::LONGLONG,
                Some("datetime") => ty::DATETIME,
                _ => ty::VARSTRING,
            };
            let u = words.iter().any(|w| w == "unsigned");
            let dflt = words.iter().any(|w| w == "default");
            let nn = words.windows(2).any(|w| w[0] == "not" && w[1] == "null") && !dflt;
            cols.push(tcol(n, t, if u { UNSIGNED } else { 0 }, !nn));
        }
        if done {
            return Some(cols);
        }
    }
}
