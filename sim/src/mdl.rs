//! Models: derived models are inserted, updated and selected against the SQL engine; the oracle is a
//! small reference database that is advanced by what each operation has to do.
use crate::conn::*;
use crate::engine::*;
use crate::gen::{self, Focus, G};
use crate::plan::{removals, shrink_net};
use crate::rng::Rng;
use crate::server::*;
use crate::val::*;
use crate::world::*;
use mysql_connector::error::Error;
use mysql_connector::macros::*;
use mysql_connector::model::*;
use mysql_connector::types::{Hex, Value};
use mysql_connector::Connection;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

// ---------------------------------------------------------------- shapes

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    Bool,
    Str,
    Bytes,
    Date,
    Dt,
    Dur,
}
#[derive(Clone, Debug)]
pub struct SCol {
    pub name: String,
    pub k: K,
    pub opt: bool,
}
#[derive(Clone, Debug)]
pub struct Shape {
    pub table: &'static str,
    pub pk: &'static str,
    pub auto: bool,
    pub simple: Vec<SCol>,
    pub structs: Vec<Vec<SCol>>,
    pub refs: Vec<(&'static str, Shape)>,
}
/// One field of a tree: simple fields first, then structs, then references.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum FV {
    Unset,
    /// `Val::BadText` marks a value that cannot be sent.
    Val(Val),
    St(Vec<Val>),
    Key(Val),
    Ins(Box<Tree>),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Tree {
    pub f: Vec<FV>,
}

/// The column of a field.
fn bare(field: &'static str) -> &'static str {
    field.trim_start_matches("r#")
}

trait Scalar {
    const K: K;
    const OPT: bool = false;
    fn get(v: &Val) -> Self;
    fn put(&self) -> Val;
}
macro_rules! scalar {
    ($t:ty, $k:ident, |$v:ident| $get:expr, |$s:ident| $put:expr) => {
        impl Scalar for $t {
            const K: K = K::$k;
            fn get($v: &Val) -> Self {
                $get
            }
            fn put(&self) -> Val {
                let $s = self;
                $put
            }
        }
    };
}
macro_rules! nums {
    ($($t:ty, $k:ident;)*) => {
        $(scalar!($t, $k, |v| match v { Val::$k(x) => *x, _ => panic!("plan: {v:?}") }, |s| Val::$k(*s));)*
    };
}
nums!(i8, I8; i16, I16; i32, I32; i64, I64; u8, U8; u16, U16; u32, U32; u64, U64;);
scalar!(f32, F32, |v| match v { Val::F32(x) => f32::from_bits(*x), _ => panic!("plan") }, |s| Val::F32(s.to_bits()));
scalar!(f64, F64, |v| match v { Val::F64(x) => f64::from_bits(*x), _ => panic!("plan") }, |s| Val::F64(s.to_bits()));
scalar!(bool, Bool, |v| *v == Val::I8(1), |s| Val::I8(*s as i8));
fn raw(v: &Val) -> Vec<u8> {
    match v {
        Val::Bytes(b) => b.bytes(),
        _ => panic!("plan"),
    }
}
scalar!(String, Str, |v| String::from_utf8(raw(v)).unwrap(), |s| Val::Bytes(Blob::Lit(s.clone().into_bytes())));
scalar!(Vec<u8>, Bytes, |v| raw(v), |s| Val::Bytes(Blob::Lit(s.clone())));
scalar!(Hex, Bytes, |v| Hex::new(raw(v)), |s| Val::Bytes(Blob::Lit(s.0.clone())));
use chrono::{Datelike, Timelike};
scalar!(
    chrono::NaiveDate,
    Date,
    |v| match v {
        Val::Date(y, m, d) => chrono::NaiveDate::from_ymd_opt(*y as i32, *m as u32, *d as u32).unwrap(),
        Val::BadText(b) => chrono::NaiveDate::from_ymd_opt(if b[0] % 2 == 0 { -5 } else { 70_000 }, 2, 3).unwrap(),
        _ => panic!("plan"),
    },
    |s| Val::Date(s.year() as u16, s.month() as u8, s.day() as u8)
);
scalar!(
    chrono::NaiveDateTime,
    Dt,
    |v| match v {
        Val::Dt(y, mo, d, h, m, s, u) => chrono::NaiveDate::from_ymd_opt(*y as i32, *mo as u32, *d as u32)
            .unwrap()
            .and_hms_micro_opt(*h as u32, *m as u32, *s as u32, *u)
            .unwrap(),
        Val::BadText(b) => chrono::NaiveDate::from_ymd_opt([-5, 70_000, 2016][b[0] as usize % 3], 12, 31)
            .unwrap()
            .and_hms_micro_opt(23, 59, 59, [5, 5, 1_250_000][b[0] as usize % 3])
            .unwrap(),
        _ => panic!("plan"),
    },
    |s| Val::Dt(
        s.year() as u16,
        s.month() as u8,
        s.day() as u8,
        s.hour() as u8,
        s.minute() as u8,
        s.second() as u8,
        s.nanosecond() / 1000
    )
);
scalar!(
    chrono::Duration,
    Dur,
    |v| match v {
        Val::Time(n, d, h, m, s, u) => {
            let us = ((((*d as i64 * 24 + *h as i64) * 60 + *m as i64) * 60) + *s as i64) * 1_000_000 + *u as i64;
            chrono::Duration::microseconds(if *n { -us } else { us })
        }
        _ => panic!("plan"),
    },
    |s| {
        let n = s.num_microseconds().unwrap();
        let (neg, x) = (n < 0, n.unsigned_abs());
        let t = x / 1_000_000;
        Val::Time(neg, (t / 86400) as u32, (t / 3600 % 24) as u8, (t / 60 % 60) as u8, (t % 60) as u8, (x % 1_000_000) as u32)
    }
);
impl<T: Scalar> Scalar for Option<T> {
    const K: K = T::K;
    const OPT: bool = true;
    fn get(v: &Val) -> Self {
        match v {
            Val::Null => None,
            x => Some(T::get(x)),
        }
    }
    fn put(&self) -> Val {
        match self {
            None => Val::Null,
            Some(x) => x.put(),
        }
    }
}
fn scol<T: Scalar>(name: &str) -> SCol {
    SCol { name: name.into(), k: T::K, opt: T::OPT }
}

trait Stru: Sized {
    fn cols(field: &str) -> Vec<SCol>;
    fn get(v: &[Val]) -> Self;
    fn put(&self, out: &mut Vec<Val>);
}
macro_rules! stru {
    ($name:ident { $($f:ident ($col:literal): ($($t:tt)+),)* }) => {
        #[derive(Debug)]
        pub struct $name { $($f: $($t)+,)* }
        impl Stru for $name {
            fn cols(field: &str) -> Vec<SCol> {
                vec![$(scol::<$($t)+>(&format!("{field}_{}", $col)),)*]
            }
            fn get(v: &[Val]) -> Self {
                let mut i = v.iter();
                $name { $($f: <$($t)+ as Scalar>::get(i.next().unwrap()),)* }
            }
            fn put(&self, out: &mut Vec<Val>) {
                $(out.push(self.$f.put());)*
            }
        }
    };
}

trait Glue: Model + IntoQuery + FromQueryResult {
    fn shape() -> Shape;
    fn fill(m: &mut Self::ActiveModel, t: &Tree);
    fn full(t: &Tree) -> Self;
    fn read(&self, out: &mut Vec<Val>);
    fn update_for(key: &Val) -> UpdateModel<Self>;
}
fn key_of<P: Scalar>(v: &Val) -> P {
    P::get(v)
}
macro_rules! model {
    ($name:ident, $table:tt, $pk:tt ($($pkt:tt)+), $auto:tt, [$($attr:tt)*],
     { $($f:ident: ($($t:tt)+),)* } { $($s:ident: $st:ident,)* } { $($r:ident: $rt:ident,)* }) => {
        #[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
        #[mysql_connector(table = $table, primary = $pk, auto_increment = $auto $($attr)*)]
        pub struct $name {
            $($f: $($t)+,)*
            $($s: $st,)*
            $($r: $rt,)*
        }
        impl Glue for $name {
            fn shape() -> Shape {
                Shape {
                    table: $table,
                    pk: $pk,
                    auto: $auto == "true",
                    simple: vec![$(scol::<$($t)+>(bare(stringify!($f))),)*],
                    structs: vec![$(<$st as Stru>::cols(bare(stringify!($s))),)*],
                    refs: vec![$((bare(stringify!($r)), <$rt as Glue>::shape()),)*],
                }
            }
            #[allow(unused_variables, unused_mut)]
            fn fill(m: &mut Self::ActiveModel, t: &Tree) {
                let mut i = t.f.iter();
                $(match i.next().unwrap() {
                    FV::Val(v) => m.$f = ActiveValue::Set(<$($t)+ as Scalar>::get(v)),
                    _ => m.$f = ActiveValue::Unset,
                })*
                $(match i.next().unwrap() {
                    FV::St(v) => m.$s = ActiveValue::Set(<$st as Stru>::get(v)),
                    _ => m.$s = ActiveValue::Unset,
                })*
                $(match i.next().unwrap() {
                    FV::Key(k) => m.$r = ActiveReference::Set(key_of::<<$rt as Model>::Primary>(k)),
                    FV::Ins(t) => {
                        let mut x = <$rt as Model>::active_model();
                        <$rt as Glue>::fill(&mut x, t);
                        m.$r = ActiveReference::Insert(x);
                    }
                    _ => m.$r = ActiveReference::Unset,
                })*
            }
            #[allow(unused_variables, unused_mut)]
            fn full(t: &Tree) -> Self {
                let mut i = t.f.iter();
                $name {
                    $($f: match i.next().unwrap() {
                        FV::Val(v) => <$($t)+ as Scalar>::get(v),
                        _ => panic!("plan"),
                    },)*
                    $($s: match i.next().unwrap() {
                        FV::St(v) => <$st as Stru>::get(v),
                        _ => panic!("plan"),
                    },)*
                    $($r: match i.next().unwrap() {
                        FV::Ins(t) => <$rt as Glue>::full(t),
                        _ => panic!("plan"),
                    },)*
                }
            }
            fn update_for(key: &Val) -> UpdateModel<Self> {
                UpdateModel::new(key_of::<<Self as Model>::Primary>(key))
            }
            fn read(&self, out: &mut Vec<Val>) {
                $(out.push(self.$f.put());)*
                $(self.$s.put(out);)*
                $(self.$r.read(out);)*
            }
        }
    };
}

stru!(Point { x("x"): (i32), y("lat"): (f64), });
stru!(Span { from("from"): (Option<i64>), to("to"): (Option<chrono::NaiveDate>), label("x"): (String), });

model!(User, "user", "id"(u32), "true", [], { id: (u32), name: (String), email: (Option<String>), } {} {});
model!(Every, "every", "id"(u64), "true", [], {
    a: (i8), b: (i16), c: (i32), d: (i64), e: (u8), f: (u16), g: (u32), h: (u64), i: (f32), j: (f64), k: (bool), l: (String),
    id: (u64), m: (Vec<u8>), n: (chrono::NaiveDate), o: (chrono::NaiveDateTime), p: (chrono::Duration),
    q: (mysql_connector::types::Hex),
} {} {});
model!(Opts, "opts", "code"(i64), "false", [], {
    a: (Option<i8>), b: (Option<i16>), c: (Option<i32>), d: (Option<i64>), e: (Option<u8>), f: (Option<u16>), g: (Option<u32>),
    h: (Option<u64>), i: (Option<f32>), j: (Option<f64>), k: (Option<bool>), l: (Option<String>), m: (Option<Vec<u8>>),
    n: (Option<chrono::NaiveDate>), o: (Option<chrono::NaiveDateTime>), p: (Option<chrono::Duration>),
    q: (Option<mysql_connector::types::Hex>), code: (i64),
} {} {});
model!(Address, "address", "id"(i32), "true", [, ty = Point { x, y: lat }], { id: (i32), street: (String), } { pos: Point, }
    { user: User, });
model!(Order, "order", "nr"(u16), "false", [], { nr: (u16), note: (Option<String>), } {}
    { addr: Address, buyer: User, user: User, });
// tables and references of the same names
model!(Owner, "owner", "id"(u8), "true", [], { id: (u8), name: (String), } {} { owner: User, user: Address, });
model!(Group, "a", "id"(i8), "true", [, ty = Point { x, y: lat }], { id: (i8), key: (Option<String>), } { select: Point, }
    { aa: Owner, a: Tag, });
// nothing but its key
model!(Tag, "tag", "id"(u8), "true", [], { id: (u8), } {} {});
model!(Deep, "deep", "id"(i16), "true", [, ty = Span { from, to, label: x }, ty = Point { x, y: lat }],
    { name: (String), id: (i16), flag: (bool), } { span: Span, at: Point, } { tag: Tag, ord: Order, opts: Opts, group: Group, });
// references whose names begin with each other, one called like its own table
model!(Node, "node", "id"(u16), "true", [], { no: (Option<i16>), id: (u16), } {}
    { node: Address, user: User, user_2: User, us: Tag, });

// fields that are called like keywords of Rust
#[cfg(feature = "raw")]
stru!(Range { r#in("in"): (i16), r#as("as"): (Option<String>), });
#[cfg(feature = "raw")]
model!(Raw, "type", "type"(u32), "true", [, ty = Range { r#in, r#as }], { r#fn: (String), r#type: (u32), r#match: (Option<i64>), }
    { r#loop: Range, } { r#ref: Tag, r#use: User, });

macro_rules! with_model {
    ($i:expr, $m:ident => $body:expr) => {
        match $i % MODELS {
            0 => { type $m = User; $body }
            1 => { type $m = Every; $body }
            2 => { type $m = Opts; $body }
            3 => { type $m = Address; $body }
            4 => { type $m = Order; $body }
            5 => { type $m = Owner; $body }
            6 => { type $m = Group; $body }
            7 => { type $m = Tag; $body }
            8 => { type $m = Node; $body }
            #[cfg(feature = "raw")]
            9 => { type $m = Raw; $body }
            _ => { type $m = Deep; $body }
        }
    };
}
const MODELS: u8 = 10 + cfg!(feature = "raw") as u8;

fn shape(i: u8) -> Shape {
    with_model!(i, M => M::shape())
}

impl Shape {
    fn pk(&self) -> &SCol {
        self.simple.iter().find(|c| c.name == self.pk).unwrap()
    }
    /// All columns of the table in the order of the fields.
    fn cols(&self) -> Vec<SCol> {
        let mut v = self.simple.clone();
        v.extend(self.structs.iter().flatten().cloned());
        for (n, s) in &self.refs {
            v.push(SCol { name: n.to_string(), k: s.pk().k, opt: false });
        }
        v
    }
    /// (table alias, column) of everything `read` returns.
    fn flat(&self, alias: &str, out: &mut Vec<(String, SCol)>) {
        for c in self.simple.iter().chain(self.structs.iter().flatten()) {
            out.push((alias.into(), c.clone()));
        }
        for (n, s) in &self.refs {
            s.flat(&format!("{alias}.{n}"), out);
        }
    }
    fn tables(&self, out: &mut BTreeMap<String, Shape>) {
        out.insert(self.table.into(), self.clone());
        for (_, s) in &self.refs {
            s.tables(out);
        }
    }
}

fn column(k: K) -> (u8, u16) {
    match k {
        K::I8 | K::Bool => (ty::TINY, 0),
        K::I16 => (ty::SHORT, 0),
        K::I32 => (ty::LONG, 0),
        K::I64 => (ty::LONGLONG, 0),
        K::U8 => (ty::TINY, UNSIGNED),
        K::U16 => (ty::SHORT, UNSIGNED),
        K::U32 => (ty::LONG, UNSIGNED),
        K::U64 => (ty::LONGLONG, UNSIGNED),
        K::F32 => (ty::FLOAT, 0),
        K::F64 => (ty::DOUBLE, 0),
        K::Str => (ty::VARSTRING, 0),
        K::Bytes => (ty::BLOB, 0),
        K::Date => (ty::DATE, 0),
        K::Dt => (ty::DATETIME, 0),
        K::Dur => (ty::TIME, 0),
    }
}
/// What a column holds if an insert does not name it.
fn default_of(k: K) -> Val {
    match k {
        K::I8 => Val::I8(101),
        K::Bool => Val::I8(1),
        K::I16 => Val::I16(101),
        K::I32 => Val::I32(101),
        K::I64 => Val::I64(101),
        K::U8 => Val::U8(101),
        K::U16 => Val::U16(101),
        K::U32 => Val::U32(101),
        K::U64 => Val::U64(101),
        K::F32 => Val::F32(101f32.to_bits()),
        K::F64 => Val::F64(101f64.to_bits()),
        K::Str | K::Bytes => Val::str("by default"),
        K::Date => Val::Date(1999, 1, 2),
        K::Dt => Val::Dt(1999, 1, 2, 3, 4, 5, 0),
        K::Dur => Val::Time(false, 0, 1, 1, 1, 0),
    }
}
fn int(v: &Val) -> Option<i128> {
    Some(match v {
        Val::I8(x) => *x as i128,
        Val::I16(x) => *x as i128,
        Val::I32(x) => *x as i128,
        Val::I64(x) => *x as i128,
        Val::U8(x) => *x as i128,
        Val::U16(x) => *x as i128,
        Val::U32(x) => *x as i128,
        Val::U64(x) => *x as i128,
        _ => return None,
    })
}
fn key_val(k: K, n: u64) -> Val {
    match k {
        K::I8 => Val::I8(n as i8 & 127),
        K::I16 => Val::I16(n as i16 & 0x7fff),
        K::I32 => Val::I32(n as i32 & 0x7fff_ffff),
        K::I64 => Val::I64(n as i64 & i64::MAX),
        K::U8 => Val::U8(n as u8),
        K::U16 => Val::U16(n as u16),
        K::U32 => Val::U32(n as u32),
        _ => Val::U64(n),
    }
}

// ---------------------------------------------------------------- plans

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum DKind {
    Insert(Tree),
    /// From a complete model through `into_active_model`.
    Full(Tree),
    Update(Val, Tree),
    Select { binary: bool, step: bool, present: Present },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct DOp {
    pub id: u32,
    pub model: u8,
    pub kind: DKind,
    pub cancel: Option<u32>,
    pub fresh: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct DPlan {
    pub seed: u64,
    pub login: LoginCfg,
    /// Rows per table at the beginning: (table, values by column)
    pub start: Vec<(String, Vec<Val>)>,
    pub next: u64,
    pub report_explicit: bool,
    pub ops: Vec<DOp>,
    pub net: NetCfg,
    pub faults: Vec<Fault>,
    pub efaults: Vec<EFault>,
    pub down: Vec<(u64, u64)>,
}

pub const HINT: u32 = 1_000_000;

fn eng<R>(f: impl FnOnce(&mut Engine) -> R) -> R {
    w(|w| match &mut w.srv.backend {
        Backend::Sql(e) => f(e),
        _ => unreachable!(),
    })
}

// ---------------------------------------------------------------- expectation

#[derive(Clone, Debug)]
enum Exp {
    V(Val),
    KeyOf(usize),
}
#[derive(Debug)]
enum Step {
    Insert { table: String, vals: BTreeMap<String, Exp> },
    Update { table: String, key: Val, vals: BTreeMap<String, Exp> },
}
struct Work {
    steps: Vec<Step>,
    /// From this step on nothing can be done: a value cannot be sent.
    cut: Option<usize>,
}
fn odd(v: &Val) -> bool {
    matches!(v, Val::BadText(_))
}
fn values(sh: &Shape, t: &Tree, wk: &mut Work) -> BTreeMap<String, Exp> {
    let mut m = BTreeMap::new();
    let mut i = t.f.iter();
    let mut bad = false;
    for c in &sh.simple {
        if let Some(FV::Val(v)) = i.next() {
            bad |= odd(v);
            m.insert(c.name.clone(), Exp::V(v.clone()));
        }
    }
    for s in &sh.structs {
        if let Some(FV::St(v)) = i.next() {
            for (c, v) in s.iter().zip(v) {
                bad |= odd(v);
                m.insert(c.name.clone(), Exp::V(v.clone()));
            }
        }
    }
    for (n, s) in &sh.refs {
        match i.next() {
            Some(FV::Key(k)) => {
                m.insert(n.to_string(), Exp::V(k.clone()));
            }
            Some(FV::Ins(t)) => {
                insert_steps(s, t, wk);
                m.insert(n.to_string(), Exp::KeyOf(wk.steps.len() - 1));
            }
            _ => {}
        }
    }
    if bad {
        wk.cut = Some(wk.cut.unwrap_or(usize::MAX).min(wk.steps.len()));
    }
    m
}
fn insert_steps(sh: &Shape, t: &Tree, wk: &mut Work) {
    let vals = values(sh, t, wk);
    wk.steps.push(Step::Insert { table: sh.table.into(), vals });
}
/// What inserting a complete model comes to.
fn unfull(sh: &Shape, t: &Tree) -> Tree {
    let mut t = t.clone();
    for (i, c) in sh.simple.iter().enumerate() {
        if sh.auto && c.name == sh.pk {
            t.f[i] = FV::Unset;
        }
    }
    let n = sh.simple.len() + sh.structs.len();
    for (i, (_, s)) in sh.refs.iter().enumerate() {
        if let FV::Ins(c) = &t.f[n + i] {
            t.f[n + i] = FV::Ins(Box::new(unfull(s, c)));
        }
    }
    t
}

/// The reference database: rows by column.
#[derive(Clone, Debug, Default)]
struct Db(BTreeMap<String, Vec<Vec<Val>>>);

struct Oracle {
    db: Db,
    shapes: BTreeMap<String, Shape>,
    sh: Rc<RefCell<Shared>>,
}

fn snapshot() -> Db {
    eng(|e| Db(e.tables.iter().map(|(n, t)| (n.clone(), t.rows.clone())).collect()))
}

impl Oracle {
    fn probe(&self, p: &'static str) {
        *self.sh.borrow_mut().probes.entry(p).or_default() += 1;
    }
    /// Advances the reference database by the steps the server reports as executed; whatever else
    /// it executed is a violation.
    fn advance(&mut self, what: &str, wk: &Work, log: &[Logged]) -> (usize, Vec<Vec<Val>>) {
        let bad = |class: &str, msg: String| w(|w| w.viol(&["C18"], class, format!("{what}: {msg}")));
        let mut done = 0;
        let mut made: Vec<Vec<Val>> = Vec::new();
        for l in log {
            if matches!(l.effect, Effect::Failed(_) | Effect::Select) {
                continue;
            }
            let Some(st) = wk.steps.get(done) else {
                bad("extra-statement", format!("executed {:?} beyond what the operation asks for", l.text));
                continue;
            };
            if wk.cut.is_some_and(|c| done >= c) {
                bad("executed-after-failure", format!("executed {:?} although a value cannot be sent", l.text));
            }
            done += 1;
            let resolve = |e: &Exp, made: &[Vec<Val>]| -> Option<Val> {
                match e {
                    Exp::V(v) => Some(v.clone()),
                    Exp::KeyOf(i) => {
                        let Step::Insert { table, .. } = &wk.steps[*i] else { return None };
                        let s = &self.shapes[table];
                        let k = s.cols().iter().position(|c| c.name == s.pk).unwrap();
                        made.get(*i).map(|r| r[k].clone())
                    }
                }
            };
            match (st, &l.effect) {
                (Step::Insert { table, vals }, Effect::Insert(t, row)) if t == table => {
                    let s = &self.shapes[table];
                    let mut want = Vec::new();
                    for (i, c) in s.cols().iter().enumerate() {
                        let auto = s.auto && c.name == s.pk;
                        want.push(match vals.get(&c.name).and_then(|e| resolve(e, &made)) {
                            Some(v) => same_kind(v, &row[i]),
                            None if auto => {
                                let taken = self.db.0.get(table).is_some_and(|rows| rows.iter().any(|r| r[i].same(&row[i])));
                                if taken {
                                    bad("wrong-key", format!("the generated key {:?} of {table} is taken", row[i]));
                                }
                                row[i].clone()
                            }
                            None => default_of(c.k),
                        });
                    }
                    if !same_row(&want, row) {
                        bad("wrong-row", format!("inserted {} into {table}, expected {}", brief_row(row), brief_row(&want)));
                    }
                    made.push(want.clone());
                    self.db.0.entry(table.clone()).or_default().push(want);
                }
                (Step::Update { table, key, vals }, Effect::Update(t, _)) if t == table => {
                    let s = &self.shapes[table];
                    let cols = s.cols();
                    let k = cols.iter().position(|c| c.name == s.pk).unwrap();
                    let mut sets = Vec::new();
                    for (i, c) in cols.iter().enumerate() {
                        if let Some(v) = vals.get(&c.name).and_then(|e| resolve(e, &made)) {
                            sets.push((i, v));
                        }
                    }
                    for r in self.db.0.entry(table.clone()).or_default().iter_mut() {
                        if r[k].same(key) {
                            for (i, v) in &sets {
                                r[*i] = same_kind(v.clone(), &r[*i]);
                            }
                        }
                    }
                    made.push(Vec::new());
                }
                _ => {
                    bad("wrong-statement", format!("executed {:?}, expected {st:?}", l.text));
                    made.push(Vec::new());
                }
            }
        }
        let have = snapshot();
        for (n, rows) in &have.0 {
            let want = self.db.0.get(n).cloned().unwrap_or_default();
            if rows.len() != want.len() || !rows.iter().zip(&want).all(|(a, b)| rows_eq(a, b)) {
                let d = rows.iter().zip(&want).find(|(a, b)| !rows_eq(a, b));
                bad(
                    "wrong-table",
                    match d {
                        Some((a, b)) => format!("table {n} holds {}, it should hold {}", brief_row(a), brief_row(b)),
                        None => format!("table {n} holds {} rows, it should hold {}", rows.len(), want.len()),
                    },
                );
                self.db.0.insert(n.clone(), rows.clone());
            }
        }
        (done, made)
    }

    /// The rows a select has to return, in the order of `read`.
    fn rows(&self, s: &Shape, row: &[Val]) -> Option<Vec<Val>> {
        let n = s.simple.len() + s.structs.iter().map(|x| x.len()).sum::<usize>();
        let mut out = row[..n].to_vec();
        for (i, (_, r)) in s.refs.iter().enumerate() {
            let k = &row[n + i];
            let pk = r.cols().iter().position(|c| c.name == r.pk).unwrap();
            let hit = self.db.0.get(r.table)?.iter().find(|x| key_eq(&x[pk], k))?;
            out.extend(self.rows(r, hit)?);
        }
        Some(out)
    }
}

fn key_eq(a: &Val, b: &Val) -> bool {
    match (int(a), int(b)) {
        (Some(x), Some(y)) => x == y,
        _ => a.same(b) && *a != Val::Null,
    }
}
fn rows_eq(a: &[Val], b: &[Val]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (int(x), int(y)) {
            (Some(x), Some(y)) => x == y,
            _ => x.same(y),
        })
}
/// Numbers of different width compare by value.
fn same_kind(v: Val, like: &Val) -> Val {
    match (int(&v), int(like)) {
        (Some(a), Some(b)) if a == b => like.clone(),
        _ => v,
    }
}
/// Whether a field equals what was presented.
fn agrees(c: &SCol, got: &Val, shown: &Val) -> bool {
    match (int(got), int(shown)) {
        (Some(a), Some(b)) if c.k == K::Bool => a == (b != 0) as i128,
        (Some(a), Some(b)) => a == b,
        _ => match (got, shown) {
            (Val::Date(a, b, c), Val::Dt(x, y, z, ..)) => (a, b, c) == (x, y, z),
            (Val::Dt(x, y, z, 0, 0, 0, 0), Val::Date(a, b, c)) => (a, b, c) == (x, y, z),
            (Val::Time(..), Val::Time(n, d, h, m, s, us)) if *us >= 1_000_000 => {
                // more than a second of microseconds: an error, or what they add up to
                let t = *s as u64 + (*us / 1_000_000) as u64 + 60 * (*m as u64 + 60 * (*h as u64 + 24 * *d as u64));
                *got == Val::Time(*n, (t / 86400) as u32, (t / 3600 % 24) as u8, (t / 60 % 60) as u8, (t % 60) as u8, us % 1_000_000)
            }
            _ => got.same(shown),
        },
    }
}

// ---------------------------------------------------------------- running

enum Out {
    Id(u64),
    Done,
    /// Rows received and whether the result was complete.
    Rows(Vec<Vec<Val>>, Option<Error>),
}

async fn act<M: Glue>(conn: &mut Connection, kind: &DKind) -> Result<Out, Error> {
    let flat = |m: &M| {
        let mut v = Vec::new();
        m.read(&mut v);
        v
    };
    match kind {
        DKind::Insert(t) => {
            let mut m = M::active_model();
            M::fill(&mut m, t);
            m.insert(conn).await.map(Out::Id)
        }
        DKind::Full(t) => M::full(t).into_active_model().insert(conn).await.map(Out::Id),
        DKind::Update(key, t) => {
            let mut u = M::update_for(key);
            M::fill(&mut u, t);
            u.update(conn).await.map(|_| Out::Done)
        }
        DKind::Select { binary, step, .. } => {
            let q = M::build_query();
            macro_rules! rows {
                ($r:expr) => {{
                    let mut r = $r;
                    if *step {
                        let mut v = Vec::new();
                        loop {
                            match r.next().await {
                                Ok(Some(x)) => v.push(flat(&x)),
                                Ok(None) => return Ok(Out::Rows(v, None)),
                                Err(e) => return Ok(Out::Rows(v, Some(e))),
                            }
                        }
                    } else {
                        let v: Vec<M> = r.collect().await?;
                        Ok(Out::Rows(v.iter().map(flat).collect(), None))
                    }
                }};
            }
            if *binary {
                let mut s = conn.prepare_statement(&q).await?;
                rows!(s.query::<Value, M>(&[]).await?)
            } else {
                rows!(conn.query::<M>(&q).await?)
            }
        }
    }
}
async fn program(plan: Rc<DPlan>, sh: Rc<RefCell<Shared>>) {
    let mut shapes = BTreeMap::new();
    for i in 0..MODELS {
        shape(i).tables(&mut shapes);
    }
    let mut or = Oracle { db: snapshot(), shapes, sh: sh.clone() };
    let mut conn: Option<Connection> = None;
    let mut dirty = false;
    for op in &plan.ops {
        if op.fresh {
            conn = None;
        }
        let s = shape(op.model);
        let what = format!("op {} on {}", op.id, s.table);
        if let DKind::Select { present, .. } = &op.kind {
            eng(|e| e.present = present.clone());
        }
        let (log0, count0) = eng(|e| (e.log.len(), e.count));
        let polls = Rc::new(RefCell::new(0u32));
        let nconn = w(|w| w.conns.len());
        let slot = &mut conn;
        let login = &plan.login;
        let kind = &op.kind;
        let model = op.model;
        let fut = async move {
            if slot.is_none() {
                *slot = Some(Connection::connect(Arc::new(options::<false>(login, 0))).await?);
            }
            let c = slot.as_mut().unwrap();
            with_model!(model, M => act::<M>(c, kind).await)
        };
        let r = counted(op.cancel, fut, polls.clone()).await;
        sh.borrow_mut().steps.push(StepStat {
            step: op.id,
            part: 0,
            c2s: 0,
            s2c: eng(|e| e.count as u64),
            polls: *polls.borrow(),
            conn: w(|w| w.conns.len()) > nconn,
        });
        w(|w| {
            w.tr(|| {
                format!(
                    "{what} {}: {}",
                    match &op.kind {
                        DKind::Insert(_) => "insert",
                        DKind::Full(_) => "insert complete",
                        DKind::Update(..) => "update",
                        DKind::Select { .. } => "select",
                    },
                    match &r {
                        None => "dropped".to_string(),
                        Some(Ok(Out::Id(x))) => format!("ok, id {x}"),
                        Some(Ok(Out::Done)) => "ok".to_string(),
                        Some(Ok(Out::Rows(v, e))) => format!("{} rows, {e:?}", v.len()),
                        Some(Err(e)) => format!("failed: {}", eout(e).text),
                    }
                )
            })
        });
        dirty |= r.is_none() || w(|w| !w.fault_counts.is_empty());
        if let DKind::Update(_, t) = &op.kind {
            let n = eng(|e| e.count) - count0;
            if n > 0 && t.f.iter().all(|f| *f == FV::Unset) {
                w(|w| w.viol(&["C18"], "needless-statement", format!("{what}: nothing is set, {n} statements were sent")));
            }
        }
        if eng(|e| !e.unsupported.is_empty()) {
            return;
        }
        let log: Vec<Logged> = eng(|e| e.log[log0..].to_vec());
        judge(&mut or, &what, op, &s, &r, &log, dirty);
        match &r {
            None => {
                or.probe("op-dropped");
                conn = None
            }
            Some(Err(e)) => {
                or.probe("op-failed");
                if eout(e).server.is_none() && dirty {
                    conn = None;
                }
            }
            Some(Ok(Out::Rows(_, Some(_)))) if dirty => conn = None,
            _ => or.probe("op-ok"),
        }
    }
}

fn judge(or: &mut Oracle, what: &str, op: &DOp, s: &Shape, r: &Option<Result<Out, Error>>, log: &[Logged], dirty: bool) {
    let prop = if matches!(op.kind, DKind::Select { .. }) { "C19" } else { "C18" };
    let bad = |class: &str, msg: String| w(|w| w.viol(&[prop], class, format!("{what}: {msg}")));
    // a statement that failed is the last one, and the caller is told
    let failed = log.iter().position(|l| matches!(l.effect, Effect::Failed(_)) || l.fault.is_some());
    if let Some(i) = failed {
        if i + 1 < log.len() {
            bad("continued-after-failure", format!("{:?} was sent after {:?} had failed", log[i + 1].text, log[i].text));
        }
        if matches!(r, Some(Ok(Out::Id(_) | Out::Done)) | Some(Ok(Out::Rows(_, None)))) {
            bad("failure-hidden", format!("success was reported although {:?} failed", log[i].text));
        }
        if let (Effect::Failed(code @ (1064 | 1054 | 1110 | 1136 | 1146)), None) = (&log[i].effect, &log[i].fault) {
            bad("malformed-statement", format!("{:?} cannot be executed (error {code})", log[i].text));
        }
        or.probe("statement-failed");
    }
    let err = match r {
        Some(Err(e)) | Some(Ok(Out::Rows(_, Some(e)))) => Some(e),
        _ => None,
    };
    match &op.kind {
        DKind::Select { present, .. } => {
            let before = w(|w| w.viols.len());
            or.advance(what, &Work { steps: Vec::new(), cut: None }, log);
            if w(|w| w.viols.len()) > before {
                return;
            }
            let mut want: Vec<Vec<Val>> = Vec::new();
            for row in or.db.0.get(s.table).cloned().unwrap_or_default() {
                if let Some(x) = or.rows(s, &row) {
                    want.push(x);
                }
            }
            let mut flat = Vec::new();
            s.flat(s.table, &mut flat);
            let (omitted, spoiled) = eng(|e| (e.last_omitted.clone(), e.last_spoiled.clone()));
            // which field the presentation changed, and to what
            let mut changed: Option<(usize, Val, Option<usize>)> = None;
            let mut vague = false;
            if let (Some((a, c)), Some((row, _, v, _))) = (&spoiled, &present.spoil) {
                match flat.iter().position(|(x, y)| x == a && y.name == *c) {
                    Some(k) => {
                        let one = if *v == Val::Null && !want.is_empty() { Some(*row as usize % want.len()) } else { None };
                        changed = Some((k, v.clone(), one));
                    }
                    None => vague = true,
                }
            }
            let must_fail_at = if omitted.is_some() && !want.is_empty() {
                Some(0)
            } else {
                changed.as_ref().and_then(|(k, v, one)| {
                    let c = &flat[*k].1;
                    let fits = match v {
                        Val::Null => c.opt,
                        v if int(v).is_some() => fits_int(c.k, int(v).unwrap()),
                        Val::Bytes(b) => c.k == K::Bytes || c.k == K::Str && std::str::from_utf8(&b.bytes()).is_ok(),
                        // a date with a time may be cut off at the day, also if the time is wrong
                        Val::Dt(y, m, d, ..) if c.k == K::Date => valid_date(&Val::Date(*y, *m, *d)),
                        Val::Dt(..) => c.k == K::Dt && valid_date(v),
                        Val::Date(..) => matches!(c.k, K::Date | K::Dt) && valid_date(v),
                        Val::Time(..) => c.k == K::Dur,
                        _ => true,
                    };
                    if fits || want.is_empty() {
                        None
                    } else {
                        Some(one.unwrap_or(0))
                    }
                })
            };
            let executed = log.iter().any(|l| l.effect == Effect::Select && l.fault.is_none());
            let got = match r {
                Some(Ok(Out::Rows(v, e))) => Some((v, e.is_none())),
                _ => None,
            };
            if let Some((rows, complete)) = got {
                if complete && !vague {
                    if must_fail_at.is_some() {
                        bad(
                            "wrong-value-accepted",
                            format!(
                                "a row lacks a needed column or holds a value that does not fit ({omitted:?} {:?}), success was reported",
                                changed.as_ref().map(|c| (&flat[c.0], &c.1))
                            ),
                        );
                    }
                    if rows.len() != want.len() {
                        bad("wrong-rows", format!("{} models returned, {} rows stored", rows.len(), want.len()));
                    }
                }
                if !vague {
                    for (i, x) in rows.iter().enumerate() {
                        let Some(y) = want.get(i) else {
                            bad("wrong-rows", format!("model {i} returned, {} rows stored", want.len()));
                            break;
                        };
                        for (k, (a, b)) in x.iter().zip(y).enumerate() {
                            let shown = match &changed {
                                Some((c, v, one)) if *c == k && one.is_none_or(|o| o == i) => v,
                                _ => b,
                            };
                            if !agrees(&flat[k].1, a, shown) {
                                bad(
                                    "wrong-field",
                                    format!("row {i}: field {}.{} is {}, stored is {}", flat[k].0, flat[k].1.name, a.brief(), shown.brief()),
                                );
                                return;
                            }
                        }
                    }
                }
                if !rows.is_empty() {
                    or.probe("models-read");
                }
            }
            if let Some(e) = err {
                let spoilt = changed.is_some() || omitted.is_some();
                if !dirty && !spoilt && (failed.is_none() || !executed) {
                    bad("failed-without-fault", format!("select failed: {}", eout(e).text));
                }
                if spoilt {
                    or.probe("unfit-row-refused");
                }
            }
        }
        _ => {
            let mut wk = Work { steps: Vec::new(), cut: None };
            match &op.kind {
                DKind::Insert(t) => insert_steps(s, t, &mut wk),
                DKind::Full(t) => insert_steps(s, &unfull(s, t), &mut wk),
                DKind::Update(key, t) => {
                    let vals = values(s, t, &mut wk);
                    if !vals.is_empty() {
                        wk.steps.push(Step::Update { table: s.table.into(), key: key.clone(), vals });
                    }
                }
                _ => unreachable!(),
            }
            let (done, made) = or.advance(what, &wk, log);
            match r {
                Some(Ok(x)) => {
                    if done < wk.steps.len() {
                        bad("success-without-work", format!("success after {done} of {} statements", wk.steps.len()));
                    }
                    if wk.cut.is_some() {
                        bad("failure-hidden", "success although a value cannot be sent".into());
                    }
                    if let (Out::Id(id), Some(row)) = (x, made.last()) {
                        let cols = s.cols();
                        let k = cols.iter().position(|c| c.name == s.pk).unwrap();
                        let set = match (&op.kind, wk.steps.last()) {
                            (_, Some(Step::Insert { vals, .. })) => vals.contains_key(s.pk),
                            _ => true,
                        };
                        let want = if !s.auto || (set && !eng(|e| e.report_explicit)) { 0 } else { row.get(k).and_then(int).unwrap_or(0) as u64 };
                        if *id != want {
                            bad("wrong-id", format!("insert returned {id}, the server reported {want}"));
                        }
                        if !set && s.auto {
                            or.probe("key-generated");
                        }
                    }
                    if wk.steps.is_empty() {
                        or.probe("empty-update");
                    }
                    if wk.steps.len() > 1 {
                        or.probe("nested-insert");
                    }
                }
                Some(Err(e)) => {
                    if !dirty && failed.is_none() && wk.cut.is_none() {
                        bad("failed-without-fault", format!("failed: {}", eout(e).text));
                    }
                    if done > 0 {
                        or.probe("failed-half-way");
                    }
                    if wk.cut.is_some() {
                        or.probe("unsendable-value-refused");
                    }
                }
                None => {}
            }
        }
    }
}

fn fits_int(k: K, v: i128) -> bool {
    match k {
        K::I8 => i8::try_from(v).is_ok(),
        K::I16 => i16::try_from(v).is_ok(),
        K::I32 => i32::try_from(v).is_ok(),
        K::I64 => i64::try_from(v).is_ok(),
        K::U8 => u8::try_from(v).is_ok(),
        K::U16 => u16::try_from(v).is_ok(),
        K::U32 => u32::try_from(v).is_ok(),
        K::U64 => u64::try_from(v).is_ok(),
        K::Bool => true,
        _ => false,
    }
}

pub fn run_md(plan: &DPlan, trace: bool) -> Outcome {
    let plan = Rc::new(plan.clone());
    let mut e = Engine::default();
    let mut shapes = BTreeMap::new();
    for i in 0..MODELS {
        shape(i).tables(&mut shapes);
    }
    for (n, s) in &shapes {
        let cols = s
            .cols()
            .iter()
            .map(|c| {
                let (t, f) = column(c.k);
                let mut x = tcol(&c.name, t, f, c.opt);
                x.dflt = default_of(c.k);
                x.auto = s.auto && c.name == s.pk;
                x.key = c.name == s.pk;
                x
            })
            .collect();
        let rows = plan.start.iter().filter(|x| x.0 == *n).map(|x| x.1.clone()).collect();
        e.tables.insert(n.clone(), Table { cols, rows, next: plan.next, unique: false });
    }
    e.faults = plan.efaults.clone();
    e.report_explicit = plan.report_explicit;
    let srv = Server::new(plan.seed ^ 0x5EED, vec![plan.login.clone()], Backend::Sql(Box::new(e)));
    let sh = Rc::new(RefCell::new(Shared::default()));
    let task: Task = Box::pin(program(plan.clone(), sh.clone()));
    let (mut world, res) = run(
        || {
            let mut wd = World::new(plan.seed, plan.net.clone(), plan.faults.clone(), srv);
            wd.next_step_hint = HINT;
            wd.down = plan.down.clone();
            if trace {
                wd.trace = Some(Vec::new());
            }
            wd
        },
        40_000_000,
        vec![task],
    );
    if !res.stuck.is_empty() {
        world.viols.push(Viol {
            props: vec!["C18".into(), "C19".into(), "C07".into(), "*".into()],
            class: "stuck".into(),
            msg: "an operation on a model never returned".into(),
        });
    }
    let sh = sh.borrow();
    outcome(world, &sh)
}

pub fn outcome(mut world: World, sh: &Shared) -> Outcome {
    let mut faults = std::mem::take(&mut world.fault_counts);
    if let Some(n) = sh.probes.get("op-dropped") {
        faults.insert("call-dropped".into(), *n);
    }
    Outcome {
        hash: world.hash.0,
        polls: world.polls,
        io_polls: world.io_polls,
        time: world.max_time,
        faults,
        steps: sh.steps.clone(),
        trace: world.trace.take().unwrap_or_default(),
        commands: world.srv.sess.iter().map(|s| s.cmds).sum(),
        bytes: world.conns.iter().map(|c| c.written + c.consumed).sum(),
        conns: world.conns.len() as u64,
        probes: sh.probes.clone(),
        viols: std::mem::take(&mut world.viols),
        points: Vec::new(),
        paddings: Vec::new(),
    }
}

// ---------------------------------------------------------------- generation

fn days(y: u64, m: u64) -> u64 {
    match m {
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
fn date(r: &mut Rng) -> (u16, u8, u8) {
    if r.pct(15) {
        return *r.pick(&[(0, 1, 1), (9999, 12, 31), (1970, 1, 1), (2000, 2, 29), (1, 1, 1), (256, 10, 10)]);
    }
    let (y, m) = (r.below(10_000), 1 + r.below(12));
    (y as u16, m as u8, (1 + r.below(days(y, m))) as u8)
}
fn edge<T: Copy>(r: &mut Rng, e: &[T], f: impl FnOnce(&mut Rng) -> T) -> T {
    if r.pct(40) {
        *r.pick(e)
    } else {
        f(r)
    }
}

fn scalar_val(g: &mut G, k: K) -> Val {
    let r = &mut *g.r;
    match k {
        K::I8 => Val::I8(edge(r, &[0, 1, -1, i8::MIN, i8::MAX], |r| r.next() as i8)),
        K::I16 => Val::I16(edge(r, &[0, 1, -1, 127, 128, -128, -129, i16::MIN, i16::MAX], |r| r.next() as i16)),
        K::I32 => Val::I32(edge(r, &[0, 1, -1, 32767, 32768, -32769, i32::MIN, i32::MAX], |r| r.next() as i32)),
        K::I64 => Val::I64(edge(r, &[0, 1, -1, i64::MIN, i64::MAX, 1 << 31, -(1 << 31) - 1], |r| r.next() as i64)),
        K::U8 => Val::U8(edge(r, &[0, 1, 127, 128, 255], |r| r.next() as u8)),
        K::U16 => Val::U16(edge(r, &[0, 1, 255, 256, 32768, u16::MAX], |r| r.next() as u16)),
        K::U32 => Val::U32(edge(r, &[0, 1, 65536, 1 << 31, u32::MAX], |r| r.next() as u32)),
        K::U64 => Val::U64(edge(r, &[0, 1, 1 << 32, 1 << 63, u64::MAX], |r| r.next())),
        K::F32 => g.float(false),
        K::F64 => g.float(true),
        K::Bool => Val::I8(r.bool() as i8),
        K::Str => {
            if r.pct(6) {
                let n = *r.pick(&[250, 251, 252, 300, 65535, 65536, 70000]);
                Val::str(&"ö".repeat(n / 2))
            } else if r.pct(25) {
                Val::str(r.pick(&["", "NULL", "a'b\"c`d", "\0", "\\", "ünï", "?", "  ", "0", "-1"]))
            } else {
                let n = 1 + r.usize(20);
                Val::str(&r.text(n))
            }
        }
        K::Bytes => {
            let n = if r.pct(6) { *r.pick(&[250usize, 251, 252, 65535, 65536]) } else { r.usize(12) };
            Val::Bytes(Blob::Gen { len: n, seed: r.next() })
        }
        K::Date => {
            let (y, m, d) = date(r);
            Val::Date(y, m, d)
        }
        K::Dt => {
            let (y, mo, d) = date(r);
            let us = *r.pick(&[0u32, 0, 1, 999_999, 500_000, 123_456]);
            if r.pct(20) {
                Val::Dt(y, mo, d, 0, 0, 0, if r.bool() { us } else { 0 })
            } else {
                Val::Dt(y, mo, d, r.below(24) as u8, r.below(60) as u8, r.below(60) as u8, us)
            }
        }
        K::Dur => {
            let us = *r.pick(&[0u32, 0, 1, 999_999, 500_000, 123_456]);
            let h = *r.pick(&[0u32, 0, 1, 23, 24, 25, 100, 838]);
            let (m, s) = if r.pct(30) { (0, 0) } else { (r.below(60) as u8, r.below(60) as u8) };
            Val::Time(r.bool() && (h > 0 || m > 0 || s > 0 || us > 0), h / 24, (h % 24) as u8, m, s, us)
        }
    }
}
pub fn some_int(g: &mut G) -> Val {
    let k = *g.r.pick(&[K::I8, K::I16, K::I32, K::I64, K::U8, K::U16, K::U32, K::U64]);
    scalar_val(g, k)
}
pub fn some_time(g: &mut G) -> Val {
    let k = *g.r.pick(&[K::Date, K::Dt, K::Dur]);
    scalar_val(g, k)
}
/// A value and column type the field was perhaps not made for.
fn foreign(r: &mut Rng, binary: bool, like: Option<K>) -> (Val, u8) {
    let like = like.filter(|_| r.pct(85));
    let x = *r.pick(&[-1i128, 0, 1, 1, 2, 77, 127, 128, 200, 255, 256, 300, 32767, 32768, 65535, 65536, -128, -129, -70_000, -32768, -32769]);
    let y = *r.pick(&[2147483647i128, 2147483648, 4294967295, 4294967296, -2147483648, -2147483649, 5_000_000_000, i64::MAX as i128, i64::MIN as i128, 1 << 63, u64::MAX as i128]);
    let x = if r.pct(60) { x } else { y };
    let date = |r: &mut Rng| *r.pick(&[(2024u16, 2u8, 29u8), (2023, 2, 29), (0, 0, 0), (2020, 0, 5), (2020, 13, 1), (2020, 4, 31), (9999, 12, 31), (1999, 1, 0)]);
    let near = |k: K| -> i128 {
        match k {
            K::I8 => 1 << 7,
            K::U8 => 1 << 8,
            K::I16 => 1 << 15,
            K::U16 => 1 << 16,
            K::I32 => 1 << 31,
            K::U32 => 1 << 32,
            K::I64 => 1 << 63,
            K::U64 => 1 << 64,
            _ => 1,
        }
    };
    let x = match like {
        Some(K::Bool) => *r.pick(&[0i128, 1, 1, 2, 256, 512, -256, 1 << 32, -1]),
        Some(k) if near(k) > 1 && r.pct(70) => {
            let n = near(k);
            *r.pick(&[n, n - 1, -n, -n - 1, n / 2, n / 2 - 1, 1, 0, 77])
        }
        _ => x,
    };
    let way = match like {
        Some(K::Date) => 2 + r.below(2),
        Some(K::Dt) => 3,
        Some(K::Dur) => 4,
        Some(K::Str | K::Bytes) => r.below(2),
        Some(K::F32 | K::F64) | None => r.below(10),
        _ => 5,
    };
    match way {
        0 => (Val::str("unrelated"), ty::VARSTRING),
        1 => (Val::Bytes(Blob::Lit(vec![b'a', *r.pick(&[0xFFu8, 0xC0, 0x80, b'b'])])), *r.pick(&[ty::VARSTRING, ty::BLOB])),
        2 => {
            let (y, m, d) = date(r);
            (Val::Date(y, m, d), ty::DATE)
        }
        3 => {
            let (y, mo, d) = date(r);
            let (h, m, s) = *r.pick(&[(0u8, 0u8, 0u8), (23, 59, 59), (24, 0, 0), (12, 60, 1), (1, 2, 60)]);
            let us = *r.pick(&[0u32, 1, 999_999]);
            (Val::Dt(y, mo, d, h, m, s, us), ty::DATETIME)
        }
        4 => {
            let us = *r.pick(&[0u32, 1, 999_999, 1_000_000, 1_000_001, u32::MAX]);
            let us = if binary { us } else { us.min(999_999) };
            let d = *r.pick(&[0u32, 1, 34]);
            (Val::Time(r.bool(), d, r.below(24) as u8, r.below(60) as u8, 1 + r.below(59) as u8, us), ty::TIME)
        }
        _ => {
            let all = [
                i8::try_from(x).ok().map(|x| (Val::I8(x), ty::TINY)),
                i16::try_from(x).ok().map(|x| (Val::I16(x), ty::SHORT)),
                i32::try_from(x).ok().map(|x| (Val::I32(x), ty::LONG)),
                i64::try_from(x).ok().map(|x| (Val::I64(x), ty::LONGLONG)),
                u8::try_from(x).ok().map(|x| (Val::U8(x), ty::TINY)),
                u16::try_from(x).ok().map(|x| (Val::U16(x), ty::SHORT)),
                u32::try_from(x).ok().map(|x| (Val::U32(x), ty::LONG)),
                u64::try_from(x).ok().map(|x| (Val::U64(x), ty::LONGLONG)),
            ];
            let all: Vec<_> = all.into_iter().flatten().collect();
            if all.is_empty() {
                return (Val::I8(-1), ty::TINY);
            }
            r.pick(&all).clone()
        }
    }
}
fn valid_date(v: &Val) -> bool {
    match v {
        Val::Date(y, m, d) => chrono::NaiveDate::from_ymd_opt(*y as i32, *m as u32, *d as u32).is_some(),
        Val::Dt(y, m, d, h, mi, s, us) => {
            chrono::NaiveDate::from_ymd_opt(*y as i32, *m as u32, *d as u32).is_some() && *h < 24 && *mi < 60 && *s < 60 && *us < 1_000_000
        }
        _ => false,
    }
}
fn field_val(g: &mut G, c: &SCol, odd: u64) -> Val {
    if c.opt && g.r.pct(35) {
        return Val::Null;
    }
    if matches!(c.k, K::Date | K::Dt) && g.r.below(1000) < odd {
        return Val::BadText(vec![g.r.next() as u8]);
    }
    scalar_val(g, c.k)
}
/// The keys a table may have.
fn some_key(r: &mut Rng, c: &SCol) -> Val {
    key_val(c.k, 1 + r.below(6))
}
fn fresh_key(r: &mut Rng, c: &SCol) -> Val {
    let v = key_val(c.k, if r.pct(20) { r.next() } else { 20 + r.below(90) });
    if int(&v) == Some(0) {
        key_val(c.k, 1)
    } else {
        v
    }
}

fn tree(g: &mut G, s: &Shape, set: u64, full: bool, child: bool, update: bool) -> Tree {
    let mut f = Vec::new();
    for c in &s.simple {
        let pk = c.name == s.pk;
        f.push(if pk {
            let want = full || if update { g.r.pct(5) } else { !s.auto && child || g.r.pct(if s.auto { 25 } else { 90 }) };
            if want {
                let k = if g.r.pct(15) { some_key(g.r, c) } else { fresh_key(g.r, c) };
                FV::Val(k)
            } else {
                FV::Unset
            }
        } else if full || g.r.pct(set) {
            FV::Val(field_val(g, c, 8))
        } else {
            FV::Unset
        });
    }
    for st in &s.structs {
        f.push(if full || g.r.pct(set) { FV::St(st.iter().map(|c| field_val(g, c, 8)).collect()) } else { FV::Unset });
    }
    for (_, r) in &s.refs {
        f.push(if full {
            FV::Ins(Box::new(tree(g, r, set, true, true, false)))
        } else {
            match g.r.below(10) {
                0 => FV::Unset,
                1..=4 => FV::Key(some_key(g.r, r.pk())),
                _ if update && g.r.pct(50) => FV::Unset,
                _ => FV::Ins(Box::new(tree(g, r, set, false, true, false))),
            }
        });
    }
    Tree { f }
}

pub fn gen_md(seed: u64) -> DPlan {
    let mut r = Rng::new(seed);
    let mut lr = r.fork(1);
    let mut login = gen::gen_login(&mut lr, 0);
    login.secure = false;
    let net = gen::gen_net(&mut r.fork(2), Focus::Mixed, login.timeout);
    let mut g = G { r: &mut lr, next: 10, focus: Focus::Mixed, huge: 0 };
    let mut shapes = BTreeMap::new();
    for i in 0..MODELS {
        shape(i).tables(&mut shapes);
    }
    let mut start = Vec::new();
    let dense = g.r.pct(70);
    for (n, s) in &shapes {
        for k in 1..=if dense { 6 } else { g.r.below(4) } {
            if dense && n == "every" && k > 3 {
                continue;
            }
            let row = s
                .cols()
                .iter()
                .map(|c| {
                    if c.name == s.pk {
                        key_val(c.k, k)
                    } else if s.refs.iter().any(|r| r.0 == c.name) {
                        some_key(g.r, c)
                    } else {
                        let v = field_val(&mut g, c, 0);
                        match v {
                            Val::Bytes(b) => Val::Bytes(Blob::Lit(b.bytes())),
                            v => v,
                        }
                    }
                })
                .collect();
            start.push((n.clone(), row));
        }
    }
    let n = 1 + g.r.usize(6);
    let focus: Vec<u8> = (0..3).map(|_| g.r.below(MODELS as u64) as u8).collect();
    let ops = (0..n)
        .map(|_| {
            let id = g.id();
            let model = *g.r.pick(&focus);
            let s = shape(model);
            let set = *g.r.pick(&[20u64, 60, 80, 100]);
            let kind = match g.r.below(10) {
                0..=2 => DKind::Insert(tree(&mut g, &s, set, false, false, false)),
                3 => DKind::Full(tree(&mut g, &s, set, true, false, false)),
                4 | 5 => {
                    let set = *g.r.pick(&[0u64, 20, 50, 100]);
                    let key = if g.r.pct(80) { some_key(g.r, s.pk()) } else { fresh_key(g.r, s.pk()) };
                    DKind::Update(key, tree(&mut g, &s, set, false, false, true))
                }
                _ => {
                    let binary = g.r.bool();
                    let mut present = Present::default();
                    if g.r.bool() {
                        present.shuffle = 1 + g.r.next() / 2;
                    }
                    if g.r.bool() {
                        let n = 1 + g.r.usize(4);
                        present.extra = g.r.bytes(n);
                    }
                    match g.r.below(8) {
                        0 => present.omit = Some(g.r.next() as u8),
                        1 => present.spoil = Some((g.r.next() as u32, g.r.next() as u8, Val::Null, 0)),
                        2 | 3 => {
                            let mut flat = Vec::new();
                            s.flat(s.table, &mut flat);
                            let c = g.r.usize(flat.len());
                            let like = if g.r.pct(75) { Some(flat[c].1.k) } else { None };
                            let (v, t) = foreign(g.r, binary, like);
                            present.spoil = Some((g.r.next() as u32, c as u8, v, t));
                        }
                        _ => {}
                    }
                    DKind::Select { binary, step: g.r.bool(), present }
                }
            };
            DOp { id, model, kind, cancel: None, fresh: g.r.pct(15) }
        })
        .collect();
    let next = 7 + if g.r.bool() { 0 } else { g.r.below(10) };
    let report_explicit = g.r.bool();
    DPlan { seed: r.next(), login, start, next, report_explicit, ops, net, faults: vec![], efaults: vec![], down: vec![] }
}

pub fn derive_md(base: &DPlan, out: &Outcome, r: &mut Rng) -> DPlan {
    let mut p = base.clone();
    p.seed = r.next();
    let t = p.login.timeout;
    if r.pct(30) {
        p.net = gen::gen_net(r, Focus::Mixed, t);
    }
    for _ in 0..1 + r.usize(2) {
        let k = r.usize(p.ops.len());
        let polls = out.steps.iter().find(|s| s.step == p.ops[k].id).map_or(0, |s| s.polls);
        disturb(&mut p.faults, &mut p.efaults, &mut p.ops[k].cancel, polls, t, out, r);
    }
    p
}
/// One fault more; `s2c` of the steps is the number of statements up to their end.
pub fn disturb(faults: &mut Vec<Fault>, efaults: &mut Vec<EFault>, cancel: &mut Option<u32>, polls: u32, t: u64, out: &Outcome, r: &mut Rng) {
    let count = out.steps.iter().map(|s| s.s2c).max().unwrap_or(1).max(1);
    let stall = |r: &mut Rng| -> Option<u64> {
        match r.below(4) {
            0 => None,
            1 => Some(t + 1 + r.log(2 * t)),
            _ => Some(1 + r.below(t / 2 - 100)),
        }
    };
    match r.below(10) {
        0..=4 => {
            let nth = r.below(count) as u32;
            let kind = match r.below(6) {
                0..=2 => EKind::Err(ErrSpec::new(*r.pick(&[1213u16, 1205, 1044, 1452]), "HY000", "injected")),
                3 => EKind::DieBefore,
                4 => EKind::DieAfter,
                _ => EKind::Silent,
            };
            if !efaults.iter().any(|f| f.nth == nth) {
                efaults.push(EFault { nth, kind });
            }
        }
        5 | 6 => {
            if polls > 0 {
                *cancel = Some(1 + r.below(polls as u64) as u32);
            }
        }
        _ => {
            let k = r.below(out.conns.max(1)) as u32;
            let per = out.bytes / out.conns.max(1) / 2;
            let kind = match r.below(10) {
                0 | 1 => FaultKind::Eof,
                2 => FaultKind::Reset,
                3 => FaultKind::Stall(stall(r)),
                4 => FaultKind::WriteErr,
                5 => FaultKind::StallWrite(stall(r)),
                6 => FaultKind::BlackHole,
                7 => FaultKind::ServerDeath,
                8 => FaultKind::FlushErr,
                _ => FaultKind::FlushStall(stall(r)),
            };
            let off = r.below(per.max(100) + 50);
            faults.push(Fault { step: HINT + k, off, kind });
        }
    }
}

fn shrink_tree(t: &Tree) -> Vec<Tree> {
    let mut out = Vec::new();
    for i in 0..t.f.len() {
        if t.f[i] != FV::Unset {
            let mut c = t.clone();
            c.f[i] = FV::Unset;
            out.push(c);
        }
        if let FV::Ins(x) = &t.f[i] {
            for y in shrink_tree(x) {
                let mut c = t.clone();
                c.f[i] = FV::Ins(Box::new(y));
                out.push(c);
            }
        }
    }
    out
}

pub fn shrink_md(p: &DPlan) -> Vec<DPlan> {
    let mut out = Vec::new();
    for v in removals(&p.ops) {
        out.push(DPlan { ops: v, ..p.clone() });
    }
    for v in removals(&p.faults) {
        out.push(DPlan { faults: v, ..p.clone() });
    }
    for v in removals(&p.efaults) {
        out.push(DPlan { efaults: v, ..p.clone() });
    }
    for v in removals(&p.start) {
        out.push(DPlan { start: v, ..p.clone() });
    }
    for i in 0..p.ops.len() {
        let mut with = |f: &dyn Fn(&mut DOp)| {
            let mut c = p.clone();
            f(&mut c.ops[i]);
            if c.ops[i] != p.ops[i] {
                out.push(c);
            }
        };
        with(&|o| o.cancel = None);
        with(&|o| o.fresh = false);
        match &p.ops[i].kind {
            DKind::Insert(t) | DKind::Update(_, t) => {
                for y in shrink_tree(t) {
                    with(&|o| match &mut o.kind {
                        DKind::Insert(t) | DKind::Update(_, t) => *t = y.clone(),
                        _ => {}
                    });
                }
            }
            DKind::Select { present, .. } => {
                for k in 0..5 {
                    let mut q = present.clone();
                    match k {
                        0 => q = Present::default(),
                        1 => q.shuffle = 0,
                        2 => q.extra = Vec::new(),
                        3 => q.omit = None,
                        _ => q.spoil = None,
                    }
                    with(&|o| {
                        if let DKind::Select { present, .. } = &mut o.kind {
                            *present = q.clone()
                        }
                    });
                }
            }
            DKind::Full(_) => {}
        }
    }
    for n in shrink_net(&p.net) {
        out.push(DPlan { net: n, ..p.clone() });
    }
    out
}
