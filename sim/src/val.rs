//! Plan-level values and server replies (independent of the library's types).
use mysql_connector::types::Value;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

/// Byte strings; big ones are stored by seed so that plans stay small.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Blob {
    Lit(Vec<u8>),
    Gen { len: usize, seed: u64 },
}

impl Blob {
    pub fn len(&self) -> usize {
        match self {
            Blob::Lit(v) => v.len(),
            Blob::Gen { len, .. } => *len,
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Blob::Lit(v) => v.clone(),
            Blob::Gen { len, seed } => crate::rng::Rng::new(*seed).bytes(*len),
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    /// bit pattern
    F32(u32),
    /// bit pattern
    F64(u64),
    Bytes(Blob),
    Date(u16, u8, u8),
    Time(bool, u32, u8, u8, u8, u32),
    Dt(u16, u8, u8, u8, u8, u8, u32),
    /// Text-protocol cell that does not parse as its column's type (an error is expected).
    BadText(Vec<u8>),
}

impl Val {
    pub fn str(s: &str) -> Val {
        Val::Bytes(Blob::Lit(s.as_bytes().to_vec()))
    }
    pub fn to_lib(&self) -> Value {
        match self {
            Val::Null | Val::BadText(_) => Value::Null,
            Val::I8(x) => Value::Tiny(*x),
            Val::I16(x) => Value::Short(*x),
            Val::I32(x) => Value::Int(*x),
            Val::I64(x) => Value::Long(*x),
            Val::U8(x) => Value::UTiny(*x),
            Val::U16(x) => Value::UShort(*x),
            Val::U32(x) => Value::UInt(*x),
            Val::U64(x) => Value::ULong(*x),
            Val::F32(x) => Value::Float(f32::from_bits(*x)),
            Val::F64(x) => Value::Double(f64::from_bits(*x)),
            Val::Bytes(b) => Value::Bytes(b.bytes()),
            Val::Date(a, b, c) => Value::Date(*a, *b, *c),
            Val::Time(a, b, c, d, e, f) => Value::Time(*a, *b, *c, *d, *e, *f),
            Val::Dt(a, b, c, d, e, f, g) => Value::Datetime(*a, *b, *c, *d, *e, *f, *g),
        }
    }
    pub fn from_lib(v: &Value) -> Val {
        match v {
            Value::Null => Val::Null,
            Value::Tiny(x) => Val::I8(*x),
            Value::Short(x) => Val::I16(*x),
            Value::Int(x) => Val::I32(*x),
            Value::Long(x) => Val::I64(*x),
            Value::UTiny(x) => Val::U8(*x),
            Value::UShort(x) => Val::U16(*x),
            Value::UInt(x) => Val::U32(*x),
            Value::ULong(x) => Val::U64(*x),
            Value::Float(x) => Val::F32(x.to_bits()),
            Value::Double(x) => Val::F64(x.to_bits()),
            Value::Bytes(b) => Val::Bytes(Blob::Lit(b.clone())),
            Value::Date(a, b, c) => Val::Date(*a, *b, *c),
            Value::Time(a, b, c, d, e, f) => Val::Time(*a, *b, *c, *d, *e, *f),
            Value::Datetime(a, b, c, d, e, f, g) => Val::Dt(*a, *b, *c, *d, *e, *f, *g),
        }
    }
    /// Equality with literal/generated byte strings unified and the sign of a zero time dropped
    /// (the wire format cannot carry it).
    pub fn same(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::Bytes(a), Val::Bytes(b)) => a == b || (a.len() == b.len() && a.bytes() == b.bytes()),
            (Val::Time(_, 0, 0, 0, 0, 0), Val::Time(_, 0, 0, 0, 0, 0)) => true,
            (a, b) => a == b,
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Val::Bytes(b) => {
                let v = b.bytes();
                if v.len() <= 24 {
                    format!("Bytes({:?})", String::from_utf8_lossy(&v))
                } else {
                    format!("Bytes(len {}, {:?}..)", v.len(), String::from_utf8_lossy(&v[..16]))
                }
            }
            x => format!("{x:?}"),
        }
    }
}

pub fn same_row(a: &[Val], b: &[Val]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y))
}

pub fn brief_row(r: &[Val]) -> String {
    let mut s = String::from("[");
    for (i, v) in r.iter().enumerate() {
        if i == 6 {
            s += &format!(", .. {} values", r.len());
            break;
        }
        if i > 0 {
            s += ", ";
        }
        s += &v.brief();
    }
    s + "]"
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct OkSpec {
    pub affected: u64,
    pub last_id: u64,
    pub status: u16,
    pub warnings: u16,
    pub info: Option<String>,
}

impl OkSpec {
    pub fn plain() -> Self {
        OkSpec { affected: 0, last_id: 0, status: 2, warnings: 0, info: None }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ErrSpec {
    pub code: u16,
    /// None: sent without the `#state` marker (as a server does before capabilities are agreed).
    pub state: Option<String>,
    pub msg: String,
}

impl ErrSpec {
    pub fn new(code: u16, state: &str, msg: &str) -> Self {
        ErrSpec { code, state: Some(state.into()), msg: msg.into() }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ColSpec {
    pub name: String,
    pub org_name: String,
    pub table: String,
    pub org_table: String,
    pub ty: u8,
    pub flags: u16,
    pub charset: u16,
    pub len: u32,
    pub decimals: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct EndSpec {
    pub status: u16,
    pub warnings: u16,
    pub info: Option<String>,
    /// What a server without EOF packets writes where an OK packet has affected rows and insert id.
    #[serde(default)]
    pub counts: (u64, u64),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct RowsSpec {
    pub cols: Rc<Vec<ColSpec>>,
    pub rows: Rc<Vec<Vec<Val>>>,
    pub end: EndSpec,
    /// Server aborts the result set with this error after all `rows`.
    pub abort: Option<ErrSpec>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Resp {
    Ok(OkSpec),
    Err(ErrSpec),
    Rows(RowsSpec),
    /// Several results; all but the last are announced with MORE_RESULTS_EXISTS.
    Multi(Vec<Resp>),
    /// Raw packets (payloads) sent as they are.
    Raw(Vec<Vec<u8>>),
}

impl Resp {
    pub fn first(&self) -> &Resp {
        match self {
            Resp::Multi(v) => v[0].first(),
            x => x,
        }
    }
    pub fn more(&self) -> bool {
        matches!(self, Resp::Multi(v) if v.len() > 1)
    }
    pub fn raw(&self) -> bool {
        match self {
            Resp::Raw(_) => true,
            Resp::Multi(v) => v.iter().any(|x| x.raw()),
            _ => false,
        }
    }
}

// Column type codes.
pub mod ty {
    pub const DECIMAL: u8 = 0;
    pub const TINY: u8 = 1;
    pub const SHORT: u8 = 2;
    pub const LONG: u8 = 3;
    pub const FLOAT: u8 = 4;
    pub const DOUBLE: u8 = 5;
    pub const NULL: u8 = 6;
    pub const TIMESTAMP: u8 = 7;
    pub const LONGLONG: u8 = 8;
    pub const INT24: u8 = 9;
    pub const DATE: u8 = 10;
    pub const TIME: u8 = 11;
    pub const DATETIME: u8 = 12;
    pub const YEAR: u8 = 13;
    pub const VARCHAR: u8 = 15;
    pub const BIT: u8 = 16;
    pub const JSON: u8 = 245;
    pub const NEWDECIMAL: u8 = 246;
    pub const ENUM: u8 = 247;
    pub const SET: u8 = 248;
    pub const TINYBLOB: u8 = 249;
    pub const MEDIUMBLOB: u8 = 250;
    pub const LONGBLOB: u8 = 251;
    pub const BLOB: u8 = 252;
    pub const VARSTRING: u8 = 253;
    pub const STRING: u8 = 254;
    pub const GEOMETRY: u8 = 255;
    pub const STRINGS: &[u8] = &[
        DECIMAL, VARCHAR, BIT, JSON, NEWDECIMAL, ENUM, SET, TINYBLOB, MEDIUMBLOB, LONGBLOB, BLOB, VARSTRING, STRING,
        GEOMETRY,
    ];
    /// Types no server sends in a result set.
    pub const UNUSABLE: &[u8] = &[14, 17, 18, 19, 20, 243];
}
pub const UNSIGNED: u16 = 32;
