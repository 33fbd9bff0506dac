//! Generators of connection plans. A base plan is generated without hard faults; after it has
//! been executed, `derive` places faults, damaged packets and cancellations inside the byte and
//! poll ranges that its calls really used.
use crate::conn::*;
use crate::rng::Rng;
use crate::server::*;
use crate::val::*;
use crate::wire::*;
use crate::world::*;
use std::rc::Rc;

/// What a check concentrates on.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus {
    Mixed,
    Sizes,
    Params,
    Values,
    Results,
    Info,
    Timing,
    Login,
    Secret,
    Hostile,
    Flush,
    Concurrent,
}

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub next: u32,
    pub focus: Focus,
    /// Remaining budget of huge payloads.
    pub huge: u32,
}

fn small_info(r: &mut Rng) -> Option<String> {
    match r.below(6) {
        0 => {
            let n = 1 + r.usize(40);
            Some(r.text(n))
        }
        1 => {
            let n = 240 + r.usize(300);
            Some(r.text(n))
        }
        2 if r.pct(10) => Some(r.text(66_000)),
        3 if r.pct(30) => Some(String::new()),
        _ => None,
    }
}

fn count(r: &mut Rng) -> u64 {
    match r.below(10) {
        0 => *r.pick(&[0, 250, 251, 252, 253, 254, 255, 65_535, 65_536, 16_777_215, 16_777_216, u32::MAX as u64, u64::MAX]),
        1 => r.log(u64::MAX),
        _ => r.log(100_000),
    }
}

pub fn st(r: &mut Rng) -> u16 {
    if r.pct(40) {
        2
    } else {
        // every defined flag except "more results", which the reply encoder sets
        (r.next() as u16) & !0x000C
    }
}

fn state(r: &mut Rng) -> String {
    (0..5).map(|_| *r.pick(b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ") as char).collect()
}

impl G<'_> {
    pub fn id(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    fn ok(&mut self, id: u32) -> OkSpec {
        let status = st(self.r);
        OkSpec {
            affected: count(self.r).wrapping_add(id as u64) & if self.r.pct(95) { 0x7FFF_FFFF_FFFF_FFFF } else { u64::MAX },
            last_id: if self.r.bool() { (id as u64) << 8 | self.r.below(256) } else { count(self.r) },
            status,
            warnings: if self.r.bool() { 0 } else { self.r.log(65_535) as u16 },
            info: small_info(self.r).map(|i| if self.r.pct(30) { format!("#{id} {i}") } else { i }),
        }
    }
    fn err(&mut self, id: u32) -> ErrSpec {
        let n = self.r.usize(60);
        let long = self.r.pct(5);
        let mut msg = format!("error for {id}: {}", self.r.text(if long { 600 } else { n }));
        if self.r.pct(5) {
            msg = String::new();
        }
        let mut code = 1000 + self.r.below(3000) as u16;
        if self.r.pct(10) {
            code = if self.r.pct(30) { *self.r.pick(&[0xFFFF, 0, 1]) } else { self.r.next() as u16 };
        }
        ErrSpec { code, state: Some(state(self.r)), msg }
    }
    fn end(&mut self) -> EndSpec {
        EndSpec {
            status: st(self.r),
            warnings: if self.r.bool() { 0 } else { self.r.log(65_535) as u16 },
            info: if self.r.pct(20) { small_info(self.r) } else { None },
            counts: if self.r.pct(10) { (count(self.r), count(self.r)) } else { (0, 0) },
        }
    }
    fn name(&mut self) -> String {
        match self.r.below(12) {
            0 => String::new(),
            1 => {
                let n = 60 + self.r.usize(5);
                self.r.ident(n)
            }
            2 => {
                // 64 characters of up to 3 bytes, aliases up to 256 characters
                let n = *self.r.pick(&[64usize, 83, 84, 85, 86, 128, 256]);
                (0..n).map(|_| *self.r.pick(&['表', 'é', 'x', '\u{FFFD}'])).collect()
            }
            3 => {
                let n = *self.r.pick(&[250usize, 251, 252, 253, 254, 255, 256, 300]);
                self.r.ident(n)
            }
            4 => {
                let n = self.r.usize(20);
                self.r.text(n)
            }
            _ => {
                let n = 1 + self.r.usize(12);
                self.r.ident(n)
            }
        }
    }
    pub fn col(&mut self) -> ColSpec {
        let ty = match self.r.below(10) {
            0..=2 => *self.r.pick(ty::STRINGS),
            3..=5 => *self.r.pick(&[ty::TINY, ty::SHORT, ty::LONG, ty::LONGLONG, ty::INT24, ty::YEAR]),
            6 => *self.r.pick(&[ty::FLOAT, ty::DOUBLE]),
            7 | 8 => *self.r.pick(&[ty::DATE, ty::TIME, ty::DATETIME, ty::TIMESTAMP]),
            _ if self.focus == Focus::Values && self.r.bool() => *self.r.pick(&[ty::TIME, ty::DATETIME]),
            _ => *self.r.pick(&[ty::NULL, ty::LONGBLOB, ty::VARSTRING, ty::LONGLONG]),
        };
        let mut flags = self.r.next() as u16;
        if self.r.pct(50) {
            flags &= UNSIGNED | 1;
        }
        let name = self.name();
        let org_name = if self.r.bool() { name.clone() } else { self.name() };
        let table = self.name();
        let org_table = if self.r.bool() { table.clone() } else { self.name() };
        ColSpec {
            name,
            org_name,
            table,
            org_table,
            ty,
            flags,
            charset: if self.r.bool() { 63 } else { self.r.below(300) as u16 },
            len: self.r.next() as u32,
            decimals: if matches!(ty, ty::TIME | ty::DATETIME | ty::TIMESTAMP) { self.r.below(7) as u8 } else { *self.r.pick(&[0, 2, 31]) },
        }
    }
    fn blob(&mut self, id: u32, rowno: usize) -> Val {
        let len = match self.r.below(30) {
            0 => *self.r.pick(&[0usize, 1, 250, 251, 252, 253, 254, 255, 256]),
            1 => *self.r.pick(&[65_534usize, 65_535, 65_536, 65_537]),
            2 => self.r.log(20_000) as usize,
            3 if self.huge > 0 && self.r.pct(25) => {
                self.huge -= 1;
                MAX - 20 + self.r.usize(40)
            }
            _ => self.r.usize(24),
        };
        if len > 64 {
            Val::Bytes(Blob::Gen { len, seed: self.r.next() })
        } else {
            let mut v = format!("{id}.{rowno}.").into_bytes();
            let x = self.r.bytes(len);
            v.extend_from_slice(&x);
            if self.r.pct(8) {
                v.clear();
            }
            if self.r.pct(4) {
                v = vec![*self.r.pick(&[0u8, 0xFE, 0xFF, 0xFB]); 1 + self.r.usize(3)];
            }
            Val::Bytes(Blob::Lit(v))
        }
    }
    fn int(&mut self, c: &ColSpec) -> Val {
        let x = match self.r.below(6) {
            0 => 0,
            1 => u64::MAX,
            2 => 1 << self.r.below(64),
            3 => (1u64 << self.r.below(64)).wrapping_sub(1),
            _ => {
                let v = self.r.next();
                v >> self.r.below(64)
            }
        };
        let x = if self.r.pct(30) { x.wrapping_neg() } else { x };
        let u = c.flags & UNSIGNED != 0;
        match c.ty {
            ty::TINY if u => Val::U8(x as u8),
            ty::TINY => Val::I8(x as i8),
            ty::SHORT if u => Val::U16(x as u16),
            ty::SHORT => Val::I16(x as i16),
            ty::YEAR => {
                let y = if self.r.pct(10) { 0 } else { 1901 + (x % 255) as u16 };
                if u {
                    Val::U16(y)
                } else {
                    Val::I16(y as i16)
                }
            }
            ty::LONG if u => Val::U32(x as u32),
            ty::INT24 if u => Val::U32(x as u32 & 0xFF_FFFF),
            ty::LONG => Val::I32(x as i32),
            ty::INT24 => Val::I32((x as i32) << 8 >> 8),
            _ if u => Val::U64(x),
            _ => Val::I64(x as i64),
        }
    }
    pub fn float(&mut self, wide: bool) -> Val {
        if wide {
            let f = match self.r.below(6) {
                0 => *self.r.pick(&[0.0, -0.0, 1.0, -1.5, f64::MAX, f64::MIN_POSITIVE, 5e-324, 0.1, 1e15, 123456789.125]),
                _ => loop {
                    let f = f64::from_bits(self.r.next());
                    if f.is_finite() {
                        break f;
                    }
                },
            };
            Val::F64(f.to_bits())
        } else {
            let f = match self.r.below(6) {
                0 => *self.r.pick(&[0.0f32, -0.0, 1.0, -1.5, f32::MAX, f32::MIN_POSITIVE, 1e-45, 0.1, 16777216.0]),
                _ => loop {
                    let f = f32::from_bits(self.r.next() as u32);
                    if f.is_finite() {
                        break f;
                    }
                },
            };
            Val::F32(f.to_bits())
        }
    }
    pub fn date(&mut self, ty: u8, dec: u8) -> Val {
        let z = self.r.pct(8);
        let (y, m, d) = if z { (0, 0, 0) } else { (self.r.below(10_000) as u16, self.r.below(13) as u8, self.r.below(32) as u8) };
        let midnight = self.r.pct(20);
        let us = match self.r.below(4) {
            0 => 0,
            1 => 999_999,
            2 => 1 + self.r.below(9) as u32,
            _ => self.r.below(1_000_000) as u32,
        };
        let us = if dec == 0 && self.r.bool() { 0 } else { us };
        match ty {
            ty::DATE => Val::Date(y, m, d),
            ty::TIME => {
                let h = if self.r.pct(20) { self.r.below(840) } else { self.r.below(30) } as u32;
                if midnight {
                    Val::Time(false, 0, 0, 0, 0, if self.r.bool() { us } else { 0 })
                } else {
                    Val::Time(self.r.bool(), h / 24, (h % 24) as u8, self.r.below(60) as u8, self.r.below(60) as u8, us)
                }
            }
            _ => {
                if midnight {
                    Val::Dt(y, m, d, 0, 0, 0, if self.r.pct(30) { us } else { 0 })
                } else if z && self.r.bool() {
                    Val::Dt(0, 0, 0, 0, 0, 0, 0)
                } else {
                    Val::Dt(y, m, d, self.r.below(24) as u8, self.r.below(60) as u8, self.r.below(60) as u8, us)
                }
            }
        }
    }
    pub fn cell(&mut self, c: &ColSpec, id: u32, rowno: usize, binary: bool, bad: bool) -> Val {
        if c.ty == ty::NULL || self.r.pct(12) {
            return Val::Null;
        }
        if bad && !binary && self.r.pct(6) && !ty::STRINGS.contains(&c.ty) {
            let v: &[&[u8]] = match c.ty {
                ty::FLOAT | ty::DOUBLE => &[b"", b"x", b"1.2.3", b"\xff", b"1e", b"0x10", b"--1"],
                ty::DATE => &[b"", b"2020-1-1", b"2020/01/01", b"20200101", b"2020-01-01x", b"20a0-01-01", b"2020-01-0", b"-999-01-01"],
                ty::TIME => &[
                    b"", b"-", b"10", b"10:00", b"aa:00:00", b"10:0x:00", b"10:00:00.1234567", b":00:00", b"10:00:00x5", b"10.00.00",
                    b"10:00:00.99999999999", b"99999999999:00:00", b"--1:00:00", b"10:00:00.x", b"10:00-00",
                ],
                ty::DATETIME | ty::TIMESTAMP => &[
                    b"", b"2020-01-01", b"2020-01-01 10:00", b"2020-01-01 10:00:0x", b"2020-01-01 10:00:00.1234567",
                    b"2020-13-0a 10:00:00", b"xxxxxxxxxxxxxxxxxxx", b"2020-01-01 100000000",
                ],
                _ => &[b"", b"x", b"1.5", b"99999999999999999999999", b"-", b"12a", b"0x1", b" 1", b"-99999999999999999999"],
            };
            return Val::BadText(self.r.pick(v).to_vec());
        }
        if bad && binary && self.r.pct(6) {
            // temporal values of impossible lengths
            let lens: &[usize] = match c.ty {
                ty::DATE => &[1, 2, 3, 5, 6, 8, 9],
                ty::TIME => &[1, 4, 5, 7, 9, 11, 13],
                ty::DATETIME | ty::TIMESTAMP => &[1, 3, 5, 6, 8, 10, 12],
                _ => &[],
            };
            if !lens.is_empty() {
                let n = *self.r.pick(lens);
                return Val::BadText(vec![1; n]);
            }
        }
        match c.ty {
            ty::FLOAT => self.float(false),
            ty::DOUBLE => self.float(true),
            ty::DATE | ty::TIME | ty::DATETIME | ty::TIMESTAMP => self.date(c.ty, c.decimals),
            t if ty::STRINGS.contains(&t) => self.blob(id, rowno),
            _ => self.int(c),
        }
    }
    pub fn rows(&mut self, id: u32, binary: bool) -> RowsSpec {
        let mut nc = match self.r.below(20) {
            0 => 1 + self.r.usize(40),
            1 if self.r.pct(20) => *self.r.pick(&[250usize, 251, 252, 300, 1000]),
            _ => 1 + self.r.usize(6),
        };
        if self.focus == Focus::Info && self.r.pct(20) {
            nc = 1 + self.r.usize(20);
        }
        let mut nr = match self.r.below(12) {
            0 => 0,
            1 => self.r.usize(60),
            _ => self.r.usize(6),
        };
        if nc > 100 {
            nr = nr.min(2);
        }
        let bad = matches!(self.focus, Focus::Values | Focus::Results) && self.r.pct(30) || self.r.pct(4);
        let mut cols: Vec<ColSpec> = (0..nc).map(|_| self.col()).collect();
        if self.focus == Focus::Values && self.r.pct(4) {
            let k = self.r.usize(nc);
            cols[k].ty = *self.r.pick(ty::UNUSABLE);
        }
        // a row packet of about (often exactly) one, two or three full frames
        let full = matches!(self.focus, Focus::Sizes | Focus::Results | Focus::Values) && self.huge > 0 && nr > 0 && self.r.pct(35);
        if full {
            cols.truncate(1);
            cols[0].ty = *self.r.pick(ty::STRINGS);
        }
        let mut rows: Vec<Vec<Val>> = (0..nr)
            .map(|k| {
                let r: Vec<Val> = cols
                    .iter()
                    .map(|c| if ty::UNUSABLE.contains(&c.ty) { self.val_bytes(k) } else { self.cell(c, id, k, binary, bad) })
                    .collect();
                r
            })
            .collect();
        if full {
            self.huge = self.huge.saturating_sub(1);
            let m = *self.r.pick(&[1usize, 1, 2, 2, 3]);
            let around = if self.r.pct(60) { 12 } else { self.r.usize(24) };
            // length prefix; header and null bitmap of a binary row
            let head = if m == 1 { 4 } else { 9 } + if binary { 2 } else { 0 };
            let len = m * MAX - head - 12 + around;
            let k = self.r.usize(nr);
            rows[k][0] = Val::Bytes(Blob::Gen { len, seed: self.r.next() });
        }
        let abort = if self.r.pct(if self.focus == Focus::Results { 20 } else { 8 }) { Some(self.err(id)) } else { None };
        RowsSpec { cols: Rc::new(cols), rows: Rc::new(rows), end: self.end(), abort }
    }
    fn val_bytes(&mut self, _k: usize) -> Val {
        if self.r.pct(30) {
            Val::Null
        } else {
            Val::str("12")
        }
    }
    fn one_resp(&mut self, id: u32, binary: bool, want_rows: bool) -> Resp {
        match self.r.below(20) {
            0 | 1 => Resp::Err(self.err(id)),
            2..=4 if want_rows => Resp::Ok(self.ok(id)),
            2..=17 if !want_rows => Resp::Ok(self.ok(id)),
            _ => Resp::Rows(self.rows(id, binary)),
        }
    }
    pub fn resp(&mut self, id: u32, binary: bool, want_rows: bool) -> Rc<Resp> {
        let multi = match self.focus {
            Focus::Mixed | Focus::Results | Focus::Info => 12,
            _ => 4,
        };
        if self.r.pct(multi) {
            let n = 2 + self.r.usize(3);
            let v = (0..n).map(|_| {
                let wr = self.r.pct(60);
                self.one_resp(id, binary, wr)
            });
            return Rc::new(Resp::Multi(v.collect()));
        }
        Rc::new(self.one_resp(id, binary, want_rows))
    }
    fn consume(&mut self) -> Consume {
        match self.r.below(14) {
            0..=2 => Consume::Next(self.r.below(8) as u32),
            3..=5 => Consume::Collect,
            6 => Consume::CollectTwice,
            7 | 8 => Consume::One,
            9 => Consume::Finish,
            10 => Consume::FinishInner,
            11 => Consume::NextFinish(self.r.below(5) as u32),
            12 => Consume::IntoColumns,
            _ => Consume::Drop,
        }
    }
    fn pad(&mut self) -> usize {
        match self.focus {
            // more than the buffer pool keeps, more than one frame
            Focus::Concurrent if self.huge > 0 && self.r.pct(40) => {
                self.huge -= 1;
                (4 << 20) + self.r.log(6 << 20) as usize
            }
            Focus::Timing | Focus::Flush if self.huge > 0 && self.r.pct(40) => {
                self.huge -= 1;
                if self.r.pct(40) {
                    // exactly one full frame
                    MAX - 3 - self.next.to_string().len()
                } else {
                    MAX - 12 + self.r.log(2 << 20) as usize
                }
            }
            Focus::Sizes => match self.r.below(10) {
                0..=3 if self.huge > 0 => {
                    self.huge -= 1;
                    let m = 1 + self.r.usize(2);
                    // command byte, `q`, the id and `|` are part of the payload
                    let head = 3 + self.next.to_string().len();
                    let around = if self.r.pct(40) { 12 } else { self.r.usize(24) };
                    m * MAX - head - 12 + around
                }
                4 => self.r.log(3_000_000) as usize,
                5 => 65_536 - 10 + self.r.usize(20),
                _ => self.r.usize(300),
            },
            _ => match self.r.below(20) {
                0 => self.r.log(300_000) as usize,
                1..=5 => 0,
                _ => self.r.usize(60),
            },
        }
    }
    pub fn val(&mut self) -> Val {
        match self.r.below(18) {
            0 | 1 => Val::Null,
            2 => Val::I8(self.r.next() as i8),
            3 => Val::I16(self.r.next() as i16),
            4 => Val::I32(self.r.next() as i32),
            5 => Val::I64(self.r.next() as i64),
            6 => Val::U8(self.r.next() as u8),
            7 => Val::U16(self.r.next() as u16),
            8 => Val::U32(self.r.next() as u32),
            9 => Val::U64(self.r.next()),
            10 => self.float(false),
            11 => self.float(true),
            12 => self.date(ty::DATE, 6),
            13 => self.date(ty::TIME, 6),
            14 => self.date(ty::DATETIME, 6),
            _ => {
                let k = self.r.usize(100);
                self.blob(self.next, k)
            }
        }
    }
    fn params(&mut self) -> Vec<Val> {
        let n = match self.r.below(16) {
            0 => 0,
            1 => *self.r.pick(&[7usize, 8, 9, 15, 16, 17, 63, 64, 65, 255, 256, 257]),
            2 if self.focus == Focus::Params && self.r.pct(40) => {
                if self.r.pct(15) {
                    *self.r.pick(&[32_767, 65_535])
                } else {
                    *self.r.pick(&[500usize, 1000, 4096])
                }
            }
            _ => 1 + self.r.usize(6),
        };
        let mut v: Vec<Val> = (0..n).map(|_| self.val()).collect();
        if self.focus == Focus::Params && n > 0 && self.huge > 0 && self.r.pct(50) {
            self.huge -= 1;
            // parameters that do not fit a packet
            match self.r.below(4) {
                0 => {
                    let k = self.r.usize(n);
                    let len = MAX - 40 + self.r.usize(60);
                    v[k] = Val::Bytes(Blob::Gen { len, seed: self.r.next() });
                }
                1 => {
                    let k = self.r.usize(n);
                    let len = 2 * (MAX - 6) - 5 + self.r.usize(10);
                    v[k] = Val::Bytes(Blob::Gen { len, seed: self.r.next() });
                }
                2 => {
                    let m = 2 + self.r.usize(3);
                    for _ in 0..m {
                        let k = self.r.usize(n);
                        v[k] = Val::Bytes(Blob::Gen { len: MAX / m + self.r.usize(2000), seed: self.r.next() });
                    }
                }
                _ => {
                    // as near to the limit as possible
                    let k = self.r.usize(n);
                    v[k] = Val::Null;
                    let mut rest = 10 + (n + 7) / 8 + 1 + 2 * n;
                    for x in &v {
                        let mut b = Vec::new();
                        bin_val(&mut b, x);
                        rest += b.len();
                    }
                    let len = (MAX + 4).saturating_sub(rest + 4).saturating_sub(self.r.usize(8));
                    v[k] = Val::Bytes(Blob::Gen { len, seed: self.r.next() });
                }
            }
        }
        v
    }
    fn prepare(&mut self, runs: usize) -> Op {
        let id = self.id();
        let shape = self.params();
        let nc = match self.r.below(6) {
            0 => 0,
            1 => self.r.usize(20),
            _ => self.r.usize(4),
        };
        let res = if self.r.pct(6) {
            Err(self.err(id))
        } else {
            Ok(Prep {
                params: shape.len() as u16,
                cols: Rc::new((0..nc).map(|_| self.col()).collect()),
                warnings: self.r.log(100) as u16,
            })
        };
        let n = shape.len();
        let big = n > 300;
        // which executions have the parameters that do not fit a packet
        let which = *self.r.pick(&[[true, false], [true, false], [true, true], [false, true]]);
        let mut out = Vec::new();
        for k in 0..if big { runs.min(2) } else { runs } {
            let rid = self.id();
            let params = if k == 0 {
                shape.clone()
            } else {
                (0..n).map(|i| if !huge(&shape[i]) && self.r.pct(50) { self.val() } else { shape[i].clone() }).collect()
            };
            let params: Vec<Val> = if k < 2 && which[k] {
                params
            } else {
                params.into_iter().map(|v: Val| if huge(&v) { Val::I8(1) } else { v }).collect()
            };
            let want_rows = self.r.pct(70);
            let resp = self.resp(rid, true, want_rows);
            let query = if want_rows || self.r.pct(30) { Some(self.consume()) } else { None };
            let wrong = if self.r.pct(12) { Some(self.r.usize(n + 3) as u32) } else { None };
            out.push(Run { id: rid, params: Rc::new(params), resp, query, cancel: None, wrong });
        }
        Op { id, cancel: None, kind: Kind::Prepare { pad: self.pad(), res, runs: out } }
    }
    pub fn op(&mut self, i: usize, n: usize) -> Op {
        let id = self.id();
        if i + 1 == n && self.r.pct(40) {
            return Op { id, cancel: None, kind: Kind::Disconnect };
        }
        let k = self.r.below(20);
        let kind = match (self.focus, k) {
            (Focus::Params, 0..=15) => {
                let n = 1 + self.r.usize(4);
                return self.prepare(n);
            }
            (_, 0..=7) => Kind::Query { pad: self.pad(), resp: self.resp(id, false, true), consume: self.consume() },
            (_, 8..=11) => Kind::Exec { pad: self.pad(), resp: self.resp(id, false, false) },
            (_, 12..=16) => {
                let n = 1 + self.r.usize(3);
                return self.prepare(n);
            }
            (_, 17) => Kind::Sleep(self.r.log(50_000)),
            _ => Kind::Cleanup,
        };
        Op { id, cancel: None, kind }
    }
}

fn huge(v: &Val) -> bool {
    matches!(v, Val::Bytes(b) if b.len() > 1 << 20)
}

pub fn gen_net(r: &mut Rng, focus: Focus, timeout: u64) -> NetCfg {
    let mut n = NetCfg::plain();
    n.rd = r.below(5) as u8;
    n.wr = r.below(5) as u8;
    if r.pct(50) {
        n.pend = *r.pick(&[5, 20, 50]);
    }
    if r.pct(40) {
        n.lat = r.log(timeout / 2 - 300);
    }
    let p = if focus == Focus::Timing { 80 } else { 15 };
    if r.pct(p) {
        n.gap_pct = *r.pick(&[10, 30, 60]);
        n.gap = timeout / 2 - 300 - r.below(timeout / 8);
    }
    if r.pct(p) {
        n.wgap_pct = *r.pick(&[10, 30, 60]);
        n.wgap = timeout / 2 - 300 - r.below(timeout / 8);
    }
    if r.pct(p / 2) {
        n.trickle = true;
        n.gap = n.gap.max(1) * 2;
        n.wgap = n.wgap.max(1) * 2;
        // every single wait stays below the timeout
        n.gap = n.gap.min(timeout - 250);
        n.wgap = n.wgap.min(timeout - 250);
    }
    if focus == Focus::Timing && r.pct(25) {
        // what is there when the client is polled late has to be taken, so no poll may be wasted
        n.pend = 0;
        n.hog = timeout + timeout / 2;
    }
    n.buffered = r.pct(if focus == Focus::Flush { 85 } else { 25 });
    n
}

/// An ordinary login that succeeds.
pub fn gen_login(r: &mut Rng, part: usize) -> LoginCfg {
    let mut l = LoginCfg::simple();
    l.user = format!("user{part}");
    l.conn_id = 1000 * (part as u32 + 1);
    l.timeout = *r.pick(&[1000u64, 2000, 10_000, 60_000]);
    l.password = format!("secret{part}{}", r.ident(8));
    l.account_password = l.password.clone();
    if r.pct(40) {
        l.caps &= !CAP_DEPRECATE_EOF;
    }
    // capabilities that the client does not ask for
    l.caps |= (r.next() as u32) & !(CAP_DEPRECATE_EOF | CAP_LONG_PASSWORD) & !0x1000;
    l.caps |= BASE_CAPS & !CAP_DEPRECATE_EOF;
    match r.below(4) {
        0 => {
            l.account = Plug::Sha2;
            l.offered = Plug::Sha2.name().into();
            l.cached = r.pct(70);
            l.secure = r.pct(30);
            l.key = r.below(crate::crypto::KEYS as u64) as u8;
        }
        1 => {
            l.account = Plug::Native;
            l.offered = Plug::Sha2.name().into();
        }
        _ => {}
    }
    if r.pct(30) {
        l.max_packet = None;
        l.settings = Some(1024 * (1 + r.below(1 << 20)));
    }
    if r.pct(20) {
        l.db = Some(r.ident(6));
    }
    l
}

pub const VERSIONS: &[(&str, (u16, u16, u16), bool)] = &[
    ("8.0.36", (8, 0, 36), false),
    ("8.4.0", (8, 4, 0), false),
    ("5.7.44-log", (5, 7, 44), false),
    ("5.1.73-community", (5, 1, 73), false),
    ("5.0.96", (5, 0, 96), false),
    ("5.5.2-m2", (5, 5, 2), false),
    ("5.5.3-m3-log", (5, 5, 3), false),
    ("5.6.51", (5, 6, 51), false),
    ("5.5.68-MariaDB", (5, 5, 68), true),
    ("8.0.36-0ubuntu0.22.04.1", (8, 0, 36), false),
    ("9.1.0", (9, 1, 0), false),
    ("11.2.2-MariaDB", (11, 2, 2), true),
    ("10.11.6-MariaDB-1:10.11.6+maria~ubu2204", (10, 11, 6), true),
    ("10.4.32-MariaDB-log", (10, 4, 32), true),
    ("5.5.5-10.6.12-MariaDB-0ubuntu0.22.04.1", (10, 6, 12), true),
    ("5.5.5-10.3.39-MariaDB", (10, 3, 39), true),
    ("5.5.5-10.11.2-MariaDB-log", (10, 11, 2), true),
];

/// Every kind of login the client supports, accepted or refused at any stage.
pub fn gen_any_login(r: &mut Rng, part: usize) -> LoginCfg {
    let mut l = gen_login(r, part);
    let (v, e, m) = r.pick(VERSIONS);
    l.version = v.to_string();
    l.expect_version = *e;
    l.mariadb = *m;
    l.conn_id = r.next() as u32;
    let n = r.usize(20);
    l.user = r.text(n).replace('\0', "0");
    l.password = match r.below(12) {
        0 => String::new(),
        1 => "p".into(),
        2 => {
            let n = 40 + r.usize(40);
            r.ident(n)
        }
        _ => {
            let n = 8 + r.usize(16);
            r.ident(n)
        }
    };
    l.account_password = l.password.clone();
    l.account = *r.pick(&[Plug::Native, Plug::Native, Plug::Sha2, Plug::Sha2, Plug::Clear]);
    l.offered = match r.below(8) {
        0 => Plug::Clear.name().into(),
        1 => (*r.pick(&["sha256_password", "client_ed25519", "auth_gssapi_client", "dialog", "mysql_old_password", ""])).into(),
        2..=4 => Plug::Sha2.name().into(),
        _ => Plug::Native.name().into(),
    };
    if r.pct(40) {
        l.offered = l.account.name().into();
    }
    l.pinned = match r.below(6) {
        0 => Some(l.account),
        1 => Some(*r.pick(&[Plug::Native, Plug::Sha2, Plug::Clear])),
        2 => Some(Plug::Sha2),
        _ => None,
    };
    l.allow_clear = r.pct(40);
    l.cached = r.bool();
    l.secure = r.pct(25);
    l.key = r.below(crate::crypto::KEYS as u64) as u8;
    l.pkcs8 = r.bool();
    l.preset_key = r.pct(15);
    l.plugin_nul = r.pct(80);
    if r.pct(15) {
        l.pad = *r.pick(&[1u8, 2, 7, 100, 234]);
    }
    if r.pct(50) {
        l.greet = r.next() as u32;
    }
    l.ok = OkSpec {
        affected: 0,
        last_id: 0,
        status: st(r),
        warnings: r.below(3) as u16,
        info: small_info(r),
    };
    if r.pct(25) {
        l.account_password = if r.pct(20) { String::new() } else { format!("{}x", l.password) };
    }
    if r.pct(35) {
        let stage = r.below(6) as u8;
        let n = r.usize(50);
        let mut e = ErrSpec { code: 1000 + r.below(1000) as u16, state: Some(state(r)), msg: format!("refused: {}", r.text(n)) };
        if stage == 0 && r.pct(70) {
            e.state = None;
        }
        l.refuse = Some((stage, e));
    }
    if r.pct(6) {
        l.caps &= !CAP_PLUGIN_AUTH;
        l.pinned = *r.pick(&[None, Some(Plug::Native)]);
        l.account = Plug::Native;
    }
    if r.pct(50) {
        l.db = match r.below(3) {
            0 => None,
            1 => Some(r.ident(8)),
            _ => Some(r.text(12).replace('\0', "0")),
        };
    }
    l.max_packet = if r.bool() { None } else { Some(1 + r.log(1 << 30) as usize) };
    l.settings = Some(1024 * (1 + r.below(1 << 20)));
    if l.account != Plug::Sha2 && r.pct(12) {
        // without this capability the length of an answer is one byte
        l.caps |= CAP_LENENC_AUTH;
        // tokens used as passwords are long; elsewhere the RSA keys bound the length
        let n = *r.pick(&[200, 249, 250, 251, 254, 255, 256, 257, 300, 1000]);
        let fits = l.account_password == l.password;
        l.password = r.ident(n);
        while l.password.len() < n {
            l.password.push('k');
        }
        l.account_password = if fits { l.password.clone() } else { l.password[..l.password.len() - 1].to_string() };
    }
    l
}

fn nonce(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0 => r.usize(8),
        1 => 20 + r.usize(60),
        2 => 0,
        _ => 20,
    };
    match r.below(6) {
        // challenges that make XOR transparent
        0 => vec![0; n],
        1 => vec![1; n],
        2 => vec![0x20; n],
        _ => (0..n).map(|_| 1 + r.below(255) as u8).collect(),
    }
}

fn host_msg(r: &mut Rng) -> Host {
    match r.below(14) {
        0..=4 => Host::Switch {
            plugin: match r.below(10) {
                0..=2 => Plug::Clear.name().into(),
                3..=5 => Plug::Native.name().into(),
                6..=8 => Plug::Sha2.name().into(),
                _ => (*r.pick(&["mysql_old_password", "sha256_password", "dialog", "", "mysql_clear_passwor", "MYSQL_CLEAR_PASSWORD"])).into(),
            },
            nonce: nonce(r),
            nul: r.pct(80),
        },
        5 => Host::FastOk,
        6 | 7 => Host::FullAuth,
        8 => Host::Key(r.below(crate::crypto::KEYS as u64) as u8),
        9 | 10 => Host::Ok,
        11 => Host::Err,
        _ => {
            let n = r.usize(40);
            let mut b = r.bytes(n);
            if !b.is_empty() && r.bool() {
                b[0] = *r.pick(&[0, 1, 2, 3, 4, 0xFE, 0xFF]);
            }
            Host::Raw(b)
        }
    }
}

/// A server that tries to obtain the password.
pub fn gen_hostile_login(r: &mut Rng, part: usize) -> LoginCfg {
    let mut l = gen_any_login(r, part);
    l.refuse = None;
    if l.password.len() < 8 {
        let n = 8 + r.usize(20);
        l.password = r.ident(n);
        l.account_password = l.password.clone();
    }
    // the oracle looks for the password among everything else the client sends
    l.secure = r.pct(10);
    l.allow_clear = r.pct(12);
    l.preset_key = r.pct(35);
    let n = 1 + r.usize(4);
    // One message that provokes an answer per round (the last): the server sees each answer
    // before it goes on.
    l.hostile = Some(
        (0..n)
            .map(|_| {
                let mut v = Vec::new();
                let m = host_msg(r);
                v.push(m);
                v
            })
            .collect(),
    );
    if r.pct(30) {
        // a whole exchange with another key, accepted or not
        let mut rounds = Vec::new();
        if r.bool() {
            rounds.push(vec![Host::Switch { plugin: Plug::Sha2.name().into(), nonce: nonce(r), nul: true }]);
        } else {
            l.offered = Plug::Sha2.name().into();
        }
        rounds.push(vec![Host::FullAuth]);
        if !l.preset_key || r.bool() {
            rounds.push(vec![Host::Key(r.below(crate::crypto::KEYS as u64) as u8)]);
        }
        rounds.push(vec![host_msg(r)]);
        l.hostile = Some(rounds);
        l.secure = r.pct(5);
        l.caps |= CAP_PLUGIN_AUTH;
        if l.pinned.is_some() {
            l.pinned = Some(Plug::Sha2);
        }
    }
    l
}

pub fn gen(focus: Focus, seed: u64, big: bool) -> ConnPlan {
    let mut r = Rng::new(seed);
    let mut pr = r.fork(1);
    let n_parts = match focus {
        Focus::Concurrent => 2 + pr.usize(3),
        Focus::Login | Focus::Secret => 1 + pr.pct(15) as usize,
        _ => {
            if pr.pct(10) {
                2
            } else {
                1
            }
        }
    };
    let mut next = 10;
    let mut parts: Vec<Part> = Vec::new();
    let mut timeout = u64::MAX;
    for p in 0..n_parts {
        let mut lr = r.fork(10 + p as u64);
        let login = match focus {
            Focus::Login if lr.pct(15) => gen_hostile_login(&mut lr, p),
            Focus::Login => gen_any_login(&mut lr, p),
            Focus::Secret => {
                if lr.pct(80) {
                    gen_hostile_login(&mut lr, p)
                } else {
                    gen_any_login(&mut lr, p)
                }
            }
            Focus::Flush | Focus::Timing if lr.pct(30) => {
                let mut l = gen_any_login(&mut lr, p);
                l.timeout = *lr.pick(&[1000, 3000, 10_000]);
                l
            }
            _ => gen_login(&mut lr, p),
        };
        // the same user again
        let again = p > 0 && matches!(focus, Focus::Login | Focus::Secret) && lr.pct(60);
        let login = if again { parts[0].login.clone() } else { login };
        timeout = timeout.min(login.timeout);
        let n_ops = match focus {
            Focus::Login | Focus::Secret => lr.usize(3),
            Focus::Sizes => 1 + lr.usize(4),
            Focus::Concurrent => 3 + lr.usize(6),
            _ => 1 + lr.usize(8),
        };
        let mut g = G { r: &mut lr, next, focus, huge: if big { 2 } else { 0 } };
        let ops = (0..n_ops).map(|i| g.op(i, n_ops)).collect();
        next = g.next;
        parts.push(Part { login, cancel: None, start: if p == 0 { 0 } else { r.log(500) }, ops });
    }
    let mut nr = r.fork(3);
    let mut net = gen_net(&mut nr, focus, timeout);
    if big {
        // keep huge transfers cheap
        net.rd = *nr.pick(&[0, 0, 3, 4]);
        net.wr = *nr.pick(&[0, 0, 3, 4]);
        net.pend = 0;
    }
    ConnPlan { seed: r.next(), parts, net, faults: Vec::new(), mis: Vec::new(), raw: Vec::new(), mutate: Vec::new(), lax: false, again: if matches!(focus, Focus::Login | Focus::Secret) && r.pct(30) { Some(r.next()) } else { None } }
}

/// Adds faults, damaged packets and cancellations inside the ranges the base run used.
pub fn derive(focus: Focus, base: &ConnPlan, stats: &[StepStat], r: &mut Rng) -> ConnPlan {
    let mut p = base.clone();
    p.seed = r.next();
    if r.pct(30) {
        let t = p.parts.iter().map(|x| x.login.timeout).min().unwrap();
        let keep = (p.net.rd, p.net.wr);
        p.net = gen_net(r, focus, t);
        if stats.iter().any(|s| s.c2s + s.s2c > 4 << 20) {
            (p.net.rd, p.net.wr) = keep;
            p.net.pend = 0;
        }
    }
    if stats.is_empty() {
        return p;
    }
    let n = 1 + (r.below(4) == 0) as usize;
    for _ in 0..n {
        // login steps are part numbers; prefer commands unless the login is the subject
        let login_focus = matches!(focus, Focus::Login | Focus::Secret) || matches!(focus, Focus::Flush | Focus::Timing) && r.pct(20);
        let cands: Vec<&StepStat> = stats.iter().filter(|s| (s.step < 10) == login_focus).collect();
        let s = if cands.is_empty() || r.pct(15) { r.pick(stats).clone() } else { (*r.pick(&cands)).clone() };
        // interrupt what is followed by parameters that do not fit a packet
        let mut before = Vec::new();
        for op in p.parts.iter().flat_map(|x| &x.ops) {
            if let Kind::Prepare { runs, .. } = &op.kind {
                before.extend(runs.windows(2).filter(|w| w[1].params.iter().any(huge)).map(|w| w[0].id));
            }
        }
        let (s, w_extra) = match stats.iter().find(|s| before.contains(&s.step)) {
            Some(x) if r.pct(40) => (x.clone(), 50),
            _ => (s, 0),
        };
        let t = p.parts[s.part].login.timeout;
        // bias towards the edges of packets
        let off = |r: &mut Rng, n: u64| -> u64 {
            match r.below(8) {
                0 => r.below(6).min(n),
                1 => n.saturating_sub(r.below(6)),
                2 => n,
                3 => r.log(n),
                _ => r.below(n + 1),
            }
        };
        let stall = |r: &mut Rng| -> Option<u64> {
            match r.below(6) {
                0 | 1 => None,
                2 => Some(t + 1 + r.log(3 * t)),
                3 => Some(t + 400 + r.below(t)),
                // stays below the timeout even together with the other delays
                _ => Some(1 + r.below(t / 2 - 100).min(t / 2 - 101)),
            }
        };
        let w_cancel = match focus {
            Focus::Mixed | Focus::Concurrent => 35,
            Focus::Params => 30,
            Focus::Timing => 5,
            _ => 15,
        };
        if r.pct(w_cancel + w_extra) && s.polls > 0 {
            let k = 1 + r.below(s.polls as u64) as u32;
            for (i, part) in p.parts.iter_mut().enumerate() {
                if s.step < 10 && i == s.step as usize {
                    part.cancel = Some(k);
                }
                for op in &mut part.ops {
                    if op.id == s.step {
                        op.cancel = Some(k);
                    }
                    if let Kind::Prepare { runs, .. } = &mut op.kind {
                        for run in runs {
                            if run.id == s.step {
                                run.cancel = Some(k);
                            }
                        }
                    }
                }
            }
            continue;
        }
        let w_mis = match focus {
            Focus::Mixed | Focus::Sizes | Focus::Results => 25,
            Focus::Login | Focus::Secret | Focus::Flush | Focus::Timing => 0,
            _ => 12,
        };
        if s.step >= 10 && r.pct(w_mis) {
            let pkt = if r.bool() { r.below(4) as u32 } else { r.next() as u32 >> 8 };
            let kind = match r.below(4) {
                0 | 1 => MisKind::BadSeq(1 + r.below(255) as u8),
                2 => MisKind::Drop,
                _ => MisKind::Dup,
            };
            if !p.mis.iter().any(|m| m.step == s.step) {
                p.mis.push(Mis { step: s.step, pkt, kind });
            }
            continue;
        }
        if s.step < 10 && r.pct(15) {
            let kind = if r.bool() { FaultKind::ConnErr } else { FaultKind::ConnStall(stall(r)) };
            p.faults.push(Fault { step: s.step, off: 0, kind });
            continue;
        }
        let kind = match focus {
            Focus::Timing => match r.below(8) {
                0..=3 => FaultKind::Stall(stall(r)),
                4 | 5 => FaultKind::StallWrite(stall(r)),
                6 => FaultKind::BlackHole,
                _ => FaultKind::FlushStall(stall(r)),
            },
            Focus::Flush => match r.below(6) {
                0..=2 => FaultKind::FlushErr,
                3 => FaultKind::FlushStall(stall(r)),
                4 => FaultKind::WriteErr,
                _ => FaultKind::Stall(stall(r)),
            },
            _ => match r.below(16) {
                0..=2 => FaultKind::Eof,
                3 => FaultKind::Reset,
                4..=7 => FaultKind::Stall(stall(r)),
                8 => FaultKind::WriteErr,
                9 => FaultKind::WriteZero,
                10 | 11 => FaultKind::StallWrite(stall(r)),
                12 => FaultKind::BlackHole,
                13 => FaultKind::ServerDeath,
                14 => FaultKind::FlushErr,
                _ => FaultKind::FlushStall(stall(r)),
            },
        };
        let off = if kind.is_read() { off(r, s.s2c) } else { off(r, s.c2s) };
        p.faults.push(Fault { step: s.step, off, kind });
    }
    p
}

/// Hostile bytes: packets of the server are damaged or replaced.
pub fn derive_bytes(base: &ConnPlan, stats: &[StepStat], r: &mut Rng) -> ConnPlan {
    let mut p = base.clone();
    p.seed = r.next();
    p.lax = true;
    if stats.is_empty() {
        return p;
    }
    let n = 1 + r.usize(3);
    for _ in 0..n {
        let s = r.pick(stats).clone();
        match r.below(16) {
            0 | 1 => {
                let off = r.below(s.s2c.max(1));
                p.faults.push(Fault { step: s.step, off, kind: FaultKind::Corrupt(1 + r.below(255) as u8) });
            }
            2 if s.step >= 10 => {
                // arbitrary stream bytes instead of a reply
                let mut b = Vec::new();
                let mut seq = 1u8;
                for _ in 0..1 + r.usize(5) {
                    let n = r.log(300) as usize;
                    let mut x = r.bytes(n);
                    if r.bool() && n > 0 {
                        x[0] = *r.pick(&[0, 1, 2, 3, 0xFB, 0xFC, 0xFE, 0xFF]);
                    }
                    if r.pct(90) {
                        frame(&mut b, &mut seq, &x);
                    } else {
                        b.extend(x);
                    }
                }
                p.raw.push((s.step, b));
            }
            3 => {
                let off = r.below(s.s2c + 1);
                p.faults.push(Fault { step: s.step, off, kind: FaultKind::Eof });
            }
            _ => {
                let pkt = match r.below(5) {
                    4 => crate::server::BINARY + r.below(4) as u32,
                    0 => 0,
                    1 => r.below(3) as u32,
                    2 => r.below(6) as u32,
                    _ => r.below(16) as u32,
                };
                p.mutate.push(Mutate { step: s.step, pkt, seed: r.next() });
            }
        }
    }
    p
}

fn b64(data: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in data.chunks(3) {
        let b = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
        let v = (b[0] as u32) << 16 | (b[1] as u32) << 8 | b[2] as u32;
        for k in 0..4 {
            if k <= c.len() {
                s.push(T[(v >> (18 - 6 * k)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

fn unb64(s: &str) -> Vec<u8> {
    let mut out = Vec::new();
    let mut v = 0u32;
    let mut n = 0;
    for c in s.bytes() {
        let x = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => continue,
        };
        v = v << 6 | x as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            out.push((v >> n) as u8);
        }
    }
    out
}

/// Key packet with a damaged key.
fn evil_key(r: &mut Rng) -> Vec<u8> {
    let k = crate::crypto::key(r.usize(crate::crypto::KEYS));
    let p1 = r.bool();
    let pem = if p1 { k.pkcs1 } else { k.pkcs8 };
    let body: String = pem.lines().filter(|l| !l.starts_with('-')).collect();
    let der = unb64(&body);
    let (b, e) = if p1 { ("-----BEGIN RSA PUBLIC KEY-----", "-----END RSA PUBLIC KEY-----") } else { ("-----BEGIN PUBLIC KEY-----", "-----END PUBLIC KEY-----") };
    let der = match r.below(6) {
        0 => der,
        // tiny modulus or exponent
        1 => {
            let int = |x: &[u8]| {
                let mut v = vec![2, x.len() as u8];
                v.extend(x);
                v
            };
            let nl = r.usize(20);
            let el = r.usize(4);
            let (a, b) = (r.bytes(nl), r.bytes(el));
            let mut s = int(&a);
            s.extend(int(&b));
            if r.bool() {
                s = int(&[0]);
                s.extend(int(&[3]));
            }
            let mut o = vec![0x30, s.len() as u8];
            o.extend(s);
            o
        }
        2 => {
            let n = r.usize(der.len() + 1);
            der[..n].to_vec()
        }
        _ => {
            let s = r.next();
            mutate(&der, s)
        }
    };
    let text = match r.below(10) {
        0 => format!("{b}{}", &e[5..]),
        1 => format!("{}\n{e}\n", &b[..b.len() - r.usize(6)]),
        2 => format!("{b}\n{}", b64(&der)),
        3 => format!("{b}{e}"),
        _ => format!("{b}\n{}\n{e}\n", b64(&der)),
    };
    let mut v = vec![1];
    v.extend(text.into_bytes());
    v
}

/// Base plan for hostile bytes.
pub fn gen_bytes(seed: u64) -> ConnPlan {
    let mut r = Rng::new(seed ^ 0xB17E);
    let focus = *r.pick(&[Focus::Mixed, Focus::Results, Focus::Values, Focus::Values, Focus::Params, Focus::Info, Focus::Login, Focus::Secret]);
    let mut p = gen(focus, seed, false);
    if r.pct(35) {
        // hostile login with malformed messages
        let l = &mut p.parts[0].login;
        let evil = |r: &mut Rng| -> Host {
            match r.below(8) {
                0..=3 => host_msg(r),
                4 | 5 => Host::Raw(evil_key(r)),
                6 => {
                    let mut v = vec![0xFE];
                    let n = r.usize(3);
                    let name: &[u8] = *r.pick(&[&b"caching_sha2_password"[..], b"mysql_native_password", b"mysql_clear_password"]);
                    v.extend(&name[..name.len() - if r.pct(10) { n } else { 0 }]);
                    if r.pct(80) {
                        v.push(0);
                    }
                    let n = *r.pick(&[0, 0, 1, 1, 7, 8, 19, 20, 21, 64]);
                    let b = r.bytes(n);
                    v.extend(b);
                    Host::Raw(v)
                }
                _ => {
                    let n = r.log(200) as usize;
                    let mut b = r.bytes(n);
                    if n > 0 {
                        b[0] = *r.pick(&EVIL_FIRST);
                    }
                    Host::Raw(b)
                }
            }
        };
        l.refuse = None;
        l.secure = r.pct(15);
        l.allow_clear = r.pct(30);
        if l.password.is_empty() && r.pct(70) {
            l.password = "secret-password".into();
        }
        if r.pct(60) {
            // walk to the key exchange
            l.pinned = if r.bool() { Some(Plug::Sha2) } else { None };
            l.offered = Plug::Sha2.name().into();
            l.preset_key = r.pct(20);
            let mut h = Vec::new();
            if r.pct(50) {
                let m = evil(&mut r);
                h.push(vec![if r.bool() { Host::Switch { plugin: Plug::Sha2.name().into(), nonce: nonce(&mut r), nul: r.bool() } } else { m }]);
            }
            h.push(vec![Host::FullAuth]);
            h.push(vec![Host::Raw(evil_key(&mut r))]);
            let m = evil(&mut r);
            h.push(vec![m]);
            l.hostile = Some(h);
        } else {
            let n = 1 + r.usize(4);
            l.hostile = Some((0..n).map(|_| (0..1 + r.usize(2)).map(|_| evil(&mut r)).collect()).collect());
        }
        if r.pct(25) {
            let n = r.log(120) as usize;
            let mut b = r.bytes(n);
            if n > 0 && r.pct(80) {
                b[0] = 10;
            }
            if n > 8 && r.bool() {
                b[1..7].copy_from_slice(b"8.0.1\0");
            }
            l.raw_greeting = Some(b);
        }
        p.lax = true;
    }
    p
}
const EVIL_FIRST: [u8; 8] = [0, 1, 2, 3, 4, 0xFB, 0xFE, 0xFF];

/// Simpler replies.
pub fn shrink_resp(r: &Resp) -> Vec<Resp> {
    match r {
        Resp::Rows(x) if !x.rows.is_empty() => {
            let n = x.rows.len();
            let mut out = Vec::new();
            let mut keep = |v: Vec<Vec<Val>>| out.push(Resp::Rows(RowsSpec { rows: Rc::new(v), ..x.clone() }));
            if n > 1 {
                keep(x.rows[..n / 2].to_vec());
                keep(x.rows[n / 2..].to_vec());
            }
            if n <= 8 {
                for i in 0..n {
                    let mut v = x.rows.to_vec();
                    v.remove(i);
                    keep(v);
                }
            }
            out
        }
        Resp::Multi(v) if v.len() > 2 => {
            (1..v.len()).map(|i| { let mut v = v.clone(); v.remove(i); Resp::Multi(v) }).collect()
        }
        _ => Vec::new(),
    }
}
