//! Independent encoder/decoder of the MySQL wire format (server side).
use crate::val::*;

pub const MAX: usize = 0xFF_FFFF;

pub const CAP_LONG_PASSWORD: u32 = 1;
pub const CAP_CONNECT_WITH_DB: u32 = 8;
pub const CAP_PROTOCOL_41: u32 = 0x200;
pub const CAP_TRANSACTIONS: u32 = 0x2000;
pub const CAP_SECURE: u32 = 0x8000;
pub const CAP_PS_MULTI: u32 = 0x4_0000;
pub const CAP_PLUGIN_AUTH: u32 = 0x8_0000;
pub const CAP_CONNECT_ATTRS: u32 = 0x10_0000;
pub const CAP_LENENC_AUTH: u32 = 0x20_0000;
pub const CAP_SESSION_TRACK: u32 = 0x80_0000;
pub const CAP_DEPRECATE_EOF: u32 = 0x100_0000;
pub const ST_MORE: u16 = 8;

pub fn lenenc(b: &mut Vec<u8>, n: u64) {
    match n {
        0..=250 => b.push(n as u8),
        251..=0xFFFF => {
            b.push(0xFC);
            b.extend_from_slice(&(n as u16).to_le_bytes());
        }
        0x1_0000..=0xFF_FFFF => {
            b.push(0xFD);
            b.extend_from_slice(&(n as u32).to_le_bytes()[..3]);
        }
        _ => {
            b.push(0xFE);
            b.extend_from_slice(&n.to_le_bytes());
        }
    }
}
pub fn lenstr(b: &mut Vec<u8>, s: &[u8]) {
    lenenc(b, s.len() as u64);
    b.extend_from_slice(s);
}

/// Splits a payload into frames, advancing the sequence number.
pub fn frame(out: &mut Vec<u8>, seq: &mut u8, payload: &[u8]) {
    let mut p = payload;
    loop {
        let n = p.len().min(MAX);
        out.extend_from_slice(&[n as u8, (n >> 8) as u8, (n >> 16) as u8, *seq]);
        *seq = seq.wrapping_add(1);
        out.extend_from_slice(&p[..n]);
        p = &p[n..];
        if n < MAX {
            return;
        }
    }
}

pub fn ok_packet(o: &OkSpec, more: bool) -> Vec<u8> {
    let mut b = vec![0x00];
    lenenc(&mut b, o.affected);
    lenenc(&mut b, o.last_id);
    let st = if more { o.status | ST_MORE } else { o.status & !ST_MORE };
    b.extend_from_slice(&st.to_le_bytes());
    b.extend_from_slice(&o.warnings.to_le_bytes());
    if let Some(i) = &o.info {
        lenstr(&mut b, i.as_bytes());
    }
    b
}

pub fn err_packet(e: &ErrSpec) -> Vec<u8> {
    let mut b = vec![0xFF];
    b.extend_from_slice(&e.code.to_le_bytes());
    if let Some(s) = &e.state {
        b.push(b'#');
        b.extend_from_slice(s.as_bytes());
    }
    b.extend_from_slice(e.msg.as_bytes());
    b
}

pub fn end_packet(e: &EndSpec, more: bool, deprecate_eof: bool) -> Vec<u8> {
    let st = if more { e.status | ST_MORE } else { e.status & !ST_MORE };
    let mut b = vec![0xFE];
    if deprecate_eof {
        lenenc(&mut b, e.counts.0);
        lenenc(&mut b, e.counts.1);
        b.extend_from_slice(&st.to_le_bytes());
        b.extend_from_slice(&e.warnings.to_le_bytes());
        if let Some(i) = &e.info {
            lenstr(&mut b, i.as_bytes());
        }
    } else {
        b.extend_from_slice(&e.warnings.to_le_bytes());
        b.extend_from_slice(&st.to_le_bytes());
    }
    b
}

pub fn col_packet(c: &ColSpec) -> Vec<u8> {
    let mut b = Vec::new();
    lenstr(&mut b, b"def");
    lenstr(&mut b, b"db");
    for s in [&c.table, &c.org_table, &c.name, &c.org_name] {
        lenstr(&mut b, s.as_bytes());
    }
    b.push(0x0C);
    b.extend_from_slice(&c.charset.to_le_bytes());
    b.extend_from_slice(&c.len.to_le_bytes());
    b.push(c.ty);
    b.extend_from_slice(&c.flags.to_le_bytes());
    b.push(c.decimals);
    b.extend_from_slice(&[0, 0]);
    b
}

pub fn text_cell(b: &mut Vec<u8>, v: &Val, c: &ColSpec) {
    let frac = |us: u32| -> String {
        if us == 0 && c.decimals == 0 {
            return String::new();
        }
        let d = if c.decimals == 0 || c.decimals > 6 { 6 } else { c.decimals as usize };
        let s = format!("{us:06}");
        format!(".{}", &s[..d])
    };
    let s = match v {
        Val::Null => {
            b.push(0xFB);
            return;
        }
        Val::I8(x) => x.to_string(),
        Val::I16(x) => x.to_string(),
        Val::I32(x) => x.to_string(),
        Val::I64(x) => x.to_string(),
        Val::U8(x) => x.to_string(),
        // YEAR columns are zero-padded to four digits
        Val::U16(x) if c.ty == ty::YEAR => format!("{x:04}"),
        Val::U16(x) => x.to_string(),
        Val::U32(x) => x.to_string(),
        Val::U64(x) => x.to_string(),
        Val::F32(x) => {
            let f = f32::from_bits(*x);
            if f != 0.0 && !(1e-5..1e15).contains(&f.abs()) {
                format!("{f:e}")
            } else {
                format!("{f}")
            }
        }
        Val::F64(x) => {
            let f = f64::from_bits(*x);
            if f != 0.0 && !(1e-5..1e15).contains(&f.abs()) {
                format!("{f:e}")
            } else {
                format!("{f}")
            }
        }
        Val::Bytes(x) => {
            lenstr(b, &x.bytes());
            return;
        }
        Val::BadText(x) => {
            lenstr(b, x);
            return;
        }
        Val::Date(y, m, d) => format!("{y:04}-{m:02}-{d:02}"),
        Val::Time(n, d, h, m, s, us) => {
            format!("{}{:02}:{m:02}:{s:02}{}", if *n { "-" } else { "" }, d * 24 + *h as u32, frac(*us))
        }
        Val::Dt(y, mo, d, h, m, s, us) => format!("{y:04}-{mo:02}-{d:02} {h:02}:{m:02}:{s:02}{}", frac(*us)),
    };
    lenstr(b, s.as_bytes());
}

/// What the client should see: text cells with fewer decimals lose the lower digits.
pub fn expect_text(v: &Val, c: &ColSpec) -> Val {
    let cut = |us: u32| -> u32 {
        if c.decimals == 0 || c.decimals > 6 {
            us
        } else {
            let m = 10u32.pow(6 - c.decimals as u32);
            us / m * m
        }
    };
    match v {
        Val::Time(n, d, h, m, s, us) => Val::Time(*n, *d, *h, *m, *s, cut(*us)),
        Val::Dt(y, mo, d, h, m, s, us) => Val::Dt(*y, *mo, *d, *h, *m, *s, cut(*us)),
        x => x.clone(),
    }
}

pub fn bin_val(b: &mut Vec<u8>, v: &Val) {
    match v {
        Val::Null => {}
        Val::I8(x) => b.extend_from_slice(&x.to_le_bytes()),
        Val::I16(x) => b.extend_from_slice(&x.to_le_bytes()),
        Val::I32(x) => b.extend_from_slice(&x.to_le_bytes()),
        Val::I64(x) => b.extend_from_slice(&x.to_le_bytes()),
        Val::U8(x) => b.extend_from_slice(&x.to_le_bytes()),
        Val::U16(x) => b.extend_from_slice(&x.to_le_bytes()),
        Val::U32(x) => b.extend_from_slice(&x.to_le_bytes()),
        Val::U64(x) => b.extend_from_slice(&x.to_le_bytes()),
        Val::F32(x) => b.extend_from_slice(&x.to_le_bytes()),
        Val::F64(x) => b.extend_from_slice(&x.to_le_bytes()),
        Val::Bytes(x) => lenstr(b, &x.bytes()),
        Val::BadText(x) => lenstr(b, x),
        Val::Date(0, 0, 0) => b.push(0),
        Val::Date(y, m, d) => {
            b.push(4);
            b.extend_from_slice(&y.to_le_bytes());
            b.extend_from_slice(&[*m, *d]);
        }
        Val::Time(_, 0, 0, 0, 0, 0) => b.push(0),
        Val::Time(n, d, h, m, s, us) => {
            b.push(if *us == 0 { 8 } else { 12 });
            b.push(*n as u8);
            b.extend_from_slice(&d.to_le_bytes());
            b.extend_from_slice(&[*h, *m, *s]);
            if *us != 0 {
                b.extend_from_slice(&us.to_le_bytes());
            }
        }
        Val::Dt(0, 0, 0, 0, 0, 0, 0) => b.push(0),
        Val::Dt(y, mo, d, h, m, s, us) => {
            let n = if *us != 0 {
                11
            } else if (*h, *m, *s) != (0, 0, 0) {
                7
            } else {
                4
            };
            b.push(n);
            b.extend_from_slice(&y.to_le_bytes());
            b.extend_from_slice(&[*mo, *d]);
            if n >= 7 {
                b.extend_from_slice(&[*h, *m, *s]);
            }
            if n == 11 {
                b.extend_from_slice(&us.to_le_bytes());
            }
        }
    }
}

pub fn row_packet(row: &[Val], cols: &[ColSpec], binary: bool) -> Vec<u8> {
    let mut b = Vec::new();
    if binary {
        b.push(0);
        let at = b.len();
        b.resize(at + (cols.len() + 7 + 2) / 8, 0);
        for (i, v) in row.iter().enumerate() {
            if *v == Val::Null {
                b[at + (i + 2) / 8] |= 1 << ((i + 2) % 8);
            }
        }
        for v in row {
            bin_val(&mut b, v);
        }
    } else {
        for (v, c) in row.iter().zip(cols) {
            text_cell(&mut b, v, c);
        }
    }
    b
}

/// Payloads of a complete reply.
pub fn reply(r: &Resp, binary: bool, deprecate_eof: bool, more: bool, out: &mut Vec<Vec<u8>>) {
    match r {
        Resp::Ok(o) => out.push(ok_packet(o, more)),
        Resp::Err(e) => out.push(err_packet(e)),
        Resp::Raw(ps) => out.extend(ps.iter().cloned()),
        Resp::Rows(rs) => {
            let mut b = Vec::new();
            lenenc(&mut b, rs.cols.len() as u64);
            out.push(b);
            for c in rs.cols.iter() {
                out.push(col_packet(c));
            }
            if !deprecate_eof {
                let e = EndSpec { status: rs.end.status, warnings: 0, info: None, counts: (0, 0) };
                out.push(end_packet(&e, false, false));
            }
            for row in rs.rows.iter() {
                out.push(row_packet(row, &rs.cols, binary));
            }
            match &rs.abort {
                Some(e) => out.push(err_packet(e)),
                None => out.push(end_packet(&rs.end, more, deprecate_eof)),
            }
        }
        Resp::Multi(v) => {
            for (i, x) in v.iter().enumerate() {
                let last = i + 1 == v.len();
                reply(x, binary, deprecate_eof, more || !last, out);
                let ends = matches!(x, Resp::Err(_)) || matches!(x, Resp::Rows(r) if r.abort.is_some());
                if ends {
                    break;
                }
            }
        }
    }
}

/// Cursor over received bytes.
pub struct Cur<'a>(pub &'a [u8]);
impl<'a> Cur<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    pub fn uint(&mut self, n: usize) -> Option<u64> {
        let mut v = 0;
        for (i, b) in self.take(n)?.iter().enumerate() {
            v |= (*b as u64) << (8 * i);
        }
        Some(v)
    }
    pub fn lenenc(&mut self) -> Option<u64> {
        match self.uint(1)? {
            x @ 0..=250 => Some(x),
            0xFC => self.uint(2),
            0xFD => self.uint(3),
            0xFE => self.uint(8),
            _ => None,
        }
    }
    pub fn lenstr(&mut self) -> Option<&'a [u8]> {
        let n = self.lenenc()?;
        self.take(usize::try_from(n).ok()?)
    }
    pub fn nul(&mut self) -> Option<&'a [u8]> {
        let p = self.0.iter().position(|x| *x == 0)?;
        let s = self.take(p)?;
        self.take(1);
        Some(s)
    }
}

/// Decodes one bound parameter by its declared type.
pub fn param(c: &mut Cur, t: u8, unsigned: bool) -> Option<Val> {
    Some(match t {
        ty::TINY if unsigned => Val::U8(c.uint(1)? as u8),
        ty::TINY => Val::I8(c.uint(1)? as u8 as i8),
        ty::SHORT | ty::YEAR if unsigned => Val::U16(c.uint(2)? as u16),
        ty::SHORT | ty::YEAR => Val::I16(c.uint(2)? as u16 as i16),
        ty::LONG | ty::INT24 if unsigned => Val::U32(c.uint(4)? as u32),
        ty::LONG | ty::INT24 => Val::I32(c.uint(4)? as u32 as i32),
        ty::LONGLONG if unsigned => Val::U64(c.uint(8)?),
        ty::LONGLONG => Val::I64(c.uint(8)? as i64),
        ty::FLOAT => Val::F32(c.uint(4)? as u32),
        ty::DOUBLE => Val::F64(c.uint(8)?),
        ty::NULL => Val::Null,
        ty::DATE => {
            let n = c.uint(1)?;
            match n {
                0 => Val::Date(0, 0, 0),
                4 => Val::Date(c.uint(2)? as u16, c.uint(1)? as u8, c.uint(1)? as u8),
                _ => return None,
            }
        }
        ty::DATETIME | ty::TIMESTAMP => {
            let n = c.uint(1)?;
            if ![0, 4, 7, 11].contains(&n) {
                return None;
            }
            let mut v = (0, 0, 0, 0, 0, 0, 0);
            if n >= 4 {
                v.0 = c.uint(2)? as u16;
                v.1 = c.uint(1)? as u8;
                v.2 = c.uint(1)? as u8;
            }
            if n >= 7 {
                v.3 = c.uint(1)? as u8;
                v.4 = c.uint(1)? as u8;
                v.5 = c.uint(1)? as u8;
            }
            if n >= 11 {
                v.6 = c.uint(4)? as u32;
            }
            Val::Dt(v.0, v.1, v.2, v.3, v.4, v.5, v.6)
        }
        ty::TIME => {
            let n = c.uint(1)?;
            if ![0, 8, 12].contains(&n) {
                return None;
            }
            let mut v = (false, 0, 0, 0, 0, 0);
            if n >= 8 {
                v.0 = c.uint(1)? == 1;
                v.1 = c.uint(4)? as u32;
                v.2 = c.uint(1)? as u8;
                v.3 = c.uint(1)? as u8;
                v.4 = c.uint(1)? as u8;
            }
            if n == 12 {
                v.5 = c.uint(4)? as u32;
            }
            Val::Time(v.0, v.1, v.2, v.3, v.4, v.5)
        }
        t if ty::STRINGS.contains(&t) => Val::Bytes(Blob::Lit(c.lenstr()?.to_vec())),
        _ => return None,
    })
}
