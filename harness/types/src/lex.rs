//! Reference recognisers, written from the XML Schema datatypes recommendation.
pub type Tz = Option<i32>;
#[inline(always)]
pub fn dig(c: u8) -> bool {
    c.wrapping_sub(b'0') < 10
}
#[inline(always)]
pub fn val(b: &[u8]) -> i32 {
    let mut v = 0i32;
    for c in b {
        v = v * 10 + (c.wrapping_sub(b'0') & 15) as i32;
    }
    v
}
#[inline(always)]
pub fn digs(b: &[u8]) -> bool {
    let mut ok = true;
    for c in b {
        ok &= dig(*c);
    }
    ok
}
/// (Z | (+|-)hh:mm)? ; Some(None) when absent
pub fn tz(b: &[u8]) -> Option<Tz> {
    match b.len() {
        0 => Some(None),
        1 if b[0] == b'Z' => Some(Some(0)),
        6 => {
            if !(dig(b[1]) & dig(b[2]) & (b[3] == b':') & dig(b[4]) & dig(b[5])) {
                return None;
            }
            let h = val(&b[1..3]);
            let m = val(&b[4..6]);
            if !((m < 60) & ((h < 14) | ((h == 14) & (m == 0)))) {
                return None;
            }
            let s = h * 3600 + m * 60;
            if b[0] == b'+' {
                Some(Some(s))
            } else if b[0] == b'-' {
                Some(Some(-s))
            } else {
                None
            }
        }
        _ => None,
    }
}
pub fn gday(b: &[u8]) -> Option<(i32, Tz)> {
    if b.len() < 5 || !((b[0] == b'-') & (b[1] == b'-') & (b[2] == b'-') & digs(&b[3..5])) {
        return None;
    }
    let v = val(&b[3..5]);
    if !((v >= 1) & (v <= 31)) {
        return None;
    }
    Some((v, tz(&b[5..])?))
}
pub fn gmonth(b: &[u8]) -> Option<(i32, Tz)> {
    if b.len() < 4 || !((b[0] == b'-') & (b[1] == b'-') & digs(&b[2..4])) {
        return None;
    }
    let v = val(&b[2..4]);
    if !((v >= 1) & (v <= 12)) {
        return None;
    }
    Some((v, tz(&b[4..])?))
}
pub fn maxday(m: i32) -> i32 {
    match m {
        2 => 29,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
pub fn gmonthday(b: &[u8]) -> Option<(i32, i32, Tz)> {
    if b.len() < 7
        || !((b[0] == b'-') & (b[1] == b'-') & digs(&b[2..4]) & (b[4] == b'-') & digs(&b[5..7]))
    {
        return None;
    }
    let m = val(&b[2..4]);
    let d = val(&b[5..7]);
    if !((m >= 1) & (m <= 12) & (d >= 1)) {
        return None;
    }
    if d > maxday(m) {
        return None;
    }
    Some((m, d, tz(&b[7..])?))
}
/// -?[0-9]{4,} as a 32-bit year; returns the year and the rest of the text
pub fn year(b: &[u8]) -> Option<(i64, &[u8])> {
    let (neg, b) = if !b.is_empty() && b[0] == b'-' { (true, &b[1..]) } else { (false, b) };
    let mut n = 0;
    let mut z = 0; // leading zeros past which the value would not fit
    let mut v = 0i64;
    while n < b.len() && dig(b[n]) {
        n += 1;
    }
    while n - z > 18 {
        if b[z] != b'0' {
            return None;
        }
        z += 1;
    }
    for c in &b[z..n] {
        v = v * 10 + (c.wrapping_sub(b'0') & 15) as i64;
    }
    if (n - z > 9) && v > i32::MAX as i64 {
        return None;
    }
    if n < 4 {
        return None;
    }
    Some((if neg { -v } else { v }, &b[n..]))
}
pub fn gyear(b: &[u8]) -> Option<(i32, Tz)> {
    let (y, r) = year(b)?;
    if y == 0 {
        return None;
    }
    Some((y as i32, tz(r)?))
}
pub fn gyearmonth(b: &[u8]) -> Option<(i32, i32, Tz)> {
    let (y, r) = year(b)?;
    if y == 0 || r.len() < 3 || !((r[0] == b'-') & digs(&r[1..3])) {
        return None;
    }
    let m = val(&r[1..3]);
    if !((m >= 1) & (m <= 12)) {
        return None;
    }
    Some((y as i32, m, tz(&r[3..])?))
}
pub fn leap(y: i64) -> bool {
    (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0))
}
pub fn ymd(y: i64, m: i32, d: i32) -> bool {
    if !((m >= 1) & (m <= 12) & (d >= 1)) {
        return false;
    }
    let k = maxday(m);
    (d <= k) & ((m != 2) | (d < 29) | leap(y))
}

pub fn date(b: &[u8]) -> Option<(i64, i32, i32, Tz)> {
    let (y, r) = year(b)?;
    if r.len() < 6 || !((r[0] == b'-') & digs(&r[1..3]) & (r[3] == b'-') & digs(&r[4..6])) {
        return None;
    }
    let (m, d) = (val(&r[1..3]), val(&r[4..6]));
    if !ymd(y, m, d) {
        return None;
    }
    Some((y, m, d, tz(&r[6..])?))
}
pub struct Tm {
    pub h: i32,
    pub m: i32,
    pub s: i32,
    /// nanoseconds, digits past the ninth ignored
    pub ns: i64,
}
/// hh:mm:ss(.s+)? ; returns the rest.  Hours 00-23, seconds 00-59.
pub fn time_part(b: &[u8]) -> Option<(Tm, &[u8])> {
    if b.len() < 8 || !(digs(&b[0..2]) & (b[2] == b':') & digs(&b[3..5]) & (b[5] == b':') & digs(&b[6..8])) {
        return None;
    }
    let (h, m, s) = (val(&b[0..2]), val(&b[3..5]), val(&b[6..8]));
    if !((h < 24) & (m < 60) & (s < 60)) {
        return None;
    }
    let mut r = &b[8..];
    let mut ns = 0i64;
    if !r.is_empty() && r[0] == b'.' {
        let mut n = 1;
        let mut w = 100_000_000i64;
        while n < r.len() && dig(r[n]) {
            ns += w * (r[n] & 15) as i64;
            w /= 10;
            n += 1;
        }
        if n == 1 {
            return None;
        }
        r = &r[n..];
    }
    Some((Tm { h, m, s, ns }, r))
}
pub fn time(b: &[u8]) -> Option<(Tm, Tz)> {
    let (t, r) = time_part(b)?;
    Some((t, tz(r)?))
}
/// four-digit years only
pub fn datetime(b: &[u8]) -> Option<((i64, i32, i32), Tm, Tz)> {
    if b.len() < 19 || !(digs(&b[0..4]) & (b[4] == b'-') & digs(&b[5..7]) & (b[7] == b'-') & digs(&b[8..10]) & (b[10] == b'T')) {
        return None;
    }
    let (y, m, d) = (val(&b[0..4]) as i64, val(&b[5..7]), val(&b[8..10]));
    if !ymd(y, m, d) {
        return None;
    }
    let (t, r) = time_part(&b[11..])?;
    Some(((y, m, d), t, tz(r)?))
}
pub struct Dur {
    pub neg: bool,
    /// Y M D H M S
    pub c: [u64; 6],
    pub numer: u64,
    pub denom: u64,
}
/// -?P(nY)?(nM)?(nD)?(T(nH)?(nM)?(n(.n)?S)?)? with at least one component, and one after T
pub fn duration(b: &[u8]) -> Option<Dur> {
    let mut r = Dur { neg: false, c: [0; 6], numer: 0, denom: 1 };
    let mut i = 0;
    if i < b.len() && b[i] == b'-' {
        r.neg = true;
        i += 1;
    }
    if i >= b.len() || b[i] != b'P' {
        return None;
    }
    i += 1;
    let mut stage = 0; // next component allowed
    let mut t = false;
    let mut any = false;
    while i < b.len() {
        if b[i] == b'T' {
            if t {
                return None;
            }
            t = true;
            any = false;
            stage = 3;
            i += 1;
            continue;
        }
        let mut v = 0u64;
        let mut k = 0;
        while i < b.len() && dig(b[i]) {
            v = v.checked_mul(10)?.checked_add((b[i] & 15) as u64)?;
            i += 1;
            k += 1;
        }
        if k == 0 {
            return None;
        }
        let mut frac = false;
        if i < b.len() && b[i] == b'.' {
            frac = true;
            i += 1;
            let mut k = 0;
            while i < b.len() && dig(b[i]) {
                if k < 15 {
                    r.numer = r.numer * 10 + (b[i] & 15) as u64;
                    r.denom *= 10;
                }
                i += 1;
                k += 1;
            }
            if k == 0 {
                return None;
            }
        }
        if i >= b.len() {
            return None;
        }
        let at = match b[i] {
            b'Y' if !t => 0,
            b'M' if !t => 1,
            b'D' if !t => 2,
            b'H' if t => 3,
            b'M' if t => 4,
            b'S' if t => 5,
            _ => return None,
        };
        if at < stage || (frac && at != 5) {
            return None;
        }
        r.c[at] = v;
        stage = at + 1;
        any = true;
        i += 1;
    }
    if any {
        Some(r)
    } else {
        None
    }
}
/// [+-]?[0-9]+ : sign, digits without leading zeros
pub fn integer(b: &[u8]) -> Option<(bool, &[u8])> {
    let (neg, d) = match b.first() {
        Some(b'-') => (true, &b[1..]),
        Some(b'+') => (false, &b[1..]),
        _ => (false, b),
    };
    if d.is_empty() || !digs(d) {
        return None;
    }
    let mut i = 0;
    while i < d.len() && d[i] == b'0' {
        i += 1;
    }
    Some((neg && i < d.len(), &d[i..]))
}
/// [+-]?([0-9]+(.[0-9]*)?|.[0-9]+) : sign, digits of the integer part, digits of the fraction
pub fn decimal(b: &[u8]) -> Option<(bool, &[u8], &[u8])> {
    let (neg, d) = match b.first() {
        Some(b'-') => (true, &b[1..]),
        Some(b'+') => (false, &b[1..]),
        _ => (false, b),
    };
    let mut i = 0;
    while i < d.len() && dig(d[i]) {
        i += 1;
    }
    let (int, rest) = d.split_at(i);
    let frac = if rest.is_empty() {
        rest
    } else {
        if rest[0] != b'.' || !digs(&rest[1..]) {
            return None;
        }
        &rest[1..]
    };
    if int.is_empty() && frac.is_empty() {
        return None;
    }
    Some((neg, int, frac))
}
