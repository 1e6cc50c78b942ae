//! The order of values.
use crate::cal::below;
use bigdecimal::BigDecimal;
use chrono::{FixedOffset, NaiveDate};
use num_bigint::BigInt;
use rsxapi::*;
use std::cmp::Ordering;
use xsd_types::types::*;
fn expect<T: PartialOrd>(a: &T, b: &T, want: Option<Ordering>, what: &str) {
    check(a.partial_cmp(b) == want, what);
    check((a < b) == (want == Some(Ordering::Less)) && (a >= b) == matches!(want, Some(Ordering::Greater | Ordering::Equal)), what);
    check((a == b) == (want == Some(Ordering::Equal)), "equality and order of two values differ");
    match want {
        Some(Ordering::Less) => reach(1),
        Some(Ordering::Equal) => reach(2),
        Some(Ordering::Greater) => reach(3),
        None => reach(4),
    }
}
// ---------------------------------------------------------------- durations
/// days from the first of four months to those before and after it
struct Days([[i32; 129]; 4]);
fn month_length(y: i32, m: i32) -> i32 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        _ => 31,
    }
}
fn table() -> Days {
    let mut t = Days([[0; 129]; 4]);
    for (i, (y, m)) in [(1696, 9), (1697, 2), (1903, 3), (1903, 7)].into_iter().enumerate() {
        let (mut yy, mut mm) = (y, m);
        for k in 0..64 {
            t.0[i][65 + k] = t.0[i][64 + k] + month_length(yy, mm);
            mm += 1;
            if mm == 13 {
                (yy, mm) = (yy + 1, 1);
            }
        }
        let (mut yy, mut mm) = (y, m);
        for k in 0..64 {
            mm -= 1;
            if mm == 0 {
                (yy, mm) = (yy - 1, 12);
            }
            t.0[i][63 - k] = t.0[i][64 - k] - month_length(yy, mm);
        }
    }
    t
}
/// a duration, its multiples of 400 years, its other months, its seconds and billionths of them
struct Dur {
    v: Duration,
    eras: i128,
    months: i32,
    secs: i128,
    nanos: i64,
}
const HUGE: u64 = u64::MAX - 40;
fn dur(kind: u32, extra: u32) -> Dur {
    let neg = pick_bool();
    let mut v = Duration { is_negative: neg, years: 0, months: 0, days: 0, hours: 0, minutes: 0, seconds: 0.0 };
    let mut eras = 0u64;
    let mut nanos = 0;
    match extra {
        0 => (),
        1 => v.days = 1,
        2 => (v.seconds, nanos) = (0.5, 500_000_000),
        3 => (v.years, v.seconds, nanos) = (1, 86399.25, 250_000_000),
        4 => (v.months, v.hours) = (1, 24),
        _ => (eras, v.years) = (3, 1200),
    }
    match kind {
        0 => v.months += below(30) as u64,
        1 => v.years += below(3) as u64,
        2 => v.days += [0, 330, 146_060][pick(3) as usize] + below(70) as u64,
        3 => v.hours += 24 * 27 + below(120) as u64,
        4 => v.minutes += 60 * 24 * 30 - 5 + below(10) as u64,
        _ => match pick(3) {
            0 => v.days = HUGE + below(30) as u64,
            1 => v.minutes = HUGE + below(30) as u64,
            _ => {
                eras = HUGE / 4800;
                v.years = eras * 400 + below(2) as u64;
            }
        },
    }
    let s = if neg { -1 } else { 1 };
    let months = (v.years - eras * 400) as i32 * 12 + v.months as i32;
    let secs = ((v.days as i128 * 24 + v.hours as i128) * 60 + v.minutes as i128) * 60 + v.seconds as i64 as i128;
    Dur { v, eras: s as i128 * eras as i128, months: s * months, secs: s as i128 * secs, nanos: s as i64 * nanos }
}
/// the order of the moments that two durations lead to from the four starting points of XML Schema
#[no_mangle]
pub extern "C" fn h_duration_order() {
    let t = table();
    let ex = param(0) as u32;
    let (a, b) = (dur(pick(6), pick(ex)), dur(pick(6), pick(ex)));
    let at = |i: usize, d: &Dur| {
        let days = d.eras * 146_097 + t.0[i][(64 + d.months) as usize] as i128;
        ((days * 86400 + d.secs) * 1_000_000_000) + d.nanos as i128
    };
    let first = at(0, &a).cmp(&at(0, &b));
    let same = (1..4).all(|i| at(i, &a).cmp(&at(i, &b)) == first);
    expect(&a.v, &b.v, if same { Some(first) } else { None }, "two durations are in the wrong order");
}
// ---------------------------------------------------------------- numbers
fn number() -> i128 {
    let n = [0i128, u64::MAX as i128 - 2, 1 << 100, i64::MAX as i128 - 3][pick(4) as usize] + below(6) as i128;
    if pick_bool() {
        -n
    } else {
        n
    }
}
#[no_mangle]
pub extern "C" fn h_integer_order() {
    let (a, b) = (number(), number());
    let want = Some(a.cmp(&b));
    let (x, y) = (BigInt::from(a), BigInt::from(b));
    let what = "two integers are in the wrong order";
    let kind = pick(5);
    let ok = |n: i128| match kind {
        0 => true,
        1 => n >= 0,
        2 => n <= 0,
        3 => n < 0,
        _ => n > 0,
    };
    assume(ok(a) & ok(b));
    match (kind, x.to_biguint(), y.to_biguint()) {
        (1, Some(x), Some(y)) => expect(&NonNegativeInteger::from_biguint(x), &NonNegativeInteger::from_biguint(y), want, what),
        (4, Some(x), Some(y)) => expect(&PositiveInteger::from_biguint(x), &PositiveInteger::from_biguint(y), want, what),
        (2, ..) => expect(&NonPositiveInteger::from_bigint(x), &NonPositiveInteger::from_bigint(y), want, what),
        (3, ..) => expect(&NegativeInteger::from_bigint(x), &NegativeInteger::from_bigint(y), want, what),
        (_, ..) => expect(&Integer::from_bigint(x), &Integer::from_bigint(y), want, what),
    }
}
#[no_mangle]
pub extern "C" fn h_decimal_order() {
    let mut one = || {
        let n = [0i128, 995, u64::MAX as i128 - 5][pick(3) as usize] + below(10) as i128;
        let s = pick(4);
        (if pick_bool() { -n } else { n }, s)
    };
    let ((a, s), (b, t)) = (one(), one());
    let want = Some((a * 10i128.pow(t)).cmp(&(b * 10i128.pow(s))));
    let d = |n: i128, s: u32| Decimal::from_bigdecimal(BigDecimal::new(BigInt::from(n), s as i64));
    expect(&d(a, s), &d(b, t), want, "two decimals are in the wrong order");
}
// ---------------------------------------------------------------- instants
#[no_mangle]
pub extern "C" fn h_instant_order() {
    // one of the two has a free hour, minute or offset; minutes are counted from the first of 2000, local
    let free = pick(2);
    let mut one = |i: u32| {
        let (day, add) = [((2000, 1, 1), 0i64), ((1999, 12, 31), -1440), ((2000, 1, 2), 1440)][pick(3) as usize];
        let (h, m, off) = match (free == i, pick(3)) {
            (true, 0) => (below(24) as u32, 30, [0, -840, 75][pick(3) as usize]),
            (true, 1) => (23, below(60) as u32, [0, 840, -75][pick(3) as usize]),
            (true, _) => (12, 0, 7 * below(241) - 840),
            (_, 0) => (0, 0, 0),
            (_, 1) => (23, 59, -330),
            _ => (12, 30, 60),
        };
        let ns = [0, 999_999_999][pick(2) as usize];
        let local = NaiveDate::from_ymd_opt(day.0, day.1, day.2).and_then(|d| d.and_hms_nano_opt(h, m, 0, ns));
        let v = local.and_then(|l| l.and_local_timezone(FixedOffset::east_opt(off * 60)?).single());
        let v = match v {
            Some(v) => v,
            None => {
                assume(false);
                unreachable!()
            }
        };
        (v, (add + h as i64 * 60 + m as i64 - off as i64) * 60_000_000_000 + ns as i64)
    };
    let ((a, x), (b, y)) = (one(0), one(1));
    let want = Some(x.cmp(&y));
    let what = "two instants are in the wrong order";
    if pick_bool() {
        expect(&DateTime::from_chrono_datetime(a), &DateTime::from_chrono_datetime(b), want, what);
    } else {
        expect(&DateTimeStamp::from_chrono_datetime(a), &DateTimeStamp::from_chrono_datetime(b), want, what);
    }
}
