//! Time zones, the g* family, date, time, dateTime.
use crate::lex;
use crate::text::*;
use chrono::{Datelike, FixedOffset, NaiveDate, NaiveTime, Timelike};
use rsxapi::*;
use std::str::FromStr;
use xsd_types::types::*;

pub fn tzs(t: &Option<FixedOffset>) -> Option<i32> {
    t.as_ref().map(|t| t.local_minus_utc())
}
/// any legal time zone: none, or an offset of whole minutes up to 14 hours
pub fn any_tz() -> Option<FixedOffset> {
    if !pick_bool() {
        return None;
    }
    any_offset()
}
pub fn any_offset() -> Option<FixedOffset> {
    let (h, n) = (below(15), below(60));
    assume((h < 14) | (n == 0));
    let m = h * 60 + n;
    let m = if pick_bool() { -m } else { m };
    FixedOffset::east_opt(m * 60)
}
pub fn utf(t: &Text) -> &str {
    std::str::from_utf8(t.bytes()).unwrap_or("")
}
#[no_mangle]
pub extern "C" fn h_tz() {
    let t = if pick_bool() { any_text(param(0)) } else { near_text(&["Z", "+DD:DD", "-DD:DD"], param(1)) };
    let got = parse_timezone(utf(&t));
    let want = lex::tz(t.bytes()).flatten();
    match (got, want) {
        (Ok(g), Some(w)) => {
            check(g.local_minus_utc() == w, "timezone offset differs from the one written");
            reach(1);
        }
        (Err(_), None) => reach(2),
        (Ok(_), None) => fail("text that is not a timezone accepted"),
        (Err(_), Some(_)) => fail("valid timezone rejected"),
    }
}
fn gday_case(t: &Text) {
    verdict!("gDay", GDay::from_str(utf(t)), lex::gday(t.bytes()), |g, w| {
        check(g.value == w.0, "gDay: wrong day");
        check(tzs(&g.timezone) == w.1, "gDay: wrong timezone");
    })
}
fn gmonth_case(t: &Text) {
    verdict!("gMonth", GMonth::from_str(utf(t)), lex::gmonth(t.bytes()), |g, w| {
        check(g.value == w.0, "gMonth: wrong month");
        check(tzs(&g.timezone) == w.1, "gMonth: wrong timezone");
    })
}
fn gmonthday_case(t: &Text) {
    verdict!("gMonthDay", GMonthDay::from_str(utf(t)), lex::gmonthday(t.bytes()), |g, w| {
        check((g.month == w.0) & (g.day == w.1), "gMonthDay: wrong month or day");
        check(tzs(&g.timezone) == w.2, "gMonthDay: wrong timezone");
        check((g.clone().gday().value == w.1) & (g.clone().gmonth().value == w.0), "gMonthDay: wrong part");
        check((tzs(&g.clone().gday().timezone) == w.2) & (tzs(&g.gmonth().timezone) == w.2), "gMonthDay: part lost the timezone");
    })
}
fn gyear_case(t: &Text) {
    verdict!("gYear", GYear::from_str(utf(t)), lex::gyear(t.bytes()), |g, w| {
        check(g.value == w.0, "gYear: wrong year");
        check(tzs(&g.timezone) == w.1, "gYear: wrong timezone");
    })
}
fn gyearmonth_case(t: &Text) {
    verdict!("gYearMonth", GYearMonth::from_str(utf(t)), lex::gyearmonth(t.bytes()), |g, w| {
        check((g.year == w.0) & (g.month == w.1), "gYearMonth: wrong year or month");
        check(tzs(&g.timezone) == w.2, "gYearMonth: wrong timezone");
        check((g.clone().gyear().value == w.0) & (g.clone().gmonth().value == w.1), "gYearMonth: wrong part");
        check((tzs(&g.clone().gyear().timezone) == w.2) & (tzs(&g.gmonth().timezone) == w.2), "gYearMonth: part lost the timezone");
    })
}
fn date_case(t: &Text) {
    let w = lex::date(t.bytes());
    // year 0000 and years beyond what the value type can hold are outside the claim
    if let Some((y, ..)) = w {
        assume((y != 0) & (y > -262000) & (y < 262000));
    }
    verdict!("date", Date::from_str(utf(t)), w, |g, w| {
        check(Some(g.value) == NaiveDate::from_ymd_opt(w.0 as i32, w.1 as u32, w.2 as u32), "date: wrong day");
        check(tzs(&g.timezone) == w.3, "date: wrong timezone");
        check(g.to_chrono_naive_date() == g.value, "date: conversion changes the day");
    })
}
/// hour 24 and second 60 are outside the claim
fn outside_time(b: &[u8]) -> bool {
    b.len() >= 8 && (((b[0] == b'2') & (b[1] == b'4')) | ((b[6] == b'6') & (b[7] == b'0')))
}
fn time_case(t: &Text) {
    assume(!outside_time(t.bytes()));
    verdict!("time", Time::from_str(utf(t)), lex::time(t.bytes()), |g, w| {
        let x = w.0;
        check(
            Some(g.value) == NaiveTime::from_hms_nano_opt(x.h as u32, x.m as u32, x.s as u32, x.ns as u32),
            "time: wrong hour, minute, second or fraction",
        );
        check(tzs(&g.timezone) == w.1, "time: wrong timezone");
        check(g.to_chrono_naive_time() == g.value, "time: conversion changes the value");
    })
}
/// forms XML Schema does not have and RFC 3339 does: outside the claim
fn outside_datetime(b: &[u8]) -> bool {
    if b.len() < 19 {
        return false;
    }
    let n = b.len();
    // lower case or blank separators, second 60, offsets of 14:01 to 23:59
    let z = b[n - 1] == b'z';
    let sep = (b[10] == b't') | (b[10] == b' ') | ((b[10] == b'T') & z);
    let off = n >= 25
        && ((b[n - 6] == b'+') | (b[n - 6] == b'-'))
        && lex::digs(&b[n - 5..n - 3])
        && (lex::val(&b[n - 5..n - 3]) >= 14)
        && (lex::val(&b[n - 5..n - 3]) < 24);
    let year0 = (b[0] == b'0') & (b[1] == b'0') & (b[2] == b'0') & (b[3] == b'0');
    sep | off | year0 | outside_time(&b[11..])
}
fn datetime_case(t: &Text, stamp: bool) {
    let w = lex::datetime(t.bytes());
    let w = match w {
        Some((_, _, None)) if stamp => None,
        w => w,
    };
    if w.is_none() || (w.as_ref().unwrap().0).0 == 0 {
        assume(!outside_datetime(t.bytes()));
    }
    let got = if stamp {
        DateTimeStamp::from_str(utf(t)).map(|d| d.to_chrono_datetime())
    } else {
        DateTime::from_str(utf(t)).map(|d| d.to_chrono_datetime())
    };
    verdict!("dateTime", got, w, |g, w| {
        let ((y, m, d), x, z) = w;
        check(g.offset().local_minus_utc() == z.unwrap_or(0), "dateTime: wrong offset");
        let l = g.naive_local();
        check(
            (l.year() as i64 == y) & (l.month() == m as u32) & (l.day() == d as u32),
            "dateTime: wrong day",
        );
        check(
            (l.hour() == x.h as u32) & (l.minute() == x.m as u32) & (l.second() == x.s as u32),
            "dateTime: wrong hour, minute or second",
        );
        check(l.nanosecond() as i64 == x.ns, "dateTime: wrong fraction");
    })
}
macro_rules! any_near {
    ($case:ident, $any:ident, $near:ident, $shapes:expr) => {
        #[no_mangle]
        pub extern "C" fn $any() {
            $case(&any_text(param(0)))
        }
        #[no_mangle]
        pub extern "C" fn $near() {
            $case(&near_text(&$shapes, param(0)))
        }
    };
}
any_near!(gday_case, h_gday_any, h_gday_near, ["---DD", "---DDZ", "---DD+DD:DD", "---DD-DD:DD"]);
any_near!(gmonth_case, h_gmonth_any, h_gmonth_near, ["--DD", "--DDZ", "--DD+DD:DD", "--DD-DD:DD"]);
any_near!(gmonthday_case, h_gmonthday_any, h_gmonthday_near, ["--DD-DD", "--DD-DDZ", "--DD-DD+DD:DD", "--DD-DD-DD:DD"]);
any_near!(
    gyear_case,
    h_gyear_any,
    h_gyear_near,
    ["DDDD", "-DDDD", "DDDDZ", "-DDDD+DD:DD", "DDDD-DD:DD", "DDDDDD", "21474836DD", "-2147483DDDD", "42949672DD", "0000DDDDDD"]
);
any_near!(
    gyearmonth_case,
    h_gyearmonth_any,
    h_gyearmonth_near,
    ["DDDD-DD", "-DDDD-DD", "DDDD-DDZ", "-DDDD-DD+DD:DD", "DDDD-DD-DD:DD", "DDDDDD-DD", "21474836DD-DD", "-21474836DD-DDZ", "000000DDDDDD-DD"]
);
any_near!(
    date_case,
    h_date_any,
    h_date_near,
    [
        "2020-DD-DD", "1900-DD-DDZ", "20DD-02-29", "-DD00-02-29", "D02D-0D-31", "-DD44-12-31", "18DD-11-30Z", "-0044-DD-15-DD:DD", "2021-02-2D+DD:DD",
        "2021-DD-30-DD:DD", "DD2020-12-31", "-1DD400-10-01+14:00", "00000DD00-09-30",
    ]
);
any_near!(time_case, h_time_any, h_time_near, ["DD:DD:DD", "DD:DD:DDZ", "DD:DD:DD+DD:DD", "DD:DD:DD-DD:DD", "DD:DD:DD.D", "DD:DD:DD.DDDZ", "DD:DD:DD.DDDDDDDDD", "DD:DD:DD.DDDDDDDDDDD"]);
/// dates with few free digits, so that every edit of them can be followed
#[no_mangle]
pub extern "C" fn h_date_edit() {
    date_case(&near_text(&["2020-0D-15", "D999-02-28Z", "-0044-03-1D", "19DD-12-01+05:30", "12020-10-0D-13:D0"], param(0)))
}
const DTE: [&str; 5] = ["20D0-02-28T1D:59:07", "199D-12-31T23:59:5DZ", "2021-0D-15T0D:00:00+05:30", "1970-01-01T00:00:00.DD", "2000-02-29T12:30:15.123456789-0D:00"];
#[no_mangle]
pub extern "C" fn h_datetime_edit() {
    datetime_case(&near_text(&DTE, param(0)), false)
}
#[no_mangle]
pub extern "C" fn h_datetimestamp_edit() {
    datetime_case(&near_text(&DTE, param(0)), true)
}
const DT: [&str; 11] = [
    "DD00-02-29T00:00:00Z",
    "D99D-02-28T00:00:00",
    "2024-DD-DDT00:00:00-05:30",
    "2023-DD-DDT23:59:59Z",
    "2000-02-29TDD:00:59",
    "2000-02-29T23:DD:00",
    "2000-12-31T00:59:DD",
    "2001-01-01T00:00:59+DD:DD",
    "1999-12-31T23:59:00-DD:DD",
    "1999-12-31T23:59:59.DDDDDDDDD-01:00",
    "2000-03-01TD0:00:59.DDDDDDZ",
];
#[no_mangle]
pub extern "C" fn h_datetime_near() {
    datetime_case(&near_text(&DT, param(0)), false)
}
#[no_mangle]
pub extern "C" fn h_datetimestamp_near() {
    datetime_case(&near_text(&DT, param(0)), true)
}
#[no_mangle]
pub extern "C" fn h_datetime_any() {
    datetime_case(&any_text(param(0)), pick_bool())
}

/// any number below n
pub fn below(n: u8) -> i32 {
    let mut b = [0u8; 1];
    sym(&mut b);
    assume(b[0] < n);
    b[0] as i32
}
// printing and parsing
fn one() -> i32 {
    let mut b = [0u8; 1];
    sym(&mut b);
    b[0] as i8 as i32
}
const YEARS: [i32; 12] = [0, 64, 873, 936, 9872, 9936, 99936, 2_147_483_584, 1_999_999_999, 20_000, 100_000_000, 1900];
/// 64 consecutive years from one of the bases, either sign
fn any_year() -> i32 {
    let y = YEARS[pick(YEARS.len() as u32) as usize] + below(64);
    if pick_bool() {
        -y
    } else {
        y
    }
}
macro_rules! rt {
    ($h:ident, $name:literal, $ty:ident, $mk:expr, $valid:expr, $lex:path) => {
        #[no_mangle]
        pub extern "C" fn $h() {
            let (made, valid) = $mk;
            let valid: bool = valid;
            match made {
                Ok(g) => {
                    check(valid, concat!($name, ": a value out of range can be made"));
                    let s = g.to_string();
                    note(s.as_bytes());
                    check($lex(s.as_bytes()).is_some(), concat!($name, ": printed text is outside the lexical space"));
                    check($ty::from_str(&s) == Ok(g), concat!($name, ": printing and parsing changes the value"));
                    reach(1);
                }
                Err(_) => {
                    check(!valid, concat!($name, ": a legal value cannot be made"));
                    reach(2)
                }
            }
        }
    };
}
rt!(h_gday_rt, "gDay", GDay, { let d = one(); (GDay::new(d, any_tz()), (d >= 1) & (d <= 31)) }, 0, lex::gday);
rt!(h_gmonth_rt, "gMonth", GMonth, { let d = one(); (GMonth::new(d, any_tz()), (d >= 1) & (d <= 12)) }, 0, lex::gmonth);
rt!(h_gmonthday_rt, "gMonthDay", GMonthDay, { let m = one(); let d = one();
    (GMonthDay::new(m, d, any_tz()), (m >= 1) & (m <= 12) && (d >= 1) & (d <= lex::maxday(m))) }, 0, lex::gmonthday);
rt!(h_gyear_rt, "gYear", GYear, { let y = any_year(); (GYear::new(y, any_tz()), y != 0) }, 0, lex::gyear);
rt!(h_gyearmonth_rt, "gYearMonth", GYearMonth, { let y = any_year(); let m = one();
    (GYearMonth::new(y, m, any_tz()), (y != 0) & (m >= 1) & (m <= 12)) }, 0, lex::gyearmonth);

/// a symbolic year with some month and day, or some year with a symbolic month and day
fn any_date(lo: i32, hi: i32, years: usize) -> NaiveDate {
    let (y, m, d) = if pick_bool() {
        let base = [0, 64, 1900, 2000, 9968, 99968, 261000, -100, -1900, -9999, -10020, -261000][pick(12) as usize];
        let (m, d) = [(1, 1), (2, 28), (2, 29), (10, 31), (12, 9)][pick(5) as usize];
        (base + below(32), m, d)
    } else {
        ([2000, 1900, 2023, -4][pick(years as u32) as usize], below(14) as u32, below(33) as u32)
    };
    assume(y != 0 && y >= lo && y <= hi);
    match NaiveDate::from_ymd_opt(y, m, d) {
        Some(d) => d,
        None => {
            assume(false);
            unreachable!()
        }
    }
}
#[no_mangle]
pub extern "C" fn h_date_rt() {
    let d = any_date(-262000, 262000, param(1));
    let mut v = Date::from_chrono_naive_date(d);
    check((v.timezone.is_none()) & (v.value == d), "date: conversion changes the day");
    v.timezone = [None, FixedOffset::east_opt(0), FixedOffset::east_opt(14 * 3600), FixedOffset::west_opt(1800)][pick(param(0) as u32) as usize];
    let s = v.to_string();
    note(s.as_bytes());
    check(lex::date(s.as_bytes()).is_some(), "date: printed text is outside the lexical space");
    check(Date::from_str(&s) == Ok(v), "date: printing and parsing changes the value");
    reach(1);
}
fn any_time() -> NaiveTime {
    let ns = match pick(param(0) as u32) {
        0 => 0,
        1 => below(250) as u32 * 1_000_000,
        2 => below(250) as u32 * 1000,
        3 => 999_999_999 - below(250) as u32,
        _ => below(250) as u32,
    };
    NaiveTime::from_hms_nano_opt(below(24) as u32, below(60) as u32, below(60) as u32, ns).unwrap()
}
/// an offset with one free field
fn some_offset() -> FixedOffset {
    let m = if pick_bool() { below(14) * 60 + [0, 59][pick(2) as usize] } else { [0, 5, 13][pick(3) as usize] * 60 + below(60) };
    FixedOffset::east_opt(if pick_bool() { -m } else { m } * 60).unwrap()
}
/// a time of day with one free field
fn some_time() -> NaiveTime {
    let ns = [0, 1, 500_000_000, 999_999_999][pick(param(0) as u32) as usize];
    let (mut h, mut m, mut s) = if pick_bool() { (0, 0, 0) } else { (23, 59, 59) };
    let mut f = ns;
    match pick(4) {
        0 => h = below(24) as u32,
        1 => m = below(60) as u32,
        2 => s = below(60) as u32,
        _ => f = [1_000_000, 1000, 1][pick(3) as usize] * below(250) as u32,
    };
    NaiveTime::from_hms_nano_opt(h, m, s, f).unwrap()
}
#[no_mangle]
pub extern "C" fn h_time_rt() {
    let d = any_time();
    let mut v = Time::from_chrono_naive_time(d);
    check((v.timezone.is_none()) & (v.value == d), "time: conversion changes the value");
    v.timezone = any_tz();
    let s = v.to_string();
    note(s.as_bytes());
    check(lex::time(s.as_bytes()).is_some(), "time: printed text is outside the lexical space");
    check(Time::from_str(&s) == Ok(v), "time: printing and parsing changes the value");
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_datetime_rt() {
    // one of date, time of day and offset is free; the others take a few values
    let fixed = [NaiveDate::from_ymd_opt(2000, 2, 29).unwrap(), NaiveDate::from_ymd_opt(1999, 12, 31).unwrap(), NaiveDate::from_ymd_opt(9999, 12, 31).unwrap(), NaiveDate::from_ymd_opt(1, 1, 1).unwrap()];
    let times = [NaiveTime::from_hms_nano_opt(0, 0, 0, 0).unwrap(), NaiveTime::from_hms_nano_opt(23, 59, 59, 999_000_000).unwrap()];
    let offs = [FixedOffset::east_opt(0).unwrap(), FixedOffset::east_opt(14 * 3600).unwrap(), FixedOffset::west_opt(5400).unwrap()];
    let which = pick(3);
    let d = if which == 0 { any_date(1, 9999, param(1)) } else { fixed[pick(4) as usize] };
    let k = pick(3) as usize;
    let t = if which == 1 { some_time() } else { times[k & 1] };
    let off = if which == 2 { some_offset() } else { offs[k] };
    let local = d.and_time(t);
    let v = match local.and_local_timezone(off).single() {
        Some(v) => v,
        None => {
            assume(false);
            unreachable!()
        }
    };
    if pick_bool() {
        let v = DateTime::from_chrono_datetime(v);
        let s = v.to_string();
        note(s.as_bytes());
        check(lex::datetime(s.as_bytes()).is_some(), "dateTime: printed text is outside the lexical space");
        let p = DateTime::from_str(&s);
        match p {
            Ok(p) => {
                check(p == v, "dateTime: printing and parsing changes the instant");
                check(p.value.offset() == v.value.offset(), "dateTime: printing and parsing changes the offset");
            }
            Err(_) => fail("dateTime: printed text is rejected"),
        }
    } else {
        let v = DateTimeStamp::from_chrono_datetime(v);
        let s = v.to_string();
        note(s.as_bytes());
        match DateTimeStamp::from_str(&s) {
            Ok(p) => {
                check(p == v, "dateTimeStamp: printing and parsing changes the instant");
                check(p.value.value.offset() == v.value.value.offset(), "dateTimeStamp: printing and parsing changes the offset");
            }
            Err(_) => fail("dateTimeStamp: printed text is rejected"),
        }
    }
    reach(1);
}
