//! Durations, integers of the five sign families, decimals.
use crate::cal::{below, utf};
use crate::lex;
use crate::text::*;
use bigdecimal::BigDecimal;
use num_bigint::{BigInt, ToBigInt, ToBigUint};
use rsxapi::*;
use std::str::FromStr;
use xsd_types::types::*;

// ---------------------------------------------------------------- duration
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 + b.abs() * 1e-12
}
fn duration_case(t: &Text) {
    let want = if t.n == 0 { Some(lex::Dur { neg: false, c: [0; 6], numer: 0, denom: 1 }) } else { lex::duration(t.bytes()) };
    verdict!("duration", Duration::from_str(utf(t)), want, |g, w| {
        check(g.is_negative == w.neg, "duration: wrong sign");
        check((g.years == w.c[0]) & (g.months == w.c[1]) & (g.days == w.c[2]), "duration: wrong years, months or days");
        check((g.hours == w.c[3]) & (g.minutes == w.c[4]), "duration: wrong hours or minutes");
        check(close(g.seconds, w.c[5] as f64 + w.numer as f64 / w.denom as f64), "duration: wrong seconds");
    })
}
#[no_mangle]
pub extern "C" fn h_duration_any() {
    duration_case(&any_text(param(0)))
}
/// every string of the characters that durations are made of
#[no_mangle]
pub extern "C" fn h_duration_alpha() {
    duration_case(&alpha_text(param(0), b"-PYMDTHS.07"))
}
const DUR: [&str; 9] = [
    "P#Y#M#DT#H#M#S",
    "-P##Y0#M",
    "PT#.#S",
    "P1Y2M3DT4H5M6.7S",
    "-P#DT5#M",
    "P184467440737095516##D",
    "-PT9999999999999999999#H",
    "PT0.000000000000000000000#S",
    "P000000000000000000000##M",
];
#[no_mangle]
pub extern "C" fn h_duration_near() {
    duration_case(&near_text(&DUR, param(0)))
}
/// a component: small, around a power of ten, or close to the largest
fn comp() -> u64 {
    match pick(4) {
        0 => 0,
        1 => below(120) as u64,
        2 => 9_999_999_950 + below(100) as u64,
        _ => u64::MAX - below(10) as u64,
    }
}
#[no_mangle]
pub extern "C" fn h_duration_rt() {
    let sec = [0.0, 1.0, 59.999, 0.1, 0.0000001, 30.5, 123456789.0, 1e15, 2.5e-10][pick(9) as usize];
    let z = Duration { is_negative: pick_bool(), years: 0, months: 0, days: 0, hours: 0, minutes: 0, seconds: sec };
    let v = if pick_bool() {
        Duration { years: comp(), months: comp(), days: comp(), ..z }
    } else {
        Duration { days: comp(), hours: comp(), minutes: comp(), ..z }
    };
    let s = v.to_string();
    note(s.as_bytes());
    check(lex::duration(s.as_bytes()).is_some(), "duration: printed text is outside the lexical space");
    match Duration::from_str(&s) {
        Ok(p) => {
            check(
                (p.is_negative == v.is_negative) & (p.years == v.years) & (p.months == v.months) & (p.days == v.days) & (p.hours == v.hours) & (p.minutes == v.minutes),
                "duration: printing and parsing changes a component",
            );
            check(close(p.seconds, v.seconds), "duration: printing and parsing changes the seconds");
        }
        Err(_) => fail("duration: printed text is rejected"),
    }
    reach(1);
}
/// conversion to the standard library's type
#[no_mangle]
pub extern "C" fn h_duration_std() {
    fn any() -> u64 {
        let mut b = [0u8; 8];
        sym(&mut b);
        u64::from_le_bytes(b)
    }
    fn near(q: u64) -> u64 {
        match pick(4) {
            0 => 0,
            1 => below(100) as u64,
            2 => q - 3 + below(6) as u64,
            _ => u64::MAX - below(3) as u64,
        }
    }
    let (sec, ns) = [(0.0, 0u128), (1.5, 1_500_000_000), (59.0, 59_000_000_000), (86399.25, 86_399_250_000_000), (1e30, u128::MAX), (4294967296.0, 4_294_967_296_000_000_000)][pick(6) as usize];
    let mut v = Duration { is_negative: pick_bool(), years: 0, months: 0, days: near(u64::MAX / 86400), hours: 0, minutes: 0, seconds: sec };
    match pick(4) {
        0 => v.hours = near(u64::MAX / 3600),
        1 => v.minutes = near(u64::MAX / 60),
        2 => (v.years, v.months) = (any(), any()),
        _ => v.months = below(3) as u64,
    }
    let r = v.to_std_duration();
    let mins = (v.days as u128 * 24 + v.hours as u128) * 60 + v.minutes as u128;
    let whole = mins * 60 + if ns == u128::MAX { 0 } else { ns / 1_000_000_000 };
    // the same modulo 2^64
    let secs = v.days.wrapping_mul(24).wrapping_add(v.hours).wrapping_mul(60).wrapping_add(v.minutes).wrapping_mul(60).wrapping_add((ns / 1_000_000_000) as u64);
    let legal = (v.years == 0) & (v.months == 0) & (ns != u128::MAX) && (whole <= u64::MAX as u128) && (!v.is_negative || (whole == 0 && ns == 0));
    match r {
        Ok(d) => {
            check(legal, "duration: a conversion that cannot be exact succeeds");
            check((d.as_secs() == secs) & (d.subsec_nanos() as u64 == (ns % 1_000_000_000) as u64), "duration: conversion changes the length");
            reach(1);
        }
        Err(_) => {
            check(!legal, "duration: conversion of a representable length fails");
            reach(2);
        }
    }
}

// ---------------------------------------------------------------- integers
/// sign and digits as a number
fn number(neg: bool, d: &[u8]) -> BigInt {
    let mut r = BigInt::from(0);
    for c in d.chunks(15) {
        let mut v = 0i64;
        let mut p = 1i64;
        for x in c {
            v = v * 10 + (x & 15) as i64;
            p *= 10;
        }
        r = if r == BigInt::from(0) { BigInt::from(v) } else { r * p + v };
    }
    if neg {
        -r
    } else {
        r
    }
}
fn text(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}
/// numbers of up to 310 digits: the sign, a digit in front and one at the end are free, `fracs` of them follow a dot
fn long_number(fracs: &[usize]) -> Vec<u8> {
    let n = [17, 20, 21, 39, 45, 80, 310][pick(7) as usize];
    let frac = fracs[pick(fracs.len() as u32) as usize];
    let mut v = [&b""[..], b"-", b"+"][pick(3) as usize].to_vec();
    let mut d = [0u8; 2];
    sym(&mut d);
    assume((d[0] >= b'0') & (d[0] <= b'9') & (d[1] >= b'0') & (d[1] <= b'9'));
    let zeros = pick_bool();
    for i in 0..n {
        if i + frac == n && frac > 0 {
            v.push(b'.');
        }
        v.push(match i {
            0 => d[0],
            i if i + 1 == n => d[1],
            _ if zeros => b'0',
            i => b'0' + (i * 7 % 10) as u8,
        });
    }
    v
}
macro_rules! ints {
    ($($n:literal $ty:ident $any:ident $long:ident $near:ident $rt:ident $ok:expr;)*) => {$(
        fn $near(b: &[u8]) {
            let ok: fn(bool, bool) -> bool = $ok;
            let w = lex::integer(b).filter(|(neg, d)| ok(*neg, d.is_empty()));
            match ($ty::from_str(text(b)), w) {
                (Ok(g), Some((neg, d))) => {
                    check(g.big() == Some(number(neg, d)), concat!($n, ": wrong value"));
                    reach(1);
                }
                (Err(_), None) => reach(2),
                (Ok(_), None) => {
                    if b.contains(&b'_') {
                        fail(concat!($n, ": text with an underscore accepted"))
                    } else {
                        fail(concat!($n, ": text outside the lexical space accepted"))
                    }
                }
                (Err(_), Some((_, d))) => {
                    if d.is_empty() && b[0] == b'-' {
                        fail(concat!($n, ": minus zero rejected"))
                    } else {
                        fail(concat!($n, ": valid text rejected"))
                    }
                }
            }
        }
        #[no_mangle]
        pub extern "C" fn $any() {
            let t = match pick(3) {
                0 => any_text(param(0)),
                1 => alpha_text(param(1), b"+-0123456789_"),
                _ => near_text(&["-DDDDD", "+1844674407370955161D", "-922337203685477580D", "0000D", "300000000000000000000000000007DD"], param(2)),
            };
            $near(t.bytes())
        }
        #[no_mangle]
        pub extern "C" fn $long() {
            $near(&long_number(&[0]))
        }
        #[no_mangle]
        pub extern "C" fn $rt() {
            let n = number(pick_bool(), [&b""[..], b"1844674407370955", b"99999999999999999999999999999999999"][pick(3) as usize]) + below(200);
            let ok: fn(bool, bool) -> bool = $ok;
            let zero = n == BigInt::from(0);
            assume(ok(n < BigInt::from(0), zero));
            let v = make::$near(n.clone());
            let s = v.to_string();
            note(s.as_bytes());
            match lex::integer(s.as_bytes()) {
                Some((neg, d)) => {
                    check(number(neg, d) == n, concat!($n, ": printed text stands for another number"));
                    check(d.len() + neg as usize == s.len() || zero, concat!($n, ": printed text is not canonical"));
                }
                None => fail(concat!($n, ": printed text is outside the lexical space")),
            }
            match $ty::from_str(&s) {
                Ok(p) => check(p == v && p.big() == Some(n), concat!($n, ": printing and parsing changes the value")),
                Err(_) => fail(concat!($n, ": printed text is rejected")),
            }
            let z = $ty::default().big().unwrap();
            check(ok(z < BigInt::from(0), z == BigInt::from(0)), concat!($n, ": the default value is outside the value space"));
            reach(1);
        }
    )*}
}
trait Big {
    fn big(&self) -> Option<BigInt>;
}
impl Big for Integer {
    fn big(&self) -> Option<BigInt> {
        self.to_bigint()
    }
}
impl Big for NonPositiveInteger {
    fn big(&self) -> Option<BigInt> {
        self.to_bigint()
    }
}
impl Big for NegativeInteger {
    fn big(&self) -> Option<BigInt> {
        self.to_bigint()
    }
}
impl Big for NonNegativeInteger {
    fn big(&self) -> Option<BigInt> {
        self.to_biguint().map(BigInt::from)
    }
}
impl Big for PositiveInteger {
    fn big(&self) -> Option<BigInt> {
        self.to_biguint().map(BigInt::from)
    }
}
mod make {
    use super::*;
    pub fn integer_case(n: BigInt) -> Integer {
        Integer::from_bigint(n)
    }
    pub fn nonpositive_case(n: BigInt) -> NonPositiveInteger {
        NonPositiveInteger::from_bigint(n)
    }
    pub fn negative_case(n: BigInt) -> NegativeInteger {
        NegativeInteger::from_bigint(n)
    }
    pub fn nonnegative_case(n: BigInt) -> NonNegativeInteger {
        NonNegativeInteger::from_biguint(n.to_biguint().unwrap())
    }
    pub fn positive_case(n: BigInt) -> PositiveInteger {
        PositiveInteger::from_biguint(n.to_biguint().unwrap())
    }
}
ints! {
    "integer" Integer h_integer h_integer_long integer_case h_integer_rt |_, _| true;
    "nonPositiveInteger" NonPositiveInteger h_nonpositive h_nonpositive_long nonpositive_case h_nonpositive_rt |neg, zero| neg | zero;
    "negativeInteger" NegativeInteger h_negative h_negative_long negative_case h_negative_rt |neg, zero| neg & !zero;
    "nonNegativeInteger" NonNegativeInteger h_nonnegative h_nonnegative_long nonnegative_case h_nonnegative_rt |neg, zero| !neg | zero;
    "positiveInteger" PositiveInteger h_positive h_positive_long positive_case h_positive_rt |neg, zero| !neg & !zero;
}

// ---------------------------------------------------------------- decimal
fn decimal_case(b: &[u8]) {
    match (Decimal::from_str(text(b)), lex::decimal(b)) {
        (Ok(g), Some((neg, i, f))) => {
            let all = [i, f].concat();
            let w = BigDecimal::new(number(neg, &all), f.len() as i64);
            check(g.to_bigdecimal() == w, "decimal: wrong value");
            reach(1);
        }
        (Err(_), None) => reach(2),
        (Ok(_), None) => {
            if b.contains(&b'_') {
                fail("decimal: text with an underscore accepted")
            } else if b.contains(&b'e') || b.contains(&b'E') {
                fail("decimal: text with an exponent accepted")
            } else {
                fail("decimal: text outside the lexical space accepted")
            }
        }
        (Err(_), Some(_)) => fail("decimal: valid text rejected"),
    }
}
#[no_mangle]
pub extern "C" fn h_decimal() {
    let t = match pick(3) {
        0 => any_text(param(0)),
        1 => alpha_text(param(1), b"+-.0123456789_e"),
        _ => near_text(&["-DDD.DD", "+0.000000000000000000000000000000DD", "18446744073709551.6DD", "-.D", "D."], param(2)),
    };
    decimal_case(t.bytes())
}
#[no_mangle]
pub extern "C" fn h_decimal_long() {
    decimal_case(&long_number(&[0, 1, 5, 16, 17]))
}
#[no_mangle]
pub extern "C" fn h_decimal_rt() {
    let n = number(pick_bool(), [&b""[..], b"1844674407370955", b"1200"][pick(3) as usize]) + below(200);
    let scale = [0, 1, 2, 5, 18, 30, -1, -6][pick(8) as usize];
    let d = BigDecimal::new(n, scale);
    let v = Decimal::from_bigdecimal(d.clone());
    let s = v.to_string();
    note(s.as_bytes());
    check(lex::decimal(s.as_bytes()).is_some(), "decimal: printed text is outside the lexical space");
    match Decimal::from_str(&s) {
        Ok(p) => check(p.to_bigdecimal() == d, "decimal: printing and parsing changes the value"),
        Err(_) => fail("decimal: printed text is rejected"),
    }
    reach(1);
}
