//! Validation of restricted types.
#[allow(unused)]
mod gen {
    use std::str::FromStr;
    use xsd_macro_utils::*;
    use xsd_parser::generator::validator::Validate;
    use xsd_types::types as xs;
    use yaserde::{YaDeserialize, YaSerialize};
    use yaserde_derive::{YaDeserialize, YaSerialize};
    include!(concat!(env!("OUT_DIR"), "/facets.rs"));
}
use gen::*;
use rsxapi::*;
use xsd_parser::generator::validator::Validate;
use std::str::FromStr;
use xsd_types::types as xs;
fn le<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    sym(&mut b);
    b
}
fn is<T: Validate>(t: T, valid: bool) {
    match (t.validate(), valid) {
        (Ok(()), true) => reach(1),
        (Err(_), false) => reach(2),
        (Ok(()), false) => fail("a value out of bounds is accepted"),
        (Err(_), true) => fail("a value within the bounds is rejected"),
    }
}
#[no_mangle]
pub extern "C" fn h_validate() {
    let n = param(0);
    match pick(17) {
        0 => {
            let v = i32::from_le_bytes(le());
            is(Percent(v), v >= 0 && v <= 100)
        }
        1 => {
            let v = i32::from_le_bytes(le());
            is(Open(v), v > -7 && v < 40000)
        }
        2 => {
            let v = le::<1>()[0] as i8;
            is(Tiny(v), v == -128)
        }
        3 => {
            let v = u64::from_le_bytes(le());
            is(Wide(v), v >= u64::MAX - 1)
        }
        4 => {
            let v = i64::from_le_bytes(le());
            is(Long(v), v != i64::MIN)
        }
        5 => {
            let (v, ok) = [(0.5, true), (0.49999999999999994, false), (2.0, false), (1.9999999999999998, true), (-1.0, false), (f64::MAX, false), (0.0, false), (1.0, true)][pick(8) as usize];
            is(Ratio(v), ok)
        }
        6 | 7 => {
            let mut b = vec![0u8; pick(n as u32 + 1) as usize];
            sym(&mut b);
            let mut k = 0;
            for c in &b {
                k += ((*c as i8) >= -64) as usize;
            }
            match String::from_utf8(b) {
                Ok(s) if pick_bool() => is(Short(s), k >= 1 && k <= 3),
                Ok(s) => is(Exact(s), k == 2),
                Err(_) => assume(false),
            }
        }
        8 => {
            let mut b = *b"-1.500";
            sym_from(&mut b[1..2], b"012");
            sym_from(&mut b[3..6], b"0123456789");
            let s = if pick_bool() { &b[..] } else { &b[1..] };
            let s = std::str::from_utf8(s).unwrap_or("");
            let m = (b[1] & 15) as i32 * 1000 + (b[3] & 15) as i32 * 100 + (b[4] & 15) as i32 * 10 + (b[5] & 15) as i32;
            match xs::Decimal::from_str(s) {
                Ok(d) => is(Amount(d), s.as_bytes()[0] != b'-' || m <= 1500),
                Err(_) => fail("a decimal is rejected"),
            }
        }
        9 => {
            let v = u16::from_le_bytes(le());
            is(Port(v), v > 1023 && v <= 65534)
        }
        10 => {
            let v = i16::from_le_bytes(le());
            is(Level(v), v < -32767)
        }
        11 => {
            let v = le::<1>()[0];
            is(Octet(v), v >= 200 && v < 255)
        }
        12 => {
            let v = u32::from_le_bytes(le());
            is(Index(v), v >= 1 && v <= 4294967294)
        }
        13 => {
            let v = [-0.25, -0.24999999, 0.0, 1000.0, 1000.0001, f64::MIN, f64::MAX, f64::INFINITY][pick(8) as usize];
            is(Gain(v), v > -0.25 && v <= 1000.0)
        }
        14 => {
            // texts whose length is near a bound, of characters of one or more bytes
            let (len, c, c2) = ([0, 1, 44, 255, 256, 299, 300, 301, 512, 556, 65535, 65536, 65537][pick(13) as usize], pick(3), pick(2));
            let mut s = String::new();
            for i in 0..len {
                s.push(if i == 0 && c2 > 0 { 'é' } else { ['a', 'ß', '字'][c as usize] });
            }
            if len < 600 && pick_bool() {
                is(Code(s), len >= 256 && len <= 300)
            } else {
                is(Book(s), len <= 65536)
            }
        }
        15 => {
            let mut d = [0u8; 2];
            sym_from(&mut d, b"0123456789");
            let d2 = (d[0] & 15) * 10 + (d[1] & 15);
            let d = std::str::from_utf8(&d).unwrap_or("");
            let (s, ok) = match pick(3) {
                0 => (format!("-1{d}"), true),
                1 => (format!("-184467440737095516{d}"), d2 <= 16),
                _ => (format!("-1844674407370955{d}99"), d2 <= 15),
            };
            match xs::NegativeInteger::from_str(&s) {
                Ok(d) => is(Debt(d), ok),
                Err(_) => fail("an integer is rejected"),
            }
        }
        _ => {
            let mut d = [0u8; 2];
            sym_from(&mut d, b"0123456789");
            let d2 = (d[0] & 15) * 10 + (d[1] & 15);
            let d = std::str::from_utf8(&d).unwrap_or("");
            let (s, ok) = match pick(4) {
                0 => (d.to_string(), d2 > 0),
                1 => (format!("-{d}"), false),
                2 => (format!("184467440737095516{d}"), d2 <= 16),
                _ => (format!("1844674407370955{d}99"), d2 <= 15),
            };
            match xs::Integer::from_str(&s) {
                Ok(d) => is(Natural(d), ok),
                Err(_) => fail("an integer is rejected"),
            }
        }
    }
}
fn main() {
    rsxapi::main(&[
        ("h_validate", h_validate),
    ])
}
