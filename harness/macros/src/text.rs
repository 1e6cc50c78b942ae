//! Newtypes and lists: the text they read and print.
use rsxapi::*;
use std::str::FromStr;
use xsd_macro_utils::*;
use xsd_types::types as xs;
#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
pub struct Byte(pub u8);
#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
pub struct Int(pub i32);
#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
pub struct Flag(pub bool);
#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
pub struct Text(pub String);
#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
pub struct Day(pub xs::GDay);
#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
pub struct Nested(pub Byte);
#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
pub struct Bytes(pub Vec<u8>);
#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
pub struct Flags(pub Vec<bool>);
#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
pub struct Words(pub Vec<String>);
#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
pub struct Items(pub Vec<Byte>);
#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
pub struct Days(pub Vec<xs::GDay>);

/// up to `n` bytes of UTF-8, or `n` characters of a small alphabet
pub fn text(n: usize, alphabet: &[u8]) -> String {
    let k = pick(n as u32 + 1) as usize;
    let mut b = vec![0u8; k];
    if alphabet.is_empty() {
        sym(&mut b);
        note(&b);
        match String::from_utf8(b) {
            Ok(s) => s,
            Err(_) => {
                assume(false);
                String::new()
            }
        }
    } else {
        sym_from(&mut b, alphabet);
        note(&b);
        unsafe { String::from_utf8_unchecked(b) }
    }
}
/// up to 300 words of up to 2000 characters, one of which ends in a free character
pub fn long_words() -> Vec<String> {
    let (n, len) = [(1, 40), (1, 260), (1, 2000), (3, 300), (20, 20), (70, 2), (300, 1)][pick(7) as usize];
    let at = [0, n / 2, n - 1][pick(3) as usize];
    let mut c = [0u8];
    sym(&mut c);
    assume((c[0] > b' ') & (c[0] < 127) & (c[0] != b'<') & (c[0] != b'&') & (c[0] != b'>'));
    (0..n)
        .map(|i| {
            let mut w: Vec<u8> = (0..len).map(|k| b'a' + ((k * 7 + i) % 26) as u8).collect();
            if i == at {
                w[len - 1] = c[0];
            }
            unsafe { String::from_utf8_unchecked(w) }
        })
        .collect()
}
/// the numbers of up to 300 bytes, one of them with a free digit
pub fn long_bytes() -> String {
    let n = [17, 65, 300][pick(3) as usize];
    let at = [0, n / 2, n - 1][pick(3) as usize];
    let mut c = [0u8];
    sym_from(&mut c, b"0123456789x");
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push(' ');
        }
        if i == at {
            s.push(c[0] as char);
        } else {
            s += ["7", "200", "31"][i % 3];
        }
    }
    s
}
/// what an unsigned byte may look like: decimal digits, an optional plus sign
pub fn byte(s: &str) -> Option<u8> {
    let b = s.as_bytes();
    let d = if !b.is_empty() && b[0] == b'+' { &b[1..] } else { b };
    if d.is_empty() {
        return None;
    }
    let mut v = 0u32;
    for c in d {
        if !c.is_ascii_digit() {
            return None;
        }
        v = v * 10 + (*c & 15) as u32;
        if v > 255 {
            return None;
        }
    }
    Some(v as u8)
}
pub fn flag(s: &str) -> Option<bool> {
    match s.as_bytes() {
        b"true" | b"1" => Some(true),
        b"false" | b"0" => Some(false),
        _ => None,
    }
}
fn day(s: &str) -> Option<xs::GDay> {
    xs::GDay::from_str(s).ok()
}
fn one<T: FromStr + ToString, V: PartialEq>(s: &str, want: Option<V>, value: impl Fn(&T) -> &V) {
    match (T::from_str(s), want) {
        (Ok(t), Some(w)) => {
            check(*value(&t) == w, "a value is read as another value");
            let p = t.to_string();
            match T::from_str(&p) {
                Ok(u) => check(*value(&u) == w, "the printed text gives another value"),
                Err(_) => fail("the printed text is rejected"),
            }
            reach(1)
        }
        (Err(_), None) => reach(2),
        (Ok(_), None) => fail("a text that is no value is accepted"),
        (Err(_), Some(_)) => fail("a value is rejected"),
    }
}
const DIGITS: &[u8] = b"0129+- a";
const LETTERS: &[u8] = b"10truefals";
/// a newtype reads and prints what its content does
#[no_mangle]
pub extern "C" fn h_newtype() {
    let n = param(0);
    match pick(9) {
        8 => {
            let s = long_words().join([" ", "\n\t"][pick(2) as usize]);
            one::<Text, String>(&s, Some(s.clone()), |b| &b.0);
            check(Text(s.clone()).to_string() == s, "a text is not printed as it is");
        }
        0 => {
            let s = text(n + 1, DIGITS);
            one::<Byte, u8>(&s, byte(&s), |b| &b.0)
        }
        1 => {
            let s = text(n, b"");
            one::<Byte, u8>(&s, byte(&s), |b| &b.0)
        }
        2 => {
            let s = text(n, DIGITS);
            let w = if s.starts_with('-') {
                let r = &s[1..];
                if r.starts_with('+') { None } else { number(r).map(|v| -v) }
            } else {
                number(&s)
            };
            one::<Int, i32>(&s, w, |b| &b.0)
        }
        3 => {
            let s = if pick_bool() { text(5, LETTERS) } else { text(n, b"") };
            one::<Flag, bool>(&s, flag(&s), |b| &b.0)
        }
        4 => {
            let s = text(n, b"");
            one::<Text, String>(&s, Some(s.clone()), |b| &b.0);
            check(Text(s.clone()).to_string() == s, "a text is not printed as it is");
        }
        5 => {
            let s = text(n + 3, b"-Z013");
            one::<Day, xs::GDay>(&s, day(&s), |b| &b.0)
        }
        6 => {
            let s = text(n, b"");
            one::<Day, xs::GDay>(&s, day(&s), |b| &b.0)
        }
        _ => {
            let s = text(n, DIGITS);
            one::<Nested, Byte>(&s, byte(&s).map(Byte), |b| &b.0)
        }
    }
}
fn number(s: &str) -> Option<i32> {
    let b = s.as_bytes();
    let d = if !b.is_empty() && b[0] == b'+' { &b[1..] } else { b };
    if d.is_empty() {
        return None;
    }
    let mut v = 0;
    for c in d {
        if !c.is_ascii_digit() {
            return None;
        }
        v = v * 10 + (*c & 15) as i32;
    }
    Some(v)
}
fn words(s: &str) -> Vec<String> {
    let mut r = vec![];
    let mut w = String::new();
    for c in s.chars() {
        if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
            if !w.is_empty() {
                r.push(std::mem::take(&mut w))
            }
        } else {
            w.push(c)
        }
    }
    if !w.is_empty() {
        r.push(w)
    }
    r
}
fn list<T: FromStr + ToString, V: PartialEq>(s: &str, item: impl Fn(&str) -> Option<V>, value: impl Fn(&T) -> &Vec<V>, print: impl Fn(&V) -> String) {
    let w = words(s);
    let want: Option<Vec<V>> = w.iter().map(|w| item(w)).collect();
    match (T::from_str(s), want) {
        (Ok(t), Some(w)) => {
            check(value(&t).len() == w.len(), "a list has the wrong number of items");
            check(*value(&t) == w, "a list has the wrong items");
            let p: Vec<String> = w.iter().map(print).collect();
            check(t.to_string() == p.join(" "), "a list is not printed as its items with single spaces");
            match T::from_str(&t.to_string()) {
                Ok(u) => check(*value(&u) == w, "the printed list gives another list"),
                Err(_) => fail("the printed list is rejected"),
            }
            reach(1 + (w.len() > 1) as u32);
        }
        (Err(_), None) => reach(3),
        (Ok(_), None) => fail("a list with an item that is no value is accepted"),
        (Err(_), Some(_)) => fail("a list is rejected"),
    }
}
const LIST: &[u8] = b"12+ \t\nx";
#[no_mangle]
pub extern "C" fn h_lists() {
    let n = param(0);
    match pick(8) {
        6 => {
            let s = long_words().join([" ", " \r\n"][pick(2) as usize]);
            list::<Words, String>(&s, |s| Some(s.to_string()), |b| &b.0, |v| v.clone())
        }
        7 => {
            let s = long_bytes();
            if pick_bool() {
                list::<Bytes, u8>(&s, byte, |b| &b.0, |v| v.to_string())
            } else {
                list::<Items, Byte>(&s, |s| byte(s).map(Byte), |b| &b.0, |v| v.to_string())
            }
        }
        0 => {
            let s = text(n, LIST);
            list::<Bytes, u8>(&s, byte, |b| &b.0, |v| v.to_string())
        }
        1 => {
            let s = text(n, b"10 \r\ntrue");
            list::<Flags, bool>(&s, flag, |b| &b.0, |v| v.to_string())
        }
        2 => {
            let s = text(n - 1, b"");
            list::<Words, String>(&s, |s| Some(s.to_string()), |b| &b.0, |v| v.clone())
        }
        3 => {
            let s = text(n, LIST);
            list::<Items, Byte>(&s, |s| byte(s).map(Byte), |b| &b.0, |v| v.to_string())
        }
        4 => {
            let mut s = String::new();
            for i in 0..pick(3) {
                if i > 0 {
                    s += [" ", "  ", "\n"][pick(3) as usize];
                }
                let mut b = [0u8; 2];
                sym_from(&mut b, b"0123x");
                s += "---";
                s += unsafe { std::str::from_utf8_unchecked(&b) };
                s += ["", "Z", "-05:30"][pick(3) as usize];
            }
            note(s.as_bytes());
            list::<Days, xs::GDay>(&s, day, |b| &b.0, |v| v.to_string())
        }
        _ => {
            let s = text(n, b"0129 ");
            list::<Bytes, u8>(&s, byte, |b| &b.0, |v| v.to_string())
        }
    }
}
