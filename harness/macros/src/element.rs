//! Simple types as elements of a document.
use crate::text::*;
use rsxapi::*;
use std::str::FromStr;
use xsd_macro_utils::*;
use xsd_types::types as xs;
use yaserde::{YaDeserialize, YaSerialize};
#[derive(PartialEq, Debug, UtilsUnionSerDe)]
pub enum ByteFlagDay {
    Byte(Byte),
    Flag(bool),
    Day(xs::GDay),
    __Unknown__(String),
}
#[derive(PartialEq, Debug, UtilsUnionSerDe)]
pub enum FlagByteBytes {
    Flag(bool),
    Byte(u8),
    Bytes(Bytes),
    __Unknown__(String),
}
#[derive(PartialEq, Debug, UtilsUnionSerDe)]
pub enum IntText {
    Int(xs::Integer),
    Text(String),
    __Unknown__(String),
}
#[derive(PartialEq, Debug, UtilsUnionSerDe)]
pub enum TextByte {
    Text(String),
    Byte(u8),
    __Unknown__(String),
}
#[derive(PartialEq, Debug, UtilsUnionSerDe)]
pub enum FlagTextByte {
    Flag(bool),
    Name(Text),
    Text(String),
    Byte(u8),
    __Unknown__(String),
}
#[derive(PartialEq, Debug, UtilsUnionSerDe)]
pub enum SmallBigWords {
    Small(u8),
    Bytes(Bytes),
    Big(i64),
    Words(Words),
    __Unknown__(String),
}
const MARKUP: &[u8] = b"<>&;ab 1]\"'";
fn written<T: YaSerialize + YaDeserialize + PartialEq>(v: T) {
    let s = match yaserde::ser::to_string(&v) {
        Ok(s) => s,
        Err(_) => return fail("a value cannot be written"),
    };
    note(s.as_bytes());
    match yaserde::de::from_str::<T>(&s) {
        Ok(w) => check(w == v, "a value is read back as another value"),
        Err(_) => fail("what was written is not read"),
    }
    reach(1)
}
/// text that an element can hold: no white space at the ends, no control characters
fn proper(n: usize) -> String {
    let s = if pick_bool() { text(n, MARKUP) } else { text(n, b"") };
    assume(s.trim_matches(|c| c == ' ').len() == s.len());
    for b in s.bytes() {
        assume(b >= 32);
    }
    assume(!s.contains("]]>"));
    assume(!s.contains('\u{fffe}') && !s.contains('\u{ffff}') && !s.chars().any(|c| ('\u{7f}'..'\u{a0}').contains(&c)));
    s
}
fn words(n: usize) -> Vec<String> {
    let k = pick(3);
    (0..k)
        .map(|_| {
            let mut b = vec![0u8; 1 + pick(n as u32) as usize];
            sym_from(&mut b, b"<>&;a1'");
            String::from_utf8(b).unwrap_or_default()
        })
        .collect()
}
fn any_byte() -> u8 {
    let mut b = [0u8];
    sym(&mut b);
    b[0]
}
/// a value written as an element is read back
#[no_mangle]
pub extern "C" fn h_written() {
    let n = param(0);
    match pick(17) {
        14 => written(Text(long_words().join(" "))),
        15 => written(Words(long_words())),
        16 => written(IntText::Text(long_words().join(" "))),
        0 => written(Byte(any_byte())),
        1 => written(Text(proper(n))),
        2 => written(Words(words(n))),
        3 => written(Flag(pick_bool())),
        4 => written(Flags((0..pick(4)).map(|_| pick_bool()).collect())),
        5 => written(Bytes((0..pick(3)).map(|_| any_byte()).collect())),
        6 => written(Nested(Byte(any_byte()))),
        7 => written(Int(i32::from_le_bytes([any_byte(), [0, 255, 127][pick(3) as usize], [0, 255, 127][pick(3) as usize], [0, 255, 127, 128][pick(4) as usize]]))),
        8 => written(ByteFlagDay::Byte(Byte(any_byte()))),
        9 => written(ByteFlagDay::Flag(pick_bool())),
        10 => written(FlagByteBytes::Flag(pick_bool())),
        11 => written(FlagByteBytes::Bytes(Bytes(vec![any_byte(), any_byte()]))),
        12 => {
            let s = proper(n);
            assume(xs::Integer::from_str(&s).is_err());
            written(IntText::Text(s))
        }
        _ => written(IntText::Int(xs::Integer::from_str(["0", "-1", "18446744073709551616"][pick(3) as usize]).unwrap_or_default())),
    }
}
fn day(s: &str) -> Option<xs::GDay> {
    xs::GDay::from_str(s).ok()
}
/// a union has the value of its first member type that accepts the text
#[no_mangle]
pub extern "C" fn h_member() {
    let n = param(0);
    let s = if pick(12) == 0 {
        if pick_bool() {
            long_words().join(" ")
        } else {
            long_bytes()
        }
    } else {
        let alphabet: &[u8] = [&b"01-2 "[..], b"10tfruelas", b"-Z0129", b"ab<&1", b""][pick(5) as usize];
        text(n, alphabet)
    };
    for b in s.bytes() {
        assume(b >= 32);
    }
    assume(!s.chars().any(|c| c == '\u{fffe}' || c == '\u{ffff}' || ('\u{7f}'..'\u{a0}').contains(&c)));
    let mut doc = String::from("<v>");
    for c in s.chars() {
        match c {
            '<' => doc.push_str("&lt;"),
            '&' => doc.push_str("&amp;"),
            '>' => doc.push_str("&gt;"),
            c => doc.push(c),
        }
    }
    doc.push_str("</v>");
    note(doc.as_bytes());
    let t = s.trim_matches(|c| c == ' ');
    let none = || t.to_string();
    match pick(6) {
        3 => member(&doc, TextByte::Text(none())),
        4 => {
            let want = match flag(t) {
                Some(f) => FlagTextByte::Flag(f),
                None => FlagTextByte::Name(Text(none())),
            };
            member(&doc, want)
        }
        5 => {
            let want = match (byte(t), Bytes::from_str(t), t.parse::<i64>(), Words::from_str(t)) {
                (Some(b), ..) => SmallBigWords::Small(b),
                (_, Ok(l), ..) => SmallBigWords::Bytes(l),
                (_, _, Ok(i), _) => SmallBigWords::Big(i),
                (_, _, _, Ok(w)) => SmallBigWords::Words(w),
                _ => SmallBigWords::__Unknown__(none()),
            };
            member(&doc, want)
        }
        0 => {
            let want = match (byte(t), flag(t), day(t)) {
                (Some(b), _, _) => ByteFlagDay::Byte(Byte(b)),
                (_, Some(f), _) => ByteFlagDay::Flag(f),
                (_, _, Some(d)) => ByteFlagDay::Day(d),
                _ => ByteFlagDay::__Unknown__(none()),
            };
            member(&doc, want)
        }
        1 => {
            let want = match (flag(t), byte(t), Bytes::from_str(t)) {
                (Some(f), _, _) => FlagByteBytes::Flag(f),
                (_, Some(b), _) => FlagByteBytes::Byte(b),
                (_, _, Ok(l)) => FlagByteBytes::Bytes(l),
                _ => FlagByteBytes::__Unknown__(none()),
            };
            member(&doc, want)
        }
        _ => {
            let want = match xs::Integer::from_str(t) {
                Ok(i) => IntText::Int(i),
                Err(_) => IntText::Text(none()),
            };
            member(&doc, want)
        }
    }
}
fn member<T: YaDeserialize + PartialEq>(doc: &str, want: T) {
    match yaserde::de::from_str::<T>(doc) {
        Ok(v) => check(v == want, "a union has another value than that of its first matching member"),
        Err(_) => fail("a union is rejected"),
    }
    reach(1)
}
/// content of an element in up to `n` pieces, and the text it stands for
fn content(n: usize, plain: &[u8]) -> (String, String) {
    let k = pick(n as u32 + 1);
    let (mut doc, mut txt) = (String::new(), String::new());
    for _ in 0..k {
        match pick(6) {
            0 => {
                let mut b = [0u8; 2];
                sym_from(&mut b, plain);
                let s = std::str::from_utf8(&b).unwrap_or("");
                doc.push_str(s);
                txt.push_str(s);
            }
            1 => {
                let (e, c) = [("&lt;", "<"), ("&amp;", "&"), ("&gt;", ">"), ("&#49;", "1"), ("&#x31;", "1"), ("&quot;", "\"")][pick(6) as usize];
                doc.push_str(e);
                txt.push_str(c);
            }
            2 => {
                let c = ["<", "&", "1", "]", ""][pick(5) as usize];
                doc.push_str("<![CDATA[");
                doc.push_str(c);
                doc.push_str("]]>");
                txt.push_str(c);
            }
            3 => doc.push_str(["<!---->", "<!-- 1 -->"][pick(2) as usize]),
            4 => doc.push_str("<?p 1?>"),
            _ => {
                doc.push_str(" ");
                txt.push_str(" ");
            }
        }
    }
    (doc, txt)
}
fn read_as<T: YaDeserialize + FromStr + PartialEq>(doc: &str, txt: &str) {
    note(doc.as_bytes());
    match (yaserde::de::from_str::<T>(&doc), T::from_str(txt)) {
        (Ok(v), Ok(w)) => {
            check(v == w, "an element gives another value than its text");
            reach(1)
        }
        (Err(_), Err(_)) => reach(2),
        (Ok(_), Err(_)) => fail("an element is accepted whose text is no value"),
        (Err(_), Ok(_)) => fail("an element is rejected whose text is a value"),
    }
}
#[no_mangle]
pub extern "C" fn h_read() {
    let n = param(0);
    if pick_bool() {
        return value_types();
    }
    let kind = pick(4);
    let (c, t) = match pick(7) {
        0 => {
            let s = long_words().join(" ");
            (s.clone(), s)
        }
        1 => {
            let s = long_bytes();
            (s.clone(), s)
        }
        _ => content(n, b"01 -"),
    };
    let name = ["v", "p:v"][pick(2) as usize];
    let head = ["", "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<!-- head -->\n"][pick(2) as usize];
    let doc = if t.is_empty() && c.is_empty() && pick_bool() {
        format!("{}<{} xmlns:p=\"urn:p\"/>", head, name)
    } else {
        format!("{}<{} xmlns:p=\"urn:p\">{}</{}>", head, name, c, name)
    };
    // a processing instruction splits the text, and the reader trims every part
    let near = |i: usize| c.as_bytes().get(i).map_or(false, |b| *b <= b' ');
    assume(!c.match_indices("<?").any(|(i, _)| (i > 0 && near(i - 1)) || near(i + 7)));
    let t = t.trim();
    match kind {
        0 => read_as::<Byte>(&doc, t),
        1 => read_as::<Text>(&doc, t),
        2 => read_as::<Bytes>(&doc, t),
        _ => read_as::<xs::Integer>(&doc, t),
    }
}

/// elements of the value types: the same text, whatever white space is around it
fn value_types() {
    let w = ["", " ", "\n\t "][pick(3) as usize];
    let mut d = [0u8; 2];
    sym_from(&mut d, b"0139");
    let d = std::str::from_utf8(&d).unwrap_or("");
    fn go<T: YaDeserialize + YaSerialize + FromStr + PartialEq>(w: &str, t: &str) {
        let doc = format!("<v>{}{}{}</v>", w, t, w);
        read_as::<T>(&doc, t);
        if let Ok(v) = T::from_str(t) {
            written(v)
        }
    }
    match pick(15) {
        0 => go::<xs::Date>(w, &format!("2023-0{}-{}{}", &d[..1], d, ["", "Z", "-03:30"][pick(3) as usize])),
        1 => go::<xs::Time>(w, &format!("{}:59:{}.5", d, d)),
        2 => go::<xs::DateTime>(w, &format!("2024-02-{}T{}:00:00Z", d, d)),
        3 => go::<xs::DateTimeStamp>(w, &format!("2024-02-{}T{}:00:00Z", d, d)),
        4 => go::<xs::Duration>(w, &format!("P{}DT{}M", d, d)),
        5 => go::<xs::Decimal>(w, &format!("-{}.{}", d, d)),
        6 => go::<xs::Integer>(w, &format!("-{}", d)),
        7 => go::<xs::NonNegativeInteger>(w, &format!("{}0", d)),
        8 => go::<xs::PositiveInteger>(w, d),
        9 => go::<xs::NegativeInteger>(w, &format!("-{}", d)),
        10 => go::<xs::NonPositiveInteger>(w, &format!("-{}", d)),
        11 => go::<xs::GDay>(w, &format!("---{}Z", d)),
        12 => go::<xs::GMonth>(w, &format!("--{}", d)),
        13 => go::<xs::GMonthDay>(w, &format!("--{}-{}", d, d)),
        _ => match pick(2) {
            0 => go::<xs::GYear>(w, &format!("20{}+01:00", d)),
            _ => go::<xs::GYearMonth>(w, &format!("20{}-{}", d, d)),
        },
    }
}
