//! Documents of one type with elements and attributes of every kind.
#[path = "../util.rs"]
mod util;
#[allow(unused)]
mod gen {
    use std::str::FromStr;
    use xsd_macro_utils::*;
    use xsd_parser::generator::validator::Validate;
    use xsd_types::types as xs;
    use yaserde::{YaDeserialize, YaSerialize};
    use yaserde_derive::{YaDeserialize, YaSerialize};
    include!(concat!(env!("OUT_DIR"), "/order.rs"));
}
use util::*;
use gen::*;
use rsxapi::*;
use std::str::FromStr;
use xsd_types::types as xs;

fn number(n: usize, canon: bool) -> (String, i32) {
    let neg = pick_bool();
    let mut b = vec![0u8; 1 + pick(n as u32) as usize];
    sym_from(&mut b, b"0123456789");
    let mut v = 0i32;
    for c in &b {
        v = v * 10 + (*c & 15) as i32;
    }
    assume(!canon || b[0] != b'0' || b.len() == 1 && !neg);
    let s = format!("{}{}", if neg { "-" } else { "" }, std::str::from_utf8(&b).unwrap_or(""));
    (s, if neg { -v } else { v })
}
fn sizes(n: usize, canon: bool) -> (String, Sizes) {
    let mut t = String::new();
    let mut v = vec![];
    for i in 0..pick(n as u32 + 1) {
        if i > 0 {
            t.push(' ');
        }
        let mut b = [0u8; 2];
        sym_from(&mut b, b"0123456789");
        assume(!canon || b[0] != b'0');
        t.push_str(std::str::from_utf8(&b).unwrap_or(""));
        v.push((b[0] & 15) * 10 + (b[1] & 15));
    }
    (t, Sizes(v))
}
fn colour() -> (&'static str, Colour) {
    match pick(3) {
        0 => ("red", Colour::Red),
        1 => ("dark-blue", Colour::DarkBlue),
        _ => ("Green", Colour::Green),
    }
}
/// which of the optional parts are there: the one in focus, all, all but it, none
fn there(mode: u32, focus: bool) -> bool {
    match mode {
        0 => focus,
        1 => true,
        2 => !focus,
        _ => false,
    }
}
fn item(n: usize, focus: u32, canon: bool) -> (Doc, Item) {
    let mode = pick(4);
    let mut d = Doc::new();
    let mut v = Item::default();
    let p = ["o:", "ns:", ""][pick(3) as usize];
    d.open(p, "Item", "urn:order");
    let (t, i) = if focus == 0 { number(n, canon) } else { ("7".to_string(), 7) };
    d.attr("id", &t);
    v.id = i;
    if there(mode, focus == 1) {
        let t = if focus == 1 { text(n) } else { "w".to_string() };
        d.attr("note", &t);
        v.note = Some(t);
    }
    let t = if focus == 2 { text(n) } else { "x".to_string() };
    d.leaf("name", &t);
    v.name = t;
    if there(mode, focus == 3) {
        let (t, i) = if focus == 3 { number(n, canon) } else { ("8".to_string(), 8) };
        d.leaf("qty", &t);
        v.qty = Some(i);
    }
    if there(mode, focus == 4) {
        for i in 0..if focus == 4 { 1 + pick(3) } else { 1 } {
            let t = if focus == 4 && i < 2 { text(n) } else { "y".to_string() };
            // an empty one is left out by yaserde
            assume(!t.is_empty());
            d.leaf("tag", &t);
            v.tag.push(t);
        }
    }
    let t = if focus == 5 { text(n) } else { "z".to_string() };
    d.leaf("code", &t);
    v.code = Code(t);
    if there(mode, focus == 6) {
        let (t, i) = if focus == 6 { number(n, canon) } else { ("9".to_string(), 9) };
        d.leaf("count", &t);
        v.count = Some(Count(i));
    }
    if there(mode, focus == 7) {
        for i in 0..if focus == 7 { 1 + pick(2) } else { 1 } {
            let (t, s) = if focus == 7 && i < 1 { sizes(n, canon) } else { ("1 2".to_string(), Sizes(vec![1, 2])) };
            d.leaf("sizes", &t);
            v.sizes.push(s);
        }
    }
    if there(mode, focus == 8) {
        let (t, c) = if focus == 8 { colour() } else { ("red", Colour::Red) };
        d.leaf("type", t);
        v._type = Some(c);
    }
    if there(mode, focus == 9) {
        let mut b = *b"2000";
        if focus == 9 {
            sym_from(&mut b[1..], b"0123456789");
        }
        let t = std::str::from_utf8(&b).unwrap_or("");
        d.leaf("since", t);
        v.since = xs::GYear::from_str(t).ok();
    }
    d.close();
    (d, v)
}
/// a document of the type gives exactly what it says
#[no_mangle]
pub extern "C" fn h_item_read() {
    let (d, v) = item(param(0), pick(10), false);
    let s = d.end();
    note(s.as_bytes());
    match yaserde::de::from_str::<Item>(&s) {
        Ok(w) => {
            check(w.id == v.id && w.note == v.note, "an attribute has another value than the document");
            check(w.name == v.name && w.qty == v.qty, "an element has another value than the document");
            check(w.tag == v.tag && w.sizes == v.sizes, "a repeated element has other values than the document");
            check(w.code == v.code && w.count == v.count, "an element of a named type has another value than the document");
            check(w._type == v._type, "an element of an enumeration has another value than the document");
            check(w.since == v.since, "an element of a date type has another value than the document");
        }
        Err(_) => fail("a document of the schema is rejected"),
    }
    reach(1)
}
/// what is written is read back
#[no_mangle]
pub extern "C" fn h_item_written() {
    let (d, v) = item(param(0), pick(10), true);
    same(d, &v)
}
fn main() {
    rsxapi::main(&[
        ("h_item_read", h_item_read),
        ("h_item_written", h_item_written),
    ])
}
