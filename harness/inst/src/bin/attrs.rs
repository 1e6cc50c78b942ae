//! Attributes of every kind of type.
#[path = "../util.rs"]
mod util;
#[allow(unused)]
mod gen {
    use std::str::FromStr;
    use xsd_macro_utils::*;
    use xsd_parser::generator::validator::Validate;
    use xsd_types::types as xs;
    use yaserde::{YaDeserialize, YaSerialize};
    use yaserde_derive::{YaDeserialize, YaSerialize};
    include!(concat!(env!("OUT_DIR"), "/attrs.rs"));
}
use util::*;
use gen::*;
use rsxapi::*;
use std::str::FromStr;
use xsd_types::types as xs;
fn digits(n: usize, canon: bool) -> String {
    let mut b = vec![0u8; n];
    sym_from(&mut b, b"0123456789");
    assume(!canon || n == 1 || b[0] != b'0');
    String::from_utf8(b).unwrap_or_default()
}
fn all(n: usize, canon: bool) -> (Doc, All) {
    let mut d = Doc::new();
    let mut v = All::default();
    d.open(["a:", ""][pick(2) as usize], "All", "urn:attrs");
    let focus = pick(9);
    let every = pick_bool();
    let is = |i: u32| every || i == focus;
    let c = if focus == 0 { digits(2, canon) } else { "5".to_string() };
    d.attr("count", &c);
    v.count = Count::from_str(&c).unwrap_or_default();
    if is(1) {
        let b = pick_bool();
        d.attr("flag", ["false", "true"][b as usize]);
        v.flag = Some(b);
    }
    if is(2) {
        let t = if focus == 2 { text(n) } else { "q".to_string() };
        // yaserde does not escape these again
        assume(!t.contains('<') && !t.contains('&'));
        d.attr("code", &t);
        v.code = Some(Code(t));
    }
    if is(3) {
        let (t, l) = if focus == 3 {
            let (a, b) = (digits(2, canon), digits(1, canon));
            (format!("{} {}", a, b), Sizes(vec![a.parse().unwrap_or(0), b.parse().unwrap_or(0)]))
        } else {
            ("1".to_string(), Sizes(vec![1]))
        };
        d.attr("sizes", &t);
        v.sizes = Some(l);
    }
    if is(4) {
        let t = if focus == 4 { format!("---0{}", digits(1, canon)) } else { "---01".to_string() };
        match xs::GDay::from_str(&t) {
            Ok(g) => v.day = Some(g),
            Err(_) => assume(false),
        }
        d.attr("day", &t);
    }
    if is(5) {
        let b = pick_bool();
        d.attr("colour", ["red", "dark-blue"][b as usize]);
        v.colour = Some(if b { Colour::DarkBlue } else { Colour::Red });
    }
    if is(6) {
        let t = if focus == 6 { format!("-1{}", digits(2, false)) } else { "18446744073709551616".to_string() };
        d.attr("big", &t);
        v.big = xs::Integer::from_str(&t).ok();
    }
    if is(7) {
        let t = if focus == 7 { format!("-{}", digits(2, canon)) } else { "-128".to_string() };
        d.attr("byte", &t);
        v.byte = t.parse().ok();
    }
    if is(8) {
        let t = if focus == 8 { format!("1{}:00:00", digits(1, canon)) } else { "00:00:00".to_string() };
        d.attr("at", &t);
        v.at = xs::Time::from_str(&t).ok();
    }
    if pick_bool() {
        d.close();
    } else {
        d.close_tag();
    }
    (d, v)
}
#[no_mangle]
pub extern "C" fn h_attrs_read() {
    let (d, v) = all(param(0), false);
    read(d, &v)
}
#[no_mangle]
pub extern "C" fn h_attrs_written() {
    let (d, v) = all(param(0), true);
    same(d, &v)
}
fn main() {
    rsxapi::main(&[
        ("h_attrs_read", h_attrs_read),
        ("h_attrs_written", h_attrs_written),
    ])
}
