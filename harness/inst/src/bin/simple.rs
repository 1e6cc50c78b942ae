//! Simple types built on one another, as elements and attributes.
#[path = "../util.rs"]
mod util;
#[allow(unused)]
mod gen {
    use std::str::FromStr;
    use xsd_macro_utils::*;
    use xsd_parser::generator::validator::Validate;
    use xsd_types::types as xs;
    use yaserde::{YaDeserialize, YaSerialize};
    use yaserde_derive::{YaDeserialize, YaSerialize};
    include!(concat!(env!("OUT_DIR"), "/simple.rs"));
}
use gen::*;
use rsxapi::*;
use std::str::FromStr;
use util::*;
use xsd_types::types as xs;
/// a number below 256 with `n` digits, as it is printed if `canon`
fn small(n: usize, canon: bool) -> (String, u8) {
    let mut b = vec![0u8; n];
    sym_from(&mut b, b"0123456789");
    let mut v = 0u32;
    for c in &b {
        v = v * 10 + (*c & 15) as u32;
    }
    assume(v < 256);
    assume(!canon || n == 1 || b[0] != b'0');
    (String::from_utf8(b).unwrap_or_default(), v as u8)
}
fn word(n: usize) -> String {
    let t = text(n);
    assume(!t.is_empty() && !t.contains(' '));
    t
}
fn nick(t: &str) -> Nick {
    Nick(Name(Word(t.to_string())))
}
fn total(v: u8) -> Total {
    Total(Count(v))
}
/// the items of a list, with white space between that is one space if `canon`
fn list(items: &[String], canon: bool) -> String {
    if canon {
        items.join(" ")
    } else {
        format!("{0}{1}{0}", ["", " ", "\n"][pick(3) as usize], items.join([" ", "  ", "\t"][pick(3) as usize]))
    }
}
fn grade() -> (&'static str, Grade) {
    match pick(3) {
        0 => ("1", Grade::_1),
        1 => ("-2", Grade::_2),
        _ => ("30", Grade::_30),
    }
}
fn record(n: usize, canon: bool) -> (Doc, Record) {
    let mut d = Doc::new();
    let mut v = Record::default();
    let focus = pick(15);
    let every = pick_bool();
    let pre = if focus == 14 { pick(3) } else { (focus + every as u32) % 3 };
    d.open(["s:", "x:", ""][pre as usize], "Record", "urn:simple");
    let is = |i: u32| every || i == focus;
    if is(0) {
        let (t, g) = if focus == 0 { grade() } else { ("30", Grade::_30) };
        d.attr("rank", t);
        v.rank = Some(g);
    }
    if is(1) {
        let (t, i) = if focus == 1 { small(1 + pick(3) as usize, canon) } else { ("3".to_string(), 3) };
        d.attr("of", &t);
        v.of = Some(total(i));
    }
    if is(2) {
        let mut w = vec!["u".to_string()];
        if focus == 2 {
            for i in 0..pick(3) {
                let t = if i == 0 { word(n) } else { "w".to_string() };
                // yaserde does not escape these again
                assume(!t.contains('<') && !t.contains('&'));
                w.push(t);
            }
        }
        d.attr("aka", &list(&w, canon || focus != 2));
        v.aka = Some(Names(w.iter().map(|t| nick(t)).collect()));
    }
    let t = if focus == 3 { text(n) } else { "bob".to_string() };
    assume(!t.is_empty());
    d.leaf("nick", &t);
    v.nick = nick(&t);
    if is(4) {
        let (t, i) = if focus == 4 { small(1 + pick(3) as usize, canon) } else { ("255".to_string(), 255) };
        d.leaf("total", &t);
        v.total = Some(total(i));
    }
    for _ in 0..if focus == 5 { 1 + pick(3) } else { 1 } {
        let (t, g) = if focus == 5 { grade() } else { ("-2", Grade::_2) };
        d.leaf("grade", t);
        v.grade.push(g);
    }
    if is(6) {
        let b = focus != 6 || pick_bool();
        d.leaf("mark", ["1", "30"][b as usize]);
        v.mark = Some(if b { Mark::_30 } else { Mark::_1 });
    }
    if is(7) {
        let b = focus != 7 || pick_bool();
        d.leaf("code", ["a-1", "B"][b as usize]);
        v.code = Some(if b { Code::B } else { Code::A1 });
    }
    let mut w = vec!["n".to_string()];
    if focus == 8 {
        for i in 0..pick(3) {
            w.push(if i == 0 { word(n) } else { "w".to_string() });
        }
    }
    d.leaf("names", &list(&w, canon || focus != 8));
    v.names = Names(w.iter().map(|t| nick(t)).collect());
    if is(9) {
        let mut w = vec!["1.50".to_string()];
        if focus == 9 {
            let (a, b) = (small(1, canon).0, small(2, false).0);
            w.push(format!("{}{a}.{b}", ["", "-"][pick(2) as usize]));
            // minus zero is printed without its sign
            assume(!canon || w[1] != "-0.00");
        }
        d.leaf("sums", &list(&w, canon || focus != 9));
        let mut l = vec![];
        for t in &w {
            match xs::Decimal::from_str(t) {
                Ok(x) => l.push(x),
                Err(_) => fail("a decimal is rejected"),
            }
        }
        v.sums = Some(Sums(l));
    }
    for i in 0..if focus == 10 { 1 + pick(3) } else { every as u32 } {
        let mut w = vec![("4".to_string(), 4)];
        if i == 0 && focus == 10 {
            w.push(small(2, canon));
        }
        let s: Vec<String> = w.iter().map(|x| x.0.clone()).collect();
        d.leaf("totals", &list(&s, canon || focus != 10 || i > 0));
        v.totals.push(Totals(w.iter().map(|x| total(x.1)).collect()));
    }
    if is(11) {
        let (t, b) = [("true", true), ("false", false), ("1", true), ("0", false)][if focus == 11 { pick(if canon { 2 } else { 4 }) } else { 0 } as usize];
        d.leaf("flag", t);
        v.flag = Some(Flag(b));
    }
    if is(12) {
        let s = if focus == 12 { small(2, false) } else { ("07".to_string(), 7) };
        assume(s.1 < 60);
        let t = format!("2004-02-29T23:59:{}{}", s.0, ["+00:00", "-13:45"][if focus == 12 { pick(2) } else { 1 } as usize]);
        match xs::DateTime::from_str(&t) {
            Ok(x) => v.stamp = Some(Stamp(x)),
            Err(_) => fail("an instant is rejected"),
        }
        d.leaf("stamp", &t);
    }
    if is(13) {
        let (t, i) = if focus == 13 { small(1 + pick(3) as usize, canon) } else { ("0".to_string(), 0) };
        d.leaf("inline", &t);
        v.inline = Some(record::InlineType(total(i)));
    }
    if is(14) {
        let b = focus != 14 || pick_bool();
        d.leaf("kind", ["x", "y"][b as usize]);
        v.kind = Some(if b { record::KindType::Y } else { record::KindType::X });
    }
    d.close();
    (d, v)
}
#[no_mangle]
pub extern "C" fn h_simple_read() {
    let (d, v) = record(param(0), false);
    read(d, &v)
}
#[no_mangle]
pub extern "C" fn h_simple_written() {
    let (d, v) = record(param(0), true);
    same(d, &v)
}
fn main() {
    rsxapi::main(&[
        ("h_simple_read", h_simple_read),
        ("h_simple_written", h_simple_written),
    ])
}
