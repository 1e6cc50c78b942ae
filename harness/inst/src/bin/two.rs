//! A schema that uses another.
#[path = "../util.rs"]
mod util;
#[allow(unused)]
mod mo {
    use std::str::FromStr;
    use xsd_macro_utils::*;
    use xsd_parser::generator::validator::Validate;
    use xsd_types::types as xs;
    use yaserde::{YaDeserialize, YaSerialize};
    use yaserde_derive::{YaDeserialize, YaSerialize};
    include!(concat!(env!("OUT_DIR"), "/other.rs"));
}
#[allow(unused)]
mod m {
    use super::mo;
    use std::str::FromStr;
    use xsd_macro_utils::*;
    use xsd_parser::generator::validator::Validate;
    use xsd_types::types as xs;
    use yaserde::{YaDeserialize, YaSerialize};
    use yaserde_derive::{YaDeserialize, YaSerialize};
    include!(concat!(env!("OUT_DIR"), "/main.rs"));
}
use rsxapi::*;
use util::*;
fn len(n: usize, canon: bool) -> (String, mo::Len) {
    let mut b = vec![0u8; n];
    sym_from(&mut b, b"0123456789");
    assume(!canon || n == 1 || b[0] != b'0');
    let mut v = 0i32;
    for c in &b {
        v = v * 10 + (*c & 15) as i32;
    }
    let s = String::from_utf8(b).unwrap_or_default();
    if v > 0 && pick_bool() {
        (format!("-{s}"), mo::Len(-v))
    } else {
        (s, mo::Len(v))
    }
}
/// how the two namespaces are declared
struct Ns {
    m: &'static str,
    o: &'static str,
    /// where the other namespace is used
    local: bool,
}
fn enter(d: &mut Doc, ns: &Ns) {
    d.prefix(ns.o);
}
fn leave(d: &mut Doc, ns: &Ns) {
    d.prefix(ns.m);
}
fn declare(d: &mut Doc, ns: &Ns) {
    if ns.local {
        let x = if ns.o.is_empty() { "xmlns".to_string() } else { format!("xmlns:{}", &ns.o[..ns.o.len() - 1]) };
        d.attr(&x, "urn:other");
    }
}
fn size(d: &mut Doc, ns: &Ns, focus: bool, n: usize, canon: bool) -> mo::Size {
    let mut v = mo::Size::default();
    if !focus || pick_bool() {
        let b = focus;
        d.attr("unit", ["mm", "km"][b as usize]);
        v.unit = Some(if b { mo::Unit::Km } else { mo::Unit::Mm });
    }
    enter(d, ns);
    d.child("w");
    declare(d, ns);
    // one of the three parts is free
    let part = if focus { pick(3) } else { 0 };
    let (t, l) = if part == 1 { len(2, canon) } else { ("5".to_string(), mo::Len(5)) };
    d.text(&t);
    d.close();
    v.w = l;
    if part == 2 {
        let t = text(n);
        assume(!t.is_empty());
        d.child("h");
        declare(d, ns);
        d.text(&t);
        d.close();
        v.h = Some(t);
    }
    leave(d, ns);
    v
}
fn other(d: &mut Doc, ns: &Ns, n: usize) -> mo::Item {
    let t = text(n);
    enter(d, ns);
    d.child("size");
    declare(d, ns);
    d.text(&t);
    d.close();
    leave(d, ns);
    mo::Item { size: t }
}
fn item(n: usize, canon: bool) -> (Doc, m::Item) {
    let mut d = Doc::new();
    let mut v = m::Item::default();
    let ns = [
        Ns { m: "m:", o: "o:", local: false },
        Ns { m: "", o: "o:", local: false },
        Ns { m: "o:", o: "m:", local: false },
        Ns { m: "m:", o: "", local: true },
        Ns { m: "m:", o: "a:", local: true },
        Ns { m: "m:", o: "", local: false },
    ];
    let k = pick(if canon { 2 } else { 6 });
    let ns = &ns[k as usize];
    d.open(ns.m, "Item", "urn:main");
    if !ns.local {
        let x = if ns.o.is_empty() { "xmlns".to_string() } else { format!("xmlns:{}", &ns.o[..ns.o.len() - 1]) };
        d.attr(&x, "urn:other");
    }
    let focus = pick(10);
    let every = k == 0 && pick_bool();
    let is = |i: u32| every || i == focus;
    let b = focus == 0 && pick_bool();
    d.attr("of", ["mm", "km"][b as usize]);
    v.of = if b { mo::Unit::Km } else { mo::Unit::Mm };
    v.id = if focus == 1 { text(n) } else { "i".to_string() };
    d.leaf("id", &v.id);
    for i in 0..if focus == 2 { 1 + pick(2) } else { 1 } {
        d.child("size");
        v.size.push(size(&mut d, ns, focus == 2 && i == 0, n, canon));
        d.close();
    }
    if is(3) {
        d.child("other");
        v.other = Some(other(&mut d, ns, if focus == 3 { n } else { 0 }));
        d.close();
    }
    if is(4) {
        let (t, l) = if focus == 4 { len(2, canon) } else { ("-7".to_string(), mo::Len(-7)) };
        d.leaf("step", &t);
        v.step = Some(m::Step(l));
    }
    if is(5) {
        let (t, l) = if focus == 5 { len(2, canon) } else { ("70".to_string(), mo::Len(70)) };
        d.leaf("len", &t);
        v.len = Some(l);
    }
    if is(6) {
        let (a, b) = (if focus == 6 { len(1, canon) } else { ("1".to_string(), mo::Len(1)) }, ("-20".to_string(), mo::Len(-20)));
        d.leaf("lens", &format!("{} {}", a.0, b.0));
        v.lens = Some(m::Lens(vec![a.1, b.1]));
    }
    if is(7) {
        d.child("deep");
        let mut k = m::item::DeepType::default();
        d.child("extent");
        k.extent = size(&mut d, ns, focus == 7, n, canon);
        d.close();
        if every {
            d.child("item");
            k.item = Some(other(&mut d, ns, 0));
            d.close();
        }
        v.deep = Some(k);
        d.close();
    }
    if is(8) {
        for i in 0..if focus == 8 { 1 + pick(2) } else { 1 } {
            enter(&mut d, ns);
            d.child("pack");
            declare(&mut d, ns);
            let mut p = mo::Pack::default();
            p.id = if focus == 8 && i == 0 { text(n) } else { "p".to_string() };
            d.leaf("id", &p.id);
            for k in 0..if i == 0 { pick(3) } else { 0 } {
                d.child("in");
                let mut x = mo::pack::InType::default();
                if k == 0 {
                    let (t, l) = if focus == 8 { len(1, canon) } else { ("8".to_string(), mo::Len(8)) };
                    d.attr("no", &t);
                    x.no = Some(l);
                }
                d.close();
                p._in.push(x);
            }
            d.close();
            v.pack.push(p);
            leave(&mut d, ns);
        }
    }
    d.close();
    (d, v)
}
#[no_mangle]
pub extern "C" fn h_two_read() {
    let (d, v) = item(param(0), false);
    read(d, &v)
}
#[no_mangle]
pub extern "C" fn h_two_written() {
    let (d, v) = item(param(0), true);
    same(d, &v)
}
fn main() {
    rsxapi::main(&[
        ("h_two_read", h_two_read),
        ("h_two_written", h_two_written),
    ])
}
