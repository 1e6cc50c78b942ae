//! Types that allow elements and attributes of any name.
#[path = "../util.rs"]
#[allow(dead_code)]
mod util;
#[allow(unused)]
mod gen {
    use std::str::FromStr;
    use xsd_macro_utils::*;
    use xsd_parser::generator::validator::Validate;
    use xsd_types::types as xs;
    use yaserde::{YaDeserialize, YaSerialize};
    use yaserde_derive::{YaDeserialize, YaSerialize};
    include!(concat!(env!("OUT_DIR"), "/wild.rs"));
}
use gen::*;
use rsxapi::*;
use util::*;
const NS: &str = "urn:wild";
fn digit() -> (String, i32) {
    let mut b = [0u8; 1];
    sym_from(&mut b, b"0123456789");
    (std::str::from_utf8(&b).unwrap_or("").to_string(), (b[0] & 15) as i32)
}
/// what stands at which place
struct Wild {
    at: [u32; 2],
    now: u32,
    n: usize,
    p: &'static str,
}
impl Wild {
    /// an element of another namespace, if there is one at this place
    fn element(&mut self, d: &mut Doc) {
        let (now, rich) = (self.now, self.at[0] == self.at[1]);
        self.now += 1;
        if !self.at.contains(&now) {
            return;
        }
        d.prefix("o:");
        let mut b = [0u8; 1];
        sym_from(&mut b, b"abyz");
        let name = ["box", std::str::from_utf8(&b).unwrap_or(""), "counts", "it", "cou"][if rich { pick(5) } else { 0 } as usize];
        d.child(name);
        d.attr("xmlns:o", "urn:other");
        match if rich { pick(6) } else { 2 } {
            0 => d.text(&text(self.n)),
            1 => d.attr("key", "7"),
            2 => {
                d.attr("o:key", "x");
                d.leaf("deep", "1");
                d.leaf("deep", "2");
            }
            3 => {
                d.child("deep");
                d.leaf("deeper", "3");
                d.close();
            }
            4 => {
                d.prefix("");
                d.leaf("plain", "");
            }
            _ => (),
        }
        d.close();
        d.prefix(self.p);
    }
    /// an attribute of another namespace
    fn attribute(&mut self, d: &mut Doc) {
        let now = self.now;
        self.now += 1;
        if self.at.contains(&now) {
            d.attr("xmlns:q", "urn:q");
            d.attr(["q:more", "q:key2"][pick(2) as usize], "1");
        }
    }
}
fn bag(d: &mut Doc, v: &mut Bag, w: &mut Wild) {
    w.attribute(d);
    let all = pick_bool();
    if all {
        v.key = Some(5);
        d.attr("key", "5");
    }
    w.element(d);
    let (t, i) = digit();
    d.leaf("count", &t);
    v.count = i;
    w.element(d);
    if all {
        v.label = Some("L".to_string());
        d.leaf("label", "L");
    }
    for _ in 0..pick(3) {
        d.child("item");
        w.attribute(d);
        w.element(d);
        d.leaf("size", "3");
        d.close();
        v.item.push(Item { size: 3 });
    }
    w.element(d);
}
#[no_mangle]
pub extern "C" fn h_wild_read() {
    let p = ["w:", "x:", ""][pick(3) as usize];
    let (i, j) = (pick(10), pick(10));
    assume(i <= j);
    let mut w = Wild { at: [i, j], now: 0, n: param(0), p };
    let mut d = Doc::new();
    let mut v = Bag::default();
    let big = pick_bool();
    d.open(p, if big { "BigBag" } else { "Bag" }, NS);
    bag(&mut d, &mut v, &mut w);
    if big {
        let t = "M".to_string();
        d.leaf("more", &t);
        w.element(&mut d);
        d.close();
        let v = BigBag { key: v.key, count: v.count, label: v.label, item: v.item, more: t };
        read(d, &v);
    } else {
        d.close();
        read(d, &v);
    }
}
fn main() {
    rsxapi::main(&[("h_wild_read", h_wild_read)]);
}
