//! Derived types, choices, anonymous types and references.
#[path = "../util.rs"]
mod util;
#[allow(unused)]
mod gen {
    use std::str::FromStr;
    use xsd_macro_utils::*;
    use xsd_parser::generator::validator::Validate;
    use xsd_types::types as xs;
    use yaserde::{YaDeserialize, YaSerialize};
    use yaserde_derive::{YaDeserialize, YaSerialize};
    include!(concat!(env!("OUT_DIR"), "/shapes.rs"));
}
use util::*;
use gen::*;
use rsxapi::*;
pub fn small() -> (String, i32) {
    let mut b = [0u8; 1];
    sym_from(&mut b, b"0123456789");
    (std::str::from_utf8(&b).unwrap_or("").to_string(), (b[0] & 15) as i32)
}
fn point(d: &mut Doc, name: &str) -> Point {
    let (x, i) = small();
    d.child(name);
    let mut v = Point { x: i, y: None };
    if pick_bool() {
        d.attr("y", "-4");
        v.y = Some(-4);
    }
    d.attr("x", &x);
    if pick_bool() {
        d.close();
    } else {
        d.close_tag();
    }
    v
}
fn shape(d: &mut Doc, n: usize) -> Shape {
    let mut v = Shape::default();
    let id = n > 0 && pick_bool();
    if id || pick_bool() {
        v.id = Some(text(if id { n } else { 0 }));
        d.attr("id", v.id.as_deref().unwrap_or(""));
    }
    v.kind = text(if id { 0 } else { n });
    d.leaf("kind", &v.kind);
    v
}
fn circle(d: &mut Doc, n: usize) -> Circle {
    let mut v = Circle::default();
    d.attr("unit", "mm");
    v.unit = "mm".to_string();
    let s = shape(d, n);
    v.id = s.id;
    v.kind = s.kind;
    for _ in 0..1 + pick(2) {
        let (t, i) = small();
        d.leaf("size", &t);
        v.size.push(i);
    }
    v.centre = point(d, "centre");
    v
}
fn square(d: &mut Doc, n: usize) -> Square {
    let mut v = Square::default();
    let unit = pick_bool();
    v.unit = text(if unit { n } else { 0 });
    d.attr("unit", &v.unit);
    let s = shape(d, if unit { 0 } else { n });
    v.id = s.id;
    v.kind = s.kind;
    for _ in 0..1 + pick(3) {
        let (t, i) = small();
        d.leaf("size", &t);
        v.size.push(i);
    }
    v
}
/// names that begin or end with one another: the base's parts, then those of each derived type
fn kin(d: &mut Doc, n: usize) -> KithKin {
    let mut v = KithKin::default();
    let focus = pick(6);
    let with = |k: u32| if k == focus { Some(text(n)) } else if pick_bool() { Some(["A", "B", "C", "D", "E", "F"][k as usize].to_string()) } else { None };
    v.i = with(0).unwrap_or("I".to_string());
    v.id = with(1);
    v.ids = with(2);
    v.grid = with(3);
    v.surname = with(4).unwrap_or("S".to_string());
    v.names = with(5);
    // yaserde reads an empty optional text as none
    assume(v.names.as_deref() != Some(""));
    v.name = "N".to_string();
    v.nam = "M".to_string();
    d.attr("i", &v.i);
    for (name, t) in [("grid", &v.grid), ("id", &v.id), ("ids", &v.ids)] {
        if let Some(t) = t {
            d.attr(name, t);
        }
    }
    d.leaf("name", &v.name);
    d.leaf("surname", &v.surname);
    if let Some(t) = &v.names {
        d.leaf("names", t);
    }
    d.leaf("nam", &v.nam);
    v
}
const NS: &str = "urn:shapes";
fn prefix() -> &'static str {
    ["s:", "x:", ""][pick(3) as usize]
}
fn derived(n: usize, f: impl Fn(Doc, &Square), g: impl Fn(Doc, &Circle), h: impl Fn(Doc, &Shape), k: impl Fn(Doc, &KithKin)) {
    let mut d = Doc::new();
    match pick(4) {
        3 => {
            d.open(prefix(), "KithKin", NS);
            let v = kin(&mut d, n);
            d.close();
            k(d, &v)
        }
        0 => {
            d.open(prefix(), "Square", NS);
            let v = square(&mut d, n);
            d.close();
            f(d, &v)
        }
        1 => {
            d.open(prefix(), "Circle", NS);
            let v = circle(&mut d, n);
            d.close();
            g(d, &v)
        }
        _ => {
            d.open(prefix(), "Shape", NS);
            let v = shape(&mut d, n);
            d.close();
            h(d, &v)
        }
    }
}
#[no_mangle]
pub extern "C" fn h_derived_read() {
    derived(param(0), |d, v| read(d, v), |d, v| read(d, v), |d, v| read(d, v), |d, v| read(d, v))
}
#[no_mangle]
pub extern "C" fn h_derived_written() {
    derived(param(0), |_, v| back(v), |_, v| back(v), |d, v| same(d, v), |_, v| back(v))
}
fn area(d: &mut Doc, n: usize) -> Area {
    let mut v = Area::default();
    if pick_bool() {
        d.attr("name", "n");
        v.name = Some("n".to_string());
    }
    v.area_choice = match pick(4) {
        0 => {
            d.child("round");
            let c = circle(d, n);
            d.close();
            AreaChoice::Round(c)
        }
        1 => AreaChoice::Dot(point(d, "dot")),
        2 => {
            let t = text(n);
            d.leaf("label", &t);
            AreaChoice::Label(t)
        }
        _ => {
            let mut l = vec![];
            for _ in 0..1 + pick(3) {
                let (t, i) = small();
                d.leaf("many", &t);
                l.push(i);
            }
            AreaChoice::Many(l)
        }
    };
    v
}
fn mixed(d: &mut Doc, n: usize) -> Mixed {
    let mut v = Mixed::default();
    v.first = text(n);
    // yaserde loses a choice after an empty text
    assume(!v.first.is_empty());
    d.leaf("first", &v.first);
    v.mixed_choice = if pick_bool() {
        let (t, i) = small();
        d.leaf("a", &t);
        mixed::MixedChoice::A(i)
    } else {
        mixed::MixedChoice::B(point(d, "b"))
    };
    if pick_bool() {
        let t = "l".to_string();
        d.leaf("last", &t);
        v.last = Some(t);
    }
    v
}
fn choice(n: usize, f: impl Fn(Doc, &Area), g: impl Fn(Doc, &Mixed)) {
    let mut d = Doc::new();
    if pick_bool() {
        d.open(prefix(), "Area", NS);
        let v = area(&mut d, n);
        d.close();
        f(d, &v)
    } else {
        d.open(prefix(), "Mixed", NS);
        let v = mixed(&mut d, n);
        d.close();
        g(d, &v)
    }
}
#[no_mangle]
pub extern "C" fn h_choice_read() {
    choice(param(0), |d, v| read(d, v), |d, v| read(d, v))
}
#[no_mangle]
pub extern "C" fn h_choice_written() {
    // yaserde writes no attributes of an alternative
    choice(
        param(0),
        |_, v| match v.area_choice {
            AreaChoice::Label(_) | AreaChoice::Many(_) => back(v),
            _ => reach(2),
        },
        |_, v| match v.mixed_choice {
            mixed::MixedChoice::A(_) => back(v),
            _ => reach(2),
        },
    )
}
fn drawing(n: usize) -> (Doc, Drawing) {
    let mut d = Doc::new();
    let mut v = Drawing::default();
    let focus = pick(4);
    d.open(if focus == 0 { prefix() } else { "s:" }, "drawing", NS);
    v.title = if focus == 1 { text(n) } else { "t".to_string() };
    d.leaf("title", &v.title);
    for i in 0..1 + pick(n as u32 + 1) {
        d.child("layer");
        let mut l = drawing::LayerType::default();
        let (t, no) = if focus == 0 { small() } else { ("6".to_string(), 6) };
        d.attr("no", &t);
        l.no = no;
        if i == 0 && focus == 2 {
            for _ in 0..pick(3) {
                l.dot.push(point(&mut d, "dot"));
            }
        }
        if pick_bool() {
            d.child("style");
            let mut s = drawing::layer_type::StyleType::default();
            if pick_bool() {
                let t = if i == 0 && focus == 3 { text(n) } else { "p".to_string() };
                d.attr("pen", &t);
                s.pen = Some(t);
            }
            l.style = Some(s);
            d.close();
        }
        d.close();
        v.layer.push(l);
    }
    if pick_bool() {
        d.child("shape");
        v.shape = Some(shape(&mut d, if focus == 0 { n } else { 0 }));
        d.close();
    }
    d.close();
    (d, v)
}
#[no_mangle]
pub extern "C" fn h_nested_read() {
    let (d, v) = drawing(param(0));
    read(d, &v)
}
#[no_mangle]
pub extern "C" fn h_nested_written() {
    let (d, v) = drawing(param(0));
    same(d, &v)
}
fn main() {
    rsxapi::main(&[
        ("h_choice_read", h_choice_read),
        ("h_choice_written", h_choice_written),
        ("h_derived_read", h_derived_read),
        ("h_derived_written", h_derived_written),
        ("h_nested_read", h_nested_read),
        ("h_nested_written", h_nested_written),
    ])
}
