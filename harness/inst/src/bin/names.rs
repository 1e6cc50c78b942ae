//! Names that need care, a schema without prefix for XML Schema.
#[path = "../util.rs"]
mod util;
#[allow(unused, non_camel_case_types)]
mod gen {
    use std::str::FromStr;
    use xsd_macro_utils::*;
    use xsd_parser::generator::validator::Validate;
    use xsd_types::types as xs;
    use yaserde::{YaDeserialize, YaSerialize};
    use yaserde_derive::{YaDeserialize, YaSerialize};
    include!(concat!(env!("OUT_DIR"), "/names.rs"));
}
use gen::*;
use rsxapi::*;
use util::*;

fn variant() -> (&'static str, Enum) {
    match pick(3) {
        0 => ("match", Enum::Match),
        1 => ("2", Enum::_2),
        _ => ("x-y", Enum::XY),
    }
}
fn selfish(d: &mut Doc, n: usize) -> SelfType {
    let mut v = SelfType::default();
    let focus = pick(5);
    let every = pick_bool();
    let (t, e) = if focus == 0 { variant() } else { ("2", Enum::_2) };
    v._type = e;
    d.attr("type", t);
    if every || focus == 1 {
        let t = if focus == 1 { text(n) } else { "q".to_string() };
        d.attr("crate", &t);
        v._crate = Some(t);
        d.attr("a.b-c", "abc");
        v.a_b_c = Some("abc".to_string());
    }
    if every || focus == 2 {
        let mut b = *b"400";
        sym_from(&mut b[1..], b"0123456789");
        d.attr("HTTPStatus", std::str::from_utf8(&b).unwrap_or(""));
        v.http_status = Some(400 + (b[1] & 15) as u16 * 10 + (b[2] & 15) as u16);
    }
    let t = if focus == 3 { text(n) } else { "f".to_string() };
    d.leaf("fn", &t);
    v._fn = Try(t);
    if every || focus == 4 {
        let t = if focus == 4 { text(n) } else { "m".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("Mixed-Case.name", &t);
        v.mixed_case_name = Some(t);
        for _ in 0..pick(3) {
            let mut b = [0u8; 1];
            sym_from(&mut b, b"0123456789");
            d.leaf("_2x", std::str::from_utf8(&b).unwrap_or(""));
            v._2x.push((b[0] & 15) as i32);
        }
    }
    if every || focus == 3 {
        d.leaf("ünicode", "ü");
        v.ünicode = Some(Ärger(Try("ü".to_string())));
    }
    if pick_bool() {
        for _ in 0..1 + pick(2) {
            let mut o = Other::default();
            d.child("Self");
            if pick_bool() {
                d.attr("dyn", "5");
                o._dyn = Some(5);
            }
            d.leaf("box", "b");
            o._box = "b".to_string();
            d.close();
            v._self.push(o);
        }
    }
    v
}
fn doc() -> (Doc, SelfType) {
    let mut d = Doc::new();
    d.open(["n:", "", "q:"][pick(3) as usize], "self-type", "urn:names");
    let v = selfish(&mut d, param(0));
    d.close();
    (d, v)
}
#[no_mangle]
pub extern "C" fn h_names_read() {
    let (d, v) = doc();
    read(d, &v)
}
#[no_mangle]
pub extern "C" fn h_names_written() {
    let (d, v) = doc();
    same(d, &v)
}
fn main() {
    rsxapi::main(&[("h_names_read", h_names_read), ("h_names_written", h_names_written)])
}
