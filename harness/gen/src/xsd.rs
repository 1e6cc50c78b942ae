//! Writing schemas and running the real parser and generator on them.
use rsxapi::*;
pub const XS: &str = "http://www.w3.org/2001/XMLSchema";
pub const TNS: &str = "http://example.com/t";
/// a schema whose XSD prefix is xs and whose target namespace has the prefix t
pub fn schema(body: &str) -> String {
    format!("<xs:schema xmlns:xs=\"{XS}\" xmlns:t=\"{TNS}\" targetNamespace=\"{TNS}\">{body}</xs:schema>")
}
pub fn generate(x: &str) -> String {
    note(x.as_bytes());
    let f = match xsd_parser::parser::parse(x) {
        Ok(f) => f,
        Err(_) => fail("the schema is rejected"),
    };
    let s = xsd_parser::generator::builder::GeneratorBuilder::default().build().generate_rs_file(&f);
    note(s.as_bytes());
    s
}
/// up to `n` symbolic digits and their value
pub fn number(n: usize) -> (String, u32) {
    let mut b = vec![0u8; n];
    sym(&mut b);
    let mut v = 0;
    for x in &b {
        assume((*x >= b'0') & (*x <= b'9'));
        v = v * 10 + (*x & 15) as u32;
    }
    (unsafe { String::from_utf8_unchecked(b) }, v)
}
/// the number of items wanted, by what the schema says
pub fn wrapped(ty: &str, min: u32, max: Option<u32>) -> String {
    if max.map_or(true, |m| m > 1) {
        format!("Vec<{ty}>")
    } else if min == 0 {
        format!("Option<{ty}>")
    } else {
        ty.to_string()
    }
}
/// `n` free lower-case letters
pub fn letters(n: usize) -> String {
    let mut b = vec![0u8; n];
    sym(&mut b);
    for x in &b {
        assume((*x >= b'a') & (*x <= b'z'));
    }
    unsafe { String::from_utf8_unchecked(b) }
}
/// a lower-case name as a type name
pub fn upper(n: &str) -> String {
    let mut r = n.to_string();
    r[..1].make_ascii_uppercase();
    r
}
