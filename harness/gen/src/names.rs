use crate::rs::*;
use crate::xsd::*;
use rsxapi::*;
fn symchar(x: &mut String, first: bool) {
    match pick(5) {
        0 => x.push('\u{e9}'),
        1 => x.push('\u{42f}'),
        2 => x.push('\u{6f22}'),
        _ => {
            let mut b = [0u8; 1];
            sym(&mut b);
            let c = b[0];
            let start = ((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | (c == b'_');
            if first {
                assume(start)
            } else {
                assume(start | ((c >= b'0') & (c <= b'9')) | (c == b'-') | (c == b'.'))
            }
            x.push(c as char);
        }
    }
}
/// an XML name: `n` free characters, or a word of the language with `m` free characters around it
pub fn ncname(n: u32, m: u32) -> String {
    let mut x = String::new();
    match pick(3) {
        0 => {
            for i in 0..n {
                symchar(&mut x, i == 0);
            }
        }
        1 => {
            x += KEYWORDS[pick(KEYWORDS.len() as u32) as usize];
            for _ in 0..m {
                symchar(&mut x, false)
            }
        }
        _ => {
            let k = KEYWORDS[pick(KEYWORDS.len() as u32) as usize].as_bytes();
            x.push(k[0].to_ascii_uppercase() as char);
            x.extend(k[1..].iter().map(|c| *c as char));
            for _ in 0..m {
                symchar(&mut x, false)
            }
        }
    }
    x
}
/// at least one letter or digit
pub fn has_alnum(x: &str) -> bool {
    x.chars().any(|c| c.is_alphanumeric())
}
/// elements and attributes
#[no_mangle]
pub extern "C" fn h_name_field() {
    let kind = pick(5);
    let n = ncname(param(0) as u32, param(1) as u32);
    assume(has_alnum(&n));
    let (d, ty) = match kind {
        0 => (format!("<xs:sequence><xs:element name=\"{n}\" type=\"xs:int\"/></xs:sequence>"), "i32"),
        1 => (format!("<xs:attribute name=\"{n}\" type=\"xs:int\" use=\"required\"/>"), "i32"),
        2 => (format!("<xs:sequence><xs:element name=\"{n}\"><xs:complexType><xs:sequence><xs:element name=\"z\" type=\"xs:int\"/></xs:sequence></xs:complexType></xs:element></xs:sequence>"), ""),
        3 => (format!("<xs:sequence><xs:element ref=\"t:{n}\"/></xs:sequence>"), ""),
        _ => (format!("<xs:attribute ref=\"o:{n}\" use=\"required\"/>"), ""),
    };
    let out = generate(&schema(&format!("<xs:complexType name=\"Foo\">{d}</xs:complexType>")));
    let items = read(&out);
    no_clash(&items);
    let f = fields(&items, "Foo", "the type is missing");
    check(f.len() == 1, "the declaration has not one field");
    let f = &f[0];
    check(!is_keyword(f.name), "a field has a keyword as its name");
    check(f.xml() == n, "the XML name of a field is not the name in the schema");
    check(f.m.has("attribute") == (kind == 1 || kind == 4), "an attribute is generated as an element or the reverse");
    if !ty.is_empty() {
        check(f.ty == ty, "a field has the wrong type");
    }
    match kind {
        0 | 2 | 3 => check(f.m.get("prefix") == Some("t"), "an element lacks the prefix of its namespace"),
        1 => check(f.m.get("prefix").is_none(), "a local attribute has a prefix"),
        _ => check(f.m.get("prefix") == Some("o"), "an attribute lacks the prefix of its namespace"),
    }
    if kind == 2 {
        check(matches!(resolve(&items, &items, &f.ty), Some(Item { kind: Kind::Struct(_), .. })), "the anonymous type is missing");
    }
    for s in f.ty.split("::") {
        check(!is_keyword(s), "a field has a keyword as its type");
    }
    reach(1 + kind);
}
/// types
#[no_mangle]
pub extern "C" fn h_name_type() {
    let kind = pick(6);
    let hashed = kind == 0 || kind == 5;
    let mut n = if hashed { ncname(param(0) as u32, param(1) as u32) } else { ncname(param(2) as u32, param(3) as u32) };
    // complex types are kept in a hash map by name: hashing free bytes is out of the solver's reach
    if hashed {
        conc(unsafe { n.as_bytes_mut() })
    }
    assume(has_alnum(&n));
    let z = "<xs:sequence><xs:element name=\"z\" type=\"xs:int\"/></xs:sequence>";
    let d = match kind {
        0 => format!("<xs:complexType name=\"{n}\">{z}</xs:complexType>"),
        1 => format!("<xs:simpleType name=\"{n}\"><xs:restriction base=\"xs:string\"/></xs:simpleType>"),
        2 => format!("<xs:simpleType name=\"{n}\"><xs:restriction base=\"xs:string\"><xs:enumeration value=\"on\"/></xs:restriction></xs:simpleType>"),
        3 => format!("<xs:simpleType name=\"{n}\"><xs:list itemType=\"xs:int\"/></xs:simpleType>"),
        4 => format!("<xs:simpleType name=\"{n}\"><xs:union memberTypes=\"xs:int xs:string\"/></xs:simpleType>"),
        _ => format!("<xs:complexType name=\"{n}\"><xs:complexContent><xs:extension base=\"t:Zzz\">{z}</xs:extension></xs:complexContent></xs:complexType>"),
    };
    let out = generate(&schema(&format!("{d}<xs:complexType name=\"Zzzfoo\"><xs:sequence><xs:element name=\"a\" type=\"t:{n}\"/></xs:sequence></xs:complexType>")));
    let items = read(&out);
    no_clash(&items);
    let f = fields(&items, "Zzzfoo", "the type is missing");
    check(f.len() == 1, "the declaration has not one field");
    check(!is_keyword(&f[0].ty), "a type has a keyword as its name");
    match find(&items, bare(&f[0].ty)) {
        Some(i) => check(
            match (&i.kind, kind) {
                (Kind::Struct(_), 0 | 5) | (Kind::Tuple(_), 1 | 3) | (Kind::Enum(_), 2 | 4) => true,
                _ => false,
            },
            "a reference to a type does not name the type",
        ),
        None => fail("a reference to a type does not name the type"),
    }
    reach(1 + kind);
}
