use crate::rs::*;
use crate::xsd::*;
use rsxapi::*;
/// a number of `n` free digits behind some that are fixed; what exceeds 32 bits is as good as 2^32-1
fn long(fixed: &str, n: usize) -> (String, u32) {
    let (s, v) = number(n);
    let head = fixed.bytes().filter(|c| *c != b'+').fold(0u64, |r, c| r * 10 + (c & 15) as u64) * 10u64.pow(n as u32);
    // known without the free digits
    let v = if head + 99 > u32::MAX as u64 { u32::MAX } else { head as u32 + v };
    (format!("{fixed}{s}"), v)
}
/// minOccurs / maxOccurs attributes with their meaning; maxOccurs of 0 is outside
fn occurs() -> (String, u32, Option<u32>) {
    let mut a = String::new();
    let (mut min, mut max) = (1, Some(1));
    let first = pick_bool();
    let has_min = pick(4);
    let kind = pick(if has_min > 1 { 6 } else { 10 });
    let mut mina = String::new();
    if has_min > 0 {
        let (s, v) = if has_min == 3 { long("2", 2) } else { number(has_min as usize) };
        min = v;
        mina = format!(" minOccurs=\"{s}\"");
    }
    if first {
        a.push_str(&mina);
    }
    match kind {
        0 => (),
        1 => {
            max = None;
            a.push_str(" maxOccurs=\"unbounded\"");
        }
        k => {
            let (s, v) = match k {
                2 | 3 => number(k as usize - 1),
                4 => long(["2", "02"][pick(2) as usize], 2),
                5 => long(["655", "42949672", "18446744073709551"][pick(3) as usize], 2),
                6 => long("", 4),
                7 => long("00", 1),
                8 => long("3276", 1),
                _ => long("+", 1),
            };
            assume(v > 0);
            max = Some(v);
            a.push_str(" maxOccurs=\"");
            a.push_str(&s);
            a.push('"');
        }
    }
    if !first {
        a.push_str(&mina);
    }
    if let Some(m) = max {
        assume(min <= m);
    }
    (a, min, max)
}
const ITEM: &str = "<xs:complexType name=\"Item\"><xs:sequence><xs:element name=\"v\" type=\"xs:int\"/></xs:sequence></xs:complexType><xs:element name=\"thing\" type=\"t:Item\"/>";
#[no_mangle]
pub extern "C" fn h_card() {
    let (o, min, max) = occurs();
    let nm = format!("b{}", letters(2));
    assume(!is_keyword(&nm));
    let up = upper(&nm);
    // the type or element that has the element; its name may be that of other types
    let what = pick(3);
    let kind = pick(10);
    let own = match kind {
        6 => ["duration", "token", "byte"][pick(3) as usize],
        9 => nm.as_str(),
        _ => "Foo",
    };
    let inner = if what == 2 { format!("foo_type::{up}Type") } else { format!("{}::{up}Type", own.to_ascii_lowercase()) };
    let nm = nm.as_str();
    let mut fnm = nm;
    let (el, ty) = match kind {
        0 => (format!("<xs:element name=\"{nm}\" type=\"xs:string\"{o}/>"), "String"),
        1 => (format!("<xs:element{o} type=\"t:Item\" name=\"{nm}\"/>"), "Item"),
        2 => (format!("<xs:element name=\"{nm}\"{o}><xs:complexType><xs:sequence><xs:element name=\"z\" type=\"xs:int\"/></xs:sequence></xs:complexType></xs:element>"), inner.as_str()),
        3 => (format!("<xs:element name=\"{nm}\"{o}><xs:simpleType><xs:restriction base=\"xs:string\"><xs:maxLength value=\"3\"/></xs:restriction></xs:simpleType></xs:element>"), inner.as_str()),
        4 => (format!("<xs:element name=\"{nm}\" type=\"t:SubFoo\"{o}/>"), "SubFoo"),
        5 => (format!("<xs:element ref=\"t:{nm}\"{o}/>"), up.as_str()),
        6 => (format!("<xs:element name=\"{nm}\" type=\"xs:{own}\"{o}/>"), match own { "duration" => "xs::Duration", "token" => "String", _ => "i8" }),
        7 => (format!("<xs:element name=\"{nm}\" type=\"o:Foo\"{o}/>"), "o::Foo"),
        // the same type or element again
        8 if what == 1 => {
            fnm = "Foo";
            (format!("<xs:element ref=\"t:Foo\"{o}/>"), "Foo")
        }
        8 => (format!("<xs:element name=\"{nm}\" type=\"t:Foo\"{o}/>"), "Foo"),
        // a type of the name of the local element
        _ => (format!("<xs:element name=\"{nm}\" type=\"t:{own}\"{o}/>"), up.as_str()),
    };
    assume(kind != 9 || what == 2);
    let inner = match pick(3) {
        0 => format!("<xs:sequence>{el}</xs:sequence>"),
        1 => format!("<xs:all>{el}</xs:all>"),
        _ => format!("<xs:complexContent><xs:extension base=\"t:Item\"><xs:sequence>{el}</xs:sequence></xs:extension></xs:complexContent>"),
    };
    let body = match what {
        0 => format!("{ITEM}<xs:complexType name=\"{own}\">{inner}</xs:complexType>"),
        1 => format!("{ITEM}<xs:element name=\"{own}\"><xs:complexType>{inner}</xs:complexType></xs:element>"),
        _ => format!("{ITEM}<xs:complexType name=\"Outer\"><xs:sequence><xs:element name=\"{own}\"><xs:complexType>{inner}</xs:complexType></xs:element></xs:sequence></xs:complexType>"),
    };
    let out = generate(&schema(&body).replacen("<xs:schema", "<xs:schema xmlns:o=\"urn:o\"", 1));
    let items = read(&out);
    let f = match what {
        2 => match module(&items, "outer") {
            Some(m) => fields(m, &format!("{}Type", upper(own)), "the anonymous type is missing"),
            None => fail("the module of the anonymous types is missing"),
        },
        _ => fields(&items, &upper(own), "the type is missing"),
    };
    let f = match f.iter().find(|f| f.xml() == fnm) {
        Some(f) => f,
        None => fail("the element has no field"),
    };
    if kind == 8 && what < 2 {
        check(f.ty == "Vec<Foo>", "the field of an element that has elements of its own type does not hold a number of them");
        return reach(5);
    }
    let fname = f.name;
    check(fname == nm, "the element has the wrong field name");
    check(f.ty == wrapped(ty, min, max), "the field does not hold as many values as the schema allows");
    reach(1 + (min == 0) as u32 + 2 * max.map_or(true, |m| m > 1) as u32);
}
