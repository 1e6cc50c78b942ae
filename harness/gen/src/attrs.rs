use crate::rs::*;
use crate::xsd::*;
use rsxapi::*;
pub const ITEM: &str = "<xs:complexType name=\"Item\"><xs:sequence><xs:element name=\"v\" type=\"xs:int\"/></xs:sequence><xs:attribute name=\"w\" type=\"xs:int\"/></xs:complexType>";
/// a complex type definition whose attributes are `a`, in one of several forms
pub fn body_with(a: &str, form: u32) -> String {
    match form {
        0 => a.to_string(),
        1 => format!("<xs:sequence><xs:element name=\"e\" type=\"xs:int\"/></xs:sequence>{a}"),
        2 => format!("<xs:all><xs:element name=\"e\" type=\"xs:int\"/></xs:all>{a}"),
        3 => format!("<xs:complexContent><xs:extension base=\"t:Item\">{a}</xs:extension></xs:complexContent>"),
        4 => format!("<xs:complexContent><xs:extension base=\"t:Item\"><xs:sequence><xs:element name=\"e\" type=\"xs:int\"/></xs:sequence>{a}</xs:extension></xs:complexContent>"),
        5 => format!("<xs:simpleContent><xs:extension base=\"xs:string\">{a}</xs:extension></xs:simpleContent>"),
        6 => format!("<xs:complexContent><xs:restriction base=\"t:Item\"><xs:sequence><xs:element name=\"e\" type=\"xs:int\"/></xs:sequence>{a}</xs:restriction></xs:complexContent>"),
        7 => format!("<xs:choice><xs:element name=\"e\" type=\"xs:int\"/><xs:element name=\"f\" type=\"xs:string\"/></xs:choice>{a}"),
        8 => format!("<xs:sequence/>{a}"),
        _ => format!("<xs:complexContent><xs:restriction base=\"t:Item\">{a}</xs:restriction></xs:complexContent>"),
    }
}
/// the definition as a named type, as the type of a global element, or as that of a local element
pub fn place(body: &str, how: u32) -> String {
    match how {
        0 => format!("<xs:complexType name=\"Foo\">{body}</xs:complexType>"),
        1 => format!("<xs:element name=\"Foo\"><xs:complexType>{body}</xs:complexType></xs:element>"),
        _ => format!("<xs:complexType name=\"Outer\"><xs:sequence><xs:element name=\"foo\"><xs:complexType>{body}</xs:complexType></xs:element></xs:sequence></xs:complexType>"),
    }
}
pub fn placed<'x, 'a>(items: &'x [Item<'a>], how: u32) -> &'x [Field<'a>] {
    if how < 2 {
        fields(items, "Foo", "the type is missing")
    } else {
        match module(items, "outer") {
            Some(m) => fields(m, "FooType", "the anonymous type is missing"),
            None => fail("the module of the anonymous types is missing"),
        }
    }
}
pub fn attr<'x, 'a>(f: &'x [Field<'a>], name: &str) -> Option<&'x Field<'a>> {
    let mut it = f.iter().filter(|f| f.m.has("attribute") && f.xml() == name);
    let r = it.next();
    check(it.next().is_none(), "an attribute has two fields");
    r
}
/// use, type or reference, and every place an attribute can be declared
#[no_mangle]
pub extern "C" fn h_attr() {
    let (u, present, optional) = [("", true, true), (" use=\"optional\"", true, true), (" use=\"required\"", true, false), (" use=\"prohibited\"", false, false)][pick(4) as usize];
    let kind = pick(6);
    let nm = format!("c{}", letters(2));
    assume(!is_keyword(&nm));
    let up = upper(&nm);
    let other = format!("o::{up}");
    let nm = nm.as_str();
    let (a, name, prefix, ty) = match kind {
        0 => (format!("<xs:attribute name=\"{nm}\" type=\"xs:int\"{u}/>"), nm, None, "i32"),
        1 => (format!("<xs:attribute{u} type=\"t:Kind\" name=\"{nm}\"/>"), nm, None, "Kind"),
        2 => (format!("<xs:attribute ref=\"t:{nm}\"{u}/>"), nm, Some("t"), up.as_str()),
        3 => (format!("<xs:attribute name=\"{nm}\"{u}/>"), nm, None, "String"),
        4 => (format!("<xs:attribute ref=\"o:{nm}\"{u}/>"), nm, Some("o"), other.as_str()),
        _ => (format!("<xs:attribute name=\"{nm}\"{u}><xs:annotation><xs:documentation>words</xs:documentation></xs:annotation><xs:simpleType><xs:restriction base=\"xs:string\"/></xs:simpleType></xs:attribute>"), nm, None, "String"),
    };
    let group = pick(4);
    let how = pick(3);
    let form = pick(10);
    // names of the groups, and of one that resembles them
    let (grp, top, decoy) = if group == 0 { ("", "", "") } else { [("grp", "top", "rp"), ("at.grp", "grp.at", "grp"), ("a-b", "b", "a"), ("b", "a-b", "ab"), ("Foo", "Item", "foo"), ("gr_1", "gr", "r_1")][pick(6) as usize] };
    let (a, mut g) = match group {
        0 => (a, String::new()),
        1 | 2 => (format!("<xs:attributeGroup ref=\"t:{grp}\"/>"), format!("<xs:attributeGroup name=\"{grp}\"><xs:attribute name=\"first\" type=\"xs:string\"/>{a}</xs:attributeGroup>")),
        _ => (format!("<xs:attributeGroup ref=\"t:{top}\"/>"), format!("<xs:attributeGroup name=\"{top}\"><xs:attributeGroup ref=\"t:{grp}\"/></xs:attributeGroup><xs:attributeGroup name=\"{grp}\">{a}</xs:attributeGroup>")),
    };
    if group > 0 {
        g += &format!("<xs:attributeGroup name=\"{decoy}\"><xs:attribute name=\"decoy\" type=\"xs:string\"/></xs:attributeGroup>");
    }
    let d = place(&body_with(&format!("<xs:attribute name=\"before\" type=\"xs:string\"/>{a}"), form), how);
    let out = generate(&schema(&if group == 2 { format!("{g}{ITEM}{d}") } else { format!("{ITEM}{d}{g}") }));
    let items = read(&out);
    let f = placed(&items, how);
    check(attr(f, "before").map_or(false, |b| b.ty == "Option<String>"), "another attribute of the type is missing");
    check(attr(f, "decoy").is_none(), "a type has the attribute of another group");
    match attr(f, name) {
        None => {
            if present {
                if group > 0 {
                    fail("an attribute of an attribute group has no field")
                }
                fail("an attribute has no field")
            }
            reach(1)
        }
        Some(x) => {
            check(present, "a prohibited attribute has a field");
            check(x.m.get("prefix") == prefix, "an attribute has the wrong prefix");
            check(x.name == name, "an attribute has the wrong field name");
            let want = if optional { format!("Option<{ty}>") } else { ty.to_string() };
            check(x.ty == want, "an attribute has the wrong type");
            reach(2)
        }
    }
    if form == 3 || form == 4 {
        check(attr(f, "w").is_some() && f.iter().any(|x| x.xml() == "v"), "what the base type has is missing");
    }
    if form == 1 || form == 2 || form == 4 || form == 6 {
        check(f.iter().any(|x| x.xml() == "e" && x.ty == "i32" && !x.m.has("attribute")), "an element of the type is missing");
    }
}
