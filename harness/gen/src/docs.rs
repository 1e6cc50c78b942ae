use crate::rs::*;
use crate::xsd::*;
use rsxapi::*;
/// a schema with a place for an annotation at every kind of declaration
const WITH: &str = "@<xs:import namespace=\"u\" schemaLocation=\"l\"/><xs:element name=\"glob\" type=\"xs:string\">@</xs:element>\
<xs:complexType name=\"Foo\">@<xs:sequence><xs:element name=\"one\" type=\"xs:int\">@</xs:element><xs:element name=\"two\">@<xs:complexType>@<xs:all><xs:element name=\"x\" type=\"xs:int\">@</xs:element></xs:all></xs:complexType></xs:element>\
<xs:element name=\"six\"><xs:simpleType>@<xs:restriction base=\"xs:string\"/></xs:simpleType></xs:element>\
<xs:any>@</xs:any></xs:sequence><xs:attribute name=\"k\" type=\"xs:int\">@</xs:attribute></xs:complexType>\
<xs:complexType name=\"Der\"><xs:complexContent><xs:extension base=\"t:Foo\">@<xs:sequence><xs:element ref=\"t:glob\">@</xs:element></xs:sequence></xs:extension></xs:complexContent></xs:complexType>\
<xs:complexType name=\"Cho\">@<xs:choice>@<xs:element name=\"p\" type=\"xs:int\">@</xs:element><xs:element name=\"q\" type=\"xs:int\"/></xs:choice></xs:complexType>\
<xs:simpleType name=\"En\">@<xs:restriction base=\"xs:string\"><xs:enumeration value=\"on\">@</xs:enumeration><xs:enumeration value=\"off\"/></xs:restriction></xs:simpleType>\
<xs:simpleType name=\"Tu\">@<xs:restriction base=\"xs:string\"><xs:maxLength value=\"3\">@</xs:maxLength></xs:restriction></xs:simpleType>\
<xs:simpleType name=\"Li\">@<xs:list itemType=\"xs:int\"/></xs:simpleType><xs:simpleType name=\"Un\">@<xs:union memberTypes=\"xs:int xs:string\">@</xs:union></xs:simpleType>\
<xs:element name=\"empty\">@</xs:element><xs:attribute name=\"gat\" type=\"xs:int\">@</xs:attribute><xs:attributeGroup name=\"grp\"><xs:attribute name=\"m\">@</xs:attribute></xs:attributeGroup>";
pub fn put(doc: Option<&str>, at: usize) -> String {
    let mut r = String::new();
    for (i, p) in WITH.split('@').enumerate() {
        if i > 0 && i - 1 == at {
            if let Some(d) = doc {
                r += "<xs:annotation><xs:documentation>";
                r += d;
                r += "</xs:documentation></xs:annotation>";
            }
        }
        r += p;
    }
    r
}
/// XML text and what it stands for
pub fn text(n: u32) -> (String, String) {
    let mut x = String::new();
    let mut v = String::new();
    match pick(5) {
        0 => (),
        // a line of two characters
        4 => x += "one\n  m",
        1 => x += "first line of words\n   second ",
        2 => x += "a line of many words which goes on beyond the width of a line of generated text, ",
        _ => x += "https://example.com/a-single-word-that-is-longer-than-any-line-of-the-generated-text-can-be/index.html ",
    }
    v += &x;
    for _ in 0..n {
        match pick(8) {
            5 => x += "<!-- not this -->",
            6 => {
                x += "<b>bold</b>";
                v += "bold";
            }
            0 => {
                x += "\u{e9}";
                v += "\u{e9}";
            }
            1 => {
                x += "\u{2028}";
                v += "\u{2028}";
            }
            2 => {
                x += "&#13;";
                v += "\r";
            }
            3 => {
                x += "&lt;";
                v += "<";
            }
            _ => {
                let mut b = [0u8; 1];
                sym(&mut b);
                let c = b[0];
                assume((c < 127) & ((c >= 32) | (c == 10) | (c == 9)) & (c != b'<') & (c != b'&') & (c != b'>'));
                x.push(c as char);
                v.push(c as char);
            }
        }
    }
    (x, v)
}
pub fn code<'a>(t: &[T<'a>]) -> Vec<T<'a>> {
    t.iter().copied().filter(|t| !matches!(t, T::Com(_))).collect()
}
#[no_mangle]
pub extern "C" fn h_doc() {
    let at = pick(WITH.matches('@').count() as u32) as usize;
    let (x, _) = text(param(0) as u32);
    let plain = generate(&schema(&put(None, at)));
    let out = generate(&schema(&put(Some(&x), at)));
    let (a, b) = (tokens(&plain), tokens(&out));
    let (a, b) = (code(&a), code(&b));
    check(a.len() == b.len(), "documentation changes the generated code");
    for (x, y) in a.iter().zip(&b) {
        check(x == y, "documentation changes the generated code");
    }
    reach(1);
}
/// the words of the documentation are kept in the comments before what they describe
#[no_mangle]
pub extern "C" fn h_doc_kept() {
    let (x, v) = text(param(0) as u32);
    let (more, mv) = match pick(3) {
        0 => ("<xs:documentation xml:lang=\"de\">noch mehr</xs:documentation>", "\nnoch mehr"),
        1 => ("<xs:appinfo>not this</xs:appinfo>", ""),
        _ => ("", ""),
    };
    let v = v + mv;
    let d = format!("<xs:annotation><xs:documentation>{x}</xs:documentation>{more}</xs:annotation>");
    let (b, at) = match pick(5) {
        0 => (format!("<xs:complexType name=\"Foo\">{d}<xs:attribute name=\"a\"/></xs:complexType>"), 0),
        1 => (format!("<xs:complexType name=\"Foo\"><xs:sequence><xs:element name=\"a\" type=\"xs:int\">{d}</xs:element></xs:sequence></xs:complexType>"), 1),
        2 => (format!("<xs:complexType name=\"Foo\"><xs:attribute name=\"a\" type=\"xs:int\">{d}</xs:attribute></xs:complexType>"), 1),
        3 => (format!("<xs:simpleType name=\"Foo\">{d}<xs:restriction base=\"xs:string\"/></xs:simpleType>"), 0),
        _ => (format!("<xs:simpleType name=\"Foo\">{d}<xs:restriction base=\"xs:string\"><xs:enumeration value=\"on\"/></xs:restriction></xs:simpleType>"), 0),
    };
    let out = generate(&schema(&b));
    let items = read(&out);
    let i = match find(&items, "Foo") {
        Some(i) => i,
        None => fail("the type is missing"),
    };
    let doc = match &i.kind {
        Kind::Struct(f) if at == 1 => &f[0].m.doc,
        _ => &i.m.doc,
    };
    kept(&v, doc);
    reach(1 + at as u32);
}
/// all words of a documentation are in the comments, in order
pub fn kept(v: &str, doc: &[&str]) {
    // lines of a single character are left out by design
    let want: Vec<&str> = v.lines().map(|l| l.trim()).filter(|l| l.len() > 1).flat_map(|l| l.split_whitespace()).collect();
    let got: Vec<&str> = doc.iter().flat_map(|c| c[2..].split_whitespace()).collect();
    check(want.len() == got.len(), "words of the documentation are lost");
    for (a, b) in want.iter().zip(&got) {
        check(a == b, "words of the documentation are changed");
    }
}
