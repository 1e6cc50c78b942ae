use crate::rs::*;
use crate::xsd::*;
use rsxapi::*;
const BUILTIN: [(&str, &str); 44] = [
    ("string", "String"), ("normalizedString", "String"), ("token", "String"), ("language", "String"), ("Name", "String"), ("NCName", "String"),
    ("ENTITY", "String"), ("ID", "String"), ("IDREF", "String"), ("NMTOKEN", "String"), ("anyURI", "String"), ("QName", "String"), ("NOTATION", "String"),
    ("hexBinary", "String"), ("base64Binary", "String"), ("anySimpleType", "String"),
    ("ENTITIES", "Vec<String>"), ("IDREFS", "Vec<String>"), ("NMTOKENS", "Vec<String>"),
    ("boolean", "bool"), ("long", "i64"), ("int", "i32"), ("short", "i16"), ("byte", "i8"),
    ("unsignedLong", "u64"), ("unsignedInt", "u32"), ("unsignedShort", "u16"), ("unsignedByte", "u8"),
    ("double", "f64"), ("float", "f64|f32"), ("decimal", "xs::Decimal"),
    ("integer", "xs::Integer"), ("nonNegativeInteger", "xs::NonNegativeInteger"), ("positiveInteger", "xs::PositiveInteger"),
    ("nonPositiveInteger", "xs::NonPositiveInteger"), ("negativeInteger", "xs::NegativeInteger"),
    ("date", "xs::Date"), ("time", "xs::Time"), ("dateTime", "xs::DateTime"), ("dateTimeStamp", "xs::DateTimeStamp"), ("duration", "xs::Duration"),
    ("gDay", "xs::GDay"), ("gMonth", "xs::GMonth"), ("gMonthDay", "xs::GMonthDay"),
];
fn is(got: &str, want: &str) -> bool {
    want.split('|').any(|w| w == got)
}
/// every built-in type in every position, with any prefix for the namespace of XML Schema
#[no_mangle]
pub extern "C" fn h_builtin() {
    let k = pick(BUILTIN.len() as u32 + 2) as usize;
    let (b, want) = if k < BUILTIN.len() { BUILTIN[k] } else { [("gYear", "xs::GYear"), ("gYearMonth", "xs::GYearMonth")][k - BUILTIN.len()] };
    // p:name is the built-in type, u:name a type of the schema, o:name one of another schema
    let form = pick(3);
    let pre = match form {
        0 => String::new(),
        1 => "xs".to_string(),
        _ => {
            let p = letters(2);
            assume(p != "xs");
            p
        }
    };
    let q = if pre.is_empty() { String::new() } else { format!("{pre}:") };
    let colon = if pre.is_empty() { String::new() } else { format!(":{pre}") };
    // 8: a type without namespace, 9: a type of the default namespace, which is the schema's
    let pos = if form > 0 { pick(10) } else { pick(8) };
    let d = match pos {
        0 => format!("<{q}complexType name=\"Foo\"><{q}sequence><{q}element name=\"a\" type=\"{q}{b}\"/></{q}sequence></{q}complexType>"),
        1 => format!("<{q}complexType name=\"Foo\"><{q}attribute name=\"a\" type=\"{q}{b}\" use=\"required\"/></{q}complexType>"),
        2 => format!("<{q}simpleType name=\"Foo\"><{q}restriction base=\"{q}{b}\"/></{q}simpleType>"),
        3 => format!("<{q}simpleType name=\"Foo\"><{q}list itemType=\"{q}{b}\"/></{q}simpleType>"),
        4 => format!("<{q}simpleType name=\"Foo\"><{q}union memberTypes=\"{q}{b}\"/></{q}simpleType>"),
        5 => format!("<{q}complexType name=\"Foo\"><{q}choice><{q}element name=\"a\" type=\"{q}{b}\"/></{q}choice></{q}complexType>"),
        6 => format!("<{q}complexType name=\"Foo\"><{q}sequence><{q}element name=\"a\" type=\"t123:{b}\"/></{q}sequence></{q}complexType>"),
        7 => format!("<{q}complexType name=\"Foo\"><{q}sequence><{q}element name=\"a\" type=\"o123:{b}\"/></{q}sequence></{q}complexType>"),
        _ => match pick(4) {
            0 => format!("<{q}complexType name=\"Foo\"><{q}sequence><{q}element name=\"a\" type=\"{b}\"/></{q}sequence></{q}complexType>"),
            1 => format!("<{q}complexType name=\"Foo\"><{q}attribute name=\"a\" type=\"{b}\" use=\"required\"/></{q}complexType>"),
            2 => format!("<{q}simpleType name=\"Foo\"><{q}restriction base=\"{b}\"/></{q}simpleType>"),
            _ => format!("<{q}simpleType name=\"Foo\"><{q}union memberTypes=\"{b}\"/></{q}simpleType>"),
        },
    };
    let x = if pos < 8 {
        format!("<{q}schema xmlns:t123=\"{TNS}\" xmlns{colon}=\"{XS}\" xmlns:o123=\"u\" targetNamespace=\"{TNS}\">{d}</{q}schema>")
    } else if pos == 8 {
        format!("<{q}schema xmlns{colon}=\"{XS}\">{d}</{q}schema>")
    } else {
        format!("<{q}schema xmlns{colon}=\"{XS}\" xmlns=\"{TNS}\" targetNamespace=\"{TNS}\">{d}</{q}schema>")
    };
    let out = generate(&x);
    let items = read(&out);
    let i = |n: &str| match find(&items, n) {
        Some(i) => &i.kind,
        None => fail("the type is missing"),
    };
    let wrong = "a built-in type has the wrong Rust type";
    match (pos, i(if pos == 5 { "FooChoice" } else { "Foo" })) {
        (0 | 1, Kind::Struct(f)) => check(f.len() == 1 && is(&f[0].ty, want), wrong),
        (2, Kind::Tuple(t)) => check(is(t, want), wrong),
        (3, Kind::Tuple(t)) => check(want.split('|').any(|w| *t == format!("Vec<{w}>")), wrong),
        (4, Kind::Enum(v)) => check(v.len() == 2 && is(&v[0].ty, want), wrong),
        (5, Kind::Enum(v)) => check(v.len() == 2 && is(&v[0].ty, want), wrong),
        (6, Kind::Struct(f)) => check(f.len() == 1 && f[0].ty.eq_ignore_ascii_case(b), "a type of the schema is taken for a built-in type"),
        (7, Kind::Struct(f)) => check(f.len() == 1 && f[0].ty.strip_prefix("o123::").map_or(false, |t| t.eq_ignore_ascii_case(b)), "a type of another schema is taken for a built-in type"),
        (8 | 9, k) => check(
            match k {
                Kind::Struct(f) => f.len() == 1 && f[0].ty.eq_ignore_ascii_case(b),
                Kind::Tuple(t) => t.eq_ignore_ascii_case(b),
                Kind::Enum(v) => v.len() == 2 && v[0].ty.eq_ignore_ascii_case(b),
                _ => false,
            },
            "a type of the schema is taken for a built-in type",
        ),
        _ => fail("the type is generated as something else"),
    }
    reach(1 + pos);
}
fn alnum(c: u8) -> bool {
    ((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | ((c >= b'0') & (c <= b'9'))
}
/// a value of letters, digits and dashes
fn value(n: usize) -> String {
    let mut b = vec![0u8; n];
    sym(&mut b);
    for c in &b {
        assume(alnum(*c) | (*c == b'-'));
    }
    unsafe { String::from_utf8_unchecked(b) }
}
/// longer values: dashes, case and digits at the places where names are split or joined
const VALUES: [&str; 16] = [
    "X-Y", "A-B-C", "x-y", "x-Y", "X-y", "-a", "-A", "1-2", "aB-c", "AB-CD", "ABC", "A1", "a1-b2", "aBC", "no-value-at-all", "Xy-Za",
];
/// enumerations: one free value next to others
#[no_mangle]
pub extern "C" fn h_enum() {
    let n = 1 + pick(param(0) as u32) as usize;
    let v = match pick(4) {
        0 => KEYWORDS[pick(51) as usize].to_string(),
        3 => VALUES[pick(VALUES.len() as u32) as usize].to_string(),
        1 => upper(KEYWORDS[pick(51) as usize]),
        _ => value(n),
    };
    let before = pick(3);
    let after = pick(2);
    let docs = pick(2);
    let place = pick(4);
    let d = if docs == 1 { "<xs:annotation><xs:documentation>words</xs:documentation></xs:annotation>" } else { "" };
    let mut want: Vec<&str> = vec!["ab", "2"][..before as usize].to_vec();
    want.push(&v);
    if after == 1 {
        want.push("lastValue");
    }
    let e: String = want.iter().map(|x| format!("<xs:enumeration value=\"{x}\">{d}</xs:enumeration>")).collect();
    let (base, ty) = [("xs:string", "String"), ("t:Base", "Base")][pick(2) as usize];
    let st = format!("<xs:restriction base=\"{base}\">{e}</xs:restriction>");
    let body = match place {
        0 => format!("<xs:simpleType name=\"Foo\">{st}</xs:simpleType>"),
        1 => format!("<xs:complexType name=\"Bar\"><xs:sequence><xs:element name=\"foo\"><xs:simpleType>{st}</xs:simpleType></xs:element></xs:sequence></xs:complexType>"),
        2 => format!("<xs:simpleType name=\"Bar\"><xs:union><xs:simpleType>{st}</xs:simpleType></xs:union></xs:simpleType>"),
        _ => format!("<xs:simpleType name=\"Bar\"><xs:list><xs:simpleType>{st}</xs:simpleType></xs:list></xs:simpleType>"),
    };
    let out = generate(&schema(&body));
    let items = read(&out);
    no_clash(&items);
    let plain: Vec<String> = want.iter().map(|v| v.bytes().filter(|c| alnum(*c)).map(|c| c.to_ascii_lowercase() as char).collect()).collect();
    let same = plain.iter().enumerate().any(|(i, p)| p.is_empty() || plain[..i].contains(p));
    let i = match place {
        0 => find(&items, "Foo"),
        1 => {
            let f = fields(&items, "Bar", "the type is missing");
            check(f.len() == 1, "the type has not one field");
            resolve(&items, &items, &f[0].ty)
        }
        2 => {
            let v = variants(&items, "Bar", "the union is missing");
            check(v.len() == 2, "the union has not one variant per member");
            resolve(&items, &items, &v[0].ty)
        }
        _ => match find(&items, "Bar") {
            Some(Item { kind: Kind::Tuple(t), .. }) => {
                check(t.starts_with("Vec<"), "a list is not a Vec");
                resolve(&items, &items, bare(t))
            }
            _ => fail("the list is missing"),
        },
    };
    let (m, vs) = match i {
        Some(Item { m, kind: Kind::Enum(vs), .. }) => (m, vs),
        Some(Item { kind: Kind::Tuple(t), .. }) if same => {
            check(t == ty, "values that cannot be told apart have the wrong type");
            reach(5);
            return;
        }
        _ => fail("the enumeration is missing"),
    };
    check(m.derives("YaSerialize") && m.derives("YaDeserialize"), "an enumeration cannot be read or written");
    check(vs.len() == want.len() + 1, "the enumeration has not one variant per value");
    for (x, w) in vs.iter().zip(&want) {
        check(x.xml() == *w, "the XML text of a variant is not the value in the schema");
        check(x.ty.is_empty(), "a variant of an enumeration holds a value");
        check(!is_keyword(x.name), "a variant has a keyword as its name");
        check(!docs == 0 || x.m.doc.iter().any(|c| c.contains("words")) == (docs == 1), "the documentation of a value is lost");
    }
    let u = &vs[want.len()];
    check(u.name == "__Unknown__" && u.ty == ty, "the variant for unknown values is missing");
    reach(1 + place);
}
/// what a generated validation rejects
#[derive(PartialEq, Debug)]
struct Test<'a> {
    /// the length instead of the value
    len: bool,
    bytes: bool,
    op: &'static str,
    value: &'a str,
    ty: String,
}
fn tests<'a>(items: &[Item<'a>], name: &str) -> Vec<Test<'a>> {
    let mut r = vec![];
    let mut found = false;
    for i in items {
        if let Kind::Impl(what, t) = &i.kind {
            if i.name == name && *what == "Validate" {
                check(!found, "a type has two validations");
                found = true;
                read_tests(t, &mut r);
            }
        }
    }
    check(found, "a type has no validation");
    r
}
fn read_tests<'a>(t: &[T<'a>], r: &mut Vec<Test<'a>>) {
    use T::{Id, Num, Str, P};
    let mut i = 0;
    while i < t.len() {
        if t[i] != Id("if") {
            i += 1;
            continue;
        }
        i += 1;
        check(t[i..].len() > 4 && t[i] == Id("self") && t[i + 1] == P(b'.') && t[i + 2] == Num("0"), "a validation looks at something else than the value");
        i += 3;
        // .len() or, of a text, .chars().count()
        let len = t[i] == P(b'.') && (t[i + 1] == Id("len") || t[i + 1] == Id("chars"));
        let bytes = len && t[i + 1] == Id("len");
        if len {
            i += if bytes { 4 } else { 8 };
        }
        let eq = t[i + 1] == P(b'=');
        let op = match (t[i], eq) {
            (P(b'>'), false) => ">",
            (P(b'<'), false) => "<",
            (P(b'>'), true) => ">=",
            (P(b'<'), true) => "<=",
            (P(b'!'), true) => "!=",
            _ => fail("a validation compares in an unknown way"),
        };
        i += 1 + eq as usize;
        let mut ty = String::new();
        let value = match t[i] {
            Num(v) => v,
            Str(v) => {
                // . parse :: < T > () . unwrap ()
                check(t[i + 1] == P(b'.') && t[i + 2] == Id("parse") && t[i + 5] == P(b'<'), "a validation compares with an unknown value");
                i += 6;
                while t[i] != P(b'>') || t[i + 1] != P(b'(') {
                    match t[i] {
                        Id(x) => ty += x,
                        P(c) => ty.push(c as char),
                        _ => (),
                    }
                    i += 1;
                }
                check(t[i + 2] == P(b')') && t[i + 3] == P(b'.') && t[i + 4] == Id("unwrap"), "a validation compares with an unknown value");
                i += 6;
                v
            }
            _ => fail("a validation compares with an unknown value"),
        };
        i += 1;
        check(t[i] == P(b'{') && t[i + 1] == Id("return") && t[i + 2] == Id("Err"), "a validation does not reject");
        r.push(Test { len, bytes, op, value, ty });
    }
}
fn trim0(s: &str) -> &str {
    let t = s.trim_start_matches('0');
    if t.is_empty() { "0" } else { t }
}
/// the checks a restriction is turned into
#[no_mangle]
pub extern "C" fn h_facets() {
    let n = 1 + pick(param(0) as u32);
    let strings = pick(2) == 1;
    let (base, ty) = if strings { ("xs:string", "String") } else { [("xs:int", "i32"), ("xs:double", "f64"), ("xs:decimal", "xs::Decimal"), ("xs:unsignedByte", "u8")][pick(4) as usize] };
    let mut f = String::new();
    let mut want: Vec<(bool, &str, String)> = vec![];
    for i in 0..n {
        let v = if i > 0 { ["0", "12"][pick(2) as usize].to_string() } else { number(if n == 1 { 1 + pick(2) as usize } else { 1 }).0 };
        // bounds of every size; those of a length have at most 32 bits
        let v = if n == 1 && pick_bool() {
            let p = ["24", "6553", "100", "7000000", "1844674407370951616", "34028236692093846337460743176821145"];
            let most = match ty {
                "u8" => 1,
                "String" | "i32" => 4,
                _ => 6,
            };
            p[pick(most) as usize].to_string() + &number(1).0
        } else {
            v
        };
        let v = if !strings && pick_bool() { format!("-{v}") } else { v };
        let d = if n == 1 && pick_bool() { "<xs:annotation><xs:documentation>words</xs:documentation></xs:annotation>" } else { "" };
        let k = if strings { pick(6) } else { 6 + pick(7) };
        let (name, op) = match k {
            0 => ("length", "!="),
            1 => ("minLength", "<"),
            2 => ("maxLength", ">"),
            3 => ("pattern", ""),
            4 => ("whiteSpace", ""),
            5 => ("assertion", ""),
            6 => ("minInclusive", "<"),
            7 => ("maxInclusive", ">"),
            8 => ("minExclusive", "<="),
            9 => ("maxExclusive", ">="),
            10 => ("totalDigits", ""),
            11 => ("fractionDigits", ""),
            _ => ("pattern", ""),
        };
        if k == 5 {
            assume(false);
        }
        let text = if k == 4 { "collapse".to_string() } else { v.trim_start_matches(if op.is_empty() { '-' } else { '+' }).to_string() };
        f += &format!("<xs:{name} value=\"{text}\">{d}</xs:{name}>");
        if !op.is_empty() && !(op == "<" && strings && v.bytes().all(|c| c == b'0')) {
            want.push((strings, op, v));
        }
    }
    let place = pick(2);
    let r = format!("<xs:simpleType {}><xs:restriction base=\"{base}\">{f}</xs:restriction></xs:simpleType>", if place == 0 { "name=\"Foo\"" } else { "" });
    let body = if place == 0 { r } else { format!("<xs:complexType name=\"Bar\"><xs:sequence><xs:element name=\"foo\">{r}</xs:element></xs:sequence></xs:complexType>") };
    let out = generate(&schema(&body));
    let all = read(&out);
    let (items, name) = if place == 0 { (&all[..], "Foo") } else { (module(&all, "bar").unwrap_or(&[]), "FooType") };
    match find(items, name) {
        Some(Item { kind: Kind::Tuple(t), .. }) => check(t == ty, "a restriction has the wrong base"),
        _ => fail("the restriction is missing"),
    }
    let mut got = tests(items, name);
    check(!got.iter().any(|t| t.bytes), "the length of a text is counted in bytes");
    for (len, op, v) in &want {
        match got.iter().position(|t| t.len == *len && t.op == *op && (if *len { trim0(t.value) == trim0(v) } else { t.value == v && t.ty == ty })) {
            Some(i) => {
                got.remove(i);
            }
            None => fail("a facet of a restriction is not checked, or with another bound or relation"),
        }
    }
    check(got.is_empty(), "a restriction checks what the schema does not ask for");
    reach(1 + strings as u32);
    if want.len() > 1 {
        reach(3)
    }
}
/// members of unions, items of lists
#[no_mangle]
pub extern "C" fn h_union() {
    let n = pick(param(0) as u32 + 1);
    let sep = [" ", "\n  ", "  "][pick(3) as usize];
    // the schema's own types have no prefix, and names of one letter
    let short = pick_bool();
    let mut names = vec![];
    let mut want: Vec<String> = vec![];
    for i in 0..n {
        let x = letters(1);
        let (m, w) = match pick(3) {
            0 => (["xs:int", "xs:string", "xs:date", "xs:boolean"][i as usize & 3].to_string(), ["i32", "String", "xs::Date", "bool"][i as usize & 3].to_string()),
            1 if short => {
                // the name as such or in capitals
                let x = if i == 0 && pick_bool() { upper(&x) } else { x };
                let w = upper(&x);
                assume(!want.contains(&w));
                (x, w)
            }
            1 => (format!("t:m{i}{x}"), format!("M{i}{}", upper(&x))),
            _ => (format!("o:m{i}{x}"), format!("o::M{i}{}", upper(&x))),
        };
        names.push(m);
        want.push(w);
    }
    let inner = pick(3);
    let mut st = String::new();
    for i in 0..inner {
        st += "<xs:simpleType>";
        st += match (i + n) % 3 {
            0 => "<xs:restriction base=\"xs:string\"><xs:enumeration value=\"on\"/></xs:restriction>",
            1 => "<xs:list itemType=\"xs:int\"/>",
            _ => "<xs:restriction base=\"xs:int\"><xs:maxInclusive value=\"3\"/></xs:restriction>",
        };
        st += "</xs:simpleType>";
    }
    assume(n + inner > 0);
    let mt = if n > 0 { format!(" memberTypes=\"{}\"", names.join(sep)) } else { String::new() };
    let place = pick(3);
    let u = format!("<xs:union{mt}>{st}</xs:union>");
    let body = match place {
        0 => format!("<xs:simpleType name=\"Foo\">{u}</xs:simpleType>"),
        1 => format!("<xs:complexType name=\"Bar\"><xs:sequence><xs:element name=\"foo\"><xs:simpleType>{u}</xs:simpleType></xs:element></xs:sequence></xs:complexType>"),
        _ => format!("<xs:element name=\"Foo\"><xs:simpleType>{u}</xs:simpleType></xs:element>"),
    };
    let out = generate(&if short { schema(&body).replacen(" xmlns:", &format!(" xmlns=\"{TNS}\" xmlns:"), 1) } else { schema(&body) });
    let all = read(&out);
    no_clash(&all);
    let (items, name) = if place == 1 { (module(&all, "bar").unwrap_or(&[]), "FooType") } else { (&all[..], "Foo") };
    let i = match find(items, name) {
        Some(i) => i,
        None => fail("the union is missing"),
    };
    check(i.m.derives("UtilsUnionSerDe"), "a union cannot be read or written");
    let v = variants(items, name, "a union is not an enum");
    check(v.len() == (n + inner + 1) as usize, "the union has not one variant per member");
    for (x, w) in v.iter().zip(&want) {
        check(&x.ty == w, "a variant does not hold the member at its place");
        check(!is_keyword(x.name), "a variant has a keyword as its name");
    }
    for i in 0..inner as usize {
        let x = &v[n as usize + i];
        let k = match resolve(&all, items, &x.ty) {
            Some(k) => &k.kind,
            None => fail("the type of an anonymous member is missing"),
        };
        check(
            match ((i as u32 + n) % 3, k) {
                (0, Kind::Enum(_)) => true,
                (1, Kind::Tuple(t)) => t == "Vec<i32>",
                (2, Kind::Tuple(t)) => t == "i32",
                _ => false,
            },
            "an anonymous member has the wrong type",
        );
    }
    let u = &v[(n + inner) as usize];
    check(u.name == "__Unknown__" && u.ty == "String", "the variant for other text is missing");
    reach(1 + place);
}
#[no_mangle]
pub extern "C" fn h_list() {
    let x = letters(2);
    let (a, st, want) = match pick(6) {
        0 => (" itemType=\"xs:int\"".to_string(), "", "i32".to_string()),
        1 => (format!(" itemType=\"t:c{x}\""), "", format!("C{x}")),
        2 => (format!(" itemType=\"o:c{x}\""), "", format!("o::C{x}")),
        3 => (String::new(), "<xs:simpleType><xs:restriction base=\"xs:int\"><xs:maxInclusive value=\"3\"/></xs:restriction></xs:simpleType>", "i32".to_string()),
        4 => (String::new(), "<xs:simpleType><xs:restriction base=\"xs:string\"><xs:maxLength value=\"3\"/></xs:restriction></xs:simpleType>", "String".to_string()),
        _ => (String::new(), "<xs:simpleType><xs:union memberTypes=\"xs:int xs:string\"/></xs:simpleType>", String::new()),
    };
    let place = pick(2);
    let l = format!("<xs:list{a}>{st}</xs:list>");
    let body = match place {
        0 => format!("<xs:simpleType name=\"Foo\">{l}</xs:simpleType>"),
        _ => format!("<xs:complexType name=\"Bar\"><xs:sequence><xs:element name=\"foo\"><xs:simpleType>{l}</xs:simpleType></xs:element></xs:sequence></xs:complexType>"),
    };
    let out = generate(&schema(&body));
    let all = read(&out);
    no_clash(&all);
    let (items, name) = if place == 1 { (module(&all, "bar").unwrap_or(&[]), "FooType") } else { (&all[..], "Foo") };
    let t = match find(items, name) {
        Some(Item { m, kind: Kind::Tuple(t), .. }) => {
            check(m.derives("UtilsTupleIo") && m.derives("UtilsDefaultSerde"), "a list cannot be read or written");
            t
        }
        _ => fail("the list is missing"),
    };
    let item = match t.strip_prefix("Vec<").and_then(|t| t.strip_suffix('>')) {
        Some(i) => i,
        None => fail("a list is not a Vec"),
    };
    if want.is_empty() {
        check(matches!(resolve(&all, items, item), Some(Item { kind: Kind::Enum(_), .. })), "the item type of a list is missing");
    } else if item != want {
        match resolve(&all, items, item) {
            Some(Item { kind: Kind::Tuple(t), .. }) => check(*t == want, "a list has the wrong item type"),
            _ => fail("a list has the wrong item type"),
        }
    }
    check(tests(items, name).is_empty(), "a facet of the items is checked on the list");
    reach(1);
}
