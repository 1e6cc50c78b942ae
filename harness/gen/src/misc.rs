use crate::attrs::attr;
use crate::rs::*;
use crate::xsd::*;
use rsxapi::*;
use xsd_parser::generator::builder::GeneratorBuilder;
/// anonymous types inside anonymous types
struct Tree {
    name: String,
    kids: Vec<Tree>,
    /// complex, enumeration, restriction, built-in
    kind: u32,
    max: bool,
}
fn tree(depth: u32, name: String, x: &str, first: bool) -> Tree {
    let kind = if depth == 0 { 1 + pick(3) } else { pick(4) };
    let mut kids = vec![];
    if kind == 0 {
        let n = if first { 1 + pick(2) } else { 1 };
        for i in 0..n {
            kids.push(tree(depth - 1, format!("{}{x}{depth}", ["a", "b"][i as usize]), x, first && i == 0));
        }
    }
    Tree { name, kids, kind, max: first && depth > 0 && pick_bool() }
}
fn xml(t: &Tree, group: &str) -> String {
    let o = if t.max { " maxOccurs=\"unbounded\"" } else { "" };
    let n = &t.name;
    match t.kind {
        0 => {
            let k: String = t.kids.iter().map(|k| xml(k, "sequence")).collect();
            format!("<xs:element name=\"{n}\"{o}><xs:complexType><xs:{group}>{k}</xs:{group}><xs:attribute name=\"k{n}\" type=\"xs:int\"/></xs:complexType></xs:element>")
        }
        1 => format!("<xs:element name=\"{n}\"{o}><xs:simpleType><xs:restriction base=\"xs:string\"><xs:enumeration value=\"on\"/></xs:restriction></xs:simpleType></xs:element>"),
        2 => format!("<xs:element name=\"{n}\"{o}><xs:simpleType><xs:restriction base=\"xs:string\"/></xs:simpleType></xs:element>"),
        _ => format!("<xs:element name=\"{n}\"{o} type=\"xs:int\"/>"),
    }
}
/// `scopes`: the items of the modules around, outermost first
fn verify<'x, 'a>(t: &Tree, f: &Field<'a>, scopes: &mut Vec<&'x [Item<'a>]>) {
    check(f.xml() == t.name, "an element has the wrong name");
    check(f.ty.starts_with("Vec<") == t.max && !f.ty.starts_with("Option<"), "an element holds the wrong number of values");
    let ty = if t.max { bare(&f.ty) } else { &f.ty };
    if t.kind == 3 {
        check(ty == "i32", "an element has the wrong type");
        return;
    }
    let (m, rest) = match ty.split_once("::") {
        Some(x) => x,
        None => fail("an anonymous type is not in the module of its parent"),
    };
    let mut inside = None;
    for s in scopes.iter().rev() {
        inside = module(s, m);
        if inside.is_some() {
            break;
        }
    }
    let inside = match inside {
        Some(i) => i,
        None => fail("the module of an anonymous type is missing"),
    };
    match (find(inside, rest).map(|i| &i.kind), t.kind) {
        (Some(Kind::Struct(fs)), 0) => {
            check(fs.len() == t.kids.len() + 1, "an anonymous type has the wrong number of fields");
            check(attr(fs, &format!("k{}", t.name)).is_some(), "an attribute of an anonymous type is missing");
            scopes.push(inside);
            for (k, f) in t.kids.iter().zip(fs.iter().filter(|f| !f.m.has("attribute"))) {
                verify(k, f, scopes);
            }
            scopes.pop();
        }
        (Some(Kind::Enum(v)), 1) => check(v.len() == 2 && v[0].xml() == "on", "an anonymous enumeration has the wrong variants"),
        (Some(Kind::Tuple(t)), 2) => check(t == "String", "an anonymous restriction has the wrong base"),
        (None, _) => fail("an anonymous type is missing"),
        _ => fail("an anonymous type is generated as something else"),
    }
}
#[no_mangle]
pub extern "C" fn h_nested() {
    let x = letters(1);
    let group = ["sequence", "all"][pick(2) as usize];
    let global = pick(2);
    let depth = param(0) as u32;
    let kids: Vec<Tree> = (0..2).map(|i| tree(if i == 0 { depth } else { 1 }, format!("{}{x}", ["one", "two"][i as usize]), &x, i == 0)).collect();
    let d: String = kids.iter().map(|k| xml(k, group)).collect();
    let c = format!("<xs:sequence>{d}</xs:sequence>");
    let body = if global == 1 {
        format!("<xs:element name=\"Foo\"><xs:complexType>{c}</xs:complexType></xs:element>")
    } else {
        format!("<xs:complexType name=\"Foo\">{c}</xs:complexType>")
    };
    let out = generate(&schema(&body));
    let items = read(&out);
    no_clash(&items);
    let f = fields(&items, "Foo", "the type is missing");
    check(f.len() == kids.len(), "the type has the wrong number of fields");
    let mut scopes = vec![&items[..]];
    for (k, f) in kids.iter().zip(f) {
        verify(k, f, &mut scopes);
    }
    reach(1);
}
/// the namespace and the prefix of what is generated
#[no_mangle]
pub extern "C" fn h_ns() {
    let p = letters(2);
    assume(p != "xs" && p != "xm");
    let o = ["qq", "xsd"][pick(2) as usize];
    assume(p != o);
    let u = format!("urn:a{}", letters(1));
    // the other namespace: unlike the target namespace, or much like it
    let ou = match pick(7) {
        0 => "urn:other".to_string(),
        1 => format!("{u}/"),
        2 => format!("{u}b"),
        3 => "urn:a".to_string(),
        4 => u.replacen("urn", "URN", 1),
        5 => format!("x{u}"),
        _ => u.replacen("rn:a", "rn:b", 1),
    };
    let form = pick(3);
    // a prefix for the target namespace; the default namespace; no target namespace
    let (decl, pre, attrs) = match form {
        0 => (format!("xmlns:{p}=\"{u}\" targetNamespace=\"{u}\""), format!("{p}:"), Some(Some(p.as_str()))),
        1 => (format!("xmlns=\"{u}\" targetNamespace=\"{u}\""), String::new(), Some(None)),
        _ => (String::new(), String::new(), None),
    };
    let other_first = pick_bool();
    let od = format!("xmlns:{o}=\"{ou}\"");
    let decl = if other_first { format!("{od} {decl}") } else { format!("{decl} {od}") };
    let x = format!("<xs:schema {decl} xmlns:xs=\"{XS}\"><xs:import namespace=\"{ou}\" schemaLocation=\"other.xsd\"/>\
<xs:complexType name=\"Foo\"><xs:sequence><xs:element name=\"a\" type=\"xs:int\"/><xs:element name=\"b\" type=\"{pre}Bar\"/><xs:element ref=\"{pre}glob\"/><xs:element ref=\"{o}:far\"/><xs:element name=\"d\" type=\"{o}:Bar\"/></xs:sequence>\
<xs:attribute name=\"k\" type=\"xs:int\"/><xs:attribute ref=\"{o}:lang\"/></xs:complexType>\
<xs:complexType name=\"Bar\"><xs:choice><xs:element name=\"p\" type=\"xs:int\"/><xs:element ref=\"{o}:far\"/></xs:choice></xs:complexType>\
<xs:element name=\"glob\"><xs:complexType><xs:sequence><xs:element name=\"n\"><xs:complexType><xs:sequence><xs:element name=\"e\" type=\"xs:int\"/></xs:sequence></xs:complexType></xs:element></xs:sequence></xs:complexType></xs:element>\
<xs:simpleType name=\"En\"><xs:restriction base=\"xs:string\"><xs:enumeration value=\"on\"/></xs:restriction></xs:simpleType></xs:schema>");
    let out = generate(&x);
    let items = read(&out);
    no_clash(&items);
    all_in(&items, attrs, &u);
    let f = fields(&items, "Foo", "the type is missing");
    check(f.len() == 7, "the type has the wrong number of fields");
    let own = attrs.flatten();
    let od = format!("{o}::");
    let want: [(&str, Option<&str>, &str, &str); 5] = [("a", own, "", "i32"), ("b", own, "", "Bar"), ("glob", own, "", "Glob"), ("far", Some(o), &od, "Far"), ("d", own, &od, "Bar")];
    for (x, (n, p, q, t)) in f.iter().zip(want) {
        check(x.xml() == n && !x.m.has("attribute"), "an element is missing or out of place");
        check(x.m.get("prefix") == p, "an element has the wrong prefix");
        check(x.ty.strip_prefix(q) == Some(t), "an element has the wrong type");
    }
    check(attr(f, "k").map_or(false, |a| a.m.get("prefix").is_none()), "a local attribute has a prefix");
    check(attr(f, "lang").map_or(false, |a| a.m.get("prefix") == Some(o)), "an attribute of another namespace lacks its prefix");
    let v = variants(&items, "BarChoice", "the choice is missing");
    check(v.len() == 3 && v[1].m.get("prefix") == Some(o) && v[1].ty == format!("Option<{o}::Far>").replace("Option<", "").replace('>', ""), "an alternative of another namespace is wrong");
    reach(1 + form);
}
/// every struct and enum names the target namespace
fn all_in(items: &[Item], ns: Option<Option<&str>>, u: &str) {
    for i in items {
        match &i.kind {
            Kind::Struct(_) | Kind::Enum(_) => {
                let got = i.m.get("namespace");
                match ns {
                    None => check(got.is_none() && i.m.get("prefix").is_none(), "a type has a namespace where the schema has none"),
                    Some(None) => check(got == Some(u) && i.m.get("prefix").is_none(), "a type lacks the target namespace"),
                    Some(Some(p)) => {
                        check(i.m.get("prefix") == Some(p), "a type has the wrong prefix");
                        let rest = got.and_then(|g| g.strip_prefix(p)).and_then(|g| g.strip_prefix(':'));
                        check(rest.map_or(false, |r| r.trim() == u), "a type lacks the target namespace");
                    }
                }
            }
            Kind::Mod(m) => all_in(m, ns, u),
            _ => (),
        }
    }
}
const PARTS: [&str; 9] = [
    "<xs:import namespace=\"urn:other\" schemaLocation=\"other.xsd\"/>",
    "<xs:complexType name=\"One\"><xs:sequence><xs:element name=\"a\"><xs:complexType><xs:sequence><xs:element name=\"z\" type=\"xs:int\"/></xs:sequence></xs:complexType></xs:element><xs:choice><xs:element name=\"c\" type=\"xs:int\"/></xs:choice></xs:sequence><xs:attributeGroup ref=\"t:grp\"/></xs:complexType>",
    "<xs:complexType name=\"Two\"><xs:complexContent><xs:extension base=\"t:One\"><xs:attribute name=\"k\" type=\"xs:int\"/></xs:extension></xs:complexContent></xs:complexType>",
    "<xs:complexType name=\"Three\"><xs:complexContent><xs:extension base=\"t:Two\"><xs:sequence><xs:element name=\"b\" type=\"t:En\"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>",
    "<xs:simpleType name=\"En\"><xs:restriction base=\"xs:string\"><xs:enumeration value=\"on\"/><xs:enumeration value=\"off\"/></xs:restriction></xs:simpleType>",
    "<xs:simpleType name=\"Un\"><xs:union memberTypes=\"xs:int t:En\"><xs:simpleType><xs:restriction base=\"xs:int\"><xs:maxInclusive value=\"5\"/></xs:restriction></xs:simpleType></xs:union></xs:simpleType>",
    "<xs:element name=\"el\"><xs:complexType><xs:choice><xs:element name=\"p\" type=\"xs:int\"/><xs:element name=\"q\" type=\"t:One\" maxOccurs=\"unbounded\"/></xs:choice></xs:complexType></xs:element>",
    "<xs:attributeGroup name=\"grp\"><xs:attribute name=\"m\" type=\"xs:int\"/><xs:attributeGroup ref=\"t:sub\"/></xs:attributeGroup>",
    "<xs:attributeGroup name=\"sub\"><xs:attribute name=\"n\" type=\"xs:int\"/></xs:attributeGroup>",
];
fn build<'a>(f: &xsd_parser::parser::types::RsFile<'a>) -> String {
    GeneratorBuilder::default().build().generate_rs_file(f)
}
fn gen_of(x: &str) -> String {
    note(x.as_bytes());
    match xsd_parser::parser::parse(x) {
        Ok(f) => build(&f),
        Err(_) => fail("the schema is rejected"),
    }
}
/// the same schema gives the same text, whatever the order of hash maps, and as often as it is generated
#[no_mangle]
pub extern "C" fn h_same() {
    // leave one part out, so that several sets of declarations are seen
    let skip = pick(PARTS.len() as u32 + 1) as usize;
    let rev = pick_bool();
    let mut parts: Vec<&str> = PARTS.iter().enumerate().filter(|(i, _)| *i != skip).map(|(_, p)| *p).collect();
    if rev {
        parts.reverse();
    }
    let s = schema(&parts.concat());
    hash_seed(0);
    let a = gen_of(&s);
    hash_seed(1 + pick(param(0) as u32) as u64);
    match xsd_parser::parser::parse(&s) {
        Ok(f) => {
            let b = build(&f);
            note(a.as_bytes());
            note(b.as_bytes());
            check(a == b, "two runs generate different text");
            let c = build(&f);
            check(b == c, "generating the same schema again gives different text");
        }
        Err(_) => fail("the schema is rejected"),
    }
    reach(1);
}
/// a schema with a prefix for its namespace, the default namespace or none, and a prefix for XML Schema or none
fn dressed(form: u32, p: &str, xs: &str, part: usize) -> String {
    let x = if xs.is_empty() { String::new() } else { format!("{xs}:") };
    let xd = if xs.is_empty() { format!("xmlns=\"{XS}\"") } else { format!("xmlns:{xs}=\"{XS}\"") };
    let (d, t) = match form {
        0 => (format!("xmlns:{p}=\"urn:{p}\" targetNamespace=\"urn:{p}\""), format!("{p}:")),
        1 => (format!("xmlns=\"urn:{p}\" targetNamespace=\"urn:{p}\""), String::new()),
        _ => (String::new(), String::new()),
    };
    let body = [
        format!("<{x}complexType name=\"One\"><{x}sequence><{x}element name=\"a\" type=\"{t}En\"/><{x}element name=\"b\" type=\"{x}int\"/></{x}sequence></{x}complexType>\
<{x}simpleType name=\"En\"><{x}restriction base=\"{x}string\"><{x}enumeration value=\"on\"/></{x}restriction></{x}simpleType>"),
        format!("<{x}complexType name=\"One\"><{x}choice><{x}element name=\"a\" type=\"{x}date\"/></{x}choice><{x}attribute name=\"k\" type=\"{x}dateTime\"/></{x}complexType>"),
        format!("<{x}simpleType name=\"Li\"><{x}list itemType=\"{x}int\"/></{x}simpleType><{x}simpleType name=\"Un\"><{x}union memberTypes=\"{x}int {t}Li\"/></{x}simpleType><{x}element name=\"g\"><{x}complexType><{x}sequence><{x}element ref=\"{t}h\"/></{x}sequence></{x}complexType></{x}element>"),
    ];
    format!("<{x}schema {xd} {d}>{}</{x}schema>", body[part])
}
/// a generator that has generated other schemas generates what a new one does
#[no_mangle]
pub extern "C" fn h_again() {
    let xs = ["xs", "q", ""];
    let one = |form: u32| {
        let x = xs[pick(3) as usize];
        assume(form != 1 || !x.is_empty());
        let p = letters(1);
        assume(p != x);
        dressed(form, &p, x, pick(3) as usize)
    };
    let (fa, fb) = (pick(3), pick(3));
    let (a, b) = (one(fa), one(fb));
    note(a.as_bytes());
    note(b.as_bytes());
    let fa = xsd_parser::parser::parse(&a).unwrap_or_else(|_| fail("the schema is rejected"));
    let fb = xsd_parser::parser::parse(&b).unwrap_or_else(|_| fail("the schema is rejected"));
    let want = (build(&fa), build(&fb));
    let g = GeneratorBuilder::default().build();
    let (ra, rb, rc) = (g.generate_rs_file(&fa), g.generate_rs_file(&fb), g.generate_rs_file(&fa));
    note(rb.as_bytes());
    check(ra == want.0 && rc == want.0, "a generator that is used again generates something else");
    check(rb == want.1, "a generator that is used again generates something else");
    reach(1);
}
/// types of every kind, with @ where elements of any name and # where attributes of any name can be allowed
const WILD: &str = "<xs:complexType name=\"Seq\"><xs:sequence>@<xs:element name=\"a\" type=\"xs:int\"/>@<xs:choice>@<xs:element name=\"c\" type=\"xs:int\"/>@<xs:element name=\"d\" type=\"xs:int\"/>@</xs:choice>@<xs:element name=\"b\"><xs:complexType><xs:sequence>@<xs:element name=\"e\" type=\"xs:int\"/>@</xs:sequence>#</xs:complexType></xs:element>@</xs:sequence><xs:attribute name=\"k\" type=\"xs:int\"/>#</xs:complexType>\
<xs:complexType name=\"Cho\"><xs:choice>@<xs:element name=\"p\" type=\"xs:int\"/>@<xs:element name=\"q\" type=\"t:Seq\"/>@</xs:choice><xs:attributeGroup ref=\"t:grp\"/>#</xs:complexType>\
<xs:complexType name=\"All\"><xs:all><xs:element name=\"x\" type=\"xs:int\"/></xs:all>#</xs:complexType>\
<xs:complexType name=\"Der\"><xs:complexContent><xs:extension base=\"t:Seq\"><xs:sequence>@<xs:element name=\"f\" type=\"xs:int\"/>@</xs:sequence>#</xs:extension></xs:complexContent></xs:complexType>\
<xs:complexType name=\"Ext\"><xs:complexContent><xs:extension base=\"t:Der\"><xs:attribute name=\"l\" type=\"xs:int\"/>#</xs:extension></xs:complexContent></xs:complexType>\
<xs:complexType name=\"Sim\"><xs:simpleContent><xs:extension base=\"xs:int\"><xs:attribute name=\"s\" type=\"xs:int\"/>#</xs:extension></xs:simpleContent></xs:complexType>\
<xs:complexType name=\"Nil\"><xs:sequence>@</xs:sequence>#</xs:complexType>\
<xs:element name=\"Top\"><xs:complexType><xs:sequence>@<xs:element ref=\"t:Oth\"/>@</xs:sequence>#</xs:complexType></xs:element>\
<xs:element name=\"Oth\"><xs:complexType><xs:choice>@<xs:element name=\"y\" type=\"xs:int\"/>@</xs:choice>#</xs:complexType></xs:element>\
<xs:attributeGroup name=\"grp\"><xs:attribute name=\"m\" type=\"xs:int\"/>#</xs:attributeGroup>";
/// wildcards add nothing to the types
#[no_mangle]
pub extern "C" fn h_wild() {
    let n = WILD.matches(['@', '#']).count() as u32;
    let (i, j) = (pick(n), pick(n));
    assume(i <= j);
    let ns = ["", " namespace=\"##any\"", " namespace=\"##other\"", " namespace=\"##local urn:x\"", " namespace=\"##targetNamespace\""][pick(5) as usize];
    let pc = ["", " processContents=\"lax\"", " processContents=\"skip\""][pick(3) as usize];
    let how = pick(4);
    // two wildcards are alike and simple
    assume(i == j || (ns.is_empty() && pc.is_empty() && how < 2));
    assume(how == 0 || pc.is_empty());
    let (occ, doc) = match how {
        0 => (String::new(), ""),
        1 if i < j => (" minOccurs=\"0\" maxOccurs=\"unbounded\"".to_string(), ""),
        1 => (format!(" minOccurs=\"{}\" maxOccurs=\"unbounded\"", number(1).0), ""),
        2 => (format!(" maxOccurs=\"{}\" minOccurs=\"0\"", number(1).0), ""),
        _ => (String::new(), "<xs:annotation><xs:documentation>words</xs:documentation></xs:annotation>"),
    };
    let mut x = String::new();
    let mut at = 0;
    for c in WILD.chars() {
        let (tag, occ) = match c {
            '@' => ("any", &occ[..]),
            '#' => ("anyAttribute", ""),
            _ => {
                x.push(c);
                continue;
            }
        };
        if at == i || at == j {
            x += &format!("<xs:{tag}{ns}{pc}{occ}>{doc}</xs:{tag}>");
        }
        at += 1;
    }
    let want = gen_of(&schema(&WILD.replace(['@', '#'], "")));
    let got = gen_of(&schema(&x));
    note(got.as_bytes());
    check(tokens(&got) == tokens(&want), "a wildcard changes the generated types");
    reach(1 + how);
}
/// the order of declarations in a schema is the order of the generated items and changes nothing else
#[no_mangle]
pub extern "C" fn h_order() {
    let n = PARTS.len();
    let (i, j) = (pick(n as u32) as usize, pick(n as u32) as usize);
    let rot = pick(3) as usize * 3;
    assume(i < j);
    let mut p: Vec<usize> = (0..n).collect();
    p.rotate_left(rot);
    p.swap(i, j);
    let a = gen_of(&schema(&PARTS.concat()));
    let b = gen_of(&schema(&p.iter().map(|i| PARTS[*i]).collect::<String>()));
    note(b.as_bytes());
    let (ta, tb) = (tokens(&a), tokens(&b));
    let ta: Vec<T> = ta.into_iter().filter(|t| !matches!(t, T::Com(_))).collect();
    let tb: Vec<T> = tb.into_iter().filter(|t| !matches!(t, T::Com(_))).collect();
    check(ta.len() == tb.len(), "the order of declarations changes what is generated");
    let (ia, ib) = (chunks(&ta), chunks(&tb));
    check(ia.len() == ib.len(), "the order of declarations changes what is generated");
    for c in &ia {
        check(ib.contains(c), "the order of declarations changes what is generated");
    }
    reach(1);
}
/// the top-level items of generated text
fn chunks<'x, 'a>(t: &'x [T<'a>]) -> Vec<&'x [T<'a>]> {
    let mut r = vec![];
    let (mut depth, mut start, mut body) = (0, 0, false);
    for (i, x) in t.iter().enumerate() {
        match x {
            T::P(b'{') | T::P(b'(') | T::P(b'[') => {
                depth += 1;
                body |= *x == T::P(b'{') && depth == 1;
            }
            T::P(b'}') | T::P(b')') | T::P(b']') => depth -= 1,
            _ => (),
        }
        if depth == 0 && ((*x == T::P(b'}') && body) || *x == T::P(b';')) {
            r.push(&t[start..=i]);
            start = i + 1;
            body = false;
        }
    }
    check(start == t.len(), "the generated text ends in the middle of an item");
    r
}
/// white space, comments and processing instructions between the parts of a schema change nothing
#[no_mangle]
pub extern "C" fn h_layout() {
    let kind = pick(5);
    let mut w = String::new();
    match kind {
        0 | 1 => {
            let mut b = [0u8; 2];
            sym(&mut b);
            for c in &b {
                assume((*c == b' ') | (*c == b'\t') | (*c == b'\n') | (*c == b'\r'));
                w.push(*c as char);
            }
        }
        2 => {
            w = format!("<!--{}-->", letters(1));
        }
        3 => w = "<!-- <xs:element name=\"x\"/> -->\n".to_string(),
        _ => w = format!("<?{}?>", letters(1)),
    }
    let body = PARTS.concat();
    // between tags, or inside of a tag before an attribute
    let inside = kind == 1;
    let at: Vec<usize> = body
        .char_indices()
        .filter(|(i, c)| if inside { *c == ' ' && !body[..*i].ends_with("int") } else { *c == '<' })
        .map(|x| x.0)
        .collect();
    let at = at[pick(at.len() as u32) as usize];
    let s = format!("{}{w}{}", &body[..at], &body[at..]);
    let a = gen_of(&schema(&body));
    let b = gen_of(&schema(&s));
    note(b.as_bytes());
    check(a == b, "white space or comments of the schema change the generated text");
    reach(1 + kind);
}
/// a schema with every kind of declaration
pub const ALL: &str = "<xs:import namespace=\"u\" schemaLocation=\"l\"/><xs:element name=\"glob\"><xs:complexType><xs:sequence><xs:element name=\"g\" type=\"xs:int\" minOccurs=\"0\"/></xs:sequence></xs:complexType></xs:element>\
<xs:complexType name=\"Foo\"><xs:sequence><xs:element name=\"one\" type=\"xs:int\"></xs:element><xs:element name=\"two\"><xs:complexType><xs:all><xs:element name=\"z\" type=\"xs:string\"/></xs:all></xs:complexType></xs:element>\
<xs:element name=\"three\" type=\"t:Cho\" maxOccurs=\"unbounded\"/><xs:element ref=\"t:glob\"/><xs:element name=\"five\"><xs:simpleType><xs:restriction base=\"xs:string\"/></xs:simpleType></xs:element>\
<xs:any/></xs:sequence><xs:attribute name=\"k\" type=\"xs:int\"></xs:attribute><xs:attribute name=\"r\" type=\"xs:string\" use=\"required\"/><xs:attribute ref=\"o:far\"/><xs:attributeGroup ref=\"t:grp\"/></xs:complexType>\
<xs:complexType name=\"Der\"><xs:complexContent><xs:extension base=\"t:Foo\"><xs:sequence><xs:element name=\"own\" type=\"xs:date\"></xs:element></xs:sequence></xs:extension></xs:complexContent></xs:complexType>\
<xs:complexType name=\"Res\"><xs:complexContent><xs:restriction base=\"t:Foo\"><xs:attribute name=\"i\" type=\"xs:int\"/></xs:restriction></xs:complexContent></xs:complexType>\
<xs:complexType name=\"Sim\"><xs:simpleContent><xs:extension base=\"xs:string\"><xs:attribute name=\"h\" type=\"xs:int\"/></xs:extension></xs:simpleContent></xs:complexType>\
<xs:complexType name=\"Cho\"><xs:choice><xs:element name=\"p\" type=\"xs:int\"></xs:element><xs:element name=\"q\" type=\"t:En\" maxOccurs=\"3\"/></xs:choice></xs:complexType>\
<xs:simpleType name=\"En\"><xs:restriction base=\"xs:string\"><xs:enumeration value=\"on\"></xs:enumeration><xs:enumeration value=\"off\"/></xs:restriction></xs:simpleType>\
<xs:simpleType name=\"Tu\"><xs:restriction base=\"xs:string\"><xs:minLength value=\"1\"/><xs:maxLength value=\"3\"></xs:maxLength></xs:restriction></xs:simpleType>\
<xs:simpleType name=\"Nu\"><xs:restriction base=\"xs:int\"><xs:minExclusive value=\"1\"/><xs:maxInclusive value=\"3\"></xs:maxInclusive></xs:restriction></xs:simpleType>\
<xs:simpleType name=\"Li\"><xs:list itemType=\"xs:int\"/></xs:simpleType><xs:simpleType name=\"Un\"><xs:union memberTypes=\"xs:int xs:string\"></xs:union></xs:simpleType>\
<xs:simpleType name=\"La\"><xs:list><xs:simpleType><xs:restriction base=\"xs:string\"/></xs:simpleType></xs:list></xs:simpleType>\
<xs:attribute name=\"gat\" type=\"xs:int\"></xs:attribute><xs:attributeGroup name=\"grp\"><xs:attribute name=\"m\" type=\"xs:int\"></xs:attribute></xs:attributeGroup>";
/// attributes of another namespace whose local names XML Schema gives a meaning
const LOCAL: [&str; 22] = [
    "name", "type", "ref", "base", "use", "minOccurs", "maxOccurs", "value", "itemType", "memberTypes", "namespace", "targetNamespace", "schemaLocation", "source", "default", "fixed", "form",
    "nillable", "abstract", "mixed", "id", "other",
];
/// what a schema may say beyond the types of its data
#[no_mangle]
pub extern "C" fn h_noise() {
    let kind = pick(4);
    // where: after the name of a start tag, or after the tag
    let tags: Vec<(usize, &str)> = ALL
        .match_indices("<xs:")
        .map(|(i, _)| {
            let n = &ALL[i + 4..];
            let n = &n[..n.find([' ', '>', '/']).unwrap()];
            (i + 4 + n.len(), n)
        })
        .collect();
    let t = pick(tags.len() as u32 + 1) as usize;
    let (mut at, n) = if t < tags.len() { tags[t] } else { (0, "schema") };
    let decl = ["urn:other", "http://www.w3.org/2001/XMLSchema-instance"][if kind == 0 { pick(2) as usize } else { 0 }];
    let w = match kind {
        0 => {
            let local = LOCAL[pick(LOCAL.len() as u32) as usize];
            let v = match pick(2) {
                0 => letters(1),
                _ => match local {
                    "use" => ["required", "prohibited"][pick(2) as usize].to_string(),
                    "minOccurs" | "maxOccurs" | "value" => number(1).0,
                    "nillable" | "abstract" | "mixed" => "true".to_string(),
                    "name" | "form" => "unbounded".to_string(),
                    "default" | "fixed" | "id" | "other" => "1".to_string(),
                    _ => ["xs:int".to_string(), format!("t:{}", letters(1))][pick(2) as usize].clone(),
                },
            };
            format!(" o:{local}=\"{v}\"")
        }
        1 => {
            format!(" id=\"{}\"", letters(2))
        }
        2 => {
            let v = letters(1);
            let a: &[&str] = match n {
                "element" => &["default", "fixed"],
                "attribute" if ALL[at..].starts_with(" name=\"r\"") => &["fixed"],
                "attribute" => &["default", "fixed"],
                "complexType" => &["abstract=\"true\"", "abstract=\"false\"", "block=\"#all\"", "final=\"extension\""],
                "simpleType" => &["final=\"#all\""],
                "minLength" | "maxLength" | "minExclusive" | "maxInclusive" => &["fixed=\"true\"", "fixed=\"false\""],
                "schema" => &["version", "xml:lang"],
                "any" => &["processContents=\"lax\"", "namespace=\"##other\""],
                _ => &[],
            };
            assume(!a.is_empty());
            let a = a[pick(a.len() as u32) as usize];
            if a.contains('=') {
                format!(" {a}")
            } else {
                format!(" {a}=\"{v}\"")
            }
        }
        _ => {
            assume(at > 0);
            let end = ALL[at..].find('>').unwrap();
            // after a global declaration, or inside of one
            match pick(3) {
                0 => {
                    at = ALL.len();
                    format!("<xs:annotation id=\"{}\"><xs:appinfo><xs:simpleType name=\"Foo\"/></xs:appinfo></xs:annotation>", letters(1))
                }
                1 => {
                    assume(n == "element" && ALL.as_bytes()[at + end - 1] != b'/' && !ALL[at + end..].starts_with("><xs:"));
                    at += end + 1;
                    let x = letters(1);
                    format!("<xs:{} name=\"{x}\"><xs:selector xpath=\"{x}\"/><xs:field xpath=\"@name\"/></xs:{0}>", ["key", "unique"][pick(2) as usize])
                }
                _ => {
                    assume(ALL.as_bytes()[at + end - 1] != b'/');
                    at += end + 1;
                    format!("<xs:annotation><xs:appinfo source=\"u\"><xs:element name=\"{}\" type=\"xs:int\"/><name>x</name></xs:appinfo></xs:annotation>", letters(1))
                }
            }
        }
    };
    let head = |b: String| schema(&b).replacen("<xs:schema", &format!("<xs:schema xmlns:o=\"{decl}\""), 1);
    let s = if at == 0 { head(ALL.to_string()).replacen(" targetNamespace", &format!("{w} targetNamespace"), 1) } else { head(format!("{}{w}{}", &ALL[..at], &ALL[at..])) };
    let a = gen_of(&head(ALL.to_string()));
    let b = gen_of(&s);
    note(b.as_bytes());
    check(a == b, "a part of the schema that says nothing about the types of its data changes the generated text");
    reach(1 + kind);
}
