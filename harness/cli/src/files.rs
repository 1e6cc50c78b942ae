//! Files in the working directory, and what the programs have to make of them.
use rsxapi::*;
use std::{fs, path::Path};
use xsd_parser::{generator::builder::GeneratorBuilder, parser::parse};
pub const XS: &str = "http://www.w3.org/2001/XMLSchema";
#[derive(Clone, Copy, PartialEq)]
pub enum Program {
    Xsd,
    Wsdl,
}
/// free letters
pub fn letters(n: usize) -> String {
    let mut b = vec![0u8; n];
    sym(&mut b);
    for x in &b {
        assume((*x >= b'a') & (*x <= b'z'));
    }
    String::from_utf8(b).unwrap_or_default()
}
/// definitions of a schema: plain, inherited, in groups, with choices, enumerations and words
pub fn body(kind: u32, p: &str, l: &str) -> String {
    match kind {
        0 => format!("<xs:complexType name=\"T\"><xs:sequence><xs:element name=\"a{l}\" type=\"xs:int\"/></xs:sequence></xs:complexType>"),
        1 => format!(
            "<xs:complexType name=\"D\"><xs:complexContent><xs:extension base=\"{p}:B\"><xs:attribute name=\"k\" type=\"xs:int\"/></xs:extension></xs:complexContent></xs:complexType>\
             <xs:complexType name=\"B\"><xs:sequence><xs:element name=\"b{l}\" type=\"xs:int\"/></xs:sequence></xs:complexType>"
        ),
        2 => format!(
            "<xs:complexType name=\"G\"><xs:attributeGroup ref=\"{p}:g\"/></xs:complexType>\
             <xs:attributeGroup name=\"g\"><xs:attribute name=\"m{l}\" type=\"xs:int\"/></xs:attributeGroup>"
        ),
        3 => format!("<xs:element name=\"e\"><xs:complexType><xs:choice><xs:element name=\"c{l}\" type=\"xs:date\"/><xs:element name=\"d\" type=\"xs:string\"/></xs:choice></xs:complexType></xs:element>"),
        4 => format!("<xs:simpleType name=\"S{l}\"><xs:restriction base=\"xs:string\"><xs:enumeration value=\"on\"/><xs:enumeration value=\"{l}x\"/></xs:restriction></xs:simpleType>"),
        _ => format!("<xs:simpleType name=\"N{l}\"><xs:annotation><xs:documentation>W\u{f6}rter \u{20ac} \u{1f600}</xs:documentation></xs:annotation><xs:restriction base=\"xs:int\"/></xs:simpleType>"),
    }
}
/// a schema with a target namespace named after its prefix
pub fn schema(p: &str, body: &str) -> String {
    format!("<xs:schema xmlns:xs=\"{XS}\" xmlns:{p}=\"urn:{p}\" targetNamespace=\"urn:{p}\">{body}</xs:schema>")
}
/// the code for a schema
pub fn code(x: &str) -> String {
    match parse(x) {
        Ok(f) => GeneratorBuilder::default().build().generate_rs_file(&f),
        Err(_) => fail("the schema is rejected"),
    }
}
/// a document and the code to be written for it
pub fn document(pr: Program, kind: u32, l: &str, long: u32) -> (String, String) {
    // long documents, or ones that give much code
    let (many, pad) = match long {
        0 => (0, String::new()),
        1 => (60, String::new()),
        n => (if n > 1000 { 400 } else { 0 }, format!("<!--{}-->", "long text ".repeat(n as usize))),
    };
    let many: String = (0..many).map(|i| format!("<xs:complexType name=\"Many{i}\"><xs:sequence><xs:element name=\"of\" type=\"xs:int\"/></xs:sequence></xs:complexType>")).collect();
    match pr {
        Program::Xsd => {
            let x = schema("t", &(body(kind, "t", l) + &many));
            let x = format!("{}{pad}</xs:schema>", &x[..x.len() - 12]);
            let head = if kind & 1 == 1 { "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" } else { "" };
            let c = code(&x);
            (format!("{head}{x}\n"), c)
        }
        Program::Wsdl => wsdl(kind, l, &pad, &many),
    }
}
const WS: &str = "http://schemas.xmlsoap.org/wsdl/";
fn wsdl(kind: u32, l: &str, pad: &str, many: &str) -> (String, String) {
    // one schema, two of them in one or in two elements, or none
    let kinds: &[u32] = [&[0u32][..], &[1], &[2, 1], &[3, 2], &[4, 5, 1], &[]][kind as usize];
    let ps = ["t", "u", "v"];
    let each: Vec<String> = kinds.iter().enumerate().map(|(i, k)| schema(ps[i], &(body(*k, ps[i], l) + many))).collect();
    let mut want: String = each.iter().map(|x| code(x)).collect();
    // the namespaces declared by each schema or by the document
    let outer = kind == 1 || kind == 4;
    let inner = |x: &str| if outer { format!("<xs:schema {}", &x[x.find("targetN").unwrap_or(0)..]) } else { x.to_string() };
    let each: Vec<String> = each.iter().map(|x| inner(x)).collect();
    let decl = if outer { format!("xmlns:xs=\"{XS}\" xmlns:u=\"urn:u\" xmlns:v=\"urn:v\"") } else { String::new() };
    let types = if kind == 5 { String::new() } else { format!("<w:types>{}</w:types>", each.join(pad)) };
    let part = if kind == 3 { "t:e".to_string() } else { "t:El".to_string() };
    let rest = format!(
        "{pad}<w:message name=\"in\"><w:part name=\"p\" element=\"{part}\"/></w:message><w:message name=\"out\"><w:part name=\"p\" element=\"t:Out{l}\"/></w:message>\
         <w:portType name=\"P\"><w:operation name=\"do_{l}\"><w:input message=\"t:in\"/><w:output message=\"t:out\"/></w:operation></w:portType>"
    );
    let head = format!("<w:definitions xmlns:w=\"{WS}\" xmlns:t=\"urn:t\" {decl} targetNamespace=\"urn:t\">");
    let x = format!("{head}{types}{rest}</w:definitions>");
    match roxmltree::Document::parse(&x) {
        Ok(d) => {
            let f = wsdl_parser::generator::generate(&wsdl_parser::parser::definitions::Definitions::new(&d.root_element()));
            check(f.len() > 100, "the functions are missing");
            want += &f;
        }
        Err(_) => fail("the document is rejected"),
    }
    (x, want)
}
pub fn put(p: &str, t: &str) {
    if let Some(d) = Path::new(p).parent() {
        if fs::create_dir_all(d).is_err() {
            fail("no directory for a test");
        }
    }
    if fs::write(p, t).is_err() {
        fail("no file for a test");
    }
}
/// whether the lines are those wanted; empty lines do not count
pub fn same(got: &[u8], want: &str) -> bool {
    let f = |t: &[u8]| -> Vec<u8> {
        let mut r = vec![];
        for l in t.split(|c| *c == b'\n') {
            let l = l.trim_ascii_end();
            if !l.is_empty() {
                r.extend_from_slice(l);
                r.push(b'\n');
            }
        }
        r
    };
    let (a, b) = (f(got), f(want.as_bytes()));
    let mut r = a.len() == b.len();
    for (x, y) in a.iter().zip(&b) {
        r &= x == y;
    }
    r
}
/// all files below a directory
pub fn all(dir: &Path, r: &mut Vec<(String, Vec<u8>)>) {
    let d = match fs::read_dir(dir) {
        Ok(d) => d,
        Err(_) => return,
    };
    for e in d {
        let p = match e {
            Ok(e) => e.path(),
            Err(_) => fail("no entry for a test"),
        };
        if p.is_dir() {
            all(&p, r);
        } else {
            let name = match p.to_str() {
                Some(n) => n.trim_start_matches("./").to_string(),
                None => fail("a file has a name that is no text"),
            };
            r.push((name, fs::read(&p).unwrap_or_default()));
        }
    }
}
/// runs the program: whether it reports success
pub fn run(pr: Program, a: &[&str]) -> bool {
    args(a);
    let c = match pr {
        Program::Xsd => crate::xsd_cli::run(),
        Program::Wsdl => crate::wsdl_cli::run(),
    };
    c == std::process::ExitCode::SUCCESS
}
/// the working directory holds these files and no others
pub fn expect(want: &[(String, String, bool)]) {
    let mut got = vec![];
    all(Path::new("."), &mut got);
    for (n, t, input) in want {
        match got.iter().position(|g| g.0 == *n) {
            None if *input => fail("an input file is gone"),
            None => fail("a file has no output file"),
            Some(i) => {
                let g = got.remove(i);
                note(n.as_bytes());
                note(&g.1);
                if *input {
                    check(g.1 == t.as_bytes(), "an input file is changed");
                } else {
                    check(same(&g.1, t), "the output is not the code for the input");
                }
            }
        }
    }
    check(got.is_empty(), "a file is written that nobody asked for");
}
