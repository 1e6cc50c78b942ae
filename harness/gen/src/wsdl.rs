//! The functions generated for the operations of a WSDL document.
use crate::docs;
use crate::names::*;
use crate::rs::*;
use crate::xsd::*;
use rsxapi::*;
use wsdl_parser::{generator::generate as functions, parser::definitions::Definitions};
const WS: &str = "http://schemas.xmlsoap.org/wsdl/";
/// the functions of a document: `ns` are its namespace declarations
fn wsdl(ns: &str, body: &str) -> String {
    let x = document(ns, body);
    note(x.as_bytes());
    let s = generate_wsdl(&x);
    note(s.as_bytes());
    s
}
fn document(ns: &str, body: &str) -> String {
    format!("<w:definitions xmlns:w=\"{WS}\" {ns} targetNamespace=\"{TNS}\">{body}</w:definitions>")
}
fn generate_wsdl(x: &str) -> String {
    match roxmltree::Document::parse(x) {
        Ok(d) => functions(&Definitions::new(&d.root_element())),
        Err(_) => fail("the document is rejected"),
    }
}
/// the types of request and response of a function which does what it has to
fn function<'a>(i: &'a Item<'a>) -> (&'a str, &'a str) {
    let f = match &i.kind {
        Kind::Fn(f) => f,
        _ => fail("an operation is generated as something else than a function"),
    };
    check(!is_keyword(i.name), "a function has a keyword as its name");
    check(f.is_async, "a function is not asynchronous");
    check(f.args.len() == 2, "a function has not a transport and a request");
    let g = &f.generics;
    let bound = [T::P(b':'), T::Id("transport"), T::P(b':'), T::P(b':'), T::Id("Transport")];
    let (tr, rq) = (&f.args[0], &f.args[1]);
    match g.first() {
        Some(T::Id(n)) => check((g.len() == 6) & (g[1..] == bound) & (tr.1.strip_prefix('&') == Some(*n)), "a function does not take any transport"),
        _ => fail("a function does not take any transport"),
    }
    let body = [
        T::Id("transport"),
        T::P(b':'),
        T::P(b':'),
        T::Id("request"),
        T::P(b'('),
        T::Id(tr.0),
        T::P(b','),
        T::Id(rq.0),
        T::P(b')'),
        T::P(b'.'),
        T::Id("await"),
    ];
    check(f.body == body, "a function does not hand its request to the transport");
    let q = match rq.1.strip_prefix('&') {
        Some(q) => q,
        None => fail("a function takes its request by value"),
    };
    let r = match f.ret.strip_prefix("Result<").and_then(|r| r.strip_suffix(",transport::Error>")) {
        Some(r) => r,
        None => fail("a function does not return a result"),
    };
    let hidden = |t: &str| g.first() == Some(&T::Id(t));
    check(!hidden(q) && !hidden(r), "a type is hidden by the type parameter for the transport");
    (q, r)
}
fn by_name<'x, 'a>(items: &'x [Item<'a>], n: &str) -> &'x Item<'a> {
    let mut it = items.iter().filter(|i| matches!(i.kind, Kind::Fn(_)) && i.name == n);
    match (it.next(), it.next()) {
        (Some(i), None) => i,
        (None, _) => fail("an operation has no function"),
        _ => fail("an operation has several functions"),
    }
}
/// the element of a message part and its Rust type
fn part(pre: Option<&str>, other: &str, n: usize) -> (String, String) {
    let l = letters(n);
    let u = upper(&l);
    match pick(3) {
        0 => (format!("{other}:{l}"), format!("{other}::{u}")),
        1 => match pre {
            Some(p) => (format!("{p}:{u}"), u),
            None => (l.clone(), u),
        },
        _ => match pre {
            Some(p) => (format!("{p}:{l}"), u),
            None => (u.clone(), u),
        },
    }
}
/// what may stand between any two parts of a document
const BETWEEN: [&str; 5] = [
    "",
    "\n  <!-- <w:operation name=\"no\"/> -->\n",
    " <?w:message x?> ",
    "<w:documentation>of what follows</w:documentation>",
    "<e:ext xmlns:e=\"urn:e\"/>",
];
/// one function for every operation, with the types of its messages
#[no_mangle]
pub extern "C" fn h_wsdl() {
    let tp = letters(param(0));
    let ns_kind = pick(2);
    let (pre, ns) = match ns_kind {
        0 => (Some(&tp[..]), format!("xmlns:{tp}=\"{TNS}\" xmlns:q=\"urn:q\"")),
        _ => (None, format!("xmlns=\"{TNS}\" xmlns:q=\"urn:q\"")),
    };
    assume((tp != "w") & (tp != "q"));
    let m = |n: &str| match pre {
        Some(p) => format!("{p}:{n}"),
        None => n.to_string(),
    };
    let way = pick(4);
    let by_type = pick(3);
    let kind = |k: bool| if k { "type" } else { "element" };
    let (qe, qt) = part(pre, "q", param(1));
    let (re, rt) = if way == 0 { (String::from("q:never"), String::from("()")) } else { part(pre, "q", param(1)) };
    let lay = pick(20);
    let gap = BETWEEN[(lay % 5) as usize];
    let gap2 = if lay % 3 == 0 { "" } else { gap };
    // extension elements and documentation come first in an operation and in a message
    let last = if gap.starts_with("<w") || gap.starts_with("<e") { "" } else { gap };
    let op = letters(param(1));
    assume(!is_keyword(&op));
    // names of messages that contain each other or differ in case
    let [mi, mo, mx] = [["inMessage", "outMessage", "other"], ["get", "GET", "Get"], ["Msg", "MsgIn", "InMsg"], ["a.b", "a-b", "a_b"]][(lay + way + by_type) as usize % 4];
    let msgs = [
        format!("<w:message name=\"{mx}\"><w:part name=\"p\" element=\"q:third\"/></w:message>"),
        format!("<w:message name=\"{mi}\">{gap2}<w:part name=\"parameters\" {}=\"{qe}\">{gap2}</w:part>{last}</w:message>", kind(by_type == 1)),
        format!("<w:message name=\"{mo}\">{gap2}<w:part name=\"request\" {}=\"{re}\"/></w:message>", kind(by_type == 2)),
    ];
    let (inp, out) = (m(mi), m(mo));
    let io = match way {
        0 => format!("<w:input message=\"{inp}\"/>"),
        1 => format!("<w:input message=\"{inp}\"/>{last}<w:output message=\"{out}\"/>"),
        2 => format!("<w:input message=\"{inp}\"/><w:output message=\"{out}\"/>{last}<w:fault name=\"f\" message=\"{}\"/>", m(mx)),
        _ => format!("<w:input name=\"a\" message=\"{inp}\">{gap}</w:input><w:output name=\"b\" message=\"{out}\"/><w:fault name=\"f\" message=\"{0}\"/><w:fault name=\"g\" message=\"{0}\"/>", m(mx)),
    };
    let (other, third) = (m(mx), "second_op");
    let ops = format!("<w:operation name=\"{op}\">{gap2}{io}</w:operation>{gap}<w:operation name=\"SecondOp\"><w:input message=\"{other}\"/><w:output message=\"{inp}\"/></w:operation>");
    let port2 = format!("<w:portType name=\"Zz\"><w:operation name=\"thirdOp\"><w:input message=\"{out}\"/><w:output message=\"{other}\"/></w:operation></w:portType>");
    let ports = match lay % 4 {
        0 => format!("<w:portType name=\"Aa\">{gap}{ops}</w:portType>"),
        1 => format!("<w:portType name=\"Aa\">{gap}{ops}</w:portType>{gap}{port2}"),
        2 => format!("{port2}<w:portType name=\"Aa\">{ops}</w:portType>"),
        _ => format!("<w:portType name=\"None\"/>{gap}<w:portType name=\"Aa\">{ops}</w:portType>{port2}"),
    };
    let many = ports.contains("thirdOp");
    let bind = format!("<w:binding name=\"B\" type=\"{}\"><w:operation name=\"bound\"><w:input/></w:operation></w:binding><w:service name=\"S\"><w:port name=\"p\" binding=\"{}\"/></w:service>", m("Aa"), m("B"));
    let types = "<w:types><xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\"><xs:element name=\"operation\"/></xs:schema></w:types>";
    let body = match (lay / 5 + lay) % 4 {
        0 => format!("{types}{}{ports}", msgs.concat()),
        1 => format!("{gap}{}{gap}{}{}{ports}{bind}", msgs[2], msgs[1], msgs[0]),
        2 => format!("<w:import namespace=\"u\" location=\"l\"/>{ports}{gap}{}", msgs.concat()),
        _ => format!("{}{ports}{}{bind}{}", msgs[1], msgs[0], msgs[2]),
    };
    let out = wsdl(&ns, &body);
    let items = read(&out);
    check(items.len() == 2 + many as usize, "there is not one function for every operation");
    check(function(by_name(&items, &op)) == (&qt, &rt), "a function has not the types of its messages");
    check(function(by_name(&items, third)) == ("q::Third", &qt), "a function has not the types of its messages");
    if many {
        let rt = if way == 0 { "q::Never" } else { &rt };
        check(function(by_name(&items, "third_op")) == (rt, "q::Third"), "a function has not the types of its messages");
    }
    reach(1 + way);
}
/// names of operations are identifiers; the types are those generated for the elements of the schema
#[no_mangle]
pub extern "C" fn h_wsdl_name() {
    let kind = pick(3);
    let n = if kind == 0 { ncname(param(0) as u32, param(1) as u32) } else { ncname(param(2) as u32, param(3) as u32) };
    assume(has_alnum(&n));
    let (el, op) = if kind == 0 { ("Some", &n[..]) } else { (&n[..], "Op") };
    // the declarations of the schema are kept in hash maps
    let mut el = el.to_string();
    conc(unsafe { el.as_bytes_mut() });
    let decl = match kind {
        1 => format!("<xs:element name=\"{el}\"><xs:simpleType><xs:restriction base=\"xs:string\"><xs:maxLength value=\"3\"/></xs:restriction></xs:simpleType></xs:element>"),
        _ => format!("<xs:element name=\"{el}\"><xs:complexType><xs:sequence><xs:element name=\"z\" type=\"xs:int\"/></xs:sequence></xs:complexType></xs:element>"),
    };
    let sch = schema(&decl);
    let part = |p: &str| format!("<w:part name=\"parameters\" element=\"{p}:{el}\"/>");
    let body = format!(
        "<w:types>{sch}</w:types><w:message name=\"a\">{}</w:message><w:message name=\"b\">{}</w:message><w:portType name=\"P\"><w:operation name=\"{op}\"><w:input message=\"t:a\"/><w:output message=\"t:b\"/></w:operation></w:portType>",
        part("t"),
        part("o")
    );
    let funs = wsdl(&format!("xmlns:t=\"{TNS}\" xmlns:o=\"urn:o\""), &body);
    let types = generate(&sch);
    let (items, funs) = (read(&types), read(&funs));
    check(funs.len() == 1, "there is not one function for every operation");
    let (q, r) = function(&funs[0]);
    check(find(&items, q).is_some(), "the type of a request is not the one generated for its element");
    check(r.strip_prefix("o::") == Some(q), "the type of an element of another namespace is not the one generated there");
    reach(1 + kind);
}
/// documentation is in the comments only, and all of it
#[no_mangle]
pub extern "C" fn h_wsdl_doc() {
    let (x, v) = docs::text(param(0) as u32);
    let at = pick(4);
    let d = format!("<w:documentation>{x}</w:documentation>");
    let p = |k: u32| if k == at { &d[..] } else { "" };
    let body = |d: &dyn Fn(u32) -> String| {
        format!(
            "{}<w:message name=\"a\">{}<w:part name=\"p\" element=\"t:some\"/></w:message><w:portType name=\"P\">{}<w:operation name=\"op\">{}<w:input message=\"t:a\"/></w:operation></w:portType>",
            d(1),
            d(2),
            d(3),
            d(0)
        )
    };
    let ns = format!("xmlns:t=\"{TNS}\"");
    let plain = wsdl(&ns, &body(&|_| String::new()));
    let out = wsdl(&ns, &body(&|k| p(k).to_string()));
    let (a, b) = (tokens(&plain), tokens(&out));
    let (a, b) = (docs::code(&a), docs::code(&b));
    check(a.len() == b.len(), "documentation changes the generated code");
    for (x, y) in a.iter().zip(&b) {
        check(x == y, "documentation changes the generated code");
    }
    if at == 0 {
        let items = read(&out);
        docs::kept(&v, &by_name(&items, "op").m.doc);
        reach(2);
    }
    reach(1);
}
/// what is generated does not depend on the order of hash maps
#[no_mangle]
pub extern "C" fn h_wsdl_same() {
    let ns = format!("xmlns:t=\"{TNS}\"");
    let mut body = String::new();
    // names that differ, or begin, end or continue one another
    let family = pick(4);
    for i in 0..2 + pick(4) as usize {
        let m = match family {
            0 => format!("m{i}"),
            1 => format!("{}Req", &"dcba"[4 - i.min(4)..]),
            2 => format!("Req{}", &"abcd"[..i.min(4)]),
            _ => format!("{}m{}", &"xxxx"[i.min(4)..], &"yyyy"[..i.min(4)]),
        };
        body += &format!("<w:message name=\"{m}\"><w:part name=\"p\" element=\"t:el{i}\"/></w:message><w:portType name=\"p{i}\"><w:operation name=\"op{i}\"><w:input message=\"t:{m}\"/></w:operation></w:portType>");
    }
    let x = document(&ns, &body);
    hash_seed(0);
    let a = generate_wsdl(&x);
    hash_seed(1 + pick(param(0) as u32) as u64);
    let b = generate_wsdl(&x);
    note(x.as_bytes());
    note(a.as_bytes());
    note(b.as_bytes());
    check(a == b, "two runs generate different text");
    reach(1);
}
/// what the model of a document says about it
#[no_mangle]
pub extern "C" fn h_wsdl_model() {
    use wsdl_parser::parser::{binding::Binding, port_type::OperationType as Op};
    // two of the parts of the document are free, the others vary a bit with them
    let (free, free2) = (pick(6), pick(6));
    assume(free <= free2);
    let fixed = pick(3) + free2;
    let one_of = |part: u32, n: u32| if part == free || part == free2 { pick(n) } else { (fixed + part) % n };
    let gap = BETWEEN[one_of(0, 5) as usize];
    let gap2 = BETWEEN[((fixed + free) % 5) as usize];
    let text = |n: usize| {
        let mut b = vec![0u8; n];
        sym(&mut b);
        for c in &b {
            assume((*c > b' ') & (*c < 127) & (*c != b'<') & (*c != b'&') & (*c != b'"'));
        }
        unsafe { String::from_utf8_unchecked(b) }
    };
    let a = format!("u{}", text(1));
    // names in the document: of messages, port types, operations, parts
    let first = one_of(1, 6) as usize;
    let n = |i: usize| ["Aa", "aa", "A-a", "a.a1", "_A", "operation"][(i + first) % 6].to_string();
    // the document itself
    let kind = one_of(2, 6);
    let head = match kind {
        0 => String::new(),
        1 => format!(" name=\"{a}\""),
        2 => format!(" name=\"\" targetNamespace=\"{TNS}\""),
        3 => format!(" targetNamespace=\"{TNS}\" xmlns:tt=\"{TNS}\" name=\"{a}\""),
        4 => format!(" xmlns=\"{TNS}\" targetNamespace=\"{TNS}\""),
        _ => format!(" xmlns:z=\"{TNS}/z\" xmlns:tt=\"{TNS}\" targetNamespace=\"{TNS}\""),
    };
    let imports = one_of(2, 3);
    let mut body = String::new();
    for i in 0..imports {
        body += &format!("{gap}<w:import location=\"{a}{i}\" namespace=\"urn:{i}\">{gap2}</w:import>");
    }
    // types
    let schemas = one_of(3, 4);
    body += gap2;
    if schemas > 0 {
        body += &format!("<w:types>{gap2}");
        for i in 1..schemas {
            let inner = ["", "<xs:import namespace=\"u\"/>", "\n"][((i + fixed) % 3) as usize];
            let end = if inner.is_empty() { "/>".to_string() } else { format!(">{inner}</xs:schema>") };
            body += &format!("<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\" targetNamespace=\"urn:{i}\"{end}{gap}");
        }
        body += "</w:types>";
    }
    // messages
    let count = one_of(3, 3) as usize;
    let forms: Vec<u32> = (0..2).map(|i| one_of(4, if i == 0 { 4 } else { 2 })).collect();
    for i in 0..count {
        body += &format!("<w:message name=\"{}\">{gap}", n(i));
        for (k, f) in forms[..2 - i].iter().enumerate() {
            body += &match f {
                0 => format!("<w:part name=\"{}\" element=\"{a}\"/>", n(k)),
                1 => format!("<w:part type=\"{a}\" name=\"{}\">{gap2}</w:part>", n(k)),
                2 => format!("<w:part name=\"{}\"/>", n(k)),
                _ => format!("<w:part element=\"e:{a}\" type=\"t:{a}\" name=\"{}\"/>", n(k)),
            } 
        }
        body += &format!("</w:message>{gap2}");
    }
    // port types and their operations
    let way = one_of(5, 4);
    let faults = if way == 0 || way == 2 { one_of(5, 3) } else { 0 };
    let order = one_of(4, 2) == 1;
    let doc = one_of(5, 3);
    let pname = one_of(4, 2) == 1;
    let pn = |p: &str| if pname { format!(" name=\"{p}{a}\"") } else { String::new() };
    let (i, o) = (format!("<w:input{} message=\"in:{a}\"/>", pn("i")), format!("<w:output message=\"out:{a}\"{}>{gap2}</w:output>", pn("o")));
    // comments may be anywhere, other elements not before the last of the parts of an operation
    let inner = if gap.starts_with("<w") || gap.starts_with("<e") { "" } else { gap };
    let io = match way {
        0 => format!("{i}{inner}{o}"),
        1 => i.to_string(),
        2 => format!("{o}{inner}{i}"),
        _ => o.to_string(),
    };
    let f: String = (0..faults).map(|i| format!("<w:fault name=\"f{i}\" message=\"m{i}:{a}\"/>{inner}")).collect();
    let d = ["", "<w:documentation>of <b>this</b> one</w:documentation>", "<!-- not this --><w:documentation/>"][doc as usize];
    let po = if order { format!(" parameterOrder=\"{a} b\"") } else { String::new() };
    let plain = format!("<w:operation name=\"{}\"><w:input message=\"m\"/></w:operation>", n(1));
    let ops = [format!("<w:operation name=\"{}\"{po}>{d}{io}{f}{inner}</w:operation>", n(0)), plain];
    let swap = one_of(3, 2) == 1;
    let ports = 1 + one_of(3, 2) as usize;
    for p in 0..ports {
        body += &format!("<w:portType name=\"{}\">{gap}", n(p + 2));
        for k in 0..2 - p {
            body += &ops[(k + swap as usize) % 2];
            body += gap2;
        }
        body += "</w:portType>";
    }
    let bind = format!("<w:binding name=\"B{a}\" type=\"p:{a}\">{gap}<w:operation name=\"{}\"><w:input/></w:operation></w:binding>", n(0));
    body += &bind;
    body += gap;
    let x = format!("<w:definitions xmlns:w=\"{WS}\"{head}>{body}</w:definitions>");
    note(x.as_bytes());
    let d = match roxmltree::Document::parse(&x) {
        Ok(d) => d,
        Err(_) => fail("the document is rejected"),
    };
    let root = d.root_element();
    let def = Definitions::new(&root);
    let name = match kind {
        1 | 3 => Some(a.as_str()),
        2 => Some(""),
        _ => None,
    };
    check(def.name() == name, "the document has the wrong name");
    let t = def.target_namespace();
    check(t.is_some() == (kind > 2), "the target namespace is missing or made up");
    if let Some(t) = t {
        check(t.uri() == TNS && t.name() == if kind == 4 { None } else { Some("tt") }, "the target namespace is another one");
    }
    check(def.imports().len() == imports as usize, "the document has more or fewer imports");
    for i in 0..imports {
        let ns = format!("urn:{i}");
        check(def.imports().get(&ns[..]).map_or(false, |m| m.namespace() == ns && m.location() == format!("{a}{i}")), "an import is missing or wrong");
    }
    check(def.types().len() == (schemas > 0) as usize, "the types of the document are missing");
    if schemas > 0 {
        let s = def.types()[0].schemas();
        check(s.len() == schemas as usize - 1, "a schema of the document is missing");
        for (i, s) in s.iter().enumerate() {
            check(s.attribute("targetNamespace") == Some(&format!("urn:{}", i + 1)[..]), "the schemas of the document are out of order");
        }
    }
    check(def.messages().len() == count, "the document has more or fewer messages");
    for i in 0..count {
        let m = match def.messages().get(&n(i)[..]) {
            Some(m) => m,
            None => fail("a message is missing"),
        };
        check(m.name() == n(i) && m.parts().len() == 2 - i, "a message has the wrong name or number of parts");
        for (k, (p, f)) in m.parts().iter().zip(&forms).enumerate() {
            let (e, t) = match f {
                0 => (Some(a.clone()), None),
                1 => (None, Some(a.clone())),
                2 => (None, None),
                _ => (Some(format!("e:{a}")), Some(format!("t:{a}"))),
            };
            check(p.name() == n(k), "a part of a message has the wrong name or place");
            check(p.element() == e.as_deref() && p.type_() == t.as_deref(), "a part of a message has the wrong element or type");
        }
    }
    check(def.port_types().len() == ports, "the document has more or fewer port types");
    for p in 0..ports {
        let t = match def.port_types().get(&n(p + 2)[..]) {
            Some(t) => t,
            None => fail("a port type is missing"),
        };
        check(t.name() == n(p + 2) && t.operations().len() == 2 - p, "a port type has the wrong name or number of operations");
        for (k, op) in t.operations().iter().enumerate() {
            let which = (k + swap as usize) % 2;
            check(op.name() == n(which), "an operation has the wrong name or place");
            if which == 1 {
                check(matches!(op.operation_type(), Op::OneWay { input } if input.message() == "m" && input.name().is_none()), "an operation is taken for one of another kind");
                check(op.parameter_order().is_none() && op.documentation().is_none(), "an operation has what another one has");
                continue;
            }
            check(op.parameter_order() == order.then(|| format!("{a} b")).as_deref(), "an operation has the wrong order of parameters");
            check(op.documentation().as_deref() == [None, Some("of this one"), Some("")][doc as usize], "an operation has the wrong documentation");
            let (i, o, fs) = match (way, op.operation_type()) {
                (0, Op::RequestResponse { input, output, faults }) | (2, Op::SolicitResponse { output, input, faults }) => (Some(input), Some(output), &faults[..]),
                (1, Op::OneWay { input }) => (Some(input), None, &[][..]),
                (3, Op::Notification { output }) => (None, Some(output), &[][..]),
                _ => fail("an operation is taken for one of another kind"),
            };
            for (x, q, l) in [(i, "in", "i"), (o, "out", "o")] {
                if let Some(x) = x {
                    check(x.message() == format!("{q}:{a}"), "a parameter of an operation has the wrong message");
                    check(x.name() == pname.then(|| format!("{l}{a}")).as_deref(), "a parameter of an operation has the wrong name");
                }
            }
            check(fs.len() == faults as usize, "an operation has more or fewer faults");
            for (i, f) in fs.iter().enumerate() {
                check(f.name() == format!("f{i}") && f.message() == format!("m{i}:{a}"), "a fault has the wrong name, message or place");
            }
        }
    }
    let b = root.children().filter(|n| n.is_element() && n.tag_name().name() == "binding").next();
    match b {
        Some(b) => {
            let b = Binding::new(&b);
            check(b.name() == format!("B{a}") && b.type_() == format!("p:{a}"), "a binding has the wrong name or type");
        }
        None => fail("the binding is missing"),
    }
    reach(1 + way);
}
