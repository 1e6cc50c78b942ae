use crate::attrs::attr;
use crate::rs::*;
use crate::xsd::*;
use rsxapi::*;
const PERM: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
/// a chain of types C extends B extends A in every order of declaration
#[no_mangle]
pub extern "C" fn h_ext() {
    let order = PERM[pick(6) as usize];
    // what each type adds: nothing, an element, an attribute, both, a group, all of it
    let adds = [pick(5), pick(5), pick(5)];
    let anon = pick(3);
    let docs = pick_bool();
    // how the names of the types' members relate: different, one ends with, starts with, or has
    // inside the other
    let rel = pick(4) as usize;
    let x = letters(1);
    let nm = |i: usize, d: usize| match rel {
        0 => format!("{}{x}{d}", ["a", "b", "c"][i]),
        1 => format!("{}k{x}{d}", ["", "p", "pp"][i]),
        2 => format!("e{d}{x}{}", ["", "s", "st"][i]),
        _ => format!("{}k{x}{d}{}", ["pp", "p", ""][i], ["ss", "s", ""][i]),
    };
    let mut defs = vec![];
    let mut want: Vec<Vec<(String, bool, bool)>> = vec![];
    for i in 0..3 {
        let (l1, l2, l3, l4) = (nm(i, 1), nm(i, 2), nm(i, 3), nm(i, 4));
        let n = ["A", "B", "C"][i];
        let (e, at, gr) = [(false, false, false), (true, false, false), (false, true, false), (true, true, false), (true, false, true)][adds[i] as usize];
        let mut w = vec![];
        let mut c = String::new();
        if e {
            c += &format!("<xs:sequence><xs:element name=\"{l1}\" type=\"xs:int\"/><xs:element name=\"{l2}\" type=\"xs:int\" minOccurs=\"0\"/></xs:sequence>");
            w.push((l1, false, false));
            w.push((l2, false, true));
        }
        if at {
            c += &format!("<xs:attribute name=\"{l3}\" type=\"xs:int\"/>");
            w.push((l3, true, true));
        }
        if gr {
            c += &format!("<xs:attributeGroup ref=\"t:g{n}\"/>");
            w.push((l4.clone(), true, true));
        }
        let d = if docs { "<xs:annotation><xs:documentation>words</xs:documentation></xs:annotation>" } else { "" };
        let body = if i == 0 {
            c
        } else {
            let b = ["", "A", "B"][i];
            let prev: Vec<(String, bool, bool)> = want[i - 1].clone();
            w.extend(prev);
            format!("<xs:complexContent>{d}<xs:extension base=\"t:{b}\">{c}</xs:extension></xs:complexContent>")
        };
        want.push(w);
        let mut t = if i == 2 && anon == 1 {
            format!("<xs:element name=\"C\"><xs:complexType>{body}</xs:complexType></xs:element>")
        } else if i == 2 && anon == 2 {
            format!("<xs:complexType name=\"Outer\"><xs:sequence><xs:element name=\"c\"><xs:complexType>{body}</xs:complexType></xs:element></xs:sequence></xs:complexType>")
        } else {
            format!("<xs:complexType name=\"{n}\">{d}{body}</xs:complexType>")
        };
        t += &format!("<xs:attributeGroup name=\"g{n}\"><xs:attribute name=\"{l4}\" type=\"xs:int\"/></xs:attributeGroup>");
        defs.push(t);
    }
    let body: String = order.iter().map(|i| defs[*i].as_str()).collect();
    let out = generate(&schema(&body));
    let items = read(&out);
    no_clash(&items);
    for i in 0..3 {
        let f = if i == 2 && anon == 2 {
            anonymous(&items, &items, "Outer", "c")
        } else {
            fields(&items, ["A", "B", "C"][i], "a type is missing")
        };
        for (n, a, o) in &want[i] {
            let n = n.as_str();
            let x = if *a { attr(f, n) } else { f.iter().find(|f| !f.m.has("attribute") && f.xml() == n) };
            match x {
                Some(x) => check(x.ty == if *o { "Option<i32>" } else { "i32" }, "an inherited field has the wrong type"),
                None => fail("a field of the base or the type itself is missing"),
            }
        }
        check(f.len() == want[i].len(), "the type has fields that neither it nor its base declares");
    }
    reach(1);
}
