use crate::attrs::*;
use crate::rs::*;
use crate::xsd::*;
use rsxapi::*;
/// the alternatives of a choice: text and expected variants (XML name, type)
pub fn alternatives(n: u32, tag: &str) -> (String, Vec<(String, String)>) {
    let mut t = String::new();
    let mut w = vec![];
    // names that differ, differ in case, or contain one another
    let style = if n > 1 { pick(4) } else { 0 };
    for i in 0..n {
        let name = match style {
            0 => format!("{tag}{i}"),
            1 => format!("{tag}{}", ["b", "B", "C"][i as usize % 3]),
            2 => format!("{tag}{}", ["", "s", "st"][i as usize % 3]),
            _ => format!("{}{tag}", ["", "p", "pp"][i as usize % 3]),
        };
        let (o, min, max) = match pick(if i == 0 { 5 } else { 2 }) {
            0 => ("", 1, Some(1)),
            1 => (" maxOccurs=\"unbounded\"", 1, None),
            2 => (" minOccurs=\"0\"", 0, Some(1)),
            3 => (" minOccurs=\"0\" maxOccurs=\"1\"", 0, Some(1)),
            _ => (" minOccurs=\"2\" maxOccurs=\"9\"", 2, Some(9)),
        };
        match pick(4) {
            0 => {
                t += &format!("<xs:element name=\"{name}\" type=\"xs:int\"{o}/>");
                w.push((name, wrapped("i32", min, max)));
            }
            1 => {
                t += &format!("<xs:element name=\"{name}\"{o} type=\"t:Item\"/>");
                w.push((name, wrapped("Item", min, max)));
            }
            2 => {
                t += &format!("<xs:element ref=\"o:{name}\"{o}/>");
                let up = upper(&name);
                w.push((name, wrapped(&format!("o::{up}"), min, max)));
            }
            _ => {
                t += &format!("<xs:element name=\"{name}\"{o}/>");
                w.push((name, String::new()));
            }
        }
    }
    (t, w)
}
pub fn expect_variants(v: &[Field], w: &[(String, String)]) {
    check(v.len() == w.len() + 1, "the enum has not one variant per alternative");
    for (x, (n, t)) in v.iter().zip(w) {
        check(x.xml() == n, "a variant has the wrong XML name");
        check(&x.ty == t, "a variant has the wrong type");
    }
    check(v[w.len()].name == "__Unknown__" && v[w.len()].ty == "String", "the variant for unknown content is missing");
}
fn check_choice(items: &[Item], f: &Field, w: &[(String, String)]) {
    check(f.m.has("flatten"), "the content of a choice is not flattened into its parent");
    check(!f.m.has("attribute") && !f.m.has("rename"), "the field of a choice is bound to a name");
    match resolve(items, items, &f.ty) {
        Some(e) => match &e.kind {
            Kind::Enum(v) => {
                check(e.m.derives("YaSerialize") && e.m.derives("YaDeserialize"), "the enum of a choice cannot be read or written");
                expect_variants(v, w)
            }
            _ => fail("the type of a choice is not an enum"),
        },
        None => fail("the enum of a choice is missing"),
    }
}
#[no_mangle]
pub extern "C" fn h_choice() {
    let how = pick(3);
    let n = pick(param(0) as u32 + 1);
    let (c, w) = alternatives(n, &format!("a{}", letters(2)));
    let form = pick(3);
    let a = "<xs:attribute name=\"k\" type=\"xs:int\"/>";
    let body = match form {
        0 => format!("<xs:choice>{c}</xs:choice>{a}"),
        1 => format!("<xs:complexContent><xs:extension base=\"t:Item\"><xs:choice>{c}</xs:choice>{a}</xs:extension></xs:complexContent>"),
        _ => format!("<xs:sequence><xs:choice>{c}</xs:choice></xs:sequence>{a}"),
    };
    if n == 0 && form < 2 {
        assume(false)
    }
    let out = generate(&schema(&format!("{ITEM}{}", place(&body, how))));
    let items = read(&out);
    no_clash(&items);
    let f = placed(&items, how);
    check(attr(f, "k").map_or(false, |x| x.ty == "Option<i32>"), "an attribute next to a choice is missing");
    let mut flat = f.iter().filter(|f| f.m.has("flatten"));
    match flat.next() {
        Some(x) => check_choice(if how == 2 { module(&items, "outer").unwrap_or(&[]) } else { &items }, x, &w),
        None => fail("the choice has no field"),
    }
    check(flat.next().is_none(), "a choice has two fields");
    check(f.len() == 2 + 2 * (form == 1) as usize, "the type has fields it should not have");
    reach(1 + form);
}
/// sequences of elements and choices
#[no_mangle]
pub extern "C" fn h_choice_seq() {
    let how = pick(3);
    let mut t = String::new();
    let mut want = vec![];
    let x = letters(2);
    for i in 0..1 + pick(3) {
        if pick_bool() {
            let tag = format!("{}{x}", ["a", "b", "c"][i as usize]);
            let n = 1 + i % 2;
            let c = (0..n).map(|k| format!("<xs:element name=\"{tag}{k}\" type=\"xs:int\"/>")).collect::<String>();
            let w: Vec<_> = (0..n).map(|k| (format!("{tag}{k}"), "i32".to_string())).collect();
            t += &format!("<xs:choice>{c}</xs:choice>");
            want.push((String::new(), w));
        } else {
            let n = format!("e{x}{i}");
            t += &format!("<xs:element name=\"{n}\" type=\"xs:int\"/>");
            want.push((n, vec![]));
        }
    }
    let out = generate(&schema(&format!("{ITEM}{}", place(&format!("<xs:sequence>{t}</xs:sequence>"), how))));
    let items = read(&out);
    no_clash(&items);
    let f = placed(&items, how);
    check(f.len() == want.len(), "the type has not one field per element or choice");
    for (x, (n, w)) in f.iter().zip(&want) {
        if n.is_empty() {
            check_choice(if how == 2 { module(&items, "outer").unwrap_or(&[]) } else { &items }, x, w)
        } else {
            check(x.xml() == n && x.ty == "i32", "an element next to a choice has the wrong field")
        }
    }
    reach(1);
}
