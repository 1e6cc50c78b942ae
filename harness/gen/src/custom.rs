//! Generators with parts of the user's own.
use crate::docs;
use crate::misc::ALL;
use crate::rs::*;
use crate::xsd::*;
use rsxapi::*;
use std::borrow::Cow;
use xsd_parser::generator::{
    alias::{AliasGenerator, DefaultAliasGen},
    base::BaseGenerator,
    builder::GeneratorBuilder,
    default::{default_format_name, default_format_type, default_modify_type},
    enum_case::{DefaultEnumCaseGen, EnumCaseGenerator},
    import::{DefaultImportGen, ImportGenerator},
    r#enum::{DefaultEnumGen, EnumGenerator},
    r#struct::{DefaultStructGen, StructGenerator},
    struct_field::{DefaultStructFieldGen, StructFieldGenerator},
    tuple_struct::{DefaultTupleStructGen, TupleStructGenerator},
    Generator,
};
use xsd_parser::parser::types::{Alias, Enum, EnumCase, Import, RsFile, Struct, StructField, TupleStruct, TypeModifier};
macro_rules! marked {
    ($($t:ident: $g:ident, $d:ident, $e:ident, $m:expr;)*) => {$(
        /// what the default writes, after a mark
        struct $t;
        impl $g for $t {
            fn generate(&self, x: &$e, gen: &Generator) -> String {
                let s = $d.generate(x, gen);
                if s.is_empty() { s } else { format!("\n{}\n{s}", $m) }
            }
        }
    )*};
}
marked! {
    Tuples: TupleStructGenerator, DefaultTupleStructGen, TupleStruct, "MARK_T";
    Structs: StructGenerator, DefaultStructGen, Struct, "MARK_S";
    Fields: StructFieldGenerator, DefaultStructFieldGen, StructField, "MARK_F";
    Cases: EnumCaseGenerator, DefaultEnumCaseGen, EnumCase, "MARK_C";
    Enums: EnumGenerator, DefaultEnumGen, Enum, "MARK_E";
    Aliases: AliasGenerator, DefaultAliasGen, Alias, "MARK_A";
    Imports: ImportGenerator, DefaultImportGen, Import, "MARK_I";
}
const MARKS: [&str; 7] = ["MARK_T", "MARK_S", "MARK_F", "MARK_C", "MARK_E", "MARK_A", "MARK_I"];
/// one method of a part is the user's: what stands before the item, its comment, or its validation
struct Method(u32);
impl StructGenerator for Method {
    fn macros(&self, x: &Struct, gen: &Generator) -> Cow<'static, str> {
        if self.0 == 0 { "OWN_M\n".into() } else { DefaultStructGen.macros(x, gen) }
    }
    fn format_comment(&self, x: &Struct, gen: &Generator) -> String {
        if self.0 == 1 { "// own\n".to_string() } else { DefaultStructGen.format_comment(x, gen) }
    }
    fn validation(&self, x: &Struct, gen: &Generator) -> Cow<'static, str> {
        if self.0 == 2 { "OWN_V;\n".into() } else { DefaultStructGen.validation(x, gen) }
    }
}
impl EnumGenerator for Method {
    fn macros(&self, x: &Enum, gen: &Generator) -> Cow<'static, str> {
        if self.0 == 0 { "OWN_M\n".into() } else { DefaultEnumGen.macros(x, gen) }
    }
    fn format_comment(&self, x: &Enum, gen: &Generator) -> String {
        if self.0 == 1 { "// own\n".to_string() } else { DefaultEnumGen.format_comment(x, gen) }
    }
    fn validation(&self, x: &Enum, gen: &Generator) -> Cow<'static, str> {
        if self.0 == 2 { "OWN_V;\n".into() } else { DefaultEnumGen.validation(x, gen) }
    }
}
impl TupleStructGenerator for Method {
    fn macros(&self, x: &TupleStruct, gen: &Generator) -> Cow<'static, str> {
        if self.0 == 0 { "OWN_M\n".into() } else { DefaultTupleStructGen.macros(x, gen) }
    }
    fn format_comment(&self, x: &TupleStruct, gen: &Generator) -> String {
        if self.0 == 1 { "// own\n".to_string() } else { DefaultTupleStructGen.format_comment(x, gen) }
    }
    fn validation(&self, x: &TupleStruct, gen: &Generator) -> Cow<'static, str> {
        if self.0 == 2 { "OWN_V;\n".into() } else { DefaultTupleStructGen.validation(x, gen) }
    }
}
impl StructFieldGenerator for Method {
    fn macros(&self, x: &StructField, gen: &Generator) -> String {
        if self.0 == 0 { "OWN_M\n".to_string() } else { DefaultStructFieldGen.macros(x, gen) }
    }
    fn format_comment(&self, x: &StructField, gen: &Generator) -> String {
        if self.0 == 1 { "// own\n".to_string() } else { DefaultStructFieldGen.format_comment(x, gen) }
    }
}
impl EnumCaseGenerator for Method {
    fn macros(&self, x: &EnumCase, gen: &Generator) -> String {
        if self.0 == 0 { "OWN_M\n".to_string() } else { DefaultEnumCaseGen.macros(x, gen) }
    }
    fn format_comment(&self, x: &EnumCase, gen: &Generator) -> String {
        if self.0 == 1 { "// own\n".to_string() } else { DefaultEnumCaseGen.format_comment(x, gen) }
    }
}
/// one method of the base is the user's
#[derive(Default)]
struct Base {
    indent: Option<usize>,
    ty: &'static str,
    name: &'static str,
    module: &'static str,
    wrap: bool,
    comment: bool,
}
impl BaseGenerator for Base {
    fn indent_size(&self) -> usize {
        self.indent.unwrap_or(4)
    }
    fn format_type_name(&self, n: &str, gen: &Generator) -> Cow<'_, str> {
        struct Plain;
        impl BaseGenerator for Plain {}
        let t = Plain.format_type_name(n, gen).to_string();
        // the name may stand behind the module of an inner type
        if !self.ty.is_empty() && (t == self.ty || t.strip_suffix(self.ty).is_some_and(|x| x.ends_with("::"))) {
            check(t == default_format_type(n, &gen.target_ns.borrow()), "a type of the schema is taken for a built-in type");
            return format!("{t}Own").into();
        }
        t.into()
    }
    fn format_name(&self, n: &str) -> Cow<'_, str> {
        let t = default_format_name(n);
        if t == self.name { format!("{t}_own").into() } else { t.into() }
    }
    fn mod_name(&self, n: &str) -> String {
        let t = default_format_name(n);
        if t == self.module { format!("{t}_own") } else { t }
    }
    fn modify_type(&self, n: &str, m: &[TypeModifier]) -> Cow<'_, str> {
        let t = default_modify_type(n, m);
        if self.wrap { t.replace("Option<", "Maybe<").replace("Vec<", "Many<").into() } else { t.to_string().into() }
    }
    fn format_comment(&self, c: Option<&str>, indent: usize) -> String {
        struct Plain;
        impl BaseGenerator for Plain {}
        if self.comment && c.is_some() {
            return "// own\n".to_string();
        }
        Plain.format_comment(c, indent)
    }
}
/// types of the schema at every place where a type is used
const USES: &str = "<xs:element name=\"ali\" type=\"t:Foo\"/><xs:simpleType name=\"UnOwn\"><xs:union memberTypes=\"t:En xs:int t:Tu\"/></xs:simpleType><xs:simpleType name=\"LiOwn\"><xs:list itemType=\"t:Nu\"/></xs:simpleType>\
<xs:simpleType name=\"TuOwn\"><xs:restriction base=\"t:Tu\"/></xs:simpleType><xs:complexType name=\"Usr\"><xs:choice><xs:element name=\"c\" type=\"t:Un\"/><xs:element ref=\"t:glob\"/></xs:choice><xs:attribute name=\"v\" type=\"t:Li\"/><xs:attribute name=\"w\" type=\"t:En\" use=\"required\"/></xs:complexType>";
const TYPES: [&str; 14] = ["Glob", "Foo", "TwoType", "FiveType", "Der", "Res", "Sim", "Cho", "ChoChoice", "En", "Tu", "Nu", "Li", "Un"];
const NAMES: [&str; 8] = ["one", "two", "three", "five", "k", "own", "z", "m"];
const MODS: [&str; 2] = ["foo", "cho"];
fn with(f: &RsFile<'_>, b: GeneratorBuilder<'_>) -> String {
    // the lifetimes of both are those of the document
    let b: GeneratorBuilder<'_> = unsafe { std::mem::transmute(b) };
    b.build().generate_rs_file(f)
}
/// the user's parts are used for everything of their kind, and the rest is as it was
#[no_mangle]
pub extern "C" fn h_custom() {
    let at = pick(6) as usize * 7;
    let doc = docs::put(Some("words"), at);
    let which = pick(2);
    let x = schema(&if which == 0 { format!("{ALL}{USES}") } else { doc });
    note(x.as_bytes());
    let f = match xsd_parser::parser::parse(&x) {
        Ok(f) => f,
        Err(_) => fail("the schema is rejected"),
    };
    let plain = with(&f, GeneratorBuilder::default());
    let base = tokens(&plain);
    let kind = pick(7);
    let n = |t: &[T], n: &str| t.iter().filter(|t| **t == T::Id(n)).count();
    let mut b = GeneratorBuilder::default();
    match kind {
        // whole parts
        0 => {
            // in either order
            let (i, j) = (pick(7), pick(7));
            let on = |k: u32| k == i || k == j;
            for k in [i, j] {
                b = match k {
                    0 => b.with_tuple_struct_gen(Box::new(Tuples)),
                    1 => b.with_struct_gen(Box::new(Structs)),
                    2 => b.with_struct_field_gen(Box::new(Fields)),
                    3 => b.with_enum_case_gen(Box::new(Cases)),
                    4 => b.with_enum_gen(Box::new(Enums)),
                    5 => b.with_alias_gen(Box::new(Aliases)),
                    _ => b.with_import_gen(Box::new(Imports)),
                };
            }
            let s = with(&f, b);
            note(s.as_bytes());
            let t = tokens(&s);
            let items = read(&plain);
            let mut c = [0; 7];
            count(&items, &mut c);
            for t in &base {
                if let T::Com(x) = t {
                    c[5] += x.starts_with("// pub type ") as usize;
                    c[6] += x.starts_with("//use ") as usize;
                }
            }
            for k in 0..7 {
                check(n(&t, MARKS[k]) == if on(k as u32) { c[k] } else { 0 }, "a part of the user's own is not used for everything of its kind");
            }
            let t: Vec<T> = t.into_iter().filter(|t| !matches!(t, T::Id(x) if x.starts_with("MARK_"))).collect();
            check(t == base, "a part of the user's own changes more than what it writes");
        }
        // one method of a part
        1 => {
            let (k, what) = (pick(5) as usize, pick(3));
            assume(k < 3 || what < 2);
            let m = Method(what);
            b = match k {
                0 => b.with_struct_gen(Box::new(m)),
                1 => b.with_enum_gen(Box::new(m)),
                2 => b.with_tuple_struct_gen(Box::new(m)),
                3 => b.with_struct_field_gen(Box::new(m)),
                _ => b.with_enum_case_gen(Box::new(m)),
            };
            let s = with(&f, b);
            note(s.as_bytes());
            let t = tokens(&s);
            let items = read(&plain);
            let mut c = [0; 7];
            count(&items, &mut c);
            let want = [c[1], c[4], c[0], c[2], c[3]][k];
            let mark = [T::Id("OWN_M"), T::Com("// own"), T::Id("OWN_V")][what as usize];
            check(t.iter().filter(|t| **t == mark).count() == want, "a method of the user's own is not used for everything of its kind");
            // the rest: what is left without what the method writes
            check(bare_of(&t, what) == bare_of(&base, what), "a method of the user's own changes more than what it writes");
        }
        // names
        2 | 3 | 4 => {
            let mut own = Base::default();
            let (name, what) = match kind {
                2 => {
                    own.ty = TYPES[pick(14) as usize];
                    (own.ty, "Own")
                }
                3 => {
                    own.name = NAMES[pick(8) as usize];
                    (own.name, "_own")
                }
                _ => {
                    own.module = MODS[pick(2) as usize];
                    (own.module, "_own")
                }
            };
            b = b.with_base_gen(Box::new(own));
            let s = with(&f, b);
            note(s.as_bytes());
            let t = tokens(&s);
            let new = format!("{name}{what}");
            check(t.len() == base.len(), "a name of the user's own changes more than the name");
            for (i, (x, y)) in t.iter().zip(&base).enumerate() {
                // modules are told from fields by what stands next to them
                let module = (i > 0 && base[i - 1] == T::Id("mod")) || (i + 2 < base.len() && base[i + 1] == T::P(b':') && base[i + 2] == T::P(b':'));
                let meant = *y == T::Id(name) && (kind == 2 || module == (kind == 4));
                // the names of an alias follow as well
                if let (T::Com(x), T::Com(y)) = (x, y) {
                    let ids = |x| tokens(x).into_iter().map(|t| if kind == 2 && t == T::Id(name) { T::Id(&new) } else { t }).collect::<Vec<T>>();
                    let same = if y.starts_with("// pub type ") { tokens(&x[2..]) == ids(&y[2..]) } else { x == y };
                    check(same, "a name of the user's own is not used everywhere, or elsewhere");
                    continue;
                }
                // names of variants are no names of types
                let variant = kind == 2 && base.get(i + 1) == Some(&T::P(b'(')) && i > 0 && base[i - 1] != T::Id("struct");
                check(variant && *x == *y || *x == if meant { T::Id(&new) } else { *y }, "a name of the user's own is not used everywhere, or elsewhere");
            }
        }
        // comments and types of fields
        5 => {
            let wrap = pick_bool();
            b = b.with_base_gen(Box::new(Base { wrap, comment: !wrap, ..Base::default() }));
            let s = with(&f, b);
            note(s.as_bytes());
            let t = tokens(&s);
            check(t.len() == base.len(), "a method of the user's own changes more than it writes");
            for (x, y) in t.iter().zip(&base) {
                let want = match y {
                    T::Id("Option") if wrap => T::Id("Maybe"),
                    T::Id("Vec") if wrap => T::Id("Many"),
                    T::Com(c) if !wrap && c.contains("words") => T::Com("// own"),
                    _ => *y,
                };
                check(*x == want, "a method of the user's own is not used everywhere, or elsewhere");
            }
        }
        _ => {
            let size = pick(9) as usize;
            b = b.with_base_gen(Box::new(Base { indent: Some(size), ..Base::default() }));
            let s = with(&f, b);
            note(s.as_bytes());
            check(tokens(&s) == base, "the indentation changes more than white space");
            let mut mods = 0;
            for l in s.lines() {
                let at = l.len() - l.trim_start().len();
                let l = l.trim_start();
                mods += l.starts_with("pub mod ") as usize;
                if l.starts_with("pub ") && !l.starts_with("pub mod") && l.ends_with(',') {
                    check(at == size || (mods > 0 && at % size.max(1) == 0), "a field has the wrong indentation");
                }
            }
        }
    }
    reach(1 + kind);
}
/// how many of each kind there are
fn count(items: &[Item], c: &mut [usize; 7]) {
    for i in items {
        match &i.kind {
            Kind::Tuple(_) => c[0] += 1,
            Kind::Struct(f) => {
                c[1] += 1;
                c[2] += f.len();
            }
            Kind::Enum(v) => {
                c[4] += 1;
                c[3] += v.len() - 1;
            }
            Kind::Mod(m) => count(m, c),
            _ => (),
        }
    }
}
/// without attributes, comments or validations and what stands for them
fn bare_of<'a>(t: &[T<'a>], what: u32) -> Vec<T<'a>> {
    let mut r = vec![];
    let (mut i, mut depth) = (0, 0);
    while i < t.len() {
        match t[i] {
            T::P(b'#') if what == 0 => (),
            T::P(b'[') if what == 0 => depth += 1,
            T::P(b']') if what == 0 => depth -= 1,
            T::Id("OWN_M") => (),
            T::Id("OWN_V") => i += 1,
            T::Com(c) if what == 1 && !c.starts_with("// pub type ") && !c.starts_with("//use ") => (),
            T::Id("impl") if what == 2 => {
                // up to the end of its block
                let mut n = 0;
                loop {
                    i += 1;
                    match t[i] {
                        T::P(b'{') => n += 1,
                        T::P(b'}') => n -= 1,
                        _ => continue,
                    }
                    if n == 0 {
                        break;
                    }
                }
            }
            x if depth == 0 => r.push(x),
            _ => (),
        }
        i += 1;
    }
    r
}
