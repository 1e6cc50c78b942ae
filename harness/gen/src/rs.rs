//! A reader of the Rust items the generator writes: an independent tokeniser and item parser.
//! Anything it cannot read as Rust is a failure.
use rsxapi::*;
#[derive(Clone, Copy, PartialEq)]
pub enum T<'a> {
    Id(&'a str),
    Str(&'a str),
    Num(&'a str),
    P(u8),
    Com(&'a str),
}
use T::{Com, Id, Num, Str};
pub const KEYWORDS: [&str; 52] = [
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match",
    "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use",
    "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized",
    "virtual", "yield", "try", "_",
];
pub fn is_keyword(s: &str) -> bool {
    KEYWORDS.iter().any(|k| *k == s)
}
fn id_char(c: u8) -> bool {
    c.is_ascii_alphanumeric() | (c == b'_') | (c >= 128)
}
/// every character beyond ASCII of an identifier must be a letter or digit
fn check_ident(s: &str) {
    for (i, c) in s.chars().enumerate() {
        if c as u32 >= 128 {
            check(if i == 0 { c.is_alphabetic() } else { c.is_alphanumeric() }, "generated identifier has an invalid character");
        }
    }
}
pub fn tokens(s: &str) -> Vec<T<'_>> {
    let b = s.as_bytes();
    let mut r = Vec::with_capacity(s.len() / 4);
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let st = i;
        if (c == b' ') | (c == b'\n') | (c == b'\t') | (c == b'\r') {
            i += 1;
        } else if c == b'/' && i + 1 < b.len() && b[i + 1] == b'/' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            r.push(Com(&s[st..i]));
        } else if c == b'/' && i + 1 < b.len() && b[i + 1] == b'*' {
            fail("generated text contains a block comment")
        } else if c == b'r' && i + 2 < b.len() && b[i + 1] == b'#' && b[i + 2] == b'"' {
            fail("generated text contains a raw string")
        } else if c == b'r' && i + 2 < b.len() && b[i + 1] == b'#' && id_char(b[i + 2]) {
            i += 2;
            while i < b.len() && id_char(b[i]) {
                i += 1;
            }
            r.push(Id(&s[st..i]));
        } else if c.is_ascii_digit() {
            while i < b.len() && id_char(b[i]) {
                i += 1;
            }
            r.push(Num(&s[st..i]));
        } else if id_char(c) {
            while i < b.len() && id_char(b[i]) {
                i += 1;
            }
            check_ident(&s[st..i]);
            r.push(Id(&s[st..i]));
        } else if c == b'"' {
            i += 1;
            loop {
                if i >= b.len() {
                    fail("generated text has an unterminated string");
                }
                if b[i] == b'\\' {
                    i += 2;
                } else if b[i] == b'"' {
                    break;
                } else {
                    i += 1;
                }
            }
            i += 1;
            r.push(Str(&s[st + 1..i - 1]));
        } else {
            r.push(T::P(c));
            i += 1;
        }
    }
    r
}
#[derive(Default, Clone)]
pub struct Meta<'a> {
    pub doc: Vec<&'a str>,
    pub derives: Vec<&'a str>,
    /// yaserde(...) entries: key and text
    pub serde: Vec<(&'a str, Option<&'a str>)>,
    pub other: usize,
}
impl<'a> Meta<'a> {
    pub fn has(&self, k: &str) -> bool {
        self.serde.iter().any(|x| x.0 == k)
    }
    pub fn get(&self, k: &str) -> Option<&'a str> {
        self.serde.iter().find(|x| x.0 == k).and_then(|x| x.1)
    }
    pub fn derives(&self, k: &str) -> bool {
        self.derives.contains(&k)
    }
}
pub struct Field<'a> {
    pub m: Meta<'a>,
    pub name: &'a str,
    pub ty: String,
}
impl<'a> Field<'a> {
    /// the name of the field in XML
    pub fn xml(&self) -> &'a str {
        self.m.get("rename").unwrap_or(self.name)
    }
}
pub enum Kind<'a> {
    Struct(Vec<Field<'a>>),
    Tuple(String),
    /// a variant without a value has the type ""
    Enum(Vec<Field<'a>>),
    Mod(Vec<Item<'a>>),
    Impl(&'a str, Vec<T<'a>>),
    Use(String),
    Alias(String),
    Fn(Fun<'a>),
}
#[derive(Default)]
pub struct Fun<'a> {
    pub is_async: bool,
    pub generics: Vec<T<'a>>,
    pub args: Vec<(&'a str, String)>,
    pub ret: String,
    pub body: Vec<T<'a>>,
}
pub struct Item<'a> {
    pub m: Meta<'a>,
    pub name: &'a str,
    pub kind: Kind<'a>,
}
pub struct Rd<'a> {
    t: Vec<T<'a>>,
    i: usize,
}
impl<'a> Rd<'a> {
    fn peek(&self) -> Option<T<'a>> {
        self.t.get(self.i).copied()
    }
    fn is(&self, x: T) -> bool {
        self.peek() == Some(x)
    }
    fn eat(&mut self, x: T) -> bool {
        let r = self.is(x);
        self.i += r as usize;
        r
    }
    fn want(&mut self, x: T, what: &str) {
        if !self.eat(x) {
            fail(what)
        }
    }
    fn ident(&mut self, what: &str) -> &'a str {
        match self.peek() {
            Some(Id(s)) => {
                if is_keyword(s) {
                    fail(what)
                }
                self.i += 1;
                s
            }
            _ => fail(what),
        }
    }
    fn meta(&mut self) -> Meta<'a> {
        let mut m = Meta::default();
        loop {
            match self.peek() {
                Some(Com(c)) => {
                    m.doc.push(c);
                    self.i += 1;
                }
                Some(T::P(b'#')) => {
                    self.i += 1;
                    self.want(T::P(b'['), "malformed attribute");
                    match self.peek() {
                        Some(Id("derive")) => {
                            self.i += 1;
                            self.want(T::P(b'('), "malformed derive");
                            while !self.eat(T::P(b')')) {
                                let s = self.ident("malformed derive");
                                m.derives.push(s);
                                if !self.eat(T::P(b',')) && !self.is(T::P(b')')) {
                                    fail("malformed derive")
                                }
                            }
                            self.want(T::P(b']'), "malformed attribute");
                        }
                        Some(Id("yaserde")) => {
                            self.i += 1;
                            self.want(T::P(b'('), "malformed yaserde attribute");
                            while !self.eat(T::P(b')')) {
                                let k = self.ident("malformed yaserde attribute");
                                let mut v = None;
                                if self.eat(T::P(b'=')) {
                                    match self.peek() {
                                        Some(Str(s)) => {
                                            v = Some(s);
                                            self.i += 1;
                                        }
                                        _ => fail("malformed yaserde attribute"),
                                    }
                                }
                                if m.has(k) {
                                    fail("repeated key in a yaserde attribute")
                                }
                                m.serde.push((k, v));
                                if !self.eat(T::P(b',')) && !self.is(T::P(b')')) {
                                    fail("malformed yaserde attribute")
                                }
                            }
                            self.want(T::P(b']'), "malformed attribute");
                        }
                        _ => {
                            m.other += 1;
                            self.balanced(b'[', b']');
                        }
                    }
                }
                _ => return m,
            }
        }
    }
    /// tokens up to the closing bracket; the opening one has been consumed
    fn balanced(&mut self, o: u8, c: u8) -> Vec<T<'a>> {
        let st = self.i;
        let mut d = 1;
        loop {
            match self.peek() {
                Some(T::P(x)) if x == o => d += 1,
                Some(T::P(x)) if x == c => d -= 1,
                None => fail("unbalanced brackets in the generated text"),
                _ => (),
            }
            self.i += 1;
            if d == 0 {
                return self.t[st..self.i - 1].to_vec();
            }
        }
    }
    pub fn ty(&mut self) -> String {
        if self.eat(T::P(b'(')) {
            let mut r = String::from("(");
            while !self.eat(T::P(b')')) {
                r.push_str(&self.ty());
                if self.eat(T::P(b',')) {
                    r.push(',');
                } else if !self.is(T::P(b')')) {
                    fail("malformed tuple type")
                }
            }
            r.push(')');
            return r;
        }
        let mut r = String::new();
        if self.eat(T::P(b'&')) {
            r.push('&');
        }
        loop {
            r.push_str(self.ident("malformed or reserved type name"));
            if self.eat(T::P(b':')) {
                self.want(T::P(b':'), "malformed path");
                r.push_str("::");
                continue;
            }
            break;
        }
        if self.eat(T::P(b'<')) {
            r.push('<');
            loop {
                r.push_str(&self.ty());
                if self.eat(T::P(b',')) {
                    r.push(',');
                    continue;
                }
                break;
            }
            self.want(T::P(b'>'), "malformed generic type");
            r.push('>');
        }
        r
    }
    fn fields(&mut self) -> Vec<Field<'a>> {
        let mut r: Vec<Field> = vec![];
        loop {
            let m = self.meta();
            if self.eat(T::P(b'}')) {
                return r;
            }
            self.want(Id("pub"), "a field is not public");
            let name = self.ident("a field name is not an identifier");
            self.want(T::P(b':'), "malformed field");
            let ty = self.ty();
            if !self.eat(T::P(b',')) && !self.is(T::P(b'}')) {
                fail("malformed field")
            }
            r.push(Field { m, name, ty });
        }
    }
    fn cases(&mut self) -> Vec<Field<'a>> {
        let mut r = vec![];
        loop {
            let m = self.meta();
            if self.eat(T::P(b'}')) {
                return r;
            }
            let name = self.ident("a variant name is not an identifier");
            let mut ty = String::new();
            if self.eat(T::P(b'(')) {
                ty = self.ty();
                self.want(T::P(b')'), "malformed variant");
            }
            if !self.eat(T::P(b',')) && !self.is(T::P(b'}')) {
                fail("malformed variant")
            }
            r.push(Field { m, name, ty });
        }
    }
    fn items(&mut self, inner: bool) -> Vec<Item<'a>> {
        let mut r = vec![];
        loop {
            let m = self.meta();
            match self.peek() {
                None => {
                    if inner {
                        fail("unbalanced brackets in the generated text")
                    }
                    return r;
                }
                Some(T::P(b'}')) if inner => {
                    self.i += 1;
                    return r;
                }
                _ => (),
            }
            self.eat(Id("pub"));
            let is_async = self.eat(Id("async"));
            let (name, kind) = match self.peek() {
                Some(Id("struct")) => {
                    self.i += 1;
                    let n = self.ident("a type name is not an identifier");
                    if self.eat(T::P(b'(')) {
                        self.want(Id("pub"), "a tuple field is not public");
                        let t = self.ty();
                        self.want(T::P(b')'), "malformed tuple struct");
                        self.want(T::P(b';'), "malformed tuple struct");
                        (n, Kind::Tuple(t))
                    } else {
                        self.want(T::P(b'{'), "malformed struct");
                        (n, Kind::Struct(self.fields()))
                    }
                }
                Some(Id("enum")) => {
                    self.i += 1;
                    let n = self.ident("a type name is not an identifier");
                    self.want(T::P(b'{'), "malformed enum");
                    (n, Kind::Enum(self.cases()))
                }
                Some(Id("mod")) => {
                    self.i += 1;
                    let n = self.ident("a module name is not an identifier");
                    self.want(T::P(b'{'), "malformed module");
                    (n, Kind::Mod(self.items(true)))
                }
                Some(Id("impl")) => {
                    self.i += 1;
                    let tr = self.ident("malformed impl");
                    self.want(Id("for"), "malformed impl");
                    let n = self.ident("malformed impl");
                    self.want(T::P(b'{'), "malformed impl");
                    (n, Kind::Impl(tr, self.balanced(b'{', b'}')))
                }
                Some(Id("use")) => {
                    self.i += 1;
                    let mut s = String::new();
                    while !self.eat(T::P(b';')) {
                        match self.peek() {
                            Some(Id(x)) => s.push_str(x),
                            Some(T::P(x)) => s.push(x as char),
                            _ => fail("malformed use"),
                        }
                        self.i += 1;
                    }
                    ("use", Kind::Use(s))
                }
                Some(Id("type")) => {
                    self.i += 1;
                    let n = self.ident("a type name is not an identifier");
                    self.want(T::P(b'='), "malformed type alias");
                    let t = self.ty();
                    self.want(T::P(b';'), "malformed type alias");
                    (n, Kind::Alias(t))
                }
                Some(Id("fn")) => {
                    self.i += 1;
                    let n = self.ident("a function name is not an identifier");
                    let mut f = Fun { is_async, ..Default::default() };
                    if self.eat(T::P(b'<')) {
                        while !self.eat(T::P(b'>')) {
                            match self.peek() {
                                Some(t) => f.generics.push(t),
                                None => fail("malformed function"),
                            }
                            self.i += 1;
                        }
                    }
                    self.want(T::P(b'('), "malformed function");
                    while !self.eat(T::P(b')')) {
                        let a = self.ident("malformed argument");
                        self.want(T::P(b':'), "malformed argument");
                        let t = self.ty();
                        f.args.push((a, t));
                        if !self.eat(T::P(b',')) && !self.is(T::P(b')')) {
                            fail("malformed argument")
                        }
                    }
                    if self.eat(T::P(b'-')) {
                        self.want(T::P(b'>'), "malformed function");
                        f.ret = self.ty();
                    }
                    self.want(T::P(b'{'), "malformed function");
                    f.body = self.balanced(b'{', b'}');
                    (n, Kind::Fn(f))
                }
                _ => fail("generated text is not a list of Rust items"),
            };
            r.push(Item { m, name, kind });
        }
    }
}
pub fn read(s: &str) -> Vec<Item<'_>> {
    Rd { t: tokens(s), i: 0 }.items(false)
}
pub fn try_ident(s: &str) -> bool {
    let t = tokens(s);
    t.len() == 1 && matches!(t[0], Id(x) if !is_keyword(x))
}
fn type_name<'a>(i: &Item<'a>) -> Option<&'a str> {
    match i.kind {
        Kind::Struct(_) | Kind::Tuple(_) | Kind::Enum(_) | Kind::Alias(_) => Some(i.name),
        _ => None,
    }
}
/// names that would clash make the file invalid
pub fn no_clash(items: &[Item]) {
    for (i, a) in items.iter().enumerate() {
        match &a.kind {
            Kind::Struct(f) | Kind::Enum(f) => {
                for (j, x) in f.iter().enumerate() {
                    for y in &f[..j] {
                        check(x.name != y.name, "two fields or variants have the same name");
                    }
                }
            }
            Kind::Mod(m) => no_clash(m),
            _ => (),
        }
        for b in &items[..i] {
            match (type_name(a), type_name(b)) {
                (Some(x), Some(y)) => check(x != y, "two types have the same name"),
                _ => (),
            }
            if let (Kind::Mod(_), Kind::Mod(_)) = (&a.kind, &b.kind) {
                check(a.name != b.name, "two modules have the same name");
            }
        }
    }
}
pub fn find<'x, 'a>(items: &'x [Item<'a>], name: &str) -> Option<&'x Item<'a>> {
    items.iter().find(|i| type_name(i) == Some(name))
}
pub fn module<'x, 'a>(items: &'x [Item<'a>], name: &str) -> Option<&'x [Item<'a>]> {
    items.iter().find_map(|i| match &i.kind {
        Kind::Mod(m) if i.name == name => Some(&m[..]),
        _ => None,
    })
}
pub fn fields<'x, 'a>(items: &'x [Item<'a>], name: &str, what: &str) -> &'x [Field<'a>] {
    match find(items, name) {
        Some(Item { kind: Kind::Struct(f), .. }) => f,
        _ => fail(what),
    }
}
pub fn variants<'x, 'a>(items: &'x [Item<'a>], name: &str, what: &str) -> &'x [Field<'a>] {
    match find(items, name) {
        Some(Item { kind: Kind::Enum(f), .. }) => f,
        _ => fail(what),
    }
}
/// the type a path names, seen from `items`; a module sees what is around it
pub fn resolve<'x, 'a>(root: &'x [Item<'a>], items: &'x [Item<'a>], ty: &str) -> Option<&'x Item<'a>> {
    match ty.split_once("::") {
        Some((m, r)) => module(items, m).and_then(|i| find(i, r)),
        None => find(items, ty).or_else(|| find(root, ty)),
    }
}
pub fn bare(ty: &str) -> &str {
    let t = ty.strip_prefix("Option<").or_else(|| ty.strip_prefix("Vec<")).unwrap_or(ty);
    t.strip_suffix('>').unwrap_or(t)
}
/// the fields of the type of element `el` of the struct `outer`
pub fn anonymous<'x, 'a>(root: &'x [Item<'a>], items: &'x [Item<'a>], outer: &str, el: &str) -> &'x [Field<'a>] {
    let f = fields(items, outer, "the enclosing type is missing");
    let f = match f.iter().find(|f| f.xml() == el) {
        Some(f) => f,
        None => fail("the element with an anonymous type has no field"),
    };
    match resolve(root, items, bare(&f.ty)) {
        Some(Item { kind: Kind::Struct(f), .. }) => f,
        _ => fail("the anonymous type is missing"),
    }
}
