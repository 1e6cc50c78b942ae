//! LLVM IR (textual) loader: lazy per-function decoding into a compact form.
use std::cell::{Cell, OnceCell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Vec(u64, T),
    Arr(u64, T),
    Struct(Vec<T>, bool),
    Other,
}
pub type T = Rc<Ty>;

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vec(..) => {
                let s = self.store_size();
                s.next_power_of_two().max(1)
            }
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn size(&self) -> u64 {
        let s = self.store_size();
        let a = self.align();
        (s + a - 1) / a * a
    }
    pub fn field_off(&self, i: usize) -> (u64, T) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() * i as u64, t.clone()),
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn elem(&self) -> T {
        match self {
            Ty::Vec(_, t) | Ty::Arr(_, t) => t.clone(),
            _ => panic!("elem"),
        }
    }
}

/// A runtime value.
#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    S(crate::expr::E),
    W(Rc<u128>),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    NoopInt, // ptrtoint / inttoptr / scalar bitcast (widths handled)
}

#[derive(Debug, Clone)]
pub enum Callee {
    F(u32),
    Ind(Opd),
    Asm,
}

#[derive(Debug, Clone)]
pub enum Inst {
    Bin { op: BinOp, w: u32, vec: bool, a: Opd, b: Opd, d: u32 },
    FBin { op: FOp, w: u32, vec: bool, a: Opd, b: Opd, d: u32 },
    FNeg { w: u32, a: Opd, d: u32 },
    ICmp { p: Pred, w: u32, vec: bool, a: Opd, b: Opd, d: u32 },
    FCmp { p: String, w: u32, a: Opd, b: Opd, d: u32 },
    Cast { op: CastOp, fw: u32, tw: u32, vec: bool, a: Opd, d: u32 },
    BitcastVec { from: T, to: T, a: Opd, d: u32 },
    Load { ty: T, p: Opd, d: u32 },
    Store { ty: T, v: Opd, p: Opd },
    Gep { base: Opd, off: i64, idx: Vec<(Opd, i64, u32)>, d: u32 },
    Select { c: Opd, vec: bool, ty: T, a: Opd, b: Opd, d: u32 },
    ExtractValue { a: Opd, idx: Vec<u32>, d: u32 },
    InsertValue { a: Opd, v: Opd, idx: Vec<u32>, d: u32 },
    ExtractElement { a: Opd, i: Opd, d: u32 },
    InsertElement { a: Opd, v: Opd, i: Opd, d: u32 },
    Shuffle { a: Opd, b: Opd, mask: Vec<i32>, d: u32 },
    Mov { a: Opd, d: u32 },
    Call { callee: Callee, args: Vec<(T, Opd)>, ret: T, d: u32 },
    AtomicRmw { op: String, w: u32, p: Opd, v: Opd, d: u32 },
    CmpXchg { w: u32, p: Opd, c: Opd, n: Opd, d: u32 },
    Alloca { off: u64, d: u32 },
    /// bit 7 of every byte that is not zero; stands for 0x0101..00 - x in the zero-byte search
    ZByte { a: Opd, d: u32 },
    Nop,
    Unsupported(String),
}
pub const NOREG: u32 = u32::MAX;

#[derive(Debug, Clone)]
pub enum Term {
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { v: Opd, w: u32, default: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    Resume,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
    pub term: Term,
    pub panics: bool,
    pub visited: Cell<bool>,
    pub dbg: Vec<u32>,
}
#[derive(Debug)]
pub struct Func {
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub frame_size: u64,
}

pub struct FuncInfo {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range of "define" text
    pub func: OnceCell<Rc<Func>>,
    pub dbg: u32,
    pub calls: Cell<u64>,
}
pub struct GlobalInfo {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub ty: T,
    pub init: Option<(usize, usize)>,
    pub data: OnceCell<Rc<Vec<u8>>>,
}

pub const GLOBAL_BASE: u64 = 0x1000_0000;
pub const FUNC_BASE: u64 = 0x7000_0000;

pub struct Module {
    pub text: String,
    pub funcs: Vec<FuncInfo>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<GlobalInfo>,
    pub gmap: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, (usize, usize)>,
    pub granule: Vec<u32>,
    pub tycache: RefCell<HashMap<String, T>>,
    pub meta: RefCell<HashMap<u32, (usize, usize)>>,
    pub init: std::cell::OnceCell<Option<u32>>,
}

fn is_name_char(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'-' | b'$' | b'.' | b'_')
}

pub struct P<'a> {
    pub m: &'a Module,
    pub s: &'a [u8],
    pub i: usize,
    pub regs: Option<&'a mut HashMap<String, u32>>,
}

fn unquote(s: &str) -> String {
    // handles \xx escapes in quoted names
    let b = s.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).into_owned()
}

impl<'a> P<'a> {
    pub fn new(m: &'a Module, s: &'a str) -> P<'a> {
        P { m, s: s.as_bytes(), i: 0, regs: None }
    }
    pub fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
        if self.i < self.s.len() && self.s[self.i] == b';' {
            while self.i < self.s.len() && self.s[self.i] != b'\n' {
                self.i += 1;
            }
            self.ws()
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    pub fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            // word boundary for alphabetic tokens
            let last = *t.as_bytes().last().unwrap();
            if is_name_char(last) {
                if let Some(&c) = self.s.get(self.i + t.len()) {
                    if is_name_char(c) {
                        return false;
                    }
                }
            }
            self.i += t.len();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            panic!(
                "IR parse: expected `{}` at `{}` in `{}`",
                t,
                String::from_utf8_lossy(&self.s[self.i..(self.i + 60).min(self.s.len())]),
                String::from_utf8_lossy(&self.s[..self.s.len().min(400)])
            );
        }
    }
    pub fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_name_char(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    pub fn peek_word(&mut self) -> &'a str {
        let i = self.i;
        let w = self.word();
        self.i = i;
        w
    }
    /// name after sigil (@ or %)
    pub fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i += 1;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = std::str::from_utf8(&self.s[st..self.i]).unwrap();
            self.i += 1;
            unquote(r)
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_name_char(self.s[self.i]) {
                self.i += 1;
            }
            std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string()
        }
    }
    pub fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    pub fn ty(&mut self) -> T {
        match self.peek() {
            b'[' => {
                self.i += 1;
                let n: u64 = self.word().parse().unwrap();
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Rc::new(Ty::Arr(n, t))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let t = self.ty();
                    self.expect(">");
                    match &*t {
                        Ty::Struct(f, _) => Rc::new(Ty::Struct(f.clone(), true)),
                        _ => unreachable!(),
                    }
                } else {
                    let n: u64 = self.word().parse().unwrap();
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Rc::new(Ty::Vec(n, t))
                }
            }
            b'{' => {
                self.i += 1;
                let mut f = vec![];
                if !self.eat("}") {
                    loop {
                        f.push(self.ty());
                        if !self.eat(",") {
                            break;
                        }
                    }
                    self.expect("}");
                }
                Rc::new(Ty::Struct(f, false))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                let (a, b) = self.m.types[&n];
                let mut p = P::new(self.m, &self.m.text[a..b]);
                p.ty()
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Rc::new(Ty::Void),
                    "ptr" => {
                        if self.eat("addrspace") {
                            self.skip_parens();
                        }
                        Rc::new(Ty::Ptr)
                    }
                    "float" => Rc::new(Ty::Float),
                    "double" => Rc::new(Ty::Double),
                    "label" | "metadata" | "token" | "opaque" | "half" | "fp128" | "x86_fp80" => Rc::new(Ty::Other),
                    _ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => {
                        Rc::new(Ty::Int(w[1..].parse().unwrap()))
                    }
                    _ => panic!(
                        "IR type? `{}` at `{}` in `{}`",
                        w,
                        String::from_utf8_lossy(&self.s[self.i..(self.i + 40).min(self.s.len())]),
                        String::from_utf8_lossy(&self.s[..self.s.len().min(300)])
                    ),
                }
            }
        }
    }
    /// skip attribute words (parameter/return attributes)
    pub fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                // string attribute "k"="v"
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.i < self.s.len() && self.s[self.i] == b'=' {
                    self.i += 1;
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                continue;
            }
            if !c.is_ascii_alphabetic() {
                return;
            }
            let save = self.i;
            let w = self.word();
            match w {
                "noalias" | "noundef" | "nonnull" | "readonly" | "writeonly" | "readnone" | "zeroext" | "signext"
                | "nocapture" | "nofree" | "returned" | "inreg" | "immarg" | "nest" | "swiftself" | "allocptr"
                | "allocalign" | "writable" | "dead_on_unwind" | "dead_on_return" | "noreturn" | "nounwind"
                | "noext" | "inalloca_" | "noinline" => {}
                "align" => {
                    if self.peek() == b'(' {
                        self.skip_parens();
                    } else {
                        self.word();
                    }
                }
                "dereferenceable" | "dereferenceable_or_null" | "captures" | "range" | "initializes" | "sret"
                | "byval" | "byref" | "elementtype" | "nofpclass" | "inalloca" | "preallocated" | "alignstack" => {
                    if self.peek() == b'(' {
                        self.skip_parens();
                    }
                }
                _ => {
                    self.i = save;
                    return;
                }
            }
        }
    }
    fn int_const(&self, w: u32, s: &str) -> V {
        let v: u128 = if let Some(h) = s.strip_prefix("u0x").or_else(|| s.strip_prefix("s0x")) {
            u128::from_str_radix(h, 16).unwrap()
        } else if let Some(n) = s.strip_prefix('-') {
            (n.parse::<u128>().unwrap() as i128).wrapping_neg() as u128
        } else {
            s.parse::<u128>().unwrap_or_else(|_| panic!("int const {}", s))
        };
        mkv(w, v)
    }
    fn float_const(&self, t: &Ty, s: &str) -> V {
        if let Some(h) = s.strip_prefix("0x") {
            let bits = u64::from_str_radix(h, 16).unwrap();
            match t {
                Ty::Double => V::I(bits),
                _ => V::I((f64::from_bits(bits) as f32).to_bits() as u64),
            }
        } else if let Some(h) = s.strip_prefix("f0x") {
            V::I(u64::from_str_radix(h, 16).unwrap())
        } else {
            let d: f64 = match s {
                "+inf" | "inf" => f64::INFINITY,
                "-inf" => f64::NEG_INFINITY,
                "+qnan" | "qnan" | "+nan" => f64::NAN,
                "-qnan" | "-nan" => -f64::NAN,
                _ => s.parse().unwrap_or_else(|_| panic!("float const {}", s)),
            };
            match t {
                Ty::Double => V::I(d.to_bits()),
                _ => V::I((d as f32).to_bits() as u64),
            }
        }
    }
    pub fn zero(t: &Ty) -> V {
        match t {
            Ty::Int(w) if *w > 64 => V::W(Rc::new(0)),
            Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => V::I(0),
            Ty::Vec(n, e) | Ty::Arr(n, e) => V::A(Rc::new(vec![P::zero(e); *n as usize])),
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|t| P::zero(t)).collect())),
            _ => V::I(0),
        }
    }
    pub fn value(&mut self, t: &Ty) -> Opd {
        let c = self.peek();
        match c {
            b'%' => {
                self.i += 1;
                let n = self.name();
                let r = self.regs.as_mut().expect("reg in const");
                let l = r.len() as u32;
                Opd::R(*r.entry(n).or_insert(l))
            }
            b'@' => {
                self.i += 1;
                let n = self.name();
                Opd::K(V::I(self.m.sym_addr(&n)))
            }
            b'<' | b'[' | b'{' => {
                // aggregate constant
                let packed = self.s[self.i] == b'<' && self.s.get(self.i + 1) == Some(&b'{');
                let (open, close) = match c {
                    b'<' if packed => ("<{", "}>"),
                    b'<' => ("<", ">"),
                    b'[' => ("[", "]"),
                    _ => ("{", "}"),
                };
                self.expect(open);
                let mut v = vec![];
                if !self.eat(close) {
                    loop {
                        let t = self.ty();
                        self.attrs();
                        match self.value(&t) {
                            Opd::K(k) => v.push(k),
                            Opd::R(_) => panic!("reg in const agg"),
                        }
                        if !self.eat(",") {
                            break;
                        }
                    }
                    self.expect(close);
                }
                Opd::K(V::A(Rc::new(v)))
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                let b = self.cstring();
                Opd::K(V::A(Rc::new(b.into_iter().map(|x| V::I(x as u64)).collect())))
            }
            _ => {
                let st = self.i;
                // numbers may contain + (e.g. 1.0e+10) / f0x..
                while self.i < self.s.len() && (is_name_char(self.s[self.i]) || self.s[self.i] == b'+') {
                    self.i += 1;
                }
                let w = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                match w {
                    "true" => Opd::K(V::I(1)),
                    "false" => Opd::K(V::I(0)),
                    "null" | "undef" | "poison" | "zeroinitializer" | "none" => Opd::K(P::zero(t)),
                    "splat" => {
                        self.expect("(");
                        let et = self.ty();
                        let v = match self.value(&et) {
                            Opd::K(v) => v,
                            _ => panic!(),
                        };
                        self.expect(")");
                        match t {
                            Ty::Vec(n, _) => Opd::K(V::A(Rc::new(vec![v; *n as usize]))),
                            _ => panic!("splat type"),
                        }
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' {
                            let w = self.word();
                            if w == "inrange" {
                                self.ws();
                                self.skip_parens();
                            }
                        }
                        self.expect("(");
                        let et = self.ty();
                        self.expect(",");
                        let pt = self.ty();
                        let base = self.konst(&pt);
                        let mut off = 0i64;
                        let mut cur = et;
                        let mut first = true;
                        while self.eat(",") {
                            let it = self.ty();
                            let v = self.konst(&it) as i64;
                            if first {
                                off += v * cur.size() as i64;
                                first = false;
                            } else {
                                let (o, n) = match &*cur {
                                    Ty::Struct(..) => cur.field_off(v as usize),
                                    _ => ((cur.elem().size() as i64 * v) as u64, cur.elem()),
                                };
                                off += o as i64;
                                cur = n;
                            }
                        }
                        self.expect(")");
                        Opd::K(V::I(base.wrapping_add(off as u64)))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                        self.expect("(");
                        let ft = self.ty();
                        let v = self.konst(&ft);
                        self.expect("to");
                        let tt = self.ty();
                        self.expect(")");
                        let b = tt.bits();
                        Opd::K(mkv(b, v as u128 & mask(b)))
                    }
                    "sub" | "add" | "xor" | "and" | "or" | "mul" | "shl" => {
                        while self.eat("nuw") || self.eat("nsw") {}
                        self.expect("(");
                        let t1 = self.ty();
                        let a = self.konst(&t1);
                        self.expect(",");
                        let t2 = self.ty();
                        let b = self.konst(&t2);
                        self.expect(")");
                        let r = match w {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            "xor" => a ^ b,
                            "and" => a & b,
                            "or" => a | b,
                            "shl" => a << b,
                            _ => a.wrapping_mul(b),
                        };
                        Opd::K(mkv(t1.bits(), r as u128 & mask(t1.bits())))
                    }
                    "" => panic!(
                        "IR value? at `{}` in `{}`",
                        String::from_utf8_lossy(&self.s[self.i..(self.i + 40).min(self.s.len())]),
                        String::from_utf8_lossy(&self.s[..self.s.len().min(300)])
                    ),
                    _ => match t {
                        Ty::Int(bits) => Opd::K(self.int_const(*bits, w)),
                        Ty::Float | Ty::Double => Opd::K(self.float_const(t, w)),
                        Ty::Ptr => Opd::K(self.int_const(64, w)),
                        _ => Opd::K(V::I(0)),
                    },
                }
            }
        }
    }
    pub fn konst(&mut self, t: &Ty) -> u64 {
        match self.value(t) {
            Opd::K(V::I(v)) => v,
            o => panic!("const expected {:?}", o),
        }
    }
    fn cstring(&mut self) -> Vec<u8> {
        // at c"
        self.i += 2;
        let mut o = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    o.push(b'\\');
                    self.i += 2;
                    continue;
                }
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                o.push(u8::from_str_radix(h, 16).unwrap());
                self.i += 3;
            } else {
                o.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        o
    }
    /// parse an initializer of type t into buf at off
    pub fn init(&mut self, t: &Ty, buf: &mut [u8], off: usize) {
        let c = self.peek();
        match t {
            Ty::Arr(_, e) => {
                if c == b'c' {
                    let b = self.cstring();
                    buf[off..off + b.len()].copy_from_slice(&b);
                } else if c == b'[' {
                    self.i += 1;
                    let mut k = 0usize;
                    if !self.eat("]") {
                        loop {
                            let _ = self.ty();
                            self.init(e, buf, off + k * e.size() as usize);
                            k += 1;
                            if !self.eat(",") {
                                break;
                            }
                        }
                        self.expect("]");
                    }
                } else {
                    self.word(); // zeroinitializer / undef
                }
            }
            Ty::Struct(f, packed) => {
                if c == b'<' || c == b'{' {
                    self.expect(if *packed { "<{" } else { "{" });
                    for k in 0..f.len() {
                        let ft = self.ty();
                        let (o, _) = t.field_off(k);
                        self.init(&ft, buf, off + o as usize);
                        if k + 1 < f.len() {
                            self.expect(",");
                        }
                    }
                    self.expect(if *packed { "}>" } else { "}" });
                } else {
                    self.word();
                }
            }
            Ty::Vec(..) => {
                let o = self.value(t);
                if let Opd::K(v) = o {
                    let es = t.elem();
                    if let V::A(l) = v {
                        let n = es.store_size() as usize;
                        for (k, x) in l.iter().enumerate() {
                            let b = vconst(x).to_le_bytes();
                            buf[off + k * n..off + k * n + n].copy_from_slice(&b[..n]);
                        }
                    }
                }
            }
            _ => {
                let o = self.value(t);
                if let Opd::K(v) = o {
                    let n = t.store_size() as usize;
                    let b = vconst(&v).to_le_bytes();
                    buf[off..off + n].copy_from_slice(&b[..n]);
                }
            }
        }
    }
}

pub fn vconst(v: &V) -> u128 {
    match v {
        V::I(x) => *x as u128,
        V::W(x) => **x,
        _ => panic!("vconst"),
    }
}
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn mkv(w: u32, v: u128) -> V {
    if w > 128 {
        panic!("integer width {} unsupported", w);
    }
    if w <= 64 {
        V::I((v & mask(w)) as u64)
    } else {
        V::W(Rc::new(v & mask(w)))
    }
}

/// LLVM turns the 128-bit division by a constant in the standard library's integer printing into a
/// 256-bit multiplication and shift: turn the one instance std uses back into the division.
/// floor(x * K / 2^S) = floor(x / D) for all 128-bit x as 0 <= K * D - 2^S <= 2^(S - 128)
fn wide_division(mut lines: Vec<String>) -> Vec<String> {
    const MAGIC: [(&str, &str, &str); 1] = [("76624777043294442917917351357515459181", "179", "10000000000000000")];
    if !lines.iter().any(|l| l.contains(" i256 ")) && !lines.iter().any(|l| l.contains(" to i256")) {
        return lines;
    }
    let cut = |l: &str| l.split(", !").next().unwrap().trim().to_string();
    let mut def: HashMap<String, String> = HashMap::new();
    for l in &lines {
        if let Some((d, e)) = cut(l).split_once(" = ") {
            def.insert(d.to_string(), e.to_string());
        }
    }
    let mut out = vec![];
    for l in lines.drain(..) {
        let c = cut(&l);
        let mut done = false;
        if let Some((d, e)) = c.split_once(" = ") {
            if e.ends_with(" to i256") || e.contains(" i256 ") && !e.starts_with("trunc") {
                // dead once the truncations are replaced; anything else using it fails to decode
                if e.starts_with("zext i128 ") || e.starts_with("mul ") || e.starts_with("lshr ") {
                    continue;
                }
            }
            if e.starts_with("trunc") && e.contains(" i256 ") {
                let a = e.split(" i256 ").nth(1).unwrap();
                let (v, ty) = a.split_once(" to ").unwrap();
                let r = (|| {
                    let sh = def.get(v)?;
                    let (m, s) = sh.split(" i256 ").nth(1)?.split_once(", ")?;
                    let mu = def.get(m)?;
                    let (z, k) = mu.split(" i256 ").nth(1)?.split_once(", ")?;
                    let x = def.get(z)?.strip_prefix("zext i128 ")?.strip_suffix(" to i256")?.to_string();
                    let dv = MAGIC.iter().find(|t| t.0 == k && t.1 == s && sh.starts_with("lshr") && mu.starts_with("mul"))?.2;
                    Some((x, dv))
                })();
                if let Some((x, dv)) = r {
                    if ty == "i128" {
                        out.push(format!("  {} = udiv i128 {}, {}", d, x, dv));
                    } else {
                        out.push(format!("  {}.q = udiv i128 {}, {}", d, x, dv));
                        out.push(format!("  {} = trunc i128 {}.q to {}", d, d, ty));
                    }
                    done = true;
                }
            }
        }
        if !done {
            out.push(l);
        }
    }
    out
}
impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("read ll");
        let mut m = Module {
            text: String::new(),
            funcs: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            aliases: HashMap::new(),
            types: HashMap::new(),
            granule: vec![],
            tycache: RefCell::new(HashMap::new()),
            meta: RefCell::new(HashMap::new()),
            init: Default::default(),
        };
        let b = text.as_bytes();
        let mut i = 0;
        let n = b.len();
        let mut globals: Vec<(String, usize, usize)> = vec![];
        let eol = |mut i: usize| {
            while i < n && b[i] != b'\n' {
                i += 1;
            }
            i
        };
        let getname = |s: &str| -> (String, usize) {
            // s starts after sigil
            if s.starts_with('"') {
                let e = s[1..].find('"').unwrap() + 1;
                (unquote(&s[1..e]), e + 1)
            } else {
                let e = s.bytes().position(|c| !is_name_char(c)).unwrap_or(s.len());
                (s[..e].to_string(), e)
            }
        };
        while i < n {
            match b[i] {
                b'@' => {
                    let e = eol(i);
                    let (name, l) = getname(&text[i + 1..e]);
                    globals.push((name, i + 1 + l, e));
                    i = e + 1;
                }
                b'%' => {
                    let e = eol(i);
                    let (name, l) = getname(&text[i + 1..e]);
                    let s = &text[i + 1 + l..e];
                    if let Some(p) = s.find("= type ") {
                        m.types.insert(name, (i + 1 + l + p + 7, e));
                    }
                    i = e + 1;
                }
                b'd' if text[i..].starts_with("define ") || text[i..].starts_with("declare ") => {
                    let isdef = text[i..].starts_with("define");
                    let e = eol(i);
                    let line = &text[i..e];
                    let at = line.find('@').unwrap();
                    let (name, _) = getname(&line[at + 1..]);
                    let mut dbg = 0;
                    if let Some(p) = line.rfind("!dbg !") {
                        let d = &line[p + 6..];
                        let k = d.bytes().position(|c| !c.is_ascii_digit()).unwrap_or(d.len());
                        dbg = d[..k].parse().unwrap_or(0);
                    }
                    let mut end = e;
                    if isdef {
                        let p = text[e..].find("\n}\n").map(|p| e + p + 2).unwrap_or(n);
                        end = p;
                    }
                    let id = m.funcs.len() as u32;
                    m.fmap.insert(name.clone(), id);
                    m.funcs.push(FuncInfo {
                        name,
                        body: if isdef { Some((i, end)) } else { None },
                        func: OnceCell::new(),
                        dbg,
                        calls: Cell::new(0),
                    });
                    i = eol(end) + 1;
                }
                b'!' => {
                    let e = eol(i);
                    let s = &text[i + 1..e];
                    if let Some(k) = s.bytes().position(|c| !c.is_ascii_digit()) {
                        if k > 0 {
                            if let Ok(id) = s[..k].parse::<u32>() {
                                m.meta.borrow_mut().insert(id, (i + 1 + k, e));
                            }
                        }
                    }
                    i = e + 1;
                }
                _ => i = eol(i) + 1,
            }
        }
        m.text = text;
        // globals: assign addresses
        let mut addr = GLOBAL_BASE;
        let mut pending = vec![];
        for (name, a, e) in globals {
            let s = &m.text[a..e];
            let mut p = P::new(&m, s);
            p.expect("=");
            let mut kind = "";
            let mut ext = false;
            loop {
                let c = p.peek();
                if c == b'"' || !c.is_ascii_alphabetic() {
                    break;
                }
                let w = p.word();
                match w {
                    "constant" | "global" | "alias" | "ifunc" => {
                        kind = w;
                        break;
                    }
                    "thread_local" | "addrspace" => {
                        if p.peek() == b'(' {
                            p.skip_parens();
                        }
                    }
                    "external" | "extern_weak" => ext = true,
                    _ => {}
                }
            }
            if kind == "alias" || kind == "ifunc" {
                let rest = &s[p.i..];
                if let Some(at) = rest.find('@') {
                    let (t, _) = getname(&rest[at + 1..]);
                    m.aliases.insert(name, t);
                }
                continue;
            }
            let ty = p.ty();
            let init = if ext { None } else { Some((a + p.i, e)) };
            let size = ty.size();
            pending.push((name, ty, init, size));
        }
        for (name, ty, init, size) in pending {
            let g = GlobalInfo { name: name.clone(), addr, size, ty, init, data: OnceCell::new() };
            let id = m.globals.len() as u32;
            m.gmap.insert(name, id);
            m.globals.push(g);
            let sp = (size + 16 + 63) / 64 * 64;
            for _ in 0..(sp / 64) {
                m.granule.push(id);
            }
            addr += sp;
        }
        assert!(addr < FUNC_BASE);
        m
    }
    pub fn sym_addr(&self, n: &str) -> u64 {
        if let Some(g) = self.gmap.get(n) {
            return self.globals[*g as usize].addr;
        }
        if let Some(f) = self.fmap.get(n) {
            return FUNC_BASE + *f as u64 * 16;
        }
        if let Some(a) = self.aliases.get(n) {
            return self.sym_addr(a);
        }
        panic!("unknown symbol @{}", n)
    }
    /// the function that stores the arguments of the program
    pub fn init_fn(&self) -> Option<u32> {
        *self.init.get_or_init(|| self.find_init())
    }
    fn find_init(&self) -> Option<u32> {
        let at = self.text.find("section \".init_array")?;
        let l = &self.text[..at];
        let l = &l[l.rfind('\n')? + 1..];
        let n = &l[l.rfind("ptr @")? + 5..];
        let n = n.trim_start_matches('"');
        let e = n.bytes().position(|c| !is_name_char(c))?;
        self.fmap.get(&n[..e]).copied()
    }
    pub fn func_at(&self, addr: u64) -> Option<u32> {
        if addr < FUNC_BASE || (addr - FUNC_BASE) % 16 != 0 {
            return None;
        }
        let i = (addr - FUNC_BASE) / 16;
        if (i as usize) < self.funcs.len() {
            Some(i as u32)
        } else {
            None
        }
    }
    pub fn global_at(&self, addr: u64) -> Option<u32> {
        if addr < GLOBAL_BASE {
            return None;
        }
        let g = (addr - GLOBAL_BASE) / 64;
        self.granule.get(g as usize).copied()
    }
    pub fn global_data(&self, g: u32) -> Rc<Vec<u8>> {
        let gi = &self.globals[g as usize];
        gi.data
            .get_or_init(|| {
                let mut buf = vec![0u8; gi.size as usize];
                if let Some((a, e)) = gi.init {
                    let mut p = P::new(self, &self.text[a..e]);
                    p.init(&gi.ty.clone(), &mut buf, 0);
                }
                Rc::new(buf)
            })
            .clone()
    }
    pub fn func(&self, f: u32) -> Rc<Func> {
        self.funcs[f as usize].func.get_or_init(|| Rc::new(self.decode(f))).clone()
    }

    fn decode(&self, f: u32) -> Func {
        let (a, e) = self.funcs[f as usize].body.expect("no body");
        let text = &self.text[a..e];
        let hdr_end = text.find('\n').unwrap();
        let hdr = &text[..hdr_end];
        let mut regs: HashMap<String, u32> = HashMap::new();
        // params
        let mut params = vec![];
        {
            let at = hdr.find('@').unwrap();
            let mut p = P::new(self, &hdr[at + 1..]);
            let _ = p.name();
            p.expect("(");
            let mut anon = 0;
            if !p.eat(")") {
                loop {
                    if p.eat("...") {
                        break;
                    }
                    let _t = p.ty();
                    p.attrs();
                    let r = regs.len() as u32;
                    if p.peek() == b'%' {
                        p.i += 1;
                        let n = p.name();
                        if n.parse::<u32>().is_ok() {
                            anon += 1;
                        }
                        regs.insert(n, r);
                    } else {
                        regs.insert(format!("{}", anon), r);
                        anon += 1;
                    }
                    params.push(r);
                    if !p.eat(",") {
                        break;
                    }
                }
            }
        }
        // logical lines
        let mut lines: Vec<String> = vec![];
        for l in text[hdr_end + 1..].lines() {
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") || t == "}" {
                continue;
            }
            let join = t.starts_with("to label")
                || t.starts_with("cleanup")
                || t.starts_with("catch ")
                || t.starts_with("filter ")
                || t.starts_with("unwind label")
                || lines.last().map_or(false, |x: &String| x.trim_start().starts_with("switch ") && !x.contains(']'));
            if join && !lines.is_empty() {
                let x = lines.last_mut().unwrap();
                x.push(' ');
                x.push_str(t);
            } else {
                lines.push(l.to_string());
            }
        }
        let mut lines = wide_division(lines);
        // labels
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut starts: Vec<(usize, usize)> = vec![];
        let is_label = |l: &str| -> Option<String> {
            let c = l.as_bytes()[0];
            if c == b' ' || c == b'\t' {
                return None;
            }
            let (name, rest) = if c == b'"' {
                let e = l[1..].find('"')? + 1;
                (unquote(&l[1..e]), &l[e + 1..])
            } else {
                let e = l.bytes().position(|c| !is_name_char(c)).unwrap_or(l.len());
                (l[..e].to_string(), &l[e..])
            };
            if rest.starts_with(':') {
                Some(name)
            } else {
                None
            }
        };
        let mut cur: Option<usize> = None;
        for (k, l) in lines.iter().enumerate() {
            if let Some(n) = is_label(l) {
                if let Some(s) = cur {
                    starts.push((s, k));
                }
                let id = starts.len() as u32;
                labels.insert(n, id);
                cur = Some(k + 1);
            } else if cur.is_none() {
                // implicit entry label
                labels.insert("<entry>".into(), 0);
                cur = Some(k);
            }
        }
        if let Some(s) = cur {
            starts.push((s, lines.len()));
        }
        let mut frame = 0u64;
        let mut blocks = vec![];
        for (bi, (s, e)) in starts.iter().enumerate() {
            let _ = bi;
            let mut blk = Block {
                phis: vec![],
                insts: vec![],
                term: Term::Unreachable,
                panics: false,
                visited: Cell::new(false),
                dbg: vec![],
            };
            for l in &lines[*s..*e] {
                let mut line = l.as_str();
                if let Some(p) = line.rfind("!dbg !") {
                    let d = &line[p + 6..];
                    let k = d.bytes().position(|c| !c.is_ascii_digit()).unwrap_or(d.len());
                    if let Ok(x) = d[..k].parse() {
                        blk.dbg.push(x);
                    }
                    line = &line[..];
                }
                let mut p = P { m: self, s: line.as_bytes(), i: 0, regs: Some(&mut regs) };
                self.inst(&mut p, &labels, &mut blk, &mut frame);
            }
            blk.panics = matches!(blk.term, Term::Unreachable);
            blocks.push(blk);
        }
        // word-at-a-time search for a zero byte: ((0x0101..00 - x) | x) & 0x8080..80 == 0x8080..80
        for bi in 0..blocks.len() {
            for k in 0..blocks[bi].insts.len() {
                let (x, d) = match &blocks[bi].insts[k] {
                    Inst::Bin { op: BinOp::Sub, w: 64, vec: false, a: Opd::K(V::I(0x0101_0101_0101_0100)), b: Opd::R(x), d } => (*x, *d),
                    _ => continue,
                };
                // x may be y ^ k with k leaving the flag bits alone; then y has the same flag bits as x
                let mut alias = x;
                for b in &blocks {
                    for i in &b.insts {
                        if let Inst::Bin { op: BinOp::Xor, w: 64, vec: false, a: Opd::R(y), b: Opd::K(V::I(c)), d: o } = i {
                            if *o == x && c & 0x8080_8080_8080_8080 == 0 {
                                alias = *y;
                            }
                        }
                    }
                }
                let used = |t: &str| t.contains(&format!("R({})", d));
                let mut uses = 0;
                let mut or = None;
                for (bj, b) in blocks.iter().enumerate() {
                    for (j, i) in b.insts.iter().enumerate() {
                        if used(&format!("{:?}", i)) {
                            uses += 1;
                            if let Inst::Bin { op: BinOp::Or, a: Opd::R(p), b: Opd::R(q), d: o, .. } = i {
                                if (*p == d && (*q == x || *q == alias)) || ((*p == x || *p == alias) && *q == d) {
                                    or = Some((bj, j, *o));
                                }
                            }
                        }
                    }
                    if used(&format!("{:?} {:?}", b.phis, b.term)) {
                        uses += 2;
                    }
                }
                // uses counts the subtraction itself too
                let Some((bj, j, o)) = or else { continue };
                if uses != 2 && uses != 1 {
                    continue;
                }
                // the combined word may only be masked with the flag bits
                let mut ok = true;
                let used = |t: &str| t.contains(&format!("R({})", o));
                for b in &blocks {
                    for i in &b.insts {
                        if used(&format!("{:?}", i)) {
                            ok &= matches!(i, Inst::Bin { op: BinOp::And, .. });
                        }
                    }
                    ok &= !used(&format!("{:?} {:?}", b.phis, b.term));
                }
                if ok {
                    blocks[bi].insts[k] = Inst::Nop;
                    blocks[bj].insts[j] = Inst::ZByte { a: Opd::R(x), d: o };
                }
            }
        }
        // a block that unconditionally goes to a panicking block also panics
        for _ in 0..3 {
            for k in 0..blocks.len() {
                if !blocks[k].panics {
                    if let Term::Br(t) = blocks[k].term {
                        if blocks[t as usize].panics {
                            blocks[k].panics = true;
                        }
                    }
                }
            }
        }
        Func { nregs: regs.len() as u32, params, blocks, frame_size: frame }
    }

    fn inst(&self, p: &mut P, labels: &HashMap<String, u32>, blk: &mut Block, frame: &mut u64) {
        let mut d = NOREG;
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            let r = p.regs.as_mut().unwrap();
            let l = r.len() as u32;
            d = *r.entry(n).or_insert(l);
            p.expect("=");
        }
        fn lbl(p: &mut P, labels: &HashMap<String, u32>) -> u32 {
            p.expect("label");
            p.expect("%");
            let n = p.name();
            *labels.get(&n).unwrap_or_else(|| panic!("label {}", n))
        }
        fn isvec(t: &Ty) -> (bool, u32) {
            match t {
                Ty::Vec(_, e) => (true, e.bits()),
                _ => (false, t.bits()),
            }
        }
        let mut w = p.word();
        while matches!(w, "tail" | "musttail" | "notail") {
            w = p.word();
        }
        let ins = &mut blk.insts;
        match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr"
            | "ashr" => {
                while p.eat("nuw") || p.eat("nsw") || p.eat("exact") || p.eat("disjoint") {}
                let t = p.ty();
                let a = p.value(&t);
                p.expect(",");
                let b = p.value(&t);
                let (vec, w_) = isvec(&t);
                let op = match w {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    _ => BinOp::AShr,
                };
                ins.push(Inst::Bin { op, w: w_, vec, a, b, d });
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                fmf(p);
                let t = p.ty();
                let a = p.value(&t);
                p.expect(",");
                let b = p.value(&t);
                let (vec, w_) = isvec(&t);
                let op = match w {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                ins.push(Inst::FBin { op, w: w_, vec, a, b, d });
            }
            "fneg" => {
                fmf(p);
                let t = p.ty();
                let a = p.value(&t);
                ins.push(Inst::FNeg { w: t.bits(), a, d });
            }
            "icmp" => {
                p.eat("samesign");
                let pw = p.word();
                let pr = match pw {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    _ => Pred::Sle,
                };
                let t = p.ty();
                let a = p.value(&t);
                p.expect(",");
                let b = p.value(&t);
                let (vec, w_) = isvec(&t);
                ins.push(Inst::ICmp { p: pr, w: w_, vec, a, b, d });
            }
            "fcmp" => {
                fmf(p);
                let pw = p.word().to_string();
                let t = p.ty();
                let a = p.value(&t);
                p.expect(",");
                let b = p.value(&t);
                ins.push(Inst::FCmp { p: pw, w: t.bits(), a, b, d });
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp"
            | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                while p.eat("nuw") || p.eat("nsw") || p.eat("nneg") {}
                fmf(p);
                let ft = p.ty();
                let a = p.value(&ft);
                p.expect("to");
                let tt = p.ty();
                if w == "bitcast" && (matches!(*ft, Ty::Vec(..)) || matches!(*tt, Ty::Vec(..))) {
                    ins.push(Inst::BitcastVec { from: ft, to: tt, a, d });
                    return;
                }
                let (vec, fw) = isvec(&ft);
                let (_, tw) = isvec(&tt);
                let op = match w {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "fptrunc" => CastOp::FpTrunc,
                    "fpext" => CastOp::FpExt,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    _ => CastOp::NoopInt,
                };
                ins.push(Inst::Cast { op, fw, tw, vec, a, d });
            }
            "load" => {
                p.eat("atomic");
                p.eat("volatile");
                let t = p.ty();
                p.expect(",");
                let pt = p.ty();
                let a = p.value(&pt);
                ins.push(Inst::Load { ty: t, p: a, d });
            }
            "store" => {
                p.eat("atomic");
                p.eat("volatile");
                let t = p.ty();
                let v = p.value(&t);
                p.expect(",");
                let pt = p.ty();
                let a = p.value(&pt);
                ins.push(Inst::Store { ty: t, v, p: a });
            }
            "getelementptr" => {
                while p.eat("inbounds") || p.eat("nuw") || p.eat("nusw") {}
                let et = p.ty();
                p.expect(",");
                let pt = p.ty();
                let base = p.value(&pt);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                while p.peek() == b',' {
                    let save = p.i;
                    p.i += 1;
                    if p.peek() == b'!' {
                        p.i = save;
                        break;
                    }
                    let it = p.ty();
                    let v = p.value(&it);
                    let scale;
                    if first {
                        scale = cur.size() as i64;
                        first = false;
                    } else {
                        match &*cur.clone() {
                            Ty::Struct(..) => {
                                if let Opd::K(V::I(k)) = v {
                                    let (o, n) = cur.field_off(k as usize);
                                    off += o as i64;
                                    cur = n;
                                    continue;
                                }
                                panic!("gep struct idx")
                            }
                            c => {
                                let e = c.elem();
                                scale = e.size() as i64;
                                cur = e;
                            }
                        }
                    }
                    match v {
                        Opd::K(V::I(k)) => {
                            let bits = it.bits();
                            let k = if bits < 64 { ((k << (64 - bits)) as i64) >> (64 - bits) } else { k as i64 };
                            off += k.wrapping_mul(scale);
                        }
                        v => idx.push((v, scale, it.bits())),
                    }
                }
                ins.push(Inst::Gep { base, off, idx, d });
            }
            "select" => {
                fmf(p);
                let ct = p.ty();
                let c = p.value(&ct);
                p.expect(",");
                let t = p.ty();
                let a = p.value(&t);
                p.expect(",");
                let t2 = p.ty();
                let b = p.value(&t2);
                ins.push(Inst::Select { c, vec: matches!(*ct, Ty::Vec(..)), ty: t, a, b, d });
            }
            "extractvalue" => {
                let t = p.ty();
                let a = p.value(&t);
                let mut idx = vec![];
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    idx.push(p.word().parse().unwrap());
                }
                ins.push(Inst::ExtractValue { a, idx, d });
            }
            "insertvalue" => {
                let t = p.ty();
                let a = p.value(&t);
                p.expect(",");
                let t2 = p.ty();
                let v = p.value(&t2);
                let mut idx = vec![];
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    idx.push(p.word().parse().unwrap());
                }
                ins.push(Inst::InsertValue { a, v, idx, d });
            }
            "extractelement" => {
                let t = p.ty();
                let a = p.value(&t);
                p.expect(",");
                let t2 = p.ty();
                let i = p.value(&t2);
                ins.push(Inst::ExtractElement { a, i, d });
            }
            "insertelement" => {
                let t = p.ty();
                let a = p.value(&t);
                p.expect(",");
                let t2 = p.ty();
                let v = p.value(&t2);
                p.expect(",");
                let t3 = p.ty();
                let i = p.value(&t3);
                ins.push(Inst::InsertElement { a, v, i, d });
            }
            "shufflevector" => {
                let t = p.ty();
                let a = p.value(&t);
                p.expect(",");
                let t2 = p.ty();
                let b = p.value(&t2);
                p.expect(",");
                let t3 = p.ty();
                let m = p.value(&t3);
                let mask = match m {
                    Opd::K(V::A(l)) => l.iter().map(|v| vconst(v) as u32 as i32).collect(),
                    _ => panic!("mask"),
                };
                ins.push(Inst::Shuffle { a, b, mask, d });
            }
            "freeze" => {
                let t = p.ty();
                let a = p.value(&t);
                ins.push(Inst::Mov { a, d });
            }
            "alloca" => {
                p.eat("inalloca");
                let t = p.ty();
                let mut align = 16u64;
                let mut n = 1u64;
                while p.eat(",") {
                    if p.eat("align") {
                        align = p.word().parse().unwrap();
                    } else if p.peek() == b'!' {
                        break;
                    } else {
                        let nt = p.ty();
                        match p.value(&nt) {
                            Opd::K(V::I(k)) => n = k,
                            _ => {
                                ins.push(Inst::Unsupported("dynamic alloca".into()));
                                return;
                            }
                        }
                    }
                }
                let align = align.max(16);
                *frame = (*frame + align - 1) / align * align;
                let off = *frame;
                *frame += t.size() * n + 16;
                ins.push(Inst::Alloca { off, d });
            }
            "phi" => {
                fmf(p);
                let t = p.ty();
                let mut v = vec![];
                loop {
                    p.expect("[");
                    let a = p.value(&t);
                    p.expect(",");
                    p.expect("%");
                    let n = p.name();
                    let b = match labels.get(&n) {
                        Some(b) => *b,
                        None => 0, // implicit numbered entry label
                    };
                    p.expect("]");
                    v.push((b, a));
                    if !(p.peek() == b',' && {
                        let save = p.i;
                        p.i += 1;
                        let r = p.peek() == b'[';
                        if !r {
                            p.i = save;
                        }
                        r
                    }) {
                        break;
                    }
                }
                blk.phis.push((d, v));
            }
            "call" | "invoke" | "callbr" => {
                // flags, cconv, ret attrs
                fmf(p);
                loop {
                    let save = p.i;
                    let c = p.peek();
                    if !c.is_ascii_alphabetic() {
                        break;
                    }
                    let x = p.word();
                    match x {
                        "fastcc" | "ccc" | "coldcc" | "preserve_mostcc" | "preserve_allcc" | "preserve_nonecc" | "tailcc" | "cc" => {
                            if x == "cc" {
                                p.word();
                            }
                        }
                        _ => {
                            p.i = save;
                            break;
                        }
                    }
                }
                p.attrs();
                let ret = p.ty();
                if p.peek() == b'(' {
                    p.skip_parens();
                }
                let callee = if p.eat("asm") {
                    while p.peek() != b'"' {
                        p.word();
                    }
                    for k in 0..2 {
                        p.expect("\"");
                        while p.s[p.i] != b'"' {
                            p.i += 1;
                        }
                        p.i += 1;
                        if k == 0 {
                            p.expect(",");
                        }
                    }
                    Callee::Asm
                } else if p.peek() == b'@' {
                    p.i += 1;
                    let n = p.name();
                    let n = self.aliases.get(&n).cloned().unwrap_or(n);
                    match self.fmap.get(&n) {
                        Some(f) => Callee::F(*f),
                        None => panic!("call to unknown @{}", n),
                    }
                } else {
                    Callee::Ind(p.value(&Ty::Ptr))
                };
                p.expect("(");
                let mut args = vec![];
                if !p.eat(")") {
                    loop {
                        let t = p.ty();
                        if matches!(*t, Ty::Other) {
                            // metadata argument: skip to , or ) at depth 0
                            let mut dd = 0;
                            loop {
                                match p.s[p.i] {
                                    b'(' => dd += 1,
                                    b')' => {
                                        if dd == 0 {
                                            break;
                                        }
                                        dd -= 1
                                    }
                                    b',' if dd == 0 => break,
                                    _ => {}
                                }
                                p.i += 1;
                            }
                            args.push((t, Opd::K(V::I(0))));
                        } else {
                            p.attrs();
                            let v = p.value(&t);
                            args.push((t, v));
                        }
                        if !p.eat(",") {
                            break;
                        }
                    }
                    p.expect(")");
                }
                let d = if matches!(*ret, Ty::Void) { NOREG } else { d };
                blk.insts.push(Inst::Call { callee, args, ret, d });
                if w == "invoke" {
                    // find "to label"
                    let s = std::str::from_utf8(&p.s[p.i..]).unwrap();
                    let k = s.find("to label").expect("invoke");
                    p.i += k;
                    p.expect("to");
                    let b = lbl(p, labels);
                    blk.term = Term::Br(b);
                }
            }
            "landingpad" | "fence" => ins.push(Inst::Nop),
            "atomicrmw" => {
                p.eat("volatile");
                let op = p.word().to_string();
                let pt = p.ty();
                let a = p.value(&pt);
                p.expect(",");
                let t = p.ty();
                let v = p.value(&t);
                ins.push(Inst::AtomicRmw { op, w: t.bits(), p: a, v, d });
            }
            "cmpxchg" => {
                p.eat("weak");
                p.eat("volatile");
                let pt = p.ty();
                let a = p.value(&pt);
                p.expect(",");
                let t = p.ty();
                let c = p.value(&t);
                p.expect(",");
                let t2 = p.ty();
                let n = p.value(&t2);
                ins.push(Inst::CmpXchg { w: t.bits(), p: a, c, n, d });
            }
            "br" => {
                if p.peek_word() == "label" {
                    blk.term = Term::Br(lbl(p, labels));
                } else {
                    let t = p.ty();
                    let c = p.value(&t);
                    p.expect(",");
                    let a = lbl(p, labels);
                    p.expect(",");
                    let b = lbl(p, labels);
                    blk.term = Term::CondBr(c, a, b);
                }
            }
            "switch" => {
                let t = p.ty();
                let v = p.value(&t);
                p.expect(",");
                let default = lbl(p, labels);
                p.expect("[");
                let mut cases = vec![];
                while !p.eat("]") {
                    let ct = p.ty();
                    let k = match p.value(&ct) {
                        Opd::K(k) => vconst(&k),
                        _ => panic!(),
                    };
                    p.expect(",");
                    cases.push((k, lbl(p, labels)));
                }
                blk.term = Term::Switch { v, w: t.bits(), default, cases };
            }
            "ret" => {
                let t = p.ty();
                blk.term = if matches!(*t, Ty::Void) { Term::Ret(None) } else { Term::Ret(Some(p.value(&t))) };
            }
            "unreachable" => blk.term = Term::Unreachable,
            "resume" => blk.term = Term::Resume,
            _ => ins.push(Inst::Unsupported(String::from_utf8_lossy(p.s).into_owned())),
        }
        fn fmf(p: &mut P) {
            while p.eat("fast")
                || p.eat("nnan")
                || p.eat("ninf")
                || p.eat("nsz")
                || p.eat("arcp")
                || p.eat("contract")
                || p.eat("afn")
                || p.eat("reassoc")
            {}
        }
    }
}

pub type LocList = Rc<Vec<(String, u32, String)>>;
impl Module {
    fn meta_text(&self, id: u32) -> &str {
        match self.meta.borrow().get(&id) {
            Some((a, e)) => &self.text[*a..*e],
            None => "",
        }
    }
    fn field(t: &str, k: &str) -> Option<String> {
        let pat = format!("{}: ", k);
        let mut from = 0;
        loop {
            let p = from + t[from..].find(&pat)?;
            let ok = p == 0 || matches!(t.as_bytes()[p - 1], b'(' | b' ');
            if ok {
                let r = &t[p + pat.len()..];
                if let Some(s) = r.strip_prefix('"') {
                    return Some(s[..s.find('"')?].to_string());
                }
                let e = r.find([',', ')']).unwrap_or(r.len());
                return Some(r[..e].to_string());
            }
            from = p + pat.len();
        }
    }
    fn mref(t: &str, k: &str) -> Option<u32> {
        Self::field(t, k)?.strip_prefix('!')?.parse().ok()
    }
    /// (file, line, function) of a debug location and everything it is inlined into
    pub fn resolve(&self, id: u32, cache: &mut HashMap<u32, LocList>) -> LocList {
        if let Some(l) = cache.get(&id) {
            return l.clone();
        }
        let t = self.meta_text(id);
        let mut out = vec![];
        if t.contains("DILocation(") {
            let line: u32 = Self::field(t, "line").and_then(|s| s.parse().ok()).unwrap_or(0);
            let mut sc = Self::mref(t, "scope");
            let mut file = None;
            let mut name = String::new();
            for _ in 0..30 {
                let Some(s) = sc else { break };
                let st = self.meta_text(s);
                if file.is_none() {
                    file = Self::mref(st, "file");
                }
                if st.contains("DISubprogram(") {
                    name = Self::field(st, "name").unwrap_or_default();
                    break;
                }
                sc = Self::mref(st, "scope");
            }
            if let Some(f) = file {
                let ft = self.meta_text(f);
                let fname = Self::field(ft, "filename").unwrap_or_default();
                let dir = Self::field(ft, "directory").unwrap_or_default();
                let full = if fname.starts_with('/') { fname } else { format!("{}/{}", dir, fname) };
                out.push((full, line, name));
            }
            if let Some(i) = Self::mref(t, "inlinedAt") {
                out.extend(self.resolve(i, cache).iter().cloned());
            }
        }
        let r = Rc::new(out);
        cache.insert(id, r.clone());
        r
    }
}
