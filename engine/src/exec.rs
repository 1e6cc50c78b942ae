//! Symbolic executor.
use crate::expr as x;
use crate::expr::{con, kst, E, NIL};
use crate::ir::*;
use crate::solver::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
#[path = "fs.rs"]
mod fs;
use fs::Fs;

pub const STACK_HI: u64 = 0x4000_0000;
const CH: usize = 64;
const MAXDEPTH: usize = 4000;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<E>, // empty, or one entry per byte (NIL = concrete)
}
impl Obj {
    fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: Vec::new() }
    }
    #[inline]
    fn byte(&self, i: usize) -> E {
        if self.sym.is_empty() {
            NIL
        } else {
            self.sym[i]
        }
    }
}
type Slot = Option<Rc<Obj>>;
#[derive(Clone, Default)]
pub struct PVec {
    ch: Vec<Rc<Vec<Slot>>>,
    len: usize,
}
impl PVec {
    #[inline]
    fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        self.ch.get(i / CH).and_then(|c| c[i % CH].as_ref())
    }
    fn set(&mut self, i: usize, v: Slot) {
        while self.ch.len() * CH <= i {
            self.ch.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.ch[i / CH])[i % CH] = v;
        if self.len <= i {
            self.len = i + 1;
        }
    }
    fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        let c = Rc::make_mut(self.ch.get_mut(i / CH)?);
        c[i % CH].as_mut().map(Rc::make_mut)
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub fid: u32,
    pub regs: Vec<V>,
    pub bb: u32,
    pub ip: u32,
    pub ret: u32,
}
#[derive(Clone, Debug)]
pub enum Inp {
    Sym(u32, u32), // first var, count
    Pick(u32),
    Seed(u64),
}
#[derive(Clone)]
pub struct State {
    pub stack: Vec<Rc<Frame>>,
    pub top: Frame,
    pub heap: PVec,
    pub free: Vec<u32>,
    pub stk: PVec,
    pub glob: PVec,
    pub doms: Vec<x::Set>,
    pub cons: Vec<E>,
    pub tied: u128,
    pub model: Vec<u8>,
    pub inputs: Vec<Inp>,
    pub notes: Vec<Rc<(Vec<u8>, Vec<E>)>>,
    pub reach: Vec<u32>,
    pub seed: u64,
    pub rnd: u64,
    pub instrs: u64,
    pub depth: u32,
    pub conc: u32,
    pub fs: Rc<Fs>,
}

#[derive(Debug, Clone)]
pub enum End {
    Done,
    Assumed,
    Panic(String),
    Fail(String),
    Error(String),
    Limit(String),
    Exit(u64),
}
/// non-local control inside an instruction
enum Stop {
    End(End),
    Retry, // state changed so that re-executing the instruction makes progress
}
type R<X> = Result<X, Stop>;
fn err<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::End(End::Error(s.into())))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum H {
    Body,
    Panic,
    Nop,
    Ext, // handled by name (see ext_id)
}
pub struct FnInfo {
    pub h: H,
    pub name: &'static str, // canonical name for Ext
    pub w: u32,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub label: String,
    pub input: String,
    pub notes: Vec<Vec<u8>>,
    pub count: u64,
}
#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub done: u64,
    pub assumed: u64,
    pub exits: u64,
    pub panics: u64,
    pub fails: u64,
    pub errors: u64,
    pub limits: u64,
    pub forks: u64,
    pub sym_branches: u64,
    pub pruned_dom: u64,
    pub pruned_range: u64,
    pub lin_fix: u64,
    pub lin_discharged: u64,
    pub lin_cmp: u64,
    pub obligations: u64,
    pub audited: u64,
    pub instrs: u64,
    pub concretized: u64,
    pub unexplored: u64,
    pub reach: BTreeMap<u32, u64>,
    pub maxsym: u64,
    pub maxdepth: u64,
}
pub struct Cfg {
    pub audit: bool,
    pub max_instr: u64,
    pub concrete: Option<Vec<Tok>>,
    pub max_viol: usize,
    pub samples: usize,
    pub trace: bool,
    pub params: Vec<u64>,
}
#[derive(Clone, Debug)]
pub enum Tok {
    Bytes(Vec<u8>),
    Pick(u32),
}

pub struct Engine {
    pub m: &'static Module,
    pub solver: Solver,
    pub pins: std::collections::HashMap<E, bool>,
    pub work: Vec<State>,
    pub st: Stats,
    pub cfg: Cfg,
    pub viols: Vec<Viol>,
    pub samples: Vec<(String, Vec<Vec<u8>>)>,
    pub errors: BTreeMap<String, (u64, String)>,
    pub info: RefCell<HashMap<u32, &'static FnInfo>>,
    pub regpool: Vec<Vec<V>>,
    pub callcounts: HashMap<u32, u64>,
}

#[inline]
fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
fn sx64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
pub fn ofe(e: E) -> V {
    match kst(e) {
        Some(k) => {
            let w = x::w(e);
            if w <= 64 {
                V::I(k as u64)
            } else {
                V::W(Rc::new(k))
            }
        }
        None => V::S(e),
    }
}
pub fn toe(v: &V, w: u32) -> E {
    match v {
        V::I(k) => con(w, *k as u128),
        V::W(k) => con(w, **k),
        V::S(e) => {
            debug_assert_eq!(x::w(*e), w);
            *e
        }
        V::A(_) => panic!("aggregate where scalar expected"),
    }
}
fn is_sym(v: &V) -> bool {
    match v {
        V::S(_) => true,
        V::A(l) => l.iter().any(is_sym),
        _ => false,
    }
}
fn xop(op: BinOp) -> x::Op {
    match op {
        BinOp::Add => x::Op::Add,
        BinOp::Sub => x::Op::Sub,
        BinOp::Mul => x::Op::Mul,
        BinOp::UDiv => x::Op::UDiv,
        BinOp::SDiv => x::Op::SDiv,
        BinOp::URem => x::Op::URem,
        BinOp::SRem => x::Op::SRem,
        BinOp::And => x::Op::And,
        BinOp::Or => x::Op::Or,
        BinOp::Xor => x::Op::Xor,
        BinOp::Shl => x::Op::Shl,
        BinOp::LShr => x::Op::LShr,
        BinOp::AShr => x::Op::AShr,
    }
}
#[inline]
pub fn binop(op: BinOp, w: u32, a: &V, b: &V) -> V {
    if let (V::I(p), V::I(q)) = (a, b) {
        if w <= 64 {
            let (p, q) = (*p, *q);
            let m = m64(w);
            let r = match op {
                BinOp::Add => p.wrapping_add(q),
                BinOp::Sub => p.wrapping_sub(q),
                BinOp::Mul => p.wrapping_mul(q),
                BinOp::UDiv => {
                    if q == 0 {
                        m
                    } else {
                        p / q
                    }
                }
                BinOp::URem => {
                    if q == 0 {
                        p
                    } else {
                        p % q
                    }
                }
                BinOp::SDiv => {
                    if q == 0 {
                        m
                    } else {
                        sx64(p, w).wrapping_div(sx64(q, w)) as u64
                    }
                }
                BinOp::SRem => {
                    if q == 0 {
                        p
                    } else {
                        sx64(p, w).wrapping_rem(sx64(q, w)) as u64
                    }
                }
                BinOp::And => p & q,
                BinOp::Or => p | q,
                BinOp::Xor => p ^ q,
                BinOp::Shl => {
                    if q >= w as u64 {
                        0
                    } else {
                        p << q
                    }
                }
                BinOp::LShr => {
                    if q >= w as u64 {
                        0
                    } else {
                        p >> q
                    }
                }
                BinOp::AShr => (sx64(p, w) >> q.min(w as u64 - 1)) as u64,
            };
            return V::I(r & m);
        }
    }
    if !is_sym(a) && !is_sym(b) {
        return mkv(w, x::ap(xop(op), w, w, w, vconst(a), vconst(b), 0, 0));
    }
    ofe(x::bin(xop(op), toe(a, w), toe(b, w)))
}
#[inline]
/// comparisons of very wide values are rewritten where they arise: the solver does not get far with them
fn narrow(v: V, w: u32, s: &State) -> V {
    match &v {
        V::S(e) if w > 64 => crate::lin::cmp(*e, &s.doms).map_or(v, ofe),
        _ => v,
    }
}
pub fn icmp(p: Pred, w: u32, a: &V, b: &V) -> V {
    if let (V::I(s), V::I(t)) = (a, b) {
        let (s, t) = (*s, *t);
        let r = match p {
            Pred::Eq => s == t,
            Pred::Ne => s != t,
            Pred::Ugt => s > t,
            Pred::Uge => s >= t,
            Pred::Ult => s < t,
            Pred::Ule => s <= t,
            Pred::Sgt => sx64(s, w) > sx64(t, w),
            Pred::Sge => sx64(s, w) >= sx64(t, w),
            Pred::Slt => sx64(s, w) < sx64(t, w),
            Pred::Sle => sx64(s, w) <= sx64(t, w),
        };
        return V::I(r as u64);
    }
    let (a, b) = (toe(a, w), toe(b, w));
    ofe(match p {
        Pred::Eq => x::eq(a, b),
        Pred::Ne => x::not(x::eq(a, b)),
        Pred::Ugt => x::ult(b, a),
        Pred::Uge => x::ule(b, a),
        Pred::Ult => x::ult(a, b),
        Pred::Ule => x::ule(a, b),
        Pred::Sgt => x::slt(b, a),
        Pred::Sge => x::sle(b, a),
        Pred::Slt => x::slt(a, b),
        Pred::Sle => x::sle(a, b),
    })
}
fn map1(e: E, ow: u32, f: impl Fn(u128) -> u128) -> Option<E> {
    let v = x::single(x::sup(e))?;
    let t = x::table(e);
    let mut o = [0u128; 256];
    for i in 0..256 {
        o[i] = f(t[i]) & x::mask(ow);
    }
    Some(x::mktab(v, ow, o))
}
fn fbits(w: u32, v: u64) -> f64 {
    if w == 32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v)
    }
}
fn tobits(w: u32, f: f64) -> u64 {
    if w == 32 {
        (f as f32).to_bits() as u64
    } else {
        f.to_bits()
    }
}

enum Dec {
    T,
    F,
    Both(Vec<(u32, u8)>, bool), // model for the other side; which side current model satisfies
}

fn idents(mangled: &str) -> String {
    // readable approximation of a v0-mangled path: the identifiers in order
    let b = mangled.as_bytes();
    let mut i = 0;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if l > 1 && l < 80 && j + l <= b.len() && b[j..j + l].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
            {
                out.push(mangled[j..j + l].to_string());
                i = j + l;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

impl Engine {
    pub fn new(m: &'static Module, cfg: Cfg, rlimit: u32) -> Engine {
        Engine {
            m,
            solver: Solver::new(rlimit),
            work: vec![],
            pins: Default::default(),
            st: Default::default(),
            cfg,
            viols: vec![],
            samples: vec![],
            errors: BTreeMap::new(),
            info: RefCell::new(HashMap::new()),
            regpool: vec![],
            callcounts: HashMap::new(),
        }
    }
    pub fn start(&mut self, fid: u32) {
        let f = self.m.func(fid);
        let mut s = State {
            stack: vec![],
            top: Frame { regs: vec![V::I(0); f.nregs as usize], f: f.clone(), fid, bb: 0, ip: 0, ret: NOREG },
            heap: PVec::default(),
            free: vec![],
            stk: PVec::default(),
            glob: PVec::default(),
            doms: vec![],
            cons: vec![],
            tied: 0,
            model: vec![],
            inputs: vec![],
            notes: vec![],
            reach: vec![],
            seed: 0,
            rnd: 0,
            instrs: 0,
            depth: 0,
            conc: 0,
            fs: Default::default(),
        };
        if f.frame_size > 0 {
            s.stk.set(0, Some(Rc::new(Obj::new(f.frame_size as usize))));
        }
        f.blocks[0].visited.set(true);
        self.work.push(s);
    }

    pub fn fninfo(&self, fid: u32) -> &'static FnInfo {
        if let Some(i) = self.info.borrow().get(&fid) {
            return i;
        }
        let fi = &self.m.funcs[fid as usize];
        let name = fi.name.as_str();
        let lib = name.contains("_4core") || name.contains("_5alloc") || name.contains("_3std");
        let (h, canon, w) = if let Some(r) = name.strip_prefix("llvm.") {
            classify_intrinsic(r)
        } else if fi.body.is_some() {
            if lib && name.contains("7process4exit") {
                (H::Ext, "exit", 0)
            } else if name == "rust_eh_personality" {
                (H::Nop, "", 0)
            } else if lib && (name.contains("6memchr14memchr_aligned") || name.contains("6memchr12memchr_naive")) && !name.contains("memrchr") {
                (H::Ext, "memchr_aligned", 0)
            } else if lib && (name.contains("6memchr7memrchr") || name.contains("6memchr15memrchr_aligned")) {
                (H::Ext, "memrchr", 0)
            } else if lib && !self.m.func(fid).blocks.iter().any(|b| matches!(b.term, Term::Ret(_))) {
                (H::Panic, "", 0)
            } else {
                (H::Body, "", 0)
            }
        } else {
            match name {
                "abort" => (H::Panic, "", 0),
                _ => (H::Ext, Box::leak(name.to_string().into_boxed_str()) as &'static str, 0),
            }
        };
        let b: &'static FnInfo = Box::leak(Box::new(FnInfo { h, name: canon, w }));
        self.info.borrow_mut().insert(fid, b);
        b
    }

    // ---------------------------------------------------------------- memory
    fn obj_read<'a>(&'a self, s: &'a State, addr: u64, len: u64) -> R<(ObjRef<'a>, usize)> {
        let hi = addr >> 32;
        if hi == 0 {
            if let Some(g) = self.m.global_at(addr) {
                let gi = &self.m.globals[g as usize];
                let off = (addr - gi.addr) as usize;
                if let Some(o) = s.glob.get(g as usize) {
                    if off as u64 + len <= o.data.len() as u64 {
                        return Ok((ObjRef::O(o), off));
                    }
                } else {
                    self.m.global_data(g);
                    let d = gi.data.get().unwrap();
                    if off as u64 + len <= d.len() as u64 {
                        return Ok((ObjRef::G(d), off));
                    }
                }
                return err(format!("out-of-bounds read of global {} +{} len {}", gi.name, off, len));
            }
            return err(format!("read of invalid address {:#x} len {}", addr, len));
        }
        let off = (addr & 0xffff_ffff) as usize;
        let o = if hi >= STACK_HI { s.stk.get((hi - STACK_HI) as usize) } else { s.heap.get(hi as usize - 1) };
        match o {
            Some(o) => {
                if off as u64 + len <= o.data.len() as u64 {
                    Ok((ObjRef::O(o), off))
                } else {
                    err(format!("out-of-bounds read at {:#x} len {} (object size {})", addr, len, o.data.len()))
                }
            }
            None => err(format!("read of freed/unmapped {:#x}", addr)),
        }
    }
    fn obj_write<'a>(&self, s: &'a mut State, addr: u64, len: u64) -> R<(&'a mut Obj, usize)> {
        let hi = addr >> 32;
        if hi == 0 {
            if let Some(g) = self.m.global_at(addr) {
                let gi = &self.m.globals[g as usize];
                let off = (addr - gi.addr) as usize;
                if s.glob.get(g as usize).is_none() {
                    let d = self.m.global_data(g);
                    s.glob.set(g as usize, Some(Rc::new(Obj { data: (*d).clone(), sym: vec![] })));
                }
                let o = s.glob.get_mut(g as usize).unwrap();
                if off as u64 + len <= o.data.len() as u64 {
                    return Ok((o, off));
                }
            }
            return err(format!("write to invalid address {:#x} len {}", addr, len));
        }
        let off = (addr & 0xffff_ffff) as usize;
        let o = if hi >= STACK_HI { s.stk.get_mut((hi - STACK_HI) as usize) } else { s.heap.get_mut(hi as usize - 1) };
        match o {
            Some(o) => {
                if off as u64 + len <= o.data.len() as u64 {
                    Ok((o, off))
                } else {
                    err(format!("out-of-bounds write at {:#x} len {} (object size {})", addr, len, o.data.len()))
                }
            }
            None => err(format!("write to freed/unmapped {:#x}", addr)),
        }
    }
    fn load_bits(&self, s: &State, addr: u64, n: usize) -> R<V> {
        let (o, off) = self.obj_read(s, addr, n as u64)?;
        let (data, sym) = match o {
            ObjRef::G(d) => (&d[..], None),
            ObjRef::O(o) => (&o.data[..], if o.sym.is_empty() { None } else { Some(&o.sym) }),
        };
        if let Some(sy) = sym {
            if sy[off..off + n].iter().any(|e| *e != NIL) {
                let g = |i: usize| -> E {
                    if sy[off + i] == NIL {
                        con(8, data[off + i] as u128)
                    } else {
                        sy[off + i]
                    }
                };
                let mut e = g(0);
                for i in 1..n {
                    e = x::concat(g(i), e);
                }
                return Ok(ofe(e));
            }
        }
        let d = &data[off..off + n];
        Ok(match n {
            1 => V::I(d[0] as u64),
            2 => V::I(u16::from_le_bytes([d[0], d[1]]) as u64),
            4 => V::I(u32::from_le_bytes([d[0], d[1], d[2], d[3]]) as u64),
            8 => V::I(u64::from_le_bytes(d.try_into().unwrap())),
            _ => {
                let mut v = 0u128;
                for i in (0..n).rev() {
                    v = v << 8 | d[i] as u128;
                }
                mkv(n as u32 * 8, v)
            }
        })
    }
    fn load(&self, s: &State, ty: &Ty, addr: u64) -> R<V> {
        match ty {
            Ty::Int(w) => {
                let n = (*w as usize + 7) / 8;
                let v = self.load_bits(s, addr, n)?;
                if *w as usize == n * 8 {
                    return Ok(v);
                }
                Ok(match v {
                    V::I(k) => V::I(k & m64(*w)),
                    V::W(k) => mkv(*w, *k),
                    V::S(e) => ofe(x::extract(e, 0, *w)),
                    a => a,
                })
            }
            Ty::Ptr | Ty::Double => self.load_bits(s, addr, 8),
            Ty::Float => self.load_bits(s, addr, 4),
            Ty::Vec(n, t) => {
                let tb = t.bits();
                if tb % 8 != 0 {
                    return err("load of sub-byte vector");
                }
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load(s, t, addr + i * (tb as u64 / 8))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(n, t) => {
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load(s, t, addr + i * t.size())?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let mut v = Vec::with_capacity(f.len());
                for i in 0..f.len() {
                    let (o, t) = ty.field_off(i);
                    v.push(self.load(s, &t, addr + o)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => err("load of unsupported type"),
        }
    }
    fn store_bits(&self, s: &mut State, addr: u64, n: usize, v: &V) -> R<()> {
        let (o, off) = self.obj_write(s, addr, n as u64)?;
        match v {
            V::I(k) => {
                let b = k.to_le_bytes();
                if n <= 8 {
                    o.data[off..off + n].copy_from_slice(&b[..n]);
                } else {
                    o.data[off..off + 8].copy_from_slice(&b);
                    o.data[off + 8..off + n].fill(0);
                }
                if !o.sym.is_empty() {
                    o.sym[off..off + n].fill(NIL);
                }
            }
            V::W(k) => {
                let b = k.to_le_bytes();
                o.data[off..off + n].copy_from_slice(&b[..n]);
                if !o.sym.is_empty() {
                    o.sym[off..off + n].fill(NIL);
                }
            }
            V::S(e) => {
                let mut e = *e;
                if x::w(e) as usize != n * 8 {
                    e = x::zext(e, n as u32 * 8);
                }
                if o.sym.is_empty() {
                    o.sym = vec![NIL; o.data.len()];
                }
                for i in 0..n {
                    let b = x::extract_raw(e, i as u32 * 8, 8);
                    match kst(b) {
                        Some(k) => {
                            o.data[off + i] = k as u8;
                            o.sym[off + i] = NIL;
                        }
                        None => o.sym[off + i] = b,
                    }
                }
            }
            V::A(_) => return err("store aggregate as scalar"),
        }
        Ok(())
    }
    fn store(&self, s: &mut State, ty: &Ty, addr: u64, v: &V) -> R<()> {
        match ty {
            Ty::Int(w) => self.store_bits(s, addr, (*w as usize + 7) / 8, v),
            Ty::Ptr | Ty::Double => self.store_bits(s, addr, 8, v),
            Ty::Float => self.store_bits(s, addr, 4, v),
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let l = match v {
                    V::A(l) => l.clone(),
                    _ => return err("store: aggregate expected"),
                };
                for (i, e) in l.iter().enumerate() {
                    let (o, t) = match ty {
                        Ty::Vec(_, t) => {
                            if t.bits() % 8 != 0 {
                                return err("store of sub-byte vector");
                            }
                            (i as u64 * (t.bits() as u64 / 8), t.clone())
                        }
                        _ => ty.field_off(i),
                    };
                    self.store(s, &t, addr + o, e)?;
                }
                Ok(())
            }
            _ => err("store of unsupported type"),
        }
    }
    fn malloc(&self, s: &mut State, n: u64) -> u64 {
        let i = match s.free.pop() {
            Some(i) => i as usize,
            None => s.heap.len,
        };
        s.heap.set(i, Some(Rc::new(Obj::new(n as usize))));
        (i as u64 + 1) << 32
    }
    fn copy_mem(&self, s: &mut State, d: u64, sr: u64, n: u64) -> R<()> {
        if n == 0 || d == sr {
            return Ok(());
        }
        let n = n as usize;
        let (data, sym): (Vec<u8>, Vec<E>) = {
            let (o, off) = self.obj_read(s, sr, n as u64)?;
            match o {
                ObjRef::G(g) => (g[off..off + n].to_vec(), vec![]),
                ObjRef::O(o) => (
                    o.data[off..off + n].to_vec(),
                    if !o.sym.is_empty() && o.sym[off..off + n].iter().any(|e| *e != NIL) {
                        o.sym[off..off + n].to_vec()
                    } else {
                        vec![]
                    },
                ),
            }
        };
        let (o, off) = self.obj_write(s, d, n as u64)?;
        o.data[off..off + n].copy_from_slice(&data);
        if !sym.is_empty() {
            if o.sym.is_empty() {
                o.sym = vec![NIL; o.data.len()];
            }
            o.sym[off..off + n].copy_from_slice(&sym);
        } else if !o.sym.is_empty() {
            o.sym[off..off + n].fill(NIL);
        }
        Ok(())
    }
    fn get_bytes(&self, s: &State, a: u64, n: u64) -> R<(Vec<u8>, Vec<E>)> {
        if n == 0 {
            return Ok((vec![], vec![]));
        }
        let n = n as usize;
        let (o, off) = self.obj_read(s, a, n as u64)?;
        Ok(match o {
            ObjRef::G(g) => (g[off..off + n].to_vec(), vec![]),
            ObjRef::O(o) => {
                (o.data[off..off + n].to_vec(), if o.sym.is_empty() { vec![] } else { o.sym[off..off + n].to_vec() })
            }
        })
    }

    // ------------------------------------------------------------ deciding
    fn slice(&self, s: &State, vars: u128) -> Vec<E> {
        let mut vs = vars;
        let mut used = vec![false; s.cons.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, c) in s.cons.iter().enumerate() {
                if !used[i] && x::sup(*c) & vs != 0 {
                    used[i] = true;
                    vs |= x::sup(*c);
                    out.push(*c);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        for v in 0..s.doms.len() {
            if vs >> v & 1 == 1 {
                let e = x::inset(v as u32, s.doms[v]);
                if kst(e).is_none() {
                    out.push(e);
                }
            }
        }
        out
    }
    #[track_caller]
    fn query(&mut self, s: &State, c: E) -> Res {
        let mut q = self.slice(s, x::sup(c));
        q.push(c);
        let t = std::time::Instant::now();
        if std::env::var("RSX_QUERY").is_ok() { eprintln!("query {} [{} cons] {}", std::panic::Location::caller(), q.len(), x::show(c, 6)); }
        let r = self.solver.check(q);
        if t.elapsed().as_millis() > 400 && std::env::var("RSX_SLOW").is_ok() {
            eprintln!("slow {:?} {:?} lin {:?} range {:?} for {}", std::panic::Location::caller(), t.elapsed(), crate::lin::cmp(c, &s.doms).map(|e| x::show(e, 6)), x::range(c, &s.doms), x::show(c, 8));
        }
        r
    }
    /// truth value of a condition after linear normalisation, when that and the domains settle it
    fn lin_truth(s: &State, c: E) -> Option<u128> {
        let r = crate::lin::cmp(c, &s.doms)?;
        if let Some(k) = kst(r) {
            return Some(k);
        }
        let (v, set) = x::set_of(r)?;
        let d = &s.doms[v as usize];
        let t = x::set_and(d, &set);
        if x::set_empty(&t) {
            Some(0)
        } else if t == *d {
            Some(1)
        } else {
            None
        }
    }
    /// whether `c` depends on a few combinations of bytes only and holds for none of them
    fn none_of_few(&mut self, s: &State, c: E) -> bool {
        let su = x::sup(c);
        if su.count_ones() > 8 {
            return false;
        }
        let vs: Vec<usize> = (0..128).filter(|v| su >> v & 1 == 1).collect();
        let mut prod = 1;
        for v in &vs {
            prod *= x::set_count(&s.doms[*v]);
            if prod > 16 {
                return false;
            }
        }
        let mut m = s.model.clone();
        let mut r = true;
        for k in 0..prod {
            let mut q = k;
            for v in &vs {
                let d = &s.doms[*v];
                let c = x::set_count(d);
                m[*v] = (0..=255u8).filter(|b| x::has(d, *b)).nth((q % c) as usize).unwrap();
                q /= c;
            }
            x::new_model();
            if x::eval_more(c, &m) == 1 {
                r = false;
                break;
            }
        }
        x::new_model();
        r
    }
    /// Z3 confirmation that `c` cannot hold (used for checks and audits)
    fn confirm_unsat(&mut self, s: &State, c: E) -> R<()> {
        // arithmetic over several bytes that linear normalisation refutes is not bit-blasted
        if self.solver.hard(&[c]) && Self::lin_truth(s, c) == Some(0) {
            self.st.lin_discharged += 1;
            return Ok(());
        }
        if self.none_of_few(s, c) {
            return Ok(());
        }
        match self.query(s, c) {
            Res::Unsat => Ok(()),
            Res::Sat(_) => err("internal: fast path pruned a feasible branch"),
            Res::Unknown => Err(Stop::End(End::Limit("solver gave up on an obligation".into()))),
        }
    }
    fn decide(&mut self, s: &State, c: E, tpanic: bool, fpanic: bool) -> R<Dec> {
        if let Some(k) = kst(c) {
            return Ok(if k == 1 { Dec::T } else { Dec::F });
        }
        self.st.sym_branches += 1;
        let d = self.decide0(s, c)?;
        match &d {
            Dec::T if fpanic || self.cfg.audit => {
                if fpanic {
                    self.st.obligations += 1;
                } else {
                    self.st.audited += 1;
                }
                self.confirm_unsat(s, x::not(c))?;
            }
            Dec::F if tpanic || self.cfg.audit => {
                if tpanic {
                    self.st.obligations += 1;
                } else {
                    self.st.audited += 1;
                }
                self.confirm_unsat(s, c)?;
            }
            _ => {}
        }
        Ok(d)
    }
    fn decide0(&mut self, s: &State, c: E) -> R<Dec> {
        if let Some((v, set)) = x::set_of(c) {
            let d = s.doms[v as usize];
            let t = x::set_and(&d, &set);
            let f = x::set_and(&d, &x::set_not(&set));
            if x::set_empty(&t) {
                self.st.pruned_dom += 1;
                return Ok(Dec::F);
            }
            if x::set_empty(&f) {
                self.st.pruned_dom += 1;
                return Ok(Dec::T);
            }
            if s.tied >> v & 1 == 0 {
                let cur = x::has(&set, s.model[v as usize]);
                let o = if cur { x::set_first(&f) } else { x::set_first(&t) };
                return Ok(Dec::Both(vec![(v, o)], cur));
            }
        } else {
            match x::range(c, &s.doms) {
                (0, 0) => {
                    self.st.pruned_range += 1;
                    return Ok(Dec::F);
                }
                (1, 1) => {
                    self.st.pruned_range += 1;
                    return Ok(Dec::T);
                }
                _ => {}
            }
        }
        if let Some(r) = crate::lin::cmp(c, &s.doms) {
            if r != c {
                self.st.lin_cmp += 1;
                if self.cfg.audit {
                    self.st.audited += 1;
                    self.confirm_unsat(s, x::bin(x::Op::Xor, c, r))?;
                }
                if let Some(k) = kst(r) {
                    self.st.pruned_range += 1;
                    return Ok(if k == 1 { Dec::T } else { Dec::F });
                }
                return match self.decide0(s, r)? {
                    // the caller asserts c; the simpler form carries the domain information
                    Dec::Both(m, cur) => Ok(Dec::Both(m, cur)),
                    o => Ok(o),
                };
            }
        }
        let cur = x::eval(c, &s.model) == 1;
        let q = if cur { x::not(c) } else { c };
        match self.query(s, q) {
            Res::Sat(m) => Ok(Dec::Both(m, cur)),
            Res::Unsat => Ok(if cur { Dec::T } else { Dec::F }),
            Res::Unknown => Err(Stop::End(End::Limit("solver resource limit".into()))),
        }
    }
    /// truth value of a condition when interval or linear reasoning settles it
    fn quick(&mut self, s: &State, c: E) -> R<Option<bool>> {
        let v = match x::range(c, &s.doms) {
            (0, 0) => false,
            (1, 1) => true,
            _ => match Self::lin_truth(s, c) {
                Some(k) => k == 1,
                None => return Ok(None),
            },
        };
        if self.cfg.audit {
            self.st.audited += 1;
            self.confirm_unsat(s, if v { x::not(c) } else { c })?;
        }
        Ok(Some(v))
    }
    fn lin_fix(&mut self, s: &State, e: E) -> R<Option<E>> {
        match crate::lin::fix(e, &s.doms) {
            Some(f) => {
                self.st.lin_fix += 1;
                if self.cfg.audit {
                    self.st.audited += 1;
                    self.confirm_unsat(s, x::not(x::eq(e, f)))?;
                }
                Ok(Some(f))
            }
            None => Ok(None),
        }
    }
    fn assert(&self, s: &mut State, c: E) {
        if kst(c).is_some() {
            return;
        }
        let c = match crate::lin::cmp(c, &s.doms) {
            Some(r) if x::set_of(c).is_none() => r,
            _ => c,
        };
        if kst(c).is_some() {
            return;
        }
        if let Some((v, set)) = x::set_of(c) {
            s.doms[v as usize] = x::set_and(&s.doms[v as usize], &set);
            return;
        }
        let nd = x::n(c);
        if nd.op == x::Op::And {
            let (a, b) = (nd.a, nd.b);
            self.assert(s, a);
            self.assert(s, b);
            return;
        }
        if let Some(i) = x::is_not(c) {
            let ni = x::n(i);
            if ni.op == x::Op::Or {
                let (a, b) = (ni.a, ni.b);
                self.assert(s, x::not(a));
                self.assert(s, x::not(b));
                return;
            }
        }
        if nd.op == x::Op::Or {
            // drop disjuncts the domains already exclude
            let (a, b) = (nd.a, nd.b);
            if x::range(a, &s.doms) == (0, 0) {
                return self.assert(s, b);
            }
            if x::range(b, &s.doms) == (0, 0) {
                return self.assert(s, a);
            }
        }
        s.tied |= x::sup(c);
        s.cons.push(c);
    }
    fn apply_model(s: &mut State, m: &[(u32, u8)]) {
        for (v, b) in m {
            s.model[*v as usize] = *b;
        }
    }
    /// fork off the other side as a state that re-executes the current instruction
    fn fork_retry(&mut self, s: &State, c: E, m: &[(u32, u8)]) {
        let mut o = s.clone();
        self.assert(&mut o, c);
        Self::apply_model(&mut o, m);
        o.depth += 1;
        self.st.forks += 1;
        self.work.push(o);
    }
    /// decide a condition inside an instruction (forking if both are possible)
    fn cond(&mut self, s: &mut State, c: E) -> R<bool> {
        match self.decide(s, c, false, false)? {
            Dec::T => Ok(true),
            Dec::F => Ok(false),
            Dec::Both(m, cur) => {
                let (here, there) = if cur { (c, x::not(c)) } else { (x::not(c), c) };
                self.fork_retry(s, there, &m);
                self.assert(s, here);
                s.depth += 1;
                Ok(cur)
            }
        }
    }
    fn pin_worthwhile(&mut self, s: &State, e: E, su: u128) -> bool {
        if su.count_ones() < 2 {
            return false;
        }
        if let Some(r) = self.pins.get(&e) {
            return *r;
        }
        let vs: Vec<(u32, Vec<u8>)> = (0..128u32)
            .filter(|v| su >> v & 1 == 1)
            .map(|v| (v, (0..=255u8).filter(|b| x::has(&s.doms[v as usize], *b)).collect()))
            .collect();
        let prod = vs.iter().fold(1u64, |a, v| a.saturating_mul(v.1.len() as u64));
        let mut r = prod <= 256 && vs.len() <= 2;
        if !r && prod <= 2048 {
            let mut seen = std::collections::HashSet::new();
            let mut m = s.model.clone();
            for k in 0..prod {
                let mut q = k;
                for (v, d) in &vs {
                    m[*v as usize] = d[(q % d.len() as u64) as usize];
                    q /= d.len() as u64;
                }
                x::new_model();
                seen.insert(x::eval_more(e, &m));
            }
            x::new_model();
            r = seen.len() as u64 * 16 >= prod;
        }
        if !r && std::env::var("RSX_PIN").is_ok() { eprintln!("nopin {} vars, {} combos: {}", vs.len(), prod, x::show(e, 4)); }
        self.pins.insert(e, r);
        r
    }
    /// the parts of `e` that depend on one byte each, when all of them take few values
    fn classes(&mut self, s: &State, e: E, su: u128) -> Option<Vec<(u32, E)>> {
        if su.count_ones() < 2 {
            return None;
        }
        let mut r: Vec<(u32, E)> = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut todo = vec![e];
        while let Some(t) = todo.pop() {
            if kst(t).is_some() || !seen.insert(t) {
                continue;
            }
            if let Some(v) = x::single(x::sup(t)) {
                let tab = x::table(t);
                let mut vals: Vec<u128> = vec![];
                for b in (0..=255u8).filter(|b| x::has(&s.doms[v as usize], *b)) {
                    if !vals.contains(&tab[b as usize]) {
                        vals.push(tab[b as usize]);
                        if vals.len() > 4 {
                            return None;
                        }
                    }
                }
                r.push((v, t));
                continue;
            }
            if seen.len() > 200 {
                return None;
            }
            let n = x::n(t);
            match n.op {
                x::Op::ZExt | x::Op::SExt | x::Op::Extract => todo.push(n.a),
                x::Op::Ite => todo.extend([n.a, n.b, n.c]),
                x::Op::Const | x::Op::Var | x::Op::InSet | x::Op::Tab => return None,
                _ => todo.extend([n.a, n.b]),
            }
        }
        Some(r)
    }
    fn concretize(&mut self, s: &mut State, e: E) -> R<u128> {
        if let Some(k) = kst(e) {
            return Ok(k);
        }
        let ww = x::w(e);
        let v = x::eval(e, &s.model);
        let c = x::eq(e, con(ww, v));
        if kst(c) == Some(1) {
            return Ok(v);
        }
        self.st.concretized += 1;
        s.conc += 1;
        // a value that depends on a few input bytes is pinned through these bytes: their domains are
        // tracked exactly, so no later condition on them needs the solver
        let su = x::sup(e);
        if self.pin_worthwhile(s, e, su) {
            for v in (0..128u32).filter(|v| su >> v & 1 == 1) {
                // halve the domain around the model's byte, so that the forks form a balanced tree
                loop {
                    let dom = s.doms[v as usize];
                    let cnt = x::set_count(&dom);
                    if cnt <= 1 {
                        break;
                    }
                    let b = s.model[v as usize];
                    let mut set = [0u64; 4];
                    let mut k = 0;
                    let mut hit = false;
                    for c in 0..=255u8 {
                        if x::has(&dom, c) {
                            if k == cnt / 2 {
                                if hit {
                                    break;
                                }
                                set = [0u64; 4];
                            }
                            set[(c >> 6) as usize] |= 1 << (c & 63);
                            hit |= c == b;
                            k += 1;
                        }
                    }
                    let c = x::inset(v, set);
                    if kst(c).is_some() || !self.cond(s, c)? {
                        return err("internal: concretize");
                    }
                    if s.doms[v as usize] == dom {
                        // implied, but not by the domain
                        self.assert(s, c);
                        if s.doms[v as usize] == dom {
                            return err("internal: concretize domain");
                        }
                    }
                }
            }
            return Ok(v);
        }
        if s.conc > 100_000 {
            return Err(Stop::End(End::Limit("too many concretisations on one path".into())));
        }
        // a combination of a few classes of bytes (the length of a text, a count of characters) is
        // pinned by deciding the class of each byte
        if let Some(ts) = self.classes(s, e, su) {
            for (var, t) in ts {
                let k = x::eval(t, &s.model);
                let tab = x::table(t);
                let mut set = [0u64; 4];
                for b in (0..=255u8).filter(|b| tab[*b as usize] == k) {
                    set[(b >> 6) as usize] |= 1 << (b & 63);
                }
                let c = x::inset(var, set);
                match kst(c) {
                    Some(1) => continue,
                    Some(_) => return err("internal: concretize class"),
                    None => (),
                }
                if !self.cond(s, c)? {
                    return err("internal: concretize class");
                }
                let dom = s.doms[var as usize];
                if (0..=255u8).any(|b| x::has(&dom, b) && !x::has(&set, b)) {
                    self.assert(s, c);
                }
            }
            return Ok(v);
        }
        // current model satisfies c
        if self.cond(s, c)? {
            Ok(v)
        } else {
            err("internal: concretize")
        }
    }
    fn conc(&mut self, s: &mut State, v: &V) -> R<u64> {
        match v {
            V::I(k) => Ok(*k),
            V::S(e) => Ok(self.concretize(s, *e)? as u64),
            V::W(k) => Ok(**k as u64),
            V::A(_) => err("concretize aggregate"),
        }
    }

    fn loc(&self, s: &State, args: &[V]) -> String {
        for a in args.iter().rev() {
            if let V::I(p) = a {
                if *p >> 32 == 0 {
                    if let Some(g) = self.m.global_at(*p) {
                        let gi = &self.m.globals[g as usize];
                        if gi.size == 24 && *p == gi.addr {
                            let d = self.m.global_data(g);
                            let fp = u64::from_le_bytes(d[0..8].try_into().unwrap());
                            let fl = u64::from_le_bytes(d[8..16].try_into().unwrap());
                            let line = u32::from_le_bytes(d[16..20].try_into().unwrap());
                            let col = u32::from_le_bytes(d[20..24].try_into().unwrap());
                            if let Ok((b, _)) = self.get_bytes(s, fp, fl) {
                                let mut f = String::from_utf8_lossy(&b).into_owned();
                                while f.ends_with('\0') {
                                    f.pop();
                                }
                                return format!("{}:{}:{}", f, line, col);
                            }
                        }
                    }
                }
            }
        }
        format!("in {}", idents(&self.m.funcs[s.top.fid as usize].name))
    }

    // ------------------------------------------------------------ main loop
    pub fn run_path(&mut self, s: &mut State) -> End {
        loop {
            match self.step(s) {
                Ok(()) => {}
                Err(Stop::Retry) => {}
                Err(Stop::End(e)) => return e,
            }
        }
    }
    fn jump(&mut self, s: &mut State, to: u32) {
        let from = s.top.bb;
        let f = s.top.f.clone();
        let b = &f.blocks[to as usize];
        b.visited.set(true);
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, l) = &b.phis[0];
                let v = Self::phi(&s.top, l, from);
                s.top.regs[*d as usize] = v;
            } else {
                let mut t: [V; 8] = [const { V::I(0) }; 8];
                if b.phis.len() <= 8 {
                    for (k, (_, l)) in b.phis.iter().enumerate() {
                        t[k] = Self::phi(&s.top, l, from);
                    }
                    for (k, (d, _)) in b.phis.iter().enumerate() {
                        s.top.regs[*d as usize] = std::mem::replace(&mut t[k], V::I(0));
                    }
                } else {
                    let t: Vec<V> = b.phis.iter().map(|(_, l)| Self::phi(&s.top, l, from)).collect();
                    for ((d, _), v) in b.phis.iter().zip(t) {
                        s.top.regs[*d as usize] = v;
                    }
                }
            }
        }
        s.top.bb = to;
        s.top.ip = 0;
    }
    #[inline]
    fn phi(fr: &Frame, l: &[(u32, Opd)], from: u32) -> V {
        for (b, o) in l {
            if *b == from {
                return match o {
                    Opd::R(r) => fr.regs[*r as usize].clone(),
                    Opd::K(v) => v.clone(),
                };
            }
        }
        panic!("phi without incoming edge")
    }
    #[inline]
    fn g<'a>(s: &'a State, o: &'a Opd) -> &'a V {
        match o {
            Opd::R(r) => &s.top.regs[*r as usize],
            Opd::K(v) => v,
        }
    }
    /// run until the end of the current block or a call boundary
    fn step(&mut self, s: &mut State) -> R<()> {
        let f = s.top.f.clone();
        let blk = &f.blocks[s.top.bb as usize];
        let n = blk.insts.len() as u32;
        while s.top.ip < n {
            s.instrs += 1;
            let ins = &blk.insts[s.top.ip as usize];
            match ins {
                Inst::Bin { op, w, vec: false, a, b, d } => {
                    let mut v = binop(*op, *w, Self::g(s, a), Self::g(s, b));
                    if let V::S(e) = v {
                        let nd = x::n(e);
                        let hit = match nd.op {
                            x::Op::UDiv | x::Op::URem => true,
                            x::Op::Add => x::n(nd.a).op == x::Op::Mul || x::n(nd.b).op == x::Op::Mul,
                            x::Op::Sub => true,
                            _ => false,
                        };
                        if hit && x::single(nd.sup).is_none() {
                            if let Some(f) = self.lin_fix(s, e)? {
                                v = ofe(f);
                            }
                        }
                    }
                    s.top.regs[*d as usize] = v;
                }
                Inst::ICmp { p, w, vec: false, a, b, d } => {
                    let v = narrow(icmp(*p, *w, Self::g(s, a), Self::g(s, b)), *w, s);
                    s.top.regs[*d as usize] = v;
                }
                Inst::Load { ty, p, d } => {
                    let v = match Self::g(s, p) {
                        V::I(a) => self.load(s, ty, *a)?,
                        V::S(e) => {
                            let e = *e;
                            self.sym_load(s, ty, e)?
                        }
                        _ => return err("load pointer"),
                    };
                    s.top.regs[*d as usize] = v;
                }
                Inst::Store { ty, v, p } => {
                    let p = Self::g(s, p).clone();
                    let a = self.conc(s, &p)?;
                    let v = Self::g(s, v).clone();
                    self.store(s, ty, a, &v)?;
                }
                Inst::Gep { base, off, idx, d } => {
                    let v = match Self::g(s, base) {
                        V::I(b) => {
                            let mut acc = b.wrapping_add(*off as u64);
                            let mut sym: Option<E> = None;
                            for (o, sc, bits) in idx {
                                match Self::g(s, o) {
                                    V::I(k) => acc = acc.wrapping_add((sx64(*k, *bits)).wrapping_mul(*sc) as u64),
                                    V::S(e) => {
                                        let e = if *bits < 64 { x::sext(*e, 64) } else { *e };
                                        let t = x::bin(x::Op::Mul, e, con(64, *sc as u64 as u128));
                                        sym = Some(match sym {
                                            Some(p) => x::bin(x::Op::Add, p, t),
                                            None => t,
                                        });
                                    }
                                    _ => return err("gep index"),
                                }
                            }
                            match sym {
                                None => V::I(acc),
                                Some(e) => ofe(x::bin(x::Op::Add, e, con(64, acc as u128))),
                            }
                        }
                        V::S(b) => {
                            let mut e = x::bin(x::Op::Add, *b, con(64, *off as u64 as u128));
                            for (o, sc, bits) in idx {
                                let i = match Self::g(s, o) {
                                    V::I(k) => con(64, sx64(*k, *bits) as u64 as u128),
                                    V::S(e) => {
                                        if *bits < 64 {
                                            x::sext(*e, 64)
                                        } else {
                                            *e
                                        }
                                    }
                                    _ => return err("gep index"),
                                };
                                e = x::bin(x::Op::Add, e, x::bin(x::Op::Mul, i, con(64, *sc as u64 as u128)));
                            }
                            ofe(e)
                        }
                        _ => return err("gep base"),
                    };
                    s.top.regs[*d as usize] = v;
                }
                Inst::Cast { op, fw, tw, vec: false, a, d } => {
                    let a = Self::g(s, a);
                    let v = match (op, a) {
                        (CastOp::Trunc, V::I(k)) => V::I(k & m64(*tw)),
                        (CastOp::ZExt, V::I(k)) if *tw <= 64 => V::I(*k),
                        (CastOp::SExt, V::I(k)) if *tw <= 64 => V::I(sx64(*k, *fw) as u64 & m64(*tw)),
                        _ => {
                            let a = a.clone();
                            self.cast(s, *op, *fw, *tw, &a)?
                        }
                    };
                    s.top.regs[*d as usize] = v;
                }
                Inst::Mov { a, d } => {
                    let v = Self::g(s, a).clone();
                    s.top.regs[*d as usize] = v;
                }
                Inst::Select { c, vec: false, ty, a, b, d } => {
                    let v = match Self::g(s, c) {
                        V::I(1) => Self::g(s, a).clone(),
                        V::I(_) => Self::g(s, b).clone(),
                        V::S(c) => {
                            let c = *c;
                            let (va, vb) = (Self::g(s, a).clone(), Self::g(s, b).clone());
                            let known = if x::set_of(c).is_some() { None } else { self.quick(s, c)? };
                            match &**ty {
                                _ if known.is_some() => {
                                    if known == Some(true) {
                                        va
                                    } else {
                                        vb
                                    }
                                }
                                Ty::Int(w) => ofe(x::ite(c, toe(&va, *w), toe(&vb, *w))),
                                _ => {
                                    if self.cond(s, c)? {
                                        va
                                    } else {
                                        vb
                                    }
                                }
                            }
                        }
                        _ => return err("select cond"),
                    };
                    s.top.regs[*d as usize] = v;
                }
                Inst::ExtractValue { a, idx, d } => {
                    let mut v = Self::g(s, a).clone();
                    for i in idx {
                        v = match v {
                            V::A(l) => l[*i as usize].clone(),
                            _ => return err("extractvalue"),
                        };
                    }
                    s.top.regs[*d as usize] = v;
                }
                Inst::InsertValue { a, v, idx, d } => {
                    fn ins(a: V, v: V, idx: &[u32]) -> V {
                        if idx.is_empty() {
                            return v;
                        }
                        match a {
                            V::A(l) => {
                                let mut l = (*l).clone();
                                let o = l[idx[0] as usize].clone();
                                l[idx[0] as usize] = ins(o, v, &idx[1..]);
                                V::A(Rc::new(l))
                            }
                            _ => panic!("insertvalue"),
                        }
                    }
                    let r = ins(Self::g(s, a).clone(), Self::g(s, v).clone(), idx);
                    s.top.regs[*d as usize] = r;
                }
                Inst::Alloca { off, d } => {
                    s.top.regs[*d as usize] = V::I(((STACK_HI + s.stack.len() as u64) << 32) + off);
                }
                Inst::ZByte { a, d } => {
                    let v = match Self::g(s, a) {
                        V::I(k) => V::I(0x0101_0101_0101_0100u64.wrapping_sub(*k) | *k),
                        v => {
                            let e = toe(v, 64);
                            let mut r = None;
                            for i in 0..8 {
                                let b = x::concat(x::not(x::eq(x::extract(e, 8 * i, 8), con(8, 0))), con(7, 0));
                                r = Some(match r {
                                    None => b,
                                    Some(r) => x::concat(b, r),
                                });
                            }
                            ofe(r.unwrap())
                        }
                    };
                    s.top.regs[*d as usize] = v;
                }
                Inst::Nop => {}
                Inst::Call { callee, args, ret, d } => {
                    if self.call(s, callee, args, ret, *d)? {
                        return Ok(()); // frame changed
                    }
                }
                other => {
                    let other = other.clone();
                    self.slow(s, &other)?
                }
            }
            s.top.ip += 1;
        }
        s.instrs += 1;
        if s.instrs > self.cfg.max_instr {
            return Err(Stop::End(End::Limit("instruction limit on one path".into())));
        }
        match &blk.term {
            Term::Br(t) => {
                let t = *t;
                self.jump(s, t)
            }
            Term::CondBr(c, a, b) => {
                let (a, b) = (*a, *b);
                match Self::g(s, c) {
                    V::I(k) => {
                        let t = if *k & 1 == 1 { a } else { b };
                        self.jump(s, t)
                    }
                    V::S(e) => {
                        let e = *e;
                        let (ta, tb) = (f.blocks[a as usize].panics, f.blocks[b as usize].panics);
                        match self.decide(s, e, ta, tb)? {
                            Dec::T => {
                                self.jump(s, a);
                            }
                            Dec::F => {
                                self.jump(s, b);
                            }
                            Dec::Both(m, cur) => {
                                let mut o = s.clone();
                                let ne = x::not(e);
                                let (here, there) = if cur { (e, ne) } else { (ne, e) };
                                let (bh, bt) = if cur { (a, b) } else { (b, a) };
                                self.assert(&mut o, there);
                                Self::apply_model(&mut o, &m);
                                self.jump(&mut o, bt);
                                o.depth += 1;
                                s.depth += 1;
                                self.st.forks += 1;
                                self.work.push(o);
                                self.assert(s, here);
                                self.jump(s, bh);
                            }
                        }
                    }
                    _ => return err("br cond"),
                }
            }
            Term::Switch { v, w, default, cases } => match Self::g(s, v) {
                V::I(k) => {
                    let k = *k as u128;
                    let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*default);
                    self.jump(s, t)
                }
                V::W(k) => {
                    let k = **k;
                    let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*default);
                    self.jump(s, t)
                }
                V::S(e) => {
                    let e = *e;
                    let mut groups: Vec<(u32, E)> = vec![];
                    for (k, t) in cases {
                        let c = x::eq(e, con(*w, *k));
                        match groups.iter_mut().find(|g| g.0 == *t) {
                            Some(g) => g.1 = x::or(g.1, c),
                            None => groups.push((*t, c)),
                        }
                    }
                    let mut target = None;
                    for (t, c) in groups {
                        let tp = f.blocks[t as usize].panics;
                        match self.decide(s, c, tp, false)? {
                            Dec::F => {}
                            Dec::T => {
                                target = Some(t);
                                break;
                            }
                            Dec::Both(m, cur) => {
                                let mut o = s.clone();
                                self.st.forks += 1;
                                o.depth += 1;
                                s.depth += 1;
                                if cur {
                                    // continue exploring the rest later; take this case now
                                    self.assert(&mut o, x::not(c));
                                    Self::apply_model(&mut o, &m);
                                    self.work.push(o);
                                    self.assert(s, c);
                                    target = Some(t);
                                    break;
                                } else {
                                    self.assert(&mut o, c);
                                    Self::apply_model(&mut o, &m);
                                    self.jump(&mut o, t);
                                    self.work.push(o);
                                    self.assert(s, x::not(c));
                                }
                            }
                        }
                    }
                    let t = match target {
                        Some(t) => t,
                        None => {
                            if f.blocks[*default as usize].panics {
                                // default taken: nothing to discharge, it is feasible
                            }
                            *default
                        }
                    };
                    self.jump(s, t)
                }
                _ => return err("switch"),
            },
            Term::Ret(v) => {
                let val = v.as_ref().map(|o| Self::g(s, o).clone());
                if s.stack.is_empty() {
                    return Err(Stop::End(End::Done));
                }
                let dep = s.stack.len();
                if s.top.f.frame_size > 0 {
                    s.stk.set(dep, None);
                }
                let p = s.stack.pop().unwrap();
                let fr = match Rc::try_unwrap(p) {
                    Ok(f) => f,
                    Err(p) => (*p).clone(),
                };
                let old = std::mem::replace(&mut s.top, fr);
                if let (Some(v), true) = (val, old.ret != NOREG) {
                    s.top.regs[old.ret as usize] = v;
                }
                if self.regpool.len() < 64 {
                    let mut r = old.regs;
                    r.clear();
                    self.regpool.push(r);
                }
                s.top.ip += 1;
            }
            Term::Unreachable => return err("reached `unreachable`"),
            Term::Resume => return err("reached resume"),
        }
        Ok(())
    }

    fn sym_load(&mut self, s: &mut State, ty: &Ty, e: E) -> R<V> {
        let scalar = matches!(ty, Ty::Int(_) | Ty::Ptr);
        if let (Some(v), true) = (x::single(x::sup(e)), scalar) {
            let t = x::table(e);
            let d = s.doms[v as usize];
            let bits = ty.bits();
            let mut o = [0u128; 256];
            let mut vals: Vec<(u8, V)> = vec![];
            let mut allc = true;
            let mut ok = true;
            let mut memo: HashMap<u64, V> = HashMap::new();
            for i in 0..256 {
                if x::has(&d, i as u8) {
                    let a = t[i] as u64;
                    let r = match memo.get(&a) {
                        Some(r) => r.clone(),
                        None => match self.load(s, ty, a) {
                            Ok(r) => {
                                memo.insert(a, r.clone());
                                r
                            }
                            Err(_) => {
                                ok = false;
                                break;
                            }
                        },
                    };
                    if is_sym(&r) {
                        allc = false;
                    } else {
                        o[i] = vconst(&r);
                    }
                    vals.push((i as u8, r));
                }
            }
            if ok && allc {
                // outside the current domain the value is irrelevant; reuse the first one
                let first = o[x::set_first(&d) as usize];
                for i in 0..256 {
                    if !x::has(&d, i as u8) {
                        o[i] = first;
                    }
                }
                return Ok(ofe(x::mktab(v, bits, o)));
            }
            if ok && vals.len() <= 64 {
                let mut r = toe(&vals[0].1, bits);
                // group by address
                let mut byaddr: Vec<(u64, x::Set)> = vec![];
                for (i, _) in &vals {
                    let a = t[*i as usize] as u64;
                    match byaddr.iter_mut().find(|g| g.0 == a) {
                        Some(g) => g.1[(*i >> 6) as usize] |= 1 << (*i & 63),
                        None => {
                            let mut z = [0u64; 4];
                            z[(*i >> 6) as usize] |= 1 << (*i & 63);
                            byaddr.push((a, z));
                        }
                    }
                }
                for (a, set) in &byaddr[1..] {
                    r = x::ite(x::inset(v, *set), toe(&memo[a], bits), r);
                }
                return Ok(ofe(r));
            }
        }
        if scalar {
            if let Some(v) = self.table_load(s, ty, e)? {
                return Ok(v);
            }
        }
        let a = self.concretize(s, e)? as u64;
        self.load(s, ty, a)
    }
    /// load through an index built from several symbolic bytes
    fn table_load(&mut self, s: &mut State, ty: &Ty, e: E) -> R<Option<V>> {
        use crate::lin;
        let l = match lin::lin(e, &s.doms, 0) {
            Some(l) if !l.t.is_empty() => l,
            _ => return Ok(None),
        };
        let (lo, hi) = match lin::interval(&l, &s.doms) {
            Some(x) => x,
            None => return Ok(None),
        };
        let mut g = 0i128;
        for (_, c) in &l.t {
            let (mut a, mut b) = (g, c.abs());
            while b != 0 {
                (a, b) = (b, a % b);
            }
            g = a;
        }
        let cnt = (hi - lo) / g + 1;
        if cnt > 1024 || lo < 0 {
            return Ok(None);
        }
        let bits = ty.bits();
        let mut vals = Vec::with_capacity(cnt as usize);
        for i in 0..cnt {
            match self.load(s, ty, (lo + i * g) as u64) {
                Ok(v) if !is_sym(&v) => vals.push(vconst(&v)),
                _ => return Ok(None),
            }
        }
        // index = (e - lo) / g
        let mut ix = lin::Lin { k: (l.k - lo) / g, t: l.t.iter().map(|(a, c)| (*a, c / g)).collect() };
        if (l.k - lo) % g != 0 {
            return Ok(None);
        }
        ix.t.retain(|t| t.1 != 0);
        // decimal digit tables, recognised by content
        let d1 = |i: i128| (48 + i / 10 % 10) as u128;
        let d0 = |i: i128| (48 + i % 10) as u128;
        let off = if vals.is_empty() { 0 } else { 0 };
        let all = |f: &dyn Fn(i128) -> u128| vals.iter().enumerate().all(|(i, v)| *v == f(i as i128 + off));
        let is1 = cnt <= 100 && bits == 8 && all(&d1);
        let is0 = cnt <= 100 && bits == 8 && all(&d0);
        let is2 = cnt <= 100 && bits == 16 && all(&|i| d1(i) | d0(i) << 8);
        if cnt > 1 && (is1 || is0 || is2) {
            if let Some((q, r)) = lin::divide(&ix, 10, &s.doms) {
                if let (Some(q), Some(r)) = (lin::build(&q, 8, &s.doms), lin::build(&r, 8, &s.doms)) {
                    let (q, r) = (x::bin(x::Op::Add, q, con(8, 48)), x::bin(x::Op::Add, r, con(8, 48)));
                    self.st.lin_fix += 1;
                    return Ok(Some(ofe(if is1 {
                        q
                    } else if is0 {
                        r
                    } else {
                        x::concat(r, q)
                    })));
                }
            }
        }
        if cnt <= 128 {
            let i = match lin::build(&ix, 64, &s.doms) {
                Some(i) => i,
                None => return Ok(None),
            };
            let mut r = con(bits, vals[0]);
            let mut k = 1;
            while k < vals.len() {
                let mut j = k;
                while j + 1 < vals.len() && vals[j + 1] == vals[k] {
                    j += 1;
                }
                r = x::ite(x::ult(i, con(64, k as u128)), r, con(bits, vals[k]));
                k = j + 1;
            }
            return Ok(Some(ofe(r)));
        }
        Ok(None)
    }

    fn cast(&mut self, s: &mut State, op: CastOp, fw: u32, tw: u32, a: &V) -> R<V> {
        Ok(match op {
            CastOp::Trunc => match a {
                V::S(e) => ofe(x::extract(*e, 0, tw)),
                _ => mkv(tw, vconst(a)),
            },
            CastOp::ZExt => match a {
                V::S(e) => ofe(x::zext(*e, tw)),
                _ => mkv(tw, vconst(a)),
            },
            CastOp::SExt => match a {
                V::S(e) => ofe(x::sext(*e, tw)),
                _ => mkv(tw, x::ap(x::Op::SExt, tw, fw, 0, vconst(a), 0, 0, 0)),
            },
            CastOp::NoopInt => match a {
                V::S(e) => ofe(if tw < fw { x::extract(*e, 0, tw) } else { x::zext(*e, tw) }),
                _ => mkv(tw, vconst(a)),
            },
            CastOp::FpTrunc | CastOp::FpExt => {
                let k = self.conc(s, a)?;
                V::I(tobits(tw, fbits(fw, k)))
            }
            CastOp::FpToUi => {
                let k = self.conc(s, a)?;
                mkv(tw, fbits(fw, k) as u128)
            }
            CastOp::FpToSi => {
                let k = self.conc(s, a)?;
                mkv(tw, fbits(fw, k) as i128 as u128)
            }
            CastOp::UiToFp => {
                let k = self.wide(s, a)?;
                if tw == 32 {
                    V::I((k as f32).to_bits() as u64)
                } else {
                    V::I((k as f64).to_bits())
                }
            }
            CastOp::SiToFp => {
                let k = self.wide(s, a)?;
                let k = x::ap(x::Op::SExt, 128, fw, 0, k, 0, 0, 0) as i128;
                if tw == 32 {
                    V::I((k as f32).to_bits() as u64)
                } else {
                    V::I((k as f64).to_bits())
                }
            }
        })
    }
    fn wide(&mut self, s: &mut State, v: &V) -> R<u128> {
        match v {
            V::I(k) => Ok(*k as u128),
            V::W(k) => Ok(**k),
            V::S(e) => self.concretize(s, *e),
            V::A(_) => err("wide"),
        }
    }
    fn vecmap2(&mut self, a: &V, b: &V, f: impl Fn(&V, &V) -> V) -> R<V> {
        match (a, b) {
            (V::A(p), V::A(q)) => Ok(V::A(Rc::new(p.iter().zip(q.iter()).map(|(x, y)| f(x, y)).collect()))),
            _ => err("vector operands"),
        }
    }
    fn slow(&mut self, s: &mut State, ins: &Inst) -> R<()> {
        let gv = |s: &State, o: &Opd| Self::g(s, o).clone();
        match ins {
            Inst::Bin { op, w, a, b, d, .. } => {
                let (a, b) = (gv(s, a), gv(s, b));
                let v = self.vecmap2(&a, &b, |p, q| binop(*op, *w, p, q))?;
                s.top.regs[*d as usize] = v;
            }
            Inst::ICmp { p, w, a, b, d, .. } => {
                let (a, b) = (gv(s, a), gv(s, b));
                let v = self.vecmap2(&a, &b, |q, r| icmp(*p, *w, q, r))?;
                s.top.regs[*d as usize] = v;
            }
            Inst::Cast { op, fw, tw, a, d, .. } => {
                let l = match gv(s, a) {
                    V::A(l) => l,
                    _ => return err("vector cast"),
                };
                let mut o = vec![];
                for e in l.iter() {
                    o.push(self.cast(s, *op, *fw, *tw, e)?);
                }
                s.top.regs[*d as usize] = V::A(Rc::new(o));
            }
            Inst::Select { c, a, b, ty, d, .. } => {
                let (c, a, b) = (gv(s, c), gv(s, a), gv(s, b));
                match (c, a, b) {
                    (V::A(c), V::A(a), V::A(b)) => {
                        let w = ty.elem().bits();
                        let mut o = vec![];
                        for i in 0..c.len() {
                            o.push(match &c[i] {
                                V::I(1) => a[i].clone(),
                                V::I(_) => b[i].clone(),
                                V::S(e) => ofe(x::ite(*e, toe(&a[i], w), toe(&b[i], w))),
                                _ => return err("vselect"),
                            });
                        }
                        s.top.regs[*d as usize] = V::A(Rc::new(o));
                    }
                    _ => return err("vselect"),
                }
            }
            Inst::FBin { op, w, vec, a, b, d } => {
                let (a, b) = (gv(s, a), gv(s, b));
                let f = |p: u64, q: u64| -> u64 {
                    if *w == 32 {
                        let (p, q) = (f32::from_bits(p as u32), f32::from_bits(q as u32));
                        (match op {
                            FOp::Add => p + q,
                            FOp::Sub => p - q,
                            FOp::Mul => p * q,
                            FOp::Div => p / q,
                            FOp::Rem => p % q,
                        })
                        .to_bits() as u64
                    } else {
                        let (p, q) = (f64::from_bits(p), f64::from_bits(q));
                        (match op {
                            FOp::Add => p + q,
                            FOp::Sub => p - q,
                            FOp::Mul => p * q,
                            FOp::Div => p / q,
                            FOp::Rem => p % q,
                        })
                        .to_bits()
                    }
                };
                let v = if *vec {
                    let (p, q) = match (&a, &b) {
                        (V::A(p), V::A(q)) => (p.clone(), q.clone()),
                        _ => return err("fvec"),
                    };
                    let mut o = vec![];
                    for i in 0..p.len() {
                        let (x1, y1) = (self.conc(s, &p[i])?, self.conc(s, &q[i])?);
                        o.push(V::I(f(x1, y1)));
                    }
                    V::A(Rc::new(o))
                } else {
                    let (p, q) = (self.conc(s, &a)?, self.conc(s, &b)?);
                    V::I(f(p, q))
                };
                s.top.regs[*d as usize] = v;
            }
            Inst::FNeg { w, a, d } => {
                let a = gv(s, a);
                let v = binop(BinOp::Xor, *w, &a, &V::I(1u64 << (w - 1)));
                s.top.regs[*d as usize] = v;
            }
            Inst::FCmp { p, w, a, b, d } => {
                let (a, b) = (gv(s, a), gv(s, b));
                let (pa, qb) = (fbits(*w, self.conc(s, &a)?), fbits(*w, self.conc(s, &b)?));
                let un = pa.is_nan() || qb.is_nan();
                let r = match p.as_str() {
                    "oeq" => pa == qb,
                    "ogt" => pa > qb,
                    "oge" => pa >= qb,
                    "olt" => pa < qb,
                    "ole" => pa <= qb,
                    "one" => !un && pa != qb,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || pa == qb,
                    "ugt" => un || pa > qb,
                    "uge" => un || pa >= qb,
                    "ult" => un || pa < qb,
                    "ule" => un || pa <= qb,
                    "une" => pa != qb,
                    "true" => true,
                    _ => false,
                };
                s.top.regs[*d as usize] = V::I(r as u64);
            }
            Inst::BitcastVec { from, to, a, d } => {
                let a = gv(s, a);
                let total = from.bits();
                // flatten, LSB first
                let mut parts: Vec<(V, u32)> = vec![];
                match &a {
                    V::A(l) => {
                        let ew = from.elem().bits();
                        for e in l.iter() {
                            parts.push((e.clone(), ew));
                        }
                    }
                    v => parts.push((v.clone(), total)),
                }
                let tw = match &**to {
                    Ty::Vec(_, e) => e.bits(),
                    t => t.bits(),
                };
                if total > 128 && tw != parts[0].1 {
                    return err("bitcast wider than 128 bits");
                }
                let out: Vec<V> = if tw == parts[0].1 {
                    parts.into_iter().map(|p| p.0).collect()
                } else if parts.iter().all(|p| !is_sym(&p.0)) {
                    let mut k = 0u128;
                    let mut o = 0;
                    for (v, w) in &parts {
                        k |= vconst(v) << o;
                        o += w;
                    }
                    (0..total / tw).map(|i| mkv(tw, k >> (i * tw))).collect()
                } else {
                    let mut e = toe(&parts[0].0, parts[0].1);
                    for (v, w) in &parts[1..] {
                        e = x::concat(toe(v, *w), e);
                    }
                    (0..total / tw).map(|i| ofe(x::extract(e, i * tw, tw))).collect()
                };
                s.top.regs[*d as usize] =
                    if matches!(**to, Ty::Vec(..)) { V::A(Rc::new(out)) } else { out.into_iter().next().unwrap() };
            }
            Inst::ExtractElement { a, i, d } => {
                let i = gv(s, i);
                let i = self.conc(s, &i)?;
                let v = match Self::g(s, a) {
                    V::A(l) => l[i as usize].clone(),
                    _ => return err("extractelement"),
                };
                s.top.regs[*d as usize] = v;
            }
            Inst::InsertElement { a, v, i, d } => {
                let i = gv(s, i);
                let i = self.conc(s, &i)?;
                let r = match Self::g(s, a) {
                    V::A(l) => {
                        let mut l = (**l).clone();
                        l[i as usize] = gv(s, v);
                        V::A(Rc::new(l))
                    }
                    _ => return err("insertelement"),
                };
                s.top.regs[*d as usize] = r;
            }
            Inst::Shuffle { a, b, mask, d } => {
                let r = match (Self::g(s, a), Self::g(s, b)) {
                    (V::A(p), V::A(q)) => V::A(Rc::new(
                        mask.iter()
                            .map(|i| {
                                if *i < 0 {
                                    p[0].clone()
                                } else if (*i as usize) < p.len() {
                                    p[*i as usize].clone()
                                } else {
                                    q[*i as usize - p.len()].clone()
                                }
                            })
                            .collect(),
                    )),
                    _ => return err("shuffle"),
                };
                s.top.regs[*d as usize] = r;
            }
            Inst::AtomicRmw { op, w, p, v, d } => {
                let p = gv(s, p);
                let a = self.conc(s, &p)?;
                let v = gv(s, v);
                let n = (*w as usize + 7) / 8;
                let old = self.load_bits(s, a, n)?;
                let nv = match op.as_str() {
                    "xchg" => v,
                    "add" => binop(BinOp::Add, *w, &old, &v),
                    "sub" => binop(BinOp::Sub, *w, &old, &v),
                    "and" => binop(BinOp::And, *w, &old, &v),
                    "or" => binop(BinOp::Or, *w, &old, &v),
                    "xor" => binop(BinOp::Xor, *w, &old, &v),
                    _ => return err(format!("atomicrmw {}", op)),
                };
                self.store_bits(s, a, n, &nv)?;
                s.top.regs[*d as usize] = old;
            }
            Inst::CmpXchg { w, p, c, n, d } => {
                let p = gv(s, p);
                let a = self.conc(s, &p)?;
                let (c, nv) = (gv(s, c), gv(s, n));
                let nb = (*w as usize + 7) / 8;
                let old = self.load_bits(s, a, nb)?;
                let r = icmp(Pred::Eq, *w, &old, &c);
                let r = self.conc(s, &r)?;
                if r == 1 {
                    self.store_bits(s, a, nb, &nv)?;
                }
                s.top.regs[*d as usize] = V::A(Rc::new(vec![old, V::I(r)]));
            }
            Inst::Unsupported(t) => return err(format!("unsupported instruction: {}", t)),
            o => return err(format!("unhandled {:?}", o)),
        }
        Ok(())
    }

    /// returns true if a new frame was pushed
    fn call(&mut self, s: &mut State, callee: &Callee, args: &[(T, Opd)], ret: &T, d: u32) -> R<bool> {
        let fid = match callee {
            // the arguments of the program: what the system calls at the start
            Callee::F(f) if self.m.funcs[*f as usize].name == "rsx_args" => match self.m.init_fn() {
                Some(f) => f,
                None => return err("no function for the arguments"),
            },
            Callee::F(f) => *f,
            Callee::Asm => {
                if d != NOREG {
                    if args.len() == 1 {
                        let v = Self::g(s, &args[0].1).clone();
                        s.top.regs[d as usize] = v;
                    } else {
                        return err("inline asm with result");
                    }
                }
                return Ok(false);
            }
            Callee::Ind(o) => {
                let p = Self::g(s, o).clone();
                let a = self.conc(s, &p)?;
                match self.m.func_at(a) {
                    Some(f) => f,
                    None => return err(format!("indirect call to {:#x}", a)),
                }
            }
        };
        let info = self.fninfo(fid);
        match info.h {
            H::Nop => Ok(false),
            H::Body => {
                let f = self.m.func(fid);
                if s.stack.len() + 1 >= MAXDEPTH {
                    return Err(Stop::End(End::Limit("call depth limit".into())));
                }
                let fi = &self.m.funcs[fid as usize];
                fi.calls.set(fi.calls.get() + 1);
                let mut regs = self.regpool.pop().unwrap_or_default();
                regs.resize(f.nregs as usize, V::I(0));
                for (k, (_, o)) in args.iter().enumerate() {
                    if k < f.params.len() {
                        regs[f.params[k] as usize] = Self::g(s, o).clone();
                    }
                }
                f.blocks[0].visited.set(true);
                let fs = f.frame_size;
                let nf = Frame { f, fid, regs, bb: 0, ip: 0, ret: d };
                let old = std::mem::replace(&mut s.top, nf);
                s.stack.push(Rc::new(old));
                if fs > 0 {
                    let dep = s.stack.len();
                    s.stk.set(dep, Some(Rc::new(Obj::new(fs as usize))));
                }
                Ok(true)
            }
            H::Panic => {
                let a: Vec<V> = args.iter().map(|(_, o)| Self::g(s, o).clone()).collect();
                let mut l = self.loc(s, &a);
                if l.starts_with("in ") {
                    l = format!("{} {}", idents(&self.m.funcs[fid as usize].name), l);
                }
                Err(Stop::End(End::Panic(l)))
            }
            H::Ext => {
                let a: Vec<V> = args.iter().map(|(_, o)| Self::g(s, o).clone()).collect();
                let r = self.ext(s, info, &a, args, ret)?;
                if d != NOREG {
                    match r {
                        Some(v) => s.top.regs[d as usize] = v,
                        None => return err(format!("external {} returned nothing", info.name)),
                    }
                }
                Ok(false)
            }
        }
    }

    fn ite_or(&mut self, c: V, w: u32, a: V, b: V) -> V {
        match c {
            V::I(1) => a,
            V::I(_) => b,
            V::S(e) => ofe(x::ite(e, toe(&a, w), toe(&b, w))),
            _ => panic!(),
        }
    }

    fn ext(&mut self, s: &mut State, info: &FnInfo, a: &[V], args: &[(T, Opd)], ret: &T) -> R<Option<V>> {
        let name = info.name;
        // element-wise vector intrinsics
        if let Ty::Vec(n, et) = &**ret {
            if matches!(name, "umax" | "umin" | "smax" | "smin" | "ctlz" | "cttz" | "ctpop" | "abs" | "bswap" | "usub.sat" | "uadd.sat") {
                let mut out = vec![];
                for i in 0..*n as usize {
                    let ea: Vec<V> = a
                        .iter()
                        .map(|v| match v {
                            V::A(l) => l[i].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    let eargs: Vec<(T, Opd)> = args.iter().map(|(_, o)| (et.clone(), o.clone())).collect();
                    out.push(self.ext(s, info, &ea, &eargs, et)?.unwrap());
                }
                return Ok(Some(V::A(Rc::new(out))));
            }
        }
        let w = if let Some((t, _)) = args.first() {
            match &**t {
                Ty::Int(w) => *w,
                Ty::Ptr => 64,
                Ty::Double => 64,
                Ty::Float => 32,
                _ => 0,
            }
        } else {
            0
        };
        macro_rules! c {
            ($i:expr) => {
                self.conc(s, &a[$i])?
            };
        }
        let b = |r: bool| V::I(r as u64);
        let some = |v: V| Ok(Some(v));
        match name {
            "memcpy" | "memmove" if matches!((&a[1], &a[2]), (V::S(_), V::I(1 | 2 | 4 | 8))) => {
                let (d, n) = (c!(0), c!(2));
                let e = match &a[1] {
                    V::S(e) => *e,
                    _ => unreachable!(),
                };
                let v = self.sym_load(s, &Ty::Int(8 * n as u32), e)?;
                self.store_bits(s, d, n as usize, &v)?;
                some(V::I(d))
            }
            "memcpy" | "memmove" => {
                let (d, sr, n) = (c!(0), c!(1), c!(2));
                self.copy_mem(s, d, sr, n)?;
                some(V::I(d))
            }
            "memset" => {
                let (d, n) = (c!(0), c!(2));
                if n > 0 {
                    let v = match &a[1] {
                        V::S(e) if x::w(*e) > 8 => ofe(x::extract(*e, 0, 8)),
                        v => v.clone(),
                    };
                    let (o, off) = self.obj_write(s, d, n)?;
                    let n = n as usize;
                    match v {
                        V::I(k) => {
                            o.data[off..off + n].fill(k as u8);
                            if !o.sym.is_empty() {
                                o.sym[off..off + n].fill(NIL);
                            }
                        }
                        V::S(e) => {
                            if o.sym.is_empty() {
                                o.sym = vec![NIL; o.data.len()];
                            }
                            o.sym[off..off + n].fill(e);
                        }
                        _ => return err("memset"),
                    }
                }
                some(V::I(d))
            }
            "bcmp" | "memcmp" => {
                let (p, q, n) = (c!(0), c!(1), c!(2));
                let (d1, s1) = self.get_bytes(s, p, n)?;
                let (d2, s2) = self.get_bytes(s, q, n)?;
                if s1.iter().chain(s2.iter()).all(|e| *e == NIL) {
                    let r = match d1.cmp(&d2) {
                        std::cmp::Ordering::Less => u32::MAX as u64,
                        std::cmp::Ordering::Equal => 0,
                        _ => 1,
                    };
                    return some(V::I(r));
                }
                let g = |d: &Vec<u8>, sy: &Vec<E>, i: usize| {
                    if sy.is_empty() || sy[i] == NIL {
                        con(8, d[i] as u128)
                    } else {
                        sy[i]
                    }
                };
                if name == "bcmp" {
                    let mut r = con(1, 1);
                    let mut i = 0;
                    while i < n as usize {
                        // whole words where both sides are one expression
                        if i + 8 <= n as usize {
                            let word = |d: &Vec<u8>, sy: &Vec<E>| {
                                let mut w = g(d, sy, i);
                                for j in 1..8 {
                                    w = x::concat(g(d, sy, i + j), w);
                                }
                                w
                            };
                            let (p, q) = (word(&d1, &s1), word(&d2, &s2));
                            if x::n(p).op != x::Op::Concat && x::n(q).op != x::Op::Concat {
                                r = x::and(r, x::eq(p, q));
                                if kst(r) == Some(0) {
                                    break;
                                }
                                i += 8;
                                continue;
                            }
                        }
                        r = x::and(r, x::eq(g(&d1, &s1, i), g(&d2, &s2, i)));
                        i += 1;
                        if kst(r) == Some(0) {
                            break;
                        }
                    }
                    return some(ofe(x::zext(x::not(r), 32)));
                }
                let mut r = con(32, 0);
                for i in (0..n as usize).rev() {
                    let (p, q) = (g(&d1, &s1, i), g(&d2, &s2, i));
                    r = x::ite(x::eq(p, q), r, x::ite(x::ult(p, q), con(32, u32::MAX as u128), con(32, 1)));
                }
                some(ofe(r))
            }
            "strlen" => {
                let p = c!(0);
                let mut n = 0;
                loop {
                    let v = self.load_bits(s, p + n, 1)?;
                    let z = icmp(Pred::Eq, 8, &v, &V::I(0));
                    let z = match z {
                        V::I(k) => k == 1,
                        V::S(e) => self.cond(s, e)?,
                        _ => return err("strlen"),
                    };
                    if z {
                        break;
                    }
                    n += 1;
                }
                some(V::I(n))
            }
            "memchr_aligned" | "memrchr" => {
                // fn(x: u8, text: *const u8, len: usize) -> Option<usize>, modelled by its definition
                let (p, n) = (c!(1), c!(2));
                let needle = a[0].clone();
                let idx: Vec<u64> = if name == "memrchr" { (0..n).rev().collect() } else { (0..n).collect() };
                for i in idx {
                    let v = self.load_bits(s, p + i, 1)?;
                    let z = match icmp(Pred::Eq, 8, &v, &needle) {
                        V::I(k) => k == 1,
                        V::S(e) => self.cond(s, e)?,
                        _ => return err("memchr"),
                    };
                    if z {
                        return some(V::A(Rc::new(vec![V::I(1), V::I(i)])));
                    }
                }
                some(V::A(Rc::new(vec![V::I(0), V::I(0)])))
            }
            "malloc" => {
                let n = c!(0);
                if n > 1 << 28 {
                    return some(V::I(0));
                }
                some(V::I(self.malloc(s, n)))
            }
            "calloc" => {
                let n = c!(0).saturating_mul(c!(1));
                if n > 1 << 28 {
                    return some(V::I(0));
                }
                some(V::I(self.malloc(s, n)))
            }
            "posix_memalign" => {
                let (p, n) = (c!(0), c!(2));
                let m = self.malloc(s, n);
                self.store_bits(s, p, 8, &V::I(m))?;
                some(V::I(0))
            }
            "realloc" => {
                let (p, n) = (c!(0), c!(1));
                if n > 1 << 28 {
                    return some(V::I(0));
                }
                if p == 0 {
                    return some(V::I(self.malloc(s, n)));
                }
                let i = (p >> 32) as usize;
                if p & 0xffff_ffff != 0 || i == 0 || i as u64 >= STACK_HI {
                    return err("realloc of a non-heap pointer");
                }
                match s.heap.get_mut(i - 1) {
                    Some(o) => {
                        o.data.resize(n as usize, 0);
                        if !o.sym.is_empty() {
                            o.sym.resize(n as usize, NIL);
                        }
                    }
                    None => return err("realloc of freed"),
                }
                some(V::I(p))
            }
            "free" => {
                let p = c!(0);
                if p != 0 {
                    let i = (p >> 32) as usize;
                    if p & 0xffff_ffff != 0 || i == 0 || i as u64 >= STACK_HI || s.heap.get(i - 1).is_none() {
                        return err(format!("invalid free {:#x}", p));
                    }
                    s.heap.set(i - 1, None);
                    s.free.push(i as u32 - 1);
                }
                Ok(None)
            }
            "umax" => {
                let k = icmp(Pred::Ult, w, &a[0], &a[1]);
                some(self.ite_or(k, w, a[1].clone(), a[0].clone()))
            }
            "umin" => {
                let k = icmp(Pred::Ult, w, &a[0], &a[1]);
                some(self.ite_or(k, w, a[0].clone(), a[1].clone()))
            }
            "smax" => {
                let k = icmp(Pred::Slt, w, &a[0], &a[1]);
                some(self.ite_or(k, w, a[1].clone(), a[0].clone()))
            }
            "smin" => {
                let k = icmp(Pred::Slt, w, &a[0], &a[1]);
                some(self.ite_or(k, w, a[0].clone(), a[1].clone()))
            }
            "abs" => {
                let k = icmp(Pred::Slt, w, &a[0], &mkv(w, 0));
                let n = binop(BinOp::Sub, w, &mkv(w, 0), &a[0]);
                some(self.ite_or(k, w, n, a[0].clone()))
            }
            "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" => {
                let f = |k: u128| -> u128 {
                    match name {
                        "ctlz" => {
                            if k == 0 {
                                w as u128
                            } else {
                                (k.leading_zeros() - (128 - w)) as u128
                            }
                        }
                        "cttz" => {
                            if k == 0 {
                                w as u128
                            } else {
                                k.trailing_zeros() as u128
                            }
                        }
                        "ctpop" => k.count_ones() as u128,
                        "bswap" => k.swap_bytes() >> (128 - w),
                        _ => k.reverse_bits() >> (128 - w),
                    }
                };
                match &a[0] {
                    V::S(e) => {
                        let e = *e;
                        if let Some(r) = map1(e, w, f) {
                            return some(ofe(r));
                        }
                        let r = match name {
                            "ctlz" => {
                                let mut r = con(w, w as u128);
                                for i in 0..w {
                                    r = x::ite(x::extract(e, i, 1), con(w, (w - 1 - i) as u128), r);
                                }
                                r
                            }
                            "cttz" => {
                                let mut r = con(w, w as u128);
                                for i in (0..w).rev() {
                                    r = x::ite(x::extract(e, i, 1), con(w, i as u128), r);
                                }
                                r
                            }
                            "ctpop" => {
                                let mut r = con(w, 0);
                                for i in 0..w {
                                    r = x::bin(x::Op::Add, r, x::zext(x::extract(e, i, 1), w));
                                }
                                r
                            }
                            "bswap" => {
                                let mut r = x::extract(e, 0, 8);
                                for i in 1..w / 8 {
                                    r = x::concat(r, x::extract(e, i * 8, 8));
                                }
                                r
                            }
                            _ => return err("bitreverse symbolic"),
                        };
                        some(ofe(r))
                    }
                    v => some(mkv(w, f(vconst(v)))),
                }
            }
            "fshl" | "fshr" => {
                let k = c!(2) % w as u64;
                if w > 64 {
                    return err("fsh i128");
                }
                let (hi, lo) = (toe(&a[0], w), toe(&a[1], w));
                let full = x::concat(hi, lo);
                let lo = if name == "fshl" { w - k as u32 } else { k as u32 };
                some(ofe(x::extract(full, lo, w)))
            }
            "usub.sat" => {
                let k = icmp(Pred::Ult, w, &a[0], &a[1]);
                let d = binop(BinOp::Sub, w, &a[0], &a[1]);
                some(self.ite_or(k, w, mkv(w, 0), d))
            }
            "uadd.sat" => {
                let d = binop(BinOp::Add, w, &a[0], &a[1]);
                let k = icmp(Pred::Ult, w, &d, &a[0]);
                some(self.ite_or(k, w, mkv(w, u128::MAX), d))
            }
            "sadd.sat" | "ssub.sat" => {
                if w > 64 {
                    let iv = |v: &V| crate::lin::slin(toe(v, w), &s.doms, 0).and_then(|l| crate::lin::interval(&l, &s.doms));
                    let add = name == "sadd.sat";
                    let fits = w == 128
                        && match (iv(&a[0]), iv(&a[1])) {
                            (Some(p), Some(q)) if add => p.0.checked_add(q.0).is_some() && p.1.checked_add(q.1).is_some(),
                            (Some(p), Some(q)) => p.0.checked_sub(q.1).is_some() && p.1.checked_sub(q.0).is_some(),
                            _ => false,
                        };
                    return if fits { some(binop(if add { BinOp::Add } else { BinOp::Sub }, w, &a[0], &a[1])) } else { err("sat i128") };
                }
                let p = x::sext(toe(&a[0], w), w + 1);
                let q = x::sext(toe(&a[1], w), w + 1);
                let r = x::bin(if name == "sadd.sat" { x::Op::Add } else { x::Op::Sub }, p, q);
                let max = con(w + 1, x::mask(w - 1));
                let min = con(w + 1, x::mask(w + 1) ^ x::mask(w - 1));
                let r = x::ite(x::slt(max, r), max, x::ite(x::slt(r, min), min, r));
                some(ofe(x::extract(r, 0, w)))
            }
            "uadd.with.overflow" => {
                let r = binop(BinOp::Add, w, &a[0], &a[1]);
                let o = icmp(Pred::Ult, w, &r, &a[0]);
                let o = match (&o, w < 128) {
                    (V::S(_), true) => {
                        // wider sum: friendlier to interval reasoning
                        let p = x::zext(toe(&a[0], w), w + 1);
                        let q = x::zext(toe(&a[1], w), w + 1);
                        ofe(x::ult(con(w + 1, x::mask(w)), x::bin(x::Op::Add, p, q)))
                    }
                    _ => o,
                };
                some(V::A(Rc::new(vec![r, o])))
            }
            "x86.addcarry" | "x86.subborrow" => {
                let w = args[1].0.bits();
                let (c, p, q) = (x::extract(toe(&a[0], 8), 0, 8), toe(&a[1], w), toe(&a[2], w));
                // any non-zero carry byte counts as one
                let c = x::zext(x::not(x::eq(c, con(8, 0))), w + 1);
                let (p, q) = (x::zext(p, w + 1), x::zext(q, w + 1));
                let r = if name == "x86.addcarry" {
                    x::bin(x::Op::Add, x::bin(x::Op::Add, p, q), c)
                } else {
                    x::bin(x::Op::Sub, x::bin(x::Op::Sub, p, q), c)
                };
                some(V::A(Rc::new(vec![ofe(x::zext(x::extract(r, w, 1), 8)), ofe(x::extract(r, 0, w))])))
            }
            "usub.with.overflow" => {
                let r = binop(BinOp::Sub, w, &a[0], &a[1]);
                let o = icmp(Pred::Ult, w, &a[0], &a[1]);
                some(V::A(Rc::new(vec![r, o])))
            }
            "sadd.with.overflow" | "ssub.with.overflow" => {
                let (op, xo) = if name.starts_with("sadd") { (BinOp::Add, x::Op::Add) } else { (BinOp::Sub, x::Op::Sub) };
                let r = binop(op, w, &a[0], &a[1]);
                let o = if !is_sym(&r) && !is_sym(&a[0]) && !is_sym(&a[1]) {
                    if w > 127 {
                        let (p, q) = (vconst(&a[0]) as i128, vconst(&a[1]) as i128);
                        b(if op == BinOp::Add { p.overflowing_add(q).1 } else { p.overflowing_sub(q).1 })
                    } else {
                        let s1 = |v: &V| x::ap(x::Op::SExt, 128, w, 0, vconst(v), 0, 0, 0) as i128;
                        let t = if op == BinOp::Add { s1(&a[0]) + s1(&a[1]) } else { s1(&a[0]) - s1(&a[1]) };
                        b(t != s1(&r))
                    }
                } else if {
                    // no overflow by the linear intervals of both operands
                    let iv = |v: &V| crate::lin::slin(toe(v, w), &s.doms, 0).and_then(|l| crate::lin::interval(&l, &s.doms));
                    match (iv(&a[0]), iv(&a[1])) {
                        (Some(p), Some(q)) => {
                            match (op == BinOp::Add, w) {
                                (true, 128) => p.0.checked_add(q.0).is_some() && p.1.checked_add(q.1).is_some(),
                                (false, 128) => p.0.checked_sub(q.1).is_some() && p.1.checked_sub(q.0).is_some(),
                                (add, _) => {
                                    let (lo, hi) = if add { (p.0 + q.0, p.1 + q.1) } else { (p.0 - q.1, p.1 - q.0) };
                                    lo >= -(1i128 << (w - 1)) && hi < 1i128 << (w - 1)
                                }
                            }
                        }
                        _ => false,
                    }
                } {
                    b(false)
                } else if w < 128 {
                    let p = x::sext(toe(&a[0], w), w + 1);
                    let q = x::sext(toe(&a[1], w), w + 1);
                    let f = x::bin(xo, p, q);
                    ofe(x::not(x::eq(x::extract(f, w, 1), x::extract(f, w - 1, 1))))
                } else {
                    // the result's sign differs from both addends'
                    let (p, q, t) = (toe(&a[0], w), toe(&a[1], w), toe(&r, w));
                    let q = if op == BinOp::Add { q } else { x::bin(x::Op::Xor, q, con(w, x::mask(w))) };
                    let f = x::bin(x::Op::And, x::bin(x::Op::Xor, p, t), x::bin(x::Op::Xor, q, t));
                    ofe(x::extract(f, w - 1, 1))
                };
                some(V::A(Rc::new(vec![r, o])))
            }
            "umul.with.overflow" | "smul.with.overflow" => {
                let sg = name.starts_with('s');
                let r = binop(BinOp::Mul, w, &a[0], &a[1]);
                let o = if !is_sym(&a[0]) && !is_sym(&a[1]) {
                    let (p, q) = (vconst(&a[0]), vconst(&a[1]));
                    if sg {
                        let s1 = |v: u128| x::ap(x::Op::SExt, 128, w, 0, v, 0, 0, 0) as i128;
                        match s1(p).checked_mul(s1(q)) {
                            Some(t) => b(t != s1(vconst(&r))),
                            None => b(true),
                        }
                    } else {
                        match p.checked_mul(q) {
                            Some(t) => b(t > x::mask(w)),
                            None => b(true),
                        }
                    }
                } else if w <= 64 {
                    let (p, q) = (toe(&a[0], w), toe(&a[1], w));
                    let (k, v) = if kst(p).is_some() { (kst(p), q) } else { (kst(q), p) };
                    let half = x::mask(w - 1);
                    let ext = |v: &V| if sg { x::sext(toe(v, w), 2 * w) } else { x::zext(toe(v, w), 2 * w) };
                    let f = x::bin(x::Op::Mul, ext(&a[0]), ext(&a[1]));
                    if k == Some(0) {
                        b(false)
                    } else if sg && k.is_some_and(|k| k <= half) {
                        // the operand is past MAX / k or MIN / k: a comparison of its own width
                        let k = k.unwrap();
                        let (hi, lo) = (half / k, (half + 1) / k);
                        let q = |c: E| crate::lin::cmp(c, &s.doms).unwrap_or(c);
                        ofe(x::or(q(x::slt(con(w, hi), v)), q(x::slt(v, con(w, lo.wrapping_neg() & x::mask(w))))))
                    } else if !sg && k.is_some() {
                        ofe(x::ult(con(w, x::mask(w) / k.unwrap()), v))
                    } else if sg {
                        ofe(x::not(x::eq(f, x::sext(x::extract(f, 0, w), 2 * w))))
                    } else {
                        ofe(x::ult(con(2 * w, x::mask(w)), f))
                    }
                } else if !sg {
                    // a != 0 && (a*b)/a != b
                    let (p, q) = (toe(&a[0], w), toe(&a[1], w));
                    let (p, q) = if kst(p).is_some() { (p, q) } else { (q, p) };
                    if kst(p).is_some() && kst(p) != Some(0) {
                        let lim = x::mask(w) / kst(p).unwrap();
                        ofe(x::ult(con(w, lim), q))
                    } else {
                        return err("i128 umul overflow symbolic");
                    }
                } else if let (Some(k), _) | (None, Some(k)) = (kst(toe(&a[0], w)), kst(toe(&a[1], w))) {
                    let (k, v) = (k as i128, if is_sym(&a[0]) { toe(&a[0], w) } else { toe(&a[1], w) });
                    let fits = crate::lin::slin(v, &s.doms, 0).and_then(|l| crate::lin::interval(&l, &s.doms)).is_some_and(|(lo, hi)| lo.checked_mul(k).is_some() && hi.checked_mul(k).is_some());
                    if fits {
                        b(false)
                    } else if k > 0 {
                        ofe(x::or(x::slt(con(w, (i128::MAX / k) as u128), v), x::slt(v, con(w, (i128::MIN / k) as u128))))
                    } else {
                        return err("i128 smul overflow symbolic");
                    }
                } else {
                    return err("i128 smul overflow symbolic");
                };
                some(V::A(Rc::new(vec![r, o])))
            }
            "ucmp" | "scmp" => {
                let rw = ret.bits();
                let p = if name == "ucmp" { Pred::Ult } else { Pred::Slt };
                let lt = narrow(icmp(p, w, &a[0], &a[1]), w, s);
                let gt = narrow(icmp(p, w, &a[1], &a[0]), w, s);
                let one = self.ite_or(gt, rw, V::I(1), V::I(0));
                some(self.ite_or(lt, rw, V::I(m64(rw)), one))
            }
            "is.constant" => some(V::I(0)),
            "expect" => some(a[0].clone()),
            "threadlocal.address" | "launder.invariant.group" | "strip.invariant.group" => some(a[0].clone()),
            "ptrmask" => some(binop(BinOp::And, 64, &a[0], &a[1])),
            "load.relative" => {
                let (p, o) = (c!(0), c!(1));
                let v = self.load_bits(s, p.wrapping_add(o), 4)?;
                let k = self.conc(s, &v)?;
                some(V::I(p.wrapping_add(sx64(k, 32) as u64)))
            }
            "reduce.or" | "reduce.and" | "reduce.add" | "reduce.xor" | "reduce.umax" | "reduce.umin" | "reduce.mul" => {
                let (l, ew) = match (&a[0], &*args[0].0) {
                    (V::A(l), Ty::Vec(_, t)) => (l.clone(), t.bits()),
                    _ => return err("reduce"),
                };
                let mut r = l[0].clone();
                for v in &l[1..] {
                    r = match name {
                        "reduce.or" => binop(BinOp::Or, ew, &r, v),
                        "reduce.and" => binop(BinOp::And, ew, &r, v),
                        "reduce.add" => binop(BinOp::Add, ew, &r, v),
                        "reduce.mul" => binop(BinOp::Mul, ew, &r, v),
                        "reduce.xor" => binop(BinOp::Xor, ew, &r, v),
                        "reduce.umax" => {
                            let k = icmp(Pred::Ult, ew, &r, v);
                            self.ite_or(k, ew, v.clone(), r.clone())
                        }
                        _ => {
                            let k = icmp(Pred::Ult, ew, &r, v);
                            self.ite_or(k, ew, r.clone(), v.clone())
                        }
                    };
                }
                some(r)
            }
            "fabs" | "floor" | "ceil" | "trunc" | "rint" | "round" | "roundeven" | "sqrt" | "nearbyint" => {
                let k = c!(0);
                let f = fbits(w, k);
                let r = match name {
                    "fabs" => f.abs(),
                    "floor" => f.floor(),
                    "ceil" => f.ceil(),
                    "trunc" => f.trunc(),
                    "round" => f.round(),
                    "sqrt" => f.sqrt(),
                    _ => f.round_ties_even(),
                };
                some(V::I(tobits(w, r)))
            }
            "copysign" => {
                let (p, q) = (c!(0), c!(1));
                some(V::I(tobits(w, fbits(w, p).copysign(fbits(w, q)))))
            }
            "fptosi.sat" | "fptoui.sat" => {
                let k = c!(0);
                let f = fbits(w, k);
                let rw = ret.bits();
                if name == "fptoui.sat" {
                    some(mkv(rw, (f as u128).min(x::mask(rw))))
                } else {
                    let m = x::mask(rw - 1) as i128;
                    some(mkv(rw, (f as i128).clamp(-m - 1, m) as u128))
                }
            }
            "trap" => Err(Stop::End(End::Panic("abort".into()))),
            "exit" => Err(Stop::End(End::Exit(c!(0)))),
            // ---- operating system stand-ins
            "getrandom" => {
                let (p, n) = (c!(0), c!(1));
                self.fill_random(s, p, n)?;
                some(V::I(n))
            }
            "syscall" => {
                let nr = c!(0);
                match nr {
                    318 => {
                        let (p, n) = (c!(1), c!(2));
                        self.fill_random(s, p, n)?;
                        some(V::I(n))
                    }
                    202 => some(V::I(0)),
                    _ => err(format!("syscall {}", nr)),
                }
            }
            "getenv" => some(V::I(0)),
            "__cxa_thread_atexit_impl" => some(V::I(0)),
            // ---- harness interface
            "rsx_sym" => {
                let (p, n) = (c!(0), c!(1));
                if self.cfg.concrete.is_some() {
                    let t = self.next_tok();
                    let bytes = match t {
                        Some(Tok::Bytes(b)) if b.len() == n as usize => b,
                        _ => return err("replay input mismatch (sym)"),
                    };
                    if n > 0 {
                        let (o, off) = self.obj_write(s, p, n)?;
                        o.data[off..off + n as usize].copy_from_slice(&bytes);
                        if !o.sym.is_empty() {
                            o.sym[off..off + n as usize].fill(NIL);
                        }
                    }
                    return Ok(None);
                }
                let first = s.doms.len() as u32;
                if n > 0 {
                    if first as u64 + n > 128 {
                        return err("more than 128 symbolic bytes");
                    }
                    for _ in 0..n {
                        s.doms.push([u64::MAX; 4]);
                        s.model.push(0);
                    }
                    let (o, off) = self.obj_write(s, p, n)?;
                    if o.sym.is_empty() {
                        o.sym = vec![NIL; o.data.len()];
                    }
                    for i in 0..n as usize {
                        o.sym[off + i] = x::var(first + i as u32);
                    }
                }
                s.inputs.push(Inp::Sym(first, n as u32));
                Ok(None)
            }
            "rsx_pick" => {
                let n = c!(0) as u32;
                if self.cfg.concrete.is_some() {
                    return match self.next_tok() {
                        Some(Tok::Pick(k)) if k < n => some(V::I(k as u64)),
                        _ => err("replay input mismatch (pick)"),
                    };
                }
                if n == 0 {
                    return Err(Stop::End(End::Assumed));
                }
                // destination register of this call
                let d = match &s.top.f.blocks[s.top.bb as usize].insts[s.top.ip as usize] {
                    Inst::Call { d, .. } => *d,
                    _ => NOREG,
                };
                for k in (1..n).rev() {
                    let mut o = s.clone();
                    o.inputs.push(Inp::Pick(k));
                    if d != NOREG {
                        o.top.regs[d as usize] = V::I(k as u64);
                    }
                    o.top.ip += 1;
                    o.depth += 1;
                    self.st.forks += 1;
                    self.work.push(o);
                }
                s.inputs.push(Inp::Pick(0));
                some(V::I(0))
            }
            "rsx_seed" => {
                s.seed = c!(0);
                s.rnd = 0;
                Ok(None)
            }
            "rsx_assume" => {
                let c0 = match &a[0] {
                    V::I(k) => return if *k != 0 { Ok(None) } else { Err(Stop::End(End::Assumed)) },
                    V::S(e) => x::not(x::eq(*e, con(x::w(*e), 0))),
                    _ => return err("assume"),
                };
                match self.decide(s, c0, false, false)? {
                    Dec::T => {}
                    Dec::F => return Err(Stop::End(End::Assumed)),
                    Dec::Both(m, cur) => {
                        self.assert(s, c0);
                        if !cur {
                            Self::apply_model(s, &m);
                        }
                    }
                }
                Ok(None)
            }
            "rsx_note" => {
                let (p, n) = (c!(0), c!(1));
                let b = self.get_bytes(s, p, n)?;
                s.notes.push(Rc::new(b));
                Ok(None)
            }
            "rsx_reach" => {
                let k = c!(0) as u32;
                s.reach.push(k);
                Ok(None)
            }
            "rsx_conc" => {
                // concretise a byte range in place (forks over every feasible value)
                let (p, n) = (c!(0), c!(1));
                for i in 0..n {
                    let v = self.load_bits(s, p + i, 1)?;
                    let k = self.conc(s, &v)?;
                    self.store_bits(s, p + i, 1, &V::I(k))?;
                }
                Ok(None)
            }
            "rsx_fail" => {
                let (p, n) = (c!(0), c!(1));
                let (d, sy) = self.get_bytes(s, p, n)?;
                let m: Vec<u8> = (0..d.len())
                    .map(|i| if sy.is_empty() || sy[i] == NIL { d[i] } else { x::eval(sy[i], &s.model) as u8 })
                    .collect();
                Err(Stop::End(End::Fail(String::from_utf8_lossy(&m).into_owned())))
            }
            "rsx_param" => { let k = c!(0) as usize; some(V::I(self.cfg.params.get(k).copied().unwrap_or(0))) },
            "rsx_symbolic" => some(V::I(self.cfg.concrete.is_none() as u64)),
            _ => match self.os(s, name, a)? {
                Some(r) => Ok(r),
                None => err(format!("external function {} is not modelled", name)),
            },
        }
    }
    fn next_tok(&mut self) -> Option<Tok> {
        let l = self.cfg.concrete.as_mut()?;
        if l.is_empty() {
            None
        } else {
            Some(l.remove(0))
        }
    }
    fn fill_random(&mut self, s: &mut State, p: u64, n: u64) -> R<()> {
        for i in 0..n {
            s.rnd = s.rnd.wrapping_add(1);
            let mut z = s.seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(s.rnd.wrapping_mul(0xD1B54A32D192ED03));
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z ^= z >> 27;
            self.store_bits(s, p + i, 1, &V::I(z & 0xff))?;
        }
        Ok(())
    }

    // ------------------------------------------------------------ path ends
    pub fn input_of(s: &State) -> String {
        let mut o = String::new();
        for i in &s.inputs {
            match i {
                Inp::Sym(f, n) => {
                    o.push_str("S ");
                    for k in *f..*f + *n {
                        o.push_str(&format!("{:02x}", s.model[k as usize]));
                    }
                    o.push('\n');
                }
                Inp::Pick(k) => o.push_str(&format!("P {}\n", k)),
                Inp::Seed(_) => {}
            }
        }
        o
    }
    fn notes_of(s: &State) -> Vec<Vec<u8>> {
        x::new_model();
        s.notes
            .iter()
            .map(|nt| {
                let (d, sy) = &**nt;
                (0..d.len())
                    .map(|i| if sy.is_empty() || sy[i] == NIL { d[i] } else { x::eval_more(sy[i], &s.model) as u8 })
                    .collect()
            })
            .collect()
    }
    pub fn finish(&mut self, s: &State, e: End) {
        let e = s.fs.end(e);
        self.st.paths += 1;
        self.st.instrs += s.instrs;
        self.st.maxsym = self.st.maxsym.max(s.doms.len() as u64);
        self.st.maxdepth = self.st.maxdepth.max(s.depth as u64);
        if !matches!(e, End::Assumed) {
            for r in &s.reach {
                *self.st.reach.entry(*r).or_insert(0) += 1;
            }
        }
        match e {
            End::Done | End::Exit(_) => {
                if matches!(e, End::Done) {
                    self.st.done += 1
                } else {
                    self.st.exits += 1
                }
                // reservoir-free sampling: first few, then sparse
                let n = self.st.done;
                if self.samples.len() < self.cfg.samples && (n < 8 || n & (n - 1) == 0 || n % 4099 == 0) {
                    self.samples.push((Self::input_of(s), Self::notes_of(s)));
                }
            }
            End::Assumed => self.st.assumed += 1,
            End::Panic(l) => {
                self.st.panics += 1;
                self.viol(s, "panic", l);
            }
            End::Fail(l) => {
                self.st.fails += 1;
                self.viol(s, "fail", l);
            }
            End::Error(m) => {
                self.st.errors += 1;
                let inp = Self::input_of(s);
                let tr = self.backtrace(s);
                let en = self.errors.entry(format!("error: {}", m)).or_insert((0, format!("{} | {}", inp.replace('\n', " "), tr)));
                en.0 += 1;
            }
            End::Limit(m) => {
                self.st.limits += 1;
                let inp = Self::input_of(s);
                let tr = self.backtrace(s);
                let en = self.errors.entry(format!("limit: {}", m)).or_insert((0, format!("{} | {}", inp.replace('\n', " "), tr)));
                en.0 += 1;
            }
        }
    }
    pub fn backtrace(&self, s: &State) -> String {
        let mut o = vec![idents(&self.m.funcs[s.top.fid as usize].name)];
        for f in s.stack.iter().rev().take(6) {
            o.push(idents(&self.m.funcs[f.fid as usize].name));
        }
        o.join(" < ")
    }
    fn viol(&mut self, s: &State, kind: &str, label: String) {
        if let Some(v) = self.viols.iter_mut().find(|v| v.kind == kind && v.label == label) {
            v.count += 1;
            return;
        }
        if self.viols.len() >= self.cfg.max_viol {
            return;
        }
        self.viols.push(Viol {
            kind: kind.into(),
            label,
            input: Self::input_of(s),
            notes: Self::notes_of(s),
            count: 1,
        });
    }
}
enum ObjRef<'a> {
    G(&'a Rc<Vec<u8>>),
    O(&'a Rc<Obj>),
}

fn classify_intrinsic(r: &str) -> (H, &'static str, u32) {
    for p in [
        "lifetime.", "dbg.", "assume", "experimental.noalias", "donothing", "sideeffect", "x86.sse2.pause",
        "prefetch", "invariant.", "va_",
    ] {
        if r.starts_with(p) {
            return (H::Nop, "", 0);
        }
    }
    let table: &[(&str, &'static str)] = &[
        ("memcpy.", "memcpy"),
        ("memmove.", "memmove"),
        ("memset.", "memset"),
        ("umax.", "umax"),
        ("umin.", "umin"),
        ("smax.", "smax"),
        ("smin.", "smin"),
        ("abs.", "abs"),
        ("ctlz.", "ctlz"),
        ("cttz.", "cttz"),
        ("ctpop.", "ctpop"),
        ("bswap.", "bswap"),
        ("bitreverse.", "bitreverse"),
        ("fshl.", "fshl"),
        ("fshr.", "fshr"),
        ("usub.sat.", "usub.sat"),
        ("uadd.sat.", "uadd.sat"),
        ("sadd.sat.", "sadd.sat"),
        ("ssub.sat.", "ssub.sat"),
        ("x86.addcarry.", "x86.addcarry"),
        ("x86.subborrow.", "x86.subborrow"),
        ("uadd.with.overflow.", "uadd.with.overflow"),
        ("usub.with.overflow.", "usub.with.overflow"),
        ("sadd.with.overflow.", "sadd.with.overflow"),
        ("ssub.with.overflow.", "ssub.with.overflow"),
        ("umul.with.overflow.", "umul.with.overflow"),
        ("smul.with.overflow.", "smul.with.overflow"),
        ("ucmp.", "ucmp"),
        ("scmp.", "scmp"),
        ("is.constant.", "is.constant"),
        ("expect.", "expect"),
        ("threadlocal.address", "threadlocal.address"),
        ("ptrmask.", "ptrmask"),
        ("load.relative.", "load.relative"),
        ("vector.reduce.or.", "reduce.or"),
        ("vector.reduce.and.", "reduce.and"),
        ("vector.reduce.add.", "reduce.add"),
        ("vector.reduce.mul.", "reduce.mul"),
        ("vector.reduce.xor.", "reduce.xor"),
        ("vector.reduce.umax.", "reduce.umax"),
        ("vector.reduce.umin.", "reduce.umin"),
        ("fabs.", "fabs"),
        ("floor.", "floor"),
        ("ceil.", "ceil"),
        ("trunc.", "trunc"),
        ("rint.", "rint"),
        ("round.", "round"),
        ("roundeven.", "roundeven"),
        ("sqrt.", "sqrt"),
        ("nearbyint.", "nearbyint"),
        ("copysign.", "copysign"),
        ("fptosi.sat.", "fptosi.sat"),
        ("fptoui.sat.", "fptoui.sat"),
        ("trap", "trap"),
    ];
    for (p, c) in table {
        if r.starts_with(p) {
            return (H::Ext, c, 0);
        }
    }
    (H::Ext, Box::leak(format!("llvm.{}", r).into_boxed_str()), 0)
}
