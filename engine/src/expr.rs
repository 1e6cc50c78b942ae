//! Hash-consed bit-vector expressions over symbolic input bytes.
//! Every variable is one input byte.  Boolean expressions whose support is a
//! single byte are canonicalised to an explicit 256-bit membership set, so that
//! they can be decided exactly against the byte's current domain.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct E(pub u32);
pub const NIL: E = E(u32::MAX);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    InSet,
    Tab,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    ZExt,
    SExt,
    Extract,
    Concat,
    Ite,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Key {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
    pub sup: u128,
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Set = [u64; 4];
pub type Table = Rc<[u128; 256]>;

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<Key, E>,
    pub sets: Vec<Set>,
    setmap: FxMap<Set, u32>,
    pub tabs: Vec<Table>,
    tabmap: HashMap<Vec<u128>, u32>,
    tables: FxMap<E, Table>,
    evalmemo: Vec<(u32, u128)>,
    gen: u32,
    rmemo: Vec<(u32, (u128, u128))>,
    rgen: u32,
}
static mut ARENA: *mut Arena = std::ptr::null_mut();
#[inline]
pub fn ar() -> &'static mut Arena {
    unsafe {
        if ARENA.is_null() {
            ARENA = Box::into_raw(Box::new(Arena {
                nodes: Vec::new(),
                map: Default::default(),
                sets: vec![],
                setmap: Default::default(),
                tabs: vec![],
                tabmap: HashMap::new(),
                tables: Default::default(),
                evalmemo: vec![],
                gen: 0,
                rmemo: vec![],
                rgen: 0,
            }));
        }
        &mut *ARENA
    }
}
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn n(e: E) -> &'static Node {
    &ar().nodes[e.0 as usize]
}
#[inline]
pub fn w(e: E) -> u32 {
    n(e).w as u32
}
#[inline]
pub fn sup(e: E) -> u128 {
    n(e).sup
}
#[inline]
pub fn kst(e: E) -> Option<u128> {
    let x = n(e);
    if x.op == Op::Const {
        Some(x.k)
    } else {
        None
    }
}
fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

/// concrete semantics of an operator
pub fn ap(op: Op, w_: u32, aw: u32, bw: u32, a: u128, b: u128, c: u128, k: u128) -> u128 {
    let m = mask(w_);
    match op {
        Op::Const => k,
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w_), sx(b, w_));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                x.wrapping_div(y) as u128 & m
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w_), sx(b, w_));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128 & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w_ as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w_ as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sx(a, w_);
            let s = if b >= w_ as u128 { w_ - 1 } else { b as u32 };
            (x >> s) as u128 & m
        }
        Op::ZExt => a,
        Op::SExt => sx(a, aw) as u128 & m,
        Op::Extract => (a >> (k as u32)) & m,
        Op::Concat => (a << bw) | b,
        Op::Ite => {
            if a == 1 {
                b
            } else {
                c
            }
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u128,
        Op::Sle => (sx(a, aw) <= sx(b, aw)) as u128,
        Op::Var | Op::InSet | Op::Tab => unreachable!(),
    }
}

fn raw(op: Op, w_: u32, a: E, b: E, c: E, k: u128) -> E {
    let key = Key { op, w: w_ as u8, a, b, c, k };
    let r = ar();
    if let Some(e) = r.map.get(&key) {
        return *e;
    }
    let mut s = 0u128;
    for x in [a, b, c] {
        if x != NIL {
            s |= r.nodes[x.0 as usize].sup;
        }
    }
    if op == Op::Var {
        s = 1u128 << k;
    }
    let id = E(r.nodes.len() as u32);
    r.nodes.push(Node { op, w: w_ as u8, a, b, c, k, sup: s });
    r.map.insert(key, id);
    id
}
pub fn con(w_: u32, k: u128) -> E {
    debug_assert!(w_ >= 1 && w_ <= 128);
    raw(Op::Const, w_, NIL, NIL, NIL, k & mask(w_))
}
pub fn var(i: u32) -> E {
    assert!(i < 128, "more than 128 symbolic bytes");
    raw(Op::Var, 8, NIL, NIL, NIL, i as u128)
}
pub fn single(s: u128) -> Option<u32> {
    if s != 0 && s & (s - 1) == 0 {
        Some(s.trailing_zeros())
    } else {
        None
    }
}
pub fn inset(v: u32, s: Set) -> E {
    if s == [0; 4] {
        return con(1, 0);
    }
    if s == [u64::MAX; 4] {
        return con(1, 1);
    }
    let r = ar();
    let id = match r.setmap.get(&s) {
        Some(i) => *i,
        None => {
            let i = r.sets.len() as u32;
            r.sets.push(s);
            r.setmap.insert(s, i);
            i
        }
    };
    raw(Op::InSet, 1, var(v), NIL, NIL, id as u128)
}
pub fn set_of(e: E) -> Option<(u32, Set)> {
    let x = n(e);
    if x.op == Op::InSet {
        Some((n(x.a).k as u32, ar().sets[x.k as usize]))
    } else {
        None
    }
}
pub fn has(s: &Set, b: u8) -> bool {
    s[(b >> 6) as usize] >> (b & 63) & 1 == 1
}
pub fn set_and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn set_or(a: &Set, b: &Set) -> Set {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub fn set_not(a: &Set) -> Set {
    [!a[0], !a[1], !a[2], !a[3]]
}
pub fn set_empty(a: &Set) -> bool {
    *a == [0; 4]
}
pub fn set_first(a: &Set) -> u8 {
    for i in 0..4 {
        if a[i] != 0 {
            return (i * 64) as u8 + a[i].trailing_zeros() as u8;
        }
    }
    0
}
pub fn set_count(a: &Set) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn mktab(v: u32, w_: u32, t: [u128; 256]) -> E {
    let f = t[0];
    if t.iter().all(|x| *x == f) {
        return con(w_, f);
    }
    if w_ == 1 {
        let mut s = [0u64; 4];
        for i in 0..256 {
            if t[i] == 1 {
                s[i >> 6] |= 1 << (i & 63);
            }
        }
        return inset(v, s);
    }
    let r = ar();
    let key = t.to_vec();
    let id = match r.tabmap.get(&key) {
        Some(i) => *i,
        None => {
            let i = r.tabs.len() as u32;
            r.tabs.push(Rc::new(t));
            r.tabmap.insert(key, i);
            i
        }
    };
    raw(Op::Tab, w_, var(v), NIL, NIL, id as u128)
}
/// value table of an expression over a single byte
pub fn table(e: E) -> Table {
    if let Some(t) = ar().tables.get(&e) {
        return t.clone();
    }
    let x = n(e);
    let mut t = [0u128; 256];
    match x.op {
        Op::Const => t = [x.k; 256],
        Op::Var => {
            for i in 0..256 {
                t[i] = i as u128
            }
        }
        Op::InSet => {
            let s = ar().sets[x.k as usize];
            for i in 0..256 {
                t[i] = has(&s, i as u8) as u128
            }
        }
        Op::Tab => t = *ar().tabs[x.k as usize],
        _ => {
            let z: Table = Rc::new([0; 256]);
            let ta = if x.a != NIL { table(x.a) } else { z.clone() };
            let tb = if x.b != NIL { table(x.b) } else { z.clone() };
            let tc = if x.c != NIL { table(x.c) } else { z.clone() };
            let aw = if x.a != NIL { w(x.a) } else { 0 };
            let bw = if x.b != NIL { w(x.b) } else { 0 };
            for i in 0..256 {
                t[i] = ap(x.op, x.w as u32, aw, bw, ta[i], tb[i], tc[i], x.k);
            }
        }
    }
    let r: Table = Rc::new(t);
    ar().tables.insert(e, r.clone());
    r
}
fn fin(op: Op, w_: u32, a: E, b: E, c: E, k: u128) -> E {
    let mut s = 0u128;
    let mut all = true;
    for x in [a, b, c] {
        if x != NIL {
            s |= sup(x);
            if kst(x).is_none() {
                all = false;
            }
        }
    }
    if all {
        let g = |x: E| if x == NIL { (0, 0) } else { (n(x).k, w(x)) };
        let (va, aw) = g(a);
        let (vb, bw) = g(b);
        let (vc, _) = g(c);
        return con(w_, ap(op, w_, aw, bw, va, vb, vc, k));
    }
    if w_ == 1 {
        if let Some(v) = single(s) {
            let z: Table = Rc::new([0; 256]);
            let ta = if a != NIL { table(a) } else { z.clone() };
            let tb = if b != NIL { table(b) } else { z.clone() };
            let tc = if c != NIL { table(c) } else { z };
            let aw = if a != NIL { w(a) } else { 0 };
            let bw = if b != NIL { w(b) } else { 0 };
            let mut set = [0u64; 4];
            for i in 0..256 {
                if ap(op, 1, aw, bw, ta[i], tb[i], tc[i], k) & 1 == 1 {
                    set[i >> 6] |= 1 << (i & 63);
                }
            }
            return inset(v, set);
        }
    }
    raw(op, w_, a, b, c, k)
}

pub fn not(e: E) -> E {
    if let Some(k) = kst(e) {
        return con(1, k ^ 1);
    }
    if let Some((v, s)) = set_of(e) {
        return inset(v, set_not(&s));
    }
    let x = n(e);
    match x.op {
        Op::Xor if kst(x.b) == Some(1) => return x.a,
        Op::Ult => return ule(x.b, x.a),
        Op::Ule => return ult(x.b, x.a),
        Op::Slt => return fin(Op::Sle, 1, x.b, x.a, NIL, 0),
        Op::Sle => return fin(Op::Slt, 1, x.b, x.a, NIL, 0),
        _ => {}
    }
    raw(Op::Xor, 1, e, con(1, 1), NIL, 0)
}
pub fn is_not(e: E) -> Option<E> {
    let x = n(e);
    if x.w == 1 && x.op == Op::Xor && kst(x.b) == Some(1) {
        Some(x.a)
    } else {
        None
    }
}
pub fn and(a: E, b: E) -> E {
    bin(Op::And, a, b)
}
pub fn or(a: E, b: E) -> E {
    bin(Op::Or, a, b)
}
pub fn pieces(e: E, out: &mut Vec<E>) {
    let x = n(e);
    match x.op {
        Op::Concat => {
            let (a, b) = (x.a, x.b);
            pieces(b, out);
            pieces(a, out);
        }
        Op::ZExt => {
            let (a, ww) = (x.a, x.w as u32);
            pieces(a, out);
            out.push(con(ww - w(a), 0));
        }
        _ => out.push(e),
    }
}
fn cuts(p: &[E]) -> Vec<u32> {
    let mut o = vec![];
    let mut k = 0;
    for e in p {
        k += w(*e);
        o.push(k);
    }
    o
}
fn bitpieces(op: Op, a: E, b: E) -> Option<E> {
    let (mut pa, mut pb) = (vec![], vec![]);
    pieces(a, &mut pa);
    pieces(b, &mut pb);
    if pa.len() == 1 && pb.len() == 1 && kst(a).is_none() && kst(b).is_none() {
        return None;
    }
    let mut c = cuts(&pa);
    c.extend(cuts(&pb));
    // for constants split at runs of 0/1 bits when op is And/Or
    for (k, _) in [(kst(a), 0), (kst(b), 1)] {
        if let Some(k) = k {
            let ww = w(a);
            if op != Op::Xor {
                let mut runs = 0;
                let mut cc = vec![];
                for i in 1..ww {
                    if (k >> i) & 1 != (k >> (i - 1)) & 1 {
                        runs += 1;
                        cc.push(i);
                    }
                }
                if runs <= 20 {
                    c.extend(cc);
                } else {
                    return None;
                }
            }
        }
    }
    c.sort();
    c.dedup();
    if c.len() == 1 {
        return None;
    }
    let mut parts = vec![];
    let mut lo = 0;
    for hi in c {
        let ww = hi - lo;
        let x = extract(a, lo, ww);
        let y = extract(b, lo, ww);
        let triv = |k: u128| k == 0 || k == mask(ww);
        match (kst(x), kst(y)) {
            (Some(_), Some(_)) => {}
            (Some(k), _) | (_, Some(k)) if triv(k) => {}
            (Some(_), _) | (_, Some(_)) if op == Op::Xor => {}
            (None, None) if ww == 1 => {}
            _ => return None,
        }
        parts.push(bin(op, x, y));
        lo = hi;
    }
    let mut r = parts[0];
    for p in &parts[1..] {
        r = concat(*p, r);
    }
    Some(r)
}
pub fn bin(op: Op, a: E, b: E) -> E {
    let ww = w(a);
    debug_assert_eq!(ww, w(b), "{:?}", op);
    let (ka, kb) = (kst(a), kst(b));
    if ka.is_some() && kb.is_some() {
        return fin(op, ww, a, b, NIL, 0);
    }
    let (a, b, ka, kb) = match op {
        Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor if ka.is_some() || (kb.is_none() && a > b) => (b, a, kb, ka),
        _ => (a, b, ka, kb),
    };
    let m = mask(ww);
    match op {
        Op::Add => {
            if kb == Some(0) {
                return a;
            }
            if let Some(k) = kb {
                let x = n(a);
                if x.op == Op::Add {
                    if let Some(k2) = kst(x.b) {
                        return bin(Op::Add, x.a, con(ww, k.wrapping_add(k2)));
                    }
                }
            }
            if ww == 1 {
                return bin(Op::Xor, a, b);
            }
        }
        Op::Sub => {
            if let Some(k) = kb {
                return bin(Op::Add, a, con(ww, k.wrapping_neg()));
            }
            if a == b {
                return con(ww, 0);
            }
        }
        Op::Mul => {
            if let Some(k) = kb {
                if k == 0 {
                    return b;
                }
                if k == 1 {
                    return a;
                }
                if k & (k - 1) == 0 {
                    return bin(Op::Shl, a, con(ww, k.trailing_zeros() as u128));
                }
            }
        }
        Op::UDiv => {
            if kb == Some(1) {
                return a;
            }
            if let Some(k) = kb {
                if k != 0 && k & (k - 1) == 0 {
                    return bin(Op::LShr, a, con(ww, k.trailing_zeros() as u128));
                }
            }
        }
        Op::And => {
            if kb == Some(0) || a == b {
                return b;
            }
            if kb == Some(m) {
                return a;
            }
            if ww == 1 {
                if not(a) == b {
                    return con(1, 0);
                }
                if let (Some((v1, s1)), Some((v2, s2))) = (set_of(a), set_of(b)) {
                    if v1 == v2 {
                        return inset(v1, set_and(&s1, &s2));
                    }
                }
            }
        }
        Op::Or => {
            if kb == Some(0) || a == b {
                return a;
            }
            if kb == Some(m) {
                return b;
            }
            if ww == 1 {
                if not(a) == b {
                    return con(1, 1);
                }
                if let (Some((v1, s1)), Some((v2, s2))) = (set_of(a), set_of(b)) {
                    if v1 == v2 {
                        return inset(v1, set_or(&s1, &s2));
                    }
                }
            }
        }
        Op::Xor => {
            if a == b {
                return con(ww, 0);
            }
            if kb == Some(0) {
                return a;
            }
            if ww == 1 && kb == Some(1) {
                return not(a);
            }
            if kb.is_some() {
                let x = n(a);
                if x.op == Op::Xor && kst(x.b).is_some() {
                    return bin(Op::Xor, x.a, bin(Op::Xor, x.b, b));
                }
            }
        }
        Op::Shl => {
            if let Some(k) = kb {
                if k == 0 {
                    return a;
                }
                if k >= ww as u128 {
                    return con(ww, 0);
                }
                let k = k as u32;
                return concat(extract(a, 0, ww - k), con(k, 0));
            }
        }
        Op::LShr => {
            if let Some(k) = kb {
                if k == 0 {
                    return a;
                }
                if k >= ww as u128 {
                    return con(ww, 0);
                }
                let k = k as u32;
                return zext(extract(a, k, ww - k), ww);
            }
        }
        Op::AShr => {
            if let Some(k) = kb {
                if k == 0 {
                    return a;
                }
                let k = (k.min(ww as u128 - 1)) as u32;
                return sext(extract(a, k, ww - k), ww);
            }
        }
        _ => {}
    }
    // push constants into ite with constant arms
    if kb.is_some() {
        let x = n(a);
        if x.op == Op::Ite && (kst(x.b).is_some() || kst(x.c).is_some()) {
            let (c, t, e) = (x.a, x.b, x.c);
            return ite(c, bin(op, t, b), bin(op, e, b));
        }
    }
    if ka.is_some() {
        let x = n(b);
        if x.op == Op::Ite && kst(x.b).is_some() && kst(x.c).is_some() {
            let (c, t, e) = (x.a, x.b, x.c);
            return ite(c, bin(op, a, t), bin(op, a, e));
        }
    }
    if matches!(op, Op::And | Op::Or | Op::Xor) && ww > 1 {
        if let Some(r) = bitpieces(op, a, b) {
            return r;
        }
    }
    fin(op, ww, a, b, NIL, 0)
}
pub fn extract(e: E, lo: u32, ww: u32) -> E {
    let x = n(e);
    let ew = x.w as u32;
    debug_assert!(lo + ww <= ew);
    if lo == 0 && ww == ew {
        return e;
    }
    match x.op {
        Op::Const => return con(ww, x.k >> lo),
        Op::Extract => return extract(x.a, lo + x.k as u32, ww),
        Op::Concat => {
            let (a, b) = (x.a, x.b);
            let bw = w(b);
            if lo + ww <= bw {
                return extract(b, lo, ww);
            }
            if lo >= bw {
                return extract(a, lo - bw, ww);
            }
            return concat(extract(a, 0, lo + ww - bw), extract(b, lo, bw - lo));
        }
        Op::ZExt => {
            let a = x.a;
            let aw = w(a);
            if lo >= aw {
                return con(ww, 0);
            }
            if lo + ww <= aw {
                return extract(a, lo, ww);
            }
            return zext(extract(a, lo, aw - lo), ww);
        }
        Op::SExt => {
            let a = x.a;
            let aw = w(a);
            if lo + ww <= aw {
                return extract(a, lo, ww);
            }
            if lo == 0 {
                return sext(a, ww);
            }
        }
        Op::And | Op::Or | Op::Xor => {
            let (op, a, b) = (x.op, x.a, x.b);
            return bin(op, extract(a, lo, ww), extract(b, lo, ww));
        }
        Op::Add | Op::Sub | Op::Mul if lo == 0 && single(x.sup).is_some() => {
            let (op, a, b) = (x.op, x.a, x.b);
            return bin(op, extract(a, 0, ww), extract(b, 0, ww));
        }
        Op::Ite => {
            if kst(x.b).is_some() || kst(x.c).is_some() {
                let (c, t, f) = (x.a, x.b, x.c);
                return ite(c, extract(t, lo, ww), extract(f, lo, ww));
            }
        }
        Op::Tab => {
            let t = &ar().tabs[x.k as usize];
            let mut o = [0u128; 256];
            for i in 0..256 {
                o[i] = (t[i] >> lo) & mask(ww);
            }
            return mktab(n(x.a).k as u32, ww, o);
        }
        _ => {}
    }
    fin(Op::Extract, ww, e, NIL, NIL, lo as u128)
}
/// like extract, but keeps a sum or product whole so that its bytes can be
/// reassembled into the same expression
pub fn extract_raw(e: E, lo: u32, ww: u32) -> E {
    let x = n(e);
    if lo == 0 && ww == x.w as u32 {
        return e;
    }
    match x.op {
        Op::Add | Op::Sub | Op::Mul if single(x.sup).is_none() => fin(Op::Extract, ww, e, NIL, NIL, lo as u128),
        Op::ZExt => {
            let (a, aw) = (x.a, w(x.a));
            if lo >= aw {
                con(ww, 0)
            } else if lo + ww <= aw {
                extract_raw(a, lo, ww)
            } else {
                zext(extract_raw(a, lo, aw - lo), ww)
            }
        }
        _ => extract(e, lo, ww),
    }
}
fn merge(a: E, b: E) -> Option<E> {
    let (x, y) = (n(a), n(b));
    if x.op == Op::Const && y.op == Op::Const {
        return Some(con((x.w + y.w) as u32, (x.k << y.w) | y.k));
    }
    if x.op == Op::Extract {
        // y is extract of same base directly below
        if y.op == Op::Extract && y.a == x.a && y.k + y.w as u128 == x.k {
            return Some(extract_raw(x.a, y.k as u32, (x.w + y.w) as u32));
        }
        // y is what the lowest bits of that base were simplified to
        if x.k == y.w as u128 && x.w + y.w > 64 && extract(x.a, 0, y.w as u32) == b {
            return Some(extract_raw(x.a, 0, (x.w + y.w) as u32));
        }
    }
    None
}
pub fn concat(a: E, b: E) -> E {
    let ww = w(a) + w(b);
    assert!(ww <= 128, "expression wider than 128 bits");
    if kst(a) == Some(0) {
        return zext(b, ww);
    }
    if let Some(r) = merge(a, b) {
        return r;
    }
    let y = n(b);
    match y.op {
        Op::Concat => {
            let (ya, yb) = (y.a, y.b);
            if let Some(r) = merge(a, ya) {
                return concat(r, yb);
            }
        }
        Op::ZExt => {
            // concat(a, zext(x)) -> concat(concat(a,0),x)
            let x = y.a;
            let z = con(y.w as u32 - w(x), 0);
            let hi = concat(a, z);
            return raw_concat(hi, x);
        }
        _ => {}
    }
    // a is a zext: pull the zeros out
    let xa = n(a);
    if xa.op == Op::ZExt {
        let inner = xa.a;
        return zext(concat(inner, b), ww);
    }
    raw_concat(a, b)
}
fn raw_concat(a: E, b: E) -> E {
    let ww = w(a) + w(b);
    // right-nested low part: concat(concat(p,q),b) -> concat(p, concat(q,b))
    let x = n(a);
    if x.op == Op::Concat {
        let (p, q) = (x.a, x.b);
        let low = match merge(q, b) {
            Some(r) => r,
            None => raw_concat(q, b),
        };
        return fin(Op::Concat, ww, p, low, NIL, 0);
    }
    fin(Op::Concat, ww, a, b, NIL, 0)
}
pub fn zext(e: E, ww: u32) -> E {
    let x = n(e);
    if x.w as u32 == ww {
        return e;
    }
    match x.op {
        Op::Const => con(ww, x.k),
        Op::ZExt => zext(x.a, ww),
        Op::Tab => mktab(n(x.a).k as u32, ww, *ar().tabs[x.k as usize]),
        Op::Ite if kst(x.b).is_some() && kst(x.c).is_some() => {
            let (c, t, f) = (x.a, x.b, x.c);
            ite(c, zext(t, ww), zext(f, ww))
        }
        _ => fin(Op::ZExt, ww, e, NIL, NIL, 0),
    }
}
pub fn sext(e: E, ww: u32) -> E {
    let x = n(e);
    let ew = x.w as u32;
    if ew == ww {
        return e;
    }
    match x.op {
        Op::Const => con(ww, sx(x.k, ew) as u128),
        Op::ZExt => zext(x.a, ww),
        Op::SExt => sext(x.a, ww),
        Op::Tab => {
            let mut t = *ar().tabs[x.k as usize];
            for i in 0..256 {
                t[i] = sx(t[i], ew) as u128 & mask(ww);
            }
            mktab(n(x.a).k as u32, ww, t)
        }
        Op::Ite if kst(x.b).is_some() && kst(x.c).is_some() => {
            let (c, t, f) = (x.a, x.b, x.c);
            ite(c, sext(t, ww), sext(f, ww))
        }
        _ => {
            if ew == 1 {
                return ite(e, con(ww, mask(ww)), con(ww, 0));
            }
            fin(Op::SExt, ww, e, NIL, NIL, 0)
        }
    }
}
pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(k) = kst(c) {
        return if k == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    let ww = w(a);
    debug_assert_eq!(ww, w(b));
    if let Some(nc) = is_not(c) {
        return ite(nc, b, a);
    }
    if ww == 1 {
        match (kst(a), kst(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), _) => return or(c, b),
            (Some(0), _) => return and(not(c), b),
            (_, Some(1)) => return or(not(c), a),
            (_, Some(0)) => return and(c, a),
            _ => {}
        }
    }
    let s = sup(c) | sup(a) | sup(b);
    if let Some(v) = single(s) {
        // single byte: fold into a table
        let (tc, ta, tb) = (table(c), table(a), table(b));
        let mut t = [0u128; 256];
        for i in 0..256 {
            t[i] = if tc[i] == 1 { ta[i] } else { tb[i] };
        }
        return mktab(v, ww, t);
    }
    // ite(c, ite(c,x,y), z)
    let x = n(a);
    if x.op == Op::Ite && x.a == c {
        return ite(c, x.b, b);
    }
    let y = n(b);
    if y.op == Op::Ite && y.a == c {
        return ite(c, a, y.c);
    }
    fin(Op::Ite, ww, c, a, b, 0)
}
pub fn eq(a: E, b: E) -> E {
    let ww = w(a);
    debug_assert_eq!(ww, w(b));
    if a == b {
        return con(1, 1);
    }
    let (a, b) = if kst(a).is_some() || (kst(b).is_none() && a > b) { (b, a) } else { (a, b) };
    if let (Some(_), Some(_)) = (kst(a), kst(b)) {
        return con(1, 0);
    }
    let x = n(a);
    if let Some(k) = kst(b) {
        if ww == 1 {
            return if k == 1 { a } else { not(a) };
        }
        match x.op {
            Op::ZExt => {
                let aw = w(x.a);
                return if k >> aw != 0 { con(1, 0) } else { eq(x.a, con(aw, k)) };
            }
            Op::SExt => {
                let aw = w(x.a);
                let t = k & mask(aw);
                return if sx(t, aw) as u128 & mask(ww) == k { eq(x.a, con(aw, t)) } else { con(1, 0) };
            }
            Op::Concat => {
                let (h, l) = (x.a, x.b);
                let lw = w(l);
                let r = eq(l, con(lw, k));
                if kst(r) == Some(0) {
                    return r;
                }
                return and(eq(h, con(w(h), k >> lw)), r);
            }
            Op::Add => {
                if let Some(k2) = kst(x.b) {
                    return eq(x.a, con(ww, k.wrapping_sub(k2)));
                }
            }
            Op::Sub => {
                if k == 0 {
                    return eq(x.a, x.b);
                }
            }
            Op::Xor => {
                if let Some(k2) = kst(x.b) {
                    return eq(x.a, con(ww, k ^ k2));
                }
                if k == 0 {
                    return eq(x.a, x.b);
                }
            }
            Op::Or => {
                if k == 0 {
                    let (p, q) = (x.a, x.b);
                    return and(eq(p, b), eq(q, b));
                }
            }
            Op::Ite => {
                if kst(x.b).is_some() || kst(x.c).is_some() {
                    let (c, t, f) = (x.a, x.b, x.c);
                    return ite(c, eq(t, b), eq(f, b));
                }
            }
            _ => {}
        }
    } else {
        let y = n(b);
        if x.op == Op::ZExt && y.op == Op::ZExt && w(x.a) == w(y.a) {
            return eq(x.a, y.a);
        }
        // byte-structured equality
        if matches!(x.op, Op::Concat) || matches!(y.op, Op::Concat) {
            let (mut pa, mut pb) = (vec![], vec![]);
            pieces(a, &mut pa);
            pieces(b, &mut pb);
            if cuts(&pa) == cuts(&pb) {
                let mut r = con(1, 1);
                for (p, q) in pa.iter().zip(&pb) {
                    r = and(r, eq(*p, *q));
                }
                return r;
            }
        }
    }
    fin(Op::Eq, 1, a, b, NIL, 0)
}
pub fn ult(a: E, b: E) -> E {
    if a == b || kst(b) == Some(0) {
        return con(1, 0);
    }
    let ww = w(a);
    if kst(a) == Some(mask(ww)) {
        return con(1, 0);
    }
    if kst(b) == Some(1) {
        return eq(a, con(ww, 0));
    }
    if ww == 1 {
        return and(not(a), b);
    }
    let (x, y) = (n(a), n(b));
    if x.op == Op::ZExt {
        let aw = w(x.a);
        if let Some(k) = kst(b) {
            return if k >> aw != 0 { con(1, 1) } else { ult(x.a, con(aw, k)) };
        }
        if y.op == Op::ZExt {
            let m = aw.max(w(y.a));
            if m < ww {
                return ult(zext(x.a, m), zext(y.a, m));
            }
        }
    }
    if y.op == Op::ZExt {
        let bw = w(y.a);
        if let Some(k) = kst(a) {
            return if k >> bw != 0 { con(1, 0) } else { ult(con(bw, k), y.a) };
        }
    }
    if let Some(k) = kst(b) {
        if x.op == Op::Concat {
            // compare high parts when low constant part is zero
            let lw = w(x.b);
            if k & mask(lw) == 0 {
                return ult(x.a, con(w(x.a), k >> lw));
            }
        }
        if x.op == Op::Ite && (kst(x.b).is_some() || kst(x.c).is_some()) {
            let (c, t, f) = (x.a, x.b, x.c);
            return ite(c, ult(t, b), ult(f, b));
        }
    }
    if kst(a).is_some() {
        if y.op == Op::Ite && (kst(y.b).is_some() || kst(y.c).is_some()) {
            let (c, t, f) = (y.a, y.b, y.c);
            return ite(c, ult(a, t), ult(a, f));
        }
    }
    fin(Op::Ult, 1, a, b, NIL, 0)
}
pub fn ule(a: E, b: E) -> E {
    if a == b {
        return con(1, 1);
    }
    let ww = w(a);
    if let Some(k) = kst(b) {
        if k == mask(ww) {
            return con(1, 1);
        }
        return ult(a, con(ww, k + 1));
    }
    if let Some(k) = kst(a) {
        if k == 0 {
            return con(1, 1);
        }
        return ult(con(ww, k - 1), b);
    }
    let (x, y) = (n(a), n(b));
    if x.op == Op::ZExt && y.op == Op::ZExt {
        let m = w(x.a).max(w(y.a));
        if m < ww {
            return ule(zext(x.a, m), zext(y.a, m));
        }
    }
    fin(Op::Ule, 1, a, b, NIL, 0)
}
fn nonneg(e: E) -> bool {
    match n(e).op {
        Op::ZExt => true,
        Op::Const => n(e).k >> (w(e) - 1) == 0,
        _ => false,
    }
}
pub fn slt(a: E, b: E) -> E {
    if a == b {
        return con(1, 0);
    }
    if nonneg(a) && nonneg(b) {
        return ult(a, b);
    }
    let ww = w(a);
    // x < 0  -> sign bit
    if kst(b) == Some(0) && ww > 1 {
        return extract(a, ww - 1, 1);
    }
    if kst(a) == Some(mask(ww)) && ww > 1 {
        return not(extract(b, ww - 1, 1));
    }
    let x = n(a);
    if kst(b).is_some() && x.op == Op::Ite && (kst(x.b).is_some() || kst(x.c).is_some()) {
        let (c, t, f) = (x.a, x.b, x.c);
        return ite(c, slt(t, b), slt(f, b));
    }
    let y = n(b);
    if kst(a).is_some() && y.op == Op::Ite && (kst(y.b).is_some() || kst(y.c).is_some()) {
        let (c, t, f) = (y.a, y.b, y.c);
        return ite(c, slt(a, t), slt(a, f));
    }
    if x.op == Op::SExt {
        let aw = w(x.a);
        if let Some(k) = kst(b) {
            let t = k & mask(aw);
            if sx(t, aw) as u128 & mask(ww) == k {
                return slt(x.a, con(aw, t));
            }
        }
        if y.op == Op::SExt && w(y.a) == aw {
            return slt(x.a, y.a);
        }
    }
    fin(Op::Slt, 1, a, b, NIL, 0)
}
pub fn sle(a: E, b: E) -> E {
    if a == b {
        return con(1, 1);
    }
    not(slt(b, a))
}

/// evaluate under a model
pub fn new_model() {
    let r = ar();
    r.gen = r.gen.wrapping_add(1);
    if r.gen == 0 {
        r.evalmemo.clear();
        r.gen = 1;
    }
}
pub fn eval(e: E, m: &[u8]) -> u128 {
    new_model();
    ev(e, m)
}
pub fn eval_more(e: E, m: &[u8]) -> u128 {
    ev(e, m)
}
fn ev(e: E, m: &[u8]) -> u128 {
    let x = n(e);
    match x.op {
        Op::Const => return x.k,
        Op::Var => return m.get(x.k as usize).copied().unwrap_or(0) as u128,
        Op::InSet => {
            let b = m.get(n(x.a).k as usize).copied().unwrap_or(0);
            return has(&ar().sets[x.k as usize], b) as u128;
        }
        Op::Tab => {
            let b = m.get(n(x.a).k as usize).copied().unwrap_or(0);
            return ar().tabs[x.k as usize][b as usize];
        }
        _ => {}
    }
    {
        let r = ar();
        if let Some((g, v)) = r.evalmemo.get(e.0 as usize) {
            if *g == r.gen {
                return *v;
            }
        }
    }
    let va = ev(x.a, m);
    let v = match x.op {
        Op::Ite => {
            if va == 1 {
                ev(x.b, m)
            } else {
                ev(x.c, m)
            }
        }
        _ => {
            let vb = if x.b != NIL { ev(x.b, m) } else { 0 };
            let bw = if x.b != NIL { w(x.b) } else { 0 };
            ap(x.op, x.w as u32, w(x.a), bw, va, vb, 0, x.k)
        }
    };
    let r = ar();
    if r.evalmemo.len() <= e.0 as usize {
        r.evalmemo.resize(r.nodes.len() + 64, (0, 0));
    }
    r.evalmemo[e.0 as usize] = (r.gen, v);
    v
}

/// unsigned interval under byte domains
pub fn range(e: E, d: &[Set]) -> (u128, u128) {
    let r = ar();
    r.rgen = r.rgen.wrapping_add(1);
    if r.rgen == 0 {
        r.rmemo.clear();
        r.rgen = 1;
    }
    rg(e, d)
}
fn rg(e: E, d: &[Set]) -> (u128, u128) {
    let x = n(e);
    if x.op == Op::Const {
        return (x.k, x.k);
    }
    {
        let r = ar();
        if let Some((g, v)) = r.rmemo.get(e.0 as usize) {
            if *g == r.rgen {
                return *v;
            }
        }
    }
    let v = rg0(e, d);
    let r = ar();
    if r.rmemo.len() <= e.0 as usize {
        r.rmemo.resize(r.nodes.len() + 64, (0, (0, 0)));
    }
    r.rmemo[e.0 as usize] = (r.rgen, v);
    v
}
fn rg0(e: E, d: &[Set]) -> (u128, u128) {
    let x = n(e);
    let ww = x.w as u32;
    let m = mask(ww);
    if let Some(v) = single(x.sup) {
        let t = table(e);
        let s = &d[v as usize];
        let (mut lo, mut hi) = (u128::MAX, 0);
        for i in 0..256 {
            if has(s, i as u8) {
                lo = lo.min(t[i]);
                hi = hi.max(t[i]);
            }
        }
        if lo > hi {
            return (0, m);
        }
        return (lo, hi);
    }
    let full = (0, m);
    let a = if x.a != NIL { rg(x.a, d) } else { full };
    match x.op {
        Op::ZExt => a,
        Op::SExt => {
            let aw = w(x.a);
            if a.1 >> (aw - 1) == 0 {
                a
            } else if a.0 >> (aw - 1) == 1 {
                (sx(a.0, aw) as u128 & m, sx(a.1, aw) as u128 & m)
            } else {
                full
            }
        }
        Op::Extract => {
            if x.k == 0 {
                if a.1 <= m {
                    return a;
                }
                if ww < 128 && a.0 >> ww == a.1 >> ww {
                    return (a.0 & m, a.1 & m);
                }
                full
            } else {
                let s = x.k as u32;
                let (l, h) = (a.0 >> s, a.1 >> s);
                if h <= m {
                    (l, h)
                } else if ww < 128 && l >> ww == h >> ww {
                    (l & m, h & m)
                } else {
                    full
                }
            }
        }
        Op::Concat => {
            let b = rg(x.b, d);
            let bw = w(x.b);
            ((a.0 << bw) | b.0, (a.1 << bw) | b.1)
        }
        Op::Ite => {
            if a == (1, 1) {
                return rg(x.b, d);
            }
            if a == (0, 0) {
                return rg(x.c, d);
            }
            let (b, c) = (rg(x.b, d), rg(x.c, d));
            (b.0.min(c.0), b.1.max(c.1))
        }
        Op::Add => {
            let b = rg(x.b, d);
            let (l, o1) = a.0.overflowing_add(b.0);
            let (h, o2) = a.1.overflowing_add(b.1);
            if !o1 && !o2 && h <= m {
                return (l, h);
            }
            if !o1 && !o2 && ww < 128 && l >> ww == 1 && h >> ww == 1 {
                return (l & m, h & m);
            }
            full
        }
        Op::Sub => {
            let b = rg(x.b, d);
            if a.0 >= b.1 {
                (a.0 - b.1, a.1 - b.0)
            } else {
                full
            }
        }
        Op::Mul => {
            let b = rg(x.b, d);
            match a.1.checked_mul(b.1) {
                Some(h) if h <= m => (a.0 * b.0, h),
                _ => full,
            }
        }
        Op::UDiv => {
            let b = rg(x.b, d);
            if b.0 > 0 {
                (a.0 / b.1, a.1 / b.0)
            } else {
                full
            }
        }
        Op::URem => {
            let b = rg(x.b, d);
            if b.0 > 0 {
                if a.1 < b.0 {
                    return a;
                }
                (0, a.1.min(b.1 - 1))
            } else {
                (0, a.1)
            }
        }
        Op::And => {
            let b = rg(x.b, d);
            if ww == 1 {
                return (a.0 & b.0, a.1 & b.1);
            }
            (0, a.1.min(b.1))
        }
        Op::Or => {
            let b = rg(x.b, d);
            if ww == 1 {
                return (a.0 | b.0, a.1 | b.1);
            }
            let h = a.1 | b.1;
            let h = if h == 0 { 0 } else { mask(128 - h.leading_zeros()) };
            (a.0.max(b.0), h & m)
        }
        Op::Xor => {
            let b = rg(x.b, d);
            if ww == 1 {
                if a.0 == a.1 && b.0 == b.1 {
                    return (a.0 ^ b.0, a.0 ^ b.0);
                }
                return full;
            }
            let h = a.1 | b.1;
            let h = if h == 0 { 0 } else { mask(128 - h.leading_zeros()) };
            (0, h & m)
        }
        Op::Eq => {
            let b = rg(x.b, d);
            if a.1 < b.0 || b.1 < a.0 {
                (0, 0)
            } else if a.0 == a.1 && a == b {
                (1, 1)
            } else {
                (0, 1)
            }
        }
        Op::Ult => {
            let b = rg(x.b, d);
            if a.1 < b.0 {
                (1, 1)
            } else if a.0 >= b.1 {
                (0, 0)
            } else {
                (0, 1)
            }
        }
        Op::Ule => {
            let b = rg(x.b, d);
            if a.1 <= b.0 {
                (1, 1)
            } else if a.0 > b.1 {
                (0, 0)
            } else {
                (0, 1)
            }
        }
        Op::Slt | Op::Sle => {
            let b = rg(x.b, d);
            let aw = w(x.a);
            // same sign half on each side: signed intervals are ordered
            let sr = |r: (u128, u128)| -> Option<(i128, i128)> {
                if r.0 >> (aw - 1) == r.1 >> (aw - 1) {
                    Some((sx(r.0, aw), sx(r.1, aw)))
                } else {
                    None
                }
            };
            if let (Some(p), Some(q)) = (sr(a), sr(b)) {
                if x.op == Op::Slt {
                    if p.1 < q.0 {
                        return (1, 1);
                    }
                    if p.0 >= q.1 {
                        return (0, 0);
                    }
                } else {
                    if p.1 <= q.0 {
                        return (1, 1);
                    }
                    if p.0 > q.1 {
                        return (0, 0);
                    }
                }
            }
            (0, 1)
        }
        _ => full,
    }
}
pub fn show(e: E, depth: u32) -> String {
    let x = n(e);
    match x.op {
        Op::Const => format!("{}:{}", x.k, x.w),
        Op::Var => format!("v{}", x.k),
        Op::InSet => format!("in(v{},#{})", n(x.a).k, set_count(&ar().sets[x.k as usize])),
        Op::Tab => format!("tab{}(v{})", x.k, n(x.a).k),
        _ if depth == 0 => "..".into(),
        _ => {
            let mut s = format!("({:?}", x.op);
            for c in [x.a, x.b, x.c] {
                if c != NIL {
                    s.push(' ');
                    s.push_str(&show(c, depth - 1));
                }
            }
            if x.op == Op::Extract {
                s.push_str(&format!(" [{}+:{}]", x.k, x.w));
            } else {
                s.push_str(&format!(" :{}", x.w));
            }
            s.push(')');
            s
        }
    }
}

/// randomised self-check of the simplifying constructors against `ap`
pub fn selftest(iters: u64) {
    let mut seed = 0x9E3779B97F4A7C15u64;
    let mut rnd = move || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        seed
    };
    let widths = [1u32, 8, 16, 32, 64, 128, 3, 24];
    let mut pool: Vec<E> = (0..4).map(var).collect();
    for it in 0..iters {
        if pool.len() > 400 {
            pool.truncate(4);
        }
        let model: Vec<u8> = (0..4).map(|_| rnd() as u8).collect();
        let pick = |r: u64, pool: &Vec<E>| pool[r as usize % pool.len()];
        let a = pick(rnd(), &pool);
        let aw = w(a);
        let mut fit = |r: u64, r2: u64, pool: &Vec<E>| -> E {
            for k in 0..8 {
                let b = pick(r.wrapping_add(k * 7919), pool);
                if w(b) == aw {
                    return b;
                }
            }
            let k = match r2 % 5 {
                0 => 0,
                1 => mask(aw),
                2 => 1,
                3 => r as u128,
                _ => (r as u128) << 64 | r2 as u128,
            };
            con(aw, k)
        };
        let b = fit(rnd(), rnd(), &pool);
        let b = if rnd() % 2 == 0 { con(aw, rnd() as u128 >> (rnd() % 64)) } else { b };
        let va = eval(a, &model);
        let vb = eval(b, &model);
        let choice = rnd() % 22;
        let (r, want) = match choice {
            0..=12 => {
                let op = [
                    Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::And, Op::Or, Op::Xor,
                    Op::Shl, Op::LShr, Op::AShr,
                ][choice as usize];
                (bin(op, a, b), ap(op, aw, aw, aw, va, vb, 0, 0))
            }
            13 => {
                let t = widths[rnd() as usize % widths.len()].max(aw);
                (zext(a, t), va)
            }
            14 => {
                let t = widths[rnd() as usize % widths.len()].max(aw);
                (sext(a, t), ap(Op::SExt, t, aw, 0, va, 0, 0, 0))
            }
            15 => {
                let lo = rnd() as u32 % aw;
                let l = 1 + rnd() as u32 % (aw - lo);
                (extract(a, lo, l), ap(Op::Extract, l, aw, 0, va, 0, 0, lo as u128))
            }
            16 => {
                let b = pick(rnd(), &pool);
                if w(b) + aw > 128 {
                    continue;
                }
                let vb = eval(b, &model);
                (concat(a, b), ap(Op::Concat, aw + w(b), aw, w(b), va, vb, 0, 0))
            }
            17 => (eq(a, b), (va == vb) as u128),
            18 => (ult(a, b), (va < vb) as u128),
            19 => (ule(a, b), (va <= vb) as u128),
            20 => (slt(a, b), ap(Op::Slt, 1, aw, aw, va, vb, 0, 0)),
            _ => {
                let c = pick(rnd(), &pool);
                let c = if w(c) == 1 { c } else { extract(c, 0, 1) };
                let vc = eval(c, &model);
                (ite(c, a, b), if vc == 1 { va } else { vb })
            }
        };
        for round in 0..2 {
            let got = eval(r, &model);
            if got != want {
                panic!(
                    "selftest {} iter {} choice {}: a={} b={} r={} got {:x} want {:x} model {:?}",
                    round, it, choice, show(a, 5), show(b, 5), show(r, 6), got, want, model
                );
            }
            let full = [[u64::MAX; 4]; 4];
            let (lo, hi) = range(r, &full);
            if got < lo || got > hi {
                panic!("selftest range: r={} got {:x} range {:x}..{:x}", show(r, 6), got, lo, hi);
            }
            let doms: Vec<Set> = model
                .iter()
                .map(|b| {
                    let mut s = [0u64; 4];
                    s[(*b >> 6) as usize] |= 1 << (b & 63);
                    let c = b.wrapping_add(7);
                    s[(c >> 6) as usize] |= 1 << (c & 63);
                    s
                })
                .collect();
            let (lo, hi) = range(r, &doms);
            if got < lo || got > hi {
                panic!("selftest range2: r={} got {:x} range {:x}..{:x}", show(r, 6), got, lo, hi);
            }
        }
        pool.push(r);
    }
}
