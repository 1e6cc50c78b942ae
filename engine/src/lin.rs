//! Linear normal forms of expressions under byte domains: an expression is
//! written as k + sum(c_i * atom_i) over the integers when interval reasoning
//! shows that no intermediate value wraps.  Used to divide, reduce and compare
//! numbers that were assembled digit by digit.
use crate::expr::{self as x, con, kst, mask, n, w, Op, Set, E};

#[derive(Clone, Debug)]
pub struct Lin {
    pub k: i128,
    pub t: Vec<(E, i128)>,
}
const MAXT: usize = 24;
fn add(a: &Lin, b: &Lin, f: i128) -> Option<Lin> {
    let mut t: Vec<(E, i128)> = Vec::with_capacity(a.t.len() + b.t.len());
    let (mut i, mut j) = (0, 0);
    while i < a.t.len() || j < b.t.len() {
        if j >= b.t.len() || (i < a.t.len() && a.t[i].0 < b.t[j].0) {
            t.push(a.t[i]);
            i += 1;
        } else if i >= a.t.len() || b.t[j].0 < a.t[i].0 {
            t.push((b.t[j].0, b.t[j].1.checked_mul(f)?));
            j += 1;
        } else {
            let c = a.t[i].1.checked_add(b.t[j].1.checked_mul(f)?)?;
            if c != 0 {
                t.push((a.t[i].0, c));
            }
            i += 1;
            j += 1;
        }
    }
    if t.len() > MAXT {
        return None;
    }
    Some(Lin { k: a.k.checked_add(b.k.checked_mul(f)?)?, t })
}
fn scale(a: &Lin, f: i128) -> Option<Lin> {
    add(&Lin { k: 0, t: vec![] }, a, f)
}
pub fn interval(l: &Lin, d: &[Set]) -> Option<(i128, i128)> {
    let (mut lo, mut hi) = (l.k, l.k);
    let vars: Vec<Option<u32>> = l.t.iter().map(|t| x::single(x::sup(t.0))).collect();
    for (i, (e, c)) in l.t.iter().enumerate() {
        if let Some(v) = vars[i] {
            if vars[..i].contains(&Some(v)) {
                continue; // counted with the first atom over this byte
            }
            if vars[i + 1..].contains(&Some(v)) || w(*e) > 64 {
                let ts: Vec<(x::Table, i128)> =
                    (i..l.t.len()).filter(|j| vars[*j] == Some(v)).map(|j| (x::table(l.t[j].0), l.t[j].1)).collect();
                let (mut a, mut z) = (i128::MAX, i128::MIN);
                for j in 0..256usize {
                    if x::has(&d[v as usize], j as u8) {
                        let mut s = 0i128;
                        for (t, c) in &ts {
                            s = s.checked_add(c.checked_mul(t[j] as i128)?)?;
                        }
                        a = a.min(s);
                        z = z.max(s);
                    }
                }
                if a > z {
                    return None;
                }
                lo = lo.checked_add(a)?;
                hi = hi.checked_add(z)?;
                continue;
            }
        }
        let (a, b) = x::range(*e, d);
        let (a, b) = (i128::try_from(a).ok()?, i128::try_from(b).ok()?);
        let (p, q) = (a.checked_mul(*c)?, b.checked_mul(*c)?);
        lo = lo.checked_add(p.min(q))?;
        hi = hi.checked_add(p.max(q))?;
    }
    Some((lo, hi))
}
/// congruent to the value of e modulo 2^w(e)
fn lin_mod(e: E, d: &[Set], depth: u32) -> Option<Lin> {
    let x_ = n(e);
    let ww = x_.w as u32;
    // wider values are read through their parts, or as (signed) functions of one byte
    let atom = || if ww <= 64 || x::single(x::sup(e)).is_some() { Some(Lin { k: 0, t: vec![(e, 1)] }) } else { None };
    if depth > 40 {
        return atom();
    }
    match x_.op {
        Op::Const => {
            let k = x_.k;
            // read large constants as negative numbers
            let s = if ww < 128 && ww > 1 && k >> (ww - 1) == 1 { k as i128 - (1i128 << ww) } else { k as i128 };
            Some(Lin { k: s, t: vec![] })
        }
        Op::Add => add(&lin_mod(x_.a, d, depth + 1)?, &lin_mod(x_.b, d, depth + 1)?, 1),
        Op::Sub => add(&lin_mod(x_.a, d, depth + 1)?, &lin_mod(x_.b, d, depth + 1)?, -1),
        Op::Mul => match kst(x_.b) {
            Some(k) => {
                let f = if ww < 128 && k >> (ww - 1) == 1 { k as i128 - (1i128 << ww) } else { k as i128 };
                scale(&lin_mod(x_.a, d, depth + 1)?, f)
            }
            None => atom(),
        },
        Op::Concat => {
            let bw = w(x_.b);
            let b = if let Some(k) = kst(x_.b) {
                Some(Lin { k: k as i128, t: vec![] })
            } else {
                lin(x_.b, d, depth + 1)
            };
            match b {
                Some(b) if bw < 126 => {
                    let a = scale(&lin_mod(x_.a, d, depth + 1)?, 1i128 << bw)?;
                    add(&a, &b, 1)
                }
                _ => atom(),
            }
        }
        Op::ZExt => match lin(x_.a, d, depth + 1) {
            Some(l) => Some(l),
            None => atom(),
        },
        Op::SExt => {
            match slin(x_.a, d, depth + 1) {
                Some(l) => Some(l),
                None => atom(),
            }
        }
        Op::Extract if x_.k == 0 => lin_mod(x_.a, d, depth + 1).or_else(atom),
        Op::Extract if x_.k < 126 => {
            let l = match lin(x_.a, d, depth + 1) {
                Some(l) => l,
                None => return atom(),
            };
            match divide(&l, 1i128 << x_.k, d) {
                Some((q, _)) => Some(q), // modulo 2^w: the extracted window
                None => atom(),
            }
        }
        Op::UDiv | Op::URem => {
            if let Some(k) = kst(x_.b) {
                if k > 0 && k >> 127 == 0 {
                    if let Some(l) = lin(x_.a, d, depth + 1) {
                        if let Some((q, r)) = divide(&l, k as i128, d) {
                            return Some(if x_.op == Op::UDiv { q } else { r });
                        }
                    }
                }
            }
            atom()
        }
        Op::SDiv | Op::SRem => {
            if let Some(k) = kst(x_.b) {
                if k > 0 && (ww == 128 || k >> (ww - 1) == 0) && (k as i128) > 0 {
                    if let Some(l) = slin(x_.a, d, depth + 1) {
                        let (lo, hi) = interval(&l, d)?;
                        let s = if lo >= 0 { 1 } else { -1 };
                        if lo >= 0 || hi <= 0 {
                            if let Some((q, r)) = scale(&l, s).and_then(|l| divide(&l, k as i128, d)) {
                                return scale(if x_.op == Op::SDiv { &q } else { &r }, s);
                            }
                        }
                    }
                }
            }
            atom()
        }
        _ => atom(),
    }
}
/// equal to the value of e (as an unsigned integer)
pub fn lin(e: E, d: &[Set], depth: u32) -> Option<Lin> {
    let mut l = lin_mod(e, d, depth)?;
    let (lo, hi) = interval(&l, d)?;
    if w(e) > 126 {
        return if lo >= 0 { Some(l) } else { None };
    }
    let m = 1i128 << w(e);
    if lo >= 0 && hi < m {
        return Some(l);
    }
    let s = lo.div_euclid(m);
    if hi.div_euclid(m) == s {
        l.k = l.k.checked_sub(s.checked_mul(m)?)?;
        return Some(l);
    }
    None
}
/// equal to the value of e as a signed integer
pub fn slin(e: E, d: &[Set], depth: u32) -> Option<Lin> {
    let mut l = lin_mod(e, d, depth)?;
    let (lo, hi) = interval(&l, d)?;
    if w(e) > 126 {
        return if w(e) == 128 { Some(l) } else { None };
    }
    let m = 1i128 << w(e);
    let h = m / 2;
    let s = (lo + h).div_euclid(m);
    if (hi + h).div_euclid(m) == s {
        l.k = l.k.checked_sub(s.checked_mul(m)?)?;
        return Some(l);
    }
    None
}
/// quotient and remainder when the remainder part provably fits
pub fn divide(l: &Lin, dv: i128, d: &[Set]) -> Option<(Lin, Lin)> {
    let mut q = Lin { k: l.k.div_euclid(dv), t: vec![] };
    let mut r = Lin { k: l.k.rem_euclid(dv), t: vec![] };
    for (e, c) in &l.t {
        let (cq, cr) = (c.div_euclid(dv), c.rem_euclid(dv));
        // keep the coefficient whole unless it is a multiple
        if cr == 0 {
            q.t.push((*e, cq));
        } else if c.abs() < dv {
            r.t.push((*e, *c));
        } else {
            q.t.push((*e, cq));
            r.t.push((*e, cr));
        }
    }
    let (lo, hi) = interval(&r, d)?;
    let s = lo.div_euclid(dv);
    if hi.div_euclid(dv) != s {
        return None;
    }
    q.k = q.k.checked_add(s)?;
    r.k = r.k.checked_sub(s * dv)?;
    Some((q, r))
}
pub fn build(l: &Lin, ww: u32, d: &[Set]) -> Option<E> {
    let (lo, hi) = interval(l, d)?;
    if lo < 0 || (ww < 127 && hi >= 1i128 << ww) {
        return None;
    }
    let mut e = con(ww, 0);
    for (a, c) in &l.t {
        let aw = w(*a);
        let v = if aw < ww { x::zext(*a, ww) } else { x::extract(*a, 0, ww) };
        e = x::bin(Op::Add, e, x::bin(Op::Mul, v, con(ww, (*c as u128) & mask(ww))));
    }
    Some(x::bin(Op::Add, e, con(ww, (l.k as u128) & mask(ww))))
}
/// rewrite a division, remainder or reassembled sum
pub fn fix(e: E, d: &[Set]) -> Option<E> {
    if x::single(x::sup(e)).is_some() || w(e) > 128 {
        return None;
    }
    let l = lin(e, d, 0)?;
    if l.t.len() == 1 && l.t[0].0 == e {
        return None;
    }
    let r = build(&l, w(e), d)?;
    if r == e {
        None
    } else {
        Some(r)
    }
}
/// a simpler equivalent of a comparison
pub fn cmp(c: E, d: &[Set]) -> Option<E> {
    cmp_at(c, d, 0)
}
fn cmp_at(c: E, d: &[Set], depth: u32) -> Option<E> {
    let nd = n(c);
    if let Some(i) = x::is_not(c) {
        return cmp_at(i, d, depth).map(x::not);
    }
    if w(c) == 1 && matches!(nd.op, Op::And | Op::Or) {
        if x::single(x::sup(c)).is_some() || depth > 8 {
            return None;
        }
        let (p, q) = (cmp_at(nd.a, d, depth + 1), cmp_at(nd.b, d, depth + 1));
        if p.is_none() && q.is_none() {
            return None;
        }
        let (p, q) = (p.unwrap_or(nd.a), q.unwrap_or(nd.b));
        return Some(if nd.op == Op::And { x::and(p, q) } else { x::or(p, q) });
    }
    if nd.op == Op::Extract && w(c) == 1 {
        let l = lin(c, d, 0)?;
        let (lo, hi) = interval(&l, d)?;
        if lo == hi && (lo == 0 || lo == 1) {
            return Some(con(1, lo as u128));
        }
        if nd.k as u32 == w(nd.a) - 1 {
            // sign bit
            let l = slin(nd.a, d, 0)?;
            let (lo, hi) = interval(&l, d)?;
            if hi < 0 {
                return Some(con(1, 1));
            }
            if lo >= 0 {
                return Some(con(1, 0));
            }
        }
        return None;
    }
    if !matches!(nd.op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) {
        return None;
    }
    let ww = w(nd.a);
    if ww == 1 {
        return None;
    }
    if matches!(nd.op, Op::Ult | Op::Ule) && kst(nd.b).is_some_and(|k| k < 1 << (ww - 1)) && lin(nd.a, d, 0).is_none() && slin(nd.a, d, 0).is_some() {
        // a difference that may be negative, compared as unsigned
        let (p, q) = (x::sle(con(ww, 0), nd.a), if nd.op == Op::Ult { x::slt(nd.a, nd.b) } else { x::sle(nd.a, nd.b) });
        let (r, t) = (cmp_at(p, d, depth + 1), cmp_at(q, d, depth + 1));
        if r.is_some() && t.is_some() {
            return Some(x::and(r.unwrap(), t.unwrap()));
        }
        return None;
    }
    let df = if matches!(nd.op, Op::Slt | Op::Sle) {
        add(&slin(nd.a, d, 0)?, &slin(nd.b, d, 0)?, -1)?
    } else {
        match (lin(nd.a, d, 0), lin(nd.b, d, 0)) {
            (Some(p), Some(q)) => add(&p, &q, -1)?,
            _ if nd.op == Op::Eq => match (slin(nd.a, d, 0), slin(nd.b, d, 0)) {
                (Some(p), Some(q)) => add(&p, &q, -1)?,
                _ => add(&lin_or_atom(nd.a, d)?, &lin_or_atom(nd.b, d)?, -1)?,
            },
            _ => add(&lin_or_atom(nd.a, d)?, &lin_or_atom(nd.b, d)?, -1)?,
        }
    };
    // per-byte value tables: different decompositions of the same byte cancel here
    let mut per: Vec<(u32, [i128; 256])> = vec![];
    let mut rest = Lin { k: df.k, t: vec![] };
    for (e, c) in &df.t {
        match x::single(x::sup(*e)) {
            Some(v) => {
                let t = x::table(*e);
                let i = match per.iter().position(|p| p.0 == v) {
                    Some(i) => i,
                    None => {
                        per.push((v, [0; 256]));
                        per.len() - 1
                    }
                };
                for j in 0..256 {
                    // a product outside of the byte's domain may overflow
                    if !x::has(&d[v as usize], j as u8) {
                        continue;
                    }
                    per[i].1[j] = per[i].1[j].checked_add(c.checked_mul(t[j] as i128)?)?;
                }
            }
            None => rest.t.push((*e, *c)),
        }
    }
    let (mut plo, mut phi) = interval(&rest, d)?;
    let mut live = vec![];
    for (v, t) in &per {
        let s = &d[*v as usize];
        let (mut a, mut z) = (i128::MAX, i128::MIN);
        for j in 0..256 {
            if x::has(s, j as u8) {
                a = a.min(t[j]);
                z = z.max(t[j]);
            }
        }
        if a > z {
            return None;
        }
        plo = plo.checked_add(a)?;
        phi = phi.checked_add(z)?;
        if a == z {
            rest.k = rest.k.checked_add(a)?;
        } else {
            live.push((*v, t));
        }
    }
    let verdict = |z: i128| match nd.op {
        Op::Eq => z == 0,
        Op::Ult | Op::Slt => z < 0,
        _ => z <= 0,
    };
    if rest.t.is_empty() && live.is_empty() {
        return Some(con(1, verdict(rest.k) as u128));
    }
    if rest.t.is_empty() && live.len() == 1 {
        let (v, t) = live[0];
        let mut s = [0u64; 4];
        for i in 0..256usize {
            if verdict(rest.k.checked_add(t[i])?) {
                s[i >> 6] |= 1 << (i & 63);
            }
        }
        return Some(x::inset(v, s));
    }
    let (lo, hi) = interval(&df, d)?;
    let (lo, hi) = (lo.max(plo), hi.min(phi));
    let b = |v: bool| Some(con(1, v as u128));
    match nd.op {
        Op::Eq => {
            if lo > 0 || hi < 0 {
                return b(false);
            }
            if lo == 0 && hi == 0 {
                return b(true);
            }
        }
        Op::Ult | Op::Slt => {
            if hi < 0 {
                return b(true);
            }
            if lo >= 0 {
                return b(false);
            }
        }
        _ => {
            if hi <= 0 {
                return b(true);
            }
            if lo > 0 {
                return b(false);
            }
        }
    }
    if rest.t.is_empty() {
        // true only where every byte takes its extreme value
        let all = |hi: bool| {
            let mut e = con(1, 1);
            for (v, t) in &live {
                let js = || (0..256usize).filter(|j| x::has(&d[*v as usize], *j as u8));
                let m = if hi { js().map(|j| t[j]).max() } else { js().map(|j| t[j]).min() };
                let mut s = [0u64; 4];
                for j in js() {
                    if Some(t[j]) == m {
                        s[j >> 6] |= 1 << (j & 63);
                    }
                }
                e = x::and(e, x::inset(*v, s));
            }
            e
        };
        match nd.op {
            Op::Eq if plo == 0 => return Some(all(false)),
            Op::Eq if phi == 0 => return Some(all(true)),
            Op::Ult | Op::Slt if plo == -1 => return Some(all(false)),
            Op::Ult | Op::Slt if phi == 0 => return Some(x::not(all(true))),
            Op::Ule | Op::Sle if plo == 0 => return Some(all(false)),
            Op::Ule | Op::Sle if phi == 1 => return Some(x::not(all(true))),
            _ => {}
        }
        if nd.op != Op::Eq && live.len() >= 2 {
            // lexicographic: strict order against the constant, most significant group first
            let strict = matches!(nd.op, Op::Ult | Op::Slt);
            if let Some(e) = lex(&df, strict, d, 0) {
                return Some(e);
            }
        }
        if ww > 64 && live.len() == 2 {
            return Some(pairs(live[0], live[1], |p, q| rest.k.checked_add(p)?.checked_add(q).map(verdict), d)?);
        }
    }
    if nd.op == Op::Eq && df.t.len() >= 2 {
        // split on the largest coefficient when the rest cannot carry
        let big = df.t.iter().map(|t| t.1.abs()).max()?;
        let mut q = Lin { k: 0, t: vec![] };
        let mut r = Lin { k: 0, t: vec![] };
        for (e, c) in &df.t {
            if c % big == 0 {
                q.t.push((*e, c / big));
            } else {
                r.t.push((*e, *c));
            }
        }
        if !r.t.is_empty() {
            q.k = df.k.div_euclid(big);
            r.k = df.k.rem_euclid(big);
            // sum = big*q + r = 0
            let (lo, hi) = interval(&r, d)?;
            let mut cand = vec![];
            let mut m = lo.div_euclid(big) * big;
            while m <= hi {
                if m >= lo {
                    cand.push(m);
                }
                m += big;
                if cand.len() > 1 {
                    return None;
                }
            }
            match cand.first() {
                None => return b(false),
                Some(m) => {
                    r.k -= m;
                    q.k += m / big;
                    let p = zero(&q, d)?;
                    let o = zero(&r, d)?;
                    return Some(x::and(p, o));
                }
            }
        }
    }
    None
}
/// "l < 0" (strict) or "l <= 0", split on the largest coefficient when the rest cannot carry
fn lex(l: &Lin, strict: bool, d: &[Set], depth: u32) -> Option<E> {
    let (lo, hi) = interval(l, d)?;
    let lim = if strict { -1 } else { 0 };
    if hi <= lim {
        return Some(con(1, 1));
    }
    if lo > lim {
        return Some(con(1, 0));
    }
    let big = l.t.iter().map(|t| t.1.abs()).max()?;
    let mut q = Lin { k: l.k.div_euclid(big), t: vec![] };
    let mut r = Lin { k: l.k.rem_euclid(big), t: vec![] };
    for (e, c) in &l.t {
        if c % big == 0 {
            q.t.push((*e, c / big));
        } else {
            r.t.push((*e, *c));
        }
    }
    if q.t.len() != 1 || depth > 20 {
        return None;
    }
    let (v, f) = (x::single(x::sup(q.t[0].0))?, q.t[0].1);
    let t = x::table(q.t[0].0);
    let (rlo, rhi) = interval(&r, d)?;
    let s = rlo.div_euclid(big);
    if rhi.div_euclid(big) != s {
        return None;
    }
    q.k = q.k.checked_add(s)?;
    r.k = r.k.checked_sub(s * big)?;
    // l = big * q + r with r in [0, big)
    let (mut less, mut equal) = ([0u64; 4], [0u64; 4]);
    for j in 0..256usize {
        let z = q.k.checked_add(f.checked_mul(i128::try_from(t[j]).ok()?)?)?;
        if z < 0 {
            less[j >> 6] |= 1 << (j & 63);
        } else if z == 0 {
            equal[j >> 6] |= 1 << (j & 63);
        }
    }
    let less = x::inset(v, less);
    if strict {
        return Some(less);
    }
    let tail = if r.t.is_empty() { con(1, (r.k <= 0) as u128) } else { lex(&r, false, d, depth + 1)? };
    Some(x::or(less, x::and(x::inset(v, equal), tail)))
}
fn lin_or_atom(e: E, d: &[Set]) -> Option<Lin> {
    lin(e, d, 0).or_else(|| if w(e) <= 64 { Some(Lin { k: 0, t: vec![(e, 1)] }) } else { None })
}
/// the condition "l = 0"
fn zero(l: &Lin, d: &[Set]) -> Option<E> {
    let (lo, hi) = interval(l, d)?;
    if lo > 0 || hi < 0 {
        return Some(con(1, 0));
    }
    if l.t.is_empty() {
        return Some(con(1, (l.k == 0) as u128));
    }
    // move negative terms to the other side
    let mut p = Lin { k: l.k.max(0), t: vec![] };
    let mut m = Lin { k: (-l.k).max(0), t: vec![] };
    for (e, c) in &l.t {
        if *c > 0 {
            p.t.push((*e, *c));
        } else {
            m.t.push((*e, -*c));
        }
    }
    let e = x::eq(build(&p, 64, d)?, build(&m, 64, d)?);
    if kst(e).is_some() || x::set_of(e).is_some() {
        return Some(e);
    }
    Some(cmp(e, d).unwrap_or(e))
}

/// a relation between two bytes, as the sets of the second for each set of the first
fn pairs(p: (u32, &[i128; 256]), q: (u32, &[i128; 256]), holds: impl Fn(i128, i128) -> Option<bool>, d: &[Set]) -> Option<E> {
    let mut groups: Vec<(Set, Set)> = vec![];
    for i in (0..256usize).filter(|i| x::has(&d[p.0 as usize], *i as u8)) {
        let mut s = [0u64; 4];
        for j in (0..256usize).filter(|j| x::has(&d[q.0 as usize], *j as u8)) {
            if holds(p.1[i], q.1[j])? {
                s[j >> 6] |= 1 << (j & 63);
            }
        }
        match groups.iter_mut().find(|g| g.1 == s) {
            Some(g) => g.0[i >> 6] |= 1 << (i & 63),
            None => {
                let mut f = [0u64; 4];
                f[i >> 6] |= 1 << (i & 63);
                groups.push((f, s));
            }
        }
    }
    let mut e = con(1, 0);
    for (f, s) in groups {
        e = x::or(e, x::and(x::inset(p.0, f), x::inset(q.0, s)));
    }
    Some(e)
}

/// random expressions: the normal forms agree with the evaluator on every assignment inside the domains
pub fn selftest(iters: u64) -> (u64, u64) {
    let mut z = 0x9E3779B97F4A7C15u64;
    let mut rnd = move |k: u64| {
        z ^= z << 13;
        z ^= z >> 7;
        z ^= z << 17;
        (z >> 11) % k
    };
    let (mut nf, mut nc) = (0, 0);
    for _ in 0..iters {
        let ww = [8u32, 16, 32, 64, 128][rnd(5) as usize];
        let mut d: Vec<Set> = vec![[u64::MAX; 4]; 128];
        for v in 0..4 {
            let lo = rnd(256);
            let n_ = 1 + rnd(12);
            let mut s = [0u64; 4];
            for i in lo..(lo + n_).min(256) {
                s[(i >> 6) as usize] |= 1 << (i & 63);
            }
            d[v] = s;
        }
        let mut pool: Vec<E> = (0..4).map(|v| x::zext(x::var(v), ww)).collect();
        for _ in 0..(3 + rnd(8)) {
            let a = pool[rnd(pool.len() as u64) as usize];
            let b = pool[rnd(pool.len() as u64) as usize];
            let k = [1u128, 2, 3, 10, 100, 60, 3600, 48, 7, 1000][rnd(10) as usize] & mask(ww);
            let k = if k == 0 { 1 } else { k };
            let k = if rnd(4) == 0 { k.wrapping_neg() & mask(ww) } else { k };
            let e = match rnd(13) {
                10 => x::bin(Op::SDiv, a, con(ww, k)),
                11 => x::bin(Op::SRem, a, con(ww, k)),
                12 if ww > 8 => x::sext(x::extract(a, rnd(2) as u32 * ww / 2, ww / 2), ww),
                0 | 1 => x::bin(Op::Add, a, b),
                2 => x::bin(Op::Sub, a, b),
                3 | 4 => x::bin(Op::Mul, a, con(ww, k)),
                5 => x::bin(Op::Add, a, con(ww, k)),
                6 => x::bin(Op::UDiv, a, con(ww, k)),
                7 => x::bin(Op::URem, a, con(ww, k)),
                8 => {
                    if ww > 8 {
                        x::zext(x::extract(a, 0, ww / 2), ww)
                    } else {
                        a
                    }
                }
                _ => x::bin(Op::Sub, a, x::bin(Op::Mul, x::bin(Op::UDiv, a, con(ww, k)), con(ww, k))),
            };
            pool.push(e);
        }
        let e = *pool.last().unwrap();
        let f = *pool.get(pool.len() - 2).unwrap();
        let r = fix(e, &d);
        let c0 = [x::eq(e, f), x::ult(e, f), x::ule(e, f), x::slt(e, f), x::sle(f, e), x::eq(e, con(ww, 9))][rnd(6) as usize];
        let c1 = cmp(c0, &d);
        let (p, q) = (lin(e, &d, 0), slin(e, &d, 0));
        nf += r.is_some() as u64;
        nc += c1.is_some() as u64;
        for _ in 0..24 {
            let mut m = vec![0u8; 128];
            for v in 0..4 {
                let k = x::set_count(&d[v]) as u64;
                let mut t = rnd(k);
                for i in 0..=255u8 {
                    if x::has(&d[v], i) {
                        if t == 0 {
                            m[v] = i;
                            break;
                        }
                        t -= 1;
                    }
                }
            }
            x::new_model();
            let ev = x::eval_more(e, &m);
            if let Some(r) = r {
                assert_eq!(x::eval_more(r, &m), ev, "lin::fix");
            }
            if let Some(c1) = c1 {
                assert_eq!(x::eval_more(c1, &m), x::eval_more(c0, &m), "lin::cmp");
            }
            for (l, sg) in [(&p, false), (&q, true)] {
                if let Some(l) = l {
                    let mut s = l.k;
                    for (a, c) in &l.t {
                        s += x::eval_more(*a, &m) as i128 * c;
                    }
                    let want = if sg && ww < 128 && ev >> (ww - 1) == 1 { ev as i128 - (1i128 << ww) } else { ev as i128 };
                    assert_eq!(s, want, "lin/slin {} {:?}", x::show(e, 9), l.t.iter().map(|t| (x::show(t.0, 5), t.1)).collect::<Vec<_>>());
                }
            }
        }
    }
    (nf, nc)
}
