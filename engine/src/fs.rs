//! Files, directories, standard output and their failures: what the programs under test see of
//! the operating system.  Everything is part of the state of a path; contents may be symbolic.
use super::*;
#[derive(Clone)]
enum Node {
    /// names and numbers of the entries, in order of creation
    Dir(Vec<(Vec<u8>, usize)>),
    File(Rc<(Vec<u8>, Vec<E>)>),
}
#[derive(Clone)]
struct Fd {
    node: usize,
    pos: usize,
    append: bool,
    read: bool,
    write: bool,
}
#[derive(Clone, Default)]
pub struct Fs {
    on: bool,
    nodes: Vec<Node>,
    fds: Vec<Option<Fd>>,
    out: Rc<(Vec<u8>, Vec<E>)>,
    errno: u64,
    /// most bytes of one transfer (0: any number), every other transfer interrupted, order of
    /// directory entries, number of the operation that fails
    chunk: u64,
    eintr: bool,
    order: u64,
    fail: u64,
    ops: u64,
    transfers: u64,
    failed: bool,
    /// 1: a panic is an end like any other, 2: if nothing was written before
    mayfail: u64,
    written: bool,
}
const CWD: &[u8] = b"/work";
const NOENT: u64 = 2;
const INTR: u64 = 4;
const IO: u64 = 5;
const BADF: u64 = 9;
const EXIST: u64 = 17;
const NOTDIR: u64 = 20;
const ISDIR: u64 = 21;
const INVAL: u64 = 22;
const NOTEMPTY: u64 = 39;
fn concat(l: &mut (Vec<u8>, Vec<E>), at: usize, d: (Vec<u8>, Vec<E>)) {
    let end = at + d.0.len();
    if l.0.len() < end {
        l.0.resize(end, 0);
    }
    if !l.1.is_empty() || !d.1.is_empty() {
        let n = l.0.len();
        l.1.resize(n, NIL);
        for i in 0..d.0.len() {
            l.1[at + i] = if d.1.is_empty() { NIL } else { d.1[i] };
        }
    }
    l.0[at..end].copy_from_slice(&d.0);
}
impl Fs {
    /// the end of a path, after what the harness allows
    pub fn end(&self, e: End) -> End {
        let fail = |l: &str| End::Fail(l.into());
        match e {
            End::Panic(l) if self.mayfail == 0 => End::Panic(l),
            End::Panic(_) if self.mayfail == 2 && self.written => fail("something is written before the failure"),
            End::Panic(_) => End::Exit(134),
            End::Exit(k) if self.on && k != 0 && self.mayfail == 0 => fail("the program reports a failure"),
            End::Exit(0) if self.on && (self.mayfail == 2 || self.mayfail == 1 && self.failed) => fail("a failure is not reported"),
            e => e,
        }
    }
    /// the node of a path, or its directory and last name
    fn walk(&self, p: &[u8]) -> Result<(usize, Option<Vec<u8>>), u64> {
        if p.is_empty() {
            return Err(NOENT);
        }
        // the root holds the working directory only
        let mut at = vec![0];
        let mut it: Vec<&[u8]> = vec![];
        if p[0] != b'/' {
            at.push(1);
        }
        it.extend(p.split(|c| *c == b'/').filter(|c| !c.is_empty() && *c != b"."));
        let slash = p.ends_with(b"/");
        for (i, c) in it.iter().enumerate() {
            let Node::Dir(l) = &self.nodes[at[at.len() - 1]] else { return Err(NOTDIR) };
            if *c == b".." {
                if at.len() > 1 {
                    at.pop();
                }
                continue;
            }
            match l.iter().find(|e| e.0 == *c) {
                Some(e) => at.push(e.1),
                None if i + 1 == it.len() => return Ok((at[at.len() - 1], Some(c.to_vec()))),
                None => return Err(NOENT),
            }
        }
        let n = at[at.len() - 1];
        if slash && matches!(self.nodes[n], Node::File(_)) {
            return Err(NOTDIR);
        }
        Ok((n, None))
    }
    fn parent(&self, n: usize) -> Option<(usize, usize)> {
        for (i, x) in self.nodes.iter().enumerate() {
            if let Node::Dir(l) = x {
                if let Some(k) = l.iter().position(|e| e.1 == n) {
                    return Some((i, k));
                }
            }
        }
        None
    }
    fn stat(&self, n: usize) -> (u64, u64) {
        match &self.nodes[n] {
            Node::Dir(_) => (0o040755, 4096),
            Node::File(f) => (0o100644, f.0.len() as u64),
        }
    }
    /// whether the operation that begins now is the one to fail
    fn fails(&mut self) -> bool {
        self.ops += 1;
        if self.fail != 0 && self.ops == self.fail {
            self.failed = true;
            return true;
        }
        false
    }
}
impl Engine {
    fn put(&self, s: &mut State, p: u64, n: usize, v: u64) -> R<()> {
        self.store_bits(s, p, n, &V::I(v))
    }
    fn path(&mut self, s: &mut State, p: u64) -> R<Vec<u8>> {
        let mut r = vec![];
        loop {
            let v = self.load_bits(s, p + r.len() as u64, 1)?;
            match self.conc(s, &v)? as u8 {
                0 => return Ok(r),
                c => r.push(c),
            }
        }
    }
    fn put_stat(&self, s: &mut State, p: u64, n: usize, st: (u64, u64), x: bool) -> R<()> {
        for i in 0..if x { 32 } else { 18 } {
            self.put(s, p + 8 * i, 8, 0)?;
        }
        if x {
            self.put(s, p, 4, 0x17ff)?;
            self.put(s, p + 4, 4, 4096)?;
            self.put(s, p + 16, 4, 1)?;
            self.put(s, p + 28, 2, st.0)?;
            self.put(s, p + 32, 8, n as u64 + 2)?;
            self.put(s, p + 40, 8, st.1)
        } else {
            self.put(s, p + 8, 8, n as u64 + 2)?;
            self.put(s, p + 16, 8, 1)?;
            self.put(s, p + 24, 4, st.0)?;
            self.put(s, p + 48, 8, st.1)?;
            self.put(s, p + 56, 8, 4096)
        }
    }
    /// a call of the operating system; None: not one that is modelled
    pub fn os(&mut self, s: &mut State, name: &str, a: &[V]) -> R<Option<Option<V>>> {
        macro_rules! c {
            ($i:expr) => {
                self.conc(s, &a[$i])?
            };
        }
        macro_rules! fs {
            () => {
                Rc::make_mut(&mut s.fs)
            };
        }
        let some = |v: u64| Ok(Some(Some(V::I(v))));
        if name == "rsx_files" {
            let e = self.malloc(s, 8);
            s.fs = Rc::new(Fs {
                on: true,
                nodes: vec![Node::Dir(vec![(CWD[1..].to_vec(), 1)]), Node::Dir(vec![])],
                fds: vec![None; 3],
                errno: e,
                ..Default::default()
            });
            return Ok(Some(None));
        }
        if !s.fs.on {
            return match name {
                "write" => some(c!(2)),
                "__errno_location" => {
                    // a scratch word
                    let g = self.malloc(s, 8);
                    some(g)
                }
                _ => Ok(None),
            };
        }
        macro_rules! fail {
            ($w:expr, $e:expr) => {{
                let (w, e): (u32, u64) = ($w, $e);
                self.put(s, s.fs.errno, 4, e)?;
                return some(if w == 0 { 0 } else { m64(w) });
            }};
        }
        macro_rules! walk {
            ($p:expr) => {
                match s.fs.walk(&$p) {
                    Ok((n, None)) => n,
                    Ok(_) => fail!(32, NOENT),
                    Err(e) => fail!(32, e),
                }
            };
        }
        macro_rules! fd {
            ($n:expr, $w:expr) => {
                match s.fs.fds.get($n as usize) {
                    Some(Some(f)) => f.clone(),
                    _ => fail!($w, BADF),
                }
            };
        }
        match name {
            "__errno_location" => some(s.fs.errno),
            "rsx_io" => {
                let l = (c!(0), c!(1), c!(2), c!(3));
                let f = fs!();
                (f.chunk, f.eintr, f.order, f.fail) = (l.0, l.1 != 0, l.2, l.3);
                (f.ops, f.transfers, f.failed) = (0, 0, false);
                Ok(Some(None))
            }
            "rsx_failed" => some(s.fs.failed as u64),
            "rsx_mayfail" => {
                let k = c!(0);
                let f = fs!();
                f.mayfail = k;
                f.written = false;
                Ok(Some(None))
            }
            "rsx_stdout" => {
                let (p, n) = (c!(0), c!(1));
                let o = s.fs.out.clone();
                for i in 0..n as usize {
                    let v = if o.1.is_empty() || o.1[i] == NIL { V::I(o.0[i] as u64) } else { V::S(o.1[i]) };
                    self.store_bits(s, p + i as u64, 1, &v)?;
                }
                some(o.0.len() as u64)
            }
            "open64" | "open" => {
                let p = c!(0);
                let p = self.path(s, p)?;
                let fl = c!(1);
                if fs!().fails() {
                    fail!(32, IO)
                }
                let n = match s.fs.walk(&p) {
                    Ok((n, None)) => {
                        if fl & 0xc0 == 0xc0 {
                            fail!(32, EXIST)
                        }
                        match s.fs.nodes[n] {
                            Node::Dir(_) if fl & 3 != 0 => fail!(32, ISDIR),
                            Node::File(_) if fl & 0x10000 != 0 => fail!(32, NOTDIR),
                            _ => n,
                        }
                    }
                    Ok((d, Some(name))) if fl & 0x40 != 0 => {
                        let f = fs!();
                        let n = f.nodes.len();
                        f.nodes.push(Node::File(Default::default()));
                        if let Node::Dir(l) = &mut f.nodes[d] {
                            l.push((name, n))
                        }
                        n
                    }
                    Ok(_) => fail!(32, NOENT),
                    Err(e) => fail!(32, e),
                };
                let f = fs!();
                f.written |= fl & 3 != 0;
                if fl & 0x200 != 0 {
                    if let Node::File(d) = &mut f.nodes[n] {
                        *d = Default::default()
                    }
                }
                let fd = Fd { node: n, pos: 0, append: fl & 0x400 != 0, read: fl & 3 != 1, write: fl & 3 != 0 };
                match f.fds[3..].iter().position(|x| x.is_none()) {
                    Some(i) => {
                        f.fds[i + 3] = Some(fd);
                        some(i as u64 + 3)
                    }
                    None => {
                        f.fds.push(Some(fd));
                        some(f.fds.len() as u64 - 1)
                    }
                }
            }
            "close" => {
                let n = c!(0);
                fd!(n, 32);
                fs!().fds[n as usize] = None;
                some(0)
            }
            "read" | "write" => {
                let (n, p, mut len) = (c!(0), c!(1), c!(2));
                let out = name == "write";
                if n == 2 {
                    return some(len);
                }
                if n != 1 || !out {
                    let f = fd!(n, 64);
                    if !(if out { f.write } else { f.read }) {
                        fail!(64, BADF)
                    }
                    if let Node::Dir(_) = s.fs.nodes[f.node] {
                        fail!(64, ISDIR)
                    }
                }
                let f = fs!();
                f.transfers += 1;
                if f.eintr && f.transfers & 1 == 1 {
                    fail!(64, INTR)
                }
                if f.fails() {
                    fail!(64, IO)
                }
                if f.chunk != 0 {
                    len = len.min(f.chunk);
                }
                if out {
                    let d = self.get_bytes(s, p, len)?;
                    let f = fs!();
                    f.written = true;
                    if n == 1 {
                        let o = Rc::make_mut(&mut f.out);
                        let at = o.0.len();
                        concat(o, at, d);
                        return some(len);
                    }
                    let h = f.fds[n as usize].as_mut().unwrap();
                    if let Node::File(x) = &mut f.nodes[h.node] {
                        let x = Rc::make_mut(x);
                        if h.append {
                            h.pos = x.0.len();
                        }
                        concat(x, h.pos, d);
                        h.pos += len as usize;
                    }
                    return some(len);
                }
                let h = f.fds[n as usize].as_mut().unwrap();
                let x = match &f.nodes[h.node] {
                    Node::File(x) => x.clone(),
                    _ => return err("read"),
                };
                let at = h.pos.min(x.0.len());
                let len = (len as usize).min(x.0.len() - at);
                h.pos = at + len;
                for i in 0..len {
                    let v = if x.1.is_empty() || x.1[at + i] == NIL { V::I(x.0[at + i] as u64) } else { V::S(x.1[at + i]) };
                    self.store_bits(s, p + i as u64, 1, &v)?;
                }
                some(len as u64)
            }
            "lseek64" | "lseek" => {
                let (n, off, wh) = (c!(0), c!(1), c!(2));
                let f = fd!(n, 64);
                let size = match &s.fs.nodes[f.node] {
                    Node::File(x) => x.0.len() as u64,
                    _ => 0,
                };
                let p = [0, f.pos as u64, size][wh as usize].wrapping_add(off);
                if p as i64 + 1 <= 0 {
                    fail!(64, INVAL)
                }
                fs!().fds[n as usize].as_mut().unwrap().pos = p as usize;
                some(p)
            }
            "ftruncate64" | "ftruncate" => {
                let (n, len) = (c!(0), c!(1) as usize);
                let f = fd!(n, 32);
                if let Node::File(x) = &mut fs!().nodes[f.node] {
                    let x = Rc::make_mut(x);
                    x.0.resize(len, 0);
                    if !x.1.is_empty() {
                        x.1.resize(len, NIL);
                    }
                }
                some(0)
            }
            "fstat64" | "fstat" => {
                let (n, p) = (c!(0), c!(1));
                let n = if n < 3 { 1 } else { fd!(n, 32).node };
                let st = s.fs.stat(n);
                self.put_stat(s, p, n, st, false)?;
                some(0)
            }
            "stat64" | "lstat64" | "stat" | "lstat" => {
                let (q, p) = (c!(0), c!(1));
                let q = self.path(s, q)?;
                let n = walk!(q);
                let st = s.fs.stat(n);
                self.put_stat(s, p, n, st, false)?;
                some(0)
            }
            "statx" => {
                let (d, q, fl, p) = (c!(0), c!(1), c!(2), c!(4));
                let q = if q == 0 { vec![] } else { self.path(s, q)? };
                let n = if q.is_empty() && fl & 0x1000 != 0 {
                    if d < 3 { 1 } else { fd!(d, 32).node }
                } else {
                    // tried by the library to see whether the call is there
                    if q.is_empty() {
                        fail!(32, 14)
                    }
                    if d as u32 != (-100i32) as u32 && !q.starts_with(b"/") {
                        return err("statx in a directory");
                    }
                    walk!(q)
                };
                let st = s.fs.stat(n);
                self.put_stat(s, p, n, st, true)?;
                some(0)
            }
            "access" => {
                let q = c!(0);
                let q = self.path(s, q)?;
                walk!(q);
                some(0)
            }
            "mkdir" => {
                fs!().written = true;
                let q = c!(0);
                let q = self.path(s, q)?;
                if fs!().fails() {
                    fail!(32, IO)
                }
                match s.fs.walk(&q) {
                    Ok((d, Some(name))) => {
                        let f = fs!();
                        let n = f.nodes.len();
                        f.nodes.push(Node::Dir(vec![]));
                        if let Node::Dir(l) = &mut f.nodes[d] {
                            l.push((name, n))
                        }
                        some(0)
                    }
                    Ok(_) => fail!(32, EXIST),
                    Err(e) => fail!(32, e),
                }
            }
            "unlink" | "rmdir" => {
                fs!().written = true;
                let q = c!(0);
                let q = self.path(s, q)?;
                let n = walk!(q);
                match (&s.fs.nodes[n], name) {
                    (Node::Dir(_), "unlink") => fail!(32, ISDIR),
                    (Node::File(_), "rmdir") => fail!(32, NOTDIR),
                    (Node::Dir(l), _) if !l.is_empty() => fail!(32, NOTEMPTY),
                    _ => (),
                }
                if let Some((d, k)) = s.fs.parent(n) {
                    if let Node::Dir(l) = &mut fs!().nodes[d] {
                        l.remove(k);
                    }
                }
                some(0)
            }
            "rename" => {
                fs!().written = true;
                let (p, q) = (c!(0), c!(1));
                let (p, q) = (self.path(s, p)?, self.path(s, q)?);
                let n = walk!(p);
                let (d, last) = match s.fs.walk(&q) {
                    Ok((d, Some(l))) => (d, l),
                    Ok((o, None)) => {
                        if let Node::Dir(_) = s.fs.nodes[o] {
                            fail!(32, ISDIR)
                        }
                        if o == n {
                            return some(0);
                        }
                        let (d, k) = s.fs.parent(o).unwrap();
                        let Node::Dir(l) = &mut fs!().nodes[d] else { return err("rename") };
                        let e = l.remove(k);
                        (d, e.0)
                    }
                    Err(e) => fail!(32, e),
                };
                let (f, k) = s.fs.parent(n).unwrap();
                if let Node::Dir(l) = &mut fs!().nodes[f] {
                    l.remove(k);
                }
                if let Node::Dir(l) = &mut fs!().nodes[d] {
                    l.push((last, n));
                }
                some(0)
            }
            "opendir" => {
                let q = c!(0);
                let q = self.path(s, q)?;
                if fs!().fails() {
                    fail!(0, IO)
                }
                let n = match s.fs.walk(&q) {
                    Ok((n, None)) => n,
                    Ok(_) => fail!(0, NOENT),
                    Err(e) => fail!(0, e),
                };
                let mut l: Vec<(Vec<u8>, usize)> = match &s.fs.nodes[n] {
                    Node::Dir(l) => l.clone(),
                    _ => fail!(0, NOTDIR),
                };
                l.push((b".".to_vec(), n));
                l.push((b"..".to_vec(), 0));
                l.sort();
                if s.fs.order == 1 {
                    l.reverse();
                }
                // position, number of entries, entries
                let d = self.malloc(s, 16 + 280 * l.len() as u64);
                self.put(s, d, 8, 0)?;
                self.put(s, d + 8, 8, l.len() as u64)?;
                for (i, (e, n)) in l.iter().enumerate() {
                    let p = d + 16 + 280 * i as u64;
                    self.put(s, p, 8, *n as u64 + 2)?;
                    self.put(s, p + 8, 8, i as u64)?;
                    self.put(s, p + 16, 2, 280)?;
                    self.put(s, p + 18, 1, if let Node::Dir(_) = s.fs.nodes[*n] { 4 } else { 8 })?;
                    for (k, b) in e.iter().enumerate() {
                        self.put(s, p + 19 + k as u64, 1, *b as u64)?;
                    }
                }
                some(d)
            }
            "readdir64" | "readdir" => {
                let d = c!(0);
                let (i, n) = (self.load_bits(s, d, 8)?, self.load_bits(s, d + 8, 8)?);
                let (i, n) = (self.conc(s, &i)?, self.conc(s, &n)?);
                if fs!().fails() {
                    fail!(0, IO)
                }
                if i == n {
                    return some(0);
                }
                self.put(s, d, 8, i + 1)?;
                some(d + 16 + 280 * i)
            }
            "__xpg_strerror_r" => {
                let p = c!(1);
                for (i, b) in b"error\0".iter().enumerate() {
                    self.put(s, p + i as u64, 1, *b as u64)?;
                }
                some(0)
            }
            "closedir" => some(0),
            "dirfd" => some(1000),
            "isatty" => fail!(0, 25),
            "fcntl" => some(0),
            "getcwd" => {
                let (p, n) = (c!(0), c!(1));
                if n < 6 {
                    fail!(0, 34)
                }
                for (i, b) in CWD.iter().chain(&[0]).enumerate() {
                    self.put(s, p + i as u64, 1, *b as u64)?;
                }
                some(p)
            }
            _ => Ok(None),
        }
    }
}
