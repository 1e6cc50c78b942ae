//! Symbolic text: every string up to a length, and every string within a small edit distance of a shape.
use rsxapi::*;
pub struct Text {
    pub b: [u8; 64],
    pub n: usize,
}
impl Text {
    pub fn new() -> Text {
        Text { b: [0; 64], n: 0 }
    }
    pub fn bytes(&self) -> &[u8] {
        &self.b[..self.n]
    }
    pub fn push(&mut self, c: u8) {
        self.b[self.n] = c;
        self.n += 1;
    }
    pub fn insert(&mut self, at: usize, s: &[u8]) {
        let mut i = self.n;
        while i > at {
            i -= 1;
            self.b[i + s.len()] = self.b[i];
        }
        self.b[at..at + s.len()].copy_from_slice(s);
        self.n += s.len();
    }
    pub fn delete(&mut self, at: usize, k: usize) {
        let mut i = at;
        while i + k < self.n {
            self.b[i] = self.b[i + k];
            i += 1;
        }
        self.n -= k;
    }
}
fn one_ascii() -> u8 {
    let mut b = [0u8; 1];
    sym_ascii(&mut b);
    b[0]
}
/// every UTF-8 string of at most `max` bytes
pub fn any_text(max: usize) -> Text {
    let mut t = Text::new();
    t.n = pick(max as u32 + 1) as usize;
    let n = t.n;
    sym(&mut t.b[..n]);
    assume(std::str::from_utf8(t.bytes()).is_ok());
    t
}
/// every ASCII string of exactly `n` bytes drawn from `alpha`
pub fn alpha_text(max: usize, alpha: &[u8]) -> Text {
    let mut t = Text::new();
    t.n = pick(max as u32 + 1) as usize;
    let n = t.n;
    sym_from(&mut t.b[..n], alpha);
    t
}
/// the shape itself: 'D' stands for any digit ('#' does in a shape that has one), everything else for itself
pub fn shape_text(shape: &[u8]) -> Text {
    let mut t = Text::new();
    let mut d = [0u8; 40];
    let hole = if shape.contains(&b'#') { b'#' } else { b'D' };
    let k = shape.iter().filter(|c| **c == hole).count();
    sym_from(&mut d[..k], b"0123456789");
    let mut j = 0;
    for c in shape {
        if *c == hole {
            t.push(d[j]);
            j += 1;
        } else {
            t.push(*c);
        }
    }
    t
}
const MULTI: [&str; 5] = ["\u{e9}", "\u{663}", "\u{ff11}", "\u{1d7ce}", "\u{a0}"];
/// every string within `edits` edits of one of the shapes: replace, insert or delete a
/// character (any ASCII value, or one of five multi-byte characters)
pub fn near_text(shapes: &[&str], edits: usize) -> Text {
    let s = shapes[pick(shapes.len() as u32) as usize].as_bytes();
    let mut t = shape_text(s);
    let mut from = 0usize;
    for _ in 0..edits {
        match pick(5) {
            0 => break,
            1 => {
                if from < t.n {
                    let i = from + pick((t.n - from) as u32) as usize;
                    t.b[i] = one_ascii();
                    from = i + 1;
                } else {
                    break;
                }
            }
            2 => {
                let i = from + pick((t.n - from + 1) as u32) as usize;
                t.insert(i, &[one_ascii()]);
                from = i + 1;
            }
            3 => {
                if from < t.n {
                    let i = from + pick((t.n - from) as u32) as usize;
                    t.delete(i, 1);
                    from = i;
                } else {
                    break;
                }
            }
            _ => {
                let m = MULTI[pick(MULTI.len() as u32) as usize].as_bytes();
                let i = from + pick((t.n - from + 1) as u32) as usize;
                // replace as many bytes as the character takes, or insert it
                if pick_bool() && i + m.len() <= t.n {
                    t.b[i..i + m.len()].copy_from_slice(m);
                } else {
                    t.insert(i, m);
                }
                from = i + m.len();
            }
        }
    }
    t
}
