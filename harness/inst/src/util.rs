//! Documents and texts.
use rsxapi::*;
use yaserde::{YaDeserialize, YaSerialize};
pub struct Doc {
    s: String,
    p: String,
    stack: Vec<String>,
    open: bool,
}
fn escape(t: &str, s: &mut String) {
    for c in t.chars() {
        match c {
            '<' => s.push_str("&lt;"),
            '&' => s.push_str("&amp;"),
            '>' => s.push_str("&gt;"),
            '"' => s.push_str("&quot;"),
            c => s.push(c),
        }
    }
}
impl Doc {
    pub fn new() -> Doc {
        Doc { s: String::new(), p: String::new(), stack: vec![], open: false }
    }
    fn tag(&mut self, name: &str) {
        if self.open {
            self.s.push('>');
        }
        self.s.push('<');
        self.s.push_str(&self.p);
        self.s.push_str(name);
        self.open = true;
    }
    /// the root element; `prefix` ends in a colon or is empty
    pub fn open(&mut self, prefix: &str, name: &str, ns: &str) {
        self.p = prefix.to_string();
        self.child(name);
        if ns.is_empty() {
            return;
        }
        let x = if prefix.is_empty() { "xmlns".to_string() } else { format!("xmlns:{}", &prefix[..prefix.len() - 1]) };
        self.s.push_str(&format!(" {}=\"{}\"", x, ns));
    }
    pub fn child(&mut self, name: &str) {
        self.tag(name);
        self.stack.push(format!("{}{}", self.p, name));
    }
    /// the prefix of the elements that follow
    #[allow(unused)]
    pub fn prefix(&mut self, prefix: &str) {
        self.p = prefix.to_string();
    }
    pub fn attr(&mut self, name: &str, value: &str) {
        self.s.push(' ');
        self.s.push_str(name);
        self.s.push_str("=\"");
        escape(value, &mut self.s);
        self.s.push('"');
    }
    /// the text of the element opened last
    #[allow(unused)]
    pub fn text(&mut self, text: &str) {
        if !text.is_empty() || pick_bool() {
            self.s.push('>');
            self.open = false;
            escape(text, &mut self.s);
        }
    }
    pub fn leaf(&mut self, name: &str, text: &str) {
        self.child(name);
        self.text(text);
        self.close();
    }
    pub fn close(&mut self) {
        let n = self.stack.pop().unwrap_or_default();
        if self.open {
            self.s.push_str("/>");
            self.open = false;
        } else {
            self.s.push_str(&format!("</{}>", n));
        }
    }
    /// like `close`, never as an empty tag
    pub fn close_tag(&mut self) {
        if self.open {
            self.s.push('>');
            self.open = false;
        }
        self.close()
    }
    pub fn end(self) -> String {
        self.s
    }
}
/// text an element or attribute can hold: no white space at the ends or next to other white space
pub fn text(n: usize) -> String {
    let k = pick(n as u32 + 1) as usize;
    let mut b = vec![0u8; k];
    let s = if pick_bool() {
        sym_from(&mut b, b"<>&;a 1\"'");
        String::from_utf8(b).unwrap_or_default()
    } else {
        sym(&mut b);
        for c in &b {
            assume(*c >= 32 && *c != 127);
        }
        match String::from_utf8(b) {
            Ok(s) => s,
            Err(_) => {
                assume(false);
                String::new()
            }
        }
    };
    assume(!s.starts_with(' ') && !s.ends_with(' ') && !s.contains("]]>"));
    assume(!s.chars().any(|c| ('\u{80}'..'\u{a0}').contains(&c) || c == '\u{fffe}' || c == '\u{ffff}'));
    s
}
pub fn back<T: YaSerialize + YaDeserialize + PartialEq>(v: &T) {
    let s = match yaserde::ser::to_string(v) {
        Ok(s) => s,
        Err(_) => return fail("a value cannot be written"),
    };
    note(s.as_bytes());
    match yaserde::de::from_str::<T>(&s) {
        Ok(w) => check(w == *v, "what was written is read as another value"),
        Err(_) => fail("what was written is not read"),
    }
    reach(1)
}
pub fn read<T: YaDeserialize + PartialEq>(d: Doc, v: &T) {
    let s = d.end();
    note(s.as_bytes());
    match yaserde::de::from_str::<T>(&s) {
        Ok(w) => check(w == *v, "a document is read as another value"),
        Err(_) => fail("a document of the schema is rejected"),
    }
    reach(1)
}

fn events(s: &str, root: bool) -> Option<Vec<String>> {
    let c = xml::ParserConfig::new().trim_whitespace(true).cdata_to_characters(true).coalesce_characters(true).ignore_comments(true);
    let mut r = vec![];
    for e in xml::EventReader::new_with_config(s.as_bytes(), c) {
        match e {
            Ok(xml::reader::XmlEvent::StartElement { name, attributes, .. }) => {
                // the name of the root element is that of the type
                let n = if r.is_empty() && !root { "root" } else { name.local_name.as_str() };
                r.push(format!("<{{{}}}{}", name.namespace.as_deref().unwrap_or(""), n));
                let mut a: Vec<String> = attributes.iter().map(|a| format!("{{{}}}{}={}", a.name.namespace.as_deref().unwrap_or(""), a.name.local_name, a.value)).collect();
                a.sort();
                r.extend(a);
            }
            Ok(xml::reader::XmlEvent::EndElement { .. }) => r.push(">".to_string()),
            Ok(xml::reader::XmlEvent::Characters(t)) => r.push(format!("'{}", t)),
            Ok(_) => {}
            Err(_) => return None,
        }
    }
    Some(r)
}
/// what is written is the document: the same elements, attributes, namespaces and texts
pub fn same<T: YaSerialize + YaDeserialize + PartialEq>(d: Doc, v: &T) {
    let s = match yaserde::ser::to_string(v) {
        Ok(s) => s,
        Err(_) => return fail("a value cannot be written"),
    };
    note(d.s.as_bytes());
    note(s.as_bytes());
    match (events(&s, false), events(&d.s, false)) {
        (Some(a), Some(b)) => check(a == b, "what is written is another document"),
        _ => fail("what is written is no document"),
    }
    match yaserde::de::from_str::<T>(&s) {
        Ok(w) => check(w == *v, "what was written is read as another value"),
        Err(_) => fail("what was written is not read"),
    }
    reach(1)
}
