//! What cannot be read, understood or written is reported, and nothing else happens.
use crate::files::*;
use rsxapi::*;
/// one operation of the system fails
fn fault(pr: Program) {
    files();
    let l = format!("{}zq", letters(1));
    let (x, want) = document(pr, pick(2), &l, 0);
    let dir = pick(3);
    let mut w: Vec<(String, String, bool)> = vec![];
    let a: &[&str] = match dir {
        0 => {
            put("a.xsd", &x);
            w.push(("a.xsd".into(), x.clone(), true));
            &["p", "-i", "a.xsd", "-o", "a.rs"]
        }
        1 => {
            put("a.xsd", &x);
            w.push(("a.xsd".into(), x.clone(), true));
            &["p", "-i", "a.xsd"]
        }
        _ => {
            for n in ["in/a.xsd", "in/b.xsd", "in/s/c.xsd"] {
                put(n, &x);
                w.push((n.into(), x.clone(), true));
            }
            &["p", "-i", "in", "-o", "out"]
        }
    };
    let n = pick(param(0) as u32) as u64 + 1;
    let chunk = [0, 100][pick(2) as usize];
    io(chunk, false, pick(if dir == 2 { 2 } else { 1 }) as u64, n);
    may_fail(1);
    let ok = run(pr, a);
    may_fail(0);
    let hit = io_failed();
    io(0, false, 0, 0);
    assume(hit);
    check(!ok, "a failure of the system is not reported");
    // outputs may be there or not, whole or not
    let mut got = vec![];
    all(std::path::Path::new("."), &mut got);
    for (n, t) in &got {
        match w.iter().position(|e| e.0 == *n) {
            Some(i) => {
                check(*t == x.as_bytes(), "an input file is changed");
                w.remove(i);
            }
            None => check(n == "a.rs" || n.starts_with("out/") && t.len() <= want.len(), "a file is written that nobody asked for"),
        }
    }
    check(w.is_empty(), "an input file is gone");
    reach(1 + dir);
}
#[no_mangle]
pub extern "C" fn h_xsd_fault() {
    fault(Program::Xsd)
}
#[no_mangle]
pub extern "C" fn h_wsdl_fault() {
    fault(Program::Wsdl)
}
/// a document that is not well-formed, an input that is not there, an output that cannot be
fn bad(pr: Program) {
    files();
    let l = format!("{}zq", letters(1));
    let (x, _) = document(pr, pick(2), &l, 0);
    let kind = pick(5);
    let x = x.trim_end().to_string();
    let mut cut = x.clone();
    let mut w: Vec<(String, String, bool)> = vec![];
    let old = pick_bool();
    if old && kind < 4 {
        put("a.rs", "old");
        w.push(("a.rs".into(), "old".into(), true));
    }
    match kind {
        0 => cut.truncate(x.len() - 1 - pick(12) as usize),
        1 => cut = x.replacen('>', "<", 1),
        2 => cut += "<x/>",
        _ => (),
    }
    let o = if kind == 4 { "no/such/a.rs" } else { "a.rs" };
    if kind != 3 {
        put("a.xsd", &cut);
        w.push(("a.xsd".into(), cut, true));
    }
    let a: &[&str] = if kind != 4 && pick_bool() { &["p", "-i", "a.xsd"] } else { &["p", "-i", "a.xsd", "-o", o] };
    reach(1 + kind);
    may_fail(2);
    let ok = run(pr, a);
    may_fail(0);
    check(!ok, "an input that cannot be used is not reported");
    check(stdout().is_empty(), "something is written to standard output");
    expect(&w);
}
#[no_mangle]
pub extern "C" fn h_xsd_bad() {
    bad(Program::Xsd)
}
#[no_mangle]
pub extern "C" fn h_wsdl_bad() {
    bad(Program::Wsdl)
}
