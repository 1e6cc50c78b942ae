//! One document: to a file or to standard output, or a failure.
use crate::files::*;
use rsxapi::*;
/// names of documents and of the files for their code
const NAMES: [(&str, &str); 6] = [("a.xsd", "a.rs"), ("./a.xsd", "b.txt"), ("in/a b.xsd", "c"), ("in/a.b-c.d", "in/x.rs"), ("a", "./b.rs"), ("in/deep/\u{e9}.wsdl", "in/deep/\u{e9}.rs")];
fn bare(p: &str) -> String {
    p.trim_start_matches("./").to_string()
}
fn file(pr: Program) {
    files();
    let k = pick(6);
    let l = format!("{}zq", letters(1));
    let (x, want) = document(pr, k, &l, [0, 1, 900, 7000][pick(param(0) as u32) as usize]);
    let lay = pick(10);
    let (i, o) = NAMES[lay as usize % 6];
    put(i, &x);
    // no output, a new file, one that is longer, one that is shorter
    let way = pick(4);
    match way {
        2 => put(o, &format!("{want}// old\n{}", "old text\n".repeat(40))),
        3 => put(o, "x"),
        _ => (),
    }
    let (ie, oe) = (format!("--input={i}"), format!("--output={o}"));
    let (is, os) = (format!("-i{i}"), format!("-o{o}"));
    let form = lay % 5;
    let a: Vec<&str> = match (way, form) {
        (0, 0) => vec!["p", "--input", i],
        (0, 1) => vec!["p", "-i", i],
        (0, 2) => vec!["p", &ie],
        (0, _) => vec!["p", &is],
        (_, 0) => vec!["p", "--input", i, "--output", o],
        (_, 1) => vec!["p", "-o", o, "-i", i],
        (_, 2) => vec!["p", &ie, &oe],
        (_, 3) => vec!["p", &os, &is],
        _ => vec!["p", "--output", o, "-i", i],
    };
    // how the system transfers the bytes
    let (chunk, eintr) = [(0, false), (1, false), (7, true), (1000, true)][pick(4) as usize];
    if chunk == 1 {
        assume(x.len() + want.len() < 4000);
    }
    io(chunk, eintr, 0, 0);
    let ok = run(pr, &a);
    io(0, false, 0, 0);
    check(ok, "the program reports a failure");
    let out = stdout();
    let mut w = vec![(bare(i), x, true)];
    if way == 0 {
        note(&out);
        check(same(&out, &want), "standard output is not the code for the input");
    } else {
        check(out.is_empty(), "something is written to standard output");
        w.push((bare(o), want, false));
    }
    expect(&w);
    reach(1 + (way == 0) as u32);
}
#[no_mangle]
pub extern "C" fn h_xsd_file() {
    file(Program::Xsd)
}
#[no_mangle]
pub extern "C" fn h_wsdl_file() {
    file(Program::Wsdl)
}
