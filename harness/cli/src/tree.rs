//! Directories of documents.
use crate::files::*;
use rsxapi::*;
const DIRS: [&str; 5] = ["", "sub/", "sub/deep/", "z.d/", "sub/other.x/"];
const NAMES: [(&str, &str); 6] = [("a.xsd", "a.rs"), ("a.b.xsd", "a.b.rs"), ("none", "none.rs"), ("x y.wsdl", "x y.rs"), ("\u{e9}.xsd", "\u{e9}.rs"), (".b.xsd", ".b.rs")];
fn tree(pr: Program) {
    files();
    let n = param(0);
    // fewer combinations for more files
    let few = param(1) > 0;
    let l = format!("{}zq", letters(1));
    let (din, dout) = if pr == Program::Xsd { ("input/xsd", "output/rs") } else { ("input/wsdl", "output/wsdl-rs") };
    // given or not, with and without slash, the output next to the input or within it
    let way = if few { [0, 1, 5][pick(3) as usize] } else { pick(6) };
    let (i, o) = match way {
        0 => (din, dout),
        1 => ("in", "out"),
        2 => ("in/", "new/deep/out/"),
        3 => (din, "./out"),
        4 => ("./in", dout),
        _ => ("in", "out.d"),
    };
    let mut w: Vec<(String, String, bool)> = vec![];
    let bare = |p: &str| p.trim_start_matches("./").trim_end_matches('/').to_string();
    let old = if few { 0 } else { pick(3) };
    for k in 0..n {
        let d = DIRS[pick(5) as usize];
        let (f, g) = NAMES[pick(6) as usize];
        // two free characters in the name
        let free = if param(1) == 2 {
            assume(f == "a.xsd");
            let mut b = [0u8; 2];
            sym_from(&mut b, b"a.- %~#\\R$*:");
            String::from_utf8_lossy(&b).to_string()
        } else {
            String::new()
        };
        let (x, c) = document(pr, (k as u32 + way) % 6, &l, 0);
        let p = format!("{}/{d}{free}{f}", bare(i));
        assume(!w.iter().any(|e| e.0 == p));
        let q = format!("{}/{d}{free}{g}", bare(o));
        put(&p, &x);
        match old {
            // the output has been there
            1 => put(&q, &format!("{c}\n// old\n")),
            2 if k == 0 => put(&q, ""),
            _ => (),
        }
        w.push((p, x, true));
        w.push((q, c, false));
    }
    if n == 0 {
        put(&format!("{}/empty/x", bare(i)), "");
        let _ = std::fs::remove_file(format!("{}/empty/x", bare(i)));
    }
    if old == 2 {
        // a file of the output directory that has nothing to do with the input
        let p = format!("{}/mine.txt", bare(o));
        put(&p, "mine");
        w.push((p, "mine".into(), true));
    }
    let a: Vec<&str> = match way {
        0 => vec!["p"],
        3 => vec!["p", "-o", o],
        4 => vec!["p", "--input", i],
        5 => vec!["p", "--output", o, "--input", i],
        _ => vec!["p", "-i", i, "-o", o],
    };
    io(if few { 0 } else { [0, 5][pick(2) as usize] }, false, pick(2) as u64, 0);
    let ok = run(pr, &a);
    io(0, false, 0, 0);
    check(ok, "the program reports a failure");
    check(stdout().is_empty(), "something is written to standard output");
    expect(&w);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_xsd_tree() {
    tree(Program::Xsd)
}
#[no_mangle]
pub extern "C" fn h_wsdl_tree() {
    tree(Program::Wsdl)
}
