//! The programs' sources as modules with a public entry.
use std::{env, fs, path::Path, process::Command};
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let rt = format!("{}/../rt.c", env::var("CARGO_MANIFEST_DIR").unwrap());
    let obj = format!("{out}/rt.o");
    let st = Command::new("gcc").args(["-O1", "-DRSX_OS", "-c", "-o", &obj, &rt]).status().expect("gcc");
    assert!(st.success());
    println!("cargo:rustc-link-arg={obj}");
    println!("cargo:rerun-if-changed={rt}");
    for (dir, name) in [("xsd-parser-cli", "xsd_cli"), ("wsdl-parser-cli", "wsdl_cli")] {
        let src = format!("/repo/{dir}/src");
        println!("cargo:rerun-if-changed={src}");
        let to = Path::new(&out).join(name);
        copy(Path::new(&src), &to, name);
        let main = to.join("main.rs");
        let t = fs::read_to_string(&main).unwrap();
        fs::write(to.join("mod.rs"), format!("{t}\npub fn run() -> std::process::ExitCode {{ std::process::Termination::report(main()) }}\n")).unwrap();
        fs::remove_file(main).unwrap();
    }
    fs::write(
        Path::new(&out).join("programs.rs"),
        format!("#[allow(dead_code)]\n#[path = \"{out}/xsd_cli/mod.rs\"]\npub mod xsd_cli;\n#[allow(dead_code)]\n#[path = \"{out}/wsdl_cli/mod.rs\"]\npub mod wsdl_cli;\n"),
    )
    .unwrap();
}
fn copy(from: &Path, to: &Path, name: &str) {
    let _ = fs::remove_dir_all(to);
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let p = e.unwrap().path();
        let t = to.join(p.file_name().unwrap());
        if p.is_dir() {
            copy(&p, &t, name);
        } else if let Ok(s) = fs::read_to_string(&p) {
            fs::write(t, s.replace("crate::", &format!("crate::{name}::"))).unwrap();
        }
    }
}
