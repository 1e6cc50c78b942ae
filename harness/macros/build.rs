use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let rt = format!("{}/../rt.c", std::env::var("CARGO_MANIFEST_DIR").unwrap());
    let obj = format!("{}/rt.o", out);
    let st = Command::new("gcc").args(["-O1", "-c", "-o", &obj, &rt]).status().expect("gcc");
    assert!(st.success());
    println!("cargo:rustc-link-arg={}", obj);
    println!("cargo:rerun-if-changed={}", rt);
}
