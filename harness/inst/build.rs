//! Runs the real generator on the schemas in xsd/ and includes what it generates.
use std::{env, fs, process::Command};
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let dir = env::var("CARGO_MANIFEST_DIR").unwrap();
    let rt = format!("{}/../rt.c", dir);
    let obj = format!("{}/rt.o", out);
    let st = Command::new("gcc").args(["-O1", "-c", "-o", &obj, &rt]).status().expect("gcc");
    assert!(st.success());
    println!("cargo:rustc-link-arg={}", obj);
    println!("cargo:rerun-if-changed={}", rt);
    println!("cargo:rerun-if-changed={}/xsd", dir);
    println!("cargo:rerun-if-changed={}/wsdl", dir);
    for e in fs::read_dir(format!("{}/wsdl", dir)).unwrap() {
        let p = e.unwrap().path();
        let text = fs::read_to_string(&p).unwrap();
        let code = std::panic::catch_unwind(|| functions(&text));
        let code = code.unwrap_or_else(|_| "compile_error!(\"the generator panics\");".to_string());
        fs::write(format!("{}/{}.rs", out, p.file_stem().unwrap().to_str().unwrap()), code).unwrap();
    }
    for e in fs::read_dir(format!("{}/xsd", dir)).unwrap() {
        let p = e.unwrap().path();
        let text = fs::read_to_string(&p).unwrap();
        let code = std::panic::catch_unwind(|| {
            let file = xsd_parser::parser::parse(&text).expect("schema");
            xsd_parser::generator::builder::GeneratorBuilder::default().build().generate_rs_file(&file)
        });
        let code = code.unwrap_or_else(|_| "compile_error!(\"the generator panics\");".to_string());
        fs::write(format!("{}/{}.rs", out, p.file_stem().unwrap().to_str().unwrap()), code).unwrap();
    }
}
/// what wsdl-parser-cli writes: the types of the schemas, then the functions
fn functions(text: &str) -> String {
    let doc = roxmltree::Document::parse(text).unwrap();
    let definitions = wsdl_parser::parser::definitions::Definitions::new(&doc.root_element());
    let gen = xsd_parser::generator::builder::GeneratorBuilder::default().build();
    let schemas: Vec<_> = definitions.types().iter().flat_map(|t| t.schemas()).collect();
    let mut code: Vec<String> = schemas.iter().map(|f| gen.generate_rs_file(&xsd_parser::parser::schema::parse_schema(f))).collect();
    code.push(wsdl_parser::generator::generate(&definitions));
    code.join("")
}
