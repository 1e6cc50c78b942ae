mod broken;
mod files;
mod single;
mod tree;
include!(concat!(env!("OUT_DIR"), "/programs.rs"));
macro_rules! main_table {
    ($($m:ident :: $f:ident),* $(,)?) => {
        fn main() {
            let a = std::env::args().nth(1).unwrap_or_default();
            $( if a == stringify!($f) { $m::$f(); rsxapi::done(); return; } )*
            std::process::exit(75);
        }
    };
}
main_table!(
    broken::h_wsdl_bad,
    broken::h_wsdl_fault,
    broken::h_xsd_bad,
    broken::h_xsd_fault,
    single::h_wsdl_file,
    single::h_xsd_file,
    tree::h_wsdl_tree,
    tree::h_xsd_tree,
);
