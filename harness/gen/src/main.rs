mod rs;
mod xsd;
mod elems;
mod docs;
mod base;
mod choice;
mod attrs;
mod misc;
mod simple;
mod names;
mod wsdl;
mod custom;
macro_rules! main_table {
    ($($m:ident :: $f:ident),* $(,)?) => {
        fn main() {
            let a = std::env::args().nth(1).unwrap_or_default();
            $( if a == stringify!($f) { $m::$f(); println!("END done"); return; } )*
            std::process::exit(75);
        }
    };
}
main_table!(
    attrs::h_attr,
    base::h_ext,
    choice::h_choice,
    choice::h_choice_seq,
    custom::h_custom,
    docs::h_doc,
    docs::h_doc_kept,
    elems::h_card,
    misc::h_again,
    misc::h_layout,
    misc::h_nested,
    misc::h_noise,
    misc::h_ns,
    misc::h_order,
    misc::h_same,
    misc::h_wild,
    names::h_name_field,
    names::h_name_type,
    simple::h_builtin,
    simple::h_enum,
    simple::h_facets,
    simple::h_list,
    simple::h_union,
    wsdl::h_wsdl,
    wsdl::h_wsdl_doc,
    wsdl::h_wsdl_model,
    wsdl::h_wsdl_name,
    wsdl::h_wsdl_same,
);
