mod element;
mod text;
macro_rules! main_table {
    ($($m:ident :: $f:ident),* $(,)?) => {
        fn main() {
            let a = std::env::args().nth(1).unwrap_or_default();
            $( if a == stringify!($f) { $m::$f(); println!("END done"); return; } )*
            std::process::exit(75);
        }
    };
}
main_table!(
    element::h_member,
    element::h_read,
    element::h_written,
    text::h_lists,
    text::h_newtype,
);
