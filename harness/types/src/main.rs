macro_rules! verdict {
    ($name:literal, $got:expr, $want:expr, |$g:ident, $w:ident| $b:block) => {
        match ($got, $want) {
            (Ok($g), Some($w)) => {
                $b
                reach(1);
            }
            (Err(_), None) => reach(2),
            (Ok(_), None) => fail(concat!($name, ": text outside the lexical space accepted")),
            (Err(_), Some(_)) => fail(concat!($name, ": valid text rejected")),
        }
    };
}
mod lex;
mod text;
mod cal;
mod num;
mod ord;
macro_rules! main_table {
    ($($m:ident :: $f:ident),* $(,)?) => {
        fn main() {
            let a = std::env::args().nth(1).unwrap_or_default();
            $( if a == stringify!($f) { $m::$f(); println!("END done"); return; } )*
            std::process::exit(75);
        }
    };
}
main_table!(
    cal::h_date_any,
    cal::h_date_edit,
    cal::h_date_near,
    cal::h_date_rt,
    cal::h_datetime_any,
    cal::h_datetime_edit,
    cal::h_datetime_near,
    cal::h_datetime_rt,
    cal::h_datetimestamp_edit,
    cal::h_datetimestamp_near,
    cal::h_gday_any,
    cal::h_gday_near,
    cal::h_gday_rt,
    cal::h_gmonth_any,
    cal::h_gmonth_near,
    cal::h_gmonth_rt,
    cal::h_gmonthday_any,
    cal::h_gmonthday_near,
    cal::h_gmonthday_rt,
    cal::h_gyear_any,
    cal::h_gyear_near,
    cal::h_gyear_rt,
    cal::h_gyearmonth_any,
    cal::h_gyearmonth_near,
    cal::h_gyearmonth_rt,
    cal::h_time_any,
    cal::h_time_near,
    cal::h_time_rt,
    cal::h_tz,
    num::h_decimal,
    num::h_decimal_long,
    num::h_decimal_rt,
    num::h_duration_alpha,
    num::h_duration_any,
    num::h_duration_near,
    num::h_duration_rt,
    num::h_duration_std,
    num::h_integer,
    num::h_integer_long,
    num::h_integer_rt,
    num::h_negative,
    num::h_negative_long,
    num::h_negative_rt,
    num::h_nonnegative,
    num::h_nonnegative_long,
    num::h_nonnegative_rt,
    num::h_nonpositive,
    num::h_nonpositive_long,
    num::h_nonpositive_rt,
    num::h_positive,
    num::h_positive_long,
    num::h_positive_rt,
    ord::h_decimal_order,
    ord::h_duration_order,
    ord::h_instant_order,
    ord::h_integer_order,
);
