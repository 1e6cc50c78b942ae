//! Every kind of value, in a schema without target namespace.
#[path = "../util.rs"]
mod util;
#[allow(unused, non_camel_case_types)]
mod gen {
    use std::str::FromStr;
    use xsd_macro_utils::*;
    use xsd_parser::generator::validator::Validate;
    use xsd_types::types as xs;
    use yaserde::{YaDeserialize, YaSerialize};
    use yaserde_derive::{YaDeserialize, YaSerialize};
    include!(concat!(env!("OUT_DIR"), "/plain.rs"));
}
use gen::*;
use rsxapi::*;
use util::*;

fn digits(t: &str) -> String {
    let mut b = t.as_bytes().to_vec();
    let mut first = true;
    for i in 0..b.len() {
        if b[i] == b'#' {
            let lead = i == 0 || i == 1 && b[0] == b'-';
            sym_from(&mut b[i..i + 1], if first && lead { b"123456789" } else { b"0123456789" });
            first = false;
        }
    }
    String::from_utf8(b).unwrap_or_default()
}
fn values(d: &mut Doc, n: usize) -> Values {
    let mut v = Values::default();
    let focus = pick(28);
    let every = pick_bool();
    if focus == 0 || every {
        let t = if focus == 0 { text(n) } else { "w".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("s", &t);
        v.s = Some(t.clone());
    }
    if focus == 1 || every {
        let t = if focus == 1 { text(n) } else { "w".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("token", &t);
        v.token = Some(t.clone());
    }
    if focus == 2 || every {
        let t = if focus == 2 { text(n) } else { "w".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("uri", &t);
        v.uri = Some(t.clone());
    }
    if focus == 3 || every {
        let t = if focus == 3 { text(n) } else { "w".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("hex", &t);
        v.hex = Some(t.clone());
    }
    if focus == 4 || every {
        let t = if focus == 4 { ["true", "false"][pick(2) as usize].to_string() } else { "true".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("flag", &t);
        v.flag = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 5 || every {
        let t = if focus == 5 { digits("-1#") } else { "-11".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("i8", &t);
        v.i_8 = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 6 || every {
        let t = if focus == 6 { digits("-32##") } else { "-3211".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("i16", &t);
        v.i_16 = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 7 || every {
        let t = if focus == 7 { digits("-9##0") } else { "-9110".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("i64", &t);
        v.i_64 = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 8 || every {
        let t = if focus == 8 { digits("1##") } else { "111".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("u8", &t);
        v.u_8 = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 9 || every {
        let t = if focus == 9 { digits("6##00") } else { "61100".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("u16", &t);
        v.u_16 = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 10 || every {
        let t = if focus == 10 { digits("42949##000") } else { "4294911000".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("u32", &t);
        v.u_32 = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 11 || every {
        let t = if focus == 11 { digits("184467440737##000000") } else { "18446744073711000000".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("u64", &t);
        v.u_64 = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 12 || every {
        let t = if focus == 12 { digits("-##.5") } else { "-11.5".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("dec", &t);
        v.dec = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 13 || every {
        let t = if focus == 13 { digits("-##") } else { "-11".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("int", &t);
        v.int = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 14 || every {
        let t = if focus == 14 { digits("1##") } else { "111".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("pos", &t);
        v.pos = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 15 || every {
        let t = if focus == 15 { digits("-1##") } else { "-111".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("neg", &t);
        v.neg = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 16 || every {
        let t = if focus == 16 { digits("##") } else { "11".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("nonNeg", &t);
        v.non_neg = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 17 || every {
        let t = if focus == 17 { digits("-##") } else { "-11".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("nonPos", &t);
        v.non_pos = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 18 || every {
        let t = if focus == 18 { digits("20##-02-28") } else { "2011-02-28".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("date", &t);
        v.date = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 19 || every {
        let t = if focus == 19 { digits("1#:00:##") } else { "11:00:11".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("time", &t);
        v.time = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 20 || every {
        let t = if focus == 20 { digits("2024-02-29T1#:00:00+00:00") } else { "2024-02-29T11:00:00+00:00".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("dateTime", &t);
        v.date_time = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 21 || every {
        let t = if focus == 21 { digits("P1#D") } else { "P11D".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("duration", &t);
        v.duration = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 22 || every {
        let t = if focus == 22 { digits("20##") } else { "2011".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("gYear", &t);
        v.g_year = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 23 || every {
        let t = if focus == 23 { digits("--1#") } else { "--11".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("gMonth", &t);
        v.g_month = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 24 || every {
        let t = if focus == 24 { digits("---1#") } else { "---11".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("gDay", &t);
        v.g_day = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 25 || every {
        let t = if focus == 25 { digits("20##-01") } else { "2011-01".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("gYearMonth", &t);
        v.g_year_month = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 26 || every {
        let t = if focus == 26 { digits("--02-2#") } else { "--02-21".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("gMonthDay", &t);
        v.g_month_day = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    if focus == 27 || every {
        let t = if focus == 27 { digits("1#.5") } else { "11.5".to_string() };
        // an empty one is taken for none by yaserde
        assume(!t.is_empty());
        d.leaf("double", &t);
        v.double = Some(match t.parse() { Ok(x) => x, Err(_) => { assume(false); return v } });
    }
    v
}
fn doc() -> (Doc, Values) {
    let mut d = Doc::new();
    d.open("", "Values", "");
    let v = values(&mut d, param(0));
    d.close();
    (d, v)
}
#[no_mangle]
pub extern "C" fn h_values_read() {
    let (d, v) = doc();
    read(d, &v)
}
#[no_mangle]
pub extern "C" fn h_values_written() {
    let (d, v) = doc();
    same(d, &v)
}
fn main() {
    rsxapi::main(&[("h_values_read", h_values_read), ("h_values_written", h_values_written)])
}
