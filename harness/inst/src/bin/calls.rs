//! Functions generated for the operations of a WSDL document, called.
#[path = "../util.rs"]
#[allow(dead_code)]
mod util;
/// a transport that keeps what it is given and answers with what it has
pub mod transport {
    use std::cell::RefCell;
    use yaserde::YaSerialize;
    #[derive(Debug, PartialEq)]
    pub enum Error {
        Refused,
        Malformed,
    }
    pub trait Transport {
        fn exchange(&self, request: String) -> Result<String, Error>;
    }
    pub trait Answer: Sized {
        fn answer(s: &str) -> Result<Self, Error>;
    }
    impl Answer for () {
        fn answer(_: &str) -> Result<(), Error> {
            Ok(())
        }
    }
    macro_rules! answers {
        ($($t:ty),*) => {
            $(impl Answer for $t {
                fn answer(s: &str) -> Result<$t, Error> {
                    yaserde::de::from_str(s).map_err(|_| Error::Malformed)
                }
            })*
        };
    }
    answers!(super::gen::AddResponse, super::gen::_Self, super::gen::f::Item, super::gen::T, super::gen::C::T);
    pub struct Peer {
        pub seen: RefCell<Vec<String>>,
        pub answer: Option<String>,
    }
    impl Transport for Peer {
        fn exchange(&self, request: String) -> Result<String, Error> {
            self.seen.borrow_mut().push(request);
            self.answer.clone().ok_or(Error::Refused)
        }
    }
    pub async fn request<T: Transport, R: YaSerialize, A: Answer>(t: &T, r: &R) -> Result<A, Error> {
        let s = yaserde::ser::to_string(r).map_err(|_| Error::Malformed)?;
        A::answer(&t.exchange(s)?)
    }
}
#[allow(unused)]
mod gen {
    use super::transport;
    use std::str::FromStr;
    use xsd_macro_utils::*;
    use xsd_parser::generator::validator::Validate;
    use xsd_types::types as xs;
    use yaserde::{YaDeserialize, YaSerialize};
    use yaserde_derive::{YaDeserialize, YaSerialize};
    pub mod f {
        use super::*;
        #[derive(Default, PartialEq, Debug, Clone, YaSerialize, YaDeserialize)]
        #[yaserde(prefix = "f", namespace = "f: urn:found")]
        pub struct Item {
            #[yaserde(attribute, rename = "n")]
            pub n: i32,
        }
    }
    #[allow(non_snake_case)]
    pub mod C {
        use super::*;
        #[derive(Default, PartialEq, Debug, Clone, YaSerialize, YaDeserialize)]
        #[yaserde(rename = "t", prefix = "C", namespace = "C: urn:CALC")]
        pub struct T {
            #[yaserde(attribute, rename = "n")]
            pub n: i32,
        }
    }
    include!(concat!(env!("OUT_DIR"), "/calc.rs"));
}
use gen::*;
use rsxapi::*;
use std::{cell::RefCell, future::Future, pin::pin, task::*};
use transport::{Error, Peer};
use util::*;
/// nothing here waits: the first poll has the result
fn run<T>(f: impl Future<Output = T>) -> T {
    match pin!(f).poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(r) => r,
        Poll::Pending => fail("a call waits for something else than the transport"),
    }
}
fn number(n: usize) -> (String, i32) {
    let mut b = vec![0u8; n];
    sym_from(&mut b, b"0123456789");
    assume(n == 1 || b[0] != b'0');
    let v = b.iter().fold(0, |v, c| v * 10 + (*c & 15) as i32);
    (String::from_utf8(b).unwrap_or_default(), v)
}
fn call<Q: yaserde::YaSerialize, A: PartialEq>(q: &Q, answer: Option<String>, want: Result<A, Error>, f: impl FnOnce(&Peer, &Q) -> Result<A, Error>) {
    let t = Peer { seen: RefCell::new(vec![]), answer };
    let got = f(&t, q);
    let sent = yaserde::ser::to_string(q).unwrap_or_default();
    note(sent.as_bytes());
    match &t.seen.borrow()[..] {
        [s] => check(*s == sent, "what is sent is not the request"),
        _ => fail("a call does not send one request"),
    }
    check(got == want, "a call does not give the answer it got");
}
#[no_mangle]
pub extern "C" fn h_call() {
    let n = param(0);
    let refused = pick_bool();
    let kind = pick(6);
    let ok = |s: String| if refused { None } else { Some(s) };
    match kind {
        0 | 1 => {
            let (_, left) = number(2);
            let note = if pick_bool() { Some(text(n)) } else { None };
            let q = Add { left, note };
            if kind == 1 {
                call(&q, ok("<done/>".to_string()), if refused { Err(Error::Refused) } else { Ok(()) }, |t, q| run(notify_all(t, q)));
            } else {
                let mut d = Doc::new();
                d.open("c:", "AddResponse", "urn:calc");
                let mut sum = vec![];
                for _ in 0..pick(3) {
                    let (t, v) = number(1);
                    d.leaf("Sum", &t);
                    sum.push(v);
                }
                d.close();
                let r = AddResponse { sum };
                call(&q, ok(d.end()), if refused { Err(Error::Refused) } else { Ok(r) }, |t, q| run(add(t, q)));
            }
        }
        2 => {
            let q = TypeRequest { key: text(n) };
            let k = pick_bool();
            let a = format!("<self xmlns=\"urn:calc\"><Ok>{}</Ok></self>", k);
            call(&q, ok(a), if refused { Err(Error::Refused) } else { Ok(_Self { ok: k }) }, |t, q| run(_try(t, q)));
        }
        4 | 5 => {
            let (off, day, n) = (pick_bool(), pick_bool(), number(1));
            let q = T { _type: if off { Kind::Off } else { Kind::On }, at: day.then(|| "2020-01-31".parse().unwrap_or_else(|_| fail("a date is not read"))) };
            let r = q.clone();
            let a = format!("<t xmlns=\"urn:calc\"><type>{}</type>{}</t>", if off { "off" } else { "on" }, if day { "<At>2020-01-31</At>" } else { "" });
            let b = format!("<C:t xmlns:C=\"urn:CALC\" n=\"{}\"/>", n.0);
            if kind == 4 {
                call(&q, ok(a), if refused { Err(Error::Refused) } else { Ok(r) }, |t, q| run(_await(t, q)));
            } else {
                call(&q, ok(b), if refused { Err(Error::Refused) } else { Ok(C::T { n: n.1 }) }, |t, q| run(_dyn(t, q)));
            }
        }
        _ => {
            let (_, v) = number(2);
            let q = _1StÉté { n: v };
            let (t, v) = number(1);
            let a = format!("<f:item xmlns:f=\"urn:found\" n=\"{}\"/>", t);
            call(&q, ok(a), if refused { Err(Error::Refused) } else { Ok(f::Item { n: v }) }, |t, q| run(_type(t, q)));
        }
    }
    reach(1 + kind);
}
fn main() {
    rsxapi::main(&[("h_call", h_call)]);
}
