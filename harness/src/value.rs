//! Clarity values as JSON: building library values from it and projecting them back.
use serde_json::{json, Value};
use stacks_rs::clarity;
use stacks_rs::clarity::*;

pub type Out = Result<Value, String>;

pub fn b(x: impl AsRef<[u8]>) -> Value {
    Value::Array(x.as_ref().iter().map(|x| json!(x)).collect())
}
pub fn text(s: &str) -> Value {
    b(s.as_bytes())
}
pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().expect("array").iter().map(|x| x.as_u64().expect("byte") as u8).collect()
}
pub fn string(v: &Value) -> String {
    String::from_utf8(bytes(v)).expect("utf-8")
}
pub fn u64_of(v: &Value) -> u64 {
    u64::from_be_bytes(bytes(v).try_into().expect("8 bytes"))
}
fn arr<const N: usize>(v: &Value) -> [u8; N] {
    bytes(v).try_into().expect("length")
}
pub fn items(v: &Value) -> &Vec<Value> {
    v.as_array().expect("array")
}
pub fn ty(v: &Value) -> &str {
    v["t"].as_str().expect("type")
}
pub fn entries(v: &Value) -> Vec<(String, Box<dyn Clarity>)> {
    items(v).iter().map(|e| (string(&e["k"]), build(&e["x"]))).collect()
}

/// Evaluates `$body` with `$c` bound to the library value of `$v` as its concrete type.
#[macro_export]
macro_rules! with_concrete {
    ($v:expr, $c:ident => $body:expr) => {{
        let v: &serde_json::Value = $v;
        let alt = v.get("alt").and_then(|x| x.as_u64()).unwrap_or(0);   // which way to make it
        #[allow(unused_imports)]
        use stacks_rs::clarity;
        use stacks_rs::clarity as cl;
        use $crate::value as va;
        match va::ty(v) {
            "int" => {
                let n = i128::from_be_bytes(va::bytes(&v["v"]).try_into().unwrap());
                let $c = match alt { 0 => cl::Int::new(n), 2 => clarity!(Int, n), _ => cl::Int::from(n) };
                $body
            }
            "uint" => {
                let n = u128::from_be_bytes(va::bytes(&v["v"]).try_into().unwrap());
                let $c = match alt { 0 => cl::UInt::new(n), 2 => clarity!(UInt, n), _ => cl::UInt::from(n) };
                $body
            }
            "buf" => {
                let n = va::bytes(&v["v"]);
                let $c = match alt {
                    0 => cl::Buffer::new(n),
                    1 => cl::Buffer::from(n.as_slice()),
                    2 => clarity!(Buffer, n.as_slice()),
                    _ => cl::Buffer::from(n),
                };
                $body
            }
            "true" => {
                let $c = match alt { 0 => cl::True::new(), 2 => clarity!(True), _ => cl::True::default() };
                $body
            }
            "false" => {
                let $c = match alt { 0 => cl::False::new(), 2 => clarity!(False), _ => cl::False::default() };
                $body
            }
            "none" => {
                let $c = match alt { 0 => cl::OptionalNone::new(), 2 => clarity!(OptionalNone), _ => cl::OptionalNone::default() };
                $body
            }
            "std" => {
                let s = va::string(&v["a"]);
                let $c = match alt {
                    0 => cl::PrincipalStandard::new(s),
                    1 => cl::PrincipalStandard::from(s.as_str()),
                    2 => clarity!(PrincipalStandard, s),
                    _ => cl::PrincipalStandard::from(s),
                };
                $body
            }
            "con" => {
                let (s, n) = (va::string(&v["a"]), va::string(&v["n"]));
                let $c = match alt {
                    0 => cl::PrincipalContract::new((s, n)),
                    1 => cl::PrincipalContract::from((s.as_str(), n.as_str())),
                    2 => clarity!(PrincipalContract, s, n),
                    _ => cl::PrincipalContract::from((s, n)),
                };
                $body
            }
            "ok" => {
                let $c = if alt == 2 { va::macro_ok(&v["x"]) } else { cl::ResponseOk::new(va::build(&v["x"])) };
                $body
            }
            "err" => {
                let $c = if alt == 2 { va::macro_err(&v["x"]) } else { cl::ResponseErr::new(va::build(&v["x"])) };
                $body
            }
            "some" => {
                let $c = if alt == 2 { va::macro_some(&v["x"]) } else { cl::OptionalSome::new(va::build(&v["x"])) };
                $body
            }
            "list" => {
                let xs = va::items(&v["xs"]);
                let $c = (alt == 2).then(|| va::macro_list(xs)).flatten()
                    .unwrap_or_else(|| cl::List::new(xs.iter().map(va::build).collect()));
                $body
            }
            "args" => {
                let xs = va::items(&v["xs"]);
                let $c = (alt == 2).then(|| va::macro_args(xs)).flatten()
                    .unwrap_or_else(|| cl::FnArguments::new(xs.iter().map(va::build).collect()));
                $body
            }
            "tuple" => {
                let $c = (alt == 2).then(|| va::macro_tuple(va::items(&v["kv"]))).flatten()
                    .unwrap_or_else(|| cl::Tuple::new(va::entries(&v["kv"])));
                $body
            }
            "ascii" => {
                let s = va::string(&v["s"]);
                let $c = if alt == 2 { clarity!(StringAscii, s) } else { cl::StringAscii::new(s) };
                $body
            }
            "utf8" => {
                let s = va::string(&v["s"]);
                let $c = if alt == 2 { clarity!(StringUtf8, s) } else { cl::StringUtf8::new(s) };
                $body
            }
            "lps" => {
                let s = va::string(&v["s"]);
                let $c = match alt {
                    0 => cl::LengthPrefixedStr::new(s),
                    1 => cl::LengthPrefixedStr::from(s.as_str()),
                    2 => clarity!(LengthPrefixedStr, s),
                    _ => cl::LengthPrefixedStr::from(s),
                };
                $body
            }
            t => panic!("unknown type {t}"),
        }
    }};
}

/// Evaluates `$body` with the type alias `T` being the library type named `$t`.
#[macro_export]
macro_rules! with_type {
    ($t:expr, $T:ident => $body:expr) => {{
        use stacks_rs::clarity as cl;
        match $t {
            "int" => { type $T = cl::Int; $body }
            "uint" => { type $T = cl::UInt; $body }
            "buf" => { type $T = cl::Buffer; $body }
            "true" => { type $T = cl::True; $body }
            "false" => { type $T = cl::False; $body }
            "std" => { type $T = cl::PrincipalStandard; $body }
            "con" => { type $T = cl::PrincipalContract; $body }
            "ok" => { type $T = cl::ResponseOk; $body }
            "err" => { type $T = cl::ResponseErr; $body }
            "none" => { type $T = cl::OptionalNone; $body }
            "some" => { type $T = cl::OptionalSome; $body }
            "list" => { type $T = cl::List; $body }
            "tuple" => { type $T = cl::Tuple; $body }
            "ascii" => { type $T = cl::StringAscii; $body }
            "utf8" => { type $T = cl::StringUtf8; $body }
            "lps" => { type $T = cl::LengthPrefixedStr; $body }
            "args" => { type $T = cl::FnArguments; $body }
            t => panic!("unknown type {t}"),
        }
    }};
}

// Containers through the library's macro: with one element of any type, or two or three of the simple ones.
pub fn macro_ok(x: &Value) -> ResponseOk {
    with_concrete!(x, x => clarity!(ResponseOk, x))
}
pub fn macro_err(x: &Value) -> ResponseErr {
    with_concrete!(x, x => clarity!(ResponseErr, x))
}
pub fn macro_some(x: &Value) -> OptionalSome {
    with_concrete!(x, x => clarity!(OptionalSome, x))
}
macro_rules! simple {
    ($v:expr, $c:ident => $body:expr) => {{
        let v: &Value = $v;
        match ty(v) {
            "int" => { let $c = Int::new(i128::from_be_bytes(arr(&v["v"]))); $body }
            "uint" => { let $c = UInt::new(u128::from_be_bytes(arr(&v["v"]))); $body }
            "ascii" => { let $c = StringAscii::new(string(&v["s"])); $body }
            "true" => { let $c = True::new(); $body }
            _ => None,
        }
    }};
}
macro_rules! listing {
    ($name:ident, $T:ident) => {
        pub fn $name(xs: &[Value]) -> Option<$T> {
            match xs {
                [] => Some(clarity!($T)),
                [x] => Some(with_concrete!(x, x => clarity!($T, x))),
                [x, y] => simple!(x, x => simple!(y, y => Some(clarity!($T, x, y)))),
                [x, y, z] => simple!(x, x => simple!(y, y => simple!(z, z => Some(clarity!($T, x, y, z))))),
                _ => None,
            }
        }
    };
}
listing!(macro_list, List);
listing!(macro_args, FnArguments);
pub fn macro_tuple(kv: &[Value]) -> Option<Tuple> {
    let k = |e: &Value| string(&e["k"]);
    match kv {
        [] => Some(clarity!(Tuple)),
        [e] => Some(with_concrete!(&e["x"], x => clarity!(Tuple, (k(e), x)))),
        [e, f] => simple!(&e["x"], x => simple!(&f["x"], y => Some(clarity!(Tuple, (k(e), x), (k(f), y))))),
        [e, f, g] => simple!(&e["x"], x => simple!(&f["x"], y => simple!(&g["x"], z =>
            Some(clarity!(Tuple, (k(e), x), (k(f), y), (k(g), z)))))),
        _ => None,
    }
}

pub fn build(v: &Value) -> Box<dyn Clarity> {
    with_concrete!(v, c => Box::new(c))
}

/// What a user can see of a value, part by part.
pub fn project(v: &dyn Clarity) -> Value {
    let a = v.as_any();
    let all = |xs: &[Box<dyn Clarity>]| Value::Array(xs.iter().map(|x| project(x.as_ref())).collect());
    if let Some(x) = a.downcast_ref::<Int>() {
        json!({"t": "int", "v": b(x.value().to_be_bytes())})
    } else if let Some(x) = a.downcast_ref::<UInt>() {
        json!({"t": "uint", "v": b(x.value().to_be_bytes())})
    } else if let Some(x) = a.downcast_ref::<Buffer>() {
        json!({"t": "buf", "v": b(x.value())})
    } else if let Some(x) = a.downcast_ref::<True>() {
        json!({"t": if *x.value() { "true" } else { "broken" }})
    } else if let Some(x) = a.downcast_ref::<False>() {
        json!({"t": if *x.value() { "broken" } else { "false" }})
    } else if let Some(x) = a.downcast_ref::<OptionalNone>() {
        json!({"t": if x.value().is_none() { "none" } else { "broken" }})
    } else if let Some(x) = a.downcast_ref::<PrincipalStandard>() {
        json!({"t": "std", "a": text(x.value())})
    } else if let Some(x) = a.downcast_ref::<PrincipalContract>() {
        json!({"t": "con", "a": text(&x.value().0), "n": text(&x.value().1)})
    } else if let Some(x) = a.downcast_ref::<ResponseOk>() {
        json!({"t": "ok", "x": project(x.value().as_ref())})
    } else if let Some(x) = a.downcast_ref::<ResponseErr>() {
        json!({"t": "err", "x": project(x.value().as_ref())})
    } else if let Some(x) = a.downcast_ref::<OptionalSome>() {
        json!({"t": "some", "x": project(x.value().as_ref())})
    } else if let Some(x) = a.downcast_ref::<List>() {
        json!({"t": "list", "xs": all(x.value())})
    } else if let Some(x) = a.downcast_ref::<FnArguments>() {
        json!({"t": "args", "xs": all(x.value())})
    } else if let Some(x) = a.downcast_ref::<Tuple>() {
        let kv = x.value().iter().map(|(k, x)| json!({"k": text(k), "x": project(x.as_ref())})).collect();
        json!({"t": "tuple", "kv": Value::Array(kv)})
    } else if let Some(x) = a.downcast_ref::<StringAscii>() {
        json!({"t": "ascii", "s": text(x.value())})
    } else if let Some(x) = a.downcast_ref::<StringUtf8>() {
        json!({"t": "utf8", "s": text(x.value())})
    } else if let Some(x) = a.downcast_ref::<LengthPrefixedStr>() {
        json!({"t": "lps", "s": text(x.value())})
    } else {
        json!({"t": "unknown"})
    }
}

pub fn arr20(v: &Value) -> [u8; 20] {
    arr::<20>(v)
}
pub fn arr32(v: &Value) -> [u8; 32] {
    arr::<32>(v)
}
pub fn arr65(v: &Value) -> [u8; 65] {
    arr::<65>(v)
}

/// The content of a value through the routes that consume it.
pub fn owned(v: &Value) -> Vec<Value> {
    let c = || build(v).into_any();
    fn of<T: 'static>(a: Box<dyn std::any::Any>) -> T {
        *a.downcast::<T>().expect("type")
    }
    let t = ty(v);
    let all = |xs: Vec<Box<dyn Clarity>>| json!({"t": t, "xs": xs.iter().map(|x| project(x.as_ref())).collect::<Vec<_>>()});
    let inner = |x: Box<dyn Clarity>| json!({"t": t, "x": project(x.as_ref())});
    let kv = |es: Vec<(String, Box<dyn Clarity>)>| {
        json!({"t": t, "kv": es.iter().map(|(k, x)| json!({"k": text(k), "x": project(x.as_ref())})).collect::<Vec<_>>()})
    };
    let flag = |x: bool| json!({"t": if x { "true" } else { "false" }});
    match t {
        "int" => vec![
            json!({"t": t, "v": b(of::<Int>(c()).into_value().to_be_bytes())}),
            json!({"t": t, "v": b(i128::from(of::<Int>(c())).to_be_bytes())}),
        ],
        "uint" => vec![
            json!({"t": t, "v": b(of::<UInt>(c()).into_value().to_be_bytes())}),
            json!({"t": t, "v": b(u128::from(of::<UInt>(c())).to_be_bytes())}),
        ],
        "buf" => vec![
            json!({"t": t, "v": b(of::<Buffer>(c()).into_value())}),
            json!({"t": t, "v": b(Vec::<u8>::from(of::<Buffer>(c())))}),
            json!({"t": t, "v": b(of::<Buffer>(c()).into_iter().collect::<Vec<u8>>())}),
        ],
        "true" => vec![flag(of::<True>(c()).into_value())],
        "false" => vec![flag(of::<False>(c()).into_value())],
        "none" => vec![json!({"t": if of::<OptionalNone>(c()).into_value().is_none() { "none" } else { "broken" }})],
        "std" => vec![
            json!({"t": t, "a": text(&of::<PrincipalStandard>(c()).into_value())}),
            json!({"t": t, "a": text(&String::from(of::<PrincipalStandard>(c())))}),
        ],
        "con" => {
            let (a, n) = of::<PrincipalContract>(c()).into_value();
            vec![json!({"t": t, "a": text(&a), "n": text(&n)})]
        }
        "ok" => vec![inner(of::<ResponseOk>(c()).into_value())],
        "err" => vec![inner(of::<ResponseErr>(c()).into_value())],
        "some" => vec![inner(of::<OptionalSome>(c()).into_value())],
        "list" => vec![all(of::<List>(c()).into_value()), all(of::<List>(c()).into_iter().collect())],
        "args" => vec![all(of::<FnArguments>(c()).into_value()), all(of::<FnArguments>(c()).into_iter().collect())],
        "tuple" => vec![kv(of::<Tuple>(c()).into_value()), kv(of::<Tuple>(c()).into_iter().collect())],
        "ascii" => vec![json!({"t": t, "s": text(&of::<StringAscii>(c()).into_value())})],
        "utf8" => vec![json!({"t": t, "s": text(&of::<StringUtf8>(c()).into_value())})],
        "lps" => vec![json!({"t": t, "s": text(&of::<LengthPrefixedStr>(c()).into_value())})],
        t => panic!("unknown type {t}"),
    }
}
