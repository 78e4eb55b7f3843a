// Generated by tools/mkstructs.py.
#![allow(non_snake_case)]
use serde_json::{json, Value};
#[allow(unused_imports)]
use stacks_rs::clarity::Any;
use stacks_rs::clarity::Tuple;
use stacks_rs::derive::FromTuple;
use crate::value::{b, text, Out};

#[derive(FromTuple)]
struct S0 {
    #[stacks(key = "value")]
    f0: i128,
}
impl S0 {
    fn show(&self) -> Value {
        Value::Array(vec![b(self.f0.to_be_bytes())])
    }
}

#[derive(FromTuple)]
struct S1 {
    #[stacks(key = "value")]
    f0: u128,
}
impl S1 {
    fn show(&self) -> Value {
        Value::Array(vec![b(self.f0.to_be_bytes())])
    }
}

#[derive(FromTuple)]
struct S2 {
    #[stacks(key = "value")]
    f0: bool,
}
impl S2 {
    fn show(&self) -> Value {
        Value::Array(vec![json!(self.f0)])
    }
}

#[derive(FromTuple)]
struct S3 {
    #[stacks(key = "value")]
    f0: Vec<u8>,
}
impl S3 {
    fn show(&self) -> Value {
        Value::Array(vec![b(&self.f0)])
    }
}

#[derive(FromTuple)]
struct S4 {
    #[stacks(key = "value")]
    f0: String,
}
impl S4 {
    fn show(&self) -> Value {
        Value::Array(vec![text(&self.f0)])
    }
}

#[derive(FromTuple)]
struct S5 {
    #[stacks(key = "value")]
    f0: Vec<String>,
}
impl S5 {
    fn show(&self) -> Value {
        Value::Array(vec![Value::Array(self.f0.iter().map(|s| text(s)).collect())])
    }
}

#[derive(FromTuple)]
struct S6 {
    #[stacks(key = "value")]
    f0: Option<i128>,
}
impl S6 {
    fn show(&self) -> Value {
        Value::Array(vec![Value::Array(self.f0.iter().map(|x| b(x.to_be_bytes())).collect())])
    }
}

#[derive(FromTuple)]
struct S7 {
    #[stacks(key = "value")]
    f0: Option<u128>,
}
impl S7 {
    fn show(&self) -> Value {
        Value::Array(vec![Value::Array(self.f0.iter().map(|x| b(x.to_be_bytes())).collect())])
    }
}

#[derive(FromTuple)]
struct S8 {
    #[stacks(key = "value")]
    f0: Option<String>,
}
impl S8 {
    fn show(&self) -> Value {
        Value::Array(vec![Value::Array(self.f0.iter().map(|x| text(x)).collect())])
    }
}

#[derive(FromTuple)]
struct S9 {
    #[stacks(key = "value", response)]
    f0: i128,
}
impl S9 {
    fn show(&self) -> Value {
        Value::Array(vec![b(self.f0.to_be_bytes())])
    }
}

#[derive(FromTuple)]
struct S10 {
    #[stacks(key = "value", response)]
    f0: u128,
}
impl S10 {
    fn show(&self) -> Value {
        Value::Array(vec![b(self.f0.to_be_bytes())])
    }
}

#[derive(FromTuple)]
struct S11 {
    #[stacks(key = "key-i128")]
    f0: i128,
    #[stacks(key = "key-u128")]
    f1: u128,
    #[stacks(key = "key-bool")]
    f2: bool,
    #[stacks(key = "key-bytes")]
    f3: Vec<u8>,
    #[stacks(key = "key-str")]
    f4: String,
    #[stacks(key = "key-strs")]
    f5: Vec<String>,
    #[stacks(key = "key-oi")]
    f6: Option<i128>,
    #[stacks(key = "key-ou")]
    f7: Option<u128>,
    #[stacks(key = "key-os")]
    f8: Option<String>,
    #[stacks(key = "key-ri", response)]
    f9: i128,
    #[stacks(key = "key-ru", response)]
    f10: u128,
}
impl S11 {
    fn show(&self) -> Value {
        Value::Array(vec![b(self.f0.to_be_bytes()), b(self.f1.to_be_bytes()), json!(self.f2), b(&self.f3), text(&self.f4), Value::Array(self.f5.iter().map(|s| text(s)).collect()), Value::Array(self.f6.iter().map(|x| b(x.to_be_bytes())).collect()), Value::Array(self.f7.iter().map(|x| b(x.to_be_bytes())).collect()), Value::Array(self.f8.iter().map(|x| text(x)).collect()), b(self.f9.to_be_bytes()), b(self.f10.to_be_bytes())])
    }
}

#[derive(FromTuple)]
struct S12 {
    #[stacks(key = "b")]
    a: i128,
    #[stacks(key = "a")]
    b: i128,
}
impl S12 {
    fn show(&self) -> Value {
        Value::Array(vec![b(self.a.to_be_bytes()), b(self.b.to_be_bytes())])
    }
}

#[derive(FromTuple)]
struct S13 {
    #[stacks(key = "b")]
    a: bool,
    #[stacks(key = "a")]
    b: bool,
}
impl S13 {
    fn show(&self) -> Value {
        Value::Array(vec![json!(self.a), json!(self.b)])
    }
}

#[derive(FromTuple)]
struct S14 {
    #[stacks(key = "b")]
    a: String,
    #[stacks(key = "a")]
    b: String,
}
impl S14 {
    fn show(&self) -> Value {
        Value::Array(vec![text(&self.a), text(&self.b)])
    }
}

#[derive(FromTuple)]
struct S15 {
    #[stacks(key = "b")]
    a: Option<i128>,
    #[stacks(key = "a")]
    b: Option<i128>,
}
impl S15 {
    fn show(&self) -> Value {
        Value::Array(vec![Value::Array(self.a.iter().map(|x| b(x.to_be_bytes())).collect()), Value::Array(self.b.iter().map(|x| b(x.to_be_bytes())).collect())])
    }
}

#[derive(FromTuple)]
struct S16 {
    #[stacks(key = "b", response)]
    a: u128,
    #[stacks(key = "a", response)]
    b: u128,
}
impl S16 {
    fn show(&self) -> Value {
        Value::Array(vec![b(self.a.to_be_bytes()), b(self.b.to_be_bytes())])
    }
}

#[derive(FromTuple)]
struct S17 {
    #[stacks(key = "b")]
    a: Vec<u8>,
    #[stacks(key = "a")]
    b: Vec<u8>,
}
impl S17 {
    fn show(&self) -> Value {
        Value::Array(vec![b(&self.a), b(&self.b)])
    }
}

#[derive(FromTuple)]
struct S18 {
    #[stacks(key = "b")]
    f0: Option<i128>,
    #[stacks(key = "é")]
    f1: i128,
    #[stacks(key = "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk")]
    f2: bool,
    #[stacks(key = "ok")]
    f3: bool,
}
impl S18 {
    fn show(&self) -> Value {
        Value::Array(vec![Value::Array(self.f0.iter().map(|x| b(x.to_be_bytes())).collect()), b(self.f1.to_be_bytes()), json!(self.f2), json!(self.f3)])
    }
}

#[derive(FromTuple)]
struct S19 {
    #[stacks(key = "aa")]
    f0: Option<String>,
    #[stacks(key = "ok")]
    f1: Option<i128>,
    #[stacks(key = "none")]
    f2: Option<u128>,
    #[stacks(key = "a")]
    f3: i128,
    #[stacks(key = "b")]
    f4: Vec<u8>,
}
impl S19 {
    fn show(&self) -> Value {
        Value::Array(vec![Value::Array(self.f0.iter().map(|x| text(x)).collect()), Value::Array(self.f1.iter().map(|x| b(x.to_be_bytes())).collect()), Value::Array(self.f2.iter().map(|x| b(x.to_be_bytes())).collect()), b(self.f3.to_be_bytes()), b(&self.f4)])
    }
}

#[derive(FromTuple)]
struct S20 {
    #[stacks(key = "aa")]
    f0: Option<u128>,
    #[stacks(key = "n")]
    f1: Vec<u8>,
}
impl S20 {
    fn show(&self) -> Value {
        Value::Array(vec![Value::Array(self.f0.iter().map(|x| b(x.to_be_bytes())).collect()), b(&self.f1)])
    }
}

#[derive(FromTuple)]
struct S21 {
    #[stacks(key = "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk")]
    f0: i128,
    #[stacks(key = "n", response)]
    f1: i128,
    #[stacks(key = "response")]
    f2: Option<i128>,
    #[stacks(key = "k?")]
    f3: u128,
}
impl S21 {
    fn show(&self) -> Value {
        Value::Array(vec![b(self.f0.to_be_bytes()), b(self.f1.to_be_bytes()), Value::Array(self.f2.iter().map(|x| b(x.to_be_bytes())).collect()), b(self.f3.to_be_bytes())])
    }
}

#[derive(FromTuple)]
struct S22 {
    #[stacks(key = "inner")]
    inner: S0,
}
impl S22 {
    fn show(&self) -> Value {
        Value::Array(vec![self.inner.show()])
    }
}

#[derive(FromTuple)]
struct S23 {
    #[stacks(key = "l")]
    l: S1,
    #[stacks(key = "r")]
    r: S1,
}
impl S23 {
    fn show(&self) -> Value {
        Value::Array(vec![self.l.show(), self.r.show()])
    }
}

#[derive(FromTuple)]
struct S24 {
    #[stacks(key = "deep")]
    deep: S22,
    #[stacks(key = "v")]
    v: bool,
}
impl S24 {
    fn show(&self) -> Value {
        Value::Array(vec![self.deep.show(), json!(self.v)])
    }
}

#[derive(FromTuple)]
struct S25 {
    #[stacks(key = "tuple")]
    f0: S16,
    #[stacks(key = "ok")]
    f1: bool,
    #[stacks(key = "a.b")]
    f2: S10,
    #[stacks(key = "A")]
    f3: S13,
}
impl S25 {
    fn show(&self) -> Value {
        Value::Array(vec![self.f0.show(), json!(self.f1), self.f2.show(), self.f3.show()])
    }
}

#[derive(FromTuple)]
struct S26 {
    #[stacks(key = "response")]
    f0: S16,
    #[stacks(key = "a")]
    f1: bool,
    #[stacks(key = "owner-id!")]
    f2: S3,
    #[stacks(key = "name")]
    f3: u128,
}
impl S26 {
    fn show(&self) -> Value {
        Value::Array(vec![self.f0.show(), json!(self.f1), self.f2.show(), b(self.f3.to_be_bytes())])
    }
}

#[derive(FromTuple)]
struct S27 {
    #[stacks(key = "n")]
    f0: S17,
    #[stacks(key = "owner-id!")]
    f1: u128,
}
impl S27 {
    fn show(&self) -> Value {
        Value::Array(vec![self.f0.show(), b(self.f1.to_be_bytes())])
    }
}

#[derive(FromTuple)]
struct S28 {
    #[stacks(key = "aa")]
    f0: Vec<u8>,
    #[stacks(key = "owner-id!")]
    f1: Option<u128>,
    #[stacks(key = "A")]
    f2: bool,
    #[stacks(key = "é")]
    f3: Vec<u8>,
}
impl S28 {
    fn show(&self) -> Value {
        Value::Array(vec![b(&self.f0), Value::Array(self.f1.iter().map(|x| b(x.to_be_bytes())).collect()), json!(self.f2), b(&self.f3)])
    }
}

pub fn convert(ty: &str, t: Tuple) -> Out {
    match ty {
        "S0" => S0::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S1" => S1::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S2" => S2::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S3" => S3::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S4" => S4::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S5" => S5::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S6" => S6::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S7" => S7::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S8" => S8::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S9" => S9::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S10" => S10::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S11" => S11::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S12" => S12::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S13" => S13::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S14" => S14::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S15" => S15::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S16" => S16::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S17" => S17::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S18" => S18::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S19" => S19::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S20" => S20::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S21" => S21::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S22" => S22::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S23" => S23::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S24" => S24::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S25" => S25::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S26" => S26::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S27" => S27::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        "S28" => S28::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),
        _ => unreachable!(),
    }
}

