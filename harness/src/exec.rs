//! Executes one command on the real library and records what it did.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

use secp256k1::{Message, PublicKey, Secp256k1, SecretKey};
use serde_json::{json, Map, Value};
use sha2::Digest;
use stacks_rs::clarity::{self, *};
use stacks_rs::crypto::c32::{hash_p2pkh, hash_p2sh, hash_p2wpkh, hash_p2wsh, Address, Mode};
use stacks_rs::crypto::*;
use stacks_rs::transaction::{self as t, *};
use stacks_rs::wallet::StacksWallet;

use crate::value::*;
use crate::{flow, rpc, structs, with_concrete, with_type};

#[derive(Default)]
pub struct State {
    tuples: [Option<Tuple>; 3],
    tx: Option<Transaction>,
    descs: (Value, Value),
    clients: rpc::Clients,
    saved: Option<(Transaction, (Value, Value))>,
    signer: Option<(TransactionSigner, (Value, Value))>,
    wallets: [Option<StacksWallet>; 3],
    flow: flow::Flow,
}

pub fn ok(v: Value) -> Value {
    json!({"o": "ok", "v": v})
}
pub fn err() -> Value {
    json!({"o": "err"})
}
pub fn skip() -> Value {
    json!({"o": "skip"})
}

/// Runs `f` and reports its outcome, a panic included.
pub fn out<E>(f: impl FnOnce() -> Result<Value, E>) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => ok(v),
        Ok(Err(_)) => err(),
        Err(_) => json!({"o": "panic"}),
    }
}
fn sure(f: impl FnOnce() -> Value) -> Value {
    out(|| Ok::<_, ()>(f()))
}
fn txerr(e: t::Error) -> Value {
    let d = format!("{e:?}");
    let name: String = d.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
    json!({"o": "err", "e": name})
}
/// As `out` for operations whose refusals are told apart.
pub fn outx(f: impl FnOnce() -> Result<(), t::Error>) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => ok(json!(0)),
        Ok(Err(e)) => txerr(e),
        Err(_) => json!({"o": "panic"}),
    }
}
fn pair(x: (Vec<u8>, u8)) -> Value {
    json!({"version": x.1, "data": b(x.0)})
}

pub fn sk(v: &Value) -> SecretKey {
    SecretKey::from_slice(&bytes(v)).expect("secret key")
}
pub fn pk(v: &Value) -> PublicKey {
    sk(v).public_key(&Secp256k1::new())
}
fn mode(v: &Value) -> Mode {
    match v.as_u64().unwrap() {
        0 => Mode::P2PKH,
        1 => Mode::P2SH,
        2 => Mode::P2WPKH,
        _ => Mode::P2WSH,
    }
}
fn code(v: &Value) -> ConditionCode {
    match v.as_u64().unwrap() {
        1 => ConditionCode::EQ,
        2 => ConditionCode::GT,
        3 => ConditionCode::GTE,
        4 => ConditionCode::LT,
        5 => ConditionCode::LTE,
        16 => ConditionCode::HasNot,
        _ => ConditionCode::Has,
    }
}
fn anchor(v: &Value) -> AnchorMode {
    match v.as_u64().unwrap() {
        1 => AnchorMode::Strict,
        2 => AnchorMode::Micro,
        _ => AnchorMode::Any,
    }
}
fn pcmode(v: &Value) -> PostConditionMode {
    if v.as_u64().unwrap() == 1 { PostConditionMode::Allow } else { PostConditionMode::Deny }
}
fn version(v: &Value) -> TransactionVersion {
    if v.as_u64().unwrap() == 0 { TransactionVersion::Mainnet } else { TransactionVersion::Testnet }
}
fn chain(v: &Value) -> ChainID {
    if bytes(v) == [0, 0, 0, 1] { ChainID::Mainnet } else { ChainID::Testnet }
}
fn info(v: &Value) -> AssetInfo {
    AssetInfo::new(string(&v["a"]), string(&v["n"]), string(&v["s"]))
}
pub fn conditions(v: &Value) -> PostConditions {
    let one = |c: &Value| -> Box<dyn Condition> {
        match c["t"].as_str().unwrap() {
            "stx" => with_concrete!(&c["who"], w => Box::new(STXPostCondition::new(w, u64_of(&c["amount"]), code(&c["code"])))),
            "ft" => with_concrete!(&c["who"], w =>
                Box::new(FungiblePostCondition::new(w, u64_of(&c["amount"]), code(&c["code"]), info(&c["info"])))),
            _ => {
                let mut x = with_concrete!(&c["who"], w =>
                    NonFungiblePostCondition::new(w, True::new(), code(&c["code"]), info(&c["info"])));
                x.name = build(&c["id"]);
                Box::new(x)
            }
        }
    };
    let xs = items(v);
    if xs.iter().any(|c| c.get("alt").is_some()) {
        if let Some(p) = by_macro(xs) {
            return p;
        }
    }
    PostConditions::new(xs.iter().map(one).collect())
}
/// Up to two conditions on standard principals through the library's macro.
fn by_macro(xs: &[Value]) -> Option<PostConditions> {
    use stacks_rs::post_condition;
    if xs.iter().any(|c| c["who"]["t"] != "std" || (c["t"] == "nft" && c["id"]["t"] != "uint")) {
        return None;
    }
    let who = |c: &Value| PrincipalStandard::new(string(&c["who"]["a"]));
    let amt = |c: &Value| u64_of(&c["amount"]);
    let id = |c: &Value| UInt::new(u128::from_be_bytes(bytes(&c["id"]["v"]).try_into().unwrap()));
    let t = |c: &Value| c["t"].as_str().unwrap().to_string();
    let one = |c: &Value| match t(c).as_str() {
        "stx" => post_condition!(STXCondition, who(c), amt(c), code(&c["code"])),
        "ft" => post_condition!(FungibleCondition, who(c), amt(c), code(&c["code"]), info(&c["info"])),
        _ => post_condition!(NonFungibleCondition, who(c), id(c), code(&c["code"]), info(&c["info"])),
    };
    Some(match xs {
        [] => post_condition!(),
        [c] => match t(c).as_str() {
            "stx" => post_condition![(STXCondition, who(c), amt(c), code(&c["code"]))],
            "ft" => post_condition![(FungibleCondition, who(c), amt(c), code(&c["code"]), info(&c["info"]))],
            _ => post_condition![(NonFungibleCondition, who(c), id(c), code(&c["code"]), info(&c["info"]))],
        },
        [c, d] => match (t(c).as_str(), t(d).as_str()) {
            ("stx", "stx") => post_condition![(STXCondition, who(c), amt(c), code(&c["code"])), (STXCondition, who(d), amt(d), code(&d["code"]))],
            ("stx", "ft") => post_condition![(STXCondition, who(c), amt(c), code(&c["code"])),
                (FungibleCondition, who(d), amt(d), code(&d["code"]), info(&d["info"]))],
            ("ft", "nft") => post_condition![(FungibleCondition, who(c), amt(c), code(&c["code"]), info(&c["info"])),
                (NonFungibleCondition, who(d), id(d), code(&d["code"]), info(&d["info"]))],
            ("nft", "stx") => post_condition![(NonFungibleCondition, who(c), id(c), code(&c["code"]), info(&c["info"])),
                (STXCondition, who(d), amt(d), code(&d["code"]))],
            _ => PostConditions::new(xs.iter().map(one).collect()),
        },
        _ => PostConditions::new(xs.iter().map(one).collect()),
    })
}
pub fn payload(p: &Value) -> Box<dyn Payload> {
    if p["t"] == "transfer" {
        Box::new(transfer(p))
    } else {
        Box::new(call(p))
    }
}
fn transfer(p: &Value) -> TokenTransferPayload {
    with_concrete!(&p["to"], w => TokenTransferPayload::new(w, u64_of(&p["amount"]), string(&p["memo"])))
}
fn call(p: &Value) -> ContractCallPayload {
    let a = Address::new(Hash160::from(arr20(&p["hash"])), p["ver"].as_u64().unwrap() as u8);
    ContractCallPayload::new(a, string(&p["contract"]), string(&p["fn"]), args(&p["args"]))
}
pub fn args(v: &Value) -> FnArguments {
    FnArguments::new(items(v).iter().map(build).collect())
}
fn show_transfer(p: &TokenTransferPayload) -> Value {
    json!({"t": "transfer", "to": project(p.address.as_ref()), "amount": b(p.amount.to_be_bytes()), "memo": text(&p.memo)})
}
fn show_call(p: &ContractCallPayload) -> Value {
    json!({"t": "call", "ver": p.address.version, "hash": b(p.address.hash.as_bytes()),
        "contract": text(p.contract.value()), "fn": text(p.name.value()),
        "args": Value::Array(p.args.value().iter().map(|x| project(x.as_ref())).collect())})
}

fn cond(c: &Value) -> Box<dyn SpendingCondition> {
    match c["k"].as_str().unwrap() {
        "def" => Box::<SpendingConditionStandard>::default(),
        "one" => Box::new(SpendingConditionStandard::new(pk(&c["key"]), u64_of(&c["fee"]), u64_of(&c["nonce"]), mode(&c["mode"]))),
        _ => {
            let keys: Vec<_> = items(&c["keys"]).iter().map(pk).collect();
            let req = c["req"].as_u64().unwrap() as u8;
            Box::new(SpendingConditionMultiSig::new(keys, u64_of(&c["fee"]), u64_of(&c["nonce"]), req, mode(&c["mode"])))
        }
    }
}
fn cond_with(c: &Value) -> Result<Box<dyn SpendingCondition>, t::Error> {
    let mut x = cond(&c["c"]);
    if c["c"]["k"] == "multi" {
        for f in items(&c["fields"]) {
            if f["t"] == "sig" {
                x.modify(Modification::AddSignature(MessageSignature::from(arr65(&f["b"]))))?;
            } else {
                x.modify(Modification::AddPublicKey(PublicKey::from_slice(&bytes(&f["b"]))?))?;
            }
        }
    } else if bytes(&c["sig"]).iter().any(|x| *x != 0) {
        x.modify(Modification::SetSignature(MessageSignature::from(arr65(&c["sig"]))))?;
    }
    Ok(x)
}
/// The signature material that a condition holds at present, as `fields`.
fn held(c: &dyn SpendingCondition) -> Option<Vec<Value>> {
    let e = catch_unwind(AssertUnwindSafe(|| c.encode())).ok()?.ok()?;
    if matches!(c.mode(), Mode::P2PKH | Mode::P2WPKH) {
        return (e.len() == 103).then(|| vec![json!({"t": "sig", "b": b(&e[38..])})]);
    }
    let n = u32::from_be_bytes(e.get(37..41)?.try_into().ok()?);
    let (mut at, mut r) = (41, vec![]);
    for _ in 0..n {
        let (t, len) = match *e.get(at)? {
            0 => ("key", 33),
            2 => ("sig", 65),
            _ => return None,
        };
        r.push(json!({"t": t, "b": b(e.get(at + 1..at + 1 + len)?)}));
        at += 1 + len;
    }
    Some(r)
}
/// Completes a condition given by its keys with the fee, nonce and signatures
/// that it is to take over from the present one.
fn complete(c: &Value, now: &dyn SpendingCondition) -> Option<Value> {
    let mut c = c.clone();
    if c["c"]["k"] != "def" {
        if c["c"].get("fee").is_none() {
            c["c"]["fee"] = b(now.fee().to_be_bytes());
        }
        if c["c"].get("nonce").is_none() {
            c["c"]["nonce"] = b(now.nonce().to_be_bytes());
        }
    }
    if c["c"]["k"] == "multi" {
        if c.get("fields").is_none() {
            c["fields"] = Value::Array(held(now)?.into_iter().filter(|f| items(&f["b"]).iter().any(|x| x != 0)).collect());
        }
    } else if c.get("sig").is_none() {
        let h = held(now)?;
        c["sig"] = h.iter().find(|f| f["t"] == "sig").map_or_else(|| b([0; 65]), |f| f["b"].clone());
    }
    Some(c)
}

pub fn make(d: &Value) -> Transaction {
    let auth = if d["kind"] == "std" {
        Auth::Standard(cond(&d["origin"]))
    } else {
        Auth::Sponsored(cond(&d["origin"]), cond(&d["sponsor"]))
    };
    Transaction::new(version(&d["version"]), chain(&d["chain"]), auth, anchor(&d["anchor"]), pcmode(&d["pcmode"]),
        conditions(&d["pcs"]), payload(&d["payload"]))
}

/// The builders, with exactly those optional settings that the caller gives.
pub fn built(d: &Value) -> Result<Transaction, clarity::Error> {
    macro_rules! finish {
        ($x:ident) => {{
            let mut x = $x.build();
            if let Some(v) = d.get("fee") { x.fee = u64_of(v) }
            if let Some(v) = d.get("nonce") { x.nonce = u64_of(v) }
            if let Some(v) = d.get("anchor") { x.anchor_mode = anchor(v) }
            if let Some(v) = d.get("pcmode") { x.post_condition_mode = pcmode(v) }
            if let Some(v) = d.get("pcs") { x.post_conditions = conditions(v) }
            x
        }};
    }
    // all settings through the builder's own setters
    macro_rules! full {
        ($x:ident) => {
            $x.fee(u64_of(&d["fee"])).nonce(u64_of(&d["nonce"])).anchor_mode(anchor(&d["anchor"]))
                .post_condition_mode(pcmode(&d["pcmode"])).post_conditions(conditions(&d["pcs"]))
        };
    }
    let given: Vec<&str> = ["fee", "nonce", "anchor", "pcmode", "pcs"].into_iter().filter(|k| d.get(*k).is_some()).collect();
    let all = given.len() == 5;
    // a single setting through its setter
    macro_rules! single {
        ($x:ident) => {
            match given[0] {
                "fee" => $x.fee(u64_of(&d["fee"])).build(),
                "nonce" => $x.nonce(u64_of(&d["nonce"])).build(),
                "anchor" => $x.anchor_mode(anchor(&d["anchor"])).build(),
                "pcmode" => $x.post_condition_mode(pcmode(&d["pcmode"])).build(),
                _ => $x.post_conditions(conditions(&d["pcs"])).build(),
            }
        };
    }
    let key = sk(&d["sender"]);
    macro_rules! on {
        ($net:expr) => {
            if d["what"] == "transfer" {
                with_concrete!(&d["to"], w => {
                    let x = STXTokenTransfer::builder().recipient(w).amount(u64_of(&d["amount"])).sender(key).network($net);
                    if all && d.get("memo").is_some() {
                        Ok(full!(x).memo(string(&d["memo"])).build().transaction())
                    } else if given.is_empty() && d.get("memo").is_some() {
                        Ok(x.memo(string(&d["memo"])).build().transaction())
                    } else if given.len() == 1 && d.get("memo").is_none() {
                        Ok(single!(x).transaction())
                    } else {
                        let mut x = finish!(x);
                        if let Some(v) = d.get("memo") { x.memo = string(v) }
                        Ok(x.transaction())
                    }
                })
            } else {
                let x = STXContractCall::builder().address(string(&d["address"])).contract(string(&d["contract"]))
                    .fn_name(string(&d["fn"])).fn_args(args(&d["args"])).sender(key).network($net);
                if all {
                    full!(x).build().transaction()
                } else if given.len() == 1 {
                    single!(x).transaction()
                } else {
                    finish!(x).transaction()
                }
            }
        };
    }
    match d["net"].as_str().unwrap() {
        "main" => on!(StacksMainnet::new()),
        "test" => on!(StacksTestnet::new()),
        _ => on!(StacksMocknet::new()),
    }
}

/// Verifies a transaction; also its initial hash and the verdict on the origin.
pub fn verify(tx: &Transaction) -> (Value, Option<(Value, Value)>) {
    let mut x = tx.clone();
    let init = catch_unwind(AssertUnwindSafe(|| {
        x.auth = x.auth.reset();
        x.hash()
    }));
    match init {
        Ok(Ok(h)) => (
            outx(|| tx.auth.verify(h)),
            Some((b(h.as_bytes()), out(|| tx.auth.verify_origin(h).map(|h| b(h.as_bytes()))))),
        ),
        Ok(Err(_)) => (err(), None),
        Err(_) => (json!({"o": "panic"}), None),
    }
}

pub fn shows(tx: &Transaction) -> Value {
    let view = |c: &dyn SpendingCondition| {
        json!({"fee": b(c.fee().to_be_bytes()), "nonce": b(c.nonce().to_be_bytes()), "mode": c.mode() as u8,
            "sigs": c.signatures(), "req": c.req_signatures()})
    };
    json!({"b": out(|| tx.encode().map(b)), "id": out(|| tx.hash().map(|h| b(h.as_bytes()))),
        "len": out(|| tx.len().map(|n| json!(n))), "hex": out(|| tx.hex().map(|s| text(&s))),
        "acc": sure(|| json!({"std": tx.auth.is_standard(), "spon": tx.auth.is_sponsored(), "origin": view(tx.auth.origin()),
            "sponsor": tx.auth.sponsor().iter().map(|c| view(*c)).collect::<Value>()}))})
}
fn shows_session(s: &TransactionSigner) -> Value {
    let mut v = shows(&s.tx);
    v["hash"] = b(s.hash.as_bytes());
    v["closed"] = json!(s.origin_signed);
    v
}

fn equal<T: Clarity + PartialEq + 'static>(x: &T, w: &dyn Clarity, rev: bool, ne: bool) -> bool {
    let w = w.as_any().downcast_ref::<T>().expect("same type");
    match (rev, ne) {
        (false, false) => x == w,
        (true, false) => w == x,
        _ => x != w,
    }
}
fn cast_out<T: Clarity + 'static>(v: Box<dyn Clarity>, inner: bool) -> (Value, Value) {
    if !inner {
        let r = out(|| v.cast_as::<T>().map(|x| project(x)));
        return (out(|| v.cast::<T>().map(|x| project(&x))), r);
    }
    macro_rules! via {
        ($C:ty) => {
            if v.as_any().is::<$C>() {
                let c: Box<$C> = v.into_any().downcast::<$C>().unwrap();
                let r = out(|| c.cast_as::<T>().map(|x| project(x)));
                return (out(|| (*c).cast::<T>().map(|x| project(&x))), r);
            }
        };
    }
    via!(ResponseOk);
    via!(ResponseErr);
    via!(OptionalSome);
    panic!("not a wrapper")
}

impl State {
    fn tuple_view(&self, slot: usize, ret: Option<Value>, probes: &Value) -> Value {
        let each = |f: &dyn Fn(&Tuple) -> Value| -> Value {
            Value::Array(self.tuples.iter().map(|t| t.as_ref().map_or(json!([]), f)).collect())
        };
        let empty = Tuple::new(vec![]);
        let t = self.tuples[slot].as_ref().unwrap_or(&empty);
        let probe = items(probes).iter().map(|k| {
            let x: Vec<_> = t.get(string(k)).iter().map(|x| project(x.as_ref())).collect();
            json!({"k": k, "x": x})
        });
        let mut v = json!({
            "keys": each(&|t| t.keys().map(|k| text(k)).collect()),
            "vals": each(&|t| t.values().map(|x| project(x.as_ref())).collect()),
            "probe": probe.collect::<Value>(),
            "enc": out(|| t.encode().map(b)),
            "show": text(&t.to_string()),
            "iter": t.clone().into_iter().map(|(k, x)| json!({"k": text(&k), "x": project(x.as_ref())})).collect::<Value>(),
        });
        if let Some(r) = ret {
            v["ret"] = r;
        }
        v
    }

    fn tuple_op(&mut self, op: &str, c: &Value) -> Result<Value, ()> {
        let slot = c["slot"].as_u64().unwrap() as usize - 1;
        let one = |x: Option<Box<dyn Clarity>>| Value::Array(x.iter().map(|x| project(x.as_ref())).collect());
        let cur = self.tuples[slot].get_or_insert_with(|| Tuple::new(vec![]));
        let ret = match op {
            "tup.new" => {
                *cur = Tuple::new(entries(&c["kv"]));
                None
            }
            "tup.ins" => {
                with_concrete!(&c["x"], x => cur.insert(string(&c["k"]), x));
                None
            }
            "tup.rem" => Some(one(cur.remove(string(&c["k"])))),
            "tup.get" => Some(one(cur.get(string(&c["k"])))),
            "tup.set" => {
                let x = build(&c["x"]);
                Some(match cur.get_mut(string(&c["k"])) {
                    Some(p) => one(Some(std::mem::replace(p, x))),
                    None => json!([]),
                })
            }
            _ => {
                let copy = cur.clone();
                self.tuples[c["to"].as_u64().unwrap() as usize - 1] = Some(copy);
                None
            }
        };
        Ok(self.tuple_view(slot, ret, &c["probes"]))
    }

    fn tx_op(&mut self, op: &str, c: &mut Value) -> Option<(Value, Value)> {
        let none = json!(0);
        if op == "tx.make" {
            let mut made = None;
            let r = sure(|| {
                made = Some(make(&c["d"]));
                json!(0)
            });
            *self = State { tx: made, ..State::default() };
            self.descs = (c["d"]["origin"].clone(), c["d"]["sponsor"].clone());
            let tx = self.tx.clone();
            self.saved = tx.clone().map(|x| (x, self.descs.clone()));
            return Some((r, tx.map_or(none, |x| shows(&x))));
        }
        if op == "tx.build" {
            let mut made = None;
            let r = out(|| {
                made = Some(built(&c["d"])?);
                Ok::<_, clarity::Error>(json!(0))
            });
            *self = State { tx: made, ..State::default() };
            let k = &c["d"];
            let z = b([0; 8]);
            self.descs = (json!({"k": "one", "mode": 0, "key": k["sender"], "fee": k.get("fee").unwrap_or(&z), "nonce": k.get("nonce").unwrap_or(&z)}), json!({"k": "def"}));
            let tx = self.tx.clone();
            self.saved = tx.clone().map(|x| (x, self.descs.clone()));
            return Some((r, tx.map_or(none, |x| shows(&x))));
        }
        if self.tx.is_none() {
            return Some((skip(), none));
        }
        match op {
            "sg.new" | "sg.sponsor" => {
                let mut d = self.descs.clone();
                let tx = self.tx.clone().unwrap();
                let mut made = None;
                let r = outx(|| {
                    made = Some(if op == "sg.new" {
                        TransactionSigner::new(tx)?
                    } else {
                        d.1 = c["c"].clone();
                        TransactionSigner::new_sponser(&tx, cond(&c["c"]))?
                    });
                    Ok(())
                });
                if let Some(m) = made {
                    self.signer = Some((m, d));
                }
                let now = self.signer.as_ref().map_or(none, |s| shows_session(&s.0));
                return Some((r, now));
            }
            "sg.origin" | "sg.second" | "sg.append" | "sg.flags" | "sg.take" => {
                if self.signer.is_none() {
                    return Some((skip(), none));
                }
                if op == "sg.take" {
                    let (s, d) = self.signer.take().unwrap();
                    let r = sure(|| {
                        self.tx = Some(s.transaction());
                        json!(0)
                    });
                    self.descs = d;
                    return Some((r, shows(self.tx.as_ref().unwrap())));
                }
                let s = &mut self.signer.as_mut().unwrap().0;
                let r = match op {
                    "sg.origin" => outx(|| s.sign_origin(sk(&c["key"]))),
                    "sg.second" => outx(|| s.sign_sponsor(sk(&c["key"]))),
                    "sg.append" => outx(|| s.append_origin(pk(&c["key"]))),
                    _ => {
                        s.verify_oversign = c["oversign"].as_bool().unwrap();
                        s.verify_overlap = c["overlap"].as_bool().unwrap();
                        ok(json!(0))
                    }
                };
                let now = shows_session(s);
                return Some((r, now));
            }
            _ => {}
        }
        let descs = &mut self.descs;
        let saved = &mut self.saved;
        let tx = self.tx.as_mut().unwrap();
        let r = match op {
            "tx.fee" => sure(|| {
                tx.set_fee(u64_of(&c["x"]));
                json!(0)
            }),
            "tx.nonce" => sure(|| {
                tx.set_nonce(u64_of(&c["x"]));
                json!(0)
            }),
            "tx.field" => {
                let x = c["x"].clone();
                let f = c["f"].as_str().unwrap().to_string();
                if matches!(f.as_str(), "sfee" | "snonce") && tx.auth.sponsor_mut().is_err() {
                    return None;
                }
                sure(|| {
                    match f.as_str() {
                        "version" => tx.version = version(&x),
                        "chain" => tx.chain_id = chain(&x),
                        "anchor" => tx.anchor_mode = anchor(&x),
                        "pcmode" => tx.post_condition_mode = pcmode(&x),
                        "pcs" => tx.post_conditions = conditions(&x),
                        "payload" => tx.payload = payload(&x),
                        "sfee" => tx.auth.sponsor_mut().unwrap().set_fee(u64_of(&x)),
                        _ => tx.auth.sponsor_mut().unwrap().set_nonce(u64_of(&x)),
                    }
                    json!(0)
                })
            }
            "tx.flip" => {
                let org = c["who"] == "origin";
                let (cur, desc) = if org {
                    (tx.auth.origin(), &descs.0)
                } else {
                    (tx.auth.sponsor().ok()?, &descs.1)
                };
                let mut fields = held(cur)?;
                let sigs: Vec<usize> = (0..fields.len()).filter(|i| fields[*i]["t"] == "sig").collect();
                if sigs.is_empty() || desc["k"] == "def" {
                    return None;
                }
                let i = sigs[c["i"].as_u64().unwrap() as usize % sigs.len()];
                let (byte, bit) = (c["byte"].as_u64().unwrap() as usize - 1, c["bit"].as_u64().unwrap());
                c["i"] = json!(i + 1);
                fields[i]["b"][byte] = json!(fields[i]["b"][byte].as_u64().unwrap() ^ bit);
                let mut d = desc.clone();
                d["fee"] = b(cur.fee().to_be_bytes());
                d["nonce"] = b(cur.nonce().to_be_bytes());
                let multi = d["k"] == "multi";
                let sig = fields[i]["b"].clone();
                let new = if multi { json!({"c": d, "fields": fields}) } else { json!({"c": d, "sig": sig}) };
                outx(|| {
                    if multi {
                        let x = cond_with(&new)?;
                        if org {
                            match &mut tx.auth {
                                Auth::Standard(o) | Auth::Sponsored(o, _) => *o = x,
                            }
                        } else {
                            tx.auth.set_sponsor(x)?;
                        }
                    } else {
                        let x = if org { tx.auth.origin_mut() } else { tx.auth.sponsor_mut()? };
                        x.modify(Modification::SetSignature(MessageSignature::from(arr65(&sig))))?;
                    }
                    Ok(())
                })
            }
            "tx.auth" => {
                let org = complete(&c["origin"], tx.auth.origin())?;
                let spon = if c["kind"] == "spon" {
                    let def: Box<dyn SpendingCondition> = Box::<SpendingConditionStandard>::default();
                    complete(&c["sponsor"], tx.auth.sponsor().unwrap_or(def.as_ref()))?
                } else {
                    json!(0)
                };
                c["origin"] = org.clone();
                c["sponsor"] = spon.clone();
                outx(|| {
                    tx.auth = if c["kind"] == "spon" {
                        Auth::Sponsored(cond_with(&org)?, cond_with(&spon)?)
                    } else {
                        Auth::Standard(cond_with(&org)?)
                    };
                    *descs = (org["c"].clone(), if c["kind"] == "spon" { spon["c"].clone() } else { json!({"k": "def"}) });
                    Ok(())
                })
            }
            "tx.modify" => {
                let cmd = c["cmd"].as_str().unwrap().to_string();
                let m = match cmd.as_str() {
                    "sig" => Modification::SetSignature(MessageSignature::from(arr65(&c["x"]))),
                    "addsig" => Modification::AddSignature(MessageSignature::from(arr65(&c["x"]))),
                    k => {
                        let key = pk(&c["x"]);
                        c["x"] = b(key.serialize());
                        if k == "key" { Modification::SetPublicKey(key) } else { Modification::AddPublicKey(key) }
                    }
                };
                outx(|| {
                    if c["who"] == "origin" {
                        tx.auth.origin_mut().modify(m)
                    } else {
                        tx.auth.sponsor_mut()?.modify(m)
                    }
                })
            }
            "tx.sponsor" => {
                let r = outx(|| tx.auth.set_sponsor(cond(&c["c"])));
                if r["o"] == "ok" {
                    descs.1 = c["c"].clone();
                }
                r
            }
            "tx.reset" => {
                tx.auth = tx.auth.clone().reset();
                for x in [&mut descs.0, &mut descs.1] {
                    for f in ["fee", "nonce"] {
                        if x.get(f).is_some() {
                            x[f] = b([0; 8]);
                        }
                    }
                }
                descs.1 = json!({"k": "def"});
                ok(json!(0))
            }
            "tx.save" => {
                *saved = Some((tx.clone(), descs.clone()));
                ok(json!(0))
            }
            "tx.load" => {
                let s = saved.clone()?;
                *tx = s.0;
                *descs = s.1;
                ok(json!(0))
            }
            "tx.verify" => {
                let (r, more) = verify(tx);
                if let Some((init, ro)) = more {
                    c["init"] = init;
                    c["ro"] = ro;
                }
                r
            }
            "tx.sign" => {
                let old = tx.clone();
                let mut new = None;
                let r = outx(|| {
                    new = Some(old.sign(sk(&c["key"]))?);
                    Ok(())
                });
                if let Some(n) = new {
                    *tx = n;
                }
                r
            }
            x => panic!("unknown operation {x}"),
        };
        let now = shows(tx);
        Some((r, now))
    }

    fn wallet_op(&mut self, op: &str, c: &Value) -> Value {
        let slot = c["slot"].as_u64().unwrap() as usize - 1;
        let idx = |v: &Value| u32::from_be_bytes(bytes(v).try_into().unwrap());
        if op == "w.new" {
            let mut made = None;
            let r = out(|| {
                let w = StacksWallet::from_secret_key(string(&c["phrase"]))?;
                let v = json!({"priv": b(w.private_key()?.secret_bytes()), "pub": b(w.public_key()?.serialize())});
                made = Some(w);
                Ok::<_, stacks_rs::wallet::Error>(v)
            });
            self.wallets[slot] = made;
            return r;
        }
        if self.wallets[slot].is_none() {
            return skip();
        }
        match op {
            "w.get" => out(|| {
                let a = self.wallets[slot].as_mut().unwrap().get_account(idx(&c["i"]))?;
                flow::show_account(&a)
            }),
            "w.copy" => {
                self.wallets[c["to"].as_u64().unwrap() as usize - 1] = self.wallets[slot].clone();
                ok(json!(0))
            }
            _ => {
                let to = c["to"].as_u64().unwrap() as usize - 1;
                if self.wallets[to].is_none() {
                    return skip();
                }
                out(|| {
                    let a = self.wallets[slot].as_mut().unwrap().get_account(idx(&c["i"]))?;
                    self.wallets[to].as_mut().unwrap().set_account(idx(&c["j"]), a);
                    Ok::<_, stacks_rs::wallet::Error>(json!(0))
                })
            }
        }
    }

    /// Executes a command; gives the event, or nothing if it has no meaning here.
    pub fn exec(&mut self, cmd: &Value) -> Option<Value> {
        let mut e = cmd.clone();
        let op = cmd["op"].as_str().expect("op").to_string();
        if op.starts_with("tx.") || op.starts_with("sg.") {
            let (r, now) = self.tx_op(&op, &mut e)?;
            e["r"] = r;
            e["now"] = now;
        } else if op.starts_with("tup.") {
            e["r"] = out(|| self.tuple_op(&op, cmd));
        } else if op.starts_with("w.") {
            e["r"] = self.wallet_op(&op, cmd);
        } else if op.starts_with("fl.") {
            self.flow.exec(&op, &mut e);
        } else if op == "rpc" {
            rpc::exec(&mut self.clients, &mut e, None);
        } else {
            stateless(&op, &mut e);
        }
        strip(&mut e);
        Some(e)
    }
}

/// Leaves out what only tells how a value is to be made.
fn strip(v: &mut Value) {
    match v {
        Value::Object(m) => {
            m.remove("alt");
            m.values_mut().for_each(strip);
        }
        Value::Array(a) => {
            if a.first().map_or(false, |x| !x.is_number()) {
                a.iter_mut().for_each(strip);
            }
        }
        _ => {}
    }
}

/// The bytes of a hash type, through every route there is.
macro_rules! routes {
    ($h:expr, $T:ident) => {{
        let h = $h;
        let a: &[u8] = h.as_ref();
        let mut m = h;
        let am: &mut [u8] = m.as_mut();
        let am = b(am);
        let mut n = h;
        let fixed = b(AsRef::<[u8; { std::mem::size_of::<$T>() }]>::as_ref(&h));
        let mutable = b(AsMut::<[u8; { std::mem::size_of::<$T>() }]>::as_mut(&mut n));
        let mut z = $T::default();
        AsMut::<[u8]>::as_mut(&mut z).copy_from_slice(h.as_bytes());
        json!([fixed, mutable, b(z.as_bytes()), b(h.clone().into_bytes()), b(h.into_bytes()), b(a), b(Vec::<u8>::from(h)), b($T::from(h.into_bytes()).as_bytes()), b(h.0), am])
    }};
}

fn sha512t256(b: &[u8]) -> [u8; 32] {
    sha2::Sha512_256::digest(b).into()
}

fn stateless(op: &str, e: &mut Value) {
    let c = e.clone();
    let put = |e: &mut Value, k: &str, v: Value| {
        e.as_object_mut().map(|m: &mut Map<String, Value>| m.insert(k.to_string(), v));
    };
    let by = || bytes(&c["b"]);
    let st = || string(&c["s"]);
    let ver = || c["ver"].as_u64().unwrap() as u8;
    // A version that has a name is given by it.
    let c32ver = || match ver() {
        22 => c32::Version::MainnetP2PKH as u8,
        20 => c32::Version::MainnetP2SH as u8,
        26 => c32::Version::TestnetP2PKH as u8,
        21 => c32::Version::TestnetP2SH as u8,
        v => v,
    };
    let b58ver = || match ver() {
        0 => b58::Version::MainnetP2PKH as u8,
        5 => b58::Version::MainnetP2SH as u8,
        111 => b58::Version::TestnetP2PKH as u8,
        196 => b58::Version::TestnetP2SH as u8,
        v => v,
    };
    let hash = || SignatureHash::from(arr32(&c["hash"]));
    let fee = || u64_of(&c["fee"]);
    let nonce = || u64_of(&c["nonce"]);
    let typ = || c["typ"].as_u64().unwrap() as u8;
    let r = match op {
        "hex.enc" => sure(|| text(&bytes_to_hex(by()))),
        "hex.dec" => out(|| hex_to_bytes(st()).map(b)),
        "c32.enc" => out(|| c32_encode(by()).map(|s| text(&s))),
        "c32.dec" => out(|| c32_decode(st()).map(b)),
        "c32c.enc" => out(|| c32check_encode(by(), c32ver()).map(|s| text(&s))),
        "c32c.dec" => out(|| c32check_decode(st()).map(pair)),
        "addr.enc" => out(|| c32_address(by(), c32ver()).map(|s| text(&s))),
        "addr.dec" => {
            let r2 = out(|| Address::from_str(&st()).map(|a| json!({"version": a.version, "data": b(a.hash.as_bytes())})));
            put(e, "r2", r2);
            out(|| c32_address_decode(st()).map(pair))
        }
        "b58.enc" => sure(|| text(&b58_encode(by()))),
        "b58.dec" => out(|| b58_decode(st()).map(b)),
        "b58c.enc" => sure(|| text(&base58check_encode(by(), b58ver()))),
        "b58c.dec" => out(|| base58check_decode(st()).map(pair)),
        "hash" => {
            macro_rules! h {
                ($T:ident) => {
                    sure(|| {
                        let h = $T::from_slice(by());
                        json!({"d": b(h.as_bytes()), "sum": b(h.checksum()), "hex": [text(&h.hex()), text(&format!("{h:?}"))],
                            "routes": routes!(h, $T)})
                    })
                };
            }
            match c["alg"].as_str().unwrap() {
                "sha256" => h!(Sha256Hash),
                "dsha256" => h!(DSha256Hash),
                "sha512t256" => h!(Sha512_256Hash),
                _ => h!(Hash160),
            }
        }
        "keyhash" => {
            let k = pk(&c["key"]).serialize();
            put(e, "key", b(k));
            sure(|| b((if c["mode"] == 0 { hash_p2pkh(&k) } else { hash_p2wpkh(&k) }).as_bytes()))
        }
        "keyshash" => {
            let ks: Vec<_> = items(&c["keys"]).iter().map(pk).collect();
            put(e, "keys", ks.iter().map(|k| b(k.serialize())).collect());
            let req = c["req"].as_u64().unwrap() as u8;
            sure(|| b((if c["mode"] == 1 { hash_p2sh(req, &ks) } else { hash_p2wsh(req, &ks) }).as_bytes()))
        }
        "cv.enc" => with_concrete!(&c["v"], v => json!({
            "enc": out(|| v.encode().map(b)),
            "len": out(|| v.len().map(|x| json!(x))),
            "empty": out(|| v.is_empty().map(|x| json!(x))),
            "hex": out(|| v.hex().map(|s| text(&s))),
            "hexp": out(|| v.hex_prefixed().map(|s| text(&s))),
        })),
        "cv.dec" => {
            let mut re = json!(0);
            let bs = by();
            let r = match c["as"].as_str().unwrap() {
                "any" => out(|| {
                    let v = decode_clarity_type(&bs)?;
                    re = out(|| v.encode().map(b));
                    Ok::<_, clarity::Error>(project(v.as_ref()))
                }),
                t => with_type!(t, T => out(|| {
                    let v = T::decode(&bs)?;
                    re = out(|| v.encode().map(b));
                    Ok::<_, clarity::Error>(project(&v))
                })),
            };
            put(e, "re", re);
            r
        }
        "cv.show" => with_concrete!(&c["v"], v => sure(|| text(&v.to_string()))),
        "cv.eq" => {
            let w = build(&c["w"]);
            with_concrete!(&c["v"], v => json!({
                "eq": sure(|| json!(equal(&v, w.as_ref(), false, false))),
                "rev": sure(|| json!(equal(&v, w.as_ref(), true, false))),
                "ne": sure(|| json!(equal(&v, w.as_ref(), false, true))),
                "refl": sure(|| json!(equal(&v, &v, false, false))),
            }))
        }
        "cv.clone" => with_concrete!(&c["v"], v => {
            let k = v.clone();
            let clone = sure(|| project(&k));
            let eq = sure(|| json!(equal(&v, &k, false, false)));
            let mut v: Box<dyn Clarity> = Box::new(v);
            disturb(&mut v);
            json!({"clone": clone, "kept": sure(|| project(&k)), "eq": eq})
        }),
        "cv.own" => sure(|| Value::Array(owned(&c["v"]))),
        "cv.cast" => {
            let (own, re) = with_type!(c["to"].as_str().unwrap(), T => cast_out::<T>(build(&c["v"]), c["inner"] == true));
            json!({"own": own, "ref": re})
        }
        "pay.enc" => {
            let p = payload(&c["p"]);
            let q = p.clone();
            json!({"enc": out(|| p.encode().map(b)), "len": out(|| p.len().map(|x| json!(x))), "hex": out(|| p.hex().map(|s| text(&s))),
                "hexp": out(|| p.hex_prefixed().map(|s| text(&s))), "copy": out(|| q.encode().map(b))})
        }
        "pay.dec" => {
            let mut re = json!(0);
            let bs = by();
            let r = match c["as"].as_str().unwrap() {
                "any" => out(|| {
                    let v = <Box<dyn Payload>>::decode(&bs)?;
                    re = out(|| v.encode().map(b));
                    Ok::<_, clarity::Error>(json!(0))
                }),
                "transfer" => out(|| {
                    let v = TokenTransferPayload::decode(&bs)?;
                    re = out(|| v.encode().map(b));
                    Ok::<_, clarity::Error>(show_transfer(&v))
                }),
                _ => out(|| {
                    let v = ContractCallPayload::decode(&bs)?;
                    re = out(|| v.encode().map(b));
                    Ok::<_, clarity::Error>(show_call(&v))
                }),
            };
            put(e, "re", re);
            r
        }
        "pc.enc" => {
            let x = conditions(&c["pcs"]);
            let y = x.clone();
            let each = x.clone().into_iter().map(|i| out(|| i.encode().map(b))).collect::<Value>();
            json!({"enc": out(|| x.encode().map(b)), "copy": out(|| y.encode().map(b)), "len": out(|| x.len().map(|n| json!(n))),
                "each": each, "held": x.value().iter().map(|i| out(|| i.encode().map(b))).collect::<Value>(),
                "own": y.into_value().iter().map(|i| out(|| i.encode().map(b))).collect::<Value>()})
        }
        "net" => {
            macro_rules! net {
                ($T:ident) => {{
                    let show = |n: $T| json!({"version": n.version() as u8, "chain": b((n.chain_id() as u32).to_be_bytes()), "url": text(&n.base_url())});
                    sure(|| json!([show($T::new()), show($T::default()), show(*$T::new().as_ref())]))
                }};
            }
            match c["net"].as_str().unwrap() {
                "main" => net!(StacksMainnet),
                "test" => net!(StacksTestnet),
                _ => net!(StacksMocknet),
            }
        }
        "sig.hash" => sure(|| {
            let h = SignatureHash::from_slice(by());
            json!({"d": b(h.as_bytes()), "hex": [text(&h.hex()), text(&format!("{h:?}"))], "routes": routes!(h, SignatureHash)})
        }),
        "sig.pre" => sure(|| b(SignatureHash::make_presign_hash(hash(), typ(), fee(), nonce()).as_bytes())),
        "sig.post" => sure(|| b(SignatureHash::make_postsign_hash(hash(), arr65(&c["sig"])).as_bytes())),
        "sig.step" => {
            let mut v = json!(0);
            let r = out(|| {
                let (sig, next) = SignatureHash::next_signature(hash(), typ(), fee(), nonce(), sk(&c["key"]))?;
                v = out(|| {
                    SignatureHash::next_verify(hash(), typ(), fee(), nonce(), sig)
                        .map(|(k, h)| json!({"pk": b(k.serialize()), "next": b(h.as_bytes())}))
                });
                Ok::<_, stacks_rs::crypto::hash::Error>(json!({"sig": b(sig.as_bytes()), "next": b(next.as_bytes())}))
            });
            put(e, "v", v);
            r
        }
        "sig.verify" => {
            // a signature made here by the given key, over the right or another message
            if let Some(key) = c.get("by") {
                let mut m = bytes(&c["hash"]);
                m.push(typ());
                m.extend(bytes(&c["fee"]));
                m.extend(bytes(&c["nonce"]));
                let m = sha512t256(&m);
                let (id, rs) = Secp256k1::new().sign_ecdsa_recoverable(&Message::from_digest(m), &sk(key)).serialize_compact();
                let mut sig = vec![id.to_i32() as u8];
                sig.extend(rs);
                if let Some(f) = c.get("flip") {
                    let i = f["byte"].as_u64().unwrap() as usize - 1;
                    sig[i] ^= f["bit"].as_u64().unwrap() as u8;
                }
                put(e, "sig", b(sig));
                let m = e.as_object_mut().unwrap();
                m.remove("by");
                m.remove("flip");
            }
            let sig = arr65(&e["sig"]);
            out(|| {
                SignatureHash::next_verify(hash(), typ(), fee(), nonce(), sig)
                    .map(|(k, h)| json!({"pk": b(k.serialize()), "next": b(h.as_bytes())}))
            })
        }
        "msg.slice" => out(|| MessageSignature::from_slice(by()).map(|m| {
            json!({"d": b(m.as_bytes()), "hex": [text(&m.hex()), text(&format!("{m:?}"))], "routes": routes!(m, MessageSignature),
                "new": b(MessageSignature::new(by()).as_bytes())})
        })),
        "msg.recov" => out(|| {
            let r = MessageSignature::from(arr65(&c["b"])).into_recov()?;
            let (id, rs) = r.serialize_compact();
            let back = MessageSignature::from_recov(r)?;
            Ok::<_, stacks_rs::crypto::hash::Error>(json!({"id": id.to_i32(), "rs": b(rs), "back": b(back.as_bytes())}))
        }),
        "drv" => out(|| structs::convert(c["ty"].as_str().unwrap(), Tuple::new(entries(&c["kv"])))),
        x => panic!("unknown operation {x}"),
    };
    put(e, "r", r);
}

/// Changes a value in whatever way the library offers.
fn disturb(v: &mut Box<dyn Clarity>) {
    let taken: Box<dyn Clarity> = std::mem::replace(v, Box::new(True::new()));
    if taken.as_any().is::<Tuple>() {
        let mut t = taken.into_any().downcast::<Tuple>().unwrap();
        let keys: Vec<String> = t.keys().cloned().collect();
        for k in &keys {
            if let Some(x) = t.get_mut(k.as_str()) {
                disturb(x);
                *x = Box::new(Int::new(-77));
            }
        }
        for k in keys {
            t.remove(k);
        }
        t.insert("changed".to_string(), True::new());
    }
}
