//! Whole flows: a wallet's account, the node, building, pricing, signing and sending.
use serde_json::{json, Value};
use stacks_rs::clarity;
use stacks_rs::crypto::c32::Version;
use stacks_rs::transaction::Transaction;
use stacks_rs::wallet::{StacksAccount, StacksWallet};

use crate::exec::{built, out, outx, shows, skip, verify};
use crate::rpc;
use crate::value::*;

#[derive(Default)]
pub struct Flow {
    account: Option<StacksAccount>,
    nonce: u64,
    tx: Option<Transaction>,
    clients: rpc::Clients,
}

pub const VERSIONS: [Version; 4] = [Version::MainnetP2PKH, Version::MainnetP2SH, Version::TestnetP2PKH, Version::TestnetP2SH];

pub fn show_account(a: &StacksAccount) -> Result<Value, stacks_rs::wallet::Error> {
    let addrs = VERSIONS.iter().map(|v| a.get_address(*v).map(|s| text(&s))).collect::<Result<Vec<_>, _>>()?;
    Ok(json!({"priv": b(a.private_key()?.secret_bytes()), "pub": b(a.public_key()?.serialize()), "addrs": addrs}))
}

fn number(v: &Value) -> Option<u64> {
    v.as_array()?;
    string(v).parse().ok()
}

impl Flow {
    fn address(a: &StacksAccount, ver: &Value) -> Option<Value> {
        let v = VERSIONS.into_iter().find(|v| *v as u64 == ver.as_u64().unwrap_or(99))?;
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.get_address(v).ok().map(|s| text(&s)))).ok()?
    }

    pub fn exec(&mut self, op: &str, e: &mut Value) {
        if op == "fl.open" {
            let (phrase, i) = (string(&e["phrase"]), u32::from_be_bytes(bytes(&e["i"]).try_into().unwrap()));
            let mut made = None;
            e["r"] = out(|| {
                let mut w = StacksWallet::from_secret_key(phrase)?;
                let a = w.get_account(i)?;
                let v = show_account(&a)?;
                made = Some(a);
                Ok::<_, stacks_rs::wallet::Error>(v)
            });
            *self = Self { account: made, ..Self::default() };
            return;
        }
        e["r"] = skip();
        e["now"] = json!(0);
        e["r2"] = skip();
        let Some(a) = &self.account else { return };
        match op {
            "fl.ask" | "fl.read" => {
                let Some(addr) = Self::address(a, &e["ver"]) else {
                    e["r"] = json!({"o": "panic"});
                    return;
                };
                e["call"] = json!(if op == "fl.ask" { "account" } else { "ro" });
                let mut q = e.clone();
                q[if op == "fl.ask" { "addr" } else { "sender" }] = addr;
                rpc::exec(&mut self.clients, &mut q, None);
                for k in ["r", "sent", "ans"] {
                    e[k] = q[k].clone();
                }
                if op == "fl.ask" {
                    if let Some(n) = number(&q["r"]["v"]["v"][3]) {
                        self.nonce = n;
                    }
                } else if q["r"]["v"]["as"] == "ok" {
                    let s = string(&q["r"]["v"]["v"][1]);
                    e["r2"] = out(|| {
                        let bs = stacks_rs::crypto::hex_to_bytes(s.strip_prefix("0x").unwrap_or(&s)).map_err(|_| ())?;
                        clarity::decode_clarity_type(&bs).map(|v| project(v.as_ref())).map_err(|_| ())
                    });
                }
                return;
            }
            "fl.build" => {
                let mut made = None;
                let mut d = e["d"].clone();
                let nonce = self.nonce;
                e["r"] = out(|| {
                    d["sender"] = b(a.private_key().map_err(|_| ())?.secret_bytes());
                    d["nonce"] = b(nonce.to_be_bytes());
                    made = Some(built(&d).map_err(|_| ())?);
                    Ok::<_, ()>(json!(0))
                });
                self.tx = made;
                e["now"] = self.tx.as_ref().map_or(json!(0), shows);
                return;
            }
            _ => {}
        }
        let Some(tx) = &mut self.tx else { return };
        match op {
            "fl.price" => {
                e["call"] = json!("fee");
                rpc::exec(&mut self.clients, e, Some(tx));
                if let Some(f) = number(&e["r"]["v"]["v"][0][0]["fee"]) {
                    tx.set_fee(f);
                }
            }
            "fl.sign" => {
                let (mut new, old) = (None, tx.clone());
                e["r"] = outx(|| {
                    new = Some(old.sign(a.private_key().expect("key"))?);
                    Ok(())
                });
                if let Some(n) = new {
                    *tx = n;
                }
            }
            _ => {
                e["call"] = json!("broadcast");
                e["v"] = verify(tx).0;
                rpc::exec(&mut self.clients, e, Some(tx));
            }
        }
        e["now"] = shows(tx);
    }
}
