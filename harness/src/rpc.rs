//! RPC calls against a node played by a local server that gives a prescribed answer.
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::collections::HashMap;
use std::sync::Mutex;
use std::time::Duration;

use serde_json::{json, Value};
use stacks_rs::rpc::*;
use stacks_rs::transaction::Transaction;

use crate::exec::{args, make, out};
use crate::value::*;

struct Req {
    line: String,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
}

fn read(s: &mut TcpStream) -> Option<Req> {
    s.set_read_timeout(Some(Duration::from_secs(3))).ok()?;
    let mut buf = vec![];
    let mut chunk = [0; 4096];
    let head = loop {
        if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break i;
        }
        let n = s.read(&mut chunk).ok()?;
        if n == 0 {
            return None;
        }
        buf.extend_from_slice(&chunk[..n]);
    };
    let text = String::from_utf8_lossy(&buf[..head]).to_string();
    let mut lines = text.split("\r\n");
    let line = lines.next()?.to_string();
    let headers: Vec<(String, String)> = lines
        .filter_map(|l| l.split_once(':').map(|(k, v)| (k.trim().to_ascii_lowercase(), v.trim().to_string())))
        .collect();
    let get = |k: &str| headers.iter().find(|h| h.0 == k).map(|h| h.1.clone());
    let mut body = buf[head + 4..].to_vec();
    if get("transfer-encoding").map_or(false, |v| v.eq_ignore_ascii_case("chunked")) {
        while !body.ends_with(b"0\r\n\r\n") {
            let n = s.read(&mut chunk).ok()?;
            if n == 0 {
                break;
            }
            body.extend_from_slice(&chunk[..n]);
        }
        let (mut rest, mut plain) = (&body[..], vec![]);
        while let Some(i) = rest.windows(2).position(|w| w == b"\r\n") {
            let n = usize::from_str_radix(std::str::from_utf8(&rest[..i]).ok()?.split(';').next()?.trim(), 16).ok()?;
            if n == 0 {
                break;
            }
            plain.extend_from_slice(rest.get(i + 2..i + 2 + n)?);
            rest = rest.get(i + 4 + n..)?;
        }
        body = plain;
    } else {
        let len = get("content-length").and_then(|v| v.parse::<usize>().ok()).unwrap_or(0);
        while body.len() < len {
            let n = s.read(&mut chunk).ok()?;
            if n == 0 {
                break;
            }
            body.extend_from_slice(&chunk[..n]);
        }
    }
    Some(Req { line, headers, body })
}

fn listen() -> TcpListener {
    TcpListener::bind("127.0.0.1:0").unwrap_or_else(|_| std::process::exit(2))
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let (mut out, mut i) = (vec![], 0);
    while i < s.len() {
        let hex = s.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
        match (s[i], hex) {
            (b'%', Some(x)) => {
                out.push(x);
                i += 3;
            }
            (c, _) => {
                out.push(c);
                i += 1;
            }
        }
    }
    out
}

/// What a node sees of a request.
fn describe(r: &Req, host: &str) -> Value {
    let mut p = r.line.split(' ');
    let (m, path) = (p.next().unwrap_or(""), p.next().unwrap_or(""));
    let path = path.strip_prefix(host).unwrap_or(path);
    let ct = r.headers.iter().find(|h| h.0 == "content-type").map_or("", |h| h.1.as_str());
    let ct = ct.split(';').next().unwrap_or("").trim().to_ascii_lowercase();
    let strs = |v: &Value| -> Option<Value> {
        Some(Value::Array(v.as_array()?.iter().map(|x| x.as_str().map(text)).collect::<Option<Vec<_>>>()?))
    };
    let parsed = || -> Option<Value> {
        if r.body.is_empty() {
            return Some(json!({"t": "none"}));
        }
        if ct == "application/octet-stream" {
            return Some(json!({"t": "bytes", "b": b(&r.body)}));
        }
        if ct != "application/json" {
            return None;
        }
        let v: Value = serde_json::from_slice(&r.body).ok()?;
        let o = v.as_object()?;
        if o.len() != 2 {
            return None;
        }
        if let Some(p) = o.get("transaction_payload") {
            return Some(json!({"t": "fee", "payload": text(p.as_str()?), "len": o.get("estimated_len")?.as_u64()?}));
        }
        Some(json!({"t": "ro", "sender": text(o.get("sender")?.as_str()?), "args": strs(o.get("arguments")?)?}))
    };
    let body = parsed().unwrap_or_else(|| json!({"t": "other", "b": b(&r.body), "ct": text(&ct)}));
    // the path as a server reads it: its segments, with percent-encoding undone
    let (path, query) = path.split_once('?').map_or((path, json!([])), |(p, q)| (p, json!([text(q)])));
    let segs: Value = path.split('/').skip(1).map(|s| b(unescape(s.as_bytes()))).collect();
    json!({"m": m, "path": segs, "query": query, "body": body})
}

fn render(ms: &Value) -> Vec<u8> {
    let s = |v: &Value| serde_json::to_string(&string(v)).unwrap();
    let mut parts = vec![];
    for m in items(ms) {
        let v = match m["t"].as_str().unwrap() {
            "str" => s(&m["v"]),
            "num" => string(&m["v"]),
            "null" => "null".to_string(),
            "bool" => m["v"].to_string(),
            _ => {
                let es: Vec<_> = items(&m["v"])
                    .iter()
                    .map(|e| {
                        // an empty text stands for a member that is not there
                        let has = |k: &str, v: &Value| (!string(v).is_empty()).then(|| format!("\"{k}\":{}", string(v)));
                        let ms: Vec<String> = [has("fee", &e["fee"]), has("fee_rate", &e["rate"])].into_iter().flatten().collect();
                        format!("{{{}}}", ms.join(","))
                    })
                    .collect();
                format!("[{}]", es.join(","))
            }
        };
        parts.push(format!("{}:{}", serde_json::to_string(m["k"].as_str().unwrap()).unwrap(), v));
    }
    format!("{{{}}}", parts.join(",")).into_bytes()
}

fn answer(s: &mut TcpStream, a: &Value, body: &[u8]) {
    let status = a["status"].as_u64().unwrap();
    let ct = if a["json"] == true { "application/json" } else { "text/plain" };
    let head = |len: usize| format!("HTTP/1.1 {status} X\r\nContent-Type: {ct}\r\nContent-Length: {len}\r\nConnection: close\r\n\r\n");
    let _ = match a["fault"].as_str().unwrap() {
        "close" => Ok(()),
        "garbage" => s.write_all(b"\x00\x01 this is no answer\r\n\r\n"),
        "cut" => s.write_all(head(body.len() + 10).as_bytes()).and_then(|()| s.write_all(&body[..body.len() / 2])),
        // how the body is framed and sent makes no difference
        _ => match a["via"].as_str().unwrap_or("") {
            "chunked" => {
                let mut out = format!("HTTP/1.1 {status} X\r\ncontent-type: {ct}; charset=utf-8\r\ntransfer-encoding: chunked\r\nConnection: close\r\n\r\n").into_bytes();
                for part in body.chunks(11) {
                    out.extend_from_slice(format!("{:x}\r\n", part.len()).as_bytes());
                    out.extend_from_slice(part);
                    out.extend_from_slice(b"\r\n");
                }
                out.extend_from_slice(b"0\r\n\r\n");
                s.write_all(&out)
            }
            "eof" => s.write_all(format!("HTTP/1.1 {status} X\r\nConnection: close\r\n\r\n").as_bytes()).and_then(|()| s.write_all(body)),
            "split" => s.set_nodelay(true).and_then(|()| s.write_all(head(body.len()).as_bytes())).and_then(|()| {
                let (x, y) = body.split_at(body.len() / 2);
                s.write_all(x)?;
                std::thread::sleep(Duration::from_millis(1));
                s.write_all(y)
            }),
            _ => s.write_all(head(body.len()).as_bytes()).and_then(|()| s.write_all(body)),
        },
    };
    let _ = s.flush();
}

fn own(e: &Value, tx: Option<&Transaction>) -> Transaction {
    tx.cloned().unwrap_or_else(|| make(&e["d"]))
}

/// The answer after it was stored as JSON and read again, if the caller does that.
fn kept<T: serde::Serialize + serde::de::DeserializeOwned + Clone>(e: &Value, x: T) -> T {
    match e["store"].as_str() {
        Some("text") => serde_json::from_str(&serde_json::to_string(&x).unwrap()).unwrap(),
        Some("value") => serde_json::from_value(serde_json::to_value(&x).unwrap()).unwrap(),
        Some("clone") => x.clone(),
        _ => x,
    }
}

fn call(e: &Value, node: &StacksRPC, tx: Option<&Transaction>) -> Result<Value, stacks_rs::rpc::Error> {
    let n = |x: u64| text(&x.to_string());
    Ok(match e["call"].as_str().unwrap() {
        "info" => {
            let i = kept(e, node.info()?);
            json!({"as": "ok", "v": [n(i.peer_version), text(&i.pox_consensus), n(i.burn_block_height),
                text(&i.stable_pox_consensus), n(i.stable_burn_block_height), text(&i.server_version),
                n(i.network_id.into()), n(i.parent_network_id.into()), n(i.stacks_tip_height), text(&i.stacks_tip),
                text(&i.stacks_tip_consensus_hash), text(&i.genesis_chainstate_hash)]})
        }
        "account" => {
            let i = kept(e, node.address(string(&e["addr"]))?);
            json!({"as": "ok", "v": [text(&i.balance), text(&i.locked), n(i.unlock_height), n(i.nonce),
                text(&i.balance_proof), text(&i.nonce_proof)]})
        }
        "fee" => match kept(e, node.estimate_fee(&own(e, tx))?) {
            EstimateFeeResponse::Ok(o) => {
                let es: Vec<_> = o.estimations.iter()
                    .map(|x| json!({"fee": n(x.fee), "rate": text(&format!("{:?}", x.fee_rate))})).collect();
                json!({"as": "ok", "v": [es]})
            }
            EstimateFeeResponse::Err(s) => json!({"as": "err", "v": [text(&s)]}),
        },
        "broadcast" => {
            let r = kept(e, node.broadcast(&own(e, tx))?);
            let show = text(&r.to_string());
            match r {
                BroadcastResponse::Ok(s) => json!({"as": "ok", "v": [text(&s), show]}),
                BroadcastResponse::Err(x) => json!({"as": "err", "v": [text(&x.error), text(&x.reason), text(&x.txid), show]}),
            }
        }
        _ => match kept(e, node.read_only(&string(&e["addr"]), &string(&e["contract"]), &string(&e["fn"]), args(&e["args"]), &string(&e["sender"]))?) {
            ReadOnlyResponse::Ok(o) => json!({"as": "ok", "v": [o.okay, text(&o.result)]}),
            ReadOnlyResponse::Err(o) => json!({"as": "err", "v": [o.okay, text(&o.cause)]}),
        },
    })
}

/// A node: a server for the life of the process, answering what it is told to.
struct Node {
    host: String,
    now: Mutex<(Value, Vec<u8>)>,
    sent: Mutex<Vec<Value>>,
}

/// The nodes that no call is talking to. Calls made one after another all go to the same one.
static IDLE: Mutex<Vec<&'static Node>> = Mutex::new(vec![]);

fn node() -> &'static Node {
    if let Some(n) = IDLE.lock().unwrap().pop() {
        return n;
    }
    let server = listen();
    let host = format!("http://{}", server.local_addr().unwrap());
    let me: &'static Node = Box::leak(Box::new(Node { host, now: Mutex::default(), sent: Mutex::default() }));
    std::thread::spawn(move || {
        for s in server.incoming() {
            let Ok(mut s) = s else { continue };
            let r = read(&mut s);
            let (ans, body) = me.now.lock().unwrap().clone();
            if let Some(r) = r {
                me.sent.lock().unwrap().push(describe(&r, &me.host));
                answer(&mut s, &ans, &body);
            } else {
                me.sent.lock().unwrap().push(json!({"m": "broken"}));
            }
        }
    });
    me
}

/// The clients of a session, by the URL they were made with.
pub type Clients = HashMap<String, StacksRPC>;

/// Makes the call, about `tx` if it is given.
pub fn exec(clients: &mut Clients, e: &mut Value, tx: Option<&Transaction>) {
    let ans = e["ans"].clone();
    let body = if ans["json"] == true { render(&ans["ms"]) } else { bytes(&ans["raw"]) };
    e["ans"]["raw"] = b(&body);
    let node = node();
    let host = if ans["fault"] == "refuse" {
        // a port nobody listens at
        format!("http://{}", listen().local_addr().unwrap())
    } else {
        node.host.clone()
    };
    *node.now.lock().unwrap() = (ans, body);
    node.sent.lock().unwrap().clear();
    let url = format!("{host}{}", string(&e["base"]));
    let client = clients.entry(url.clone()).or_insert_with(|| StacksRPC::new(url));
    let copy = client.clone();
    let client = if e["copy"] == true { &copy } else { client };
    e["r"] = out(|| call(e, client, tx));
    e["sent"] = Value::Array(node.sent.lock().unwrap().clone());
    IDLE.lock().unwrap().push(node);
}
