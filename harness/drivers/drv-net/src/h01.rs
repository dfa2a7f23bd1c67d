//! Requests and responses: scripts of the model played on the real network service.
use crate::world::*;
use crate::*;
use core_network::NetworkContext;
use protocol::codec::ProtocolCodec;
use protocol::tokio::{self, task::JoinHandle};
use protocol::traits::{Context, MessageHandler, Priority, Rpc, TrustFeedback};
use protocol::types::Bytes;
use protocol::{async_trait, ProtocolError, ProtocolErrorKind, ProtocolResult};
use std::collections::HashSet;
use std::path::Path;
use std::sync::{Arc, Mutex};

const CALL: &str = "/rpc_call/v1/echo";
const RESP: &str = "/rpc_resp/v1/echo";
pub const TELL: &str = "/gossip/v1/tell";

/// a number, followed by as many zeros as are wanted
#[derive(Clone, Debug)]
pub struct Num(pub u32, pub usize);
#[derive(Debug)]
pub struct Bad;
impl std::fmt::Display for Bad { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("bad") } }
impl std::error::Error for Bad {}
pub fn bad() -> ProtocolError { ProtocolError::new(ProtocolErrorKind::Network, Box::new(Bad)) }
fn num(n: u32, pad: usize) -> Vec<u8> { let mut v = n.to_be_bytes().to_vec(); v.extend((0..pad).map(|i| (i / 7) as u8)); v }
impl ProtocolCodec for Num {
    fn encode(&self) -> ProtocolResult<Bytes> { if self.0 == u32::MAX { Err(bad()) } else { Ok(num(self.0, self.1).into()) } }
    fn decode<B: AsRef<[u8]>>(b: B) -> ProtocolResult<Self> {
        let b = b.as_ref();
        if b.len() < 4 { return Err(bad()); }
        let n = u32::from_be_bytes(b[..4].try_into().unwrap());
        if num(n, b.len() - 4) != b { return Err(bad()); }
        Ok(Num(n, b.len() - 4))
    }
}
type Got = Arc<Mutex<Vec<(Context, u32)>>>;
struct Listen(Got);
#[async_trait]
impl MessageHandler for Listen {
    type Message = Num;
    async fn process(&self, cx: Context, m: Num) -> TrustFeedback { self.0.lock().unwrap().push((cx, m.0)); TrustFeedback::Neutral }
}
fn world(dir: &Path, got: &Got) -> World {
    World::new(config(dir, 1), |s| {
        s.register_endpoint_handler(CALL, Listen(got.clone())).unwrap();
        s.register_rpc_response(RESP).unwrap();
        s.register_endpoint_handler(TELL, Listen(got.clone())).unwrap();
    })
}
async fn connect(w: &mut World, sid: usize) {
    w.open(sid, &addr("8.8.8.8", 100 + sid, sid), sid, sid % 2 == 0).await;
    w.protocol(sid, TRANSMITTER).await;
}
fn cx(sid: usize) -> Context { Context::new().set_session_id(sid.into()) }
fn spawn_call(w: &World, sid: usize, v: u32, pad: usize) -> JoinHandle<ProtocolResult<Num>> {
    let h = w.handle.clone();
    tokio::spawn(async move { h.call::<Num, Num>(cx(sid), CALL, Num(v, pad), if v % 2 == 0 { Priority::Normal } else { Priority::High }).await })
}
fn body(how: &str, v: u32) -> Vec<u8> {
    let mut b = vec![0u8];
    match how {
        "ok" => b.extend(num(v, 0)),
        "big" => b.extend(num(v, 40_000)),
        "err" => { b[0] = 1; if v % 2 == 0 { b.extend(num(v, 0)) } else { b.extend(b"no \xff way") } }
        "short" => b.extend([1, 2]),
        _ => b.clear(),
    }
    b
}
struct Live {
    w: World,
    got: Got,
    calls: Vec<(Option<JoinHandle<ProtocolResult<Num>>>, u64)>,
    asks: Vec<Option<Context>>,
}
impl Live {
    /// what came of it: messages out, messages handed to the handlers, calls that ended
    async fn seen(&mut self) -> (Vec<Value>, Vec<Value>, Vec<Value>) {
        settle().await;
        let out: Vec<Value> = self.w.drain().0.into_iter().map(|s| {
            let m: NetMsg = prost::Message::decode(s.data).unwrap_or_default();
            let (root, id) = m.url.rsplit_once('/').unwrap_or(("", ""));
            let id = id.parse::<i64>().unwrap_or(-1);
            let n = |b: &[u8]| <Num as ProtocolCodec>::decode(b).map(|n| n.0 as i64).unwrap_or(-1);
            if s.proto != TRANSMITTER { return json!({"to": s.to, "kind": "odd", "id": id, "v": -1}); }
            match (root, m.content.first()) {
                (CALL, _) => json!({"to": s.to, "kind": "call", "id": id, "v": n(&m.content)}),
                (RESP, Some(0)) => json!({"to": s.to, "kind": "ok", "id": id, "v": n(&m.content[1..])}),
                (RESP, Some(1)) => json!({"to": s.to, "kind": "err", "id": id, "v": 0}),
                _ => json!({"to": s.to, "kind": "odd", "id": id, "v": -1}),
            }
        }).collect();
        let got: Vec<(Context, u32)> = std::mem::take(&mut *self.got.lock().unwrap());
        let got_j = got.iter().map(|(c, v)| json!({"s": c.session_id().map(|s| s.value() as i64).unwrap_or(-1), "v": v})).collect();
        for (c, _) in got { self.asks.push(c.rpc_id().ok().map(|_| c)) }
        let mut done = vec![];
        for (k, (h, _)) in self.calls.iter_mut().enumerate() {
            if h.as_ref().map(|h| h.is_finished()).unwrap_or(false) {
                let (r, v) = match h.take().unwrap().await {
                    Ok(Ok(n)) => ("ok", n.0),
                    Ok(Err(e)) if format!("{e:?} {e}").to_lowercase().contains("timeout") => ("late", 0),
                    Ok(Err(_)) => ("err", 0),
                    Err(_) => ("lost", 0),
                };
                done.push(json!({"k": k + 1, "r": r, "v": v}));
            }
        }
        (out, got_j, done)
    }
    async fn reply(&mut self, s: usize, id: u64, how: &str, v: u32) {
        self.w.deliver(s, TRANSMITTER, NetMsg::bytes(&format!("{RESP}/{id}"), body(how, v))).await;
    }
}
async fn play(dir: &Path, script: &[Value]) -> Vec<Value> {
    let got = Got::default();
    let mut l = Live { w: world(dir, &got), got, calls: vec![], asks: vec![] };
    for s in 1..=3 { connect(&mut l.w, s).await }
    l.w.drain();
    let mut ev = vec![];
    let mut v = 0u32;
    let mut js: Vec<usize> = vec![]; // which of the messages handed over were questions
    for o in script.iter().chain([json!({"o": "tick", "s": 7, "k": 0, "h": ""}), json!({"o": "tick", "s": 7, "k": 0, "h": ""})].iter()) {
        v += 1;
        let (s, k, h) = (o["s"].as_u64().unwrap() as usize, o["k"].as_u64().unwrap() as usize, o["h"].as_str().unwrap());
        let id = if k == 0 || k > l.calls.len() { 1_000_000 } else { l.calls[k - 1].1 };
        let name = if h == "big" { "ok" } else if h == "ok" { "ok" } else { "err" };
        let mut e = match o["o"].as_str().unwrap() {
            "call" => {
                let c = spawn_call(&l.w, s, v, if v % 5 == 0 { 3000 } else { 0 });
                l.calls.push((Some(c), u64::MAX));
                json!({"op": "call", "s": s, "v": v})
            }
            "reply" => { l.reply(s, id, h, v).await; json!({"op": "reply", "s": s, "id": id, "how": name, "v": v}) }
            "burst" => {
                let s2 = if h == "other" { s % 3 + 1 } else { s };
                let (a, b) = (json!({"s": s, "id": id, "how": "ok", "v": v}), json!({"s": s2, "id": id, "how": "ok", "v": v + 1}));
                l.reply(s, id, "ok", v).await;
                l.reply(s2, id, "ok", v + 1).await;
                v += 1;
                let mut leave = 0;
                if h == "abandon" { if let Some(c) = &l.calls[k - 1].0 { c.abort(); leave = k } }
                json!({"op": "burst", "a": a, "b": b, "leave": leave})
            }
            "wrong" => {
                let (url, calls) = match h {
                    "badid" => (format!("{RESP}/x{id}"), false),
                    "noep" => (format!("/rpc_resp/v1/else/{id}"), false),
                    "ascall" => (format!("{CALL}/{id}"), true),
                    "asgossip" => (format!("{TELL}/{id}"), true),
                    _ => (format!("rpc_resp/{id}"), false),
                };
                let data = if h == "text" { Bytes::from_static(b"not a message") } else if calls { NetMsg::bytes(&url, num(v, 0)) } else { NetMsg::bytes(&url, body("ok", v)) };
                l.w.deliver(s, TRANSMITTER, data).await;
                json!({"op": "wrong", "s": s, "h": h, "v": v, "calls": calls})
            }
            "tick" => { AHEAD.fetch_add(s as i64, SeqCst); settle_timers().await; json!({"op": "tick", "d": s}) }
            "abandon" => { if let Some(c) = l.calls[k - 1].0.take() { c.abort() } json!({"op": "abandon", "k": k}) }
            "ask" => { l.w.deliver(s, TRANSMITTER, NetMsg::bytes(&format!("{CALL}/{k}"), num(v, 0))).await; json!({"op": "ask", "s": s, "x": k, "v": v}) }
            "answer" => {
                let Some(c) = js.get(k - 1).and_then(|i| l.asks[*i].clone()) else { break };
                let hd = l.w.handle.clone();
                let m = if h == "ok" { Ok(Num(v, 0)) } else { Err(bad()) };
                let _ = hd.response::<Num>(c, RESP, m, Priority::Normal).await;
                json!({"op": "answer", "j": k, "how": h, "v": v})
            }
            x => panic!("{x}"),
        };
        let (out, got, done) = l.seen().await;
        if e["op"] == "call" { if let Some(i) = out.first().and_then(|m| m["id"].as_u64()) { l.calls.last_mut().unwrap().1 = i } }
        if e["op"] == "ask" && !l.asks.is_empty() { js.push(l.asks.len() - 1) }
        if e["op"] == "burst" && e["leave"] != 0 {
            // given up before it could end
            if let Some(d) = done.iter().find(|d| d["k"] == e["leave"] && d["r"] == "lost").cloned() {
                e["done"] = json!(done.iter().filter(|x| **x != d).collect::<Vec<_>>());
            } else { e["done"] = json!(done) }
        } else { e["done"] = json!(done) }
        e["out"] = json!(out);
        e["got"] = json!(got);
        ev.push(e);
    }
    ev
}
/// Many calls on several threads, each answered twice and by others too.
fn crowd(dir: &Path, n: usize, seed: u64) -> Value {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let got = Got::default();
    let mut w = world(dir, &got);
    let (mut ids, mut right) = (HashSet::new(), 0);
    rt.block_on(async {
        for s in 1..=3 { connect(&mut w, s).await }
        w.drain();
        let barrier = Arc::new(tokio::sync::Barrier::new(n));
        let calls: Vec<_> = (0..n).map(|i| {
            let (h, b) = (w.handle.clone(), barrier.clone());
            tokio::spawn(async move { b.wait().await; h.call::<Num, Num>(cx(i % 3 + 1), CALL, Num(i as u32, 0), Priority::Normal).await })
        }).collect();
        let mut rng = Rng::new(seed);
        let mut seen = 0;
        let t0 = std::time::Instant::now();
        while seen < n && t0.elapsed().as_secs() < 5 {
            tokio::time::sleep(std::time::Duration::from_millis(2)).await;
            let mut post = vec![];
            for m in w.drain().0 {
                let x: NetMsg = prost::Message::decode(m.data).unwrap_or_default();
                let (root, id) = x.url.rsplit_once('/').unwrap_or(("", "0"));
                let v = <Num as ProtocolCodec>::decode(&x.content).map(|n| n.0).unwrap_or(0);
                if root != CALL { continue; }
                seen += 1;
                ids.insert(id.to_string());
                let a = |v: u32| NetMsg::bytes(&format!("{RESP}/{id}"), body("ok", v));
                post.push((m.to, a(v + 10_000)));
                if rng.bool() { post.push((m.to, a(v + 10_000))) }
                post.push((m.to % 3 + 1, a(v + 20_000)));
            }
            for i in (1..post.len()).rev() { post.swap(i, rng.below(i as u64 + 1) as usize) }
            for (s, d) in post { w.deliver(s, TRANSMITTER, d).await }
        }
        for (i, c) in calls.into_iter().enumerate() {
            if let Ok(Ok(Ok(r))) = tokio::time::timeout(std::time::Duration::from_secs(5), c).await {
                if r.0 as usize == i + 10_000 { right += 1 }
            }
        }
    });
    json!({"op": "crowd", "n": n, "ids": ids.len(), "right": right})
}
/// Calls begun on all threads as fast as they can, then given up: each must have its own identifier.
fn rush(dir: &Path, n: usize) -> Value {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let got = Got::default();
    let mut w = world(dir, &got);
    rt.block_on(async { for s in 1..=3 { connect(&mut w, s).await } });
    w.drain();
    let (threads, start) = (8, std::sync::Barrier::new(8));
    std::thread::scope(|sc| for t in 0..threads {
        let (h, start) = (w.handle.clone(), &start);
        sc.spawn(move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            rt.block_on(async {
                start.wait();
                for i in 0..n {
                    let call = h.call::<Num, Num>(cx(t % 3 + 1), CALL, Num(i as u32, 0), Priority::Normal);
                    let _ = futures::FutureExt::now_or_never(call);
                }
            })
        });
    });
    let mut ids = HashSet::new();
    let sent = w.drain().0;
    for m in &sent { let x: NetMsg = prost::Message::decode(m.data.clone()).unwrap_or_default(); ids.insert(x.url); }
    json!({"op": "rush", "n": n * threads, "sent": sent.len(), "ids": ids.len()})
}
/// Whether calls that ended leave something behind: what is allocated must not grow with their number.
async fn rest(dir: &Path, how: &str) -> Value {
    let got = Got::default();
    let mut l = Live { w: world(dir, &got), got, calls: vec![], asks: vec![] };
    for s in 1..=3 { connect(&mut l.w, s).await }
    l.w.drain();
    let mut marks = vec![];
    for round in 0..3 {
        let _ = round;
        for _ in 0..150 {
            let c = spawn_call(&l.w, 1, if how == "unsent" { u32::MAX } else { 7 }, 0);
            settle().await;
            let id = l.w.drain().0.into_iter().next().and_then(|m| { let x: NetMsg = prost::Message::decode(m.data).unwrap_or_default(); x.url.rsplit_once('/').and_then(|u| u.1.parse::<u64>().ok()) });
            match how {
                "answered" => l.reply(1, id.unwrap_or(0), "ok", 3).await,
                "refused" => l.reply(1, id.unwrap_or(0), "err", 3).await,
                "late" => { AHEAD.fetch_add(11, SeqCst); settle_timers().await }
                "left" => c.abort(),
                _ => (),
            }
            settle().await;
            c.abort();
            let _ = c.await;
        }
        settle_timers().await;
        marks.push(LIVE.load(SeqCst));
    }
    let grew = marks[2] - marks[1];
    json!({"op": "rest", "how": how, "kept": grew >= 100})
}
pub fn main(cases: &str, out: &str, dir: &str) {
    let mut o = Out::create(out);
    std::fs::create_dir_all(dir).unwrap();
    let dir = Path::new(dir);
    let local = || tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    for (i, c) in read_ndjson(cases).iter().enumerate() {
        let rt = local();
        let ev = rt.block_on(play(dir, c["script"].as_array().unwrap()));
        o.trace(&format!("s{i}"), json!({}), ev);
    }
    let n = scale(6, 40);
    let ev = (0..n).map(|i| crowd(dir, 400, seed() * 1000 + i as u64)).collect();
    o.trace("crowd", json!({}), ev);
    let ev = (0..scale(3, 20)).map(|_| rush(dir, 4000)).collect();
    o.trace("rush", json!({}), ev);
    let ev = ["answered", "refused", "late", "left", "unsent"].iter().map(|h| local().block_on(rest(dir, h))).collect();
    o.trace("rest", json!({}), ev);
    o.finish();
}
