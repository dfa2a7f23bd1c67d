//! Filters: clients that make, poll, lose and take them back.
use crate::api::*;
use crate::*;
use protocol::types::*;
use std::sync::atomic::Ordering::SeqCst;
use std::time::Instant;

struct F { ids: Vec<U256>, start: Instant }
impl F {
    fn now(&self) -> i64 { self.start.elapsed().as_millis() as i64 }
    fn id(&self, k: u64, g: &mut Rng) -> (usize, U256) {
        // one that was never given: small, large, or one off
        if k == 0 || k as usize > self.ids.len() {
            let near = self.ids.last().map(|x| x.overflowing_add(U256::one()).0).unwrap_or_default();
            return (0, *g.pick(&[U256::zero(), U256::one(), U256::from(u64::MAX), U256::MAX, U256::from(u64::MAX) + 1, near]));
        }
        (k as usize, self.ids[k as usize - 1])
    }
}
async fn poll(a: &Api, f: &F, m: &'static str, k: usize, id: U256) -> Value {
    let t0 = f.now();
    let (r, v) = a.ask(m, vec![json!(id)]).await;
    let t1 = f.now();
    let list = v.as_array().cloned().unwrap_or_default();
    let hashes = !list.is_empty() && list[0].is_string();
    let blocks: Vec<i64> = if hashes { list.iter().map(|h| a.hash_id(h)).collect() } else { vec![] };
    let logs = if r == "ok" && !hashes { a.logs(&v) } else { vec![] };
    json!({"op": "poll", "m": m, "f": k, "r": r, "logs": logs, "blocks": blocks, "t": [t0, t1]})
}
async fn lose(a: &Api, m: &str, p: Vec<Value>) {
    let h = a.h.clone();
    {
        let mut fut = Box::pin(h.call(m, p));
        let _ = futures::poll!(&mut fut);
    }
    settle().await;
}
async fn scenario(o: &mut Out, id: &str, path: &str, g: &mut Rng, script: &[Value]) {
    let mut a = Api::start(path).await;
    let mut f = F { ids: vec![], start: Instant::now() };
    // something to call
    for _ in 0..2 { grow(&mut a, g) }
    while a.made.is_empty() { grow(&mut a, g) }
    for s in script {
        let k = s["k"].as_u64().unwrap();
        let n = f.ids.len() as u64;
        let at = |x: &Value| -> At {
            let v = x["n"].as_i64().unwrap();
            let v = if x["k"] == "back" { (a.tip() - v).max(0) } else { v };
            match x["t"].as_str().unwrap() { "num" => At("num", v), "numobj" => At("numobj", v), "hash" => At("hash", v), "none" => At("none", 0), "latest" => At("latest", 0), "pending" => At("pending", 0), _ => At("earliest", 0) }
        };
        match s["o"].as_str().unwrap() {
            "grow" => for _ in 0..*g.pick(&[1, 1, 1, 2, 3, 5]) { grow(&mut a, g) },
            "newL" => {
                let (from, to) = (at(&s["from"]), at(&s["to"]));
                let w = if g.chance(1, 3) { Want::default() } else { Want::random(&a, g) };
                let mut m = serde_json::Map::new();
                if from.0 != "none" || g.bool() { m.insert("fromBlock".into(), a.at(&from)); }
                if to.0 != "none" || g.bool() { m.insert("toBlock".into(), a.at(&to)); }
                w.write(&a, g, &mut m);
                let t0 = f.now();
                let (r, v) = a.ask("eth_newFilter", vec![Value::Object(m)]).await;
                if r == "ok" { f.ids.push(serde_json::from_value(v).unwrap()) }
                let e = json!({"op": "newL", "from": from.spec(), "to": to.spec(), "want": w.spec(), "r": r, "t": [t0, f.now()]});
                a.ev.push(e);
            }
            "newB" => {
                let t0 = f.now();
                let (r, v) = a.ask("eth_newBlockFilter", vec![]).await;
                if r == "ok" { f.ids.push(serde_json::from_value(v).unwrap()) }
                a.ev.push(json!({"op": "newB", "r": r, "t": [t0, f.now()]}));
            }
            "poll" | "getlogs" => {
                let (k, id) = f.id(if n == 0 { 0 } else { (k - 1) % n + 1 }, g);
                let e = poll(&a, &f, if s["o"] == "poll" { "eth_getFilterChanges" } else { "eth_getFilterLogs" }, k, id).await;
                a.ev.push(e);
            }
            "both" => {
                let (k, id) = f.id(if n == 0 { 0 } else { (k - 1) % n + 1 }, g);
                let (x, y) = futures::join!(poll(&a, &f, "eth_getFilterChanges", k, id), poll(&a, &f, "eth_getFilterLogs", k, id));
                a.ev.push(json!({"op": "both", "a": x, "b": y}));
            }
            "drop" => {
                let (k, id) = f.id(if n == 0 { 0 } else { (k - 1) % n + 1 }, g);
                let t0 = f.now();
                let (r, v) = a.ask("eth_uninstallFilter", vec![json!(id)]).await;
                a.ev.push(json!({"op": "drop", "f": k, "r": r, "was": v == json!(true), "t": [t0, f.now()]}));
            }
            "lostpoll" | "lostdrop" => {
                let (k, id) = f.id(if n == 0 { 0 } else { (k - 1) % n + 1 }, g);
                let m = if s["o"] == "lostpoll" { *g.pick(&["eth_getFilterChanges", "eth_getFilterLogs"]) } else { "eth_uninstallFilter" };
                let t0 = f.now();
                lose(&a, m, vec![json!(id)]).await;
                a.ev.push(json!({"op": "lost", "f": k, "m": if m == "eth_uninstallFilter" { "drop" } else { "poll" }, "t": [t0, f.now()]}));
            }
            "lostnew" => {
                if g.bool() { lose(&a, "eth_newBlockFilter", vec![]).await } else { lose(&a, "eth_newFilter", vec![json!({})]).await }
                a.ev.push(json!({"op": "lost", "f": 0, "m": "new", "t": [0, 0]}));
            }
            "unknown" => {
                let (k, id) = f.id(0, g);
                let e = if g.bool() { poll(&a, &f, "eth_getFilterChanges", k, id).await } else {
                    let t0 = f.now();
                    let (r, v) = a.ask("eth_uninstallFilter", vec![json!(id)]).await;
                    json!({"op": "drop", "f": k, "r": r, "was": v == json!(true), "t": [t0, f.now()]})
                };
                a.ev.push(e);
            }
            "wait" => {
                // time goes by, also for what only happens now and then
                for _ in 0..s["k"].as_i64().unwrap() { AHEAD.fetch_add(1, SeqCst); }
                protocol::tokio::time::sleep(std::time::Duration::from_millis(3)).await;
                settle().await;
            }
            x => panic!("{x}"),
        }
    }
    // what is left to tell
    for k in 1..=f.ids.len() as u64 {
        let (k, id) = f.id(k, g);
        let e = poll(&a, &f, "eth_getFilterChanges", k, id).await;
        a.ev.push(e);
    }
    a.finish(o, id);
}
pub fn main(cases: &str, out: &str, base: &str) {
    let mut o = Out::create(out);
    let mut g = Rng::new(seed());
    for (k, c) in read_ndjson(cases).iter().enumerate() {
        let s = c["script"].as_array().unwrap();
        run(scenario(&mut o, &format!("f{k}"), &format!("{base}/f{k}"), &mut g, s));
    }
    o.finish();
}
