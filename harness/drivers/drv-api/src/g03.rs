//! Subscriptions over WebSocket: what each client is sent.
use crate::api::*;
use crate::*;
use core_consensus::{SyncStatus, SYNC_STATUS};
use jsonrpsee::server::Client;
use protocol::types::*;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;
use std::time::Instant;

fn state(v: &Value) -> Value {
    if *v == json!(false) { return json!([-1, 0, 0]) }
    json!([quantity(&v["startingBlock"]), quantity(&v["currentBlock"]), quantity(&v["highestBlock"])])
}
struct S { kind: String, c: Arc<Client> }
impl Api {
    fn head(&self, v: &Value) -> Value {
        let n = quantity(&v["number"]);
        let mut bad = vec![];
        if n >= 0 && n <= self.tip() {
            let h = &self.blocks[n as usize].header;
            let mut eq = |k: &str, w: Value| if v[k] != w { bad.push(k.to_string()) };
            eq("stateRoot", json!(h.state_root)); eq("transactionsRoot", json!(h.transactions_root)); eq("receiptsRoot", json!(h.receipts_root)); eq("parentHash", json!(h.prev_hash));
            eq("gasUsed", json!(h.gas_used)); eq("gasLimit", json!(h.gas_limit)); eq("logsBloom", json!(h.log_bloom)); eq("timestamp", json!(U256::from(h.timestamp))); eq("miner", json!(h.proposer));
        }
        json!({"n": n, "bad": bad})
    }
}
async fn scenario(o: &mut Out, id: &str, path: &str, g: &mut Rng, script: &[Value]) {
    *SYNC_STATUS.write() = SyncStatus::False;
    let mut a = Api::start(path).await;
    let mut subs: Vec<S> = vec![];
    // the rounds begin here
    AHEAD.fetch_add(3, SeqCst);
    protocol::tokio::time::sleep(std::time::Duration::from_millis(3)).await;
    settle().await;
    a.ev.push(json!({"op": "round", "late": false, "got": []}));
    let mut at = Instant::now();
    for s in script.iter().chain([json!({"o": "round", "k": 0})].iter()) {
        let k = s["k"].as_u64().unwrap();
        match s["o"].as_str().unwrap() {
            "grow" => for _ in 0..*g.pick(&[1, 1, 1, 2, 3, 5]) { grow(&mut a, g) },
            "sub" => {
                let kind = s["kind"].as_str().unwrap();
                let w = if kind != "logs" || g.bool() { Want::default() } else { Want::random(&a, g) };
                let mut m = serde_json::Map::new();
                if kind == "logs" { w.write(&a, g, &mut m) }
                let p = match kind { "heads" => json!(["newHeads"]), "logs" => json!(["logs", m]), "sync" => json!(["syncing"]), "odd" => g.pick(&[json!(["newPendingTransactions"]), json!([]), json!(["logs", {"address": 5}]), json!([7]), json!(["logs"])]).clone(), _ => panic!() };
                let c = a.h.subscribe(&p.to_string()).await;
                settle().await;
                let r = if c.refused.lock().is_some() { "err" } else { "ok" };
                if r == "ok" { subs.push(S { kind: kind.into(), c }) }
                a.ev.push(json!({"op": "sub", "kind": kind, "want": w.spec(), "r": r}));
            }
            "close" => {
                if subs.is_empty() { continue }
                let i = (k as usize) % subs.len();
                subs[i].c.closed.store(true, SeqCst);
                a.ev.push(json!({"op": "close", "k": i + 1}));
            }
            "sync" => {
                let (x, y, z) = (g.below(9), g.below(9), g.below(9));
                let v = if g.chance(1, 4) { *SYNC_STATUS.write() = SyncStatus::False; json!([-1, 0, 0]) } else {
                    *SYNC_STATUS.write() = SyncStatus::Syncing { start: x.into(), current: y.into(), highest: z.into() };
                    json!([x, y, z])
                };
                a.ev.push(json!({"op": "sync", "v": v}));
                let (r, v) = a.ask("eth_syncing", vec![]).await;
                a.ev.push(json!({"op": "syncing", "r": r, "v": state(&v)}));
            }
            "round" => {
                let late = at.elapsed().as_millis() > 2500;
                AHEAD.fetch_add(3, SeqCst);
                protocol::tokio::time::sleep(std::time::Duration::from_millis(3)).await;
                settle().await;
                at = Instant::now();
                let got: Vec<Value> = subs.iter().map(|s| {
                    let l: Vec<Value> = s.c.got.lock().drain(..).collect();
                    match s.kind.as_str() {
                        "heads" => json!({"heads": l.iter().map(|v| a.head(v)).collect::<Vec<_>>(), "logs": [], "sync": []}),
                        "logs" => json!({"heads": [], "logs": l.iter().map(|v| a.log(v)).collect::<Vec<_>>(), "sync": []}),
                        _ => json!({"heads": [], "logs": [], "sync": l.iter().map(state).collect::<Vec<_>>()}),
                    }
                }).collect();
                a.ev.push(json!({"op": "round", "late": late, "got": got}));
            }
            x => panic!("{x}"),
        }
    }
    a.finish(o, id);
}
pub fn main(cases: &str, out: &str, base: &str) {
    let mut o = Out::create(out);
    let mut g = Rng::new(seed());
    for (k, c) in read_ndjson(cases).iter().enumerate() {
        let s = c["script"].as_array().unwrap();
        run(scenario(&mut o, &format!("w{k}"), &format!("{base}/w{k}"), &mut g, s));
    }
    o.finish();
}
