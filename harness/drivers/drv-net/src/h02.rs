//! The node's bookkeeping about its peers: scripts of the model played on the real network service.
use crate::h01::{Num, TELL};
use crate::world::*;
use crate::*;
use protocol::tokio::{self, task::JoinHandle};
use protocol::traits::{Context, Gossip, Network, PeerTag, Priority};
use protocol::types::Bytes;
use std::path::{Path, PathBuf};
use tentacle::error::{DialerErrorKind, HandshakeErrorKind};
use tentacle::multiaddr::Multiaddr;
use tentacle::secio::error::SecioError;
use tentacle::service::*;

const BEGIN: u64 = 1_000_000;
const PEER: [usize; 8] = [1, 2, 3, 4, 1, 5, 6, 7];
pub fn addrs() -> Vec<Multiaddr> {
    let ip = ["8.8.8.1", "8.8.8.1", "8.8.9.3", "8.8.9.3", "8.9.8.5", "9.8.8.6", "2400:3200::7", "8.8.8.8"];
    let port = [101, 102, 103, 103, 105, 106, 107, 108];
    (0..8).map(|i| addr(ip[i], port[i], PEER[i])).collect()
}
fn peer_bytes(p: usize) -> Bytes { key(p).peer_id().into_bytes().into() }

struct Live { w: World, dir: PathBuf, all: Vec<Multiaddr>, now: u64, run: JoinHandle<()> }
impl Live {
    async fn new(dir: &Path, now: u64) -> Self {
        let all = addrs();
        faketime::set_millis(now * 1000);
        let mut c = config(dir, 1);
        c.max_connections = 4;
        c.inbound_conn_limit = 2;
        c.bootstraps = vec![all[5].clone()];
        let mut w = World::new(c, |_| ());
        let run = tokio::spawn(w.service.take().unwrap().run());
        settle_timers().await;
        Live { w, dir: dir.to_path_buf(), all, now, run }
    }
    async fn restart(&mut self) {
        self.w.pm.with_peer_store(|s| s.dump_to_dir(&self.dir)).unwrap();
        self.run.abort();
        let _ = (&mut self.run).await;
        *self = Live::new(&self.dir, self.now).await;
    }
    fn n(&self, a: &Multiaddr) -> usize { self.all.iter().position(|x| x == a).map(|i| i + 1).unwrap_or(0) }
    fn secs(&self, ms: u64) -> i64 { if ms % 1000 == 0 { (ms / 1000) as i64 } else { -1 } }
    /// everything there is to see
    async fn see(&mut self, mut e: Value) -> Value {
        settle().await;
        let (sent, cmds) = self.w.drain();
        let (mut off, mut dial) = (vec![], vec![]);
        for c in cmds {
            match c {
                Cmd::Disconnect(s) => off.push(s.value()),
                Cmd::Dial { addr, .. } => dial.push(self.n(&addr)),
                _ => (),
            }
        }
        let reg: Vec<Value> = self.w.pm.with_registry(|r| r.peers.iter().map(|(id, i)| {
            let p = (1..=7).find(|p| key(*p).peer_id() == *id).unwrap_or(0);
            json!({"p": p, "sid": i.session_id.value(), "a": self.n(&i.addr), "out": i.session_type.is_outbound()})
        }).collect());
        let (kept, banned, known, size) = self.w.pm.with_peer_store(|s| {
            let banned: Vec<usize> = self.all.iter().filter(|a| s.is_addr_banned(a)).map(|a| self.n(a)).collect();
            let known: Vec<Value> = s.addr_manager().addrs_iter().map(|i| json!({"a": self.n(&i.addr), "lc": self.secs(i.last_connected_at_ms), "lt": self.secs(i.last_tried_at_ms), "n": i.attempts_count})).collect();
            (s.peer_count(), banned, known, s.addr_manager().count())
        });
        e["off"] = json!(off);
        e["dial"] = json!(dial);
        e["sent"] = json!(sent.iter().map(|s| s.to).collect::<Vec<_>>());
        e["reg"] = json!(reg);
        e["count"] = json!(self.w.handle.peer_count(Context::new()).unwrap());
        e["kept"] = json!(kept);
        e["banned"] = json!(banned);
        e["known"] = json!(known);
        e["size"] = json!(size);
        e
    }
}
async fn play(dir: &Path, script: &[Value]) -> Vec<Value> {
    let mut l = Live::new(dir, BEGIN).await;
    let mut ev = vec![l.see(json!({"op": "start"})).await];
    let mut sids = 0;
    for o in script {
        let (a, n, h) = (o["a"].as_u64().unwrap() as usize, o["n"].as_u64().unwrap() as usize, o["h"].as_str().unwrap());
        // a random choice of the node may have taken it another way than the model
        let open = l.w.sessions.contains_key(&n);
        let e = match o["o"].as_str().unwrap() {
            "open" => {
                sids += 1;
                l.w.open(sids, &l.all[a - 1].clone(), PEER[a - 1], n == 1).await;
                json!({"op": "open", "a": a, "out": n == 1})
            }
            "close" if open => { l.w.close(n).await; json!({"op": "close", "sid": n}) }
            "broke" if open => {
                l.w.error(ServiceError::ProtocolError { id: n.into(), proto_id: pid(TRANSMITTER), error: std::io::Error::new(std::io::ErrorKind::InvalidData, "x") }).await;
                json!({"op": "broke", "sid": n})
            }
            "ban" => {
                l.w.handle.tag(Context::new(), peer_bytes(a), PeerTag::Ban { until: n as u64 * 1000 }).unwrap();
                json!({"op": "ban", "p": a, "d": n})
            }
            "tag" => { l.w.handle.tag(Context::new(), peer_bytes(a), PeerTag::Consensus).unwrap(); json!({"op": "cons", "h": h_of(o), "p": a, "q": 0}) }
            "untag" => { l.w.handle.untag(Context::new(), peer_bytes(a), &PeerTag::Consensus).unwrap(); json!({"op": "cons", "h": h_of(o), "p": a, "q": 0}) }
            "tags" => { l.w.handle.tag_consensus(Context::new(), vec![peer_bytes(a), peer_bytes(n)]).unwrap(); json!({"op": "cons", "h": "tags", "p": a, "q": n}) }
            "fail" => {
                let error = if h == "self" { DialerErrorKind::HandshakeError(HandshakeErrorKind::SecioError(SecioError::ConnectSelf)) } else { DialerErrorKind::IoError(std::io::ErrorKind::ConnectionRefused.into()) };
                l.w.error(ServiceError::DialerError { address: l.all[a - 1].clone(), error }).await;
                json!({"op": "fail", "a": a, "h": h})
            }
            "felt" if open => { l.w.protocol(n, FEELER).await; json!({"op": "felt", "sid": n}) }
            "hear" => { let _ = l.w.pm.with_peer_store_mut(|s| s.add_addr(l.all[a - 1].clone())); json!({"op": "hear", "a": a}) }
            "wait" => { l.now += n as u64; faketime::set_millis(l.now * 1000); json!({"op": "wait", "d": n}) }
            "round" => { l.now += 10; faketime::set_millis(l.now * 1000); AHEAD.fetch_add(10, SeqCst); settle_timers().await; json!({"op": "round"}) }
            "query" => {
                let got: Vec<Multiaddr> = l.w.pm.with_peer_store_mut(|s| match h {
                    "attempt" => s.fetch_addrs_to_attempt(n).into_iter().map(|i| i.addr).collect(),
                    "feel" => s.fetch_addrs_to_feeler(n).into_iter().map(|i| i.addr).collect(),
                    "tell" => s.fetch_random_addrs(n).into_iter().map(|i| i.addr).collect(),
                    _ => s.fetch_addr_by_peer_id(&key(PEER[a - 1]).peer_id()).into_iter().collect(),
                });
                json!({"op": "query", "h": h, "n": n, "a": a, "res": got.iter().map(|x| l.n(x)).collect::<Vec<_>>()})
            }
            "cast" => {
                let to = if a == n { vec![peer_bytes(a)] } else { vec![peer_bytes(a), peer_bytes(n)] };
                l.w.handle.multicast(Context::new(), TELL, to, Num(3, 0), if a % 2 == 0 { Priority::Normal } else { Priority::High }).await.unwrap();
                json!({"op": "cast", "p": a, "q": n})
            }
            "restart" => { l.restart().await; json!({"op": "start"}) }
            _ => continue,
        };
        ev.push(l.see(e).await);
    }
    l.run.abort();
    let _ = (&mut l.run).await;
    ev
}
fn h_of(o: &Value) -> &str { o["o"].as_str().unwrap() }
/// When as many addresses are known as may be, the useless ones make room; else some of the crowded networks do.
async fn fill(dir: &Path, how: &str, rng: &mut Rng) -> Value {
    const LIMIT: usize = 16_384;
    let mut now = BEGIN;
    let mut l = Live::new(dir, now).await;
    let a = |i: usize| addr(&format!("{}.{}.{}.{}", 20 + i / 16_384 * 3 + (if how == "apart" { i / 256 % 64 } else { i % 7 }), if how == "apart" { i % 256 } else { i / 7 % 3 }, i / 256 % 256, i % 256), 1000 + i % 7, 1 + i % 200);
    let pm = l.w.pm.clone();
    let count = || pm.with_peer_store(|s| s.addr_manager().count());
    let has = |x: &Multiaddr| pm.with_peer_store(|s| s.addr_manager().get(x).is_some());
    let all: Vec<Multiaddr> = (0..LIMIT).map(a).collect();
    for x in &all { let _ = pm.with_peer_store_mut(|s| s.add_addr(x.clone())); }
    let mut ok = count() == LIMIT;
    let dead: Vec<usize> = if how == "dead" { (0..50).map(|_| rng.below(LIMIT as u64) as usize).collect() } else { vec![] };
    for _ in 0..3 { for d in &dead { pm.with_peer_store_mut(|s| s.mut_addr_manager().get_mut(&all[*d]).unwrap().mark_tried(now * 1000)) } }
    now += 100;
    faketime::set_millis(now * 1000);
    let new = addr("7.7.7.7", 77, 7);
    let added = pm.with_peer_store_mut(|s| s.add_addr(new.clone()).is_ok());
    let gone: Vec<usize> = (0..LIMIT).filter(|i| !has(&all[*i])).collect();
    ok &= match how {
        // every network holds few: nobody makes room
        "apart" => !added && !has(&new) && gone.is_empty(),
        "dead" => added && has(&new) && gone.iter().all(|i| dead.contains(i)) && dead.iter().all(|i| gone.contains(i)),
        _ => added && has(&new) && !gone.is_empty() && gone.len() < LIMIT / 2,
    };
    ok &= count() == LIMIT - gone.len() + added as usize && count() <= LIMIT;
    // what is known again after it made room is found
    let back: Vec<usize> = gone.iter().take(5).copied().collect();
    for i in &back { ok &= pm.with_peer_store_mut(|s| s.add_addr(all[*i].clone()).is_ok()) && has(&all[*i]) }
    l.run.abort();
    l.see(json!({"op": "fill", "how": how, "ok": ok})).await;
    json!({"op": "fill", "how": how, "ok": ok})
}
pub fn main(cases: &str, out: &str, dir: &str) {
    let mut o = Out::create(out);
    std::fs::create_dir_all(dir).unwrap();
    let local = || tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    for (i, c) in read_ndjson(cases).iter().enumerate() {
        let d = Path::new(dir).join(format!("{i}"));
        std::fs::create_dir_all(&d).unwrap();
        let ev = local().block_on(play(&d, c["script"].as_array().unwrap()));
        o.trace(&format!("s{i}"), json!({}), ev);
        let _ = std::fs::remove_dir_all(&d);
    }
    let mut rng = Rng::new(seed());
    let ev = ["apart", "dead", "crowded"].iter().map(|h| {
        let d = Path::new(dir).join(h);
        std::fs::create_dir_all(&d).unwrap();
        local().block_on(fill(&d, h, &mut rng))
    }).collect();
    o.trace("fill", json!({}), ev);
    o.finish();
}
