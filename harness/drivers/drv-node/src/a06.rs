//! The write-ahead logs of consensus: histories of saves, loads and prunings with stops at any file operation.
use crate::crash::*;
use crate::*;
use core_consensus::{ConsensusWal, SignedTxsWAL};
use protocol::traits::Context;
use std::collections::HashMap;
use std::sync::atomic::Ordering::SeqCst;

struct Txs {
    all: Vec<SignedTransaction>,
    ids: HashMap<Hash, u64>,
}
fn pool(r: &mut Rng, n: usize) -> Txs {
    let mut t = Txs { all: vec![], ids: HashMap::new() };
    for i in 0..n {
        let raw = UnsignedTransaction::Legacy(LegacyTransaction { nonce: (i as u64).into(), gas_price: 7u64.into(), gas_limit: 21000u64.into(), action: TransactionAction::Create, value: r.below(99).into(), data: { let n = r.below(80) as usize; r.bytes(n).into() } });
        let x = sign(raw, 5, r.range(1, 5) as u8);
        t.ids.insert(x.transaction.hash, i as u64 + 1);
        t.all.push(x);
    }
    t
}
impl Txs {
    fn id(&self, x: &SignedTransaction) -> u64 {
        match self.ids.get(&x.transaction.hash) {
            Some(i) if self.all[*i as usize - 1] == *x => *i,
            _ => 9999,
        }
    }
    fn ids(&self, r: Result<Vec<SignedTransaction>, String>) -> Value {
        r.map(|v| json!(v.iter().map(|x| self.id(x)).collect::<Vec<_>>())).unwrap_or(json!([-1]))
    }
}
fn plain<T>(r: Result<Result<T, protocol::ProtocolError>, String>) -> Result<T, String> {
    r.and_then(|x| x.map_err(|e| { if std::env::var("LOUD").is_ok() { eprintln!("{e}") } e.to_string() }))
}
fn yes<T>(r: Result<Result<T, protocol::ProtocolError>, String>) -> u64 {
    plain(r).is_ok() as u64
}

/// proposals whose identifiers differ anywhere, also only in the middle
fn hash(i: u64) -> Hash {
    let mut h = Hasher::digest([9u8]);
    match i {
        0 => {}
        1 => h.0[31] ^= 1,
        2 => h.0[0] ^= 1,
        3 => h.0[15] ^= 1,
        4 => h.0[2] ^= 0x80,
        5 => h.0[29] ^= 3,
        _ => h = Hasher::digest(i.to_be_bytes()),
    }
    h
}

fn full(o: &mut Out, id: &str, r: &mut Rng, t: &Txs, base: &str) {
    let dir = format!("{base}/{id}");
    let mut w = SignedTxsWAL::new(&dir);
    let mut ev = vec![];
    let numbers = [0u64, 1, 2, 9, 10, 11, u64::MAX];
    let mut known: HashMap<(u64, u64), Vec<u64>> = HashMap::new();
    for _ in 0..r.range(4, 14) {
        let ni = r.below(numbers.len() as u64);
        let (n, h) = (numbers[ni as usize], r.below(7));
        // the same proposal always has the same transactions
        let xs = known.entry((ni, h)).or_insert_with(|| {
            let k = r.below(5);
            let mut v: Vec<u64> = vec![];
            while (v.len() as u64) < k { let x = r.range(1, t.all.len() as u64); if !v.contains(&x) { v.push(x) } }
            v
        }).clone();
        let list: Vec<SignedTransaction> = xs.iter().map(|i| t.all[*i as usize - 1].clone()).collect();
        match r.below(10) {
            0..=3 => {
                let out = yes(guard(|| w.save(n, hash(h), list)));
                ev.push(json!({"op": "save", "n": ni, "h": h, "xs": xs, "out": out}));
            }
            4 | 5 => {
                let end = child(r.below(5) as i64, *r.pick(&[0, 0, 1, 128, 200, 255]), || { w.save(n, hash(h), list).unwrap(); vec![1] });
                ev.push(match end {
                    Ended::Done(d) => json!({"op": "save", "n": ni, "h": h, "xs": xs, "out": (d == [1]) as u64}),
                    _ => json!({"op": "crash_save", "n": ni, "h": h, "xs": xs}),
                });
            }
            6 => {
                let out = yes(guard(|| w.remove(n)));
                ev.push(json!({"op": "remove", "n": ni, "out": out}));
            }
            7 => {
                let end = child(r.below(6) as i64, 0, || { w.remove(n).unwrap(); vec![1] });
                ev.push(match end {
                    Ended::Done(d) => json!({"op": "remove", "n": ni, "out": (d == [1]) as u64}),
                    _ => json!({"op": "crash_remove", "n": ni}),
                });
            }
            8 if r.chance(1, 3) => ev.push(json!({"op": "remove_all", "out": yes(guard(|| w.remove_all()))})),
            _ => w = SignedTxsWAL::new(&dir),
        }
        // what is there now
        let look: Vec<(u64, u64)> = if r.chance(1, 3) { (0..7).flat_map(|a| (0..7).map(move |b| (a, b))).collect() } else { vec![(ni, h), (ni, r.below(7)), (r.below(7), h)] };
        for (a, b) in look {
            ev.push(json!({"op": "load", "n": a, "h": b, "out": t.ids(plain(guard(|| w.load(numbers[a as usize], hash(b)))))}));
        }
        ev.push(json!({"op": "all", "n": ni, "out": guard(|| w.load_by_number(n)).map(|v| json!(v.iter().map(|x| t.id(x)).collect::<Vec<_>>())).unwrap_or(json!([-1]))}));
        let mut av = plain(guard(|| w.available_number())).map(|v| v.iter().map(|x| numbers.iter().position(|y| y == x).map(|i| i as i64).unwrap_or(99)).collect()).unwrap_or(vec![-1]);
        av.sort();
        ev.push(json!({"op": "numbers", "out": av}));
    }
    o.trace(id, json!({"kind": "txs"}), ev);
    let _ = std::fs::remove_dir_all(&dir);
}

fn record(i: u64) -> bytes::Bytes {
    let n = [0usize, 1, 31, 32, 33, 200, 5000][i as usize % 7];
    let mut v: Vec<u8> = i.to_be_bytes().to_vec();
    v.resize(n + 8, i as u8);
    v.into()
}
fn vload(w: &ConsensusWal) -> Value {
    match child(-1, 0, || w.load_overlord_wal(Context::new()).map(|b| b.to_vec()).unwrap_or_default()) {
        Ended::Done(b) if b.is_empty() => json!(0),
        Ended::Done(b) if b.len() >= 8 => { let i = u64::from_be_bytes(b[..8].try_into().unwrap()); if i < 1000 && record(i) == b { json!(i) } else { json!(9999) } }
        Ended::Done(_) => json!(9998),
        _ => json!(9997), // it did not come back
    }
}
fn votes(o: &mut Out, id: &str, steps: &[(String, i64)], r: &mut Rng, base: &str, hangs: &mut u32) {
    let dir = format!("{base}/{id}");
    let mut w = ConsensusWal::new(&dir);
    CLOCK.store(1_700_000_000_000, SeqCst);
    let mut ev = vec![json!({"op": "vload", "out": vload(&w)})];
    let mut v = 0u64;
    for (op, a) in steps {
        match op.as_str() {
            "vote" => {
                v += 1;
                let out = yes(guard(|| w.update_overlord_wal(Context::new(), record(v))));
                ev.push(json!({"op": "vote", "v": v, "out": out}));
            }
            "crash" => {
                v += 1;
                // before the file, while it is written, or while the older ones are cleaned
                let (k, part) = match a { 1 => (0, 0), 2 => (1, *r.pick(&[0, 1, 20, 128, 255])), _ => (r.range(2, 4) as i64, 0) };
                let end = child(k, part, || { w.update_overlord_wal(Context::new(), record(v)).unwrap(); vec![1] });
                TICKS.fetch_add(40, SeqCst);
                ev.push(match end {
                    Ended::Done(d) => json!({"op": "vote", "v": v, "out": (d == [1]) as u64}),
                    _ => json!({"op": "crash_vote", "v": v}),
                });
            }
            "stray" => {
                let t = CLOCK.load(SeqCst) as u64 + TICKS.load(SeqCst) as u64 / 10;
                let name = if *a < 4 { t - 5_000_000 - r.below(1000) } else { t + 5_000_000 + r.below(1000) };
                // a record cut short, nothing at all, or something else
                let mut b = [Hasher::digest(record(500)).0.to_vec(), record(500).to_vec()].concat();
                match r.below(5) { 0 => b.clear(), 1 => b.truncate(31), 2 => b.truncate(33), 3 => { let i = r.below(b.len() as u64) as usize; b[i] ^= 4 }, _ => b.truncate(b.len() - 1) }
                std::fs::write(std::path::Path::new(&dir).join(name.to_string()), b).unwrap();
                ev.push(json!({"op": "stray"}));
            }
            "clock" => {
                CLOCK.fetch_add(*a * *r.pick(&[1i64, 1000, 10_000_000]), SeqCst);
                ev.push(json!({"op": "clock"}));
            }
            "clear" => {
                ev.push(json!({"op": "vclear", "out": yes(guard(|| w.clear()))}));
            }
            x => panic!("{x}"),
        }
        if r.bool() { w = ConsensusWal::new(&dir) }
        let l = vload(&w);
        ev.push(json!({"op": "vload", "out": l}));
        if l == json!(9997) {
            *hangs += 1;
            break;
        }
    }
    CLOCK.store(-1, SeqCst);
    o.trace(id, json!({"kind": "votes"}), ev);
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn main(cases: &str, out: &str, base: &str) {
    let mut o = Out::create(out);
    let mut r = Rng::new(seed());
    let mut hangs = 0;
    for (i, c) in read_ndjson(cases).iter().enumerate() {
        if hangs > 3 { break }
        let mut steps: Vec<(String, i64)> = c.as_array().unwrap().iter().map(|e| (e["op"].as_str().unwrap().to_string(), e["a"].as_i64().unwrap())).collect();
        if r.chance(1, 6) { let at = r.below(steps.len() as u64 + 1) as usize; steps.insert(at, ("clear".into(), 0)) }
        votes(&mut o, &format!("votes{i}"), &steps, &mut r, base, &mut hangs);
    }
    for i in 0..scale(60, 1500) {
        if hangs > 3 { break }
        let steps: Vec<(String, i64)> = (0..r.range(3, 20)).map(|_| match r.below(9) {
            0..=2 => ("vote".to_string(), 0), 3..=5 => ("crash".into(), r.range(1, 3) as i64), 6 => ("stray".into(), *r.pick(&[1, 9])), 7 => ("clock".into(), *r.pick(&[-2, 1])), _ => if r.chance(1, 3) { ("clear".into(), 0) } else { ("vote".into(), 0) },
        }).collect();
        votes(&mut o, &format!("long{i}"), &steps, &mut r, base, &mut hangs);
    }
    let t = pool(&mut r, 14);
    for i in 0..scale(250, 4000) {
        full(&mut o, &format!("txs{i}"), &mut r, &t, base);
    }
    o.finish();
}
