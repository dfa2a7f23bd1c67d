//! Keys and signatures (Keys).
use crate::*;
use common_crypto::*;
use protocol::types::{
    public_to_address, Hash, LegacyTransaction, SignatureComponents, SignedTransaction, TransactionAction, UnsignedTransaction,
    UnverifiedTransaction,
};
use std::collections::BTreeMap;

const ORDER: &str = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";

fn negate(s: &[u8]) -> Vec<u8> {
    use ethers_core::types::U256;
    let n = U256::from_big_endian(&unhex(ORDER)) - U256::from_big_endian(s);
    let mut b = [0u8; 32];
    n.to_big_endian(&mut b);
    b.to_vec()
}
/// None where the alteration makes no sense for the scheme
fn alter(rng: &mut Rng, scheme: &str, sig: &[u8], a: &str) -> Option<Vec<u8>> {
    let mut v = sig.to_vec();
    let n = v.len();
    match a {
        "none" => {}
        "flipfirst" => v[0] ^= 1,
        "fliplast" => v[if scheme == "recoverable" { 63 } else { n - 1 }] ^= 1,
        "flipmid" => v[n / 2] ^= 1 << rng.below(8),
        "fliprs" => {
            let i = rng.below(if scheme == "recoverable" { 64 } else { n as u64 }) as usize;
            v[i] ^= 1 << rng.below(8)
        }
        "zero" => v = vec![0; n],
        "ones" => v = vec![255; n],
        "cut" | "longer" | "empty" if scheme == "recoverable" => return None,
        "cut" => v.truncate(n - 1),
        "longer" => v.push(0),
        "empty" => v.clear(),
        "swap" => v.rotate_left(32),
        _ if scheme == "bls" => return None,
        "negate" | "negflip" => {
            let s = negate(&v[32..64]);
            v[32..64].copy_from_slice(&s);
            if a == "negflip" {
                if scheme != "recoverable" {
                    return None;
                }
                v[64] ^= 1;
            }
        }
        "recid" if scheme == "recoverable" => v[64] ^= 1,
        "recid4" if scheme == "recoverable" => v[64] = rng.range(4, 255) as u8,
        _ => return None,
    }
    Some(v)
}
fn ok<T, E>(r: Result<Result<T, E>, String>) -> Value {
    match r {
        Ok(r) => json!({"ok": r.is_ok()}),
        Err(p) => json!({ "panic": p }),
    }
}

struct World {
    secp: Vec<Secp256k1PrivateKey>,
    rec: Vec<Secp256k1RecoverablePrivateKey>,
    bls: Vec<BlsPrivateKey>,
    msgs: Vec<[u8; 32]>,
}
fn world(rng: &mut Rng) -> World {
    let mut kb: Vec<Vec<u8>> = (0..3).map(|_| rng.bytes(32)).collect();
    // keys next to each other and with the same half
    if rng.bool() {
        kb[1] = kb[0].clone();
        kb[1][31] ^= 1;
        let half = kb[0][..16].to_vec();
        kb[2][..16].copy_from_slice(&half);
    }
    let mut msgs: Vec<[u8; 32]> = (0..3).map(|_| rng.bytes(32).try_into().unwrap()).collect();
    if rng.bool() {
        msgs[1] = msgs[0];
        msgs[1][rng.below(32) as usize] ^= 1 << rng.below(8);
    }
    World {
        secp: kb.iter().map(|b| Secp256k1PrivateKey::try_from(b.as_slice()).unwrap()).collect(),
        rec: kb.iter().map(|b| Secp256k1RecoverablePrivateKey::try_from(b.as_slice()).unwrap()).collect(),
        bls: kb
            .iter()
            .map(|b| {
                let mut b = b.clone();
                b[0] &= 0x1f;
                BlsPrivateKey::try_from(b.as_slice()).unwrap()
            })
            .collect(),
        msgs,
    }
}
fn hv(m: &[u8; 32]) -> HashValue {
    HashValue::from_bytes_unchecked(*m)
}
fn idx(v: &Value) -> usize {
    v.as_u64().unwrap() as usize - 1
}

fn case(rng: &mut Rng, w: &World, c: &Value, ev: &mut Vec<Value>) {
    let scheme = c["scheme"].as_str().unwrap();
    let cr = String::new();
    if scheme == "agg" {
        let list = |k: &str| -> Vec<usize> { c[k].as_array().unwrap().iter().map(idx).collect() };
        let (signers, keys, msgs, cm) = (list("signers"), list("keys"), list("msgs"), idx(&c["cm"]));
        let o = ok(guard(|| -> Result<(), String> {
            let sig = BlsSignature::combine(
                signers.iter().map(|s| (w.bls[*s].sign_message(&hv(&w.msgs[msgs[*s]])), w.bls[*s].pub_key(&cr))).collect(),
            )
            .map_err(|e| e.to_string())?;
            let key = BlsPublicKey::aggregate(keys.iter().map(|k| w.bls[*k].pub_key(&cr)).collect()).map_err(|e| e.to_string())?;
            let sig = BlsSignature::try_from(sig.to_bytes().as_ref()).map_err(|e| e.to_string())?;
            sig.verify(&hv(&w.msgs[cm]), &key, &cr).map_err(|e| e.to_string())
        }));
        let mut e = c.clone();
        e["op"] = json!("agg");
        e["out"] = o;
        ev.push(e);
        return;
    }
    let (k, m, ck, cm, a) = (idx(&c["k"]), idx(&c["m"]), idx(&c["ck"]), idx(&c["cm"]), c["alter"].as_str().unwrap());
    let mut e = c.clone();
    let made = match scheme {
        "secp" => w.secp[k].sign_message(&hv(&w.msgs[m])).to_bytes(),
        "recoverable" => w.rec[k].sign_message(&hv(&w.msgs[m])).to_bytes(),
        _ => w.bls[k].sign_message(&hv(&w.msgs[m])).to_bytes(),
    };
    let Some(sig) = alter(rng, scheme, &made, a) else { return };
    e["op"] = json!("verify");
    e["out"] = match scheme {
        "secp" => ok(guard(|| Secp256k1::verify_signature(&w.msgs[cm], &sig, &w.secp[ck].pub_key().to_bytes()))),
        "recoverable" => ok(guard(|| Secp256k1Recoverable::verify_signature(&w.msgs[cm], &sig, &w.rec[ck].pub_key().to_uncompressed_bytes()))),
        _ => ok(guard(|| BlsSignature::try_from(sig.as_slice()).and_then(|s| s.verify(&hv(&w.msgs[cm]), &w.bls[ck].pub_key(&cr), &cr)))),
    };
    ev.push(e.clone());
    if scheme == "recoverable" && ck == 0 {
        let who = |x: Vec<u8>| w.rec.iter().position(|k| k.pub_key().to_uncompressed_bytes()[1..] == x[..]).map(|p| p + 1).unwrap_or(9);
        e["op"] = json!("recover");
        e["out"] = match guard(|| secp256k1_recover(&w.msgs[cm], &sig)) {
            Ok(Ok(p)) => json!({"who": who(p.serialize_uncompressed()[1..].to_vec())}),
            Ok(Err(_)) => json!({"who": 0}),
            Err(p) => json!({ "panic": p }),
        };
        ev.push(e);
    }
}

/// the same through transactions: what is signed is the transaction
fn through_tx(rng: &mut Rng, w: &World, ev: &mut Vec<Value>) {
    let tx = |n: u64| UnverifiedTransaction {
        unsigned: UnsignedTransaction::Legacy(LegacyTransaction {
            nonce: n.into(), gas_price: 7u64.into(), gas_limit: 21000u64.into(), action: TransactionAction::Create, value: 1u64.into(), data: vec![n as u8].into(),
        }),
        signature: None, chain_id: Some(5), hash: Hash::default(),
    };
    let base = rng.below(1 << 30);
    for k in 0..3 {
        for m in 0..2u64 {
            for cm in 0..2u64 {
                for a in ["none", "flipfirst", "fliplast", "flipmid", "fliprs", "zero", "ones", "recid", "recid4", "swap", "cut", "longer", "empty", "half"] {
                    let sig = w.rec[k].sign_message(&HashValue::try_from(tx(base + m).signature_hash(true).as_bytes()).unwrap()).to_bytes();
                    let mut v = sig.to_vec();
                    match a {
                        "cut" => { v.pop(); }
                        "longer" => v.push(0),
                        "empty" => v.clear(),
                        "half" => v.truncate(32),
                        _ => v = alter(rng, "recoverable", &sig, a).unwrap(),
                    }
                    let mut t = tx(base + cm);
                    let r = v[..v.len().min(32)].to_vec();
                    let s = if v.len() > 33 { v[32..v.len() - 1].to_vec() } else { vec![] };
                    t.signature = Some(SignatureComponents { r: r.into(), s: s.into(), standard_v: v.last().copied().unwrap_or(0) });
                    let who = |a: protocol::types::H160| {
                        w.rec.iter().position(|k| public_to_address(&protocol::types::Public::from_slice(&k.pub_key().to_uncompressed_bytes()[1..])) == a).map(|p| p + 1).unwrap_or(9)
                    };
                    let e = |o: Value, what: &str| json!({"op": "recover", "what": what, "scheme": "recoverable", "k": k + 1, "m": m + 1, "ck": 1, "cm": cm + 1, "alter": a, "out": o});
                    let o = match guard(|| t.recover_public(true)) {
                        Ok(Ok(p)) => json!({"who": who(public_to_address(&p))}),
                        Ok(Err(_)) => json!({"who": 0}),
                        Err(p) => json!({ "panic": p }),
                    };
                    ev.push(e(o, "recover_public"));
                    let o = match guard(|| SignedTransaction::from_unverified(t)) {
                        Ok(Ok(s)) => json!({"who": if public_to_address(&s.public.unwrap()) == s.sender { who(s.sender) } else { 9 }}),
                        Ok(Err(_)) => json!({"who": 0}),
                        Err(p) => json!({ "panic": p }),
                    };
                    ev.push(e(o, "from_unverified"));
                }
            }
        }
    }
}

fn parsing(rng: &mut Rng, w: &World, ev: &mut Vec<Value>) {
    let order = unhex(ORDER);
    let mut below = order.clone();
    below[31] -= 1;
    let mut above = order.clone();
    above[31] += 1;
    let cases: BTreeMap<&str, (Vec<u8>, bool)> = BTreeMap::from([
        ("zero", (vec![0; 32], false)),
        ("one", ([vec![0; 31], vec![1]].concat(), true)),
        ("order", (order, false)),
        ("below", (below, true)),
        ("above", (above, false)),
        ("ones", (vec![255; 32], false)),
        ("short", (rng.bytes(31), false)),
        ("long", (rng.bytes(33), false)),
        ("empty", (vec![], false)),
    ]);
    for (n, (b, valid)) in cases {
        ev.push(json!({"op": "parse", "what": n, "valid": valid, "out": ok(guard(|| Secp256k1PrivateKey::try_from(b.as_slice())))}));
        ev.push(json!({"op": "parse", "what": n, "valid": valid, "out": ok(guard(|| Secp256k1RecoverablePrivateKey::try_from(b.as_slice())))}));
    }
    for k in 0..3 {
        let p = w.secp[k].pub_key();
        let same = |b: &[u8]| ok(guard(|| Secp256k1PublicKey::try_from(b).map_err(|_| ()).and_then(|x| if x == p { Ok(()) } else { Err(()) })));
        ev.push(json!({"op": "parse", "what": "pub", "valid": true, "out": same(&p.to_bytes())}));
        ev.push(json!({"op": "parse", "what": "pubfull", "valid": true, "out": same(&p.to_uncompressed_bytes())}));
        let b = w.bls[k].pub_key(&String::new());
        ev.push(json!({"op": "parse", "what": "blspub", "valid": true, "out": ok(guard(|| BlsPublicKey::try_from(b.to_bytes().as_ref()).map_err(|_| ()).and_then(|x| if x == b { Ok(()) } else { Err(()) })))}));
        for n in [0usize, 1, 32, 34, 47, 49, 64, 66, 96] {
            let r = rng.bytes(n);
            ev.push(json!({"op": "refused", "what": "publen", "out": ok(guard(|| Secp256k1PublicKey::try_from(r.as_slice())))}));
            if n != 96 {
                ev.push(json!({"op": "refused", "what": "blspublen", "out": ok(guard(|| BlsPublicKey::try_from(r.as_slice())))}));
            }
            ev.push(json!({"op": "refused", "what": "blskeylen", "out": ok(guard(|| if n == 32 { Err(BlsPrivateKey::try_from(&[][..]).map(|_| ()).err().unwrap()) } else { BlsPrivateKey::try_from(r.as_slice()).map(|_| ()) }))}));
            if n != 96 {
                ev.push(json!({"op": "refused", "what": "blssiglen", "out": ok(guard(|| BlsSignature::try_from(r.as_slice())))}));
            }
            if n != 64 {
                ev.push(json!({"op": "refused", "what": "siglen", "out": ok(guard(|| Secp256k1Signature::try_from(r.as_slice())))}));
            }
            if n != 32 {
                ev.push(json!({"op": "refused", "what": "msglen", "out": ok(guard(|| Secp256k1::verify_signature(&r, &w.secp[k].sign_message(&hv(&w.msgs[0])).to_bytes(), &p.to_bytes())))}));
            }
        }
    }
}

pub fn run(cases: &str, path: &str) {
    let mut o = Out::create(path);
    let mut rng = Rng::new(seed());
    let cs = read_ndjson(cases);
    for round in 0..scale(1, 8) {
        let w = world(&mut rng);
        for (i, ch) in cs.chunks(300).enumerate() {
            let mut ev = vec![];
            for c in ch {
                case(&mut rng, &w, c, &mut ev);
            }
            // the other form of a recoverable signature, apart
            let (neg, rest): (Vec<Value>, Vec<Value>) = ev.into_iter().partition(|e| e["alter"] == "negflip" && e["k"] == e["ck"] && e["m"] == e["cm"]);
            o.trace(&format!("r{round}-{i}"), json!({"x": 0}), rest);
            for (j, e) in neg.into_iter().enumerate() {
                o.trace(&format!("r{round}-{i}-n{j}"), json!({"x": 0}), vec![e]);
            }
        }
        let mut ev = vec![];
        through_tx(&mut rng, &w, &mut ev);
        o.trace(&format!("tx{round}"), json!({"x": 0}), ev);
    }
    for round in 0..scale(5, 100) {
        let w = world(&mut rng);
        let mut ev = vec![];
        parsing(&mut rng, &w, &mut ev);
        o.trace(&format!("parse{round}"), json!({"x": 0}), ev);
    }
    o.finish();
}
