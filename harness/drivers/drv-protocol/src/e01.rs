//! Transaction wire format.
use crate::*;
use ethers_core::k256::ecdsa::SigningKey;
use ethers_core::utils::keccak256;
use protocol::types::{
    AccessListItem, Bytes, Eip1559Transaction, Eip2930Transaction, LegacyTransaction, SignatureComponents,
    SignedTransaction, TransactionAction, UnsignedTransaction, UnverifiedTransaction, H160, H256, U256, U64,
};
use rlp::{Decodable, Encodable, Rlp};

fn u64v(v: &Value) -> u64 {
    bytes_of(v).iter().fold(0u64, |a, x| (a << 8) | *x as u64)
}

fn unsigned_of(t: &Value) -> UnsignedTransaction {
    let nonce = U64::from(u64v(&t["nonce"]));
    let gas_price = U64::from(u64v(&t["price"]));
    let gas_limit = U64::from(u64v(&t["limit"]));
    let tip = U64::from(u64v(&t["tip"]));
    let to = bytes_of(&t["to"]);
    let action = if to.is_empty() { TransactionAction::Create } else { TransactionAction::Call(H160::from_slice(&to)) };
    let value = U256::from_big_endian(&bytes_of(&t["value"]));
    let data = Bytes::from(bytes_of(&t["data"]));
    let access_list: Vec<AccessListItem> = t["al"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| AccessListItem {
            address:      H160::from_slice(&bytes_of(&x["a"])),
            storage_keys: x["k"].as_array().unwrap().iter().map(|k| H256::from_slice(&bytes_of(k))).collect(),
        })
        .collect();
    match t["ty"].as_u64().unwrap() {
        0 => UnsignedTransaction::Legacy(LegacyTransaction { nonce, gas_price, gas_limit, action, value, data }),
        1 => UnsignedTransaction::Eip2930(Eip2930Transaction {
            nonce, gas_price, gas_limit, action, value, data, access_list,
        }),
        _ => UnsignedTransaction::Eip1559(Eip1559Transaction {
            nonce, max_priority_fee_per_gas: tip, gas_price, gas_limit, action, value, data, access_list,
        }),
    }
}

fn be(x: u64) -> Value {
    jb(minimal(&x.to_be_bytes()))
}

pub fn view(u: &UnverifiedTransaction) -> Value {
    let (nonce, price, limit, tip, action, value, data, al) = match &u.unsigned {
        UnsignedTransaction::Legacy(t) => (t.nonce, t.gas_price, t.gas_limit, U64::zero(), t.action, t.value, t.data.clone(), vec![]),
        UnsignedTransaction::Eip2930(t) => {
            (t.nonce, t.gas_price, t.gas_limit, U64::zero(), t.action, t.value, t.data.clone(), t.access_list.clone())
        }
        UnsignedTransaction::Eip1559(t) => (
            t.nonce, t.gas_price, t.gas_limit, t.max_priority_fee_per_gas, t.action, t.value, t.data.clone(), t.access_list.clone(),
        ),
    };
    let mut v = [0u8; 32];
    value.to_big_endian(&mut v);
    let s = u.signature.clone().unwrap_or_default();
    json!({
        "ty": match &u.unsigned { UnsignedTransaction::Legacy(_) => 0, UnsignedTransaction::Eip2930(_) => 1, _ => 2 },
        "nonce": be(nonce.as_u64()), "price": be(price.as_u64()), "limit": be(limit.as_u64()), "tip": be(tip.as_u64()),
        "to": match action { TransactionAction::Create => jb([]), TransactionAction::Call(a) => jb(a.as_bytes()) },
        "value": jb(minimal(&v)), "data": jb(&data),
        "al": al.iter().map(|x| json!({"a": jb(x.address.as_bytes()), "k": x.storage_keys.iter().map(|k| jb(k.as_bytes())).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "hasCid": u.chain_id.is_some(), "cid": be(u.chain_id.unwrap_or(0)),
        "v": s.standard_v, "r": jb(&s.r), "s": jb(&s.s),
    })
}

fn decode_event(b: &[u8], ev: &mut Vec<Value>) {
    let r = guard(|| UnverifiedTransaction::decode(&Rlp::new(b)));
    let out = match r {
        Err(_) => json!({"ok": "panic"}),
        Ok(Err(_)) => json!({"ok": false}),
        Ok(Ok(u)) => json!({"ok": true, "t": view(&u)}),
    };
    if out["ok"] == json!("panic") {
        // TLC compares values of one type only
        ev.push(json!({"op": "decode", "b": jb(b), "out": {"panic": true}}));
        return;
    }
    ev.push(json!({"op": "decode", "b": jb(b), "out": out}));
}

struct Made {
    ev:  Vec<Value>,
    enc: Vec<u8>,
}

fn one(c: &Value, rng: &mut Rng) -> Made {
    let mut ev = vec![];
    let mut t = c["t"].clone();
    let sb = bytes_of(&c["sb"]);
    let digest = keccak256(&sb);
    let eth = t["r"].as_array().unwrap().len() == 32 && t["s"].as_array().unwrap().len() == 32;
    let mut signer = None;
    if eth {
        let sk = SigningKey::from_slice(&{
            let mut b = rng.bytes(32);
            b[0] = 1;
            b
        })
        .unwrap();
        let (sig, rec) = sk.sign_prehash_recoverable(&digest).unwrap();
        let sb = sig.to_bytes();
        t["r"] = jb(&sb[..32]);
        t["s"] = jb(&sb[32..]);
        t["v"] = json!(rec.to_byte());
        let p = sk.verifying_key().to_encoded_point(false);
        signer = Some(keccak256(&p.as_bytes()[1..])[12..].to_vec());
    }
    let cid = if t["hasCid"].as_bool().unwrap() { Some(u64v(&t["cid"])) } else { None };
    let utx = UnverifiedTransaction {
        unsigned:  unsigned_of(&t),
        chain_id:  cid,
        signature: Some(SignatureComponents {
            r:          bytes_of(&t["r"]).into(),
            s:          bytes_of(&t["s"]).into(),
            standard_v: t["v"].as_u64().unwrap() as u8,
        }),
        hash:      Default::default(),
    };
    let u2 = utx.clone();
    let enc = match guard(|| u2.rlp_bytes().to_vec()) {
        Ok(b) => {
            ev.push(json!({"op": "encode", "t": t, "out": {"ok": true, "b": jb(&b)}}));
            b
        }
        Err(_) => {
            ev.push(json!({"op": "encode", "t": t, "out": {"panic": true}}));
            return Made { ev, enc: vec![] };
        }
    };
    let h = keccak256(&enc);
    let res = guard(|| {
        let with_hash = utx.clone().calc_hash();
        let hash = with_hash.hash.0 == h && utx.get_hash().0 == h && with_hash.check_hash().is_ok();
        let sighash = utx.signature_hash(true).0 == digest;
        // hash taken while decoding, hash of the wrong content is refused
        let dec = UnverifiedTransaction::decode(&Rlp::new(&enc));
        let hash = hash && dec.as_ref().map(|d| d.hash.0 == h).unwrap_or(true);
        let mut wrong = with_hash.clone();
        wrong.hash.0[31] ^= 1;
        let hash = hash && wrong.check_hash().is_err();
        let mut sender = true;
        let mut stored = true;
        if let Some(a) = &signer {
            let stx = SignedTransaction::from_unverified(utx.clone());
            sender = match &stx {
                Ok(s) => s.sender.as_bytes() == &a[..] && s.transaction.hash.0 == h,
                Err(_) => false,
            };
            sender = sender
                && utx
                    .recover_public(true)
                    .map(|p| keccak256(p.as_bytes())[12..] == a[..])
                    .unwrap_or(false);
            if let Ok(s) = stx {
                let raw = s.rlp_bytes();
                stored = match SignedTransaction::decode(&Rlp::new(&raw)) {
                    Ok(d) => d == s,
                    Err(_) => false,
                };
            }
        }
        (hash, sighash, sender, stored)
    });
    let out = match res {
        Ok((a, b, c, d)) => json!({"hash": a, "sighash": b, "sender": c, "stored": d}),
        Err(_) => json!({"panic": true}),
    };
    ev.push(json!({"op": "crypto", "out": out}));
    decode_event(&enc, &mut ev);
    Made { ev, enc }
}

/// One or a few bytes away from a valid encoding.
fn mutate(b: &[u8], rng: &mut Rng) -> Vec<u8> {
    let mut b = b.to_vec();
    for _ in 0..rng.range(1, 2) {
        if b.is_empty() {
            break;
        }
        let p = if rng.chance(1, 2) { rng.below((b.len() as u64).min(16)) } else { rng.below(b.len() as u64) } as usize;
        match rng.below(7) {
            0 => b[p] = rng.byte(),
            1 => b[p] = b[p].wrapping_add(1),
            2 => b[p] = b[p].wrapping_sub(1),
            3 => b.truncate(p),
            4 => b.push(rng.byte()),
            5 => b.insert(p, rng.byte()),
            _ => {
                b.remove(p);
            }
        }
    }
    b
}

fn list_hdr(n: usize) -> Vec<u8> {
    if n <= 55 {
        vec![0xc0 + n as u8]
    } else if n < 256 {
        vec![0xf8, n as u8]
    } else {
        vec![0xf9, (n >> 8) as u8, n as u8]
    }
}

/// Re-frames the outer list after changing its payload, so that the change is inside a well-framed list.
fn reframe(b: &[u8], rng: &mut Rng) -> Option<Vec<u8>> {
    let tag = if b.first()? & 0x80 == 0 { 1 } else { 0 };
    let r = Rlp::new(&b[tag..]);
    let pi = r.payload_info().ok()?;
    let mut p = b[tag + pi.header_len..].to_vec();
    match rng.below(6) {
        0 => p.push(rng.byte()),
        1 => p.extend([0x81, rng.byte() & 0x7f]),
        2 => {
            // a non-minimal form of one item: string of one byte below 128
            let off = item_offsets(&p);
            let o = *rng.pick(&off);
            if p[o] < 0x80 {
                p.insert(o, 0x81);
            } else if p[o] >= 0x81 && p[o] <= 0xb7 {
                let n = p[o] - 0x80;
                p.splice(o..o + 1, [0xb8, n]);
            } else {
                p.splice(o..o + 1, [0x82, 0, 5]);
            }
        }
        3 => {
            // a leading zero
            let off = item_offsets(&p);
            let o = *rng.pick(&off);
            if p[o] >= 0x81 && p[o] < 0xb7 {
                p[o] += 1;
                p.insert(o + 1, 0);
            } else if p[o] == 0x80 {
                p[o] = 0;
            } else if p[o] < 0x80 {
                p.splice(o..o, [0x82, 0]);
            }
        }
        4 => {
            let off = item_offsets(&p);
            let o = *rng.pick(&off);
            p[o] = *rng.pick(&[0x80u8, 0xc0, 0x81, 0x94, 0x93, 0x95]);
        }
        _ => {
            let p2 = mutate(&p, rng);
            p = p2;
        }
    }
    let mut out = b[..tag].to_vec();
    out.extend(list_hdr(p.len()));
    out.extend(p);
    Some(out)
}

fn item_offsets(p: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let mut o = 0;
    while o < p.len() {
        v.push(o);
        match Rlp::new(&p[o..]).payload_info() {
            Ok(i) => o += i.total(),
            Err(_) => break,
        }
    }
    v
}

fn random_case(rng: &mut Rng) -> Value {
    let mut u = |w: usize, rng: &mut Rng| {
        let n = rng.below(w as u64 + 1) as usize;
        jb(minimal(&rng.bytes(n)))
    };
    let ty = rng.below(3);
    let has = ty != 0 || rng.bool();
    let interop = rng.chance(1, 4);
    let (rl, sl) = if interop {
        let a = rng.below(140);
        (a, if a > 64 { rng.below(80) } else { 65 - a + rng.below(30) })
    } else {
        (32, 32)
    };
    let al: Vec<Value> = if ty == 0 {
        vec![]
    } else {
        (0..rng.below(4))
            .map(|_| json!({"a": jb(rng.bytes(20)), "k": (0..rng.below(4)).map(|_| jb(rng.bytes(32))).collect::<Vec<_>>()}))
            .collect()
    };
    let dl = *rng.pick(&[0usize, 1, 1, 2, 31, 54, 55, 56, 57, 120, 255, 256, 300]);
    let mut t = json!({
        "ty": ty, "nonce": u(8, rng), "price": u(8, rng), "limit": u(8, rng), "value": u(32, rng),
        "tip": if ty == 2 { u(8, rng) } else { jb([]) },
        "to": if rng.chance(1, 4) { jb([]) } else { jb(rng.bytes(20)) },
        "data": jb(rng.bytes(dl)), "al": al, "hasCid": has,
        "cid": if has { u(if ty == 0 { 4 } else { 8 }, rng) } else { jb([]) },
        "v": rng.below(2), "r": jb(rng.bytes(rl as usize)), "s": jb(rng.bytes(sl as usize)),
    });
    if interop && rl == 32 && sl == 32 {
        t["s"] = jb(rng.bytes(40));
    }
    t
}

/// cases: what the specification enumerated, with the bytes to sign
pub fn run(cases: &str, out: &str) {
    let mut rng = Rng::new(seed());
    let cases = read_ndjson(cases);
    let mut o = Out::create(out);
    let mut pool = vec![];
    for (i, c) in cases.iter().enumerate() {
        let m = one(c, &mut rng);
        o.trace(&format!("spec{i}"), json!(0), m.ev);
        pool.push(m.enc);
    }
    // random contents: encode/decode only (the signature need not be genuine here)
    for i in 0..scale(150, 3000) {
        let t = random_case(&mut rng);
        let utx = UnverifiedTransaction {
            unsigned:  unsigned_of(&t),
            chain_id:  if t["hasCid"].as_bool().unwrap() { Some(u64v(&t["cid"])) } else { None },
            signature: Some(SignatureComponents {
                r:          bytes_of(&t["r"]).into(),
                s:          bytes_of(&t["s"]).into(),
                standard_v: t["v"].as_u64().unwrap() as u8,
            }),
            hash:      Default::default(),
        };
        let mut ev = vec![];
        match guard(|| utx.rlp_bytes().to_vec()) {
            Ok(b) => {
                ev.push(json!({"op": "encode", "t": t, "out": {"ok": true, "b": jb(&b)}}));
                decode_event(&b, &mut ev);
                pool.push(b);
            }
            Err(_) => ev.push(json!({"op": "encode", "t": t, "out": {"panic": true}})),
        }
        // what would be signed
        let mut unsig = utx.clone();
        unsig.signature = None;
        if let Ok(b) = guard(|| unsig.rlp_bytes().to_vec()) {
            ev.push(json!({"op": "sb", "t": t, "out": {"ok": true, "b": jb(&b)}}));
        }
        o.trace(&format!("rand{i}"), json!(0), ev);
    }
    // malformed input
    let mut fixed: Vec<Vec<u8>> = vec![vec![], vec![0x80], vec![0xc0], vec![1], vec![2], vec![1, 0xc0], vec![2, 0xc0], vec![0xff], vec![0x7f], vec![0]];
    for x in 0..=255u8 {
        fixed.push(vec![x, 0xc1, 0x80]);
        fixed.push(vec![0xf8, x]);
    }
    for (i, b) in fixed.iter().enumerate() {
        let mut ev = vec![];
        decode_event(b, &mut ev);
        o.trace(&format!("fixed{i}"), json!(0), ev);
    }
    for i in 0..scale(1500, 40000) {
        let src = rng.pick(&pool).clone();
        if src.len() > 450 {
            continue;
        }
        let b = if rng.bool() { mutate(&src, &mut rng) } else { reframe(&src, &mut rng).unwrap_or_default() };
        let mut ev = vec![];
        decode_event(&b, &mut ev);
        o.trace(&format!("mut{i}"), json!(0), ev);
    }
    o.finish();
}
