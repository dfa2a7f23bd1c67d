//! Cross-chain signatures (Interop).
use crate::*;
use ethers_core::k256::ecdsa::SigningKey;
use ethers_core::utils::keccak256;
use protocol::codec::ProtocolCodec;
use protocol::types::*;
use rlp::RlpStream;

fn small(rng: &mut Rng) -> u64 {
    rng.next() >> rng.below(64)
}
/// a random unsigned part; ty 0, 1: legacy with and without chain id, 2: access list, 3: fee market
fn unsigned(rng: &mut Rng, ty: u64) -> (UnsignedTransaction, Option<u64>) {
    let action = if rng.bool() { TransactionAction::Create } else { TransactionAction::Call(H160::from_slice(&rng.bytes(20))) };
    let n = rng.below(70) as usize;
    let data = Bytes::from(rng.bytes(n));
    let id = small(rng) >> 8;
    match ty {
        0 | 1 => (
            UnsignedTransaction::Legacy(LegacyTransaction {
                nonce: small(rng).into(), gas_price: small(rng).into(), gas_limit: small(rng).into(), action, value: small(rng).into(), data,
            }),
            if ty == 0 { Some(id) } else { None },
        ),
        2 => (
            UnsignedTransaction::Eip2930(Eip2930Transaction {
                nonce: small(rng).into(), gas_price: small(rng).into(), gas_limit: small(rng).into(), action, value: small(rng).into(), data,
                access_list: vec![AccessListItem { address: H160::from_slice(&rng.bytes(20)), storage_keys: vec![H256::from_slice(&rng.bytes(32))] }],
            }),
            Some(id),
        ),
        _ => (
            UnsignedTransaction::Eip1559(Eip1559Transaction {
                nonce: small(rng).into(), max_priority_fee_per_gas: small(rng).into(), gas_price: small(rng).into(), gas_limit: small(rng).into(),
                action, value: small(rng).into(), data, access_list: vec![],
            }),
            Some(id),
        ),
    }
}
/// The transaction as it is sent, with the two parts of the signature as they are.
fn wire(u: &UnsignedTransaction, id: Option<u64>, v: u8, r: &[u8], s: &[u8]) -> Vec<u8> {
    // built from the encoding without a signature: its items, and then the signature
    let enc = u.encode(id, None).to_vec();
    let (ty, body) = if enc[0] >= 0xc0 { (None, &enc[..]) } else { (Some(enc[0]), &enc[1..]) };
    let rl = rlp::Rlp::new(body);
    let n = match ty { None => 6, Some(1) => 8, _ => 9 };
    let mut st = RlpStream::new();
    st.begin_list(n + 3);
    for i in 0..n {
        st.append_raw(rl.at(i).unwrap().as_raw(), 1);
    }
    match ty {
        None => st.append(&(v as u64 + id.map(|i| i * 2 + 35).unwrap_or(27))),
        _ => st.append(&v),
    };
    st.append(&r.to_vec()).append(&s.to_vec());
    ty.into_iter().chain(st.out().to_vec()).collect()
}

fn out(f: impl FnOnce() -> Result<SignedTransaction, String>) -> Value {
    match guard(f) {
        Ok(Ok(t)) => {
            // an ordinary signature comes with the key of its signer
            if t.public.map(|p| p != Public::zero()).unwrap_or(false) {
                json!({"plain": jb(t.sender)})
            } else {
                json!({"cross": jb(t.sender)})
            }
        }
        Ok(Err(_)) => json!({"error": true}),
        Err(p) => json!({ "panic": p }),
    }
}
fn table(r: &[u8]) -> Value {
    let key = r.get(1..).and_then(|b| rlp::Rlp::new(b).at(1).ok().and_then(|x| x.data().ok().map(|d| d.to_vec())));
    json!(key.into_iter().map(|k| json!({"p": jb(&k), "d": jb(keccak256(&k))})).collect::<Vec<_>>())
}
fn event(rng: &mut Rng, ev: &mut Vec<Value>, ty: u64, r: &[u8], s: &[u8]) {
    let tab = table(r);
    for _ in 0..2 {
        let (u, id) = unsigned(rng, ty);
        let v = rng.below(2) as u8;
        let raw = wire(&u, id, v, r, s);
        ev.push(json!({"op": "wire", "r": jb(r), "s": jb(s), "tab": tab, "plain": [], "out": out(|| {
            let utx = UnverifiedTransaction::decode(&raw).map_err(|e| e.to_string())?;
            SignedTransaction::from_unverified(utx).map_err(|e| e.to_string())
        })}));
        // the same, made in memory
        if r.len() + s.len() != 64 {
            let utx = UnverifiedTransaction {
                unsigned: u, chain_id: id, hash: Default::default(),
                signature: Some(SignatureComponents { r: r.to_vec().into(), s: s.to_vec().into(), standard_v: v }),
            };
            ev.push(json!({"op": "sender", "r": jb(r), "s": jb(s), "tab": tab, "out": out(|| SignedTransaction::from_unverified(utx).map_err(|e| e.to_string()))}));
        }
    }
}
fn plain_event(rng: &mut Rng, ev: &mut Vec<Value>) {
    let ty = rng.below(4);
    let (u, id) = unsigned(rng, ty);
    let mut kb = rng.bytes(32);
    kb[0] = 1;
    let sk = SigningKey::from_slice(&kb).unwrap();
    let mut utx = UnverifiedTransaction { unsigned: u.clone(), chain_id: id, signature: None, hash: Default::default() };
    let d = keccak256(u.encode(id, None));
    let (sig, rec) = sk.sign_prehash_recoverable(&d).unwrap();
    let b = sig.to_bytes();
    let (r, s) = (minimal(&b[..32]), minimal(&b[32..]));
    let full = sk.verifying_key().to_encoded_point(false);
    let sender = keccak256(&full.as_bytes()[1..])[12..].to_vec();
    let raw = wire(&u, id, rec.to_byte(), &r, &s);
    ev.push(json!({"op": "wire", "r": jb(&r), "s": jb(&s), "tab": [], "plain": jb(&sender), "out": out(|| {
        let utx = UnverifiedTransaction::decode(&raw).map_err(|e| e.to_string())?;
        SignedTransaction::from_unverified(utx).map_err(|e| e.to_string())
    })}));
    utx.signature = Some(SignatureComponents { r: b[..32].to_vec().into(), s: b[32..].to_vec().into(), standard_v: rec.to_byte() });
    ev.push(json!({"op": "wire", "r": jb(&r), "s": jb(&s), "tab": [], "plain": jb(&sender), "out": out(|| SignedTransaction::from_unverified(utx).map_err(|e| e.to_string()))}));
}

fn rbytes(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(5) { 0 => 0, 1 => 1, 2 => 20, 3 => rng.range(50, 60), _ => rng.below(300) } as usize;
    (0..n).map(|_| rng.byte()).collect()
}
fn opt(rng: &mut Rng) -> Option<Bytes> {
    if rng.below(3) == 0 { None } else { Some(rbytes(rng).into()) }
}
fn be(x: u64) -> Value {
    jb(minimal(&x.to_be_bytes()))
}
fn vopt(x: &Option<Bytes>) -> Value {
    json!(x.iter().map(jb).collect::<Vec<_>>())
}
fn vscript(s: &Script) -> Value {
    json!({"hash": jb(s.code_hash), "args": jb(&s.args), "type": be(s.hash_type as u64)})
}
fn script(rng: &mut Rng) -> Script {
    Script { code_hash: H256::from_slice(&rng.bytes(32)), args: rbytes(rng).into(), hash_type: rng.byte() }
}
fn vdep(d: &CellDep) -> Value {
    json!({"hash": jb(d.tx_hash), "index": be(d.index as u64), "dep": be(d.dep_type as u64)})
}
fn dep(rng: &mut Rng) -> CellDep {
    CellDep { tx_hash: H256::from_slice(&rng.bytes(32)), index: small(rng) as u32, dep_type: rng.byte() }
}
fn record<T: ProtocolCodec + PartialEq + Clone + std::fmt::Debug + serde::Serialize + serde::de::DeserializeOwned>(
    rng: &mut Rng, ev: &mut Vec<Value>, kind: &str, v: Value, x: T,
) {
    let o = match guard(|| {
        let enc = x.encode().unwrap().to_vec();
        let same = T::decode(&enc).map(|y| y == x).unwrap_or(false)
            && serde_json::from_str::<T>(&serde_json::to_string(&x).unwrap()).map(|y| y == x).unwrap_or(false);
        (enc, same)
    }) {
        Ok((enc, same)) => {
            for _ in 0..4 {
                let mut m = enc.clone();
                for _ in 0..rng.range(1, 2) {
                    let i = rng.below(m.len() as u64 + 1) as usize;
                    match rng.below(4) {
                        0 => m.truncate(i),
                        1 => m.insert(i, rng.byte()),
                        2 if i < m.len() => { m.remove(i); }
                        _ if i < m.len() => m[i] = rng.byte(),
                        _ => {}
                    }
                }
                let o = match guard(|| T::decode(&m).is_ok()) { Ok(_) => json!({"safe": true}), Err(p) => json!({"panic": p}) };
                ev.push(json!({"op": "mangled", "kind": kind, "out": o}));
            }
            json!({"enc": jb(enc), "same": same})
        }
        Err(p) => json!({ "panic": p }),
    };
    ev.push(json!({"op": "encode", "kind": kind, "v": v, "out": o}));
}

pub fn run(cases: &str, path: &str) {
    let mut o = Out::create(path);
    let mut rng = Rng::new(seed());
    let mut ev = vec![];
    let flush = |ev: &mut Vec<Value>, o: &mut Out, lim: usize| {
        if ev.len() > lim {
            let n = o.1;
            o.trace(&format!("t{n}"), json!({"x": 0}), std::mem::take(ev));
        }
    };
    for c in read_ndjson(cases) {
        let (r, s) = (bytes_of(&c["r"]), bytes_of(&c["s"]));
        event(&mut rng, &mut ev, c["ty"].as_u64().unwrap(), &r, &s);
        flush(&mut ev, &mut o, 300);
    }
    for _ in 0..scale(300, 3000) {
        plain_event(&mut rng, &mut ev);
        let d = dep(&mut rng);
        let x = CellDepWithPubKey { cell_dep: d.clone(), pub_key: rbytes(&mut rng).into() };
        let mut r = vec![0u8];
        r.extend(x.encode().unwrap());
        let s = rbytes(&mut rng);
        let ty = rng.below(4);
        event(&mut rng, &mut ev, ty, &r, &s);
        let i = rng.below(r.len() as u64) as usize;
        r[i] = rng.byte();
        event(&mut rng, &mut ev, ty, &r, &s);
        record(&mut rng, &mut ev, "dep", vdep(&d), d.clone());
        record(&mut rng, &mut ev, "depkey", json!({"dep": vdep(&d), "key": jb(&x.pub_key)}), x);
        let ws: Vec<Witness> = (0..rng.below(4)).map(|_| Witness { lock: opt(&mut rng), input_type: opt(&mut rng), output_type: opt(&mut rng) }).collect();
        let vw = |w: &Witness| json!({"lock": vopt(&w.lock), "input": vopt(&w.input_type), "output": vopt(&w.output_type)});
        for w in &ws {
            record(&mut rng, &mut ev, "witness", vw(w), w.clone());
        }
        record(&mut rng, &mut ev, "sigs", json!({"ws": ws.iter().map(vw).collect::<Vec<_>>()}), SignatureS::new(ws));
        let p = OutPoint { tx_hash: H256::from_slice(&rng.bytes(32)), index: small(&mut rng) as u32 };
        record(&mut rng, &mut ev, "outpoint", json!({"hash": jb(p.tx_hash), "index": be(p.index as u64)}), p);
        let sc = script(&mut rng);
        record(&mut rng, &mut ev, "script", vscript(&sc), sc.clone());
        let ty = if rng.bool() { Some(script(&mut rng)) } else { None };
        let c = CellWithData { type_script: ty, lock_script: sc, data: rbytes(&mut rng).into() };
        record(&mut rng, &mut ev, "cell", json!({"type": c.type_script.iter().map(vscript).collect::<Vec<_>>(), "lock": vscript(&c.lock_script), "data": jb(&c.data)}), c);
        flush(&mut ev, &mut o, 300);
    }
    flush(&mut ev, &mut o, 0);
    o.finish();
}
