//! Textual forms of bytes, numbers, addresses and keys (TextForms).
use crate::*;
use axon_tools::types as t;
use clap::Parser;
use common_config_parser::types::spec::{InitialAccount, PrivateKey};
use common_config_parser::types::Config;
use common_crypto::{
    BlsPrivateKey, PrivateKey as _, Secp256k1PrivateKey, Secp256k1RecoverablePrivateKey, ToPublicKey,
    UncompressedPublicKey, PublicKey,
};
use ethers_core::utils::keccak256;
use protocol::codec::{decode_256bits_key, hex_decode, hex_encode, serialize_uint};
use protocol::types::*;
use std::str::FromStr;

fn err() -> Value {
    json!({"error": true})
}
fn obs<T, E>(f: impl FnOnce() -> Result<T, E>, view: impl FnOnce(T) -> Value) -> Value {
    match guard(f) {
        Ok(Ok(x)) => view(x),
        Ok(Err(_)) => err(),
        Err(p) => json!({ "panic": p }),
    }
}
fn bytes(b: impl AsRef<[u8]>) -> Value {
    json!({"b": jb(b)})
}
fn codes(s: &str) -> Value {
    json!(s.chars().map(|c| c as u32).collect::<Vec<_>>())
}
fn text(s: &str) -> Value {
    json!({"s": codes(s)})
}
fn quoted(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
fn num(n: u64) -> Value {
    json!({"n": jb(minimal(&n.to_be_bytes()))})
}
/// the digest of the forty lower case digits, if there are such
fn digest(s: &str) -> Value {
    let x = s.strip_prefix("0x").unwrap_or(s);
    jb(keccak256(x.to_lowercase().as_bytes()))
}

#[derive(serde::Serialize)]
struct Num {
    #[serde(serialize_with = "serialize_uint")]
    n: U256,
}
#[derive(serde::Serialize)]
struct Num64 {
    #[serde(serialize_with = "serialize_uint")]
    n: u64,
}
#[derive(Parser)]
struct Cli {
    #[command(flatten)]
    key: PrivateKey,
}

fn hex_events(s: &str, ev: &mut Vec<Value>) {
    let c = codes(s);
    let hexes = [
        obs(|| Hex::from_str(s), |h| bytes(h.as_bytes())),
        obs(|| serde_json::from_str::<Hex>(&quoted(s)), |h| bytes(h.as_bytes())),
        obs(|| t::Hex::from_str(s), |h| bytes(h.as_bytes())),
        obs(|| serde_json::from_str::<t::Hex>(&quoted(s)), |h| bytes(h.as_bytes())),
    ];
    for out in hexes {
        ev.push(json!({"op": "hex", "s": c, "out": out}));
    }
    ev.push(json!({"op": "loose", "s": c, "out": obs(|| hex_decode(s), bytes)}));
    let q = quoted(s);
    for (w, out) in [
        (8, obs(|| serde_json::from_str::<t::MetadataVersion>(&format!("{{\"start\":{q},\"end\":\"0x1\"}}")), |m| num(m.start))),
        (8, obs(|| serde_json::from_str::<t::MetadataVersion>(&format!("{{\"start\":\"0x1\",\"end\":{q}}}")), |m| num(m.end))),
        (
            4,
            obs(
                || serde_json::from_str::<t::ValidatorExtend>(&format!("{{\"bls_pub_key\":\"0x01\",\"pub_key\":\"0x01\",\"address\":\"0x0000000000000000000000000000000000000001\",\"propose_weight\":{q},\"vote_weight\":\"0x1\"}}")),
                |m| num(m.propose_weight as u64),
            ),
        ),
        (
            4,
            obs(
                || serde_json::from_str::<t::ValidatorExtend>(&format!("{{\"bls_pub_key\":\"0x01\",\"pub_key\":\"0x01\",\"address\":\"0x0000000000000000000000000000000000000001\",\"propose_weight\":\"0x1\",\"vote_weight\":{q}}}")),
                |m| num(m.vote_weight as u64),
            ),
        ),
    ] {
        ev.push(json!({"op": "uint", "s": c, "w": w, "out": out}));
    }
}
fn address_events(s: &str, ev: &mut Vec<Value>) {
    let c = codes(s);
    let d = digest(s);
    ev.push(json!({"op": "address", "s": c, "out": obs(|| Address::from_hex(s), |a| bytes(a.0))}));
    ev.push(json!({"op": "checked", "s": c, "d": d, "out": obs(|| Address::from_str(s), |a| bytes(a.0))}));
    ev.push(json!({"op": "confaddr", "s": c, "d": d, "out": obs(|| serde_json::from_str::<Address>(&quoted(s)), |a| bytes(a.0))}));
    let q = quoted(s);
    ev.push(json!({"op": "confaddr", "s": c, "d": d,
        "out": obs(|| serde_json::from_str::<InitialAccount>(&format!("{{\"address\":{q},\"balance\":\"0x1\"}}")), |a| bytes(a.address))}));
}
fn key_events(s: &str, ev: &mut Vec<Value>) {
    let c = codes(s);
    ev.push(json!({"op": "key", "s": c, "out": obs(|| decode_256bits_key(s), |k| bytes(k.as_ref()))}));
    let arg = format!("--key={s}");
    ev.push(json!({"op": "clikey", "s": c, "out": obs(
        || Cli::try_parse_from(["x", arg.as_str()]).map_err(|e| e.to_string()).and_then(|c| c.key.data()),
        |k| bytes(k.to_bytes()))}));
}

fn mutate(rng: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..rng.range(1, 2) {
        let i = rng.below(v.len() as u64 + 1) as usize;
        let c = *rng.pick(&['0', 'x', 'X', 'g', 'G', 'a', 'F', '+', '-', ' ', '\n', '_', '9', 'é', '\u{1F600}', '"', '\\', '@', '`', '/', ':']);
        match rng.below(6) {
            0 => v.insert(i, c),
            1 if i < v.len() => {
                v.remove(i);
            }
            2 if i < v.len() => v[i] = c,
            3 if i < v.len() => v[i] = if v[i].is_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() },
            4 => v = "0x".chars().chain(v).collect(),
            _ => v.truncate(i),
        }
    }
    v.into_iter().collect()
}

/// does `shown` tell the key: as digits of either case, as a list of numbers, or reversed
fn leaks(key: &[u8], shown: &str) -> bool {
    let shown = shown.to_lowercase();
    let part = &key[8..24];
    let rev: Vec<u8> = part.iter().rev().copied().collect();
    let list = |b: &[u8]| b.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let flat: String = shown.chars().filter(|c| !c.is_whitespace()).collect();
    [part, &rev[..]].iter().any(|p| {
        flat.contains(&hex(p))
            || flat.contains(&list(p).join(","))
            || flat.contains(&p.iter().map(|x| format!("0x{x:02x}")).collect::<Vec<_>>().join(","))
            || flat.contains(&p.iter().map(|x| format!("0x{x:x}")).collect::<Vec<_>>().join(","))
            || flat.contains(&p.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(","))
            || flat.contains(&p.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(","))
    })
}

pub fn run(cases: &str, out: &str) {
    let mut o = Out::create(out);
    let mut rng = Rng::new(seed());
    let mut ev = vec![];
    let mut flush = |ev: &mut Vec<Value>, o: &mut Out| {
        let n = o.1;
        if !ev.is_empty() {
            o.trace(&format!("t{n}"), json!({"x": 0}), std::mem::take(ev));
        }
    };
    for c in read_ndjson(cases) {
        let s: String = c["s"].as_array().unwrap().iter().map(|x| char::from_u32(x.as_u64().unwrap() as u32).unwrap()).collect();
        match c["kind"].as_str().unwrap() {
            "hex" => hex_events(&s, &mut ev),
            "address" => address_events(&s, &mut ev),
            _ => key_events(&s, &mut ev),
        }
        if ev.len() > 400 {
            flush(&mut ev, &mut o);
        }
    }
    for i in 0..scale(400, 4000) {
        // bytes
        let n = match rng.below(5) { 0 => 0, 1 => 1, 2 => 32, 3 => 20, _ => rng.below(80) as usize };
        let b: Vec<u8> = (0..n).map(|_| rng.byte()).collect();
        let h = Hex::encode(&b);
        let th = t::Hex::encode(&b);
        for s in [
            h.as_string(),
            h.to_string(),
            serde_json::to_value(&h).unwrap().as_str().unwrap().to_string(),
            format!("0x{}", h.as_string_trim0x()),
            format!("0x{}", hex_encode(&b)),
            th.as_string(),
            format!("0x{}", th.as_string_trim0x()),
            serde_json::to_value(&th).unwrap().as_str().unwrap().to_string(),
        ] {
            ev.push(json!({"op": "printhex", "b": jb(&b), "out": text(&s)}));
        }
        let mut s = h.as_string();
        if rng.bool() {
            s = s[..2].to_string() + &s[2..].to_uppercase();
        }
        hex_events(&s, &mut ev);
        hex_events(&mutate(&mut rng, &s), &mut ev);
        // numbers
        let w = rng.below(33) as usize;
        let mut u = [0u8; 32];
        for k in 0..w {
            u[31 - k] = rng.byte();
        }
        let u = U256::from_big_endian(&u);
        let s = serde_json::to_value(Num { n: u }).unwrap()["n"].as_str().unwrap().to_string();
        let mut be = [0u8; 32];
        u.to_big_endian(&mut be);
        ev.push(json!({"op": "printuint", "n": jb(minimal(&be)), "out": text(&s)}));
        hex_events(&s, &mut ev);
        let x = match rng.below(4) { 0 => rng.below(300), 1 => u64::MAX - rng.below(3), 2 => 1 << rng.below(64), _ => rng.next() >> rng.below(64) };
        let s = serde_json::to_value(Num64 { n: x }).unwrap()["n"].as_str().unwrap().to_string();
        ev.push(json!({"op": "printuint", "n": jb(minimal(&x.to_be_bytes())), "out": text(&s)}));
        hex_events(&s, &mut ev);
        let y = if s.len() % 2 == 1 { s.replacen("0x", "0x0", 1) } else { s };
        hex_events(&y, &mut ev);
        hex_events(&mutate(&mut rng, &y), &mut ev);
        // addresses
        let a = Address(H160::from_slice(&(0..20).map(|_| rng.byte()).collect::<Vec<_>>()));
        let d = jb(keccak256(hex(a.0).as_bytes()));
        let shown = a.eip55();
        for s in [shown.clone(), a.to_string(), format!("{a:?}").trim_matches('"').to_string(), serde_json::to_value(&a).unwrap().as_str().unwrap().to_string()] {
            ev.push(json!({"op": "printaddr", "a": jb(a.0), "d": d, "out": text(&s)}));
        }
        address_events(&shown, &mut ev);
        address_events(&shown[2..], &mut ev);
        address_events(&format!("0x{}", hex(a.0)), &mut ev);
        address_events(&mutate(&mut rng, &shown), &mut ev);
        for n in [19usize, 20, 21, 0, rng.below(64) as usize] {
            let b: Vec<u8> = (0..n).map(|_| rng.byte()).collect();
            ev.push(json!({"op": "rawaddr", "b": jb(&b), "out": obs(|| Address::from_bytes(Bytes::from(b.clone())), |a| bytes(a.0))}));
        }
        // keys
        let kb = rng.bytes(32);
        let ks = format!("{}{}", rng.pick(&["0x", "0X"]), hex(&kb));
        key_events(&ks, &mut ev);
        let order = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";
        let near = match rng.below(3) { 0 => order.to_string(), 1 => format!("{}{:02x}", &order[..62], 0x3f + rng.below(5)), _ => format!("{}{}", &order[..rng.range(20, 40) as usize], &hex(rng.bytes(32))) };
        key_events(&format!("0x{}", &near[..64]), &mut ev);
        key_events(&mutate(&mut rng, &ks), &mut ev);
        // public keys
        if i % 4 == 0 {
            let sk = Secp256k1PrivateKey::try_from(kb.as_slice()).unwrap();
            let pk = sk.pub_key();
            let full = pk.to_uncompressed_bytes();
            let d = jb(keccak256(&full[1..]));
            let a = |a: Address| json!({"a": jb(a.0)});
            ev.push(json!({"op": "pubaddr", "n": 33, "d": d, "out": obs(|| Address::from_pubkey_bytes(pk.to_bytes()), a)}));
            ev.push(json!({"op": "pubaddr", "n": 65, "d": d, "out": obs(|| Address::from_pubkey_bytes(&full), a)}));
            ev.push(json!({"op": "pubaddr", "n": 65, "d": d, "out": obs(|| Ok::<_, ()>(Address::from_pubkey(&pk)), a)}));
            let rk = Secp256k1RecoverablePrivateKey::try_from(kb.as_slice()).unwrap();
            ev.push(json!({"op": "pubaddr", "n": 65, "d": d, "out": obs(|| Address::from_pubkey_bytes(rk.pub_key().to_uncompressed_bytes()), a)}));
            for n in [0usize, 1, 20, 32, 34, 64, 66, 130] {
                ev.push(json!({"op": "pubaddr", "n": n, "d": d, "out": obs(|| Address::from_pubkey_bytes(rng.bytes(n)), a)}));
            }
            // 33 bytes that are no point
            let mut bad = pk.to_bytes().to_vec();
            bad[0] = *rng.pick(&[0u8, 1, 4, 5, 255]);
            ev.push(json!({"op": "pubaddr", "n": 0, "d": d, "out": obs(|| Address::from_pubkey_bytes(&bad), a)}));
            // what is shown of secrets
            let mut b2 = kb.clone();
            b2[0] &= 0x1f;
            let bls = BlsPrivateKey::try_from(b2.as_slice()).unwrap();
            let cli = Cli::try_parse_from(["x", &format!("--key=0x{}", hex(&kb))]).ok().unwrap();
            let wrong = Cli::try_parse_from(["x", &format!("--key=0x{}g", &hex(&kb)[..63])]).err().unwrap();
            for (what, k, shown) in [
                ("secp", &kb, format!("{sk:?} {sk:#?}")),
                ("recoverable", &kb, format!("{rk:?} {rk:#?}")),
                ("bls", &b2, format!("{bls:?} {bls:#?}")),
                ("cli", &kb, format!("{:?}", cli.key)),
                ("parse", &kb, decode_256bits_key(&format!("0x{}g", &hex(&kb)[..63])).err().unwrap()),
                ("length", &kb, decode_256bits_key(&format!("0x{}00", hex(&kb))).err().unwrap()),
                ("prefix", &kb, decode_256bits_key(&hex(&kb)).err().unwrap()),
                ("clierr", &kb, format!("{wrong} {wrong:?}")),
            ] {
                ev.push(json!({"op": "secret", "what": what, "out": {"leaks": leaks(k, &shown)}}));
            }
            // the detector sees a key that is there
            assert!(leaks(&kb, &format!("{:?}", kb)) && leaks(&kb, &hex(&kb)) && leaks(&kb, &format!("{:02X?}", kb)));
        }
        if ev.len() > 400 {
            flush(&mut ev, &mut o);
        }
    }
    flush(&mut ev, &mut o);
    // the configuration of a node
    let kb = rng.bytes(32);
    let mut c: Config = common_config_parser::parse_file("/repo/devtools/chain/config.toml", false).unwrap();
    c.net_privkey = Key256Bits::from(<[u8; 32]>::try_from(kb.as_slice()).unwrap());
    c.bls_privkey = c.net_privkey.clone();
    o.trace("config", json!({"x": 0}), vec![json!({"op": "secret", "what": "config", "out": {"leaks": leaks(&kb, &format!("{c:?}"))}})]);
    o.finish();
}
