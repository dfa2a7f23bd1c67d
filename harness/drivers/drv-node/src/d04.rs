//! Hardfork features: announcements, blocks that carry them, and how they are named.
use crate::chain::*;
use crate::*;
use clap::Parser;
use common_config_parser::types::spec::{HardforkInput, HardforkName};
use core_executor::{enable_hardfork, MetadataHandle, HARDFORK_INFO};
use protocol::codec::ProtocolCodec;
use std::sync::Arc;

#[derive(Parser, Debug)]
struct Cli {
    #[arg(short = 'c')]
    config: Option<String>,
    #[command(flatten)]
    hardforks: Option<HardforkInput>,
}
fn at(list: &HardforkInfo) -> Value {
    json!(list.inner.iter().map(|i| json!({"n": i.block_number, "f": bits(&i.flags)})).collect::<Vec<_>>())
}
const SHOWN: [u64; 9] = [0, 1, 2, 3, 4, 5, 6, 7, 1_000_000];

/// announcements as such
fn pushes(o: &mut Out, id: &str, steps: &[(u64, Vec<u64>)]) {
    let mut list = HardforkInfo::default();
    let ev = steps.iter().map(|(n, f)| {
        let r = guard(|| { let mut l = list.clone(); l.push(HardforkInfoInner { block_number: *n, flags: flags(f) }); l });
        let ok = r.is_ok();
        if let Ok(l) = r { list = l }
        // stored and read again
        let back = HardforkInfo::decode(list.encode().unwrap()).unwrap();
        json!({"op": "announce", "n": n, "f": f, "list": at(&back), "ok": ok})
    }).collect();
    o.trace(id, json!({"kind": "push"}), ev);
}

/// blocks that carry announcements; restarts in between
fn blocks(o: &mut Out, id: &str, base: &str, genesis: (u64, Vec<u64>), steps: &[(String, u64, Vec<u64>)], r: &mut Rng) {
    let v = validator(H160::repeat_byte(7), 1);
    HARDFORK_INFO.swap(Arc::new(H256::zero()));
    let mut c = Chain::genesis(&format!("{base}/{id}"), &[], &metadata(100, &[v.clone()], 0x6000), HardforkInfoInner { block_number: genesis.0, flags: flags(&genesis.1) }, 50);
    let mut ev = vec![];
    let look = |c: &Chain| -> Value {
        let root = c.metadata_root();
        let infos = MetadataHandle::new(root).hardfork_infos().unwrap();
        let shown: Vec<Value> = SHOWN.iter().map(|h| {
            let keep = **HARDFORK_INFO.load();
            MetadataHandle::new(root).init_hardfork(*h).unwrap();
            let f = **HARDFORK_INFO.load();
            let on = enable_hardfork(HardforkName::Andromeda);
            HARDFORK_INFO.swap(Arc::new(keep));
            let store = core_executor::system_contract::metadata::MetadataStore::new(root).unwrap().hardfork_info(*h).unwrap();
            json!({"h": h, "f": bits(&f), "store": bits(&store), "andromeda": on})
        }).collect();
        json!({"list": at(&infos), "shown": shown})
    };
    let mut e = look(&c);
    e["op"] = json!("genesis"); e["n"] = json!(genesis.0); e["f"] = json!(genesis.1);
    ev.push(e);
    // the node starts after the genesis was made
    MetadataHandle::new(c.metadata_root()).init_hardfork(0).unwrap();
    for (op, n, f) in steps {
        let mut e = json!({});
        match op.as_str() {
            "restart" => {
                HARDFORK_INFO.swap(Arc::new(H256::zero()));
                c.restart(*r.pick(&[1usize, 3, 50]));
                MetadataHandle::new(c.metadata_root()).init_hardfork(c.number).unwrap();
            }
            "block" => {
                let mut p = Proposal::default_at(0);
                if !f.is_empty() || *n > 0 {
                    p.extra_data = vec![ExtraData { inner: HardforkInfoInner { block_number: *n, flags: flags(f) }.encode().unwrap() }];
                }
                c.block(p, &[], &[v.clone()]);
            }
            // something else than an announcement
            "junk" => {
                let mut p = Proposal::default_at(0);
                p.extra_data = vec![ExtraData { inner: vec![0xc1, 0x80, 3].into() }];
                c.block(p, &[], &[v.clone()]);
            }
            x => panic!("{x}"),
        }
        let now = **HARDFORK_INFO.load();
        let on = enable_hardfork(HardforkName::Andromeda);
        let l = look(&c);
        e["op"] = json!(op); e["n"] = json!(n); e["f"] = json!(f); e["number"] = json!(c.number); e["now"] = json!(bits(&now)); e["on"] = json!(on);
        e["list"] = l["list"].clone(); e["shown"] = l["shown"].clone();
        ev.push(e);
    }
    o.trace(id, json!({"kind": "blocks"}), ev);
    c.close();
}

/// features by name: the specification file, the command line
fn names(o: &mut Out) {
    use clap::ValueEnum;
    let all: Vec<HardforkName> = HardforkName::value_variants().to_vec();
    let real: Vec<HardforkName> = all.iter().copied().filter(|x| *x != HardforkName::None).collect();
    let text = |n: &HardforkName| format!("{n:?}");
    // which flag the executor looks at for a feature
    let own: Vec<Value> = real.iter().map(|n| json!({"name": text(n), "f": (0..256u64).filter(|b| { let keep = **HARDFORK_INFO.load(); HARDFORK_INFO.swap(Arc::new(flags(&[*b]))); let y = enable_hardfork(*n); HARDFORK_INFO.swap(Arc::new(keep)); y }).collect::<Vec<_>>()})).collect();
    let mut lists: Vec<Vec<HardforkName>> = vec![vec![]];
    for len in 1..4 {
        let mut next = vec![];
        for l in lists.iter().filter(|l: &&Vec<HardforkName>| l.len() == len - 1) {
            for n in &all { let mut m = l.clone(); m.push(*n); next.push(m) }
        }
        lists.extend(next);
    }
    let mut ev = vec![];
    for l in &lists {
        let names: Vec<String> = l.iter().map(text).collect();
        for n in [0u64, 7] {
            let x: HardforkInfoInner = HardforkInput { block_number: n, hardforks: l.clone() }.into();
            ev.push(json!({"op": "names", "by": "list", "names": names, "n": n, "out": bits(&x.flags), "outn": x.block_number}));
        }
        // the genesis of a specification file
        let toml = format!("timestamp = 1\nhardforks = [{}]\nbase_fee_per_gas = \"0x539\"\nchain_id = 5\n", names.iter().map(|n| format!("\"{n}\"")).collect::<Vec<_>>().join(", "));
        match toml::from_str::<common_config_parser::types::spec::Genesis>(&toml) {
            Ok(g) => { let x = g.generate_hardfork_info(); ev.push(json!({"op": "names", "by": "spec", "names": names, "n": 0, "out": bits(&x.flags), "outn": x.block_number})); }
            Err(e) => panic!("{e}\n{toml}"),
        }
        // the command line; a feature needs its starting block
        if !l.is_empty() {
            let mut args = vec!["hardfork".to_string(), "--hardfork-start-number".into(), "12".into()];
            for n in l { args.push("--feature".into()); args.push(n.to_possible_value().unwrap().get_name().to_string()); }
            let r = guard(|| Cli::try_parse_from(&args).ok().and_then(|c| c.hardforks.map(HardforkInfoInner::from)));
            match r {
                Ok(Some(x)) => ev.push(json!({"op": "names", "by": "cli", "names": names, "n": 12, "out": bits(&x.flags), "outn": x.block_number})),
                _ => ev.push(json!({"op": "names", "by": "cli", "names": names, "n": 12, "out": [9999], "outn": 0})),
            }
        }
    }
    o.trace("names", json!({"kind": "names", "own": own}), ev);
}

pub fn main(cases: &str, out: &str, base: &str) {
    let mut o = Out::create(out);
    let mut r = Rng::new(seed());
    names(&mut o);
    for (i, c) in read_ndjson(cases).iter().enumerate() {
        let steps: Vec<(u64, Vec<u64>)> = c.as_array().unwrap().iter().map(|e| (e["n"].as_u64().unwrap(), e["f"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect())).collect();
        // numbers and flags of every size: what matters is their order
        pushes(&mut o, &format!("push{i}"), &steps);
        if i % 5 == 0 {
            let steps: Vec<(u64, Vec<u64>)> = steps.iter().map(|(n, f)| (n * 100_003 + 17, f.iter().map(|b| [192u64, 200, 255, 0][*b as usize % 4]).collect())).collect();
            pushes(&mut o, &format!("wide{i}"), &steps);
        }
    }
    run(async {
        for (i, c) in read_ndjson(cases).iter().enumerate().filter(|(i, _)| i % scale(6, 1) == 0) {
            let mut steps: Vec<(String, u64, Vec<u64>)> = vec![];
            for e in c.as_array().unwrap() {
                if r.chance(1, 3) { steps.push(("block".into(), 0, vec![])) }
                if r.chance(1, 4) { steps.push(("restart".into(), 0, vec![])) }
                if r.chance(1, 8) { steps.push(("junk".into(), 0, vec![])) }
                // bit 192 is the one of the first feature
                steps.push(("block".into(), e["n"].as_u64().unwrap(), e["f"].as_array().unwrap().iter().map(|x| [192u64, 193, 0, 255][x.as_u64().unwrap() as usize % 4]).collect()));
            }
            for _ in 0..r.below(5) { steps.push(("block".into(), 0, vec![])) }
            steps.push(("restart".into(), 0, vec![]));
            let g = match r.below(3) { 0 => (0, vec![]), 1 => (0, vec![192]), _ => (0, vec![193]) };
            blocks(&mut o, &format!("blocks{i}"), base, g, &steps, &mut r);
        }
    });
    o.finish();
}
