//! Log files: every record in exactly one file, through rotations; level filters by module.
use crate::{roller::DateFixedWindowRoller, CLOCK};
use log4rs::append::rolling_file::policy::compound::roll::Roll;
use std::collections::{BTreeMap, HashMap};
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::Ordering;
use vcommon::*;

const LEVELS: &[&str] = &["off", "error", "warn", "info", "debug", "trace"];
fn level(n: u64) -> log::Level {
    [log::Level::Error, log::Level::Warn, log::Level::Info, log::Level::Debug, log::Level::Trace][n as usize - 1]
}
fn date_of(secs: i64) -> String {
    chrono::NaiveDateTime::from_timestamp_opt(secs, 0).unwrap().format("%Y-%m-%d").to_string()
}

/// the records of a file, in order; anything that is not a whole record is -1
fn records(p: &Path, json_lines: bool) -> Vec<i64> {
    let Ok(b) = std::fs::read(p) else { return vec![] };
    let s = String::from_utf8_lossy(&b);
    let mut out = vec![];
    if !s.is_empty() && !s.ends_with('\n') {
        out.push(-1);
    }
    for l in s.lines() {
        let msg = if json_lines { serde_json::from_str::<Value>(l).ok().and_then(|v| v["message"].as_str().map(|x| x.to_string())).unwrap_or_default() } else { l.to_string() };
        // "#12 xxxx 12#": whole when both ends agree
        let a = msg.strip_prefix('#').and_then(|x| x.split(' ').next()).and_then(|x| x.parse::<i64>().ok());
        let b = msg.strip_suffix('#').and_then(|x| x.rsplit(' ').next()).and_then(|x| x.parse::<i64>().ok());
        let mid: bool = msg.split(' ').nth(1).map(|m| m.chars().all(|c| c == 'x')).unwrap_or(false);
        out.push(match (a, b) { (Some(a), Some(b)) if a == b && mid => a, _ => -1 });
    }
    out
}
fn message(id: u64, len: usize) -> String {
    format!("#{id} {} {id}#", "x".repeat(len))
}
fn date_in(name: &str) -> String {
    // the first thing of the form dddd-dd-dd
    let b: Vec<char> = name.chars().collect();
    for i in 0..b.len().saturating_sub(9) {
        let w = &b[i..i + 10];
        if w.iter().enumerate().all(|(k, c)| if k == 4 || k == 7 { *c == '-' } else { c.is_ascii_digit() }) {
            return w.iter().collect();
        }
    }
    "none".into()
}
fn walk(d: &Path, out: &mut Vec<PathBuf>) {
    if let Ok(r) = std::fs::read_dir(d) {
        for e in r.flatten() {
            if e.path().is_dir() { walk(&e.path(), out) } else { out.push(e.path()) }
        }
    }
}
/// what is in the log directory: the active file, and the archives of a stream with their dates
fn observe(root: &Path, active: &Path, mark: &str, json_lines: bool) -> (Vec<i64>, Vec<(String, Vec<i64>)>, u64) {
    let mut files = vec![];
    walk(root, &mut files);
    files.sort();
    let mut arch = vec![];
    for f in files {
        if f == active || !f.display().to_string().contains(mark) || f.file_name().unwrap() == "axon.log" || f.file_name().unwrap() == "metrics.log" {
            continue;
        }
        let rel = f.strip_prefix(root).unwrap().display().to_string();
        arch.push((date_in(&rel), records(&f, json_lines)));
    }
    (records(active, json_lines), arch, std::fs::metadata(active).map(|m| m.len()).unwrap_or(0))
}
fn out_of(o: &(Vec<i64>, Vec<(String, Vec<i64>)>, u64)) -> Value {
    json!({"active": o.0, "arch": o.1.iter().map(|(d, r)| json!({"date": d, "recs": r})).collect::<Vec<_>>()})
}

// ------------------------------------------------------------------ the logger as a whole, in a process of its own
/// spec: {dir, filter, metrics, limit, modules, pre, steps: [{t, target, level, len}]}
pub fn child(spec: &str) {
    let s: Value = serde_json::from_str(&std::fs::read_to_string(spec).unwrap()).unwrap();
    let dir = PathBuf::from(s["dir"].as_str().unwrap());
    let modules: HashMap<String, String> = s["modules"].as_array().unwrap().iter().map(|m| (m["name"].as_str().unwrap().to_string(), m["level"].as_str().unwrap().to_string())).collect();
    CLOCK.store(s["steps"][0]["t"].as_i64().unwrap(), Ordering::SeqCst);
    common_logger::init(s["filter"].as_str().unwrap().to_string(), false, false, true, s["metrics"].as_bool().unwrap(), dir.clone(), s["limit"].as_u64().unwrap(), modules);
    let mut ev = vec![];
    for (i, st) in s["steps"].as_array().unwrap().iter().enumerate() {
        let id = i as u64 + 1;
        let t = st["t"].as_i64().unwrap();
        CLOCK.store(t, Ordering::SeqCst);
        let m = message(id, st["len"].as_u64().unwrap() as usize);
        let target = st["target"].as_str().unwrap();
        let before: u64 = ["axon.log", "metrics.log"].iter().map(|f| std::fs::metadata(dir.join(f)).map(|m| m.len()).unwrap_or(0)).sum();
        let _ = before;
        log::log!(target: target, level(st["level"].as_u64().unwrap()), "{}", m);
        log::logger().flush();
        let a = observe(&dir, &dir.join("axon.log"), ".axon.", true);
        let x = observe(&dir, &dir.join("metrics.log"), ".metrics.", true);
        let c = records(&dir.join("cli.log"), true);
        ev.push(json!({"op": "log", "id": id, "target": target.split("::").map(|x| jb(x)).collect::<Vec<_>>(), "level": st["level"], "date": date_of(t),
                       "out": {"axon": out_of(&a), "metrics": out_of(&x), "cli": c}, "sizes": {"axon": a.2, "metrics": x.2}}));
    }
    println!("{}", Value::Array(ev));
}

fn scenario(n: usize, base: &str, cfg: &Value, steps: &[Value], o: &mut Out) {
    let dir = Path::new(base).join(format!("log{n}"));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut s = cfg.clone();
    s["dir"] = json!(dir.display().to_string());
    s["steps"] = json!(steps);
    let sp = Path::new(base).join(format!("log{n}.json"));
    std::fs::write(&sp, s.to_string()).unwrap();
    let r = Command::new(std::env::current_exe().unwrap()).arg("i01-child").arg(&sp).output().unwrap();
    let txt = String::from_utf8_lossy(&r.stdout).to_string();
    let ev = txt.lines().rev().find_map(|l| serde_json::from_str::<Value>(l).ok()).unwrap_or_else(|| json!([{"op": "died", "out": {"died": true}}]));
    let lv = |s: &str| LEVELS.iter().position(|x| *x == s).map(|x| x as u64).unwrap_or(3);
    let tc = json!({"filter": lv(cfg["filter"].as_str().unwrap()), "metrics": cfg["metrics"], "limit": cfg["limit"],
        "modules": cfg["modules"].as_array().unwrap().iter().map(|m| json!({"name": m["name"].as_str().unwrap().split("::").map(|x| jb(x)).collect::<Vec<_>>(), "level": lv(m["level"].as_str().unwrap())})).collect::<Vec<_>>()});
    o.trace(&format!("logger-{n}"), tc, ev.as_array().unwrap().clone());
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::fs::remove_file(&sp);
}

pub fn run(cases: &str, out: &str, base: &str) {
    let mut o = Out::create(out);
    let mut r = Rng::new(seed());
    // a second before midnight, new year, leap day
    let days = [1_735_603_199i64, 1_609_459_199, 1_735_689_599, 1_672_531_199, 1_262_303_999, 1_703_980_799, 1_704_067_199, 1_709_164_799, 1_583_020_799, 951_782_399, 4_107_542_399];
    let mut n = 0;
    let modules = ["core", "core::consensus", "core::consensus::engine", "cor", "core_x", "overlord", "metric", "core::cons", "net", "cli2"];
    let targets = ["core", "core::consensus", "core::consensus::engine", "core::consensus::engine::x", "core::cons", "core::consensusx", "cor", "core_x", "corex",
                   "overlord", "overlord::smr", "metrics", "metrics::y", "metricsx", "cli", "cli::z", "net", "other", "Core"];
    for t in 0..scale(60, 900) {
        n += 1;
        let k = r.below(5) as usize;
        let mut ms: BTreeMap<&str, &str> = BTreeMap::new();
        for _ in 0..k {
            ms.insert(*r.pick(&modules), *r.pick(LEVELS));
        }
        let filter = if r.chance(1, 12) { "INFO" } else { *r.pick(LEVELS) };
        // with t % 3 = 0 it is about rotation
        let rot = t % 3 == 0;
        let filter = if rot { "trace" } else { filter };
        let limit = if rot { *r.pick(&[1u64, 150, 400, 900, 2000]) } else { 10_000_000 };
        let mut now = *r.pick(&days) - r.below(3) as i64;
        let steps: Vec<Value> = (0..if rot { r.range(5, 25) } else { 40 }).map(|_| {
            now += *r.pick(&[0i64, 0, 0, 0, 1, 1, 3600, 90_000]);
            json!({"t": now, "target": *r.pick(&targets), "level": r.range(1, 5), "len": r.below(if rot { 300 } else { 5 })})
        }).collect();
        let ms: Vec<Value> = ms.iter().map(|(a, b)| json!({"name": a, "level": b})).collect();
        scenario(n, base, &json!({"filter": filter, "metrics": r.chance(3, 4), "limit": limit, "modules": ms}), &steps, &mut o);
    }
    o.finish();
    rolls(cases, &format!("{out}.roll"), base, &mut r, &days);
}

// ------------------------------------------------------------------ the roller alone
fn rolls(cases: &str, out: &str, base: &str, r: &mut Rng, days: &[i64]) {
    let mut o = Out::create(out);
    let mut cs: Vec<Vec<Value>> = read_ndjson(cases).iter().map(|c| c.as_array().unwrap().clone()).collect();
    for _ in 0..scale(100, 3000) {
        cs.push((0..r.range(4, 30)).map(|_| match r.below(5) {
            0 | 1 => json!({"op": "write"}),
            2 | 3 => json!({"op": "roll"}),
            _ => json!({"op": "tick", "d": *r.pick(&[1i64, 1, 2, 60, 86_400])}),
        }).collect());
    }
    let shm = Path::new("/dev/shm");
    let far = shm.is_dir() && std::fs::write(shm.join("verif-i01"), b"x").is_ok();
    let _ = std::fs::remove_file(shm.join("verif-i01"));
    for (n, steps) in cs.iter().enumerate() {
        let root = Path::new(base).join(format!("roll{n}"));
        let _ = std::fs::remove_dir_all(&root);
        std::fs::create_dir_all(&root).unwrap();
        // the active file may lie on another file system
        let away = far && n % 5 == 4;
        let adir = if away { shm.join(format!("verif-i01-{}-{n}", std::process::id())) } else { root.clone() };
        std::fs::create_dir_all(&adir).unwrap();
        let active = adir.join("now.log");
        let pat = *r.pick(&["{date}.axon.{timestamp}.log", "{timestamp}.axon.{date}.log", "axon.{date}/{timestamp}.log", "a/b/{date}.axon.{timestamp}", "axon.{timestamp}/{date}/{date}.log"]);
        let roller = DateFixedWindowRoller::builder().build(&root.join(pat).to_string_lossy()).unwrap();
        let mut now = *r.pick(days);
        CLOCK.store(now, Ordering::SeqCst);
        let mut ev = vec![];
        let mut id = 0u64;
        for s in steps {
            match s["op"].as_str().unwrap() {
                "write" => {
                    id += 1;
                    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&active).unwrap();
                    writeln!(f, "{}", message(id, r.below(30) as usize)).unwrap();
                    drop(f);
                    ev.push(json!({"op": "write", "id": id, "out": out_of(&observe(&root, &active, "axon", false))}));
                }
                "roll" => {
                    let res = guard(|| roller.roll(&active).is_ok());
                    ev.push(json!({"op": "roll", "date": date_of(now), "ok": res.unwrap_or(false), "out": out_of(&observe(&root, &active, "axon", false))}));
                }
                _ => {
                    now += s["d"].as_i64().unwrap();
                    CLOCK.store(now, Ordering::SeqCst);
                }
            }
        }
        CLOCK.store(-1, Ordering::SeqCst);
        o.trace(&format!("roll-{n}"), json!({"k": 0}), ev);
        let _ = std::fs::remove_dir_all(&root);
        if away {
            let _ = std::fs::remove_dir_all(&adir);
        }
    }
    o.finish();
}
