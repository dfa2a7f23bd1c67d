//! Starting on a data directory: which versions may, and what is left in the version file.
use crate::utils::check_version;
use common_version::Version;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::str::FromStr;
use vcommon::*;

fn text(v: &Value) -> String {
    let mut s = format!("{}.{}.{}", v["major"], v["minor"], v["patch"]);
    let pre: Vec<String> = v["pre"].as_array().unwrap().iter().map(|i| {
        if i["num"].as_bool().unwrap() { i["n"].to_string() } else { String::from_utf8(bytes_of(&i["s"])).unwrap() }
    }).collect();
    if !pre.is_empty() {
        s += "-";
        s += &pre.join(".");
    }
    s
}
const BAD: &[&str] = &["garbage", "1", "0.1", "0.1.0.0", "01.0.0", "0.1.0-", "0.1.0-01", "v0.1.0", " ", "\n", "0.1.0\n", "9999999999999999999999.0.0", "-1.0.0", "0..1", "\u{0}"];

struct Dir(PathBuf);
impl Dir {
    fn new(base: &str, n: usize) -> Dir {
        let p = Path::new(base).join(format!("d{n}"));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn left(p: &Path) -> Value {
    match std::fs::read(p) {
        Ok(b) => jb(b),
        Err(_) => json!([-2]),
    }
}

fn start(p: &Path, least: &Value, cur: &Value, build: &str, lbuild: usize) -> Value {
    let curv = if build.is_empty() { Version::from_str(&text(cur)).unwrap() } else { Version::new_with_commit_id(&text(cur), build) };
    let leastv = if lbuild == 0 { Version::new(&text(least)) } else { Version::from_str(&text(least)).unwrap() };
    let full = if build.is_empty() { text(cur) } else { format!("{}+{}", text(cur), build) };
    let r = guard(|| check_version(p, &curv, leastv).is_ok());
    json!({"op": "start", "least": least, "cur": cur, "curbytes": jb(&full), "out": {"started": r.unwrap_or(false), "left": left(p)}})
}

pub fn rand_version(r: &mut Rng) -> Value {
    let small = |r: &mut Rng| *r.pick(&[0u64, 0, 1, 1, 2, 9, 10, 11, 99, 100]);
    let n = if r.bool() { 0 } else { r.range(1, 3) };
    let pre: Vec<Value> = (0..n).map(|_| {
        if r.bool() {
            json!({"num": true, "n": small(r), "s": []})
        } else {
            let w = *r.pick(&["alpha", "beta", "rc", "a", "b", "alphA", "al-pha", "1a", "0a", "-", "beta1", "beta10"]);
            json!({"num": false, "n": 0, "s": jb(w)})
        }
    }).collect();
    json!({"major": small(r), "minor": small(r), "patch": small(r), "pre": pre})
}
fn near(r: &mut Rng, v: &Value) -> Value {
    let mut w = v.clone();
    match r.below(7) {
        0 => {}
        1 => w["major"] = json!(v["major"].as_u64().unwrap() + 1),
        2 => w["minor"] = json!(v["minor"].as_u64().unwrap() + 1),
        3 => w["patch"] = json!(v["patch"].as_u64().unwrap() + 1),
        4 => w["pre"] = json!([]),
        5 => w["pre"] = rand_version(r)["pre"].clone(),
        _ => return rand_version(r),
    }
    w
}

pub fn run(cases: &str, out: &str, base: &str) {
    let mut o = Out::create(out);
    let mut r = Rng::new(seed());
    let mut n = 0;
    let builds = ["", "unknown", "abc123", "0", "zzz.1"];
    let lay = |dir: &Dir, rec: &Value, r: &mut Rng| -> (PathBuf, Value, Value) {
        // the directory may have to be made
        let p = if r.chance(1, 4) { dir.0.join("db").join("VERSION") } else { dir.0.join("version") };
        let mut rec = rec.clone();
        let bytes = match rec["kind"].as_str().unwrap() {
            "none" => {
                // an empty file records nothing either
                if r.bool() { None } else { Some(String::new()) }
            }
            "version" => {
                let b = *r.pick(&builds);
                Some(if b.is_empty() { text(&rec["v"]) } else { format!("{}+{}", text(&rec["v"]), b) })
            }
            _ => Some(r.pick(BAD).to_string()),
        };
        if rec["kind"] != "version" {
            rec = json!({"kind": rec["kind"]});
        }
        let bv = match &bytes {
            Some(b) => {
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(&p, b).unwrap();
                jb(b)
            }
            None => json!([-2]),
        };
        (p, rec, bv)
    };
    for c in read_ndjson(cases) {
        n += 1;
        let d = Dir::new(base, n);
        let (p, rec, bytes) = lay(&d, &c["rec"], &mut r);
        let b = *r.pick(&builds);
        let e = start(&p, &c["least"], &c["cur"], b, r.below(2) as usize);
        let e2 = start(&p, &c["least"], &c["cur"], b, 0);
        o.trace(&format!("case-{n}"), json!({"rec": rec, "bytes": bytes}), vec![e, e2]);
    }
    // histories of starts, upgrades and downgrades
    for t in 0..scale(400, 8000) {
        n += 1;
        let d = Dir::new(base, n);
        let v0 = rand_version(&mut r);
        let rec = match r.below(8) {
            0 => json!({"kind": "none"}),
            1 => json!({"kind": "bad"}),
            _ => json!({"kind": "version", "v": v0}),
        };
        let (p, rec, bytes) = lay(&d, &rec, &mut r);
        let mut ev = vec![];
        let mut v = v0;
        for _ in 0..r.range(2, 6) {
            let least = near(&mut r, &v);
            let cur = near(&mut r, &v);
            let b = *r.pick(&builds);
            ev.push(start(&p, &least, &cur, b, r.below(2) as usize));
            v = cur;
        }
        o.trace(&format!("hist-{t}"), json!({"rec": rec, "bytes": bytes}), ev);
    }
    // the order itself and the text form
    for t in 0..scale(60, 2000) {
        let mut ev = vec![];
        for _ in 0..12 {
            let a = rand_version(&mut r);
            let b = near(&mut r, &a);
            let build = *r.pick(&builds);
            let mk = |x: &Value| if build.is_empty() { Version::from_str(&text(x)).unwrap() } else { Version::new_with_commit_id(&text(x), build) };
            let (va, vb) = (mk(&a), mk(&b));
            ev.push(json!({"op": "order", "a": a, "b": b, "out": {"lt": va < vb, "gt": va > vb}}));
            let full = if build.is_empty() { text(&a) } else { format!("{}+{}", text(&a), build) };
            let same = va.to_string() == full && Version::from_str(&full).ok() == Some(va.clone()) && (build.is_empty() || va.commit_id() == build);
            ev.push(json!({"op": "print", "out": {"same": same}}));
        }
        o.trace(&format!("order-{t}"), json!({"rec": {"kind": "none"}, "bytes": [-2]}), ev);
    }
    o.finish();
    crashes(&format!("{out}.crash"), &format!("{out}.disk"), base, &mut r);
}

/// one start, alone in its process
pub fn child(p: &str, least: &str, cur: &str) {
    let r = guard(|| check_version(Path::new(p), &Version::from_str(cur).unwrap(), Version::new(least)).is_ok());
    std::process::exit(if r.unwrap_or(false) { 0 } else { 3 });
}

fn crashes(out: &str, disk: &str, base: &str, r: &mut Rng) {
    let mut o = Out::create(out);
    let mut dk = Out::create(disk);
    let exe = std::env::current_exe().unwrap();
    let works = Command::new("strace").args(["-o", "/dev/null", "true"]).output().map(|x| x.status.success()).unwrap_or(false);
    if !works {
        println!("strace is not permitted here: no crash points");
        o.finish();
        dk.finish();
        return;
    }
    let mut n = 0;
    for t in 0..scale(4, 24) {
        let v0 = rand_version(r);
        let (least, cur) = if t % 4 == 3 { (near(r, &v0), near(r, &v0)) } else { (v0.clone(), near(r, &v0)) };
        let fresh = t % 4 == 2;
        let cfg = if fresh { json!({"rec": {"kind": "none"}, "bytes": [-2]}) } else { json!({"rec": {"kind": "version", "v": v0}, "bytes": jb(text(&v0))}) };
        let mut lay = || {
            n += 1;
            let d = Dir::new(base, 900_000 + n);
            let p = d.0.join("version");
            if !fresh {
                std::fs::write(&p, text(&v0)).unwrap();
            }
            (d, p)
        };
        // what is written, in order
        let (d, p) = lay();
        let log = Path::new(base).join("strace.out");
        let args: Vec<String> = vec!["i02-child".into(), p.display().to_string(), text(&least), text(&cur)];
        let calls = "openat,open,creat,write,pwrite64,writev,ftruncate,fsync,fdatasync,rename,renameat,renameat2,link,linkat,unlink,unlinkat,mkdir,close,sync_file_range,syncfs";
        let st = Command::new("strace").args(["-f", "-y", "-xx", "-s", "4096", "-e"]).arg(format!("trace={calls}")).arg("-o").arg(&log).arg(&exe).args(&args).output().unwrap();
        let started = st.status.success();
        let text_log = std::fs::read_to_string(&log).unwrap();
        let (evs, total) = disk_events(&text_log, &p, &d.0);
        let end = left(&p);
        if started {
            let mut ev = evs;
            ev.push(json!({"op": "end"}));
            dk.trace(&format!("disk-{t}"), json!({"old": cfg["bytes"], "new": jb(text(&cur))}), ev);
        }
        let _ = end;
        drop(d);
        // ended at every one of them
        let mut ev = vec![];
        for k in 1..=total {
            let (_d, p) = lay();
            let args: Vec<String> = vec!["i02-child".into(), p.display().to_string(), text(&least), text(&cur)];
            let _ = Command::new("strace").args(["-f", "-o", "/dev/null", "-e"]).arg(format!("trace={calls}")).arg("-e")
                .arg(format!("inject={calls}:signal=KILL:when={k}")).arg(&exe).args(&args).output().unwrap();
            ev.push(json!({"op": "killed", "least": least, "cur": cur, "curbytes": jb(text(&cur)), "out": {"left": left(&p)}}));
        }
        o.trace(&format!("crash-{t}"), cfg, ev);
    }
    o.finish();
    dk.finish();
}

/// the calls that touch the directory, as steps of the specification; and how many calls there were
fn disk_events(log: &str, p: &Path, dir: &Path) -> (Vec<Value>, usize) {
    let mut ev = vec![];
    let mut total = 0;
    let unx = |s: &str| -> Vec<u8> {
        let s = s.replace("\\x", "");
        unhex(&s)
    };
    let name = |path: &[u8]| -> Option<Value> {
        let q = PathBuf::from(String::from_utf8_lossy(path).to_string());
        if q == p {
            Some(json!("P"))
        } else if q == dir {
            Some(json!("."))
        } else if q.starts_with(dir) {
            Some(json!(q.display().to_string()))
        } else {
            None
        }
    };
    for l in log.lines() {
        let l = l.split_once(' ').map(|x| x.1.trim_start()).unwrap_or(l);
        let Some((call, rest)) = l.split_once('(') else { continue };
        if !call.chars().all(|c| c.is_alphanumeric() || c == '_') {
            continue;
        }
        total += 1;
        if rest.contains(") = -1") || rest.contains(" = ? ") {
            continue;
        }
        // quoted arguments, and the file an open descriptor stands for
        let quoted: Vec<Vec<u8>> = rest.split('"').skip(1).step_by(2).map(|s| unx(s)).collect();
        let fd = rest.split_once('<').filter(|x| x.0.chars().all(|c| c.is_ascii_digit())).and_then(|x| x.1.split_once('>')).map(|x| {
            let s = x.0;
            if s.contains("\\x") { unx(s) } else { s.as_bytes().to_vec() }
        });
        let of = |b: &Option<Vec<u8>>| b.as_ref().and_then(|b| name(b));
        let q0 = quoted.first().cloned();
        let q1 = quoted.get(1).cloned();
        match call {
            "open" | "openat" | "creat" => {
                if let Some(f) = of(&q0) {
                    if rest.contains("O_CREAT") && (rest.contains("O_EXCL") || f != "P") || call == "creat" {
                        ev.push(json!({"op": "io", "do": "create", "f": f}));
                    } else if rest.contains("O_TRUNC") {
                        ev.push(json!({"op": "io", "do": "trunc", "f": f}));
                    }
                }
            }
            "write" | "pwrite64" | "writev" => {
                if let Some(f) = of(&fd) {
                    ev.push(json!({"op": "io", "do": "write", "f": f, "data": jb(q0.unwrap_or_default())}));
                }
            }
            "ftruncate" => {
                if let Some(f) = of(&fd) {
                    ev.push(json!({"op": "io", "do": "trunc", "f": f}));
                }
            }
            "fsync" | "fdatasync" => {
                if let Some(f) = of(&fd) {
                    if f == "." {
                        ev.push(json!({"op": "io", "do": "syncdir"}));
                    } else {
                        ev.push(json!({"op": "io", "do": "sync", "f": f}));
                    }
                }
            }
            "rename" | "renameat" | "renameat2" => {
                if let (Some(f), Some(g)) = (of(&q0), of(&q1)) {
                    ev.push(json!({"op": "io", "do": "rename", "f": f, "g": g}));
                }
            }
            "unlink" | "unlinkat" => {
                if let Some(f) = of(&q0) {
                    ev.push(json!({"op": "io", "do": "unlink", "f": f}));
                }
            }
            _ => {}
        }
    }
    (ev, total)
}
