"""Shared machinery: build the drivers from /repo's current tree, run TLC, replay, judge, write evidence."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPECS = os.path.join(VERIF, "specs")
TARGET = os.path.join(VERIF, "target")
HARNESS = os.path.join(VERIF, "harness")
TOOLCHAIN = "1.72"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"


class ToolError(Exception):
    pass


class RunDied(ToolError):
    """the code under test ended the process that ran it, or did not come back"""


def log(*a):
    print(*a, flush=True)


# --------------------------------------------------------------------------- build
# cargo package name -> directory in /repo that holds its sources
REPO_PKGS = {
    "axon-protocol": "protocol",
    "common-apm-derive": "common/apm-derive",
    "common-config-parser": "common/config-parser",
    "common-crypto": "common/crypto",
    "common-hasher": "common/hasher",
    "common-logger": "common/logger",
    "common-merkle": "common/merkle",
    "common-version": "common/version",
    "core-interoperation": "core/interoperation",
    "core-rpc-client": "core/rpc-client",
    "axon-tools": "devtools/axon-tools",
    "core-db": "core/db",
    "core-storage": "core/storage",
    "core-mempool": "core/mempool",
    "core-executor": "core/executor",
    "core-consensus": "core/consensus",
    # packages of ours that include files of /repo
    "core-api": "core/api",
    "core-network-node": "core/network",
    "drv-protocol": "core/cli",
    "drv-base": "core/cli",
}


def tree_hash(d):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(d):
        dirs.sort()
        dirs[:] = [x for x in dirs if x not in (".git", "target", "node_modules")]
        for f in sorted(files):
            p = os.path.join(root, f)
            if os.path.islink(p):
                continue
            h.update(os.path.relpath(p, d).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def cargo_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET,
             CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", RUSTFLAGS="-Awarnings --cap-lints allow")
    e.pop("CARGO_BUILD_TARGET", None)
    return e


def build(pkgs):
    """Build driver packages; sources of /repo that differ from the ones last built are always rebuilt."""
    os.makedirs(TARGET, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(TARGET, ".verif.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp_file = os.path.join(TARGET, "verif-stamps.json")
        try:
            stamps = json.load(open(stamp_file))
        except Exception:
            stamps = {}
        now = {k: tree_hash(os.path.join(REPO, d)) for k, d in REPO_PKGS.items()}
        members = workspace_members()
        # common/apm and others of which we use only a stand-in are not built
        dirty = [k for k in now if k in members and stamps.get(k) not in (None, now[k])]
        env = cargo_env()
        for k in dirty:
            subprocess.run(["cargo", "clean", "--offline", "-p", k], cwd=HARNESS, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            stamps.pop(k, None)
        if dirty:
            json.dump(stamps, open(stamp_file, "w"))
        cmd = ["cargo", "build", "--offline", "--quiet"]
        for p in pkgs:
            cmd += ["-p", p]
        r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            # stamps of packages that may or may not have been rebuilt are dropped
            raise ToolError("build of %s failed:\n%s" % (pkgs, r.stdout[-6000:]))
        stamps.update(now)
        json.dump(stamps, open(stamp_file, "w"))
    log("built %s in %.1fs%s" % (" ".join(pkgs), time.time() - t0, " (changed: %s)" % " ".join(dirty) if dirty else ""))


def workspace_members():
    out = set(REPO_PKGS)
    return out


def driver(name):
    return os.path.join(TARGET, "debug", name)


# --------------------------------------------------------------------------- work directory
class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = 0          # distinct states found by TLC, all runs
        self.transitions = 0     # states generated by TLC, all runs
        self.traces = 0          # implementation traces judged
        self.events = 0
        self.samples = []
        self.extra = {}
        self.violations = []     # (key, text, replay)
        self.assumptions = []
        self.exhaustive_models = []

    def path(self, *a):
        return os.path.join(self.work, *a)

    # ---------------------------------------------------------------- TLC
    def tlc(self, spec, cfg, env=None, workers=8, timeout=800, simulate=None, depth=None, extra=(), heap="6g",
            allow=(0,)):
        """Run TLC on specs/<spec>.tla with the configuration text or file `cfg`. Returns stdout."""
        n = len([x for x in os.listdir(self.work) if x.startswith("tlc")])
        meta = self.path("tlc%d" % n)
        os.makedirs(meta)
        if cfg.endswith(".cfg"):
            cfgp = os.path.join(SPECS, cfg)
        else:
            cfgp = os.path.join(meta, "M.cfg")
            open(cfgp, "w").write(cfg)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + SPECS, "-Dtlc2.tool.impl.Tool.cdot=true",
               "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
               "-metadir", meta, "-config", cfgp, "-workers", str(workers), "-deadlock", "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(SEED), "-aril", "0"]
        if depth:
            cmd += ["-depth", str(depth)]
        cmd += list(extra) + [os.path.join(SPECS, spec + ".tla")]
        try:
            r = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC on %s did not finish in %ds" % (spec, timeout))
        open(os.path.join(meta, "out.txt"), "w").write(r.stdout)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout)
        if m:
            self.transitions += int(m[-1][0].replace(",", ""))
            self.states += int(m[-1][1].replace(",", ""))
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", r.stdout)
            if m:
                self.transitions += int(m[-1].replace(",", ""))
        if r.returncode not in allow:
            raise ToolError("TLC on %s (rc %d):\n%s" % (spec, r.returncode, tail_err(r.stdout)))
        return r.stdout

    def model_check(self, spec, cfg, **kw):
        """Exhaustive check of the specification itself; any violation is a defect of the specification."""
        t = time.time()
        s0, g0 = self.states, self.transitions
        self.tlc(spec, cfg, **kw)
        d = {"spec": spec, "distinct": self.states - s0, "generated": self.transitions - g0,
             "wall_s": round(time.time() - t, 1)}
        self.exhaustive_models.append(d)
        log("model %s: %d distinct states, %d generated, %.1fs" % (spec, d["distinct"], d["generated"], d["wall_s"]))

    def gen(self, spec, cfg, name="gen.ndjson", **kw):
        """Run TLC to enumerate behaviours; every printed @@GEN json line is collected in a file."""
        out = self.tlc(spec, cfg, env=dict(kw.pop("env", {})), **kw)
        p = self.path(name)
        n = 0
        seen = set()
        with open(p, "w") as f:
            for line in out.splitlines():
                if '@@GEN ' not in line:
                    continue
                s = line.strip()
                if s.startswith('"'):
                    s = json.loads(s)
                s = s[s.index("@@GEN ") + 6:]
                if s in seen:
                    continue
                seen.add(s)
                f.write(s + "\n")
                n += 1
        if n == 0:
            raise ToolError("no behaviours generated by %s" % spec)
        log("generated %d behaviours from %s" % (n, spec))
        return p, n

    # ---------------------------------------------------------------- driver
    def drive(self, binary, args, timeout=600, env=None):
        e = dict(os.environ)
        e.update(RUST_BACKTRACE="0", VERIF_SEED=str(SEED), VERIF_TIER=TIER)
        e.update(env or {})
        errp = self.path("driver.err")
        t = time.time()
        with open(errp, "ab") as err:
            try:
                r = subprocess.run([driver(binary)] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=err,
                                   timeout=timeout, env=e, cwd=self.work)
            except subprocess.TimeoutExpired:
                self.violation("run:%s" % args[0], {"specification_says": "every step ends", "event": "driver %s %s did not finish in %ds" % (binary, args[:1], timeout)})
                raise RunDied("driver %s %s did not finish in %ds" % (binary, args[:1], timeout))
        if r.returncode != 0:
            tl = open(errp, "rb").read()[-3000:].decode("utf8", "replace")
            self.violation("run:%s" % args[0], {"specification_says": "every step ends", "event": "driver %s %s ended with %d: %s" % (binary, args, r.returncode, tl)})
            raise RunDied("driver %s %s ended with %d:\n%s" % (binary, args, r.returncode, tl))
        log("driver %s %s: %.1fs" % (binary, args[0], time.time() - t))
        return r.stdout.decode("utf8", "replace")

    # ---------------------------------------------------------------- trace validation
    def judge(self, spec, traces_file, consts="", key=None, keep_samples=1, env=None, replacements="", **kw):
        """Check every trace of the file against specs/<spec>.tla (which extends Replay)."""
        lines = [l for l in open(traces_file) if l.strip()]
        if not lines:
            raise ToolError("no traces in %s" % traces_file)
        bad = self._judge_raw(spec, lines, consts, replacements, env, **kw)
        self.traces += len(lines)
        for l in lines:
            self.events += l.count('"op"')
        for l in lines[:keep_samples]:
            self.samples.append(json.loads(l) if len(l) < 3000 else {"trace": l[:1500] + "..."})
        for (ti, ei, why) in bad:
            tr = json.loads(lines[ti - 1])
            ev = tr["ev"][ei - 1] if 0 < ei <= len(tr["ev"]) else None
            k = key(tr, ei, ev) if key else "%s:%s" % (tr.get("id"), ei)
            self.violation(k, {"trace": tr, "event_index": ei, "event": ev, "specification_says": why, "spec": spec})
        log("judged %d traces against %s: %d bad" % (len(lines), spec, len(bad)))
        self._selfcheck_lines = lines
        return bad

    def _judge_raw(self, spec, lines, consts, replacements, env, chunk=None, **kw):
        n = len([x for x in os.listdir(self.work) if x.startswith("traces")])
        p = self.path("traces%d.ndjson" % n)
        with open(p, "w") as f:
            f.writelines(l if l.endswith("\n") else l + "\n" for l in lines)
        cfg = "INIT RInit\nNEXT RNext\nCONSTANTS Steps <- TSteps\n Start <- TStart\n Expect <- TExpect\n" + consts + \
              "\nCHECK_DEADLOCK FALSE\n" + replacements
        e = {"TRACES": p}
        e.update(env or {})
        out = self.tlc(spec, cfg, env=e, allow=(0,), **kw)
        bad = []
        for m in re.finditer(r'^<<\s*"@@BAD",\s*(\d+),\s*(\d+),(.*?)>>\s*$', out, re.M | re.S):
            bad.append((int(m.group(1)), int(m.group(2)), m.group(3).strip()[:3000]))
        done = len(set(re.findall(r'^<<"@@END", (\d+)>>', out, re.M)))
        if done + len({b[0] for b in bad}) < len(lines):
            raise ToolError("%s judged only %d of %d traces\n%s" % (spec, done + len(bad), len(lines), tail_err(out)))
        return sorted(set(bad))

    def must_reject(self, spec, lines, consts="", replacements="", env=None, **kw):
        """Binding self-check: corrupted copies of observed traces, each of which the specification must reject."""
        if self.fresh():
            return          # corrupting what is already wrong may make it right
        s, g = self.states, self.transitions
        bad = self._judge_raw(spec, lines, consts, replacements, env, **kw)
        self.states, self.transitions = s, g
        rejected = {b[0] for b in bad}
        if 5 * len(rejected) < 4 * len(lines):      # a corruption is sometimes an allowed outcome; most must not be
            miss = [i for i in range(1, len(lines) + 1) if i not in rejected]
            raise ToolError("binding self-check: %s accepted corrupted trace(s) %s: %s" %
                            (spec, miss[:5], lines[miss[0] - 1][:1500]))
        self.extra["corrupted_traces_rejected"] = self.extra.get("corrupted_traces_rejected", 0) + len(rejected)

    # ---------------------------------------------------------------- verdicts
    def violation(self, key, detail):
        if any(k == key for k, _ in self.violations):
            return
        self.violations.append((key, detail))

    def fresh(self):
        known = load_known(self.pid)
        return [k for k, _ in self.violations if not any(re.fullmatch(e["match"], k) for e in known)]

    def finish(self, level="model_checking"):
        known = load_known(self.pid)
        seen_known, fresh = {}, []
        for k, d in self.violations:
            hit = next((e for e in known if re.fullmatch(e["match"], k)), None)
            if hit:
                seen_known.setdefault(hit["match"], hit)
            else:
                fresh.append((k, d))
        for e in known:
            # a listed finding is a property of the unchanged tree; say so whether or not this seed hit it
            print("KNOWN-FINDING: property=%s %s" % (self.pid, e["what"]))
        rdir = os.path.join(VERIF, "work", "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, (k, d) in enumerate(fresh[:10]):
            p = os.path.join(rdir, "%s-%d.json" % (self.pid, i))
            json.dump({"property": self.pid, "key": k, "seed": SEED, "detail": d}, open(p, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            log("  " + k)
            log("  " + json.dumps(d.get("event") if isinstance(d, dict) else d)[:1200])
            if isinstance(d, dict):
                log("  specification: " + str(d.get("specification_says"))[:1200])
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "models": self.exhaustive_models,
               "samples": self.samples[:6] or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        # big intermediate files are of no use once the run is over
        for x in os.listdir(self.work):
            if x.startswith("tlc"):
                for y in os.listdir(self.path(x)):
                    q = self.path(x, y)
                    if os.path.isdir(q):
                        shutil.rmtree(q, ignore_errors=True)
        log("%s: %d states, %d transitions, %d traces (%d events), %d violation(s), %.1fs" %
            (self.pid, self.states, self.transitions, self.traces, self.events, len(fresh), time.time() - self.t0))
        return 1 if fresh else 0


def tail_err(s):
    ls = s.splitlines()
    for i, l in enumerate(ls):
        if l.startswith("Error:") or "***Parse Error***" in l or "Semantic error" in l:
            return "\n".join(ls[i:i + 60])
    return "\n".join(ls[-40:])


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                e = json.loads(l)
                if e.get("property") == pid and e.get("kind") == "finding":
                    out.append(e)
    return out


def write_ndjson(path, objs):
    with open(path, "w") as f:
        for o in objs:
            f.write(json.dumps(o) + "\n")
    return path
