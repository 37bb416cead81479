#!/usr/bin/env python3
"""Decide one property: model-check the specification, generate behaviours from it, replay them on the code in /repo,
and let TLC decide whether the recorded traces are behaviours of the specification.

usage: check.py PROPERTY [--tier quick|thorough] [--replay FILE]
exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from suites import PROPS, SUITES

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, ".build", "target")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()

class ToolError(Exception):
    pass

def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

# ------------------------------------------------------------------ build
REPO_CRATES = {"protocol": "protocol", "core-executor": "core/executor", "core-storage": "core/storage",
               "core-network": "core/network", "core-mempool": "core/mempool", "core-consensus": "core/consensus",
               "common-merkle": "common/merkle", "common-crypto": "common/crypto", "core-api": "core/api",
               "common-config-parser": "common/config-parser", "common-logger": "common/logger",
               "h-node": "src"}

def tree_hash(d):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(d):
        dirs.sort()
        dirs[:] = [x for x in dirs if x not in ("target", ".git")]
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode()); h.update(b"\0")
            try:
                with open(p, "rb") as fh: h.update(fh.read())
            except OSError:
                pass
    return h.hexdigest()

def build(crate):
    """Build the harness crate from /repo's working tree. Crates whose content changed since the last build are
    rebuilt whatever their time stamps say."""
    os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
    stamp = os.path.join(VERIF, ".build", "stamp-%s.json" % crate)
    try:
        old = json.load(open(stamp))
    except Exception:
        old = {}
    now = {}
    for name, d in REPO_CRATES.items():
        now[name] = tree_hash(os.path.join(REPO, d))
        if old.get(name) != now[name]:
            for p in glob.glob(os.path.join(TARGET, "debug", ".fingerprint", name + "-*")):
                shutil.rmtree(p, ignore_errors=True)
    build = ". %s/env.sh && cd %s/harness/%s && %%scargo build --offline 2>&1" % (VERIF, VERIF, crate)
    r = subprocess.run(["bash", "-c", build % ""], stdout=subprocess.PIPE, universal_newlines=True)
    if r.returncode != 0:   # incremental compilation of this old compiler sometimes leaves objects that do not link
        shutil.rmtree(os.path.join(TARGET, "debug", "incremental"), ignore_errors=True)
        for name in now:
            for p in glob.glob(os.path.join(TARGET, "debug", ".fingerprint", name + "-*")):
                shutil.rmtree(p, ignore_errors=True)
        r = subprocess.run(["bash", "-c", build % "CARGO_INCREMENTAL=0 "],
                           stdout=subprocess.PIPE, universal_newlines=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-4000:])
        raise ToolError("the harness does not build")
    json.dump(now, open(stamp, "w"))
    return os.path.join(TARGET, "debug", "h-" + crate)

# ------------------------------------------------------------------ TLC
_meta = [0]
_lock = threading.Lock()
def tlc(scratch, module, cfg, args=(), env=None, heap="2g", timeout=None, workers=1, overrides=None):
    with _lock:
        _meta[0] += 1
        n = _meta[0]
    cfgfile = os.path.join(SPEC, cfg)
    if overrides:
        text = open(cfgfile).read()
        for k, v in overrides.items():
            text, c = re.subn(r"\b%s\s*=\s*(\"[^\"]*\"|\{[^}]*\}|[^\s]+)" % re.escape(k), lambda m: "%s = %s" % (k, v), text)
            if c == 0: raise ToolError("no constant %s in %s" % (k, cfg))
        cfgfile = os.path.join(scratch, "cfg%d.cfg" % n)
        open(cfgfile, "w").write(text)
    out = os.path.join(scratch, "tlc%d.out" % n)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP,
           "tlc2.TLC", "-config", cfgfile, "-metadir", os.path.join(scratch, "meta%d" % n), "-workers", str(workers),
           "-noGenerateSpecTE"] + list(args) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ); e.update(env or {})
    tmp = os.path.join(scratch, "jtmp%d" % n); os.makedirs(tmp, exist_ok=True)
    cmd.insert(1, "-Djava.io.tmpdir=" + tmp)
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=SPEC, timeout=timeout)
        except subprocess.TimeoutExpired:
            return out, "timeout"
    return out, p.returncode

STATES = re.compile(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found")
SIMSTATES = re.compile(r"The number of states generated: (\d+)")

def behaviours_in(out):
    res = []
    with open(out) as f:
        for line in f:
            if line.startswith('"BEH '):
                res.append(json.loads(json.loads(line.strip())[4:]))
    return res

def tlc_failed(out):
    lines = [l for l in open(out, errors="replace").read().split("\n") if not l.startswith('"BEH') and not l.startswith(("Parsing", "Semantic", "Linting"))]
    return "\n".join(lines[-40:])

# ------------------------------------------------------------------ main
class Check:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.cfg = PROPS[prop]
        self.states = self.transitions = 0
        self.mcnotes = []
        self.validated = self.events = self.skipped = 0
        self.kinds = {}
        self.violations = []
        self.known_hits = {}
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = [k for k in (json.load(open(kf)).get("findings", []) if os.path.exists(kf) else []) if k["property"] == prop]

    def num(self, d, key, default=None):
        v = d.get(key, default)
        if isinstance(v, dict) and set(v) & {"quick", "thorough"}: v = v.get(self.tier)
        return v

    def run_mc(self, mc):
        ov = self.num(mc, "overrides")
        out, rc = tlc(self.scratch, mc["module"], mc["cfg"], workers=self.num(mc, "workers", 4), heap="4g",
                      overrides=ov, timeout=self.num(mc, "timeout", {"quick": 300, "thorough": 3000}), args=mc.get("args", ()))
        text = open(out, errors="replace").read()
        m = STATES.findall(text)
        if rc != 0 or not m:
            raise ToolError("model checking %s %s: rc=%s\n%s" % (mc["module"], mc["cfg"], rc, tlc_failed(out)))
        g, d = [int(x.replace(",", "")) for x in m[-1]]
        self.states += d; self.transitions += g
        self.mcnotes.append({"spec": mc["module"], "cfg": mc["cfg"], "constants": ov or {}, "distinct_states": d, "transitions": g})
        return behaviours_in(out)

    def run_sim(self, sim, k, n):
        out, rc = tlc(self.scratch, sim["module"], sim["cfg"], overrides=self.num(sim, "overrides"), heap="1500m",
                      args=["-simulate", "num=%d" % n, "-depth", str(sim.get("depth", 200)), "-seed", str(self.seed * 1000 + k)],
                      timeout=self.num(sim, "timeout", {"quick": 300, "thorough": 3000}))
        b = behaviours_in(out)
        if rc != 0 or not b:
            raise ToolError("simulation %s %s: rc=%s\n%s" % (sim["module"], sim["cfg"], rc, tlc_failed(out)))
        m = SIMSTATES.findall(open(out, errors="replace").read())
        if m: self.transitions += int(m[-1])
        return b

    def generate(self, pool):
        s = self.suite
        futs = [pool.submit(self.run_mc, mc) for mc in s.get("mc", []) if self.num(mc, "on", True)]
        for si, sim in enumerate(s.get("sim", [])):
            total = self.num(sim, "num"); jv = self.num(sim, "jvms", {"quick": 2, "thorough": 6})
            for k in range(jv):
                futs.append(pool.submit(self.run_sim, sim, si * 100 + k, max(1, total // jv)))
        seen, res = set(), []
        for f in futs:
            for b in f.result():
                key = json.dumps(b, sort_keys=True)
                if key not in seen:
                    seen.add(key); res.append(b)
        return res

    def chunk(self, i, beh):
        """Replay a list of behaviours and validate; returns list of violations."""
        s = self.suite
        ops = os.path.join(self.scratch, "ops%s.ndjson" % i)
        tr = os.path.join(self.scratch, "trace%s.ndjson" % i)
        viol = []
        while beh:
            with open(ops, "w") as f:
                for b in beh: f.write(json.dumps(b) + "\n")
            env = dict(os.environ, VERIF_SCRATCH=self.scratch, RUST_BACKTRACE="0", VERIF_SEED=str(self.seed))
            with open(ops) as fi, open(tr, "w") as fo:
                p = subprocess.Popen([self.binary] + s["driver"], stdin=fi, stdout=fo, stderr=subprocess.PIPE, env=env, cwd=self.scratch)
                try:
                    err = p.communicate(timeout=self.num(s, "replay_timeout", {"quick": 240, "thorough": 1500}))[1]
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    p.kill(); p.communicate(); rc = "timeout"; err = b""
            lines = open(tr, errors="replace").read().split("\n")
            lines = [x for x in lines if x.strip()]
            if rc != 0:
                # died (abort, stack overflow) or hangs: that is an observation too
                try: json.loads(lines[-1])
                except Exception: lines = lines[:-1]
                lines.append(json.dumps({"e": "crash", "what": str(rc), "stderr": err.decode(errors="replace")[-300:]}))
                open(tr, "w").write("\n".join(lines) + "\n")
            out, trc = tlc(self.scratch, s["trace"], s["trace"] + ".cfg", env={"TRACE": tr, "FOCUS": s.get("focus", self.prop)}, heap="3g",
                           timeout=self.num(s, "validate_timeout", {"quick": 400, "thorough": 2500}), overrides=self.num(s, "trace_overrides"))
            text = open(out, errors="replace").read()
            acc = re.search(r'"TRACE-ACCEPTED (\d+) (\d+)"', text)
            rej = re.search(r'"TRACE-REJECTED (\d+)"', text)
            if trc == 0 and acc:
                nl = int(acc.group(1))
                with _lock:
                    self.skipped += int(acc.group(2)); self.events += nl; self.validated += len(beh)
                    for x in lines:
                        k = json.loads(x).get("e"); self.kinds[k] = self.kinds.get(k, 0) + 1
                if i == 0 and self.sample is None:
                    self.sample = [json.loads(x) for x in lines[1:13]]
                break
            if not rej:
                raise ToolError("trace validation: rc=%s\n%s" % (trc, tlc_failed(out)))
            bad = int(rej.group(1)) - 1          # 0-based index of the line that is no step of the specification
            starts = [k for k, x in enumerate(lines) if json.loads(x).get("e") == "reset"]
            si = max([j for j, k in enumerate(starts) if k <= bad] or [0])
            ev = json.loads(lines[bad])
            end = starts[si + 1] if si + 1 < len(starts) else len(lines)
            bi = json.loads(lines[starts[si]]).get("b", si) if starts else 0    # drivers that replay a behaviour several times number it
            v = {"suite": self.sname, "behaviour": beh[bi] if bi < len(beh) else None, "event": ev, "line": bad - starts[si] if starts else bad,
                 "trace": [json.loads(x) for x in lines[starts[si] if starts else 0:end]]}
            k = self.match_known(v)
            with _lock: self.validated += bi
            if k is None:
                viol.append(v)
                return viol
            with _lock: self.known_hits.setdefault(k["id"], []).append(v)
            beh = beh[bi + 1:]      # what precedes was accepted; go on behind the known finding
        return viol

    def match_known(self, v):
        def sub(pat, val):
            if isinstance(pat, dict) and "re" in pat and len(pat) == 1: return isinstance(val, str) and re.search(pat["re"], val) is not None
            if isinstance(pat, dict): return isinstance(val, dict) and all(k in val and sub(p, val[k]) for k, p in pat.items())
            return pat == val
        for k in self.known:
            if sub(k["event"], v["event"]) and (k.get("behaviour") is None or k["behaviour"] == v["behaviour"]): return k
        return None

    def run_suite(self, name, replay=None):
        self.suite = s = dict(SUITES[name]); s.update(self.cfg.get(name, {}))
        with cf.ThreadPoolExecutor(10) as pool:
            fb = pool.submit(build, s["crate"])
            beh = replay if replay is not None else self.generate(pool)
            self.binary = fb.result()
        self.sname = name
        log("suite %s: %d behaviours, harness built" % (name, len(beh)))
        size = self.num(s, "chunk", {"quick": 100000, "thorough": 1500})
        # interleave so that chunks are alike
        nchunks = s.get("chunks") or max(1, min(8 if len(beh) > 40 else 1, len(beh)), -(-len(beh) // size))
        chunks = [beh[k::nchunks] for k in range(nchunks)]
        with cf.ThreadPoolExecutor(8) as pool:
            for r in pool.map(lambda x: self.chunk(*x), list(enumerate(chunks))):
                self.violations += r
        log("suite %s: %d behaviours, %d events validated, %d not judged" % (name, self.validated, self.events, self.skipped))
        self.nbeh += len(beh)
        if beh and not self.samples: self.samples = beh[:1] + beh[len(beh) // 2:len(beh) // 2 + 1]

    def run(self, replay=None):
        self.sample = None; self.samples = []; self.nbeh = 0
        for name in self.cfg["suites"]:
            if replay is None or self.only in (None, name): self.run_suite(name, replay)
        edir = os.path.join(VERIF, "evidence"); os.makedirs(edir, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
                           "trace_events_validated": self.events, "behaviours_generated": self.nbeh, "events_by_kind": self.kinds,
                           "events_not_judged": self.skipped, "model_checking_runs": self.mcnotes,
                           "samples": [{"behaviour": b} for b in self.samples] + [{"recorded_events": self.sample}]},
              "assumptions": self.cfg.get("assumptions", []) + ["TLC and the Rust compiler are trusted", "exploration is bounded by the constants listed in model_checking_runs and the simulated behaviours"],
              "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        if replay is None:
            json.dump(ev, open(os.path.join(edir, self.prop + ".json"), "w"), indent=1)
        for k in self.known:
            if k["id"] in self.known_hits:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        rdir = os.path.join(edir, "replays"); os.makedirs(rdir, exist_ok=True)
        for n, v in enumerate(self.violations[:3]):
            path = os.path.join(rdir, "%s-%d.json" % (self.prop, n + 1))
            json.dump(v, open(path, "w"), indent=1)
            log("no step of the specification matches: " + json.dumps(v["event"])[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1 if self.violations else 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.property)
    try:
        c = Check(a.property, a.tier, seed, scratch)
        r = json.load(open(a.replay)) if a.replay else {}
        replay = [r["behaviour"]] if a.replay else None
        c.only = r.get("suite")
        rc = c.run(replay)
        log("exit", rc)
    except ToolError as e:
        print("CHECK-ERROR", e); rc = 2
    except Exception as e:
        import traceback; traceback.print_exc(); rc = 2
    finally:
        if a.keep: print("kept", scratch)
        else: shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

if __name__ == "__main__":
    main()
