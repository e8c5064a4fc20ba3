"""Shared machinery of every check: running TLC, validating traces, evidence, verdicts."""
import atexit
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
_T0 = time.time()
_N = itertools.count()


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tier():
    return "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"


class Machinery(Exception):
    """Our own tooling failed - not a verdict about the code."""


class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.states = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.findall(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        if not m:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            if m:
                self.states = int(m[-1].replace(",", ""))
        self.ok = rc == 0
        self.violated = re.findall(r"(?:Invariant|property) (\S+) (?:is|was) violated", out)

    def tags(self, tag):
        """Values printed by PrintT(<<tag, json-string>>) as parsed JSON."""
        res = []
        for m in re.finditer(r'^<<"%s", "(.*)">>$' % tag, self.out, re.M):
            res.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
        return res


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier, self.seed = tier(), seed()
        self.quick = self.tier == "quick"
        self.t0 = _T0
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        atexit.register(shutil.rmtree, self.scratch, True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "legs": {}}
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        self.exhaustive = True
        self.known = self._load_known()

    def _load_known(self):
        path = os.path.join(VERIF, "known_findings.jsonl")
        res = []
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("status") == "known" and d.get("property") == self.pid:
                        res.append(d)
        return res

    # ---- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=4, simulate=None, timeout=600, heap="3g", extra=(), deadlock=False):
        meta = tempfile.mkdtemp(prefix="meta", dir=self.scratch)
        cfgfile = cfg
        if "\n" in cfg:
            cfgfile = meta + ".cfg"
            open(cfgfile, "w").write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m", f"-DTLA-Library={SPECS}", "-cp", JAR, "tlc2.TLC",
               "-metadir", meta, "-workers", str(workers), "-config", cfgfile]
        if not deadlock:
            cmd.append("-deadlock")
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(extra)
        cmd.append(module + ".tla")
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired as ex:
            raise Machinery(f"TLC timed out on {module}/{cfg[:60]}: {(ex.stdout or b'')[-400:]}")
        shutil.rmtree(meta, True)
        return TlcResult(rc, out)

    def model_check(self, module, cfg, leg=None, **kw):
        """Exhaustive check of the specification itself; must pass."""
        if os.environ.get("VERIF_FAST"):        # development only: the specification has not changed
            return None
        t = time.time()
        r = self.tlc(module, cfg, **kw)
        if not r.ok:
            raise Machinery(f"specification {module} violates its own properties ({r.violated}):\n{r.out[-3500:]}")
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states
        self.cov["legs"][leg or f"mc:{module}"] = {"distinct_states": r.distinct, "generated": r.states, "depth": r.depth,
                                                   "wall_s": round(time.time() - t, 1)}
        return r

    def generate(self, module, cfg, leg=None, tag="BEH", **kw):
        """Run TLC as a behaviour generator: every PrintT(<<tag, json>>) is one behaviour."""
        t = time.time()
        r = self.tlc(module, cfg, **kw)
        beh = r.tags(tag)
        if not r.ok or not beh:
            raise Machinery(f"generator {module} failed rc={r.rc} behaviours={len(beh)}:\n{r.out[-3500:]}")
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states
        self.cov["legs"][leg or f"gen:{module}"] = {"behaviours": len(beh), "generated": r.states,
                                                    "wall_s": round(time.time() - t, 1)}
        return beh

    def validate(self, module, cfg, traces, leg=None, env=None, shards=4, timeout=800, **kw):
        """Check recorded traces against the specification.

        The trace spec prints <<"ACCEPT", "tid">> for every trace it can explain entirely and
        <<"REJECT", json>> (with tid, i, clause) where it cannot; a trace never accepted is a
        rejection. Returns [(tid, info)] of rejected traces (tid 0-based).
        """
        import concurrent.futures as cf
        if not traces:
            raise Machinery("no traces recorded")
        t = time.time()
        shards = max(1, min(shards, len(traces)))
        groups = [list(range(k, len(traces), shards)) for k in range(shards)]

        def one(k):
            path = os.path.join(self.scratch, f"tr{next(_N)}_{k}.ndjson")
            with open(path, "w") as f:
                for i in groups[k]:
                    f.write(json.dumps(traces[i]) + "\n")
            r = self.tlc(module, cfg, env={**(env or {}), "TRACES": path}, workers=kw.get("workers", 2), timeout=timeout)
            return k, r, path

        rejected = []
        states = trans = 0
        with cf.ThreadPoolExecutor(shards) as ex:
            for k, r, path in ex.map(one, range(shards)):
                if not r.ok:
                    err = "\n".join(x[:500] for x in r.out.splitlines() if "rror" in x or "xception" in x or "ttempted" in x or x.startswith(("line ", "Line ")))
                    raise Machinery(f"trace validation with {module} failed rc={r.rc}:\n{err[:3000]}\n{r.out[-2500:]}")
                acc = {int(x) for x in re.findall(r'^<<"ACCEPT", (\d+)>>$', r.out, re.M)}
                info = {}
                for d in r.tags("REJECT"):
                    info.setdefault(int(d["tid"]), []).append(d)
                for pos, i in enumerate(groups[k], 1):
                    if pos not in acc:
                        rejected.append((i, info.get(pos, [])))
                states += r.distinct
                trans += r.states
        self.cov["states"] += states
        self.cov["transitions"] += trans
        self.cov["traces_validated_against_impl"] += len(traces) - len(rejected)
        self.cov["legs"][leg or f"trace:{module}"] = {"traces": len(traces), "rejected": len(rejected),
                                                      "distinct_states": states, "wall_s": round(time.time() - t, 1)}
        return rejected

    def parallel(self, *jobs):
        """Run independent legs concurrently; the first failure wins."""
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(max(1, len(jobs))) as ex:
            return [f.result() for f in [ex.submit(j) for j in jobs]]

    # ---- verdicts ----------------------------------------------------------
    def sample(self, obj):
        if len(self.cov["samples"]) < 5:
            self.cov["samples"].append(obj)

    def leg(self, name, **kw):
        self.cov["legs"].setdefault(name, {}).update(kw)

    def violation(self, what, replay=None, key=None):
        """Report one violation; ``key`` identifies it against the known-findings list."""
        for k in self.known:
            if key is not None and k.get("key") == key:
                if k not in self.known_hits:
                    self.known_hits.append(k)
                return
        self.violations.append({"what": what, "key": key, "replay": replay})

    def finish(self):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {**self.cov, "exhaustive": False},
            "wall_s": round(time.time() - self.t0, 1),
            "assumptions": self.assumptions,
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hits:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        if self.violations:
            rp = os.path.join(VERIF, "evidence", f"{self.pid}.replay.json")
            with open(rp, "w") as f:
                json.dump(self.violations[:20], f, indent=1, default=str)
            for v in self.violations[:5]:
                print("  " + str(v["what"])[:600])
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        c = self.cov
        print(f"OK property={self.pid} states={c['states']} transitions={c['transitions']} "
              f"traces={c['traces_validated_against_impl']} wall={ev['wall_s']}s")
        return 0
