"""Common parts of every check: arguments, findings, evidence, verdict."""
import concurrent.futures, json, os, re, sys, time, tempfile, shutil
from . import build, tlc, pool
VERIF = build.VERIF
EVID = os.environ.get("ACCOUNTMERGE_EVID", os.path.join(VERIF, "evidence"))
PAR = 6      # TLC processes validating traces at a time

class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []     # (key, replay dict)
        self.known_hits = {}
        self.known = load_known(prop)
        self.binary = build.build()
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)

    @property
    def quick(self): return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def add_tlc(self, r, what):
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += max(0, r["generated"] - r["init"])
        d = self.cov.setdefault("tlc_runs", [])
        d.append({"what": what, "distinct": r["distinct"], "generated": r["generated"]})

    def design(self, module, cfg, what, **kw):
        """Exhaustive check of the specification itself. A failure is a fault of the machinery."""
        r = tlc.run(module, cfg, **kw)
        if not r["ok"]:
            print("SPECIFICATION CHECK FAILED: %s %s\n%s" % (module, cfg, r["out"][-3000:]))
            sys.exit(2)
        self.add_tlc(r, what)
        return r

    def validate(self, module, cfg, items, chunk=4000, heap="3g", env=None):
        """Validates trace items with TLC; yields (id, step, labels, extra)."""
        step = max(50, min(chunk, -(-len(items) // PAR)))
        parts = [items[a:a + step] for a in range(0, len(items), step)]
        def one(part):
            d = tempfile.mkdtemp(prefix="trace-", dir=pool.BASE)
            try:
                path = os.path.join(d, "trace.ndjson")
                with open(path, "w") as f:
                    for it in part:
                        f.write(json.dumps(it, ensure_ascii=False) + "\n")
                e = {"TRACE": path}
                e.update(env or {})
                return tlc.run(module, cfg, env=e, heap=heap, workers=1, gcthreads=2)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        bads = []
        with concurrent.futures.ThreadPoolExecutor(PAR) as ex:
            for part, r in zip(parts, ex.map(one, parts)):
                if not r["ok"]:
                    keep = os.path.join(EVID, "tlc-failure-%s.txt" % self.prop)
                    open(keep, "w").write(r["out"])
                    print("TRACE VALIDATION DID NOT COMPLETE (%s): %s\n%s" % (module, keep, r["out"][-2500:]))
                    sys.exit(2)
                self.add_tlc(r, "trace validation " + module)
                self.cov["traces_validated_against_impl"] += len(part)
                bads += parse_bad(r["out"])
                for v in re.findall(r'<<"V", "(\w+)", "(\w+)">>', r["out"]):
                    d = self.cov.setdefault("verdicts", {})
                    d["%s %s" % v] = d.get("%s %s" % v, 0) + 1
        return bads

    def violation(self, key, replay):
        for k in self.known:
            if re.search(k["match"], key):
                self.known_hits.setdefault(k["text"], 0)
                self.known_hits[k["text"]] += 1
                return False
        self.violations.append((key, replay))
        return True

    def sample(self, s):
        if len(self.cov["samples"]) < 3: self.cov["samples"].append(brief(s))

    def finish(self, level="model_checking", extra=None):
        for k in self.known:
            # A listed finding is stated on every run, whether or not this run's sample met it.
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]))
        self.cov.update(extra or {})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if self.known_hits: ev["coverage"]["known_finding_hits"] = self.known_hits
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        if self.violations:
            key, rep = self.violations[0]
            path = os.path.join(EVID, "replay", "%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "key": key, "replay": rep,
                           "others": [k for k, _ in self.violations[1:20]]}, f, indent=1, ensure_ascii=False)
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(path, VERIF)))
            print("  " + key[:400])
            print("  %d violating observations" % len(self.violations))
            sys.exit(1)
        print("OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
            self.prop, self.tier, self.cov["states"], self.cov["transitions"],
            self.cov["traces_validated_against_impl"], time.time() - self.t0))
        sys.exit(0)

def brief(x):
    """A sample, without the bulk of what is long."""
    if isinstance(x, str): return x if len(x) <= 1500 else x[:1500] + "... (%d characters)" % len(x)
    if isinstance(x, dict): return {k: brief(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [brief(v) for v in x[:20]]
    return x

def parse_bad(out):
    """Lines <<"BAD", id, step, {labels}, ...>>, possibly wrapped by TLC over several lines."""
    res = []
    for m in re.finditer(r'<<\s*"BAD",\s*"((?:[^"\\]|\\.)*)",\s*(-?\d+),\s*\{([^}]*)\}(.*?)>>\s*(?=\n|$)', out, re.S):
        labels = re.findall(r'"([^"]*)"', m.group(3))
        res.append((m.group(1), int(m.group(2)), labels, " ".join(m.group(4).split())))
    return res

def load_known(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"): continue
            d = json.loads(line)
            if d["property"] == prop: res.append(d)
    return res
