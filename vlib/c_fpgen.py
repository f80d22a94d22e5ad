"""Check C15: generate-fingerprints."""
import json, random
from . import pool, journal as J, rules_drv as RD

NOTFP = ["fp", "xfp-1", "FP-1", "f-p", "fingerprint", "import-self", "unknown-account", "a", "Fp-x", "candidate", "uuidb64-x", "afp-", "fpx-1", "a-fp-1", "thirteen_long_tag", "é"]
def fp(r, n):
    return r.choice(["fp-%d", "fp-a.1.ns-%d+/", "fp-%d-x", "fp-uuidb64-%d", "fp-\u00e9%d", "fp-fp-%d"]) % n

def journal(r, n0, skel=None):
    trns = RD.gen_journal(r, NOTFP, r.choice([1, 1, 2, 3, 6]) if skel is None else 1)
    n = n0
    if skel is not None:
        t = trns[0]
        base = t["ps"][0]
        t["ps"] = []
        for p in skel:
            q = json.loads(json.dumps(base))
            q["tags"] = []
            for x in p["tags"]:
                if x in ("fp-1", "fp-"):
                    n += 1; q["tags"].append(("fp-%d" if x == "fp-1" else "fp-\u00f6%d") % n)
                else: q["tags"].append(x)
            t["ps"].append(q)
    else:
        cand = r.random() < .2
        for t in trns:
            if r.random() < .3: t["h"]["tags"] = sorted(set(t["h"]["tags"]) | {"fp-header"})
            for p in t["ps"]:
                k = r.choice([0, 0, 0, 1, 1, 2])
                for _ in range(k):
                    n += 1; p["tags"] = p["tags"] + [fp(r, n)]
                if cand and r.random() < .3: p["tags"] = p["tags"] + ["candidate-fp-%d" % r.randint(1, 9)]
                if r.random() < .1: p["vt"] = sorted(p["vt"] + [["fp-value", "x"]])
                if r.random() < .1: p["lines"] = p["lines"] + ["fp-text"]
        if r.random() < .15:
            p = r.choice(r.choice(trns)["ps"]); p["tags"] = [x for x in p["tags"] if not x.startswith("fp-")] + ["fp-"]
    for t in trns:
        for p in t["ps"]: p["tags"] = sorted(set(p["tags"]))
    return trns, n

def execute(box, job):
    sid, files, seed = job
    r = random.Random(seed)
    box.fresh()
    names = ["f%d.j" % i for i in range(len(files))]
    texts = [J.render(f, r) for f in files]
    for n, t in zip(names, texts): box.write(n, t)
    stdio = len(files) == 1 and r.random() < .4
    rcs = []
    if stdio:
        rc, so, _ = box.run("generate-fingerprints", "-", stdin=texts[0].encode())
        if rc == 0: box.write(names[0], so)
        rcs = [rc]
    elif r.random() < .5:
        rc = box.run("generate-fingerprints", *names)[0]; rcs = [rc] * len(names)
    else:
        rcs = [box.run("generate-fingerprints", n)[0] for n in names]
    o1 = [box.read(n) for n in names]
    rc2 = box.run("generate-fingerprints", *names)[0]
    o2 = [box.read(n) for n in names]
    it = {"id": sid, "files": []}
    for n, f, rc, a, b in zip(names, files, rcs, o1, o2):
        x = {"b": f, "a": [], "ok": rc == 0, "parsed": True, "again": rc2 == 0 and a == b,
             "merged": box.run("merge", n, "-o", "m.j")[0] == 0}
        try: x["a"] = J.parse(a.decode())
        except (J.ParseError, UnicodeDecodeError): x["parsed"] = False
        it["files"].append(x)
    return it, {"texts": texts, "out": [(o or b"").decode("utf-8", "replace") for o in o1]}

def run(chk):
    r = random.Random("C15/%d" % chk.seed)
    jobs = []
    for c in (["FpGenMC_a.cfg"] if chk.quick else ["FpGenMC_a.cfg", "FpGenMC_b.cfg"]):
        d = chk.design("FpGenMC", c, "design check FpGenMC/" + c)
        scn = sorted({json.loads(l[len('<<"SCN", '):-2]) for l in d["printed"] if l.startswith('<<"SCN"')})
        r.shuffle(scn)
        for i, s in enumerate(scn[:chk.n(1500, 12000)]):
            s = json.loads(s)
            a, n = journal(r, 0, s["a"])
            b, n = journal(r, n, s["b"])
            jobs.append(("spec-%s-%d" % (c[8], i), [a, b], r.randrange(1 << 30)))
    chk.cov["spec_behaviours_replayed"] = len(jobs)
    nr = chk.n(3000, 40000)
    for i in range(nr):
        fs, n = [], 0
        for _ in range(r.choice([1, 1, 2, 3])):
            f, n = journal(r, n); fs.append(f)
        jobs.append(("rnd%d" % i, fs, r.randrange(1 << 30)))
    # One long journal: many new fingerprints at once.
    for k in range(chk.n(2, 10)):
        f = []
        for _ in range(60): f += journal(r, 10 ** 6)[0]
        for t in f:
            for p in t["ps"]: p["tags"] = [x for x in p["tags"] if not x.startswith("fp-")]
        jobs.append(("long%d" % k, [f], r.randrange(1 << 30)))
    results, nruns = pool.run_jobs(chk.binary, execute, jobs)
    items = [it for it, _ in results]
    by = {it["id"]: (it, rep) for it, rep in results}
    # No new fingerprint may come up twice anywhere: a record of its own of all of them.
    chk.cov.update({"program_runs": nruns, "random_histories": nr,
                    "postings": sum(len(t["ps"]) for it in items for f in it["files"] for t in f["b"])})
    for (i, k, labels, ex) in chk.validate("FpGenTrace", "FpGenTrace.cfg", items, chunk=3000):
        it, rep = by[i]
        chk.violation("%s: %s" % (i, labels), rep)
    seen = {}
    for it in items:
        for f in it["files"]:
            if not f["parsed"]: continue
            old = {t for x in f["b"] for p in x["ps"] for t in p["tags"]}
            for x in f["a"]:
                for p in x["ps"]:
                    for t in p["tags"]:
                        if t.startswith("fp-uuidb64-") and t not in old:
                            if seen.setdefault(t, it["id"]) != it["id"]:
                                chk.violation("fingerprint %s came up in two runs (%s, %s)" % (t, seen[t], it["id"]), by[it["id"]][1])
    chk.cov["new_fingerprints"] = len(seen)
    chk.sample(results[0][1])
    chk.assumptions += ["Comment text is in the class that survives re-reading (C13 covers the rest); journals hold transactions only (others are refused, see C16)."]
    chk.finish()
