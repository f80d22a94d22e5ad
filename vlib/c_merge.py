"""Checks C01-C08."""
import json, random
from concurrent.futures import ThreadPoolExecutor
from . import core, pool, merge_drv as D

def scenarios(chk):
    """Spec-generated and random scenarios, weighted towards the property."""
    prop = chk.prop
    rnd = random.Random("%s/%d" % (prop, chk.seed))
    emitted = []
    cfgs = ["MergeMC_a.cfg", "MergeMC_b.cfg", "MergeMC_c.cfg"] + ([] if chk.quick else ["MergeMC_d.cfg", "MergeMC_e.cfg", "MergeMC_f.cfg"])
    for c in cfgs:
        r = chk.design("MergeMC", c, "design check MergeMC/" + c)
        scn = [json.loads(json.loads(l[len('<<"SCN", '):-2])) for l in r["printed"] if l.startswith('<<"SCN"')]
        chk.cov.setdefault("spec_behaviours_available", 0)
        chk.cov["spec_behaviours_available"] += len(scn)
        rnd.shuffle(scn)
        emitted += scn[:chk.n(400, 12000)]
    jobs = []
    foc = {"inc": prop == "C05", "nou": prop in ("C07", "C02"), "split": prop == "C08"}
    for i, s in enumerate(emitted):
        jobs.append(("spec%d" % i, D.from_spec(s, rnd), rnd.randrange(1 << 30), foc))
    chk.cov["spec_behaviours_replayed"] = len(emitted)
    nr = chk.n(1500, 30000)
    for i in range(nr):
        r = random.Random(rnd.randrange(1 << 60))
        x = r.random()
        amb, sh = (.6, .7) if prop == "C07" else (.15, .4) if prop in ("C01", "C02", "C03") else (.15, .3)
        files = D.large(r) if i < chk.n(12, 150) else D.grouped(r) if r.random() < (.3 if prop == "C08" else .04) else D.ambiguous(r) if x < amb else D.shared(r) if x < sh else D.Gen(r, prop).scenario()
        jobs.append(("rnd%d" % i, files, r.randrange(1 << 30), foc))
    chk.cov["random_histories"] = nr
    return jobs

def run(chk):
    jobs = scenarios(chk)
    results, nruns = pool.run_jobs(chk.binary, D.execute, jobs)
    items, by = [], {}
    for (its, rep), job in zip(results, jobs):
        for it in its:
            items.append(D.clean(it))
            by[it["id"]] = (it, rep)
    chk.cov["program_runs"] = nruns
    kinds = {"accepted": 0, "rejected": 0, "with_unmerged": 0, "multi_source_files": 0, "resolve_rounds": 0, "related_runs": 0}
    for it in items:
        o = it["steps"][-1]
        kinds["accepted" if o["ok"] else "rejected"] += 1
        kinds["with_unmerged"] += bool(o["un"])
        kinds["resolve_rounds"] += it["resolve"]
        kinds["related_runs"] += len(it["rels"])
        kinds["multi_source_files"] += any(len({tuple(t["sb"]) for t in f}) > 1 for f in it["files"])
    chk.cov["trace_kinds"] = kinds
    bads = chk.validate("MergeTrace", "MergeTrace.cfg", items)
    for (i, k, labels, ex) in bads:
        if chk.prop in labels:
            it, rep = by[i]
            chk.violation("%s step %d: labels %s %s" % (i, k, labels, ex), {"files": rep, "item": it, "step": k})
    if items:
        it = items[len(items) // 2]
        chk.sample({"id": it["id"], "input_texts": by[it["id"]][1]["texts"], "accepted": it["steps"][-1]["ok"]})
    chk.assumptions += [
        "Comment text used in merge histories is in the class that survives re-reading (C13 covers the rest).",
        "Journals stay in the domain that ledger-parser both reads and writes (no quoted commodities, non-empty descriptions).",
    ]
    chk.finish()
