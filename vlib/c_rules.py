"""Checks C09-C12."""
import json, random
from . import pool, rules_drv as D

def run(chk):
    prop = chk.prop
    rnd = random.Random("%s/%d" % (prop, chk.seed))
    jobs = []
    for c in (["RulesMC_a.cfg", "RulesMC_d.cfg"] if chk.quick else ["RulesMC_%s.cfg" % x for x in "abcde"]):
        r = chk.design("RulesMC", c, "design check RulesMC/" + c)
        scn = [json.loads(json.loads(l[len('<<"SCN", '):-2])) for l in r["printed"] if l.startswith('<<"SCN"')]
        rnd.shuffle(scn)
        n = chk.n({"C09": 1200, "C11": 500}.get(prop, 250), 8000)
        jobs += [D.spec_job(t, rnd, "spec-%s-%d" % (c[8], i)) for i, t in enumerate(scn[:n])]
    chk.cov["spec_behaviours_replayed"] = len(jobs)
    nr = chk.n(3000, 40000)
    for i in range(nr):
        jobs.append(D.job(random.Random(rnd.randrange(1 << 60)), prop, "rnd%d" % i))
    results, nruns = pool.run_jobs(chk.binary, D.execute, jobs)
    items = [D.strip(it) for it, _ in results]
    by = {it["id"]: (it, rep) for it, rep in results}
    chk.cov.update({"program_runs": nruns, "random_tables": nr,
                    "accepted_tables": sum(it["emptyok"] for it in items), "successful_runs": sum(it["ok"] for it in items),
                    "multi_file_tables": sum(len(it["files"]) > 1 for it in items)})
    for (i, k, labels, ex) in chk.validate("RulesTrace", "RulesTrace.cfg", items, chunk=6000):
        if prop in labels:
            it, rep = by[i]
            chk.violation("%s: labels %s %s" % (i, labels, ex), rep)
    it, rep = results[-1]
    chk.sample({"id": it["id"], "texts": rep["texts"], "output": rep["out"]})
    chk.assumptions += ["Regular expressions come from the subset that Regex.tla defines; lower-casing from its table of letters.",
                        "Tables whose jumps nest deeper than 40 (they would not end) are run but not judged."]
    chk.finish()
