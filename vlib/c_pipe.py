"""Check C22: import, rules, edits and merge together."""
import concurrent.futures, json, random
from . import pool, pipe_drv as D

def run(chk):
    rnd = random.Random("C22/%d" % chk.seed)
    jobs, avail = [], 0
    kinds = ["nw5", "nw6", "pp", "pdf"]
    cs = ["a", "b", "c"] if chk.quick else ["a", "b", "c", "d", "e"]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        ds = list(ex.map(lambda c: chk.design("PipelineMC", "PipelineMC_%s.cfg" % c, "design check PipelineMC_" + c), cs))
    for c, d in zip(cs, ds):
        scn = [json.loads(json.loads(l[len('<<"SCN", '):-2])) for l in d["printed"] if l.startswith('<<"SCN"')]
        avail += len(scn)
        rnd.shuffle(scn)
        for i, s in enumerate(scn[:chk.n(100, 2500)]): jobs.append((rnd.choice(kinds), "%s-s%d" % (c, i), rnd.randrange(1 << 40), s))
    chk.cov["spec_behaviours_available"], chk.cov["spec_behaviours_replayed"] = avail, len(jobs)
    for i in range(chk.n(900, 20000)):
        k = kinds[i % 4]
        jobs.append((k, "%s-g%d" % (k, i), rnd.randrange(1 << 40), None))
    results, nruns = pool.run_jobs(chk.binary, D.execute, jobs)
    items = [it for it, _, m in results if it["steps"]]
    by = {it["id"]: (rep, m) for it, rep, m in results}
    drop = {}
    for _, _, m in results:
        if m["dropped"]: k = m["dropped"].split(":")[0]; drop[k] = drop.get(k, 0) + 1
    chk.cov.update({"program_runs": nruns, "histories": len(results), "merges": sum(m["merges"] for *_, m in results), "imports": sum(m["imports"] for *_, m in results),
                    "rule_applications": sum(m["rules"] for *_, m in results), "cut_short": drop})
    for (i, k, labels, ex) in chk.validate("PipelineTrace", "PipelineTrace.cfg", items, chunk=600):
        rep, m = by[i]
        chk.violation("%s%s step %d: %s" % (m["cls"], i, k, ex), rep)
    it, rep, m = results[0]
    chk.sample({"id": it["id"], **rep})
    chk.assumptions += ["Overlaps are by whole days (of the output time zone) of one account; amounts are not zero.",
                        "Histories in which an importer or the rules do something unexpected are cut short there: C09-C12 and C17-C21 judge that.",
                        "OCR and PDF conversion are stubs that write a given table."]
    chk.finish()
