"""Checks C17-C21: the importers."""
import concurrent.futures, json, random, sys
from . import pool, import_drv as D

MIX = {"C17": {"nw": (1500, 300)}, "C18": {"pp": (1500, 300)}, "C20": {"pdf": (900, 200)},
       "C19": {"nw": (700, 0), "pp": (700, 0), "pdf": (400, 0)}, "C21": {"nw": (50, 1300), "pp": (50, 1300), "pdf": (50, 800)}}

DESIGN = {"C17": (["StatementMC_a"], ["StatementMC_b"]), "C18": (["PayPalMC_a"], ["PayPalMC_b", "PayPalMC_c"]), "C20": (["PdfMC_a"], ["PdfMC_b", "PdfMC_c"]),
          "C19": (["StatementMC_a", "PdfMC_a"], ["StatementMC_b", "PayPalMC_a", "PayPalMC_b", "PayPalMC_c", "PdfMC_b", "PdfMC_c"]),
          "C21": (["FieldsMC_%s" % x for x in "abcdefg"] + ["StatementMC_a"], ["StatementMC_b", "PayPalMC_c", "PdfMC_c"])}
TAKE = {"StatementMC": 250, "PayPalMC": 500, "PdfMC": 700, "FieldsMC": 200}

def scenarios(chk, rnd):
    res = []
    quick, more = DESIGN[chk.prop]
    cs = quick + ([] if chk.quick else more)
    with concurrent.futures.ThreadPoolExecutor(4 if chk.quick else 2) as ex:
        ds = list(ex.map(lambda c: chk.design(c.split("_")[0], c + ".cfg", "design check " + c), cs))
    for c, d in zip(cs, ds):
        mod = c.split("_")[0]
        scn = [json.loads(json.loads(l[len('<<"SCN", '):-2])) for l in d["printed"] if l.startswith('<<"SCN"')]
        chk.cov["spec_behaviours_available"] = chk.cov.get("spec_behaviours_available", 0) + len(scn)
        rnd.shuffle(scn)
        n = TAKE[mod] * (1 if chk.quick else 30)
        if mod == "FieldsMC":       # all that is understood in some way, and a part of the rest
            a, b = [s for s in scn if s["v"] != "bad"], [s for s in scn if s["v"] == "bad"]
            scn = a[:n // 2] + b[:n // 2]
        res += [(c, s) for s in scn[:n]]
    chk.cov["spec_behaviours_replayed"] = len(res)
    return res

def run(chk):
    prop = chk.prop
    r = random.Random("%s/%d" % (prop, chk.seed))
    jobs = [(s["kind"], "%s-s%d" % (c, i), r.randrange(1 << 40), False, s) for i, (c, s) in enumerate(scenarios(chk, random.Random("scn/%s/%d" % (prop, chk.seed))))]
    for kind, (good, bad) in MIX[prop].items():
        for i in range(good * (1 if chk.quick else 20)): jobs.append((kind, "%s-g%d" % (kind, i), r.randrange(1 << 40), False, None))
        for i in range(bad * (1 if chk.quick else 20)): jobs.append((kind, "%s-b%d" % (kind, i), r.randrange(1 << 40), True, None))
    if prop != "C21":        # more in a day than a byte can count
        for kind in MIX[prop]:
            for i in range(1 if chk.quick else 4): jobs.append((kind, "%s-%d-huge" % (kind, i), r.randrange(1 << 40), False, None))
    results, nruns = pool.run_jobs(chk.binary, D.execute, jobs)
    items = [it for it, _ in results]
    by = {it["id"]: (it, rep) for it, rep in results}
    chk.cov.update({"program_runs": nruns, "accepted": sum(i["obs"]["ok"] for i in items), "rows": sum(len(i["rows"]) for i in items)})
    other = {}
    for (i, k, labels, ex) in chk.validate("ImportTrace", "ImportTrace.cfg", items, chunk=800):
        it, rep = by[i]
        if "NOHASH" in labels:
            print("MACHINERY: no hash offered for %s" % i); sys.exit(2)
        mine = [l for l in labels if l.split("-")[0] == prop]
        for l in mine:
            key = ("legacy-peer: " if l == "C19-legacy" else "") + "%s: %s %s" % (i, labels, ex)
            chk.violation(key, {**rep, "item": it})
        for l in labels:
            if l not in mine: other[l] = other.get(l, 0) + 1
    if other: chk.cov["labels_of_other_properties"] = other
    it, rep = results[0]
    chk.sample({"id": it["id"], **rep})
    chk.assumptions += ["Texts consist of the characters that Fingerprint.tla lists; SHA-1 comes from a table made by hashlib.",
                        "OCR and PDF conversion are stubs that write a given table (C19-C21)."]
    chk.finish()
