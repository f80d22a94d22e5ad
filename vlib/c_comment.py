"""Check C13: round trips of comments."""
import json, random, re
from . import pool, journal as J

FL = ["a", "b", "unknown-account", "Tag", "exactly12len", "thirteen_long", "é", "éééééé", "ééééééx", "日本語"[:2], "日本日本", "日本日本x",
      "fx-x/+=", "a-b.c", "Z", "~", "x" * 12, "y" * 13, "(q)", "tw_lve-bytes", "…………",
      "a,b", "1/2", "x;y", "p=1", "#5", "*", "50%", "'s", '"q"', "[x]", "{y}", "e@f", "g&h", "\\", "a\tb", "|"]
KY = ["k", "key", "a.b", "Payee", "é", "k2", "http", "K", "~k", "seq"]
VL = ["v", "two  words", "http://x/y:z", ":a:b:", "k: v", "é", "", "5", "—dash", "trailing :", ": x", "a:"]
TX = ["note", "some text", "k:v", "a : b", ":a", "a:", "x: y", "::", ": :", "(see: 5)", "key: value", "http://x", "12:30:45", "é…", "a ;b", "; x",
      "* star", "100%", "#tag", "a  b", "£5", "|", "-"]

def text_line(r):
    parts = []
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        x = r.random()
        if x < .4: parts.append(":" + ":".join(r.choice(FL) for _ in range(r.choice([1, 1, 2, 3]))) + ":")
        elif x < .8: parts.append(r.choice(TX))
        else: parts.append("%s:%s" % (r.choice(KY), r.choice(["", " "]) + r.choice(VL)))
    return r.choice(["", " ", "  "]).join(parts)

def big_comment(r):
    """Many flags, many value tags, long lines."""
    out = []
    if r.random() < .6: out.append(":" + ":".join("%s%d" % (r.choice(["t", "T", "a-longer-flag-", "é"]), i) for i in r.sample(range(100), r.choice([12, 21, 30]))) + ":")
    if r.random() < .4: out += ["%s%d: %d" % (r.choice(["k", "K", "é"]), i, i) for i in r.sample(range(100), r.choice([12, 21, 25]))]
    if r.random() < .4: out.append(" ".join(r.choice(["word", "much-longer-words", "1,000.00", "é"]) for _ in range(r.choice([20, 40]))))
    if r.random() < .3: out.append("long: " + " ".join(r.choice(["value", "v"]) for _ in range(r.choice([20, 40]))))
    if r.random() < .3: out += ["line %d" % i for i in range(r.choice([10, 21]))]
    r.shuffle(out)
    return out

def rnd_comment(r):
    out = []
    if r.random() < .004: return big_comment(r)
    for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
        x = r.random()
        if x < .35: s = "%s:%s%s" % (r.choice(KY), r.choice([" ", "  ", " ", " ", " ", "\t", " \t", "\t ", "\u00a0"]), r.choice(VL))
        elif x < .85: s = text_line(r)
        else: s = "".join(r.choice(":: ab-k") for _ in range(r.randint(0, 9)))
        out.append(r.choice(["", "", " ", "   ", "\t"]) + s + r.choice(["", "", " ", "\t", "\u00a0"]))
    return out

def build(job, r, fp):
    """Journal text holding the comments; returns text and the list of (where) in order."""
    lines = []
    cs = list(job)
    n = 0
    def emit(c, inline_ok):
        c = list(c)
        if inline_ok and c and r.random() < .3:
            lines[-1] += "  ;" + c.pop(0)
        for l in c:
            lines.append(r.choice(["  ", "    ", "\t", " "]) + r.choice([";"] * 6 + ["#", "|", "%"]) + l)
    i = 0
    layout = []
    while i < len(cs):
        if lines: lines.append("")
        lines.append("20%02d-%02d-%02d foo" % (10 + n // 336, 1 + n // 28 % 12, 1 + n % 28))
        n += 1
        emit(cs[i], True); i += 1
        k = 1
        for _ in range(r.choice([1, 2, 3])):
            lines.append("  acct%d" % k + r.choice(["", "  GBP%d.00" % n])); k += 1
            c = []
            if i < len(cs): c = cs[i]; i += 1
            else: cs.append([]); i += 1
            if fp:
                c = list(c); cs[i - 1] = c
                c.insert(r.randint(0, len(c)), ":fp-%d-%d:" % (n, k))
            emit(c, True)
        layout.append(k - 1)
    return "\n".join(lines) + "\n", cs, layout

def raw_comments(text):
    """Comment lines per header and posting of program output, in order, with the shape."""
    res, layout = [], []
    for line in text.split("\n"):
        m = re.match(r"^  ; (.*)$", line)
        if m: res[-1].append(m.group(1))
        elif line.startswith("  "): res.append([]); layout[-1] += 1
        elif line: res.append([]); layout.append(0)
    return res, layout

def execute(box, job):
    sid, comments, via, seed = job
    r = random.Random(seed)
    box.fresh()
    text, cs, layout = build(comments, r, via != "rules")
    box.write("in.j", text); box.write("r.ron", '[Chain("start", [])]')
    outs = []
    cur = "in.j"
    for k in (1, 2):
        o = "o%d.j" % k
        if via == "rules": rc, so, se = box.run("apply-rules", cur, "-o", o, "table", "r.ron")
        elif via == "merge": rc, so, se = box.run("merge", cur, "-o", o)
        else:
            box.write(o, box.read(cur)); rc, so, se = box.run("generate-fingerprints", o)
        outs.append((rc, (box.read(o) or b"").decode("utf-8", "replace")))
        if rc != 0: break
        cur = o
    it = {"id": sid, "shape": False, "cs": []}
    if len(outs) == 2 and outs[1][0] == 0:
        c1, l1 = raw_comments(outs[0][1]); c2, l2 = raw_comments(outs[1][1])
        if l1 == layout and l2 == layout and len(c1) == len(cs):
            it["shape"] = True
            it["cs"] = [{"inp": a, "out1": b, "out2": c} for a, b, c in zip(cs, c1, c2)]
    return it, {"text": text, "outs": outs, "via": via}

def run(chk):
    r = random.Random("C13/%d" % chk.seed)
    comments = []
    for c in (["CommentMC_a.cfg", "CommentMC_b.cfg"] if chk.quick else ["CommentMC_a.cfg", "CommentMC_b.cfg", "CommentMC_c.cfg", "CommentMC_d.cfg"]):
        d = chk.design("CommentMC", c, "design check CommentMC/" + c)
        comments += [json.loads(json.loads(l[len('<<"SCN", '):-2])) for l in d["printed"] if l.startswith('<<"SCN"')]
    chk.cov["spec_comments_replayed"] = len(comments)
    nr = chk.n(15000, 200000)
    comments += [rnd_comment(r) for _ in range(nr)]
    chk.cov["random_comments"] = nr
    r.shuffle(comments)
    jobs = []
    for a in range(0, len(comments), 60):
        jobs.append(("job%d" % (a // 60), comments[a:a + 60], r.choice(["rules", "rules", "merge", "fpgen"]), r.randrange(1 << 30)))
    results, nruns = pool.run_jobs(chk.binary, execute, jobs)
    chk.cov["program_runs"] = nruns
    chk.cov["comments_observed"] = sum(len(it["cs"]) for it, _ in results)
    by = {it["id"]: (it, rep) for it, rep in results}
    for (i, k, labels, ex) in chk.validate("CommentTrace", "CommentTrace.cfg", [it for it, _ in results]):
        it, rep = by[i]
        if labels == ["fragile"]:
            chk.violation("fragile: " + json.dumps(it["cs"][k - 1], ensure_ascii=False), {"comment": it["cs"][k - 1], "via": rep["via"]})
        elif k:
            chk.violation("comment %s" % json.dumps(it["cs"][k - 1], ensure_ascii=False), {"comment": it["cs"][k - 1], "via": rep["via"]})
        else:
            chk.violation("%s: output has another shape" % i, rep)
    chk.sample(results[0][0]["cs"][:3])
    chk.assumptions += ["Characters of comments come from the alphabet of Comment.tla (ASCII and some two- and three-byte characters)."]
    chk.finish()
