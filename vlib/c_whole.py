"""Check C25: journals are processed whole or refused."""
import json, random, re
from . import pool, ledger_text as L, c_fmt as F

PLAIN = ["note", "two words", "£5", "2020-01-01 foo", "include x", "= 5", "é", "P 2020", "x y z", "a  GBP 5", "note", "", ""]

def line(k, r):
    if k == "com": return {"k": "com", "ind": r.random() < .6, "txt": r.choice(PLAIN)}
    for _ in range(200):
        l = F.line(k, r)
        if k == "star" and l["ic"]: continue
        if l.get("ic"): l["ic"] = [r.choice(PLAIN)]
        return l
    raise AssertionError(k)

def doc(r):
    """Mostly transactions; sometimes one line too many, too few or out of place."""
    ls = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        ls.append(line("head", r))
        ls += [line("com", r) for _ in range(r.choice([0, 0, 0, 1, 2]))]
        for _ in range(r.choice([1, 2, 2, 3])):
            ls.append(line(r.choice(["post"] * 8 + ["star"] * 2 + ["iinc"] * (r.random() < .1)), r))
            ls += [line("com", r) for _ in range(r.choice([0, 0, 1, 2]))]
        if r.random() < .7: ls.append({"k": "blank"})
        if r.random() < .1: ls.append({"k": "blank"})
    x = r.random()
    if x < .35: ls.insert(r.choice([0, len(ls), r.randint(0, len(ls))]), line(r.choice(["com", "com", "price", "inc", "iinc", "star", "junk", "post", "head", "blank"]), r))
    elif x < .42 and len(ls) > 1: ls.pop(r.randrange(len(ls)))
    elif x < .46: r.shuffle(ls)
    return ls

def simple(r):
    return [{"k": "head", "v": {"date": r.choice(F.DATES), "edate": "", "st": "", "code": "", "desc": "second"}, "ic": []},
            {"k": "post", "v": {"acct": "zz:only", "kind": "", "st": "", "amt": "L|ZZZ|%d" % r.randint(1, 9), "lot": "", "price": "", "bal": ""}, "ic": []}]

def long(r):
    """A readable journal with more text than a pipe holds, or than fits into any usual buffer, and something after it."""
    ls = []
    for _ in range(r.choice([2, 3, 4])): ls += simple(r) + [{"k": "blank"}]
    size = r.choice([66000, 140000, 140000, 1100000, 2200000])
    n = r.choice([1, 1, 3, 12])
    heads = [i for i, l in enumerate(ls) if l["k"] != "blank"]
    at = r.choice([heads[0], r.choice(heads), heads[-2], heads[-1]])
    for _ in range(n): ls.insert(at + 1, {"k": "com", "ind": True, "txt": "word " * (size // 5 // n) + "end"})
    if r.random() < .3: ls.append(line(r.choice(["com", "price", "inc", "junk"]), r))
    return ls

def with_fps(ls, r, n):
    """The lines with a fingerprint of its own on every posting."""
    out = []
    for l in ls:
        out.append(l)
        if l["k"] in ("post", "star", "iinc"):
            n += 1
            out.append({"k": "com", "ind": True, "txt": r.choice([":fp-%d:", ":fp-q.1.ns-%dx:", ":import-self:fp-%d:"]) % n})
    return out, n

def stripped(ls):
    """The lines without flag tags in their comments, nor comments without text in transactions."""
    out, inside = [], False
    for l in ls:
        if l["k"] != "com": inside = l["k"] == "head" or (inside and l["k"] in ("post", "star", "iinc"))
        if l["k"] == "com" and l["txt"].startswith(":"):
            t = re.sub(r"^(:[^ :]+)+:\s*", "", l["txt"])
            if not t: continue
            l = dict(l, txt=t)
        if l["k"] == "com" and inside and not l["txt"]: continue
        if l.get("ic") == [""]: l = dict(l, ic=[])
        out.append(l)
    return out

def undecodable(text, r):
    """The text as bytes that are not UTF-8: in another encoding, or with stray or cut-off bytes."""
    if r.random() < .4:
        for e in ("latin-1", "utf-16"):
            try:
                b = text.encode(e)
                b.decode("utf-8")
            except UnicodeEncodeError: pass
            except UnicodeDecodeError: return b
    k = r.choice([0, len(text), r.randint(0, len(text)), r.randint(0, len(text))])
    return text[:k].encode() + r.choice([b"\xe9", b"\xff", b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xc0\x8a"]) + text[k:].encode()

RON = '[Chain("start", [Rule(predicate: %s, action: %s, result: Continue)])]'
def execute(box, job):
    sid, op, docs, seed = job
    r = random.Random(seed)
    box.fresh()
    n, texts = 0, []
    for d in docs:
        if op != "gen" or r.random() < .4: d, n = with_fps(d, r, n)
        texts.append(L.render(d, r, r.random() < .1))
    if r.random() < .06:
        k = r.randrange(len(docs))
        docs = [d + [{"k": "junk"}] * (i == k) for i, d in enumerate(docs)]      # a journal that cannot be read
        texts[k] = undecodable(texts[k], r)
    texts = [t if isinstance(t, bytes) else t.encode() for t in texts]
    names = ["f%d.j" % i for i in range(len(docs))]
    for nm, t in zip(names, texts): box.write(nm, t)
    old = r.choice([None, b"2001-01-01 old\n  a  GBP1\n"])
    stdin = b""
    ins = list(names)
    if r.random() < .25:
        k = r.randrange(len(ins)); ins[k] = "-"; stdin = texts[k]
    o = r.choice(["o.j", "o.j", "-"])
    if old is not None: box.write("o.j", old)
    if op == "fmt" or op == "gen":
        args = [{"fmt": "fmt", "gen": "generate-fingerprints"}[op], ins[0]]
        o = "-" if ins[0] == "-" else ins[0]
    elif op == "merge": args = ["merge"] + ins + ["-o", o] + r.choice([[], ["-u", "u.j"]])
    else:
        box.write("r.ron", r.choice(['[Chain("start", [])]', RON % ("True", "Noop"), RON % ("Not(True)", 'SetAccount("x")'), RON % ("True", 'RemovePostingFlagTag("gone")')]))
        args = ["apply-rules", ins[0], "-o", o, "table", "r.ron"]
    before = {f: box.read(f) for f in names + ["o.j", "u.j"]}
    rc, so, _ = box.run(*args, stdin=stdin)
    after = {f: box.read(f) for f in before}
    it = {"id": sid, "op": op, "docs": [stripped(d) for d in docs], "ok": rc == 0, "untouched": after == before and not so, "lexed": True, "out": []}
    res = so if o == "-" else box.read(o)
    if rc == 0:
        try: it["out"] = stripped(L.lex((res or b"").decode("utf-8")))
        except (L.LexError, UnicodeDecodeError): it["lexed"] = False
        if after["u.j"] is not None: it["lexed"] = False      # nothing here is ambiguous
    return it, {"args": args, "texts": [t.decode("latin-1") for t in texts], "rc": rc, "out": (res or b"").decode("utf-8", "replace")}

def run(chk):
    r = random.Random("C25/%d" % chk.seed)
    jobs = []
    def add(sid, ls):
        op = r.choice(["merge", "merge", "rules", "rules", "gen", "gen", "fmt"])
        docs = [ls]
        if op == "merge" and r.random() < .5:
            docs.insert(r.randint(0, 1), simple(r))
        jobs.append((sid, op, docs, r.randrange(1 << 30)))
    for c in (["WholeMC_a.cfg", "WholeMC_b.cfg"] if chk.quick else ["WholeMC_a.cfg", "WholeMC_b.cfg", "WholeMC_c.cfg"]):
        d = chk.design("WholeMC", c, "design check WholeMC/" + c)
        scn = sorted({json.loads(l[len('<<"SCN", '):-2]) for l in d["printed"] if l.startswith('<<"SCN"')})
        r.shuffle(scn)
        for i, s in enumerate(scn[:chk.n(3000, 40000)]):
            ls = [line(l["k"], r) if l["k"] != "com" else dict(line("com", r), ind=l["ind"]) for l in json.loads(s)]
            add("spec-%s-%d" % (c[8], i), ls)
    chk.cov["spec_behaviours_replayed"] = len(jobs)
    nr = chk.n(5000, 80000)
    for i in range(nr): add("rnd%d" % i, doc(r))
    nl = chk.n(24, 200)
    for i in range(nl): add("long%d" % i, long(r))
    results, nruns = pool.run_jobs(chk.binary, execute, jobs)
    items = [it for it, _ in results]
    by = {it["id"]: (it, rep) for it, rep in results}
    chk.cov.update({"program_runs": nruns, "random_documents": nr, "long_documents": nl, "taken": sum(i["ok"] for i in items), "refused": sum(not i["ok"] for i in items)})
    for (i, k, labels, ex) in chk.validate("WholeTrace", "WholeTrace.cfg", items, chunk=5000):
        it, rep = by[i]
        chk.violation("%s: %s" % (i, labels), rep)
    chk.sample(results[-1][1])
    chk.assumptions += ["Comments within transactions are plain text here (C13 decides what becomes of the rest); every posting given to merge has a fingerprint of its own, and nothing is ambiguous.",
                        "Blank lines and the layout within lines are not judged."]
    chk.finish()
