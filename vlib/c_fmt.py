"""Check C14: fmt keeps the content of journals, and is idempotent."""
import json, random
from . import pool, ledger_text as L

ACC = ["assets:bank", "expenses:food and drink", "a", "Équité:öl", "assets:x;y", "income:(x", "Liabilities:Card 1", "日本:税", "x:y=z", "a:b@c", "expenses:A & B", "assets:" + "a very long name of an account " * 3 + "end", "x" * 60]
COM = ["GBP", "EUR", "$", "£", "€", "AAPL", "A B", "X1", 'Q"T', "M&M", "it's", "_", "%d", "日"]
DESC = ["foo", "two words", "Café £5", "x ; y", "a  b", "with (parens) inside", "2020-01-01", "P 1", "include x", "* starred?"[2:], "a=b", "\"quoted\"", "x\u00a0y", ":a:b:", "k: v", "|pipe", "a;b", "1.50", "ünï", "a description that is much longer than any line should be, " * 4 + "end"]
TXT = ["note", "key: value", ":a:b:", "", "; double", "2020-01-01 foo", "include x", "P 2020", "  inner  space".strip(), "£5", "* star", "fp-x: y", "= 5", "a  GBP 5", "\"", "日本", "tab\there", "a remark that goes on and on and on " * 5 + "end", ":x: y :z:"]
CODE = ["c1", "1234", "a b", "x(y", "é", "*", "#5"]
DATES = ["2020-01-01", "2019-12-31", "2024-02-29", "0999-01-02", "9999-12-31", "2000-10-10"]
INC = ["f.journal", "dir/with space.j", "../x", "a;b", "é.j"]

def qty(r):
    x = r.random()
    if x < .1: s = "0" + r.choice(["", ".00", ".0"])
    else:
        s = str(r.choice([r.randint(1, 99), r.randint(100, 99999), r.randint(10 ** 6, 10 ** 12), 0]))
        n = r.choice([0, 0, 2, 2, 2, 1, 3, 8])
        if n: s += "." + "".join(r.choice("0123456789") for _ in range(n))
    if not any(c in "123456789" for c in s): return s
    return r.choice(["", "-"]) + s

def amount(r):
    return "%s|%s|%s" % (r.choice("LLR"), r.choice(COM), qty(r))

def posting(r, st=None):
    v = {"acct": r.choice(ACC), "kind": r.choice(["", "", "", "", "[", "("]), "st": r.choice(["", "", "", "!"]) if st is None else st,
         "amt": "", "lot": "", "price": "", "bal": ""}
    if r.random() < .75:
        v["amt"] = amount(r)
        if r.random() < .2: v["lot"] = r.choice("ut") + amount(r)
        if r.random() < .25: v["price"] = r.choice("ut") + amount(r)
    if r.random() < .3: v["bal"] = "0" if r.random() < .3 else amount(r)
    return v

def ic(r):
    return [r.choice(TXT)] if r.random() < .2 else []

def line(k, r):
    if k == "blank": return {"k": "blank"}
    if k == "head":
        v = {"date": r.choice(DATES), "edate": r.choice(DATES) if r.random() < .2 else "", "st": r.choice(["", "", "*", "!"]),
             "code": r.choice(CODE) if r.random() < .25 else "", "desc": r.choice(DESC)}
        c = ic(r)
        if "  " in v["desc"]: c = []
        return {"k": "head", "v": v, "ic": c}
    if k == "post": return {"k": "post", "v": posting(r), "ic": ic(r)}
    if k == "star":
        for _ in range(99):
            v, c = posting(r, "*"), ic(r)
            txt = L.render_posting(v, c, r, False).strip()
            l = L.lex_line("  * " + txt)
            if l["k"] == "star" and l["v"] == v and l["ic"] == c: return l
        raise AssertionError("star")
    if k == "com": return {"k": "com", "ind": r.random() < .6, "txt": r.choice(TXT).strip()}
    if k == "price": return {"k": "price", "v": "%s %02d:%02d:%02d|%s|%s" % (r.choice(DATES), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.choice(COM), amount(r))}
    if k == "inc": return {"k": "inc", "v": r.choice(INC)}
    if k == "iinc":
        v = r.choice(["f.journal", "x/y.j"])
        return {"k": "iinc", "v": v, "p": L.lex_posting("include " + v)[0]}
    return {"k": "junk", "txt": r.choice(["foo bar", "2020-13-01 foo", "2020-02-30 foo", "2020-01-01", "20-01-01 foo", "P 2020-01-01 GBP $5", "include",
                                         "  a  GBP", "  a  10", "  a  GBP5 GBP6", "  a  GBP5 = ", "  a  1,00 GBP", "  a  GBP5 {GBP1", "  a  GBP5 @", "2020-01-01=2020 foo", "P 2020-01-01 25:00:00 GBP $5",
                                         "  a  GBP1.2.3", "2020-1-1 foo", "  a  \"X 5", "account foo", "  a  GBP5 foo"])}

KS = ["blank", "head", "post", "com", "star", "price", "iinc", "inc"]
def fill(skel, r):
    """A skeleton line of JournalMC with rich values."""
    return line(skel["k"], r) if skel["k"] != "com" else dict(line("com", r), ind=skel["ind"])

def rnd_doc(r):
    ls = []
    for _ in range(r.choice([1, 2, 3, 5, 8]) if r.random() < .997 else 80):
        x = r.random()
        if x < .7:
            ls.append(line("head", r))
            ls += [line("com", r) for _ in range(r.choice([0, 0, 0, 1, 2]))]
            for _ in range(r.choice([1, 2, 2, 3, 5])):
                ls.append(line(r.choice(["post"] * 7 + ["star"] * 2 + ["iinc"] * (r.random() < .1)), r))
                ls += [line("com", r) for _ in range(r.choice([0, 0, 1, 2]))]
        else:
            ls.append(line(r.choice(["com", "price", "inc", "iinc", "blank", "star"]), r))
        if r.random() < .7: ls.append({"k": "blank"})
        if r.random() < .1: ls.append({"k": "blank"})
    x = r.random()
    if x < .12 and ls: ls.insert(r.randint(0, len(ls)), line("junk", r))
    elif x < .2 and len(ls) > 1: ls.pop(r.randrange(len(ls)))
    elif x < .28: ls.insert(r.randint(0, len(ls)), line(r.choice(KS), r))
    return ls

def execute(box, job):
    sid, ls, seed = job
    r = random.Random(seed)
    box.fresh()
    text = L.render(ls, r, r.random() < .1)
    last = text.rstrip("\r\n").split("\n")[-1]
    if r.random() < .3 and ls and ls[-1]["k"] in ("post", "star") and ls[-1]["v"]["amt"] and last.isascii():
        text = text.rstrip("\r\n")
    stdio = r.random() < .25
    box.write("j", text)
    raw = text.encode()
    def fmt(data):
        if stdio:
            rc, so, _ = box.run("fmt", "-", stdin=data)
            return rc, (so if rc == 0 else data), so == b""
        box.write("j", data)
        rc, so, _ = box.run("fmt", "j")
        return rc, box.read("j"), so == b""
    rc, o1, quiet = fmt(raw)
    it = {"id": sid, "inp": ls, "ok": rc == 0, "untouched": True, "lexed": True, "out": [], "same": True}
    if rc != 0:
        it["untouched"] = o1 == raw and quiet
        return it, {"text": text, "rc": rc, "out": (o1 or b"").decode("utf-8", "replace")}
    try:
        it["out"] = L.lex(o1.decode("utf-8"))
    except (L.LexError, UnicodeDecodeError) as e:
        it["lexed"] = False
    rc2, o2, _ = fmt(o1)
    it["same"] = rc2 == 0 and o2 == o1
    return it, {"text": text, "rc": rc, "out": o1.decode("utf-8", "replace"), "out2": (o2 or b"").decode("utf-8", "replace")}

def run(chk):
    r = random.Random("C14/%d" % chk.seed)
    jobs = []
    for c in (["JournalMC_a.cfg", "JournalMC_b.cfg"] if chk.quick else ["JournalMC_a.cfg", "JournalMC_b.cfg", "JournalMC_c.cfg", "JournalMC_d.cfg"]):
        d = chk.design("JournalMC", c, "design check JournalMC/" + c)
        scn = [json.loads(json.loads(l[len('<<"SCN", '):-2])) for l in d["printed"] if l.startswith('<<"SCN"')]
        for i, ls in enumerate(scn):
            jobs.append(("spec-%s-%d" % (c[10], i), [fill(l, r) for l in ls], r.randrange(1 << 30)))
    chk.cov["spec_behaviours_replayed"] = len(jobs)
    nr = chk.n(6000, 80000)
    for i in range(nr): jobs.append(("rnd%d" % i, rnd_doc(r), r.randrange(1 << 30)))
    results, nruns = pool.run_jobs(chk.binary, execute, jobs)
    items = [it for it, _ in results]
    by = {it["id"]: (it, rep) for it, rep in results}
    chk.cov.update({"program_runs": nruns, "random_documents": nr, "accepted": sum(i["ok"] for i in items), "refused": sum(not i["ok"] for i in items)})
    for (i, k, labels, ex) in chk.validate("JournalTrace", "JournalTrace.cfg", items, chunk=6000):
        it, rep = by[i]
        chk.violation("%s: %s" % (i, labels), rep)
    chk.sample(results[-1][1])
    chk.assumptions += ["Amounts have at most 28 significant digits; descriptions are not empty; commodity prices have no comment of their own (ledger-parser has no place for it).",
                        "Blank lines and the layout within lines are not judged."]
    chk.finish()
