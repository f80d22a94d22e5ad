"""Scenario generation and execution for the merge specification (C01-C08)."""
import json, os, random, re
from . import journal as J

UNK = "unknown-account"
LINES = ["note one", "see invoice 42", "café", "second line of text", "x", "paid in full, thanks", "Note one", "note", "note one, and two"]
VKEYS = ["k1", "key-two", "payee", "seq", "a.b", "zz", "location", "K1", "source", "Source-File"]
VVALS = ["v1", "value two", "http://x/y:z", "5", "ünïcode", "very long value that goes on and on", "-", ""]
XTAGS = ["t1", "exactly12len", "thirteen_long", "import-self", "é", "a", "Z", "some-much-longer-flag-tag", "candidat", "f", "fp", "unknown", "Unknown-Account", "unknown-accounts", "candidate", "Candidate-fp-1", "xcandidate-fp-1", "FP-1", "xfp-1", "import-peer"]
DESCS = ["foo", "FOO CO @ LOC", "Somecompany Inc.", "x (y) z", "a;b", "ünï", "2020-01-01 odd", "foo"]
ACCTS = ["assets:bank", "assets:unknown", "expenses:unknown", "income:foo bar", "équipe:café", "liabilities:cc", "Assets:Bank", "assets:bank:1", "assets"]
SOURCES = ["bank-a", "bank b", "Z", "a/b.csv", "aa", "b", "bank-a2", "é", "0", "~", "", "-", "z: y", '"f1.j"', '"f2.j"']
SRC = "source-file"

class Gen:
    def __init__(self, rnd, focus):
        self.r = rnd
        self.focus = focus
        r = rnd
        self.accts = r.sample(ACCTS, r.choice([1, 1, 2, 3]))
        y = r.choice([2019, 2020, 2021, 2024])
        pool = [y * 10000 + 101, y * 10000 + 102, y * 10000 + 131, y * 10000 + 201, y * 10000 + 228, y * 10000 + 1231,
                (y + 1) * 10000 + 101, (y - 1) * 10000 + 1105, 20200229, y * 10000 + 1002, y * 10000 + 910]
        nd = r.choice([1, 1, 2, 3, 6] if focus != "C06" else [2, 3, 4, 6, 9])
        self.dates = r.sample(pool, nd)
        qs = r.sample(["10", "10.00", "10.0", "-10.00", "2.5", "0.00", "1234567.891", "-0.01", "99999"], r.choice([1, 1, 2, 3]))
        self.amts = []
        if r.random() < .2: qs += r.choice([["1234567.891", "1234567.892"], ["0.001", "0.002"], ["12345678901234567.01", "12345678901234567.02"], ["10.00", "10.001"], ["5", "-5"], ["0.1", "0.01", "1"]])
        for q in qs:
            a = r.choice([lambda: J.amount("GBP", q), lambda: J.amount("gbp", q) if r.random() < .2 else J.amount("GBP", q), lambda: J.amount("GBP", q), lambda: J.amount("USD", q), lambda: J.amount("EUR", q, False), lambda: J.amount("£", q)])()
            self.amts.append(a)
            if r.random() < .15:
                self.amts.append(J.posting_amount(a, lot=J.amount("USD", r.choice(["3", "4.5"])), lot_total=r.random() < .5,
                                                  price=J.amount("USD", "7") if r.random() < .5 else None, price_total=r.random() < .5))
            if r.random() < .12:
                self.amts.append(J.posting_amount(a, price=J.amount("USD", r.choice(["7", "8"])), price_total=r.random() < .5))
        if r.random() < .1: self.amts.append(dict(J.NOAMT))
        self.bals = [dict(J.NOAMT)] * r.choice([1, 2, 4]) + [J.amount("GBP", q) for q in r.sample(["100.00", "100", "90.5", "0"], r.choice([0, 1, 2]))]
        if r.random() < .15: self.bals += [J.amount("GBP", "90.001"), J.amount("GBP", "90.002"), J.amount("USD", "100")]
        if r.random() < .15: self.bals.append({"k": "0", "t": "0"})
        self.p_unk = r.choice([0, .2, .4, .8])
        self.p_fresh = r.choice([.5, .75, .9])
        self.rich = r.random() < .7
        self.xtags = XTAGS if r.random() < .5 else r.sample(["import-self", "import-peer", "unknown-accounts"] + XTAGS, r.choice([1, 2]))     # few flags: they recur
        self.p_x = r.choice([.3, .3, .6])
        self.used = []
        self.batchfps = set()
        self.n = 0
        self.p_bad = .25 if focus == "C02" else .04
        self.plain_pairs = r.random() < .2

    def fp(self):
        r = self.r
        if self.used and r.random() > self.p_fresh:
            f = r.choice(self.used)
            if f not in self.batchfps or r.random() < .05:
                self.batchfps.add(f)
                return f
        self.n += 1
        f = r.choice(["fp-%d", "fp-a%d", "fp-%d", "fp-nwcsv6.1.LVcP3L+Y-%dEJ/+8t", "fp-uuidb64-%d_x", "fp-ns-%d"]) % self.n
        if r.random() < .01: f = "fp-"
        if self.used and r.random() < .06:      # one much like another
            g = r.choice(self.used)
            g = r.choice([g + "x", g[:3] + g[3:].swapcase(), g[:-1] if len(g) > 4 else g + "0"])
            if g not in self.used: f = g
        self.used.append(f)
        self.batchfps.add(f)
        return f

    def some_x(self):
        return self.r.sample(self.xtags, min(len(self.xtags), self.r.choice([1, 2])))

    def lines(self, p):
        r = self.r
        if not self.rich or r.random() > p: return []
        return r.sample(LINES, r.choice([1, 1, 2, 3]))

    def vt(self, p):
        r = self.r
        if not self.rich or r.random() > p: return []
        ks = r.sample(VKEYS, r.choice([1, 1, 2]))
        return [[k, r.choice(VVALS)] for k in sorted(ks)]

    def posting(self):
        r = self.r
        tags = {self.fp()}
        while r.random() < .15: tags.add(self.fp())
        if r.random() < self.p_bad * .3: tags = set()
        if r.random() < self.p_bad * .3: tags.add("candidate-" + r.choice([r.choice(self.used) if self.used else "fp-q"] * 3 + ["x", "candidate-fp-1", "xfp-1", "FP-1", ""]))
        if r.random() < self.p_bad * .3 and self.batchfps: tags.add(r.choice(sorted(self.batchfps)))
        unk = r.random() < self.p_unk
        if unk: tags.add(UNK)
        if (self.rich or self.xtags is not XTAGS) and r.random() < self.p_x: tags |= set(self.some_x())
        amt = dict(r.choice(self.amts))
        bal = dict(r.choice(self.bals))
        return {"acct": r.choice(["assets:unknown", "expenses:unknown"]) if unk and r.random() < .6 else r.choice(self.accts),
                "kind": r.choice(["", "", "", "", "", "", "[", "("]) if self.rich else "",
                "amt": amt, "bal": bal, "st": r.choice(["", "", "", "!", "*"]) if self.rich else "",
                "lines": self.lines(.3), "tags": sorted(tags), "vt": self.vt(.3)}

    def mutate(self, p):
        """A later report of the same posting: same fingerprint, some fields differ."""
        r = self.r
        p = json.loads(json.dumps(p))
        if r.random() < .4: p["st"] = r.choice(["", "!", "*"])
        if r.random() < .3: p["bal"] = dict(r.choice(self.bals))
        if r.random() < .3: p["acct"] = r.choice(ACCTS)
        if r.random() < .1: p["amt"] = dict(r.choice(self.amts))
        tags = set(p["tags"])
        if r.random() < .4:
            if UNK in tags: tags.discard(UNK)
            else: tags.add(UNK)
        if r.random() < .4: tags |= set(self.some_x())
        if r.random() < .3: tags -= set(XTAGS)
        if r.random() < .3:
            tags.add(self.fp())
            while r.random() < .25: tags.add(self.fp())
        if r.random() < .2:
            tags = {t for t in tags if not t.startswith("fp-")}; tags.add(self.fp())   # soft match only
        p["tags"] = sorted(tags)
        if r.random() < .4: p["lines"] = self.lines(1) + (p["lines"] if r.random() < .5 else [])
        p["lines"] = list(dict.fromkeys(p["lines"])) if r.random() < .8 else p["lines"]
        if r.random() < .4: p["vt"] = self.vt(1)
        elif p["vt"] and r.random() < .3: p["vt"] = [[k, "" if v and r.random() < .5 else r.choice(VVALS)] for k, v in p["vt"]]
        for t in p["tags"]:
            if t.startswith("fp-"): self.batchfps.add(t)
        return p

    def header(self, date=None):
        r = self.r
        return {"date": date or r.choice(self.dates), "edate": r.choice(self.dates) if self.rich and r.random() < .15 else 0,
                "st": r.choice(["", "", "!", "*"]) if self.rich else "", "code": r.choice(["", "", "", "123", "a b"]) if self.rich else "",
                "desc": r.choice(DESCS), "lines": self.lines(.2), "tags": sorted(set(self.some_x())) if self.rich and r.random() < .2 else [],
                "vt": self.vt(.2)}

    def trn(self, earlier):
        r = self.r
        if earlier and r.random() < (.2 if self.focus == "C02" else .05):
            # One transaction that reports postings of several earlier ones.
            t = r.choice(earlier)
            like = [x for x in earlier if x["h"]["date"] == t["h"]["date"]] if r.random() < .8 else earlier
            ts = r.sample(like, min(len(like), r.choice([2, 2, 3])))
            ps = [self.mutate(r.choice(x["ps"])) if r.random() < .5 else dict(r.choice(x["ps"])) for x in ts]
            for p in ps: self.batchfps |= {x for x in p["tags"] if x.startswith("fp-")}
            h = self.header(t["h"]["date"])
            if r.random() < .5: h = dict(t["h"])
            return {"h": h, "ps": ps}
        if earlier and r.random() < .35:
            t = r.choice(earlier)
            ps = [self.mutate(p) for p in t["ps"]]
            if r.random() < .2 and len(ps) > 1: ps.pop(r.randrange(len(ps)))
            if r.random() < .25: ps.insert(r.randint(0, len(ps)), self.posting())
            if r.random() < .1: r.shuffle(ps)
            return {"h": self.header(t["h"]["date"] if r.random() < .75 else None), "ps": ps}
        n = r.choice([1, 1, 2, 2, 2, 3, 4])
        return {"h": self.header(), "ps": [self.posting() for _ in range(n)]}

    def scenario(self):
        r = self.r
        nf = r.choice([1, 2, 2, 3, 3, 4, 5] if self.focus != "C05" else [2, 3, 3, 4])
        files, earlier = [], []
        if r.random() < .3:        # few kinds of headers
            h0 = [self.header(d) for d in self.dates]
            hdr = self.header
            self.header = lambda date=None: dict(next((h for h in h0 if h["date"] == date), r.choice(h0))) if r.random() < .7 else hdr(date)
        for _ in range(nf):
            self.batchfps = set()
            multi = r.random() < (.85 if self.focus == "C08" else .15)
            srcs = r.sample(SOURCES, r.choice([1, 2, 2, 3, 4])) + [None] * r.choice([0, 1, 2]) if multi else [None]
            fps_by_src = {}
            f = []
            for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5] if not multi else [2, 3, 3, 4, 6])):
                s = r.choice(srcs)
                self.batchfps = fps_by_src.setdefault(s, set())
                t = self.trn(earlier + (f if multi else []))
                t["src"] = s
                f.append(t)
            earlier = earlier + f
            files.append(f)
        if r.random() < .15 and earlier:      # duplicate a whole file later on
            i = r.randrange(len(files))
            files.insert(r.randint(i, len(files)), json.loads(json.dumps(files[i])))
        return files[:6]

def ambiguous(rnd):
    """Scenario with several candidates for one posting."""
    g = Gen(rnd, "C07")
    r = rnd
    d = g.dates[0]
    amt = dict(r.choice(g.amts)); acct = r.choice(g.accts)
    n = r.choice([2, 2, 3, 4, 6])
    def like():
        p = g.posting()
        while not any(t.startswith("fp-") for t in p["tags"]) or any(t.startswith("candidate-") for t in p["tags"]):
            p = g.posting()
        p["amt"] = dict(amt)
        if UNK not in p["tags"]: p["acct"] = acct
        return p
    files = []
    rest = n
    while rest > 0:
        f = []
        for _ in range(r.choice([1, 2, 3])):
            if rest <= 0: break
            m = min(rest, r.choice([1, 1, 2])); rest -= m
            f.append({"h": g.header(d), "ps": [like() for _ in range(m)], "src": None})
        g.batchfps = set()
        files.append(f)
    last = []
    for _ in range(r.choice([1, 1, 2, 3])):
        ps = [like() for _ in range(r.choice([1, 1, 2]))]
        if r.random() < .5: ps.insert(r.randint(0, len(ps)), g.posting())
        last.append({"h": g.header(d), "ps": ps, "src": r.choice([None, None, "bank-a", "zz"])})
    if r.random() < .3: last.append(g.trn([t for f in files for t in f]) | {"src": None})
    files.append(last)
    if r.random() < .3: files.append([g.trn([t for f in files for t in f]) | {"src": None}])
    return files

def shared(rnd):
    """Several later postings that report the same existing one, by some of its fingerprints or alike in values."""
    g = Gen(rnd, "C01")
    r = rnd
    d = g.dates[0]
    others = [d] + r.sample([20190102, 20200105, 20200229, 20201231, 20210101, 20200106], r.choice([1, 2]))
    def plain():
        p = g.posting()
        p["tags"] = [t for t in p["tags"] if not t.startswith(("fp-", "candidate-"))]
        return p
    base = plain()
    fps = ["fp-s%d" % i for i in range(r.choice([2, 2, 3]))]
    late = r.random() < .4            # the fingerprints are acquired over several sources
    def with_fps(p, f):
        q = dict(p); q["tags"] = sorted(set(p["tags"]) | set(f)); return q
    def filler():
        g.batchfps = set()
        return [with_fps(plain(), [g.fp()]) for _ in range(r.choice([0, 0, 1, 2]))]
    def trn(ps, date):
        x = filler()
        for p in ps: x.insert(r.randint(0, len(x)), p)
        return {"h": g.header(date), "ps": x, "src": None}
    files = [[trn([with_fps(base, fps[:1] if late else fps)], d)]]
    if r.random() < .3: files[0].append(trn([with_fps(plain(), ["fp-x1"])], d))
    if late: files += [[trn([with_fps(base, [fps[0], f])], r.choice(others))] for f in fps[1:]]
    def report():
        x = r.random()
        q = base if x < .6 else dict(plain(), amt=base["amt"], acct=base["acct"]) if x < .8 else plain()
        k = r.random()
        if k < .8 and left: return with_fps(q, [left.pop()])
        g.n += 1
        return with_fps(base if r.random() < .7 else q, ["fp-n%d" % g.n])
    for _ in range(r.choice([1, 1, 2])):
        left = list(fps); r.shuffle(left)
        f = []
        for _ in range(r.choice([1, 2, 2, 3])):
            f.append(trn([report() for _ in range(r.choice([1, 1, 1, 2]))], r.choice(others)))
        if r.random() < .2: f.append(dict(json.loads(json.dumps(r.choice(f))), src="zz"))
        if r.random() < .2:
            for t in f: t["src"] = r.choice([None, "bank-a", "zz"])
        files.append(f)
    return files

def large(rnd):
    """Many transactions of few dates, nearly all of them different."""
    r = rnd
    g = Gen(rnd, "C06")
    g.p_bad, g.p_fresh, g.rich = 0, 1, r.random() < .2
    g.dates = g.dates[:r.choice([1, 2, 3])]
    n = 0
    def post():
        nonlocal n
        n += 1
        p = g.posting()
        p["amt"] = J.amount(r.choice(["GBP", "USD"]), "%d.%02d" % (n, r.randint(0, 99)))
        p["bal"] = dict(J.NOAMT) if r.random() < .8 else p["bal"]
        return p
    files, earlier = [], []
    for _ in range(r.choice([1, 2, 2])):
        g.batchfps = set()
        srcs = [None] if r.random() < .6 else r.sample(SOURCES, 3)
        f = [{"h": g.header(), "ps": [post() for _ in range(r.choice([1, 1, 1, 2]))], "src": r.choice(srcs)} for _ in range(r.choice([21, 26, 40]))]
        for t in r.sample(earlier, min(len(earlier), r.choice([0, 3, 25]))):
            t = json.loads(json.dumps(t))
            if r.random() < .3: t["ps"].insert(r.randint(0, len(t["ps"])), post())
            if r.random() < .5: t["h"]["desc"] = r.choice(DESCS)
            f.insert(r.randint(0, len(f)), t)
        if r.random() < .2:      # one transaction with many postings
            f[r.randrange(len(f))]["ps"] += [post() for _ in range(r.choice([21, 30]))]
        earlier += f
        files.append(f)
    return files

def grouped(rnd):
    """Journals in which each of several sources reports some of the same few records, their transactions in any order."""
    r = rnd
    g = Gen(rnd, "C08")
    g.p_bad = 0
    d = g.dates[0]
    recs = []
    for i in range(r.choice([1, 2, 3])):
        p = g.posting()
        p["amt"] = J.amount("GBP", "%d.50" % (i + 1))
        p["bal"] = dict(J.NOAMT)
        p["tags"] = [t for t in p["tags"] if t != UNK]
        recs.append(p)
    files, n = [], 0
    for _ in range(r.choice([1, 1, 2])):
        f = []
        for s in r.sample(SOURCES + [None], r.choice([2, 2, 3, 4])) + [None] * r.choice([0, 1]):
            if any(t["src"] == s for t in f): continue
            for p in r.sample(recs, r.randint(1, len(recs))):
                n += 1
                p = json.loads(json.dumps(p))
                p["tags"] = sorted([t for t in p["tags"] if not t.startswith(("fp-", "candidate-"))] + ["fp-g%d" % n] + (["fp-rec%s" % p["amt"]["t"]] if r.random() < .1 and "t" in p["amt"] else []))
                f.append({"h": g.header(d), "ps": [p], "src": s})
        if r.random() < .15: f.append(dict(json.loads(json.dumps(r.choice(f)))))
        r.shuffle(f)
        files.append(f)
    return files

def from_spec(js, rnd):
    """Scenario emitted by MergeMC: list of batches of {date, ps}."""
    files = []
    for b in js:
        f = []
        for t in b:
            h = {"date": t["date"], "edate": 0, "st": "", "code": "", "desc": "t", "lines": [], "tags": [], "vt": []}
            ps = [dict(p, tags=sorted(p["tags"])) for p in t["ps"]]
            f.append({"h": h, "ps": ps, "src": None})
        files.append(f)
    return files

def with_source(t, s):
    h = dict(t["h"])
    vt = [kv for kv in h["vt"] if kv[0] != SRC] + [[SRC, s]]
    h["vt"] = sorted(vt)
    return {"h": h, "ps": t["ps"]}

def observe(box, args, outn, unn, rnd_sentinel):
    """Runs merge; returns observation."""
    SENT = b"precious\n"
    box.unlink(outn, unn)
    if rnd_sentinel:
        box.write(outn, SENT); box.write(unn, SENT)
    want = SENT if rnd_sentinel else None
    rc, so, se = box.run("merge", *args)
    o, u = box.read(outn), box.read(unn)
    obs = {"ok": rc == 0, "outw": o != want, "unw": u != want, "parsed": True, "out": [], "un": []}
    try:
        if rc == 0:
            if o is None or not obs["outw"] : raise J.ParseError("no output written")
            obs["out"] = J.parse(o.decode("utf-8"))
            if obs["unw"]:
                if u is None: raise J.ParseError("unmerged removed")
                obs["un"] = J.parse(u.decode("utf-8"))
    except (J.ParseError, UnicodeDecodeError) as e:
        obs["parsed"] = False
        obs["why"] = str(e)
        obs["out"], obs["un"] = [], []
    if rc not in (0, 1):
        obs["rc"] = rc
    obs["stderr"] = se.decode("utf-8", "replace")[-300:]
    return obs

def execute(box, job):
    """Runs one scenario; returns list of trace items (and the concrete files for replay)."""
    sid, files, seed, opts = job
    r = random.Random(seed)
    box.fresh()
    styles = r.random() < .7
    names = []
    model = []
    texts = {}
    spelt, subdirs, base = r.random() < .15, r.random() < .25, r.choice(["in.journal", "f.j", "statement.ledger"])
    for i, f in enumerate(files):
        name = r.choice(["f%d.j", "f%d.j", "in %d.journal", "Z%d", "sub%d.ledger"]) % (i + 1)
        if subdirs:
            d = r.choice(["a", "b", "c", "p%d", "a/b", "x y"])
            name = (d % (i + 1) if "%" in d else d) + "/" + (base if r.random() < .8 else name)
            while any(os.path.relpath(os.path.join(box.dir, x), box.dir) == name for x in names): name = "q%d/%s" % (i + 1, base) if not name.startswith("q") else "q" + name
            os.makedirs(os.path.join(box.dir, os.path.dirname(name)), exist_ok=True)
        if spelt and r.random() < .7: name = r.choice([os.path.join(box.dir, name), "./" + name])
        trns, mf = [], []
        dflt = '"%s"' % name
        for t in f:
            s = t["src"]
            w = with_source(t, s) if s is not None else {"h": t["h"], "ps": t["ps"]}
            trns.append(w)
            eff = s if s is not None else dflt
            m = with_source(t, eff)
            m["sb"] = list(eff.encode("utf-8"))
            mf.append(m)
        texts[name] = J.render(trns, random.Random(seed * 31 + i) if styles else None, blank=r.random() < .8)
        box.write(name, texts[name])
        names.append(name)
        model.append(mf)
    steps, rels = [], []
    ok = True
    for k in range(1, len(files) + 1):
        o = observe(box, names[:k] + ["-u", "un.j", "-o", "out.j"], "out.j", "un.j", r.random() < .4)
        o["k"] = k
        steps.append(o)
        if not o["ok"]: ok = False; break
    nk = len(steps)
    items = []
    def rel(kind, k, obs, label, **kw):
        d = {"rel": kind, "k": k, "label": label, "order": []}
        d.update(kw); d.update({x: obs[x] for x in ("ok", "outw", "unw", "parsed", "out", "un")})
        rels.append(d)
    if opts.get("inc") or r.random() < .1:
        prev = None
        for k in range(1, nk + 1):
            args = ([prev] if prev else []) + [names[k - 1], "-u", "iu.j", "-o", "inc%d.j" % k]
            o = observe(box, args, "inc%d.j" % k, "iu.j", False)
            rel("inc", k, o, "C05")
            if not o["ok"]: break
            prev = "inc%d.j" % k
    if ok and (opts.get("inc") or r.random() < .1):
        o1 = observe(box, names[:nk] + ["-u", "un.j", "-o", "out.j"], "out.j", "un.j", False)
        if o1["ok"]:
            o = observe(box, ["out.j", names[nk - 1], "-u", "ru.j", "-o", "re.j"], "re.j", "ru.j", False)
            rel("re", nk, o, "C05")
    if opts.get("nou") or r.random() < .1:
        o = observe(box, names[:nk] + ["-o", "nou.j"], "nou.j", "nou-un.j", r.random() < .5)
        rel("nou", nk, o, "C07")
    last = model[nk - 1]
    if (opts.get("split") or r.random() < .3) and len({tuple(t["sb"]) for t in last}) > 1:
        order = sorted({tuple(t["sb"]) for t in last})
        parts = []
        for i, sb in enumerate(order):
            ts = [{"h": t["h"], "ps": t["ps"]} for t in last if tuple(t["sb"]) == sb]
            n = "part%d.j" % i
            box.write(n, J.render(ts, None))
            parts.append(n)
        o = observe(box, names[:nk - 1] + parts + ["-u", "su.j", "-o", "so.j"], "so.j", "su.j", False)
        rel("split", nk, o, "C08", order=[list(x) for x in order])
    items.append({"id": sid, "files": model[:nk], "steps": steps, "rels": rels, "resolve": False})
    # A user resolves the ambiguous postings, then merges again.
    if ok and steps[-1]["ok"] and steps[-1]["parsed"] and steps[-1]["un"] and (opts.get("nou") or r.random() < .15):
        o1 = observe(box, names[:nk] + ["-u", "un.j", "-o", "out.j"], "out.j", "un.j", False)
        if o1["ok"] and o1["parsed"]:
            edited = json.loads(json.dumps(o1["un"]))
            for t in edited:
                for p in t["ps"]:
                    c = [x for x in p["tags"] if x.startswith("candidate-")]
                    if c:
                        ch = r.choice(c)
                        p["tags"] = sorted(set(x for x in p["tags"] if x not in c) | {ch[len("candidate-"):]})
            if r.random() < .3: edited = edited[:1]
            box.write("edited.j", J.render(edited, None))
            o = observe(box, ["out.j", "edited.j", "-u", "un2.j", "-o", "out2.j"], "out2.j", "un2.j", False)
            o["k"] = 2
            def asfile(ts, dflt):
                res = []
                for t in ts:
                    s = dict(map(tuple, t["h"]["vt"])).get(SRC, dflt)
                    m = with_source(t, s); m["sb"] = list(s.encode("utf-8"))
                    res.append(m)
                return res
            items.append({"id": sid + "-resolve", "files": [asfile(o1["out"], '"out.j"'), asfile(edited, '"edited.j"')],
                          "steps": [o], "rels": [], "resolve": True})
    return items, {"names": names, "texts": texts}

def clean(item):
    """What goes to TLC."""
    steps = [{x: s[x] for x in ("k", "ok", "outw", "unw", "parsed", "out", "un")} for s in item["steps"]]
    return {"id": item["id"], "files": item["files"], "steps": steps, "rels": item["rels"], "resolve": item["resolve"]}
