"""Histories of imports, rules, user edits and merges (C22)."""
import copy, datetime as DT, random, re, zoneinfo
from decimal import Decimal
from . import import_drv as I, journal as J, rules_drv as R, stmt
from .merge_drv import LINES, DESCS

FRAGILE = ["* b", "(b) c", "a  ; b", "! x", "; b", ";b", "* (x) y", "a  ;:tag:", "() x"]
UNREADABLE = ["", "*", "(b)", "!"]
BROKEN = ["a\nb", "x\n  y  GBP1.00", "a\n\nb"]
NEWACCTS = ["expenses:food", "expenses:rent", "income:salary", "assets:cash", "liabilities:card", "\u00e9quipe:caf\u00e9", "expenses:a b"]
UFLAGS = ["noted", "checked", "tax", "t1", "a-rather-long-flag-tag", "\u00e9"]
UKEYS = ["why", "cat", "project", "x.y"]
UVALS = ["gift", "value two", "42", "http://x/y:z", "\u00fcn\u00efcode"]

def day_list(r, n):
    d = DT.date(r.choice([2018, 2019, 2020, 2021]), r.randint(1, 12), r.randint(1, 28))
    if r.random() < .3: d = r.choice([DT.date(2020, 2, 27), DT.date(2019, 12, 29), DT.date(2021, 2, 26), DT.date(2020, 3, 27), DT.date(2020, 10, 23), DT.date(2019, 3, 8)])
    res = []
    for _ in range(n):
        res.append(d)
        d += DT.timedelta(days=r.choice([1, 1, 1, 1, 2, 7, 31]))
    return res

def texts(r, world):
    x = r.random()
    pool = [t for t in I.TEXTS if t]
    ts = r.sample(pool, r.choice([1, 2, 4]))
    if x < .05: world["fragile"] = True; ts.append(r.choice(FRAGILE)); ts.append(ts[-1])
    elif x < .06: world["cls"] = "empty-description: "; ts = [r.choice(UNREADABLE)]
    elif x < .07: world["cls"] = "line-break: "; ts = [r.choice(BROKEN)]
    elif x < .08: world["cls"] = "open-paren: "; ts = ["(b", "c) d"]
    return ts

def options(r, acct, fixed):
    """A namespace that may be part of a fingerprint, almost always."""
    for _ in range(50):
        o = I.ns_opts(r, acct, fixed=fixed)
        n = I.ns_of(o[0], acct)
        if re.fullmatch(r"[A-Za-z0-9_+/]+", n): return o
    return o

class World:
    """All transactions there are, by day; statement(a, b) is the statement of the days a..b (from 0)."""
    def __init__(self, r, kind, shape):
        self.r, self.kind, self.shape = r, kind, shape
        self.info = {"fragile": False, "cls": ""}
        self.days = day_list(r, len(shape))
        self.desc = r.random() < .3
        self.same = r.random() < .5
        getattr(self, "init_" + ("nw" if kind[:2] == "nw" else kind))()
    # --- Nationwide CSV
    def init_nw(self):
        r = self.r
        self.six = self.kind == "nw6"
        self.acct = r.choice(I.ACCTS)
        ts = texts(r, self.info)
        ds = [(d.year, d.month, d.day) for d, n in zip(self.days, self.shape) for _ in range(n)]
        idx = [i for i, n in enumerate(self.shape) for _ in range(n)]
        if self.desc: ds.reverse(); idx.reverse()
        while True:
            rows, _ = I.nw_rows(r, self.six, len(ds), ts, list(ds))
            if not any(x in ("\u00a30.00", "\u00a3-0.00") for w in rows for x in w[3:5]): break
        k = 2 if self.six else 1
        for w in rows:
            if self.info["cls"] and not self.six: w[1], w[2] = ts[0], ""
            elif not self.six and not w[1]: w[1] = "x"
            elif self.six and not self.info["cls"] and not w[2]: w[2] = "x"
        if self.same:
            a = stmt.gbp(r.choice([100, 1000, 123456]))
            for w in rows:
                for c in (3, 4):
                    if w[c]: w[c] = a
        self.recs = list(zip(idx, rows))
        self.opts = options(r, self.acct, r.choice(["nw", "a/b"]) if r.random() < .4 else None)
        self.legacy = r.choice(["no", "no", "yes", "any"])
    def st_nw(self, a, b):
        r = self.r
        body = [list(w) for i, w in self.recs if a <= i <= b]
        o, args, look = copy.deepcopy(self.opts)
        o["legacy"] = self.legacy == "yes" or (self.legacy == "any" and r.random() < .5)
        rows = [["Account Name:", self.acct], ["Account Balance:", stmt.gbp(r.randint(-10 ** 6, 10 ** 7))], ["Available Balance:", stmt.gbp(r.randint(0, 10 ** 7))],
                list(stmt.H6 if self.six else stmt.H5)] + body
        return {"id": "", "imp": "nw", "rows": rows, "tz": [["-"]], "opt": o}, {"args": args + (["--include-legacy-fingerprint"] if o["legacy"] else []), "look": look}, len(body)
    # --- PayPal
    def init_pp(self):
        r = self.r
        ts = texts(r, self.info)
        self.tz = r.sample(I.TZALL, r.choice([1, 2, 3]))
        self.zone = r.choice(I.ZONES)
        z = zoneinfo.ZoneInfo(self.zone)
        inst, idx, grp = [], [], []
        for i, (d, n) in enumerate(zip(self.days, self.shape)):
            us = set()
            while len(us) < n:
                u = DT.datetime(d.year, d.month, d.day, 12) + DT.timedelta(seconds=r.choice([r.randint(-26 * 3600, 26 * 3600), r.randint(-26, 26) * 3600, r.randint(0, 60)]))
                if u.replace(tzinfo=DT.timezone.utc).astimezone(z).date() == d: us.add(u)
            for u in sorted(us):
                for _ in range(r.choice([1, 1, 2, 3])): inst.append(u); idx.append(i); grp.append(u)
        if self.desc: inst.reverse(); idx.reverse(); grp.reverse()
        rows, _ = I.pp_rows(r, len(inst), self.tz, inst)
        rows = [dict(w) for w in rows]
        for w in rows:
            if Decimal(w["Amount"]) == 0: w["Amount"] = "5.00"
            if w["Name"]: w["Name"] = r.choice(ts)
        if self.same:
            a = r.choice(["10.00", "-10.00", "3"])
            for w in rows: w["Amount"] = a
        for k, w in enumerate(rows):
            first = k == 0 or grp[k - 1] != grp[k]
            if self.info["cls"]: w["Name"] = ts[0] if ts[0] else "x"
            if first and not any(v["Name"] for v, g in zip(rows, grp) if g == grp[k]): w["Name"] = r.choice(ts) or "x"
        if self.info["cls"] and not ts[0]: self.info["cls"] = ""
        self.recs = list(zip(idx, rows, grp))
        self.legacy = r.random() < .25
        self.ns = r.choice([None, "pp", "a/b"])
        self.hdr = list(stmt.HP)
        self.moves = r.random() < .4
    def st_pp(self, a, b):
        r = self.r
        sel = [x for x in self.recs if a <= x[0] <= b]
        hdr = list(self.hdr)
        if r.random() < .2: r.shuffle(hdr)
        if self.moves:      # what was pending may have been completed since
            for _, w, _ in sel:
                if w["Status"] == "Pending" and r.random() < .4: w["Status"] = "Completed"
        rows = [hdr] + [[w.get(c, "") for c in hdr] for _, w, _ in sel]
        args = ["--output-timezone", self.zone] + (["--fingerprint-namespace", self.ns] if self.ns else []) + (["--include-legacy-fingerprint"] if self.legacy else [])
        o = {"ns": "fixed", "val": self.ns or "paypal", "look": [["", ""]], "legacy": self.legacy, "zone": self.zone}
        return {"id": "", "imp": "pp", "rows": rows, "tz": [["abbreviation", "utc_offset"]] + [list(t) for t in self.tz], "opt": o}, {"args": args, "look": None}, len({g for _, _, g in sel})
    # --- Nationwide PDF
    def init_pdf(self):
        r = self.r
        self.acct = ["%02d-%02d-%02d" % tuple(r.randint(0, 99) for _ in range(3)), "%08d" % r.randint(0, 99999999)]
        same, out0 = I.pdf_amount(r)[0], r.random() < .5
        pool = [w for w in I.PWORDS if w not in ("Effective", "=1")]
        self.recs = []
        descs = [r.sample(pool, r.choice([1, 2, 3])) for _ in range(2)]
        for i, n in enumerate(self.shape):
            for _ in range(n):
                s = same if self.same else I.pdf_amount(r)[0]
                out = out0 if self.same and r.random() < .8 else r.random() < .6
                more = []
                while r.random() < .25:
                    more.append("Effective Date " + stmt.nw_date(2020, r.randint(1, 12), r.randint(1, 28)) if r.random() < .4 else " ".join(r.sample(pool, 2)))
                self.recs.append((i, {"det": " ".join(r.choice(descs)), "pay": s if out else "", "rec": "" if out else s, "bal": I.pdf_amount(r)[0] if r.random() < .4 else "", "more": more}))
        self.opts = options(r, " ".join(self.acct), r.choice(["nw", "a/b"]) if r.random() < .7 else None)
    def st_pdf(self, a, b):
        r = self.r
        sel = [x for x in self.recs if a <= x[0] <= b]
        lines, year, day = [], None, None
        for k, (i, w) in enumerate(sel):
            new = k == 0 or r.random() < (.12 if sel[k - 1][0] == i else .25)
            if new: day = None
            d = self.days[i]
            if new or d.year != year:
                lines.append({"new": new, "gap": False, "l": {"dw": ["%d" % d.year], "det": r.choice(["", "Balance brought forward"]), "pay": "", "rec": "", "bal": ""}})
                year = d.year
            dw = ["%02d" % d.day, stmt.MON[d.month - 1]] if day != i or r.random() < .1 else []
            day = i
            lines.append({"new": False, "gap": False, "l": {"dw": dw, "det": w["det"], "pay": w["pay"], "rec": w["rec"], "bal": w["bal"]}})
            for m in w["more"]: lines.append({"new": False, "gap": False, "l": {"dw": [], "det": m, "pay": "", "rec": "", "bal": ""}})
        p = I.lay_pdf(lines, r, "", self.acct)
        o, args, look = copy.deepcopy(self.opts)
        return {"id": "", "imp": "pdf", "rows": p.records(), "tz": [["-"]], "opt": o}, {"args": args, "look": look, "raw": {}, "tools": "", "staged": True}, len(sel)
    def statement(self, a, b):
        return getattr(self, "st_" + ("nw" if self.kind[:2] == "nw" else self.kind))(a, b)
    def size(self, a, b):
        return {"nw": lambda: len([1 for i, *_ in self.recs if a <= i <= b]), "pp": lambda: len({x[2] for x in self.recs if a <= x[0] <= b}),
                "pdf": lambda: len([1 for i, *_ in self.recs if a <= i <= b])}["nw" if self.kind[:2] == "nw" else self.kind]()

# ---------- rules ----------
def rule_table(r, rule=None):
    """A table that leaves fingerprints alone."""
    def pred():
        return r.choice([{"op": "true"}, {"op": "hasflag", "k": "import-peer"}, {"op": "hasflag", "k": "import-self"}, {"op": "hasflag", "k": "unknown-account"},
                         {"op": "account", "m": {"op": "contains", "s": r.choice(["unknown", "expenses", "income", "food"])}},
                         {"op": "desc", "m": {"op": "contains", "s": r.choice(["e", "a", "T", "@", "Tesco"])}},
                         {"op": "not", "q": {"op": "hasflag", "k": "import-peer"}}, {"op": "hasvalue", "k": "trn_type"}])
    known = {"op": "remflag", "k": "unknown-account"}
    def act():
        return r.choice([lambda: {"op": "all", "acts": [{"op": "setaccount", "v": r.choice(NEWACCTS)}, dict(known)]}, lambda: {"op": "setaccount", "v": r.choice(NEWACCTS)}, lambda: dict(known),
                         lambda: {"op": "addflag", "k": r.choice(UFLAGS)}, lambda: {"op": "addvalue", "k": r.choice(UKEYS), "v": r.choice(UVALS)}, lambda: {"op": "taddflag", "k": r.choice(UFLAGS)},
                         lambda: {"op": "taddvalue", "k": r.choice(UKEYS), "v": r.choice(UVALS)}, lambda: {"op": "remflag", "k": r.choice(["import-self", "import-peer"])}, lambda: {"op": "noop"},
                         lambda: {"op": "replace", "txt": "[aeiou]", "rtxt": r.choice(["_", "x$0"])}, lambda: {"op": "replace", "txt": "^.*$", "rtxt": "Shop $0"}])()
    if rule is None:
        rules = [{"pred": pred(), "act": act(), "ret": r.random() < .2} for _ in range(r.choice([1, 2, 3]))]
    else:
        a = {"set": {"op": "all", "acts": [{"op": "setaccount", "v": "expenses:food"}, known]}, "guess": {"op": "setaccount", "v": "expenses:maybe"},
             "tag": {"op": "all", "acts": [{"op": "addflag", "k": "ruled"}, {"op": "addvalue", "k": "rule", "v": "1"}]}}[rule]
        rules = [{"pred": {"op": "hasflag", "k": "import-peer"}, "act": a, "ret": False}]
    return '[Chain("start", [%s])]\n' % ", ".join(R.rrule(x, r) for x in rules)

# ---------- edits by the user ----------
FP = lambda t: t.startswith("fp-")
def add(seq, x):
    if x not in seq: seq.append(x); seq.sort()
def setvt(c, k, v):
    c["vt"] = sorted([p for p in c["vt"] if p[0] != k] + [[k, v]])
def other_amount(r):
    return J.amount(r.choice(["GBP", "GBP", "USD"]), "%d.%02d" % (r.choice([-90, -7, 0, 3, 4000]), r.randint(0, 99)))
def split(r, t, p):
    """Part of the posting goes to another account."""
    if not p["amt"]["k"] or p["amt"]["t"].startswith("XTS"): return
    p["amt"] = other_amount(r)
    q = copy.deepcopy(p)
    q.update(acct=r.choice(NEWACCTS), amt=other_amount(r), bal=dict(J.NOAMT), tags=["fp-uuidb64-m%d" % r.randrange(10 ** 9)])
    t["ps"].insert(r.randint(0, len(t["ps"])), q)
def edit_posting(r, p, e):
    if e == "acct":
        p["acct"] = r.choice(NEWACCTS)
        if "unknown-account" in p["tags"]: p["tags"].remove("unknown-account")
    elif e == "guess": p["acct"] = r.choice(NEWACCTS)
    elif e == "known":
        if "unknown-account" in p["tags"]: p["tags"].remove("unknown-account")
    elif e == "flag": add(p["tags"], r.choice(UFLAGS))
    elif e == "value": setvt(p, r.choice(UKEYS), r.choice(UVALS))
    elif e == "line": p["lines"].append(r.choice(LINES))
    elif e == "st": p["st"] = r.choice(["*", "!"])
    elif e == "amt":
        if p["amt"]["k"] and not p["amt"]["t"].startswith("XTS"): p["amt"] = other_amount(r)
    elif e == "bal": p["bal"] = other_amount(r) if r.random() < .7 else dict(J.NOAMT)
    elif e == "unflag":
        t = [x for x in p["tags"] if not FP(x) and x != "unknown-account"]
        if t: p["tags"].remove(r.choice(t))
def edit_header(r, h, e):
    if e == "desc": h["desc"] = r.choice([d for d in DESCS if d[:1] not in "(*!;"])
    elif e == "hflag": add(h["tags"], r.choice(UFLAGS))
    elif e == "hvalue": setvt(h, r.choice(UKEYS), r.choice(UVALS))
    elif e == "code": h["code"] = r.choice(["12", "x y", "R-1"])
    elif e == "hst": h["st"] = r.choice(["*", "!"])
    elif e == "edate": h["edate"] = h["date"] // 100 * 100 + r.randint(1, 28)
    elif e == "hdate": h["date"] = 20010100 + r.randint(1, 28)      # no statement has that day
    elif e == "hline": h["lines"].append(r.choice(LINES))
PE = ["acct", "acct", "acct", "guess", "known", "flag", "value", "line", "st", "unflag", "amt", "amt", "bal"]
HE = ["desc", "desc", "hflag", "hvalue", "code", "hst", "edate", "hline", "hdate"]
def manual_posting(r, n, fp):
    return {"acct": r.choice(NEWACCTS), "kind": r.choice(["", "", "(", "["]), "amt": J.amount("XTS", "%d.%02d" % (n, r.randint(0, 99))), "bal": dict(J.NOAMT), "st": "",
            "lines": [], "tags": [fp] if fp else [], "vt": []}

def random_plan(r, kind):
    """A history as in PipelineMC, and more."""
    nd = r.choice([1, 2, 3, 3, 5])
    shape = [r.choice([0, 1, 1, 2, 3]) for _ in range(nd)]
    if not any(shape): shape[0] = 2
    plan = []
    for i in range(r.choice([2, 3, 3, 4, 5])):
        a = r.randrange(nd); b = r.randrange(a, nd)
        x = r.random()
        if i == 0 or x < .6: plan.append({"op": "import", "a": a, "b": b, "rule": r.choice(["none", "none", "any", "any", "keep"])})
        elif x < .7: plan.append({"op": "several", "abs": [(lambda a: [a, r.randrange(a, nd)])(r.randrange(nd)) for _ in range(r.choice([2, 3]))], "rule": r.choice(["none", "any"])})
        if r.random() < .6: plan.append({"op": "edits", "n": r.choice([1, 2, 4])})
        if r.random() < .1: plan.append({"op": "ledger-rules"})
        if r.random() < .1: plan.append({"op": "fmt"})
        if r.random() < .12: plan.append({"op": "manual"})
    if r.random() < .4: plan.append({"op": "import", "a": 0, "b": nd - 1, "rule": "none"})
    return shape, plan

def execute(box, job):
    kind, sid, seed, scn = job
    r = random.Random(seed)
    box.fresh()
    if scn is None: shape, plan = random_plan(r, kind)
    else:
        shape = list(scn["shape"])
        plan = [dict(h, op="import", a=h["a"] - 1, b=h["b"] - 1) if h["op"] == "import" else dict(h, op="edit1") for h in scn["hist"]]
    w = World(r, kind, shape)
    rep = {"kind": kind, "shape": shape, "steps": []}
    it = {"id": sid, "fragile": w.info["fragile"], "steps": []}
    meta = {"cls": w.info["cls"], "dropped": "", "merges": 0, "imports": 0, "rules": 0}
    ledger, covered, manual, names = None, set(), 0, 0
    keep = rule_table(r)
    def stop(why):
        meta["dropped"] = why
        return it, rep, meta
    def do_import(a, b, rule):
        nonlocal names
        if kind == "pdf" and not w.size(a, b): return None
        si, aux, n = w.statement(a, b)
        o, rp = I.run_item(box, si, aux, r)
        meta["imports"] += 1
        names += 1
        if not o["obs"]["ok"]: return "import refused: " + rp["stderr"]
        name = "imp%d.j" % names
        text = rp["out"]
        box.write(name, text)
        trns, legible = None, True
        try: trns = J.parse(text)
        except J.ParseError: legible = False
        rules = ""
        if rule != "none" and legible:
            rules = keep if rule == "keep" else rule_table(r, None if rule == "any" else rule)
            box.write("rules.ron", rules)
            meta["rules"] += 1
            rc, so, se = box.run("apply-rules", name, "-o", "ruled.j", "table", "rules.ron")
            if rc == 0:
                out = (box.read("ruled.j") or b"").decode("utf-8", "replace")
                try: t2 = J.parse(out)
                except J.ParseError: return "rules: unreadable"
                f = lambda ts: [[sorted(x for x in p["tags"] if FP(x)) for p in t["ps"]] for t in ts]
                if f(t2) != f(trns): return "rules changed fingerprints"
                box.write(name, out); trns = t2; text = out
            elif not w.info["cls"]: return "rules refused: " + se.decode("utf-8", "replace")[:200]
        if legible and len(trns) != n and not w.info["cls"]: return "import: %d transactions for %d" % (len(trns), n)
        rep["steps"].append({"import": [a, b], "statement": {k: v for k, v in rp["files"].items() if not k.startswith("page") and k not in ("gm", "tess")}, "args": rp["args"], "rules": rules, "out": text})
        for i in range(a, b + 1): covered.add(i)
        return name, trns if trns is not None else []
    def do_merge(imps):
        nonlocal ledger
        ins = [n for n, _ in imps]
        if ledger is not None: box.write("ledger.j", J.render(ledger, r if r.random() < .5 else None)); ins.insert(0, "ledger.j")
        box.unlink("out.j", "un.j")
        rc, so, se = box.run("merge", *ins, "-u", "un.j", "-o", "out.j")
        meta["merges"] += 1
        o, u = box.read("out.j"), box.read("un.j")
        m = {"op": "merge", "imps": [t for _, t in imps], "n": sum(w.size(i, i) for i in covered) + manual, "ok": rc == 0, "parsed": True, "un": [], "out": []}
        if rc == 0:
            try:
                m["out"] = J.parse((o or b"").decode("utf-8"))
                m["un"] = J.parse((u or b"").decode("utf-8"))
            except (J.ParseError, UnicodeDecodeError): m["parsed"] = False
        it["steps"].append(m)
        rep["steps"].append({"merge": ins, "rc": rc, "stderr": se.decode("utf-8", "replace")[-300:], "out": (o or b"").decode("utf-8", "replace"), "un": (u or b"").decode("utf-8", "replace")})
        ledger = m["out"]
        return m["ok"] and m["parsed"]
    def edited():
        it["steps"].append({"op": "edit", "out": copy.deepcopy(ledger)})
        rep["steps"].append({"edit": J.render(ledger)})
    for st in plan:
        op = st["op"]
        if op == "import" or op == "several":
            imps = []
            for a, b in ([[st["a"], st["b"]]] if op == "import" else st["abs"]):
                x = do_import(a, b, st["rule"])
                if x is None: continue
                if isinstance(x, str): return stop(x)
                imps.append(x)
            if imps and not do_merge(imps): break
        elif ledger:
            ledger = copy.deepcopy(ledger)
            if op == "edit1":
                dates = sorted({t["h"]["date"] for t in ledger})
                d = w.days[st["day"] - 1]
                ts = [t for t in ledger if t["h"]["date"] == d.year * 10000 + d.month * 100 + d.day]
                if not ts: continue
                t = ts[min(st["pos"], len(ts)) - 1]
                if st["kind"] == "desc": edit_header(r, t["h"], "desc")
                else: edit_posting(r, t["ps"][0 if st["half"] == "self" else -1], st["kind"])
            elif op == "edits":
                for _ in range(st["n"]):
                    t = r.choice(ledger)
                    if r.random() < .05: split(r, t, r.choice(t["ps"]))
                    elif r.random() < .6: edit_posting(r, r.choice(t["ps"]), r.choice(PE))
                    else: edit_header(r, t["h"], r.choice(HE))
                if r.random() < .1: r.shuffle(ledger)
            elif op == "manual":
                fps = r.random() < .5
                d = r.choice(w.days)
                nf = lambda: "fp-uuidb64-m%d" % r.randrange(10 ** 9) if fps else ""
                if r.random() < .6:
                    c = {"lines": [], "tags": [], "vt": []}
                    ledger.append({"h": dict(c, date=d.year * 10000 + d.month * 100 + d.day, edate=0, st="", code="", desc="manual"), "ps": [manual_posting(r, manual * 10 + k + 1, nf()) for k in range(2)]})
                    manual += 1
                else: r.choice(ledger)["ps"].append(manual_posting(r, r.randint(1000, 9999), nf()))
                if not fps:
                    box.write("g.j", J.render(ledger))
                    rc, so, se = box.run("generate-fingerprints", "g.j")
                    if rc: return stop("generate-fingerprints: " + se.decode("utf-8", "replace")[:200])
                    try: ledger = J.parse(box.read("g.j").decode("utf-8"))
                    except (J.ParseError, UnicodeDecodeError): return stop("generate-fingerprints: unreadable")
            elif op in ("ledger-rules", "fmt"):
                box.write("l.j", J.render(ledger))
                if op == "fmt": args = ["fmt", "l.j"]
                else:
                    box.write("rules.ron", rule_table(r)); args = ["apply-rules", "l.j", "-o", "l.j", "table", "rules.ron"]
                rc, so, se = box.run(*args)
                if rc: return stop(op + ": " + se.decode("utf-8", "replace")[:200])
                try: l2 = J.parse((box.read("l.j") or b"").decode("utf-8"))
                except (J.ParseError, UnicodeDecodeError): return stop(op + ": unreadable")
                f = lambda ts: sorted([sorted(x for x in p["tags"] if FP(x)) for t in ts for p in t["ps"]])
                if f(l2) != f(ledger): return stop(op + ": fingerprints changed")
                ledger = l2
            edited()
    return it, rep, meta
