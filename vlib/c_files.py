"""Checks C16, C23 and C24: the commands on a file system."""
import base64, hashlib, json, os, random, re, shutil, struct
from . import pool, stmt, journal as J, merge_drv as MD, rules_drv as RD

def h(b): return hashlib.sha1(b).hexdigest()[:16]

# ---------- sources ----------
class Sources:
    """Concrete content for the symbolic sources of one scenario, each on its own dates."""
    def __init__(self, r):
        self.r, self.year, self.n = r, 1990 + r.randrange(20), 0
        self.fp = 0
        self.amt = 1000
        self.legacy = False
    def dates(self):
        self.year += 1
        return [self.year * 10000 + 101, self.year * 10000 + 315, self.year * 10000 + 1231]
    def posting(self, fp=True, amt=None):
        r = self.r
        self.fp += 1; self.amt += 7
        tags = ["fp-%s%d" % (r.choice(["", "a.1.x-", "z"]), self.fp)] if fp else []
        if r.random() < .3: tags.append(r.choice(["t1", "import-self", "unknown-account", "thirteen_long"]))
        return {"acct": r.choice(["assets:bank", "expenses:foo bar", "income:é"]), "kind": r.choice(["", "", "", "["]),
                "amt": amt or J.amount(r.choice(["GBP", "USD", "£"]), "%d.%02d" % (self.amt // 100, self.amt % 100), r.random() < .8),
                "bal": dict(J.NOAMT), "st": r.choice(["", "", "*", "!"]), "lines": r.choice([[], [], ["note one"], ["x", "see é"]]),
                "tags": sorted(tags), "vt": r.choice([[], [], [["k1", "v 1"]]])}
    def trn(self, date, ps):
        r = self.r
        return {"h": {"date": date, "edate": 0, "st": r.choice(["", "", "!"]), "code": r.choice(["", "", "c1"]), "desc": r.choice(["foo", "Bar & Co", "ünï"]),
                      "lines": r.choice([[], ["t"]]), "tags": [], "vt": []}, "ps": ps}
    def journal(self, fp=True):
        r = self.r
        ds = self.dates()
        return [self.trn(r.choice(ds), [self.posting(fp) for _ in range(r.choice([1, 2, 2, 3]))]) for _ in range(r.choice([1, 2, 3]))]
    def make(self, c):
        """bytes (or "DIR") for class c."""
        r = self.r
        ren = lambda f: J.render(f, r)
        if c == "good": return ren(self.journal()).encode()
        if c == "nofp":
            f = self.journal()
            ps = [p for t in f for p in t["ps"]]
            for p in r.sample(ps, r.randint(1, len(ps))): p["tags"] = [t for t in p["tags"] if not t.startswith("fp-")]
            return ren(f).encode()
        if c == "items":
            f = ren(self.journal())
            x = r.choice(["; a comment line\n", "P 2020-01-01 00:00:00 GBP USD1.5\n", "include other.j\n"])
            return (f + "\n" + x if r.random() < .5 else x + "\n" + f).encode()
        if c == "cand":
            f = self.journal()
            p = r.choice(r.choice(f)["ps"]); p["tags"] = sorted(p["tags"] + [r.choice(["candidate-fp-q", "candidate-fp-q", "candidate-q"])])
            return ren(f).encode()
        if c == "dup":
            f = self.journal()
            d = json.loads(json.dumps(f[0])); d["ps"][0]["tags"] = list(f[0]["ps"][0]["tags"])
            return ren([f[0]] + [d] + f[1:]).encode()
        if c == "amb":
            d = self.dates()[0]
            n = r.choice([2, 2, 3])
            a = J.amount("GBP", "5.00")
            f = []
            def like(src):
                p = self.posting(amt=dict(a)); p["acct"] = "assets:bank"; p["kind"] = ""
                p["tags"] = [t for t in p["tags"] if t.startswith("fp-")]
                t = self.trn(d, [p]); t["h"]["vt"] = [["source-file", src]]
                return t
            f = [like("s1") for _ in range(n)] + [like("s2")]
            if r.random() < .5: r.shuffle(f)
            return ren(f).encode()
        if c == "bad":
            x = r.randrange(6)
            g = ren(self.journal())
            if x == 0: return g.encode() + b"\xff\xfe\n"
            if x == 1: return "DIR"
            if x == 2: return (g + "\n2020-13-45 foo\n  a  GBP1\n").encode()
            if x == 3: return ("2020-01-01 foo\n  a  GBP1 GBP2 = = 3\n\n" + g).encode()
            if x == 4: return b"not a journal at all\n"
            return (g + "\n  orphan  GBP1\n").encode()
        if c in ("stmt", "sbad"): return self.statement(c == "sbad")
        if c == "rules":
            k = r.randrange(4)
            return ['[Chain("start", [Rule(predicate: True, action: AddPostingFlagTag("r%d"), result: Continue)])]' % r.randrange(9),
                    '[Chain("start", [Rule(predicate: Account(Contains("a")), action: AddPostingValueTag("rk", "v"), result: Continue), Rule(predicate: True, action: JumpChain("b"), result: Return)]), Chain("b", [Rule(predicate: True, action: AddPostingFlagTag("rb"), result: Return)])]',
                    '[Chain("start", [])]',
                    '[Chain("start", [Rule(predicate: Not(PostingHasFlagTag("rz")), action: All([AddPostingFlagTag("rz"), AddTransactionValueTag("tv", "w")]), result: Continue)])]'][k].encode()
        if c == "rerr":
            return ['[Chain("start", [Rule(predicate: True, action: Error("oops"), result: Continue)])]',
                    '[Chain("start", [Rule(predicate: True, action: AddPostingFlagTag("rr"), result: Continue), Rule(predicate: PostingHasFlagTag("rr"), action: Error("oops"), result: Continue)])]'][r.randrange(2)].encode()
        if c == "rbad":
            return [b'[Chain("begin", [])]', b'[Chain("start", [Rule(predicate: True, action: JumpChain("gone"), result: Continue)])]', b'[Chain("start", [',
                    b'[Chain("start", []), Include("missing.ron")]', b'[Chain("start", []), Chain("start", [])]',
                    b'[Chain("start", [Rule(predicate: Account(Matches("(")), action: Noop, result: Continue)])]', b'\xff', b""][r.randrange(8)]
        raise ValueError(c)
    def statement(self, bad):
        r = self.r
        k = self.kind
        y = self.dates()[0] // 10000
        n = r.choice([1, 2, 3, 5]) if k == "pp" or r.random() < .99 else r.choice([400, 1500])
        days = sorted(r.randint(1, 28) for _ in range(n))
        m = r.randint(1, 12)
        if k == "pp":
            rows = []
            for i, d in enumerate(days):
                self.amt += 13
                rows.append(["%02d/%02d/%04d" % (d, m, y), "%02d:%02d:%02d" % (i + 1, r.randint(0, 59), r.randint(0, 59)), r.choice(["GMT", "BST"]), "Name %d" % i,
                             "Payment", r.choice(["Completed", "Pending"]), r.choice(["GBP", "USD"]), "%s%d.%02d" % (r.choice(["", "-"]), self.amt // 100, self.amt % 100),
                             r.choice(["", "R1"]), "%d.50" % i])
            if bad:
                x = r.randrange(5)
                row = rows[-1] if r.random() < .7 else rows[0]
                if x == 0: row[0] = "32/01/2020"
                elif x == 1: row[2] = "XYZ"
                elif x == 2: row[7] = "1,00"
                elif x == 3: row[5] = "Denied"
                else: row.pop()
            return stmt.pp_csv(rows, r)
        rows = []
        bal = 100000
        for i, d in enumerate(days):
            self.amt += 13
            out = r.random() < .5
            bal += -self.amt if out else self.amt
            po, pi = (stmt.gbp(self.amt), "") if out else ("", stmt.gbp(self.amt))
            dt = stmt.nw_date(y, m, d)
            rows.append([dt, r.choice(["Visa", "ATM"]), "Desc %d" % i, po, pi, stmt.gbp(bal)] if k == "c6" else [dt, "TRN %d" % i, r.choice(["", "LOC"]), po, pi])
        hd, lab = (stmt.H6 if k == "c6" else stmt.H5), None
        if bad:
            x = r.randrange(6)
            row = rows[-1] if r.random() < .7 else rows[0]
            if x == 0: row[0] = "31 Feb 2020"
            elif x == 1: row[3] = row[4] = "\u00a31.00"
            elif x == 2: row.append("x")
            elif x == 3: hd = hd[:-1] + ["Blance"]
            elif x == 4: lab = ["Account Name:", "Account Balance", "Available Balance:"]
            else: row[3 if row[3] else 4] = "1.00"
        return stmt.nw_csv(self.acct, stmt.gbp(bal), stmt.gbp(bal), hd, rows, r, lab)

def fps(s):
    b = s.encode()
    return struct.pack(">Q", len(b)) + b
def generated_ns(acct):
    return base64.b64encode(hashlib.sha1(fps("Nationwide") + fps(acct)).digest()).decode().rstrip("=")[:8]

def ns_option(r, kind, acct):
    """-> (args, user namespace, ok, aux class or "", aux bytes)"""
    if kind == "pp":
        x = r.random()
        if x < .3: return [], "paypal", True
        ns = r.choice(["pp", "a/b", "x_1+", "nFP"]) if x < .9 else r.choice(["a b", "a-b", "é", "a:b"])
        return ["--fingerprint-namespace", ns], ns, re.fullmatch(r"[a-zA-Z0-9_+/]*", ns) is not None
    x = r.random()
    if x < .2: return [], generated_ns(acct), True
    if x < .3: return ["--fp-namespace", "generated"], generated_ns(acct), True
    if x < .65:
        ns = r.choice(["nw", "a/b", "Acc_1", "x+y", "deep/er/ns", "A"])
        return ["--fp-namespace", "fixed:" + ns], ns, True
    if x < .8: return ["--fp-namespace", "account-name"], acct, re.fullmatch(r"[a-zA-Z0-9_+/]*", acct) is not None
    if x < .9: return "lookup", None, True
    return (["--fp-namespace", r.choice(["fixed:a b", "fixed:a-b", "bogus", "lookup:", "fixed", "", "xfixed:a", " fixed:a", "Fixed:a", "xfixed:a", "a-fixed:b", "generatedx", "Generated", "account-names", "account_name", "xlookup:lk"])], "x", False)

# ---------- scenarios ----------
SRCS = {"j1": "good", "j2": "good", "n": "nofp", "i": "items", "x": "bad", "a": "amb", "d": "dup", "e": "cand", "s": "stmt", "t": "sbad",
        "r": "rules", "rb": "rbad", "re": "rerr"}
JP = ["j1", "j1", "j2", "n", "n", "i", "x", "a", "d", "e", "o", "o", "u", "p", "dir/o", "dir/q", "missing", "dir", "-", "-", "s"]
OP = ["o", "o", "o", "p", "dir/o", "j1", "-", "new/o", "dir", "u"]

def rand_cmd(r, cls):
    op = r.choice(["fmt", "gen", "merge", "merge", "merge", "rules", "rules", "import", "import", "import"])
    def paths(n, dash=True):
        ps = []
        while len(ps) < n:
            p = r.choice(JP)
            if r.random() < .5 and p not in ("-",) and cls.get(p) in (None, "bad", "dup", "cand", "items", "stmt"): continue
            if p == "-" and (not dash or "-" in ps): continue
            ps.append(p)
        return ps
    if op in ("fmt", "gen"): return {"op": op, "files": paths(r.choice([1, 1, 2, 3, 4]))}
    if op == "merge":
        o, u = r.choice(OP), r.choice(["", "u", "u", "u", "u2", "dir/u"])
        if u: o = r.choice([x for x in ["o", "p", "dir/o", "j1", "-"] if x != u])
        return {"op": op, "inputs": paths(r.choice([1, 2, 2, 3])), "u": u, "o": o}
    if op == "rules": return {"op": op, "input": paths(1)[0], "rules": r.choice(["r", "r", "r", "rb", "re", "missing"]), "o": r.choice(OP)}
    o = r.choice(OP + ["%FP_NS%", "%FP_NS%.j", "dir/x-%FP_NS%.j", "%FP_NS%/o", "q/r/%FP_NS%-%FP_NS%", "j1/o", "dir/%FP_NS%/%FP_NS%.j", "%FP_%FP_NS%NS%", "fp_ns", "%fp_ns%", "deep/er/path/o"])
    return {"op": op, "input": r.choice(["s", "s", "s", "s", "t", "missing", "-", "x"]), "sub": r.random() < .5, "mk": r.random() < .5, "o": o}

def execute(box, job):
    if job[0] == "rerun": return rerun(box, job)
    _, sid, seed, cmds = job
    r = random.Random(seed)
    box.fresh()
    S = Sources(r)
    S.kind = r.choice(["c5", "c6", "pp"])
    S.acct = r.choice(["Current", "My Account ****4321", "Acc_1", "Joint/2", "Savings"])
    src, cls, data = {}, dict(SRCS), {}
    content = {}
    def put(p, b, n, c):
        content[p] = b
        src[p] = {"n": n, "c": c, "h": h(b)}
        box.write(p, b)
    dirs = ["", "dir"]
    os.mkdir(os.path.join(box.dir, "dir"))
    for p, c in SRCS.items():
        b = S.make(c)
        data[c if c not in ("good",) else p] = b
        if b == "DIR":
            os.mkdir(os.path.join(box.dir, p)); dirs.append(p)
            data["bad"] = b"\xff"
        else: put(p, b, p, c)
    auxb = S.r.random() < .12
    if S.kind == "pp":
        tz = "abbreviation,utc_offset\nBST,UTC+01\nGMT,UTC+00\n" if not auxb else r.choice(
            ["abbreviation,utc_offset\nBST,UTC+01\nGMT,UTC+00\nBST,UTC+01\n", "abbreviation,utc_offset\nBST,UTC+01\nGMT,UTC+24\n", "abbreviation,offset\nBST,UTC+01\n",
             "abbreviation,utc_offset\nGMT,0\nBST,UTC+01\n"])
        put("tz", tz.encode(), "tz", "auxbad" if auxb else "aux")
    else:
        look_ns = r.choice(["look", "l/k", "L_1"])
        m = {"other": "o", S.acct: look_ns}
        if auxb and r.random() < .5: m.pop(S.acct)
        txt = "{" + ", ".join('"%s": "%s"' % kv for kv in m.items()) + "}"
        if auxb and S.acct in m: txt = r.choice(["[", '{"a": 1}', "", '("a", "b")'])
        put("lk", txt.encode(), "lk", "auxbad" if auxb else "aux")
    if cmds is None:
        cmds = []
        cmds_n = r.choice([3, 5, 8, 12])
    else: cmds_n = len(cmds)
    steps = []
    log = []
    nsopts = [ns_option(r, S.kind, S.acct) for _ in range(2)]
    def path(p):
        """Another way to write the path of a file whose name does not show in any output."""
        if p == "-" or r.random() < .7: return p
        return r.choice([os.path.join(box.dir, p), os.path.join(box.dir, p), "./" + p, "dir/../" + p])
    again = None
    for i in range(cmds_n):
        c = dict(cmds[i]) if i < len(cmds) else rand_cmd(r, cls)
        # The same import once more to standard output: it writes what the file got.
        redo = again if i >= len(cmds) and again and r.random() < .4 else None
        if redo: c = dict(redo[0], o="-", sub=False, mk=False)
        again = None
        inp = {"n": "stdin-none", "c": "bad"}
        stdin = b""
        used = (c.get("files") or []) + (c.get("inputs") or []) + [c.get("input", "")]
        if "-" in used:
            if c["op"] == "import": n, k = r.choice([("s", "stmt"), ("s", "stmt"), ("t", "sbad")])
            else:
                n = r.choice(["j1", "j1", "j2", "n", "a", "i", "x", "d"])
                k = SRCS[n]
            inp = {"n": n, "c": k}
            stdin = data[n] if n in data else data[k]
        args = None
        if c["op"] == "fmt": args = ["fmt"] + [path(p) for p in c["files"]]
        elif c["op"] == "gen":
            c["nonce"] = "%d:" % i
            args = ["generate-fingerprints"] + [path(p) for p in c["files"]]
        elif c["op"] == "merge":
            args = ["merge"] + c["inputs"] + (["-u", path(c["u"])] if c["u"] else []) + (["-o", path(c["o"])] if c["o"] != "-" or r.random() < .5 else [])
        elif c["op"] == "rules":
            args = ["apply-rules", path(c["input"])] + (["-o", path(c["o"])] if c["o"] != "-" or r.random() < .5 else []) + ["table", c["rules"]]
        else:
            optok = c.pop("optok", None) if not redo else None
            for _ in range(50):
                o, ns, ok = r.choice(nsopts) if r.random() < .7 else ns_option(r, S.kind, S.acct)
                if optok is None or ok == optok or S.kind == "pp" and optok is False: break
            aux, opts = "", ""
            leg = ["--include-legacy-fingerprint"] if r.random() < .3 else []
            if S.kind == "pp":
                tzn = r.choice(["UTC", "Europe/London", "Europe/London", "America/New_York"])
                aux = r.choice(["tz"] * 9 + ["missing"])
                if optok is False or (optok is None and r.random() < .04): tzn, ok = r.choice(["Nowhere", "", "europe/london"]), False
                imp = ["paypal-csv", c["input"], "--output-timezone", tzn] + o + leg + [aux]
                opts = "|".join([tzn, ns] + leg)
            else:
                if o == "lookup": o, ns, aux = ["--fp-namespace", "lookup:lk"], look_ns, "lk"
                imp = ["nationwide-csv", c["input"]] + o + leg
                opts = "|".join([ns] + leg)
            if redo: imp = redo[1]
            else: c.update({"aux": aux, "opts": opts, "ns": ns, "optok": ok})
            if not redo and c["input"] != "-" and c["input"] != c["o"]: again = (dict(c), imp)
            if c["sub"] and r.random() < .8: outp = c["o"]
            else: outp = path(c["o"])
            args = ["import"] + (["-o", outp] if c["o"] != "-" or r.random() < .5 else []) + (["--sub-output-path"] if c["sub"] else []) \
                + (["--make-parent-dirs"] if c["mk"] else []) + imp
        rc, so, se = box.run(*args, stdin=stdin)
        fs, ds = snapshot(box.dir)
        steps.append({"c": c, "in": inp, "ok": rc == 0, "fs": fs, "dirs": ds, "out": h(so) if so or rc == 0 and any(x == "-" for x in (c.get("files") or []) + [c.get("o", "")]) else ""})
        log.append({"args": args, "rc": rc, "stderr": se.decode("utf-8", "replace")[:200], "stdin": inp["n"] if "-" in used else None})
    # What the trace checker sees of input files that a command has no business with is still there: every file is in fs.
    item = {"id": sid, "kind": "files", "src": src, "dirs": dirs, "steps": steps, "obs": []}
    srcs = {p: content[p].decode("latin-1") for p in src}
    return item, {"sources": srcs, "commands": log, "final": sorted(fs)}

def snapshot(d):
    fs, ds = {}, [""]
    for root, dn, fn in os.walk(d):
        rel = os.path.relpath(root, d)
        if rel != ".": ds.append(rel)
        for f in fn:
            p = os.path.join(root, f)
            with open(p, "rb") as fh: b = fh.read()
            fs[f if rel == "." else os.path.join(rel, f)] = h(b)
    return fs, sorted(ds)

# ---------- repeated runs ----------
FAMILIES = [["foo", "Foo", "FOO", "fOo", "foO"], ["a1", "b1", "c1", "d1", "e1", "f1", "g1"], ["é", "É", "e", "E", "ê"], ["t-1", "t_1", "t.1", "t1", "t+1"],
            ["ß", "ss", "SS", "ẞ"], ["x01", "x1", "x001", "x10", "x2"], ["a", "ab", "abc", "b", "abcd"], ["é", "e\u0301", "è", "e\u0300"],
            ["Some-Long-Flag-Tag", "some-long-flag-tag", "SOME-LONG-FLAG-TAG", "some-long-flag-taG"], ["longer-flag-tag-%d" % i for i in range(6)], ["aé", "Aé", "aÉ", "AÉ"]]

def ties(trns, r):
    """Comments with many tags that some orders do not tell apart."""
    for t in trns:
        for x in [t["h"]] + t["ps"]:
            if r.random() < .5:
                fam = r.choice(FAMILIES)
                x["tags"] = sorted(set(x["tags"]) | set(r.sample(fam, r.randint(2, len(fam)))))
            if r.random() < .25:
                fam = r.choice(FAMILIES)
                have = {k for k, _ in x["vt"]}
                x["vt"] = sorted(x["vt"] + [[k, r.choice(["1", "2", "v"])] for k in r.sample(fam, r.randint(2, len(fam))) if k not in have])

def LONG(r):
    """More text than a pipe holds, or than fits into any usual buffer."""
    return b"word " * (r.choice([66000, 140000, 140000, 1100000, 2200000]) // 5) + b"end"

def pad(trns, r):
    ps = [p for t in trns for p in t["ps"]]
    if ps: p = r.choice(ps); p["lines"] = p["lines"] + [LONG(r).decode()]

def rerun(box, job):
    _, sid, seed, what = job
    r = random.Random(seed)
    box.fresh()
    obs, log = [], {}
    n = 4
    if what == "merge":
        g = MD.Gen(r, r.choice(["C01", "C04", "C08", "C07"]))
        files = MD.ambiguous(r) if r.random() < .4 else g.scenario()
        names, texts = [], []
        big = r.randrange(len(files)) if r.random() < .02 else -1
        for i, f in enumerate(files):
            ts = []
            for t in f:
                t = {"h": t["h"], "ps": t["ps"], "src": t.get("src")}
                if t["src"] is not None: t = MD.with_source(t, t["src"])
                ts.append({"h": dict(t["h"]), "ps": t["ps"]})
            if r.random() < .6: ties(ts, r)
            if i == big: pad(ts, r)
            names.append("i%d.j" % i); texts.append(J.render(ts, r)); box.write(names[-1], texts[-1])
        log = dict(zip(names, texts))
        dash = r.randrange(len(names))
        for i in range(n):
            box.unlink("o.j", "u.j")
            uo = r.random() < .3
            args = ["merge"] + names + ["-u", "u.j"] + ([] if uo else ["-o", "o.j"])
            rc, so, _ = box.run(*args)
            o = so if uo else box.read("o.j")
            u = box.read("u.j")
            obs.append(["ok", str(rc == 0)])
            if rc == 0: obs += [["out", h(o or b"-")], ["un", h(u) if u is not None else "none"]]
        # One of the journals on standard input. The name of a journal only shows as the source of unmerged transactions.
        box.unlink("o.j", "u.j")
        a = list(names); a[dash] = "-"
        rc, so, _ = box.run("merge", *a, "-u", "u.j", "-o", "o.j", stdin=texts[dash].encode())
        srcs = {t.get("src") for t in files[dash]}
        if len(srcs) == 1 or None not in srcs:      # otherwise the name decides the order of the batches
            obs.append(["ok", str(rc == 0)])
            if rc == 0: obs.append(["out", h(box.read("o.j") or b"-")])
    elif what == "rules":
        trns = RD.gen_journal(r, RD.FLAGS, r.choice([1, 2, 3, 5])) if r.random() < .7 else [{"h": t["h"], "ps": t["ps"]} for f in MD.Gen(r, "C01").scenario() for t in f]
        if r.random() < .6: ties(trns, r)
        if r.random() < .02: pad(trns, r)
        txt = J.render(trns, r)
        ron = r.choice([
            '[Chain("start", [Rule(predicate: PostingFlagTag(Contains("a")), action: All([RemovePostingFlagTag("a"), AddPostingFlagTag("zz"), AddPostingValueTag("kk", "1")]), result: Continue), Rule(predicate: True, action: JumpChain("x"), result: Continue)]), Chain("x", [Rule(predicate: PostingHasFlagTag("zz"), action: AddTransactionValueTag("tt", "2"), result: Return), Rule(predicate: True, action: AddTransactionFlagTag("long-flag-tag-number-one"), result: Continue)])]',
            '[Chain("b", [Rule(predicate: True, action: SetAccount("b"), result: Continue)]), Chain("start", [Rule(predicate: Any([PostingHasFlagTag("b"), PostingHasValueTag("k")]), action: JumpChain("b"), result: Continue), Rule(predicate: TransactionDescription(Matches("o+")), action: ReplaceTransactionDescription(RegexReplace(regex: "o+", replacement: "0")), result: Continue)])]',
            '[Chain("start", [Rule(predicate: PostingFlagTag(Eq("b")), action: Error("b"), result: Continue)])]'])
        box.write("i.j", txt); box.write("r.ron", ron)
        log = {"i.j": txt, "r.ron": ron}
        for i in range(n + 1):
            box.unlink("o.j")
            k = r.randrange(3) if i else 0
            if i == n: rc, so, _ = box.run("apply-rules", "-", "table", "r.ron", stdin=txt.encode()); o = so
            elif k == 2: rc, so, _ = box.run("apply-rules", "i.j", "-o", "-", "table", "r.ron"); o = so
            else: rc, so, _ = box.run("apply-rules", "i.j", "-o", "o.j", "table", "r.ron"); o = box.read("o.j")
            obs.append(["ok", str(rc == 0)])
            if rc == 0: obs.append(["out", h(o or b"-")])
    elif what == "fmt":
        S = Sources(r)
        b = S.make(r.choice(["good", "items", "nofp", "amb", "bad", "cand"]))
        if b == "DIR": b = b"x"
        if r.random() < .02: b += b"\n; " + LONG(r) + b"\n\n2021-02-03 last\n  a  GBP1\n  b\n"
        log = {"i.j": b.decode("latin-1")}
        for i in range(3):
            if i < 2:
                box.write("i.j", b); rc, _, _ = box.run("fmt", "i.j"); o = box.read("i.j")
            else: rc, o, _ = box.run("fmt", "-", stdin=b)
            obs.append(["ok", str(rc == 0)])
            if rc == 0: obs.append(["out", h(o)])
    else:
        S = Sources(r)
        S.kind = r.choice(["c5", "c6", "pp"]); S.acct = r.choice(["Current", "My Account ****4321"])
        b = S.statement(r.random() < .15)
        box.write("s.csv", b); box.write("tz.csv", "abbreviation,utc_offset\nBST,UTC+01\nGMT,UTC+00\n")
        leg = ["--include-legacy-fingerprint"] if r.random() < .4 else []
        log = {"s.csv": b.decode("latin-1")}
        mk = lambda p, tz="tz.csv": (["paypal-csv", p, "--output-timezone", "Europe/London", tz] if S.kind == "pp" else ["nationwide-csv", p]) + leg
        for i in range(n + 1):
            box.unlink("o.j")
            if i == n: rc, o, _ = box.run("import", *mk("-"), stdin=b)
            elif i % 2: rc, o, _ = box.run("import", *mk("s.csv"))
            else: rc, _, _ = box.run("import", "-o", "o.j", *mk("s.csv")); o = box.read("o.j")
            obs.append(["ok", str(rc == 0)])
            if rc == 0: obs.append(["out", h(o or b"-")])
    return {"id": sid, "kind": "rerun", "src": {"-": {"n": "-", "c": "bad", "h": ""}}, "dirs": [], "steps": [], "obs": [{"key": k, "val": v} for k, v in obs]}, {"what": what, "files": log, "obs": obs}

FOCUS = {"C16": (1.0, .2), "C23": (.6, 1.0), "C24": (1.0, .1)}

def run(chk):
    prop = chk.prop
    r = random.Random("%s/%d" % (prop, chk.seed))
    jobs = []
    for c in (["FilesMC_a.cfg", "FilesMC_b.cfg"] if chk.quick else ["FilesMC_a.cfg", "FilesMC_b.cfg", "FilesMC_c.cfg"]):
        d = chk.design("FilesMC", c, "design check FilesMC/" + c)
        scn = sorted({json.loads(l[len('<<"SCN", '):-2]) for l in d["printed"] if l.startswith('<<"SCN"')})
        r.shuffle(scn)
        for i, s in enumerate(scn[:chk.n(1500, 20000)]):
            cmds = json.loads(s)
            for x in cmds:
                x.pop("aux", None); x.pop("opts", None); x.pop("ns", None); x.pop("nonce", None)
            jobs.append(("files", "spec-%s-%d" % (c[8], i), r.randrange(1 << 30), cmds))
    chk.cov["spec_behaviours_replayed"] = len(jobs)
    a, b = FOCUS[prop]
    nf, nr = int(a * chk.n(2500, 40000)), int(b * chk.n(3000, 40000))
    for i in range(nf): jobs.append(("files", "rnd%d" % i, r.randrange(1 << 30), None))
    for i in range(nr): jobs.append(("rerun", "re%d" % i, r.randrange(1 << 30), r.choice(["merge", "merge", "merge", "rules", "fmt", "import"])))
    results, nruns = pool.run_jobs(chk.binary, execute, jobs)
    items = [it for it, _ in results]
    by = {it["id"]: (it, rep) for it, rep in results}
    chk.cov.update({"program_runs": nruns, "random_command_sequences": nf, "repeated_runs": nr,
                    "commands": sum(len(i["steps"]) for i in items), "failing_commands": sum(1 for i in items for s in i["steps"] if not s["ok"])})
    other = {}
    for (i, k, labels, ex) in chk.validate("FilesTrace", "FilesTrace.cfg", items, chunk=1500):
        it, rep = by[i]
        if prop in labels: chk.violation("%s step %d: %s %s" % (i, k, labels, ex), {"step": k, "cmd": it["steps"][k - 1] if it["steps"] else None, **rep})
        else:
            for l in labels: other[l] = other.get(l, 0) + 1
    if other: chk.cov["labels_of_other_properties"] = other
    chk.sample(results[0][1]); chk.sample(results[-1][1])
    chk.assumptions += ["Files, pipes and errors of the operating system other than missing, directory and unwritable paths are not exercised."]
    chk.finish()
