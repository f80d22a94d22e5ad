"""Generation and execution of rule tables (C09-C12)."""
import json, os, random
from . import journal as J
from .merge_drv import LINES

ALPHA = list("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 :-_.@()+/éüÉÜïÏçÇñÑöÖ&'*$[],;!?#%=<>~^|{}\"`")
DIGITS = list("0123456789")
WORD = [c for c in ALPHA if c.isalnum() or c == "_"]
SPACES = [" "]
ACCTS = ["assets:unknown", "expenses:Food", "Income:x", "assets:bank", "expenses:unknown", "Équipe:café", "a.b", "x", "x:", ":x"]
DESCS = ["Foo", "FOO CO @ LOC", "foo bar", "Some Company Inc.", "x (y) z", "ÜNÏ café", "a.b*c", "aab ab", "shop 42", "abcabc",
         "Bar food Foo", "$1 store"]
FLAGS = ["a", "b", "unknown-account", "Tag", "exactly12len", "thirteen_long", "é", "ab", "fp-1", "import-self", "k", "account"]
KEYS = ["k", "account", "bank", "K", "trn_type", "a.b", "a", "Tag"]
VALS = ["v", "Current", "Nationwide", "value two", "42", "V", "ÉA", "x:y", ""]

assert all(c in ALPHA for x in ACCTS + DESCS + FLAGS + KEYS + VALS + LINES for c in x)

# ---------- rendering to RON ----------
def rstr(s, r):
    if r.random() < .15 and '"' not in s and "#" not in s:
        return r.choice(['r"%s"', 'r#"%s"#']) % s
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'

def rsm(m, r):
    o = m["op"]
    if o == "eq": return "Eq(%s)" % rstr(m["s"], r)
    if o == "contains": return "Contains(%s)" % rstr(m["s"], r)
    if o == "lower": return "AsLower(%s)" % rsm(m["m"], r)
    if o == "matches": return "Matches(%s)" % rstr(m["txt"], r)

def rpred(q, r):
    o = q["op"]
    if o == "true": return "True"
    if o in ("all", "any"):
        return "%s([%s])" % (o.capitalize(), ", ".join(rpred(x, r) for x in q["qs"]))
    if o == "not": return "Not(%s)" % rpred(q["q"], r)
    if o == "account": return "Account(%s)" % rsm(q["m"], r)
    if o == "desc": return "TransactionDescription(%s)" % rsm(q["m"], r)
    if o == "flag": return "PostingFlagTag(%s)" % rsm(q["m"], r)
    if o == "hasflag": return "PostingHasFlagTag(%s)" % rstr(q["k"], r)
    if o == "hasvalue": return "PostingHasValueTag(%s)" % rstr(q["k"], r)
    if o == "value": return "PostingValueTag(%s, %s)" % (rstr(q["k"], r), rsm(q["m"], r))

NAMES = {"addflag": "AddPostingFlagTag", "remflag": "RemovePostingFlagTag", "addvalue": "AddPostingValueTag",
         "remvalue": "RemovePostingValueTag", "taddflag": "AddTransactionFlagTag", "tremflag": "RemoveTransactionFlagTag",
         "taddvalue": "AddTransactionValueTag", "tremvalue": "RemoveTransactionValueTag"}
def ract(a, r):
    o = a["op"]
    if o == "noop": return "Noop"
    if o == "error": return "Error(%s)" % rstr(a.get("s", "oops"), r)
    if o == "all": return "All([%s])" % ", ".join(ract(x, r) for x in a["acts"])
    if o == "jump": return "JumpChain(%s)" % rstr(a["k"], r)
    if o == "setaccount": return "SetAccount(%s)" % rstr(a["v"], r)
    if o == "replace":
        f = ["regex: " + rstr(a["txt"], r), "replacement: " + rstr(a["rtxt"], r)]
        if r.random() < .3: f.reverse()
        return "ReplaceTransactionDescription(RegexReplace(%s))" % ", ".join(f)
    if "v" in a: return "%s(%s, %s)" % (NAMES[o], rstr(a["k"], r), rstr(a["v"], r))
    return "%s(%s)" % (NAMES[o], rstr(a["k"], r))

def rrule(x, r):
    f = ["predicate: " + rpred(x["pred"], r), "action: " + ract(x["act"], r), "result: " + ("Return" if x["ret"] else "Continue")]
    if r.random() < .3: r.shuffle(f)
    return "Rule(%s%s)" % (", ".join(f), r.choice(["", ","]))

def rentry(e, r):
    if "inc" in e: return "Include(%s)" % rstr(e["inc"]["txt"], r)
    return "Chain(%s, [%s])" % (rstr(e["chain"], r), ", ".join(rrule(x, r) for x in e["rules"]))

def rfile(f, r):
    if not f["good"] and "raw" in f: return f["raw"]
    sep = r.choice([",\n", ", ", ",\n  // note\n"])
    return "[" + sep.join(rentry(e, r) for e in f["entries"]) + r.choice(["]", ",\n]\n"] if f["entries"] else ["]"])

# ---------- generation ----------
class Rx:
    """Random regular expressions: AST for the specification, text for the program."""
    META = set("\\.+*?()|[]{}^$#&-~/")
    def __init__(self, r): self.r, self.ng, self.names = r, 0, {}
    def lit(self, c):
        t = c
        if c in ".+*?()|[]{}^$\\": t = "\\" + c
        return {"op": "lit", "c": c}, t
    def atom(self, d):
        r = self.r
        x = r.random()
        if x < .45 or d <= 0:
            return self.lit(r.choice("abFfooco.  C42é@ x"))
        if x < .55: return {"op": "any"}, "."
        if x < .65:
            cs = sorted(set(r.choice("abcfoOCx 4") for _ in range(r.randint(1, 3)))); neg = r.random() < .3
            return {"op": "cls", "cs": cs, "neg": neg}, "[%s%s]" % ("^" if neg else "", "".join(cs))
        if x < .72:
            w, t, neg = r.choice([(DIGITS, "\\d", False), (WORD, "\\w", False), (SPACES, "\\s", False), (WORD, "\\W", True),
                                  ([c for c in ALPHA if "a" <= c <= "z"], "[a-z]", False), (DIGITS, "\\D", True)])
            return {"op": "cls", "cs": w, "neg": neg}, t
        if x < .9:
            cap = r.random() < .7
            if cap: self.ng += 1
            n = self.ng
            nm = r.choice(["", "", "", "n%d" % n, "Name_%d" % n, "x"]) if cap else ""
            if nm in self.names: nm = ""
            if nm: self.names[nm] = n
            a, t = self.alt(d - 1)
            if not cap: return a, "(?:%s)" % t
            return {"op": "grp", "n": n, "r": a}, "(%s%s)" % (r.choice(["?P<%s>", "?<%s>"]) % nm if nm else "", t)
        return self.lit(r.choice("abx"))
    def nullable(self, a):
        o = a["op"]
        if o in ("bol", "eol"): return True
        if o == "seq": return all(map(self.nullable, a["rs"]))
        if o == "alt": return any(map(self.nullable, a["rs"]))
        if o == "grp": return self.nullable(a["r"])
        if o == "rep": return a["min"] == 0 or self.nullable(a["r"])
        return False
    def loops(self, a):
        o = a["op"]
        if o == "rep": return a["max"] == 0 or self.loops(a["r"])
        if o in ("seq", "alt"): return any(map(self.loops, a["rs"]))
        return o == "grp" and self.loops(a["r"])
    def piece(self, d):
        r = self.r
        a, t = self.atom(d)
        if r.random() < .3 and not self.nullable(a) and not self.loops(a):
            q, mn, mx = r.choice([("*", 0, 0), ("+", 1, 0), ("?", 0, 1)])
            lazy = r.random() < .25
            return {"op": "rep", "r": a, "min": mn, "max": mx, "lazy": lazy}, t + q + ("?" if lazy else "")
        return a, t
    def seq(self, d):
        ps = [self.piece(d) for _ in range(self.r.choice([1, 1, 2, 2, 3]))]
        return {"op": "seq", "rs": [p[0] for p in ps]}, "".join(p[1] for p in ps)
    def alt(self, d):
        if self.r.random() < .75: return self.seq(d)
        ps = [self.seq(d) for _ in range(2)]
        return {"op": "alt", "rs": [p[0] for p in ps]}, "|".join(p[1] for p in ps)
    def top(self):
        r = self.r
        if r.random() < .35:   # part of a real string, escaped
            s = r.choice([x for x in DESCS + ACCTS + VALS + FLAGS if x]); i = r.randrange(len(s)); s = s[i:i + r.randint(1, 6)]
            if r.random() < .25: s = s.lower()
            ps = [self.lit(c) for c in s]
            a, t = {"op": "seq", "rs": [p[0] for p in ps]}, "".join(p[1] for p in ps)
        else:
            a, t = self.alt(2)
        b, e = r.random() < .25, r.random() < .25
        if b or e:
            a = {"op": "seq", "rs": ([{"op": "bol"}] if b else []) + [a] + ([{"op": "eol"}] if e else [])}
            t = ("^" if b else "") + "(?:%s)" % t + ("$" if e else "")
        return a, t

def near(s, r):
    """Something like s, but (mostly) not s."""
    i = r.randrange(len(s) + 1)
    return r.choice([s + " ", " " + s, s[:-1], s[1:], s + "x", s[:i] + " " + s[i:], s.replace(" ", "  "), s.replace(" ", ""), s[:i] + s[i + 1:],
                     s.lower(), s.upper() if s.isascii() else s, s.split(":")[-1], s.split(":")[0], s.split(" ")[0], s + s, ""])

def gen_sm(r, pool, d=1):
    x = r.random()
    if x < .35:
        s = r.choice(pool)
        return {"op": "eq", "s": near(s, r) if r.random() < .35 else s}
    if x < .6:
        s = r.choice(pool); i = r.randrange(len(s) + 1)
        s = s[i:i + r.randint(0, 6)]
        if r.random() < .2: s = s.swapcase() if "ï" not in s.lower() else s
        elif r.random() < .15: s = near(s, r)
        if r.random() < .06: s = ""
        return {"op": "contains", "s": s}
    if x < .8 or d <= 0:
        a, t = Rx(r).top()
        return {"op": "matches", "re": a, "txt": t}
    inner = gen_sm(r, [p.lower() for p in pool] + pool[:1], d - 1)
    return {"op": "lower", "m": inner}

def gen_pred(r, d, flags):
    x = r.random()
    def key(ks): return near(r.choice(ks), r) if r.random() < .12 else r.choice(ks)
    if d > 0 and x < .3:
        o = r.choice(["all", "any", "not", "not"])
        if o == "not": return {"op": "not", "q": gen_pred(r, d - 1, flags)}
        return {"op": o, "qs": [gen_pred(r, d - 1, flags) for _ in range(r.choice([0, 1, 2, 2, 3]))]}
    o = r.choice(["true", "true", "account", "desc", "flag", "hasflag", "hasflag", "hasvalue", "value"])
    if o == "true": return {"op": o}
    if o == "account": return {"op": o, "m": gen_sm(r, ACCTS)}
    if o == "desc": return {"op": o, "m": gen_sm(r, DESCS)}
    if o == "flag": return {"op": o, "m": gen_sm(r, flags)}
    if o == "hasflag": return {"op": o, "k": key(flags)}
    if o == "hasvalue": return {"op": o, "k": key(KEYS)}
    return {"op": o, "k": key(KEYS), "m": gen_sm(r, VALS)}

def gen_repl(r):
    rx = Rx(r)
    a, t = rx.top()
    parts, txt = [], []
    for _ in range(r.choice([0, 1, 2, 3])):
        x = r.random()
        if x < .45:
            s = r.choice(["X", "new", " ", "-", "é", "Foo", "{1}", "}", "_"])
            parts.append({"lit": s, "grp": -1}); txt.append(s)
        elif x < .55:
            parts.append({"lit": "$", "grp": -1}); txt.append("$$")
        else:
            g = r.choice([0, 1, 1, 2, max(1, rx.ng)])
            nm = r.choice([n for n, k in rx.names.items() if k == g] + [str(g)])
            parts.append({"lit": "", "grp": g}); txt.append(nm)
    if not parts and r.random() < .8:
        parts, txt = [{"lit": "Z", "grp": -1}], ["Z"]
    # Keep the description non-empty and free of edge spaces.
    b, e = r.choice(["dd", "[]", "-!", "-."])
    parts, txt = [{"lit": b, "grp": -1}] + parts, [b] + txt
    if parts[-1]["lit"] in (" ",) or r.random() < .5: parts, txt = parts + [{"lit": e, "grp": -1}], txt + [e]
    out = ""
    for p, t2 in reversed(list(zip(parts, txt))):
        if p["grp"] >= 0:
            word = out[:1] == "_" or (out[:1].isascii() and out[:1].isalnum())
            if r.random() < .1:       # a longer name, which no group has
                p["grp"] = 99; t2 += "zz"
            t2 = r.choice(["${%s}"] if word else ["${%s}", "$%s", "$%s"]) % t2
        out = t2 + out
    return {"op": "replace", "re": a, "txt": t, "parts": parts, "rtxt": out}

def gen_act(r, d, flags, chains, perr, pbadjump):
    x = r.random()
    if d > 0 and x < .22:
        return {"op": "all", "acts": [gen_act(r, d - 1, flags, chains, perr, pbadjump) for _ in range(r.choice([0, 1, 2, 2, 3]))]}
    if x < .22 + .18:
        if r.random() < pbadjump: return {"op": "jump", "k": r.choice(["nosuch", "Start", "c99", ""])}
        if chains: return {"op": "jump", "k": r.choice(chains)}
    if r.random() < perr: return {"op": "error", "s": r.choice(["msg", "msg", "", " ", "x {} y"])}
    o = r.choice(["noop", "addflag", "addflag", "remflag", "remflag", "addvalue", "remvalue", "taddflag", "tremflag", "taddvalue",
                  "tremvalue", "setaccount", "setaccount", "replace"])
    if o == "noop": return {"op": o}
    if o == "replace": return gen_repl(r)
    if o == "setaccount": return {"op": o, "v": r.choice(ACCTS)}
    if o in ("addvalue", "taddvalue"): return {"op": o, "k": r.choice(KEYS), "v": r.choice(VALS + [""])}
    if o in ("remvalue", "tremvalue"): return {"op": o, "k": near(r.choice(KEYS), r) if r.random() < .12 else r.choice(KEYS)}
    return {"op": o, "k": near(r.choice(flags), r) if o in ("remflag", "tremflag") and r.random() < .12 else r.choice(flags)}

def whole(v):
    """Replaces the whole description."""
    a = {"op": "seq", "rs": [{"op": "bol"}, {"op": "rep", "r": {"op": "any"}, "min": 1, "max": 0, "lazy": False}, {"op": "eol"}]}
    return {"op": "replace", "re": a, "txt": "^.+$", "parts": [{"lit": v, "grp": -1}], "rtxt": v}

def coupled_table(r):
    """Rules whose predicates look at what other rules of the table do."""
    accs, descs, flags, keys, vals = r.sample(ACCTS, 2), r.sample(["Foo", "FOO CO @ LOC", "aab ab", "Some Company Inc."], 2), r.sample(FLAGS, 2), r.sample(KEYS, 2), r.sample(VALS, 2)
    attrs = r.sample(["account", "desc", "flag", "value", "hasvalue"], r.choice([1, 2, 2, 3]))
    def lit(s):
        x = Rx(r); ps = [x.lit(c) for c in s]
        return {"op": "matches", "re": {"op": "seq", "rs": [p[0] for p in ps]}, "txt": "".join(p[1] for p in ps)}
    def sm(s): return r.choice([{"op": "eq", "s": s}, {"op": "eq", "s": near(s, r) if r.random() < .3 else s}, {"op": "contains", "s": s[:3]}, lit(s[:4])] + ([{"op": "lower", "m": {"op": "eq", "s": s.lower()}}]))
    def leaf():
        t = r.choice(attrs)
        if t == "account": return {"op": t, "m": sm(r.choice(accs))}
        if t == "desc": return {"op": t, "m": sm(r.choice(descs))}
        if t == "flag": return r.choice([{"op": "hasflag", "k": r.choice(flags)}, {"op": "flag", "m": sm(r.choice(flags))}])
        if t == "hasvalue": return {"op": t, "k": r.choice(keys)}
        return {"op": t, "k": r.choice(keys), "m": sm(r.choice(vals))}
    def pred():
        x = r.random()
        if x < .12: return {"op": "true"}
        if x < .65: return leaf()
        if x < .8: return {"op": "not", "q": leaf()}
        return {"op": r.choice(["all", "any"]), "qs": [leaf(), leaf()]}
    def eff():
        t = r.choice(attrs)
        if t == "account": return {"op": "setaccount", "v": r.choice(accs)}
        if t == "desc": return whole(r.choice(descs))
        if t == "flag": return {"op": r.choice(["addflag", "addflag", "remflag", "taddflag"]), "k": r.choice(flags)}
        return r.choice([{"op": "addvalue", "k": r.choice(keys), "v": r.choice(vals)}, {"op": "addvalue", "k": r.choice(keys), "v": r.choice(vals)},
                         {"op": "remvalue", "k": r.choice(keys)}, {"op": "taddvalue", "k": r.choice(keys), "v": r.choice(vals)}])
    n = [0]
    def mark():
        n[0] += 1
        return r.choice([{"op": "addflag", "k": "m%d" % n[0]}, {"op": "taddvalue", "k": "m%d" % n[0], "v": "1"}])
    names = ["start"] + r.sample(["c1", "assign", "clean"], r.choice([0, 0, 1, 2]))
    table = []
    for i, nm in enumerate(names):
        rules = []
        for _ in range(r.choice([2, 3, 4, 5])):
            x = r.random()
            act = eff() if x < .5 else mark() if x < .75 else {"op": "all", "acts": [eff() if r.random() < .7 else mark() for _ in range(r.choice([2, 3]))]}
            if names[i + 1:] and r.random() < .3:
                j = {"op": "jump", "k": r.choice(names[i + 1:])}
                act = r.choice([j, {"op": "all", "acts": [eff(), j]}, {"op": "all", "acts": [j, eff()]}])
            if r.random() < .12:        # again, with what started it taken away first
                back = {"op": "jump", "k": r.choice(names[:i + 1])}
                t = r.choice(["flag", "value"])
                k, v = r.choice(flags), r.choice(vals)
                p, off = ({"op": "hasflag", "k": k}, {"op": "remflag", "k": k}) if t == "flag" else ({"op": "hasvalue", "k": keys[0]}, {"op": "remvalue", "k": keys[0]})
                rules.append({"pred": p, "act": {"op": "all", "acts": [off] + [mark()] * (r.random() < .3) + [back]}, "ret": r.random() < .5})
                continue
            rules.append({"pred": pred(), "act": act, "ret": r.random() < .15})
        table.append((nm, rules))
    return table, flags

def tall_table(r):
    """Chains that call each other many levels deep, long chains, and deeply nested or long predicates and actions."""
    flags = r.sample(FLAGS, 2)
    n = [0]
    def mark():
        n[0] += 1
        return r.choice([{"op": "addflag", "k": "m%d" % n[0]}, {"op": "taddvalue", "k": "m%d" % n[0], "v": "1"}])
    def leaf(): return r.choice([{"op": "true"}, {"op": "hasflag", "k": r.choice(flags)}, {"op": "not", "q": {"op": "hasflag", "k": r.choice(flags)}}, {"op": "hasvalue", "k": r.choice(KEYS)}])
    def deep(d):
        if d == 0: return leaf()
        o = r.choice(["all", "any", "not"])
        if o == "not": return {"op": o, "q": deep(d - 1)}
        qs = [leaf()] * (r.random() < .5) + [deep(d - 1)] + [leaf()] * (r.random() < .3)
        return {"op": o, "qs": qs}
    def act(d):
        if d == 0: return mark()
        return {"op": "all", "acts": [mark()] * (r.random() < .5) + [act(d - 1)] + [mark()] * (r.random() < .5)}
    x = r.randrange(3)
    if x == 0:
        names = ["start"] + ["n%d" % i for i in range(r.choice([5, 9, 17, 33]))]
        table = []
        for i, nm in enumerate(names):
            j = [{"op": "jump", "k": k} for k in names[i + 1:i + 2]]
            acts = [mark()] * (r.random() < .3) + j + [mark()] * (r.random() < .3)
            rules = [{"pred": {"op": "true"}, "act": acts[0] if len(acts) == 1 else {"op": "all", "acts": acts}, "ret": r.random() < .15}]
            if r.random() < .6: rules.append({"pred": {"op": "true"}, "act": mark(), "ret": False})
            table.append((nm, rules))
        return table, flags
    if x == 1:
        return [("start", [{"pred": leaf() if r.random() < .3 else {"op": "true"}, "act": mark() if r.random() < .9 else act(2), "ret": False} for _ in range(r.choice([12, 20, 35]))])], flags
    k = r.choice([5, 8, 12])
    return [("start", [{"pred": deep(k), "act": act(r.choice([0, k])), "ret": r.random() < .2},
                       {"pred": {"op": r.choice(["all", "any"]), "qs": [leaf() for _ in range(20)]}, "act": {"op": "all", "acts": [mark() for _ in range(20)]}, "ret": r.random() < .2},
                       {"pred": {"op": "true"}, "act": mark(), "ret": False}])], flags

def gen_table(r, focus):
    if r.random() < (.03 if focus == "C09" else .008): return tall_table(r)
    if r.random() < (.35 if focus == "C09" else .1): return coupled_table(r)
    flags = r.sample(FLAGS, r.choice([2, 3, 5]))
    nc = r.choice([1, 2, 3, 4] if focus != "C10" else [1, 1, 2])
    names = ["start"] + r.sample(["c1", "assign", "clean", "c2", "x y"], nc - 1)
    acyclic = r.random() < .85
    perr = r.choice([0, 0, .01, .05])
    pbad = r.choice([0] * 6 + [.15]) if focus == "C12" else 0
    table = []
    d = 3 if focus == "C10" else 2
    for i, n in enumerate(names):
        targets = names[i + 1:] if acyclic else names
        nr = r.choice([0, 1, 2, 3, 4, 5]) if n != "start" else r.choice([1, 2, 3, 4, 5, 6])
        rules = [{"pred": gen_pred(r, d, flags) if focus != "C09" or r.random() < .6 else {"op": "true"},
                  "act": gen_act(r, 2, flags, targets, perr, pbad), "ret": r.random() < .25} for _ in range(nr)]
        table.append((n, rules))
    return table, flags

def gen_journal(r, flags, n):
    trns = []
    amts = [J.amount("GBP", "10.00"), J.amount("USD", "-3"), J.amount("EUR", "2.50", False),
            J.posting_amount(J.amount("GBP", "1"), price=J.amount("USD", "2.0")), dict(J.NOAMT)]
    def comm(p):
        return {"lines": r.sample(LINES, r.choice([0, 0, 1, 2])), "tags": sorted(set(r.sample(flags, r.randint(0, min(3, len(flags)))))),
                "vt": [[k, r.choice(VALS)] for k in sorted(r.sample(KEYS, r.choice([0, 1, 2])))]}
    for _ in range(n):
        h = {"date": r.choice([20200101, 20191231, 20210228]), "edate": r.choice([0, 0, 20200103]), "st": r.choice(["", "*", "!"]),
             "code": r.choice(["", "12"]), "desc": r.choice(DESCS)}
        h.update(comm(h))
        ps = []
        for _ in range(r.choice([1, 2, 2, 3])):
            p = {"acct": r.choice(ACCTS), "kind": r.choice(["", "", "", "[", "("]), "amt": dict(r.choice(amts)),
                 "bal": dict(r.choice([J.NOAMT, J.NOAMT, J.amount("GBP", "5.00"), {"k": "0", "t": "0"}])), "st": r.choice(["", "", "*", "!"])}
            p.update(comm(p)); ps.append(p)
            if r.random() < .12: ps.append(json.loads(json.dumps(p)))      # the same again
        trns.append({"h": h, "ps": ps})
    return trns

# ---------- files (C12) ----------
BADRX = ["(", "[a", "*a", "a{2,1}", "(?P<x", "\\", "a**b(", "(?z)", "[z-a]"]
BADRON = ["[Chain(\"start\", [)]", "", "Chain(\"start\", [])", "[Chain(\"start\", [Rule(predicate: True, action: Noop)])]",
          "[Chain(\"start\", [Rule(predicate: True, action: Nope, result: Continue)])]",
          "[Chain(\"start\", [Rule(predicate: Maybe, action: Noop, result: Continue)])]",
          "[Chain(\"start\", [Rule(predicate: True, action: Noop, result: Stop)])]",
          "[Chain(\"start\")]", "[Chan(\"start\", [])]", "[Chain(\"start\", [])", "[Chain(\"start\", [])] x",
          "[Chain(\"start\", [Rule(predicate: True, action: AddPostingValueTag(\"a\"), result: Continue)])]"]

def gen_files(r, table, focus):
    """Distributes chains over files. Returns files, links, main path."""
    multi = r.random() < (.75 if focus == "C12" else .15)
    entries = [{"chain": n, "rules": rs} for n, rs in table]
    if not multi:
        r.shuffle(entries)
        files = [{"path": ["rules.ron"], "good": True, "entries": entries}]
        return files, [], ["rules.ron"]
    dirs = r.choice([[[]], [[], ["sub"]], [["d1"], ["d1", "d2"], ["e"]], [["d1"], ["d1", "d2"], []]])
    nf = r.choice([2, 2, 3, 4]) if r.random() < .985 else r.choice([9, 12, 18])
    tower = nf > 4 and r.random() < .6
    twins, same = r.choice([0, 0, .7]), r.choice(["r.ron", "rules.ron"])      # files of one name in several directories
    files = []
    for i in range(nf):
        d = r.choice(dirs)
        name = same if r.random() < twins else r.choice(["r%d.ron", "inc%d.ron", "x y%d.ron"]) % i
        if any(f["path"] == d + [name] for f in files): name = "r%d.ron" % i
        files.append({"path": d + [name], "good": True, "entries": []})
    main = files[0]["path"]
    for e in entries: r.choice(files)["entries"].append(e)
    links = []
    if r.random() < .2:
        t = r.choice(files)["path"]
        links.append([t[:-1] + ["link.ron"], t])
    alldirs = {tuple(f["path"][:k]) for f in files for k in range(len(f["path"]))}
    def inc(frm, to):
        """an include of path `to` as seen from file path frm."""
        if r.random() < .1:
            return {"abs": True, "comps": list(to)}
        fd = frm[:-1]
        k = 0
        while k < len(fd) and k < len(to) - 1 and fd[k] == to[k] and r.random() < .8: k += 1
        comps = [".."] * (len(fd) - k) + to[k:]
        if r.random() < .3: comps.insert(r.randint(0, len(comps) - 1), ".")
        if r.random() < .15 and comps[0] != "..":
            # a detour through a directory that exists
            subs = [d[len(fd)] for d in sorted(alldirs) if len(d) == len(fd) + 1 and list(d[:len(fd)]) == fd]
            if subs: comps = [r.choice(subs), ".."] + comps
        return {"abs": False, "comps": comps}
    # Connect all files to the main one (mostly), plus extra edges.
    reach = [files[0]]
    for f in files[1:]:
        if r.random() < .93:
            frm = reach[-1] if tower else r.choice(reach)
            to = f["path"]
            if links and links[0][1] == to and r.random() < .5: to = links[0][0]
            frm["entries"].insert(r.randint(0, len(frm["entries"])), {"inc": inc(frm["path"], to)})
            reach.append(f)
    for _ in range(r.choice([0, 1, 1, 2])):
        f, g = r.choice(files), r.choice(files)
        to = g["path"]
        if links and r.random() < .3: to = links[0][0]
        f["entries"].insert(r.randint(0, len(f["entries"])), {"inc": inc(f["path"], to)})
    for d in r.choices(["none", "missing", "wrongbase", "ghostdir"], [10, 1, 2, 1])[0:1]:
        f = r.choice(files)
        if d == "missing": f["entries"].append({"inc": {"abs": False, "comps": ["nosuch.ron"]}})
        if d == "wrongbase":   # right only relative to somewhere else
            g = r.choice(files)
            f["entries"].append({"inc": {"abs": False, "comps": list(g["path"])}})
        if d == "ghostdir":
            g = r.choice(files)
            f["entries"].append({"inc": {"abs": False, "comps": ["ghost", ".."] + [g["path"][-1]]}})
    return files, links, main

def damage(r, files, focus):
    """Load-time defects."""
    if focus != "C12": return
    x = r.random()
    f = r.choice(files)
    if x < .06:
        f["good"] = False; f["raw"] = r.choice(BADRON)
    elif x < .12:
        f["good"] = False
        bad = r.choice(BADRX)
        act = r.choice([{"op": "noop"}, {"op": "replace", "txt": bad, "rtxt": "x"}])
        pred = {"op": "true"} if act["op"] == "replace" else {"op": "not", "q": {"op": "desc", "m": {"op": "matches", "txt": bad}}}
        f["entries"].append({"chain": "bad", "rules": [{"pred": pred, "act": act, "ret": False}]})
    elif x < .2:
        g = r.choice(files)
        src = [e for h in files for e in h["entries"] if "chain" in e]
        if src:
            e = r.choice(src)
            f["entries"].insert(r.randint(0, len(f["entries"])), r.choice([json.loads(json.dumps(e)), {"chain": e["chain"], "rules": []}]))
    elif x < .26:
        for h in files:
            for e in h["entries"]:
                if e.get("chain") == "start": e["chain"] = r.choice(["Start", "begin", "start "])
    elif x < .4:
        # an unreachable chain with a (nested) jump to nowhere or somewhere
        a = {"op": "jump", "k": r.choice(["nosuch", "start", "Start", "c1"])}
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            a = {"op": "all", "acts": r.choice([[a], [{"op": "noop"}, a], [a, {"op": "noop"}], [{"op": "all", "acts": []}, a]])}
        f["entries"].append({"chain": "unreached", "rules": [{"pred": {"op": "not", "q": {"op": "true"}}, "act": a, "ret": True}]})

def jumps(a):
    if a["op"] == "jump": return [a["k"]]
    return sum((jumps(x) for x in a["acts"]), []) if a["op"] == "all" else []

def small(table):
    """Whether running the table on one posting takes few enough steps for the specification."""
    out = {n: [j for x in rs for j in jumps(x["act"])] for n, rs in table}
    memo = {}
    def work(n, path):
        if n in path: return None
        if n not in out: return 0
        if n in memo: return memo[n]
        w = 1
        for j in out[n]:
            x = work(j, path | {n})
            if x is None: return None
            w += x
        memo[n] = w
        return w
    def repl(a):
        if a["op"] == "replace": return sum(p["grp"] >= 0 for p in a["parts"]) > 1, 1
        if a["op"] != "all": return False, 0
        xs = [repl(x) for x in a["acts"]]
        return any(x[0] for x in xs), sum(x[1] for x in xs)
    reps = [repl(x["act"]) for _, rs in table for x in rs]
    growing, nrep = any(x[0] for x in reps), sum(x[1] for x in reps)   # descriptions can double in length
    w = work("start", frozenset())
    if w is None: return sum(map(len, out.values())) <= 4 and nrep == 0      # cyclic
    return w <= 60 and (w * nrep <= 6 or not growing) and w * nrep <= 30

def job(r, focus, sid):
    table, flags = gen_table(r, focus)
    while not small(table):
        table, flags = gen_table(r, focus)
    files, links, main = gen_files(r, table, focus)
    damage(r, files, focus)
    trns = gen_journal(r, flags, r.choice([1, 2, 3, 4]))
    return {"id": sid, "files": files, "links": links, "main": main, "trns": trns, "seed": r.randrange(1 << 30)}

def spec_job(tbl, r, sid):
    entries = [{"chain": n, "rules": tbl[n]} for n in tbl]
    trns = []
    for tags in ([], ["a"], ["b"], ["a", "b"]):
        p = {"acct": "x", "kind": "", "amt": dict(J.NOAMT), "bal": dict(J.NOAMT), "st": "", "lines": [], "tags": tags, "vt": []}
        h = {"date": 20200101, "edate": 0, "st": "", "code": "", "desc": "Foo", "lines": [], "tags": [], "vt": []}
        trns.append({"h": h, "ps": [p, dict(p, acct="y")]})
    if any("error" in json.dumps(e) for e in entries): trns = [r.choice(trns)]
    return {"id": sid, "files": [{"path": ["rules.ron"], "good": True, "entries": entries}], "links": [], "main": ["rules.ron"],
            "trns": trns, "seed": r.randrange(1 << 30)}

def execute(box, jb):
    r = random.Random(jb["seed"])
    box.fresh()
    texts = {}
    for f in jb["files"]:
        p = os.path.join(*f["path"])
        os.makedirs(os.path.join(box.dir, os.path.dirname(p)), exist_ok=True)
        for e in f["entries"]:
            if "inc" in e:
                t = "/".join(e["inc"]["comps"])
                e["inc"]["txt"] = os.path.join(box.dir, t) if e["inc"]["abs"] else t
        texts[p] = rfile(f, r)
        box.write(p, texts[p])
    for a, b in jb["links"]:
        os.symlink(b[-1], os.path.join(box.dir, *a))
    texts["in.j"] = J.render(jb["trns"], r)
    box.write("in.j", texts["in.j"]); box.write("empty.j", "")
    main = os.path.join(*jb["main"])
    it = {k: jb[k] for k in ("id", "files", "links", "main", "trns")}
    SENT = b"precious\n"
    def go(inp, out, sent):
        if sent: box.write(out, SENT)
        rc, so, se = box.run("apply-rules", inp, "-o", out, "table", main)
        o = box.read(out)
        w = o != (SENT if sent else None)
        return rc, o, w, se
    rc, o, w, se = go("in.j", "out.j", r.random() < .5)
    it["ok"], it["outw"], it["parsed"], it["out"] = rc == 0, w, True, []
    if rc == 0:
        try: it["out"] = J.parse((o or b"").decode("utf-8"))
        except (J.ParseError, UnicodeDecodeError) as e: it["parsed"] = False
    erc, _, ew, ese = go("empty.j", "eo.j", True)
    it["emptyok"], it["emptyw"] = erc == 0, ew
    for f in it["files"]: f.pop("raw", None)
    return it, {"texts": texts, "main": main, "stderr": se.decode("utf-8", "replace")[-400:],
                "out": (o or b"").decode("utf-8", "replace")}

def strip(it):
    """Drops what the specification does not read."""
    def go(x):
        if isinstance(x, dict): return {k: go(v) for k, v in x.items() if k not in ("txt", "rtxt")}
        if isinstance(x, list): return [go(v) for v in x]
        return x
    it = go(it)
    for f in it["files"]:
        if not f["good"]: f["entries"] = []
    return it
