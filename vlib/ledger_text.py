"""Text of Ledger journals <-> the lines of spec/Journal.tla, independent of the implementation.

lex() reads any layout that the generator writes (and what the program writes); render_line() writes a line in
a random layout. Values are records of strings, so that TLC can compare them.
"""
import re
from decimal import Decimal

NOTC = r'0-9{}\[\]()~`!@#%^&*\-=+\\\'",./? ;\t\r\n'
COMM = r'(?:"(?P<lq>(?:[^"\\]|\\")+)"|(?P<lu>[^' + NOTC + r']+))'
QTY = r'-?(?:\d{1,3}(?:,\d{3})+|\d*)(?:\.\d+)?'
LEFT = re.compile(r'(?P<neg>-\s*)?' + COMM + r'[ \t]*(?P<q>' + QTY + ')')
RIGHT = re.compile(r'(?P<q>' + QTY + r')[ \t]*' + COMM)
CCH = ";#%|*"

class LexError(Exception):
    pass

def canon_qty(neg, s):
    s = s.replace(",", "")
    if not re.search(r"\d", s): raise LexError("quantity %r" % s)
    minus = s.startswith("-")
    s = s.lstrip("-")
    if s.startswith("."): s = "0" + s
    ip, _, fp = s.partition(".")
    ip = ip.lstrip("0") or "0"
    s = ip + ("." + fp if fp else "")
    if not re.search("[1-9]", s): return s
    return ("-" if minus != neg else "") + s

def take_amount(s):
    for pos, rx in (("L", LEFT), ("R", RIGHT)):
        m = rx.match(s)
        if m and re.search(r"\d", m.group("q")):
            name = m.group("lq")
            name = name.replace('\\"', '"') if name is not None else m.group("lu")
            neg = bool(pos == "L" and m.group("neg"))
            return "%s|%s|%s" % (pos, name, canon_qty(neg, m.group("q"))), s[m.end():]
    raise LexError("amount %r" % s)

def lex_posting(s, st=""):
    """s: text after indentation."""
    if not st and s[0] in "*!":
        st, s = s[0], s[1:].lstrip(" \t")
    m = re.match(r"^(.+?)(?:  | ?\t| ?$)", s)
    if not m: raise LexError("posting %r" % s)
    acct = m.group(1)
    r = s[len(acct):].strip(" \t")
    v = {"acct": acct, "kind": "", "st": st, "amt": "", "lot": "", "price": "", "bal": ""}
    for o, c in ("[]", "()"):
        if acct.startswith(o) and acct.endswith(c): v["kind"], v["acct"] = o, acct[1:-1]
    if r and r[0] not in "=;":
        v["amt"], r = take_amount(r)
        r = r.lstrip(" \t")
        for o, c, k in (("{{", "}}", "t"), ("{", "}", "u")):
            if r.startswith(o):
                a, r = take_amount(r[len(o):].lstrip(" \t"))
                r = r.lstrip(" \t")
                if not r.startswith(c): raise LexError("lot %r" % s)
                r = r[len(c):].lstrip(" \t")
                v["lot"] = k + a
                break
        for o, k in (("@@", "t"), ("@", "u")):
            if r.startswith(o):
                a, r = take_amount(r[len(o):].lstrip(" \t"))
                r = r.lstrip(" \t")
                v["price"] = k + a
                break
    if r.startswith("="):
        r = r[1:].lstrip(" \t")
        m = re.match(r"0(?=\s*(;|$))", r)
        if m: v["bal"], r = "0", r[1:]
        else: v["bal"], r = take_amount(r)
        r = r.lstrip(" \t")
    ic = []
    if r.startswith(";"):
        ic, r = [r[1:].lstrip(" \t").rstrip()], ""
    if r.strip(): raise LexError("posting rest %r of %r" % (r, s))
    return v, ic

HDR = re.compile(r"^(\d{4})([-/.])(\d\d)([-/.])(\d\d)(?:=(\d{4})[-/.](\d\d)[-/.](\d\d))?(?:[ \t]+([*!]))?(?:[ \t]+\(([^)]+)\))?[ \t]+(.*)$")

def lex_line(line):
    if not line.strip(" \t"): return {"k": "blank"}
    ind = line[0] in " \t"
    body = line.lstrip(" \t")
    if body[0] in CCH:
        txt = body[1:].lstrip(" \t").rstrip()
        if ind and body[0] == "*" and txt and txt[0] not in CCH:
            v, ic = lex_posting(txt, "*")
            return {"k": "star", "txt": txt, "v": v, "ic": ic}
        return {"k": "com", "ind": ind, "txt": txt}
    m = re.match(r"include[ \t]+(\S.*?)\s*$", body)
    if ind:
        v, ic = lex_posting(body)
        if m: return {"k": "iinc", "v": m.group(1), "p": v}
        return {"k": "post", "v": v, "ic": ic}
    if m: return {"k": "inc", "v": m.group(1)}
    if body.startswith("P "):
        m = re.match(r'^P\s+(\d{4})[-/.](\d\d)[-/.](\d\d)\s+(\d\d:\d\d:\d\d)\s+(?:"((?:[^"\\]|\\")+)"|([^%s]+))\s+(.*)$' % NOTC, body)
        if not m: raise LexError("price %r" % line)
        y, mo, d, t, nq, nu, r = m.groups()
        a, r = take_amount(r)
        if r.strip(): raise LexError("price %r" % line)
        name = nq.replace('\\"', '"') if nq is not None else nu
        return {"k": "price", "v": "%s-%s-%s %s|%s|%s" % (y, mo, d, t, name, a)}
    m = HDR.match(body)
    if not m: raise LexError("header %r" % line)
    y, _, mo, _, d, ey, em, ed, st, code, desc = m.groups()
    ic = []
    # "  ;" begins a comment if it is the first two-space gap of the description
    mm = re.match(r"^(.+?)(?:[ ]{2}|[ ]?\t)", desc)
    if mm:
        rest = desc[len(mm.group(1)):].lstrip(" \t")
        if rest.startswith(";"):
            ic = [rest[1:].lstrip(" \t").rstrip()]
            desc = mm.group(1)
    return {"k": "head", "v": {"date": "%s-%s-%s" % (y, mo, d), "edate": "%s-%s-%s" % (ey, em, ed) if ey else "",
                               "st": st or "", "code": code or "", "desc": desc}, "ic": ic}

def lex(text):
    if text and not text.endswith("\n"): raise LexError("no final newline")
    return [lex_line(l) for l in text.split("\n")[:-1]]

# ---- rendering -------------------------------------------------------------------------------------------------
def _grp(ip):
    return re.sub(r"(?<=\d)(?=(\d{3})+$)", ",", ip)

def render_amount(a, r):
    pos, rest = a.split("|", 1)
    name, q = rest.rsplit("|", 1)
    neg = q.startswith("-")
    q = q.lstrip("-")
    ip, dot, fp = q.partition(".")
    if len(ip) > 3 and r.random() < .3: ip = _grp(ip)
    elif ip == "0" and dot and r.random() < .3: ip = ""
    elif r.random() < .1 and "," not in ip and len(ip) < 3: ip = "0" * r.randint(1, 2) + ip
    q = ip + dot + fp
    if re.search("[%s]" % NOTC, name) or r.random() < .1:
        n = '"' + name.replace('"', '\\"') + '"'
    else:
        n = name
    sp = r.choice(["", " ", "  ", "\t"])
    if pos == "L":
        if neg:
            if r.random() < .4: return "-" + r.choice(["", " "]) + n + sp + q
            return n + sp + "-" + q
        return n + sp + q
    return ("-" if neg else "") + q + sp + n

def render_posting(v, ic, r, star_in_status=True):
    acct = {"": "%s", "[": "[%s]", "(": "(%s)"}[v["kind"]] % v["acct"]
    s = acct
    if v["st"] and star_in_status: s = v["st"] + r.choice([" ", "", "  "]) + s
    gap = r.choice(["  ", "   ", "\t", "      ", " \t"])
    if v["amt"]:
        s += gap + render_amount(v["amt"], r)
        if v["lot"]:
            o, c = ("{{", "}}") if v["lot"][0] == "t" else ("{", "}")
            w = r.choice(["", " "])
            s += r.choice([" ", "", "  "]) + o + w + render_amount(v["lot"][1:], r) + w + c
        if v["price"]:
            o = "@@" if v["price"][0] == "t" else "@"
            s += r.choice([" ", "  ", "\t"]) + o + r.choice([" ", "", "  "]) + render_amount(v["price"][1:], r)
    if v["bal"]:
        s += (r.choice([" ", "  ", "\t"]) if v["amt"] else gap) + "=" + r.choice([" ", "", "  "])
        s += "0" if v["bal"] == "0" else render_amount(v["bal"], r)
    if ic: s += r.choice(["  ", "\t", "    "]) + ";" + r.choice(["", " ", "  "]) + ic[0]
    return s + r.choice(["", "", "", "  ", "\t"])

def _date(d, r):
    s = r.choice("-/.")
    return d.replace("-", s)

def render_line(l, r):
    k = l["k"]
    ind = r.choice(["  ", "    ", "\t", " ", "   "])
    if k == "blank": return r.choice(["", "", "", " ", "\t"])
    if k == "head":
        v = l["v"]
        s = _date(v["date"], r)
        if v["edate"]: s += "=" + _date(v["edate"], r)
        w = lambda: r.choice([" ", " ", "  ", "\t"])
        if v["st"]: s += w() + v["st"]
        if v["code"]: s += w() + "(" + v["code"] + ")"
        s += w() + v["desc"]
        if l["ic"]: s += r.choice(["  ", "\t", "    "]) + ";" + r.choice(["", " ", "  "]) + l["ic"][0] + r.choice(["", " "])
        return s
    if k == "post": return ind + render_posting(l["v"], l["ic"], r)
    if k == "star":
        w = r.choice([" ", "", "  "])
        return ind + "*" + w + l["txt"] + r.choice(["", "", " "])
    if k == "com":
        return (ind if l["ind"] else "") + r.choice(";;;;#%|" + ("" if l["ind"] else "*")) + r.choice(["", " ", "  ", "\t"]) + l["txt"] + r.choice(["", "", " ", "\t"])
    if k == "price":
        dt, name, a = l["v"].split("|", 2)
        d, t = dt.split(" ")
        n = '"' + name.replace('"', '\\"') + '"' if re.search("[%s]" % NOTC, name) or r.random() < .1 else name
        w = lambda: r.choice([" ", "  ", "\t"])
        return "P" + w() + _date(d, r) + w() + t + w() + n + w() + render_amount(a, r)
    if k == "inc": return "include" + r.choice([" ", "  ", "\t"]) + l["v"] + r.choice(["", " "])
    if k == "iinc": return ind + "include " + l["v"]
    if k == "junk": return l["txt"]
    raise KeyError(k)

def render(ls, r, crlf=False):
    e = "\r\n" if crlf else "\n"
    return "".join(render_line(l, r) + e for l in ls)
