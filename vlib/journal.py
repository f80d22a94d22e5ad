"""Journal model <-> text, independent of the implementation.

A model transaction is {"h": header, "ps": [posting...]}:
 header  = {date: int yyyymmdd, edate: int|0, st: ""|"!"|"*", code, desc, lines:[str], tags:[str], vt:[[k,v]]}
 posting = {acct, kind: ""|"["|"(", amt:{k,t}, bal:{k,t}, st, lines, tags, vt}
An amount is {"k": equality key, "t": printed text}; both "" if absent.
"""
import re
from decimal import Decimal

COMM = r'[^0-9{}\[\]()~`!@#%^&*\-=+\\\'",./? ;\t\r\n]+'
NUM = r'-?(?:\d+(?:\.\d+)?|\.\d+)'
AMT = re.compile(r'(?:(?P<lc>%s)(?P<lq>%s)|(?P<rq>%s) (?P<rc>%s))' % (COMM, NUM, NUM, COMM))

class ParseError(Exception):
    pass

def canon_num(s):
    d = Decimal(s)
    if d == 0:
        return "0"
    d = d.normalize()
    s = format(d, "f")
    return s

def amount(name, qty, left=True):
    """model amount from commodity name, quantity text, position."""
    if left:
        return {"k": "L|%s|%s" % (name, canon_num(qty)), "t": "%s%s" % (name, qty)}
    return {"k": "R|%s|%s" % (name, canon_num(qty)), "t": "%s %s" % (qty, name)}

NOAMT = {"k": "", "t": ""}

def posting_amount(a, lot=None, lot_total=False, price=None, price_total=False):
    k, t = a["k"], a["t"]
    if lot:
        o, c = ("{{", "}}") if lot_total else ("{", "}")
        k += o + lot["k"] + c
        t += " " + o + lot["t"] + c
    if price:
        o = "@@" if price_total else "@"
        k += o + price["k"]
        t += " %s %s" % (o, price["t"])
    return {"k": k, "t": t}

def _take_amount(s):
    m = AMT.match(s)
    if not m:
        raise ParseError("amount %r" % s)
    if m.group("lc") is not None:
        a = amount(m.group("lc"), m.group("lq"), True)
    else:
        a = amount(m.group("rc"), m.group("rq"), False)
    return a, s[m.end():]

def parse_posting_amount(s):
    a, r = _take_amount(s)
    lot = price = None
    lt = pt = False
    if r.startswith(" {{"):
        lot, r = _take_amount(r[3:]); lt = True
        if not r.startswith("}}"): raise ParseError(s)
        r = r[2:]
    elif r.startswith(" {"):
        lot, r = _take_amount(r[2:])
        if not r.startswith("}"): raise ParseError(s)
        r = r[1:]
    if r.startswith(" @@ "):
        price, r = _take_amount(r[4:]); pt = True
    elif r.startswith(" @ "):
        price, r = _take_amount(r[3:])
    return posting_amount(a, lot, lt, price, pt), r

VT = re.compile(r'^ *([^: ]+):(?: +(.+))?$')
FLAGS = re.compile(r':((?:[^: ]+:)+)')

def parse_comment(lines):
    """comment lines -> (text fragments, tags, value tags)"""
    text, tags, vt = [], set(), {}
    for line in lines:
        m = VT.match(line)
        if m:
            vt[m.group(1)] = m.group(2) or ""
            continue
        pos = 0
        for m in FLAGS.finditer(line):
            t = line[pos:m.start()].strip()
            if t: text.append(t)
            pos = m.end()
            tags.update(m.group(1)[:-1].split(":"))
        t = line[pos:].strip()
        if t: text.append(t)
    return text, tags, vt

def _cm(clines):
    text, tags, vt = parse_comment([l.rstrip() for l in clines])
    return {"lines": text, "tags": sorted(tags), "vt": [[k, vt[k]] for k in sorted(vt)]}

HDR = re.compile(r'^(\d{4})-(\d\d)-(\d\d)(?:=(\d{4})-(\d\d)-(\d\d))?(?: ([*!]))?(?: \(([^)]+)\))?(?: (.*))?$')

def parse_posting_line(s):
    st = ""
    if s[:2] in ("* ", "! "):
        st, s = s[0], s[2:]
    m = re.match(r'^(.*?)(?:  (.*))?$', s)
    acct, rest = m.group(1), m.group(2)
    kind = ""
    if acct.startswith("[") and acct.endswith("]"): kind, acct = "[", acct[1:-1]
    elif acct.startswith("(") and acct.endswith(")"): kind, acct = "(", acct[1:-1]
    amt, bal = dict(NOAMT), dict(NOAMT)
    if rest is not None:
        if not rest.startswith(" = "):
            amt, rest = parse_posting_amount(rest)
        if rest.startswith(" = "):
            rest = rest[3:]
            if rest == "0":
                bal, rest = {"k": "0", "t": "0"}, ""
            else:
                bal, rest = _take_amount(rest)
        if rest.strip():
            raise ParseError("posting %r" % s)
    return {"acct": acct, "kind": kind, "amt": amt, "bal": bal, "st": st}

def parse(text):
    """Parses program output (fixed layout) into model transactions; strict about layout."""
    trns = []
    cur = None
    clines = None
    def endc():
        nonlocal clines
        if clines is not None:
            tgt, ls = clines
            tgt.update(_cm(ls))
        clines = None
    if text and not text.endswith("\n"):
        raise ParseError("no final newline")
    for line in text.split("\n")[:-1]:
        if line == "":
            endc(); cur = None
            continue
        if line.startswith("  ; "):
            if clines is None: raise ParseError("stray comment")
            clines[1].append(line[4:])
        elif line.startswith("  "):
            if cur is None: raise ParseError("stray posting %r" % line)
            endc()
            p = parse_posting_line(line[2:])
            cur["ps"].append(p)
            clines = (p, [])
        else:
            endc()
            m = HDR.match(line)
            if not m: raise ParseError("header %r" % line)
            y, mo, d, ey, em, ed, st, code, desc = m.groups()
            h = {"date": int(y + mo + d), "edate": int(ey + em + ed) if ey else 0,
                 "st": st or "", "code": code or "", "desc": desc or ""}
            cur = {"h": h, "ps": []}
            trns.append(cur)
            clines = (h, [])
    endc()
    return trns

def fdate(n, sep="-"):
    s = "%08d" % n
    return s[:4] + sep + s[4:6] + sep + s[6:]

def render_comment(c, rnd=None, indent="  "):
    """lines of comment text for model comment c in some layout."""
    out = []
    tags = list(c["tags"])
    if rnd:
        rnd.shuffle(tags)
        while tags:
            n = rnd.randint(1, len(tags))
            out.append(":" + ":".join(tags[:n]) + ":")
            tags = tags[n:]
    elif tags:
        out.append(":" + ":".join(tags) + ":")
    rest = list(c["lines"])
    if rest and out and rnd and rnd.random() < .3:
        out[-1] += " " + rest.pop(0)
    out += rest
    vts = ["%s: %s" % (k, v) for k, v in c["vt"]]
    if rnd and rnd.random() < .5:
        out = vts + out
    else:
        out = out + vts
    return [indent + "; " + l for l in out]

def render(trns, rnd=None, blank=True):
    out = []
    for i, t in enumerate(trns):
        if i and blank:
            out.append("")
        h = t["h"]
        sep = rnd.choice("-/.") if rnd else "-"
        s = fdate(h["date"], sep)
        if h["edate"]: s += "=" + fdate(h["edate"], sep)
        if h["st"]: s += " " + h["st"]
        if h["code"]: s += " (" + h["code"] + ")"
        if h["desc"]: s += " " + h["desc"]
        out.append(s)
        out += render_comment(h, rnd)
        for p in t["ps"]:
            ind = rnd.choice(["  ", "    ", " ", "\t"]) if rnd else "  "
            s = ind
            if p["st"]: s += p["st"] + " "
            k = p["kind"]
            s += {"": "", "[": "[", "(": "("}[k] + p["acct"] + {"": "", "[": "]", "(": ")"}[k]
            if p["amt"]["t"] or p["bal"]["t"]: s += "  "
            s += p["amt"]["t"]
            if p["bal"]["t"]: s += " = " + p["bal"]["t"]
            out.append(s)
            out += render_comment(p, rnd)
    return "\n".join(out) + ("\n" if out else "")
