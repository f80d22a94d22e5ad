"""Generation and execution of imports (C17-C21): statements as rows of fields, concrete files, observations."""
import datetime as DT, json, os, random, re
from decimal import Decimal
from . import fpenc as F, journal as J, stmt

TEXTS = ["Tesco Stores", "AMAZON.CO.UK*2Y4", "Caf\u00e9 Rouge", "50% off", "O'Neil & Sons, Ltd", 'The "Shop"', "a:b", "x;y", "=5", "@home", "-", "1234",
         "ATM \u00a320.00 fee", "two  blanks", "\u20ac-shop", "it\u2019s", "a\u2013b", "Transfer from 12345678", "x", "2019-01-02", "Payment to J SMITH", "note: a b",
         "{curly}", "back\\slash", "\u00c9cole", "#1", "a|b", "fp-x", "tab", "GBP 5.00", "100", "&co", "<x>", "FOO'S, \"BAR\""]
PPTEXTS = TEXTS + ["\u65e5\u65e5", "\u00fc\u00f6\u00f1"]
TYPES = ["Visa purchase", "Direct debit", "Bank credit", "ATM Withdrawal", "Payment to", "Transfer from", "Standing order"]
ACCTS = ["Current", "My Account ****4321", "Acc_1", "Joint/2", "Savings", "FlexAccount ****01234", "caf\u00e9", "a+b", "Flex *1234*", "Joint:", "ISA:2021", "-x-", "Acc."]
LOC = ["", "", "LONDON", "Caf\u00e9, Paris", "12 High St", "x y"]
BADDATES = ["31 Feb 2020", "1 Jan 2020", "01 January 2020", "01 jan 2020", "01-01-2020", "", "32 Jan 2020", "29 Feb 2019", "29 Feb 2020", "01 Jan 20", "01 Jan 02020",
            "2020-01-01", "01 Foo 2020", "00 Jan 2020", "01 Jan 2020 x", "01  Jan 2020", "01 JAN 2020", "01Jan2020", "01 Jan 0020", "Jan 01 2020", "01 Jan", "01 Jan 2020.",
            "30 Feb 2024", "31 Apr 2021", "29 Feb 2100", "01 Sept 2020", "01 Jan -2020", "01/01/2020", "31 Jun 2020", "01 Jan 9999", "01 Jan 1000"]
BADGBP = ["1.00", "\u00a31", "\u00a31.0", "\u00a31.000", "\u00a31,000.00", "\u00a310,00.00", "\u00a3-5.00", "-\u00a35.00", "\u00a3 5.00", "\u00a3", "\u00a3.50", "\u00a35.", "$5.00",
          "\u00a31e3.00", "\u00a3+1.00", "\u00a30.00", "\u00a3-0.00", "\u00a39999999999999.99", "\u00a30000000000000000001.00", "x", "\u00a35.00CR", "\u00a35.00 ", "(\u00a35.00)",
          "\u00a3\u00a35.00", "\u00a35.0a", "\u00a35,00", "\u00a31.00\u00a32.00", "\u00a3--1.00", "\u20ac5.00", "\u00a35.00.00", "\u00a3007.50", "GBP5.00", "\u00a31 000.00", ""]
PPDATES = ["31/02/2020", "1/1/2020", "01/13/2020", "13/12/2020", "", "32/01/2020", "29/02/2019", "29/02/2020", "01/01/20", "2020/01/01", "01-01-2020", "00/01/2020", "01/01/2020 x",
           "01 / 01 / 2020", "1/01/2020", "01/01/02020", "01/Jan/2020", "29/02/2100", "31/04/2021", "01/01/2020/", "+1/01/2020"]
PPTIMES = ["24:00:00", "12:60:00", "12:00:61", "12:00", "", "12:00:00 PM", "1:02:03", "12:00:00.5", "-1:00:00", "12.00.00", "00:00:00", "23:59:59", "12:00:0", "noon", "120000", "12:00:00Z"]
PPAMTS = ["1,00", "1,000.00", "", "1.2.3", "abc", "1e3", "--1", "+5.00", ".5", "5.", "1_000", "-0.00", "0.00", "1 000.00", "\u00a35.00", "5.00-", "12,34,567.00", "99999999999999.99", "0.001", "-12.345678", "5,0",
          "1,0000.00", "0x10", "NaN", "inf", "1.00 GBP", "(1.00)", "00012.50", "-.5", "-", "5.00 CR", "5.00CR", "5.00 DR", "1_000.00", "1_0", "_5.00", "5.00_", "5.0_0", "- 5.00", "5.00\t", "+-5.00"]
PPZONES = ["", "XXX", "gmt", "BST ", "B ST", "ZZZ", "UTC", "+01", "Gmt", "GMT0"]
PPSTAT = ["Denied", "completed", "", "Completed.", "Pend", "PENDING", "Complete", "Held", "Refunded"]
TZBAD = ["UTC+24", "UTC+1", "UTC+01:60", "+01", "UTC", "", "UTC+01:0", "utc+01", "UTC+0100", "GMT+01", "UTC+01 ", "UTC--1", "UTC+23:59", "UTC-23", "UTC+00:01", "UTC+01:00:00", "Z", "UTC+99", "UTC+01:000", "UTC+01:00x", "xUTC+01", "xUTC+01:30", "+UTC+01:30", "UTC+01x", "UTC+001", "UTC+01:-1", "UTC+01:", "UTC 01", "UTC+01.5", "UTC+1:00", "UTC+01-00", "UTC+01 00", "UTC+24:00", "UTC-23:60", "UTC−05"]
ZONES = ["UTC", "Europe/London", "Europe/London", "Europe/Berlin", "America/New_York", "America/Los_Angeles", "Asia/Tokyo", "Asia/Kolkata", "Asia/Kathmandu", "Etc/GMT+12", "Pacific/Kiritimati"]
TZALL = [["GMT", "UTC+00"], ["BST", "UTC+01"], ["EST", "UTC-05"], ["EDT", "UTC-04:00"], ["IST", "UTC+05:30"], ["NPT", "UTC+05:45"], ["PST", "UTC-08"], ["NST", "UTC-03:30"], ["X", "UTC+23:59"], ["Y", "UTC-23"], ["LMT", "UTC-00:30"], ["WMT", "UTC+00:45"], ["NUL", "UTC-00"]]

def money(r):
    return r.choice([lambda: r.randint(1, 999), lambda: r.randint(1, 99999), lambda: r.choice([1, 5, 10, 50, 99, 100, 101, 1000, 10000, 99999, 123456789]), lambda: r.randint(100000, 10 ** 9)])()
def days(r, n):
    """n dates as (y, m, d), in one of several orders."""
    base = DT.date(r.choice([2007, 2012, 2018, 2019, 2020, 2021, 2024]), r.randint(1, 12), r.randint(1, 28))
    if r.random() < .3: base = r.choice([DT.date(2020, 2, 27), DT.date(2019, 12, 29), DT.date(2024, 2, 28), DT.date(2021, 2, 27), DT.date(2020, 12, 30)])
    if r.random() < .06: base = r.choice([DT.date(1980, 1, 1), DT.date(1980, 2, 28), DT.date(2100, 2, 27), DT.date(2100, 12, 31)])      # the ends of what a PDF may say
    ds, d = [], base
    for _ in range(n):
        if r.random() < .55 and d < DT.date(2099, 12, 31): d += DT.timedelta(days=r.choice([1, 1, 1, 2, 7, 30, 31, 365]))
        ds.append((d.year, d.month, d.day))
    x = r.random()
    if x < .3: ds.reverse()
    elif x < .45: r.shuffle(ds)
    return ds
def contiguous(xs):
    seen, prev = set(), None
    for x in xs:
        if x != prev and x in seen: return False
        seen.add(x); prev = x
    return True

def ns_opts(r, acct, fixed=None):
    """-> (spec options, arguments, lookup file or None)"""
    o = {"ns": "generated", "val": "", "look": [["", ""]], "legacy": False, "zone": ""}
    x = r.random()
    if fixed: x = .5; 
    if x < .15: return o, [], None
    if x < .3: return o, ["--fp-namespace", "generated"], None
    if x < .6:
        o["ns"], o["val"] = "fixed", fixed or r.choice(["nw", "a/b", "Acc_1", "x+y", "deep/er/ns", "A", "0", "a b", "n-s", "x.y"] if r.random() < .3 else ["nw", "a/b", "Acc_1", "x+y", "Zz9"])
        return o, ["--fp-namespace", "fixed:" + o["val"]], None
    if x < .8:
        o["ns"] = "account"
        return o, ["--fp-namespace", "account-name"], None
    o["ns"] = "lookup"
    look = [[acct, r.choice(["look", "l/k", "L_1"])], ["other", "o1"], [acct + "x", "o2"], ["Current", "cur"]]
    if r.random() < .3:      # no entry for the account, perhaps one that resembles it
        look = look[1:3] + [[k, "near"] for k in {r.choice([acct.lower(), acct.upper(), acct.swapcase(), acct + " ", " " + acct, acct[:-1], acct[1:], acct.title(), "", acct.replace(" ", "")])} if k != acct and r.random() < .6]
    look = [list(t) for t in dict((k, [k, v]) for k, v in look[::-1]).values()]
    r.shuffle(look)
    o["look"] = look
    return o, ["--fp-namespace", "lookup:lk.ron"], "{" + ", ".join('"%s": "%s"' % tuple(kv) for kv in look) + "}"
def ns_of(o, acct):
    if o["ns"] == "fixed": return o["val"]
    if o["ns"] == "account": return acct
    if o["ns"] == "generated": return F.h(F.generated(acct))[:8]
    return dict(map(tuple, o["look"])).get(acct, "")

# ---------- Nationwide CSV ----------
def related(r, a, b):
    """Two texts of which one is, starts, ends or resembles the other."""
    w = a.split(" ")
    x = r.randrange(7)
    if x == 0: return a, a
    if x == 1: return a, w[0]
    if x == 2: return a, w[-1]
    if x == 3: return (a + " " + b).strip(), b
    if x == 4: return (b + " " + a).strip(), b
    if x == 5: return a, a.swapcase()
    return a, (a + " " + b).strip()
def nw_rows(r, six, n, texts=TEXTS, ds=None):
    rows, meta = [], []
    bal = r.randint(-5000, 500000)
    ds = ds or days(r, n)
    small = [r.choice(texts) for _ in range(2)]
    for i, d in enumerate(ds):
        if rows and r.random() < .25 and meta[-1]["d"] == d:      # the same again
            rows.append(list(rows[-1])); meta.append(dict(meta[-1])); continue
        p = money(r) if r.random() < .97 else 0
        out = r.random() < .6
        neg = r.random() < .03
        q = -p if neg else p
        bal += -q if out else q
        if r.random() < .06: bal = r.choice([0, 0, 1, -1, -bal])
        t, dsc = (r.choice(TYPES), r.choice(small if r.random() < .5 else texts)) if six else (r.choice(small if r.random() < .5 else texts), r.choice(LOC))
        if six and r.random() < .03: t = ""
        if r.random() < .12: t, dsc = related(r, t, dsc)
        if not six and dsc.strip() and r.random() < .04: t = ""
        row = [stmt.nw_date(*d), t, dsc, stmt.gbp(q) if out else "", "" if out else stmt.gbp(q)] + ([stmt.gbp(bal)] if six else [])
        rows.append(row)
        meta.append({"d": d, "t": t, "x": dsc, "out": Decimal(q) / 100 if out else None, "in": None if out else Decimal(q) / 100, "bal": Decimal(bal) / 100})
    return rows, meta
def q2(x): return None if x is None else x.quantize(Decimal("0.01"))
def nw_hashes(six, meta, legacy, acct, o):
    hs = [F.entry(F.generated(acct))]
    ctr, prev = 0, None
    for m in meta:
        ctr = ctr + 1 if m["d"] == prev else 0
        prev = m["d"]
        out, inn, bal = q2(m["out"]), q2(m["in"]), q2(m["bal"])
        for half in ("self", "peer"):
            hs.append(F.entry(F.nw6(m["t"], m["d"], ctr, m["x"], out, inn, bal, half) if six else F.nw5(m["d"], ctr, m["t"], m["x"], out, inn, half)))
            if six and legacy:
                a = inn if out is None else -out
                acc = "assets:unknown" if half == "self" else "expenses:unknown" if a.is_signed() else "income:unknown"
                hs.append(F.entry(F.nw6_legacy(m["t"], m["d"], bal, ctr, acc, a if half == "self" else -a)))
    return hs

NWFAULTS = [(0, v) for v in BADDATES] + [(k, v) for k in (34, 34, 5, 1) for v in BADGBP]
def damage_nw(r, rows, six, pre):
    """One or two faults, in place."""
    for _ in range(r.choice([1, 1, 1, 2])):
        if len(rows) < 4: break
        x = r.random()
        body = rows[4:]
        if x < .5 and body:
            row = r.choice(body)
            k = r.choice([0, 0, 3, 3, 4, 5 if six else 4, 3])
            if k >= len(row) or len(row) < 5: continue
            if k == 0: row[0] = r.choice(BADDATES)
            elif k == 5: row[5] = r.choice(BADGBP)
            else:
                v = r.choice(BADGBP)
                if r.random() < .8 and (row[3] == "") != (row[4] == ""): k = 3 if row[3] else 4
                row[k] = v
        elif x < .72 and body:
            row = r.choice(body)
            y = r.randrange(6)
            if len(row) < 5: continue       # damaged before
            if y == 0: row[3:5] = r.choice([["\u00a31.00", "\u00a31.00"], ["\u00a31.00", "\u00a30.00"], ["\u00a30.00", "\u00a31.00"], ["\u00a30.00", "\u00a30.00"], ["\u00a31.00", "\u00a3-1.00"],
                                            [row[3] or "\u00a30.00", row[4] or "\u00a30.00"]])
            elif y == 1: row[3:5] = ["", ""]
            elif y == 2: row.append(r.choice(["", "x", "\u00a31.00"]))
            elif y == 3: row.pop(r.randrange(len(row)))
            elif y == 4: row[:] = [r.choice(["", "Total", "x"])]
            else: row[3:5] = ["\u00a30.00", "\u00a31.00"]
        elif x < .82:
            h = rows[3]
            y = r.randrange(7)
            if len(h) < 2: continue
            if y == 0: h[r.randrange(len(h))] = r.choice(["date", "Paid Out", "", "Amount", "Balance "])
            elif y == 1: h.pop(r.randrange(len(h)))
            elif y == 2: h.append(r.choice(["Balance", "", "x"]))
            elif y == 3:
                i, j = r.sample(range(len(h)), 2); h[i], h[j] = h[j], h[i]
            elif y == 4: del rows[3]
            elif y == 5: rows[3] = list(stmt.H5 if six else stmt.H6)
            else: h[:] = [c.upper() if r.random() < .5 else c + ":" for c in h]
        elif x < .92:
            i = r.randrange(3)
            y = r.randrange(5)
            if i >= len(rows): continue
            if y == 0: rows[i][0] = r.choice(["Account Name", "account name:", "Account Balance:", "Available Balance:", "", "Balance:"])
            elif y == 1 and len(rows[i]) > 1: rows[i][1] = r.choice(BADGBP)
            elif y == 2: rows[i].append("x")
            elif y == 3: rows[i].pop()
            else: del rows[i]
        else:
            y = r.randrange(3)
            if y == 0: del rows[r.randrange(1, max(2, len(rows))):]
            elif y == 1: rows.insert(r.randrange(len(rows) + 1), [r.choice(["x", "Date", "1"])])
            else: r.shuffle(rows)
        rows[:] = [w for w in rows if w]

def busy(r, sid):
    """How many transactions there are in one day (or moment), where there are many."""
    return 270 if sid.endswith("-huge") else r.choice([11, 13, 20, 40]) if r.random() < .025 else 0
def gen_nw(r, sid, bad):
    six = r.random() < .55
    acct = r.choice(ACCTS)
    n = r.choice([0, 1, 2, 3, 5, 8])
    b = busy(r, sid)
    ds = days(r, n)
    if b: ds = ds[:1] + [days(r, 1)[0]] * b + ds[1:3]
    body, meta = nw_rows(r, six, len(ds), ds=ds or None)
    o, args, look = ns_opts(r, acct)
    o["legacy"] = r.random() < .35
    rows = [["Account Name:", acct], ["Account Balance:", stmt.gbp(r.randint(-10 ** 6, 10 ** 7))], ["Available Balance:", stmt.gbp(r.randint(0, 10 ** 7))],
            list(stmt.H6 if six else stmt.H5)] + body
    if bad and ordinal(sid) is not None and body:
        k, v = NWFAULTS[ordinal(sid) % len(NWFAULTS)]
        row = r.choice(body)
        if k == 34: row[3 if row[3] else 4] = v
        elif k == 5 and not six: row[4 if row[3] else 3] = v
        elif k == 1: rows[r.choice([1, 2])][1] = v
        else: row[k] = v
    elif bad: damage_nw(r, rows, six, 4)
    hs = nw_hashes(six, meta, o["legacy"], acct, o)
    if rows and len(rows[0]) > 1: hs.append(F.entry(F.generated(rows[0][1].strip(" "))))
    return {"id": sid, "imp": "nw", "rows": rows, "tz": [["-"]], "opt": o, "h": hs, "strict": not bad, "ordered": not bad and contiguous([m["d"] for m in meta])}, \
        {"args": args + (["--include-legacy-fingerprint"] if o["legacy"] else []), "look": look}

# ---------- PayPal CSV ----------
def off_min(s):
    m = re.fullmatch(r"UTC([-+])(\d\d)(?::(\d\d))?", s)
    return (-1 if m.group(1) == "-" else 1) * (int(m.group(2)) * 60 + int(m.group(3) or 0))
def pp_instants(r, n):
    inst = []
    t = DT.datetime(r.choice([2008, 2019, 2020, 2020, 2023]), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
    if r.random() < .5:       # around changes of the clocks, and ends of years
        t = r.choice([DT.datetime(2020, 3, 29, 0, 30), DT.datetime(2020, 10, 25, 0, 10), DT.datetime(2020, 10, 24, 23, 30), DT.datetime(2019, 12, 31, 22, 0), DT.datetime(2020, 2, 28, 23, 0),
                      DT.datetime(2019, 3, 10, 5, 0), DT.datetime(2021, 11, 7, 4, 0), DT.datetime(2021, 3, 28, 0, 59, 59), DT.datetime(2018, 6, 30, 23, 0), DT.datetime(2018, 7, 1, 4, 0)])
    for _ in range(n):
        if inst and r.random() < .5: inst.append(inst[-1]); continue
        t = t + DT.timedelta(seconds=r.choice([1, 59, 60, 1800, 3600, 7200, 86400, 15 * 3600, 30 * 86400]))
        inst.append(t)
    x = r.random()
    if x < .35: inst.reverse()
    elif x < .45: r.shuffle(inst)
    return inst
def pp_rows(r, n, tz, inst=None):
    zs = [t[0] for t in tz]
    offs = {t[0]: off_min(t[1]) for t in tz}
    inst = inst or pp_instants(r, n)
    rows, meta = [], []
    onez = r.choice(zs) if r.random() < .5 else None
    for i, u in enumerate(inst):
        if rows and r.random() < .15 and inst[i - 1] == u:
            rows.append(dict(rows[-1])); meta.append(dict(meta[-1])); continue
        z = onez or r.choice(zs)
        loc = u + DT.timedelta(minutes=offs[z])
        q = r.choice(["%d.%02d" % divmod(money(r), 100), "%d.%02d" % divmod(money(r), 100), "0.00", "%d" % r.randint(1, 9999), "%d.%d" % (r.randint(0, 99), r.randint(0, 9)), "1234567890123.45", "0.10"])
        if r.random() < .5 and Decimal(q) != 0: q = "-" + q
        b = r.choice(["0.00", "%d.%02d" % divmod(money(r), 100), "-5.10", "100", "0"])
        name = r.choice(PPTEXTS) if r.random() < .75 else ""
        if not name and (not rows or inst[i - 1] != u) and r.random() < .5: name = r.choice(PPTEXTS)
        row = {"Date": loc.strftime("%d/%m/%Y"), "Time": loc.strftime("%H:%M:%S"), "Time zone": z, "Name": name, "Type": r.choice(["Website Payment", "General Currency Conversion", "PreApproved Payment", "Caf\u00e9: x", "x"]),
               "Status": r.choice(["Completed", "Completed", "Pending"]), "Currency": r.choice(["GBP", "GBP", "USD", "EUR", "\u20ac"]), "Amount": q, "Receipt ID": r.choice(["", "", "R-12", "0123"]), "Balance": b}
        rows.append(row)
        meta.append({"u": u, "loc": loc, "z": z, "row": row})
    return rows, meta
def pp_hashes(meta):
    hs, idx, prev = [F.entry(b"")], 0, None
    for m in meta:
        idx = idx + 1 if m["u"] == prev else 0
        prev = m["u"]
        w, l = m["row"], m["loc"]
        for half in ("self", "peer"):
            hs.append(F.entry(F.pp((l.year, l.month, l.day), (l.hour, l.minute, l.second), m["z"], w["Name"], w["Type"], Decimal(w["Amount"]), Decimal(w["Balance"]), w["Currency"], idx, half)))
    return hs

PPFAULTS = [(c, v) for c, l in (("Date", PPDATES), ("Time", PPTIMES), ("Time zone", PPZONES), ("Amount", PPAMTS), ("Balance", PPAMTS), ("Status", PPSTAT), ("Name", [""]), ("tz", TZBAD)) for v in l]
def gen_pp(r, sid, bad):
    tz = r.sample(TZALL, r.choice([1, 2, 3, 5]))
    n = r.choice([0, 1, 2, 3, 5, 8])
    b = busy(r, sid)
    inst = pp_instants(r, n)
    if b: inst = inst[:1] + [(pp_instants(r, 1))[0]] * b + inst[1:3]
    body, meta = pp_rows(r, len(inst), tz, inst or None)
    hdr = list(stmt.HP)
    if r.random() < .3: hdr += r.sample(["Fee", "Net", "Transaction ID"], r.choice([1, 2]))
    if r.random() < .3: r.shuffle(hdr)
    rows = [hdr] + [[w.get(c, "extra") for c in hdr] for w in body]
    o = {"ns": "fixed", "val": "paypal", "look": [["", ""]], "legacy": r.random() < .25, "zone": r.choice(ZONES)}
    args = ["--output-timezone", o["zone"]]
    if r.random() < .5:
        o["val"] = r.choice(["pp", "a/b", "x_1+", "nFP", "P"] if r.random() < .9 else ["a b", "a-b", "x.y"])
        args += ["--fingerprint-namespace", o["val"]]
    if o["legacy"]: args.append("--include-legacy-fingerprint")
    tzrows = [["abbreviation", "utc_offset"]] + [list(t) for t in tz] + [["ZZZ", "UTC+01"]]
    names_ok = True
    if bad:
        for _ in range(r.choice([1, 1, 1, 2])):
            x = r.random()
            b = rows[1:]
            if ordinal(sid) is not None and b:
                c, v = PPFAULTS[ordinal(sid) % len(PPFAULTS)]
                if c == "tz":
                    w = r.choice([w for w in b if len(w) == len(rows[0])] or b)
                    t = [t for t in tzrows[1:] if t[0] == w[rows[0].index("Time zone")]] if "Time zone" in rows[0] and len(w) == len(rows[0]) else []
                    (t or tzrows[1:])[0][1] = v
                else: r.choice(b)[rows[0].index(c)] = v
                break
            elif x < .7 and b:
                w = r.choice(b)
                c = r.choice(["Date", "Date", "Time", "Time zone", "Amount", "Amount", "Balance", "Status", "Name"])
                if c not in rows[0] or rows[0].index(c) >= len(w): continue
                w[rows[0].index(c)] = r.choice({"Date": PPDATES, "Time": PPTIMES, "Time zone": PPZONES, "Amount": PPAMTS, "Balance": PPAMTS, "Status": PPSTAT, "Name": [""]}[c])
            elif x < .78 and b:
                w = r.choice(b)
                if not w: continue
                if r.random() < .5: w.append("x")
                else: w.pop()
            elif x < .86:
                if not rows or not rows[0]: continue
                y = r.randrange(4)
                c = r.randrange(len(rows[0]))
                if y == 0: rows[0][c] = r.choice(["date", "Curr", "", "TimeZone", "Amount "])
                elif y == 1 and len(rows) > 1:
                    for w in rows: w.pop(c) if c < len(w) else None
                elif y == 2: rows.pop(0)
                else: rows[0].pop(c)
            else:
                y = r.choice([0, 1, 1, 1, 2, 2, 3, 4])
                t = r.choice(tzrows[1:])
                if len(t) < 2: continue
                if y == 0: tzrows.append([t[0], r.choice([t[1], "UTC+02"])])
                elif y in (1, 2): t[1] = r.choice(TZBAD)
                elif y == 3: t.append("x")
                else: tzrows[0] = r.choice([["abbr", "utc_offset"], ["abbreviation"], ["utc_offset", "abbr"], ["Abbreviation", "UTC_Offset"]])
        rows[:] = [w for w in rows if w]
    elif r.random() < .3 and len(tzrows) > 2: tzrows = [tzrows[0]] + r.sample(tzrows[1:], len(tzrows) - 1)
    us = [m["u"] for m in meta]
    return {"id": sid, "imp": "pp", "rows": rows, "tz": tzrows, "opt": o, "h": pp_hashes(meta), "strict": not bad, "ordered": not bad and contiguous(us)}, {"args": args, "look": None}

# ---------- Nationwide PDF ----------
PWORDS = ["Tesco", "Stores", "CARD", "12345678", "Caf\u00e9", '"quoted', 'x"', "to", "J", "SMITH", "a:b", "100", "&", "LONDON", "Direct", "debit", "GB", "10.00", "x,y", "Date", "Balance", "2019", "it\u2019s", "-", "Effective", "=1"]
def pdf_amount(r):
    p = money(r)
    s = "%d" % (p // 100)
    if r.random() < .75:
        while re.search(r"\d{4}", s.split(",")[0]): s = re.sub(r"^(\d+)(\d{3})", r"\1,\2", s)
    return s + ".%02d" % (p % 100), Decimal(p) / 100

FAULTS = {"head": ["date", "Detail", "Balance:", ""], "nodate": [1, 2], "noyear": [1, 2], "none": [1, 2, 3], "edate": BADDATES,
    "year": ["20l9", "1979", "2101", "2100", "1980", "19", "year", "-2020", "2020.", "02020", "2999", "1899"],
    "day": [["32", "Jan"], ["31", "Feb"], ["1", "Jan"], ["l1", "Jan"], ["01", "Jam"], ["01", "JAN"], ["01", "Jan", "x"], ["01", "January"], ["Jan", "01"], ["00", "Jan"], ["29", "Feb"], ["001", "Jan"], ["01", "jan"], ["+1", "Jan"], ["31", "Apr"], ["01", "Sept"], ["x"], ["01"]],
    "amount": ["1234,567.00", "1,234,56.00", "1,234.567,00", "1.2.3", "1,00", "12,34", "l0.00", "1,0000.00", "10,00.00", "-5.00", "5.00-", "\u00a35.00", "1,234", "O.50", ",100.00", "1.000,00", "5.00DR", "1_000.00", "0.00", "12.3", "100", ".50", "7.", "1,2345", "1 2", "5.00CR", "+5.00", "5.000", "1e2", "(5.00)"],
    "balance": ["1234,567.00", "1,00", "x", "1.2.3", "12,345.6.7", "-1,234.50", "OD", "10,0.00", "1,234.56CR", "1,234.56OD", "-0.00", "5.0", "1_0.00", "+1.00"],
    "both": [0, 1, 2, 3, 4, 5], "two": [1, 2],
    "account": [["Account", "Number", "12-3456", "A"], ["Account", "number", "S", "A"], ["Account", "Number:", "S", "A"], ["Account", "Number", "S", "1234567"], ["Account", "Number", "S"], ["Account", "Number", "Sx", "A"],
        ["Account", "Numbers", "S", "A"], ["Account", "No", "S", "A"], ["account", "Number", "S", "A"], ["Accounts", "Number", "S", "A"], ["Your", "Account", "Number", "S", "A"], ["Account", "Number", "1S", "A"], ["Account", "Number", "S", "A9"],
        ["Account", "Number", "12", "34", "56", "A"], ["Account", "Number", "A", "S"], ["Account", "Number", "S", "1234567x"]]}
FAULTS1 = [(c, v) for c in FAULTS for v in FAULTS[c]]
def ordinal(sid):
    """Every other ill-formed statement has just one fault, in turn one of all those there are."""
    m = re.search(r"-b(\d+)$", sid)
    return int(m.group(1)) // 2 if m and int(m.group(1)) % 2 == 0 else None
class Pdf:
    """A statement as pages of blocks of paragraphs of lines of words with places."""
    def __init__(self, r, sid, bad):
        self.r, self.bad = r, bad
        self.sid = sid
        self.trns = []       # what a well-formed statement means
        self.pages = []
        self.prev, self.ctr = None, 0
        self.busy = busy(r, sid)
        self.want, self.left, self.val, self.only = r.choice(sorted(FAULTS)), r.choice([1, 1, 2]), None, False
        k = ordinal(sid)
        if bad and k is not None:
            self.want, self.val = FAULTS1[k % len(FAULTS1)]
            self.left, self.only = 1, True
    def w(self, l, rr, x): return [l, rr, x]
    def spread(self, a, b, words):
        """words between a and b."""
        r = self.r
        res, n = [], len(words)
        if not n: return res
        step = (b - a) // n
        for i, x in enumerate(words):
            l = a + i * step + r.randint(0, max(0, step // 6)); e = min(b, a + (i + 1) * step - r.randint(0, max(0, step // 6)))
            res.append([l, max(l + 1, e), x])
        return res
    def fault(self, c):
        """Whether to go wrong here in the way c: mostly in the way this statement was to go wrong."""
        if not self.bad or self.r.random() >= (.4 if c == self.want and self.left else 0 if self.only else .008): return False
        self.left -= 1
        return True
    def pick(self, c):
        return self.val if c == self.want and self.val is not None else self.r.choice(FAULTS[c])
    def table(self, days, first):
        r = self.r
        j = lambda: r.randint(-8, 8)
        x = {"date": 100 + j(), "dend": 190 + j(), "det": 300 + j(), "pay": 1000 + j(), "rec": 1300 + j(), "bal": 1600 + j(), "bend": 1800 + j()}
        h = r.choice([30, 40])
        lines = []
        top = r.randint(100, 400)
        head = [[x["date"], x["dend"], "Date"], [x["det"], x["det"] + 120, "Details"], [x["pay"], x["pay"] + 150, "Payments"], [x["rec"], x["rec"] + 150, "Receipts"], [x["bal"], x["bend"], "Balance"]]
        if self.fault("head"): head[r.randrange(5)][2] = self.pick("head")
        if r.random() < .08: head.append([x["bend"] + 50, x["bend"] + 90, "\u00a3"])
        if r.random() < .4:
            for _ in range(r.choice([1, 2])):
                lines.append({"t": top, "h": h, "ws": self.spread(100, 1500, r.sample(PWORDS, 3))}); top += h + 5
        lines.append({"t": top, "h": h, "ws": head})
        top += h + 5
        def line(dw, det, pay, rec, bal, skip=0):
            nonlocal top
            ws = []
            if len(dw) == 1: ws.append([x["date"] + r.randint(0, 20), x["dend"] - r.randint(0, 20), dw[0]])
            elif dw:
                step = (x["dend"] - x["date"]) // len(dw)
                for i, t in enumerate(dw): ws.append([x["date"] - 3 + i * step + 3, x["date"] + (i + 1) * step - 2 + (5 if i == len(dw) - 1 else 0), t])
            ws += self.spread(x["det"], x["pay"], det)
            ws += self.spread(x["pay"], x["rec"], pay)
            ws += self.spread(x["rec"], x["bal"], rec)
            ws += self.spread(x["bal"], x["bend"], bal)
            top += skip
            lines.append({"t": top, "h": h, "ws": ws})
            top += r.choice([h + 2, h + h // 2, 2 * h - 1, 2 * h])
            if r.random() < .06: top = lines[-1]["t"]
        year = None
        nodates = self.fault("nodate")
        if self.trns and r.random() < (.1 if days else .6):      # the last transaction of the table before goes on
            ws = r.sample(PWORDS, r.choice([1, 2]))
            if ws[0] == "Effective": ws = ["x"]
            line([], ws, [], [], [])
            self.trns[-1]["desc"] += " " + " ".join(ws)
        for d in days:
            y, m, dd = d
            if y != year:
                ys = "%d" % y
                if self.fault("year"): ys = self.pick("year")
                if not self.fault("noyear"): line([ys], r.choice([[], ["Balance", "brought", "forward"]]), [], [], r.choice([[], ["1,234.56"]]))
                year = y
            n = r.choice([1, 1, 2, 3])
            if self.busy: n, self.busy = self.busy, 0
            for k in range(n):
                dw = []
                if k == 0 and not nodates:
                    dw = ["%02d" % dd, stmt.MON[m - 1]]
                    if self.fault("day"):
                        dw = self.pick("day")
                s, q = pdf_amount(r)
                if self.fault("amount"):
                    s = self.pick("amount")
                out = r.random() < .6
                desc = r.sample(PWORDS, r.choice([1, 2, 3, 4]))
                if desc[0] in ("=1",): desc[0] = "Tesco"
                if desc[:2] == ["Effective", "Date"]: desc[1] = "x"
                if k and n > 3 and r.random() < .7: s, q, out, desc = again     # the same again
                again = s, q, out, desc
                bal, bq = ([], None)
                if r.random() < (.9 if self.want == "balance" and self.bad else .5):
                    bs, bq = pdf_amount(r); bal = [bs]
                    if self.fault("balance"): bal = [self.pick("balance")]
                if r.random() < .03: bq = None; bal = []
                pay, rec = ([s], []) if out else ([], [s])
                if self.fault("both"): pay, rec = [([s], [s]), ([s], ["0.00"]), (["0.00"], [s]), ([s], ["5.00"]), ([s], ["x"]), (["0.00"], ["0.00"])][self.pick("both")]
                if self.fault("two"): pay, rec = ([s, "5.00"], []) if out else ([], [s, "5.00"])
                # An amount without details is not a transaction.
                line(dw, desc, pay, rec, bal)
                self.ctr = self.ctr + 1 if self.prev == d else 0
                self.prev = d
                t = {"d": d, "ctr": self.ctr, "q": -q if out else q, "desc": " ".join(desc), "n": 1}
                self.trns.append(t)
                while r.random() < (.7 if self.want == "edate" and self.left > 0 and self.bad else .35):
                    y2 = r.random()
                    cb = []
                    if r.random() < .15: cb = [pdf_amount(r)[0]]
                    if y2 < .35:
                        e = stmt.nw_date(y, r.randint(1, 12), r.randint(1, 28))
                        if self.fault("edate"): e = self.pick("edate")
                        line([], ["Effective", "Date"] + e.split(" "), [], [], cb)
                    else:
                        ws = r.sample(PWORDS, r.choice([1, 2]))
                        if ws[0] == "Effective": ws = ["x"]
                        line([], ws, [], [], cb)
                        t["desc"] += " " + " ".join(ws)
        if lines[-1]["ws"] != head and r.random() < .4:      # below the table
            top = lines[-1]["t"] + 2 * lines[-1]["h"] + r.choice([1, 1, 5, 100])
            for _ in range(r.choice([1, 2])):
                line([], r.sample(PWORDS, 2), r.choice([[], ["9.99"]]), r.choice([[], [], ["8.88"]]), r.choice([[], ["7.77"]]))
        return lines
    def text(self, acct=None):
        r = self.r
        ls, top = [], r.randint(0, 50)
        for _ in range(r.choice([1, 2, 3])):
            ls.append({"t": top, "h": 30, "ws": self.spread(100, 1500, r.sample(PWORDS, r.choice([1, 3, 5])))}); top += 35
        if r.random() < .15:      # not quite an account number
            ws = r.choice([["Account", "Numbers", "11-22-33", "44556677"], ["Account", "No", "11-22-33", "44556677"], ["Account", "Number", "112233", "44556677"], ["Account", "Number", "11-22-33", "4455667"],
                           ["account", "number", "11-22-33", "44556677"], ["Account", "Number", "11-22-33"], ["Other", "Account", "Number", "11-22-33", "44556677"], ["Account", "Number", "11-22-33", "44556677x"],
                           ["Account", "Name", "11-22-33", "44556677"], ["Accounts", "Number", "11-22-33", "44556677"], ["Account", "Number", "11-22-333", "44556677"], ["Account", "Number", "is", "11-22-33", "44556677"]])
            ls.insert(r.randint(0, len(ls)), {"t": top, "h": 30, "ws": self.spread(100, 1500, ws)})
        if acct:
            ws = ["Account", "Number", acct[0], acct[1]]
            if self.fault("account"): ws = [w.replace("S", acct[0]) if w[-1:] in "Sx" or w[:1] == "S" else w.replace("A", acct[1]) if w in ("A", "A9") else w for w in self.pick("account")]
            ls.insert(r.randint(0, len(ls)), {"t": top, "h": 30, "ws": self.spread(100, 1500, ws + r.choice([[], ["x"]]))})
        return ls
    def decoy(self):
        """What looks like a table, but has not quite its header."""
        r = self.r
        x, top, h, ls = [100, 300, 1000, 1300, 1600], r.randint(100, 400), 30, []
        head = ["Date", "Details", "Payments", "Receipts", "Balance"]
        y = r.random()
        if y < .6: head[r.randrange(5)] = r.choice(["date", "DATE", "Detail", "Balances", "Total", "Date", "Payments"] if y < .3 else ["Dated", "Money", "x"])
        elif y < .75: head.pop(r.randrange(5))
        elif y < .9:
            i = r.randrange(4); head[i], head[i + 1] = head[i + 1], head[i]
        else: head = ["Your"] + head[:4] + ["Balance"]
        if head == ["Date", "Details", "Payments", "Receipts", "Balance"]: head[4] = "Balanced"
        for ws in [head, ["2013"], [["01", "Feb"], "Shop", "1.00", "", "5.00"], ["", "Refund", "", "2.00", ""]][:r.choice([1, 3, 4, 4])]:
            l = {"t": top, "h": h, "ws": []}
            for i, w in enumerate(ws):
                if isinstance(w, list): l["ws"] += [[x[i] + 50 * k, x[i] + 50 * k + 40, q] for k, q in enumerate(w)]
                elif w: l["ws"].append([x[i] if i < 5 else 1900, (x[i] if i < 5 else 1900) + 90, w])
            ls.append(l); top += h + 5
        return ls
    def build(self):
        r = self.r
        acct = ["%02d-%02d-%02d" % (r.randint(0, 99), r.randint(0, 99), r.randint(0, 99)), "%08d" % r.randint(0, 99999999)]
        np = r.choice([1, 1, 2, 3])
        long = r.random() < .02
        if long: np = r.choice([11, 12, 14])
        ds = sorted(set(days(r, 2 * np if long else r.choice([1, 2, 3, 5]))))
        if r.random() < .15: r.shuffle(ds)
        cuts = sorted(r.randint(0, len(ds)) for _ in range(np - 1))
        parts = [ds[a:b] for a, b in zip([0] + cuts, cuts + [len(ds)])]
        for i, part in enumerate(parts):
            paras = [self.text(acct if i == 0 or r.random() < .4 else None)]
            if r.random() < .5: paras.append(self.text())
            k = r.randint(0, len(part)) if r.random() < .15 else 0
            # a day may go on in the next table
            if part[:k]: paras.append(self.table(part[:k], i == 0))
            paras.append(self.table(part[k:], i == 0) if not (i and part[k:] and r.random() < .25) else self.table([part[k - 1] if k else parts[i - 1][-1] if parts[i - 1] else part[k]] + part[k:], False))
            if r.random() < .4: paras.append(self.text())
            if r.random() < .3: paras.insert(r.randint(1, len(paras)), self.decoy())
            blocks, cur = [], []
            for p in paras:
                cur.append(p)
                if r.random() < .6: blocks.append(cur); cur = []
            if cur: blocks.append(cur)
            self.pages.append(blocks)
        self.acct = acct
        return self
    def records(self):
        recs = []
        def rec(lv, pg, bl, pa, ln, wd, l, t, w, h, x): recs.append({"ok": True, "lv": lv, "pg": pg, "bl": bl, "pa": pa, "ln": ln, "wd": wd, "l": l, "t": t, "w": w, "h": h, "x": x})
        for pi, blocks in enumerate(self.pages, 1):
            rec(1, pi, 0, 0, 0, 0, 0, 0, 2480, 3508, "")
            for bi, paras in enumerate(blocks, 1):
                rec(2, pi, bi, 0, 0, 0, 90, 90, 2000, 1000, "")
                for ai, lines in enumerate(paras, 1):
                    rec(3, pi, bi, ai, 0, 0, 90, 90, 2000, 500, "")
                    for li, ln in enumerate(lines, 1):
                        rec(4, pi, bi, ai, li, 0, 90, ln["t"], 2000, ln["h"], "")
                        for wi, (l, rr, x) in enumerate(ln["ws"], 1):
                            rec(5, pi, bi, ai, li, wi, l, ln["t"] + self.r.randint(-2, 2), rr - l, ln["h"], x)
        return recs
    def hashes(self):
        hs = [F.entry(F.generated(" ".join(self.acct)))]
        for t in self.trns:
            q = q2(t["q"])
            pa = "expenses:unknown" if q.is_signed() else "income:unknown"
            hs.append(F.entry(F.pdf(t["d"], t["ctr"], t["desc"], "assets:unknown", q)))
            hs.append(F.entry(F.pdf(t["d"], t["ctr"], t["desc"], pa, -q)))
        return hs

TSVH = ["level", "page_num", "block_num", "par_num", "line_num", "word_num", "left", "top", "width", "height", "conf", "text"]
def gen_pdf(r, sid, bad):
    p = Pdf(r, sid, bad).build()
    recs = p.records()
    raw = {}
    structural = False
    if bad and not p.only and r.random() < .35:
        structural = True
        i = r.randrange(len(recs)); x = recs[i]
        y = r.randrange(7)
        if y == 0: x["ok"] = False; raw[i] = r.choice(["short", "left", "long", "level"])
        elif y == 1: x["lv"] = r.choice([0, 6, 7, -1])
        elif y == 2: del recs[i]
        elif y == 3: recs.insert(i, dict(recs[i]))
        elif y == 4: x[r.choice(["pg", "bl", "pa", "ln", "wd"])] += r.choice([1, -1, 2])
        elif y == 5: i2 = r.randrange(len(recs)); recs[i], recs[i2] = recs[i2], recs[i]
        else: recs = [q for q in recs if q["lv"] != r.choice([1, 2, 3, 4])] or recs
    o, args, look = ns_opts(r, " ".join(p.acct), fixed=r.choice(["nw", "a/b", "P1"]) if r.random() < .5 else None)
    return {"id": sid, "imp": "pdf", "rows": recs, "tz": [["-"]], "opt": o, "h": p.hashes(), "strict": not bad, "ordered": not bad and contiguous([t["d"] for t in p.trns])}, \
        {"args": args, "look": look, "raw": {str(k): v for k, v in raw.items()}, "tools": "" if not bad or p.only or r.random() < .8 else r.choice(["gm", "tess", "nogm", "notess"]),
         "staged": not structural}

def tsv_line(x, raw, pg=None):
    f = [str(x[k]) for k in ("lv", "pg", "bl", "pa", "ln", "wd", "l", "t", "w", "h")] + ["96" if x["lv"] == 5 else "-1", x["x"]]
    if pg is not None: f[1] = pg
    if raw == "short": f = f[:7]
    elif raw == "left": f[6] = "12.5"
    elif raw == "long": f.append("x")
    elif raw == "level": f[0] = "five"
    return "\t".join(f) + "\n"

# ---------- running ----------
def slim(trns):
    out = []
    for t in trns:
        out.append({"h": t["h"], "ps": [dict(p, amt=p["amt"]["k"], bal=p["bal"]["k"]) for p in t["ps"]]})
    return out

def execute(box, job):
    kind, sid, seed, bad, scn = job
    r = random.Random(seed)
    box.fresh()
    if scn is not None: it, aux = from_spec(scn, r, sid)
    else: it, aux = {"nw": gen_nw, "pp": gen_pp, "pdf": gen_pdf}[kind](r, sid, bad)
    return run_item(box, it, aux, r)

def run_item(box, it, aux, r):
    rep = {"args": None, "files": {}}
    def put(n, b):
        box.write(n, b)
        rep["files"][n] = b.decode("latin-1") if isinstance(b, bytes) else b
    if aux.get("look"): put("lk.ron", aux["look"])
    imp = it["imp"]
    pad = r.random() < .2
    def csvtext(rows, trim=True, blanks=True):
        eol = r.choice(["\n", "\n", "\r\n"])
        s = ""
        for row in rows:
            fs = []
            for f in row:
                if trim and pad and r.random() < .2: f = r.choice([" ", "  "]) + f + r.choice(["", " "])
                q = any(c in f for c in ',"\r\n') or r.random() < .6 or (len(row) == 1 and not f.strip())
                fs.append('"' + f.replace('"', '""') + '"' if q else f)
            if blanks and r.random() < .08: s += eol
            s += ",".join(fs) + eol
        if r.random() < .15: s = s.rstrip("\r\n")
        return s
    tools = ""
    if imp == "nw":
        put("s.csv", csvtext(it["rows"]).encode("cp1252"))
        args = ["nationwide-csv", "s.csv"] + aux["args"]
    elif imp == "pp":
        put("s.csv", csvtext(it["rows"]).encode("utf-8"))
        put("tz.csv", csvtext(it["tz"], trim=False).encode("utf-8"))
        args = ["paypal-csv", "s.csv"] + aux["args"] + ["tz.csv"]
    else:
        tools = aux.get("tools", "")
        raw = aux.get("raw", {})
        d = box.dir
        pgs = [x["pg"] for x in it["rows"] if x["lv"] == 1]
        staged = aux.get("staged") and it["rows"] and it["rows"][0]["lv"] == 1 and pgs == list(range(1, len(pgs) + 1)) and not tools
        if staged:
            parts = {}
            for x in it["rows"]: parts.setdefault(x["pg"], []).append(tsv_line(x, None, "@PG@"))
            for k, v in parts.items(): put("page.%d" % (k - 1), "".join(v))
            put("gm", '#!/bin/sh\n[ "$1" = convert ] || exit 3\ni=0\nwhile [ $i -lt %d ]; do f=$(printf "$6" $i); echo $i > "$f"; i=$((i+1)); done\n' % len(pgs))
            put("tess", '#!/bin/sh\nprintf "%s\\n" > "$6.tsv"\nn=1\nwhile read f; do i=$(cat "$f"); sed "s/@PG@/$n/" "%s/page.$i" >> "$6.tsv"; n=$((n+1)); done < "$5"\n' % ("\\t".join(TSVH), d))
        else:
            put("ocr.tsv", "\t".join(TSVH) + "\n" + "".join(tsv_line(x, raw.get(str(i))) for i, x in enumerate(it["rows"])))
            put("gm", '#!/bin/sh\necho 0 > "$(printf "$6" 0)"\n%s' % ("exit 1\n" if tools == "gm" else ""))
            put("tess", '#!/bin/sh\ncat "%s/ocr.tsv" > "$6.tsv"\n%s' % (d, "exit 1\n" if tools == "tess" else ""))
        put("s.pdf", "%PDF-1.4\n")
        for n in ("gm", "tess"): os.chmod(os.path.join(d, n), 0o755)
        gm, te = os.path.join(d, "gm"), os.path.join(d, "tess")
        if tools == "nogm": gm += "-none"
        if tools == "notess": te += "-none"
        args = ["nationwide-pdf", "s.pdf", gm, te] + aux["args"]
    SENT = b"precious\n" if r.random() < .5 else None
    if SENT: box.write("o.j", SENT)
    else: box.unlink("o.j")
    rc, so, se = box.run("import", "-o", "o.j", *args)
    o = box.read("o.j")
    rep["args"], rep["rc"], rep["stderr"] = args, rc, se.decode("utf-8", "replace")[-400:]
    obs = {"ok": rc == 0, "outw": o != SENT, "parsed": True, "trns": []}
    if rc == 0:
        try: obs["trns"] = slim(J.parse((o or b"").decode("utf-8")))
        except (J.ParseError, UnicodeDecodeError) as e: obs["parsed"] = False; rep["why"] = str(e)
        rep["out"] = (o or b"").decode("utf-8", "replace")
    if tools:      # the OCR did not work: nothing to import
        it = dict(it, rows=[{"ok": False, "lv": 0, "pg": 0, "bl": 0, "pa": 0, "ln": 0, "wd": 0, "l": 0, "t": 0, "w": 0, "h": 0, "x": ""}])
    it = dict(it, obs=obs)
    return it, rep

# ---------- scenarios of the specification ----------
def parse_nw_date(x):
    m = re.fullmatch(r"(\d\d) (\w{3}) (\d{4})", x)
    return (int(m.group(3)), stmt.MON.index(m.group(2)) + 1, int(m.group(1)))
def dgbp(x): return Decimal(x.strip("\u00a3").replace("\u00a3", "")) if x else None
def spec_nw(scn, r, sid):
    six, rows = scn["six"], [list(w) for w in scn["rows"]]
    acct = r.choice(ACCTS)
    o, args, look = ns_opts(r, acct)
    o["legacy"] = scn["legacy"]
    meta = []
    for w in rows:
        if len(w) != (6 if six else 5) or (w[3] == "") == (w[4] == "") or not all(re.fullmatch("\u00a3-?\\d+\\.\\d\\d", x) for x in w[3:] if x): break
        try: DT.date(*parse_nw_date(w[0]))
        except ValueError: break
        meta.append({"d": parse_nw_date(w[0]), "t": w[1], "x": w[2], "out": dgbp(w[3]), "in": dgbp(w[4]), "bal": dgbp(w[5]) if six else None})
    hs = nw_hashes(six, meta, o["legacy"], acct, o)
    rows = [["Account Name:", acct], ["Account Balance:", "\u00a31.00"], ["Available Balance:", "\u00a30.50"], list(stmt.H6 if six else stmt.H5)] + rows
    return {"id": sid, "imp": "nw", "rows": rows, "tz": [["-"]], "opt": o, "h": hs, "strict": True, "ordered": contiguous([m["d"] for m in meta])}, \
        {"args": args + (["--include-legacy-fingerprint"] if o["legacy"] else []), "look": look}
def spec_pp(scn, r, sid):
    rows = [list(w) for w in scn["rows"]]
    hdr = rows[0]
    offs = {t[0]: off_min(t[1]) for t in scn["tz"]}
    meta = []
    for w in rows[1:]:
        d = dict(zip(hdr, w))
        loc = DT.datetime.strptime(d["Date"] + " " + d["Time"], "%d/%m/%Y %H:%M:%S")
        meta.append({"u": loc - DT.timedelta(minutes=offs[d["Time zone"]]), "loc": loc, "z": d["Time zone"], "row": d})
    if r.random() < .3:
        perm = list(range(len(hdr))); r.shuffle(perm)
        rows = [[w[k] for k in perm] for w in rows]
    o = {"ns": "fixed", "val": r.choice(["pp", "a/b"]), "look": [["", ""]], "legacy": r.random() < .2, "zone": scn["zone"]}
    args = ["--output-timezone", o["zone"], "--fingerprint-namespace", o["val"]] + (["--include-legacy-fingerprint"] if o["legacy"] else [])
    return {"id": sid, "imp": "pp", "rows": rows, "tz": [["abbreviation", "utc_offset"]] + [list(t) for t in scn["tz"]], "opt": o, "h": pp_hashes(meta),
            "strict": True, "ordered": contiguous([m["u"] for m in meta])}, {"args": args, "look": None}
def lay_pdf(lines, r, sid, acct):
    """Logical lines into words with places."""
    p = Pdf(r, sid, False)
    p.acct = acct
    tables, h, x = [], 0, {}
    for e in lines:
        if e["new"]:
            h = r.choice([20, 33, 40])
            j = lambda: r.randint(-8, 8)
            x = {"date": 100 + j(), "dend": 190 + j(), "det": 300 + j(), "pay": 1000 + j(), "rec": 1300 + j(), "bal": 1600 + j(), "bend": 1800 + j()}
            top = r.randint(100, 400)
            tables.append([{"t": top, "h": h, "ws": [[x["date"], x["dend"], "Date"], [x["det"], x["det"] + 120, "Details"], [x["pay"], x["pay"] + 150, "Payments"], [x["rec"], x["rec"] + 150, "Receipts"], [x["bal"], x["bend"], "Balance"]]}])
            top += r.choice([h + 5, 5 * h])
        else: top += 2 * h + (1 if e["gap"] else 0)
        l = e["l"]
        ws = p.spread(x["date"] + 1, x["dend"], l["dw"])
        for a, b, t in (("det", "pay", l["det"]), ("pay", "rec", l["pay"]), ("rec", "bal", l["rec"]), ("bal", "bend", l["bal"])):
            ws += p.spread(x[a], x[b], t.split(" ") if t else [])
        tables[-1].append({"t": top, "h": h, "ws": ws})
    page = []
    for i, t in enumerate(tables):
        if i and r.random() < .5: p.pages.append([page] if r.random() < .5 else [[q] for q in page]); page = []
        if not i: page.append(p.text(p.acct))
        page.append(t)
    p.pages.append([page])
    return p
def spec_pdf(scn, r, sid):
    p = lay_pdf(scn["lines"], r, sid, ["12-34-56", "%08d" % r.randint(0, 99999999)])
    p.trns = [{"d": (t["d"] // 10000, t["d"] // 100 % 100, t["d"] % 100), "ctr": t["ctr"], "desc": t["desc"], "q": Decimal(t["q"])} for t in scn["trns"]]
    o, args, look = ns_opts(r, " ".join(p.acct), fixed="nw")
    return {"id": sid, "imp": "pdf", "rows": p.records(), "tz": [["-"]], "opt": o, "h": p.hashes(), "strict": True, "ordered": contiguous([t["d"] for t in p.trns])}, \
        {"args": args, "look": look, "raw": {}, "tools": "", "staged": True}
def spec_field(scn, r, sid):
    """A statement in which one field is the given text."""
    f, x = scn["field"], scn["s"]
    for _ in range(50):
        if f in ("gbp", "nwdate"):
            it, aux = gen_nw(r, sid, False)
            body = it["rows"][4:]
            if f == "nwdate":
                if not body: continue
                r.choice(body)[0] = x
            else:
                y = r.random()
                if y < .1: it["rows"][r.choice([1, 2])][1] = x
                elif not body: continue
                else:
                    w = r.choice(body)
                    k = 5 if len(w) == 6 and y < .3 else 3 if w[3] else 4
                    w[k] = x
        elif f in ("dec", "ppdate", "pptime", "offset"):
            it, aux = gen_pp(r, sid, False)
            body = it["rows"][1:]
            if f == "offset":
                r.choice(it["tz"][1:])[1] = x
            else:
                if not body: continue
                r.choice(body)[it["rows"][0].index({"dec": r.choice(["Amount", "Balance"]), "ppdate": "Date", "pptime": "Time"}[f])] = x
        else:
            it, aux = gen_pdf(r, sid, False)
            ks = [k for k, w in enumerate(it["rows"]) if w["lv"] == 5 and re.fullmatch(r"[\d,]+\.\d\d", w["x"]) and w["l"] > 990]
            if not ks: continue
            it["rows"][r.choice(ks)]["x"] = x
        it["strict"] = it["ordered"] = False
        return it, aux
    raise AssertionError(f)
def from_spec(scn, r, sid):
    return {"nw": spec_nw, "pp": spec_pp, "pdf": spec_pdf, "field": spec_field}[scn["kind"]](scn, r, sid)
