"""Statements as bytes: CSV quoting, Nationwide and PayPal files, and a few well-formed random ones."""
import random
MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
H5 = ["Date", "Transactions", "Location", "Paid out", "Paid in"]
H6 = ["Date", "Transaction type", "Description", "Paid out", "Paid in", "Balance"]
HP = ["Date", "Time", "Time zone", "Name", "Type", "Status", "Currency", "Amount", "Receipt ID", "Balance"]

def csv_field(s, r=None):
    need = any(c in s for c in ',"\r\n')
    if need or r is None or r.random() < .7: return '"' + s.replace('"', '""') + '"'
    return s

def csv_row(fs, r=None, eol="\n"):
    return ",".join(csv_field(f, r) for f in fs) + eol

def nw_csv(acct, bal, avail, headers, rows, r=None, labels=None, blank=True, enc="cp1252", eol="\n"):
    labels = labels or ["Account Name:", "Account Balance:", "Available Balance:"]
    s = csv_row([labels[0], acct], r, eol) + csv_row([labels[1], bal], r, eol) + csv_row([labels[2], avail], r, eol)
    if blank: s += eol
    s += csv_row(headers, r, eol)
    for row in rows: s += csv_row(row, r, eol)
    return s.encode(enc)

def pp_csv(rows, r=None, headers=HP, eol="\n"):
    return (csv_row(headers, r, eol) + "".join(csv_row(x, r, eol) for x in rows)).encode("utf-8")

def gbp(pence):
    return "\u00a3%s%d.%02d" % ("-" if pence < 0 else "", abs(pence) // 100, abs(pence) % 100)

def nw_date(y, m, d): return "%02d %s %04d" % (d, MON[m - 1], y)
