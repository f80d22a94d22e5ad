"""Byte strings that the specification may ask to be hashed. Only offers candidates: Fingerprint.tla says which bytes count."""
import base64, hashlib, struct
from decimal import Decimal

def u32(n): return struct.pack(">i", n)
def u64(n): return struct.pack(">Q", n)
def s(x):
    b = x.encode("utf-8"); return u64(len(b)) + b
def date(y, m, d): return u64(12) + u32(y) + u32(m) + u32(d)
def time(h, m, x): return u64(16) + u32(h) + u32(m) + u32(x) + u32(0)
def dec(q):
    """q: Decimal; sign, scale and mantissa little-endian."""
    sign, digits, exp = q.as_tuple()
    scale = max(0, -exp)
    m = int("".join(map(str, digits))) * (10 ** exp if exp > 0 else 1)
    return bytes([0, 0, scale, 128 if sign else 0]) + m.to_bytes(12, "little")
def amount(q, name): return u64(17 + len(name.encode())) + dec(q) + b"\x01" + s(name)
def opt(q, name="GBP"): return b"\x00" if q is None else b"\x01" + amount(q, name)
def norm(q):
    if q == 0: return Decimal("0")
    t = q.normalize()
    return t if t.as_tuple().exponent <= 0 else Decimal(format(t, "f"))
def h(b): return base64.b64encode(hashlib.sha1(b).digest()).decode().rstrip("=")
def entry(b): return {"p": list(b), "b": h(b)}

def generated(acct): return s("Nationwide") + s(acct)
def nw5(d, ctr, trans, loc, out, inn, half): return date(*d) + u32(ctr) + s(trans) + s(loc) + opt(out) + opt(inn) + s(half)
def nw6(typ, d, ctr, desc, out, inn, bal, half):
    return s(typ) + date(*d) + u32(ctr) + s(desc) + opt(out) + opt(inn) + amount(bal, "GBP") + s(half)
def nw6_legacy(typ, d, bal, ctr, acct, amt): return s(typ) + date(*d) + s("") + amount(bal, "GBP") + u32(ctr) + s(acct) + amount(amt, "GBP")
def pp(d, t, tz, name, typ, amt, bal, cur, idx, half):
    return date(*d) + time(*t) + s(tz) + (b"\x01" + s(name) if name else b"\x00") + s(typ) + amount(norm(amt), cur) + amount(norm(bal), cur) + u64(idx) + s(half)
def pdf(d, ctr, desc, acct, amt): return date(*d) + u32(ctr) + s(desc) + s(acct) + amount(amt, "GBP")
