from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
RULE = "SEC encodings of k*G and of liftable x, then left intact or altered (prefix byte, bit flips, x off the curve, coordinates >= p, wrong y, hybrid prefixes, truncation, trailing data, non-hex characters), through every constructor and parser. Also several encodings in turn in one object. Non-trivial: at least 33 bytes of input."
P = R.P
SMALLX = [x for x in range(1, 60) if R.lift(x, 0)]
def _cbrt(a): x = pow(a, (P + 2) // 9, P); return x if pow(x, 3, P) == a % P else None
SMALLY = [(x, y) for y in range(1, 60) for x in [_cbrt(y * y - 7)] if x]
assert SMALLY and all(R.on_curve(p) if hasattr(R, "on_curve") else (p[1] ** 2 - p[0] ** 3 - 7) % P == 0 for p in SMALLY)
@st.composite
def cand(draw):
    k = draw(st.integers(0, 14)); comp = draw(st.booleans())
    if k in (10, 11):     # out of range coordinate that reduces to a valid point
        x = draw(st.sampled_from(SMALLX)); pt = R.lift(x, draw(st.integers(0, 1)))
        if comp: return bytes([2 + (pt[1] & 1)]) + R.b32(P + x)
        return b"\4" + R.b32(P + x) + R.b32(pt[1])
    if k == 14: x, y = draw(st.sampled_from(SMALLY)); return draw(st.sampled_from([b"\4" + R.b32(x) + R.b32(P + y), b"\4" + R.b32(x) + R.b32(P + y), b"\4" + R.b32(x) + R.b32(P - y), b"\4" + R.b32(x) + R.b32(y), R.sec((x, y), True)]))
    pt = R.mulG(draw(secret)) if draw(st.booleans()) else None
    if pt is None:
        x = draw(u256()) % P
        while R.lift(x, 0) is None: x = (x + 1) % P
        pt = R.lift(x, draw(st.integers(0, 1)))
    b = bytearray(R.sec(pt, comp))
    if k <= 3: return bytes(b)
    if k == 4: b[0] = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 255]))
    if k == 5: i = draw(st.integers(0, 8 * len(b) - 1)); b[i // 8] ^= 1 << (i % 8)
    if k == 6: return bytes(b[:draw(st.integers(0, len(b)))])
    if k == 7: return bytes(b) + draw(blob(40))
    if k == 8: return bytes([draw(st.integers(2, 4))]) + draw(st.one_of(digest, u256().map(R.b32))) + draw(digest)
    if k == 9: return b"\4" + R.b32(pt[0]) + R.b32(draw(st.sampled_from([P - pt[1], (pt[1] + 1) % P, P, 2**256 - 1, 0])))
    if k == 12: return bytes([2 + draw(st.integers(0, 1))]) + R.b32(draw(st.sampled_from([0, 5, P - 1, P, P + 1, 2**256 - 1])))
    return bytes(b)
WAYS = ["arr", "hex", "sec", "parse", "phex", "str"]
def need(b): return 65 if b and b[0] == 4 else 33
def verdict(b):
    if b and b[0] not in (2, 3, 4): return "bad", None
    n = need(b)
    if len(b) < n: return "short", None
    r = R.parse_sec(b[:n]); return ("ok", r) if r else ("bad", None)
def c_sec(s, c):
    b = c; v, r = verdict(b)
    for w in WAYS:
        if w == "arr" and len(b) < need(b): continue
        if w in ("hex", "phex", "str") and not b: continue
        for cmd in ("pub", "pt_sec") if w in ("arr", "hex", "sec") else ("pub",):
            x = s(cmd, 0, w, b.hex() or "-"); d = x["d"] if cmd == "pub" else s("dump", 0); what = "%s via %s/%s" % (b.hex(), cmd, w)
            if v == "ok":
                eq(d["valid"], 1, "validity of " + what); eq(x["st"], 0, "status of " + what)
                eq(d["point"], (R.b32(r[0][0]) + R.b32(r[0][1])).hex(), "point of " + what); eq(d["compressed"], int(r[1]), "compressed flag of " + what)
                eq(d["sec"], b[:need(b)].hex(), "re-serialization of " + what); eq(d["even"], int(r[0][1] % 2 == 0), "evenness of " + what)
                if w in ("sec", "parse", "phex", "str"): eq(x["ret"], need(b), "consumed by " + what)
            else:
                eq(d["valid"], 0, "validity of " + what); expect(x["st"] == (2 if v == "bad" else 1), "status of %s is %d", what, x["st"])
    if v == "ok":
        s("pub", 0, "sec", b[:need(b)].hex())
        for cf in (True, False):
            s("pub_comp", 0, cf); want = R.sec(r[0], cf); x = s("pub_secout", 0, 65); eq(x["ret"], len(want), "sec length"); eq(x["buf"][:2 * len(want)], want.hex(), "sec"); eq(txt(x["s"]), want.hex(), "sec string")
            f = s("full", 0); eq(f["b"], want.hex(), "serialization"); eq(f["len"], len(want), "length")
            eq(txt(s("tostr", 0)["s"]), want.hex(), "toString")
        s("pub", 1, "sec", R.sec(r[0], True).hex()); s("pub", 2, "sec", R.sec(r[0], False).hex()); eq(s("eq", 1, 2)["eq"], 1, "same point in both encodings compares equal")
def c_x(s, c):
    x = c; p = R.lift(R.I(x), 0)
    for cmd in ("pub", "pt_sec"):
        r = s(cmd, 0, "x", x.hex()); d = s("dump", 0); eq(d["valid"], int(p is not None), "x-only key %s" % x.hex())
        if p: eq(d["point"], (x + R.b32(p[1])).hex(), "x-only key %s" % x.hex()); eq(d["even"], 1, "evenness"); y = s("pt_x", 0, 32) if cmd == "pt_sec" else None; y is None or eq((y["ret"], y["buf"], txt(y["s"])), (32, x.hex(), x.hex()), "x coordinate")
@st.composite
def xonly(draw):
    k = draw(st.integers(0, 3))
    return R.b32(R.mulG(draw(secret))[0]) if k == 0 else draw(digest) if k < 3 else R.b32(draw(st.sampled_from([0, 5, P - 1, P, 2**256 - 1] + [P + x for x in SMALLX[:6]] + SMALLX[:6])))
@st.composite
def badhex(draw):
    b = R.sec(R.mulG(draw(secret)), draw(st.booleans())).hex(); i = draw(st.integers(0, len(b) - 1)); ch = draw(st.sampled_from(list("gz -xG:/@`\n\xff")))
    return [b[:i] + ch + b[i + draw(st.integers(0, 1)):], draw(st.sampled_from(["hex", "parse", "shex"]))]
def c_badhex(s, c):
    t, how = c; s("new", 0, "pub")
    if how == "hex": s("fromstr", 0, T(t))
    else: s("parse", 0, "hex" if how == "parse" else "shex", T(t))
    eq(s("dump", 0)["valid"], 0, "key from the malformed hex text %r" % t)
def c_reuse(s, c):
    """one object that takes several encodings in turn"""
    s("new", 0, "pub"); last = 0; log = []
    for b, how in c:
        v, r = verdict(b)
        if how == "x":
            if not r: continue
            b = R.b32(r[0][0]); r = ((r[0][0], min(r[0][1], P - r[0][1]) if min(r[0][1], P - r[0][1]) % 2 == 0 else max(r[0][1], P - r[0][1])), None)
        if last: s("rst", 0)
        x = s("parse", 0, "raw", b) if how == "parse" else s("parse", 0, "hex", T(b.hex())) if how == "phex" else s("pub_from", 0, how, b); log.append(how); d = s("dump", 0); what = "%s via %s in a used object (%s)" % (b.hex(), how, ", ".join(log)); last = s("status", 0)["st"]
        if how == "x": eq(d["valid"], 1, "validity of " + what); eq(d["point"], (R.b32(r[0][0]) + R.b32(r[0][1])).hex(), "point of " + what); continue
        eq(last, {"ok": 0, "bad": 2, "short": 1}[v], "status of " + what); eq(x["st"], last, "reported status of " + what); eq(x["ret"], need(b) if v == "ok" else x["ret"], "consumed by " + what)
        if v == "ok": eq((d["valid"], d["point"], d["compressed"], d["sec"]), (1, (R.b32(r[0][0]) + R.b32(r[0][1])).hex(), int(r[1]), b[:need(b)].hex()), what)
        elif v == "bad": eq(d["valid"], 0, "validity of " + what)
SUBS = [Sub("reuse", st.lists(st.tuples(cand(), st.sampled_from(["parse", "phex", "sec", "x"])).map(list), min_size=2, max_size=6), c_reuse, lambda c: "%d encodings" % len(c), n=1500),
        Sub("sec", cand(), c_sec, lambda b: verdict(b)[0] + (" c" if need(b) == 33 else " u") if len(b) >= 33 else None, n=4000, examples=[b"\2" + R.b32(P + SMALLX[0]), b"\4" + R.b32(P + SMALLX[0]) + R.b32(R.lift(SMALLX[0], 0)[1]), b"\2" + R.b32(5), b"\4" + bytes(64), b"\2" + bytes(32), b"", b"\6" + R.sec(R.G, False)[1:], b"\7" + R.sec(R.G, False)[1:]]),
        Sub("xonly", xonly(), c_x, lambda x: "on curve" if R.lift(R.I(x), 0) else "off curve", n=4000),
        Sub("badhex", badhex(), c_badhex, lambda c: c[1], n=3000)]
