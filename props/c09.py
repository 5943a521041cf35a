from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
RULE = "r, s < 2^256 biased to short values, leading 0x80 bits and zero; DER texts: canonical ones, and ones altered in one tag, length, padding byte, truncated, extended, or with non-minimal / negative / oversized integers and consistent or inconsistent total length. Also several signatures in turn in one object. Non-trivial: r and s not both zero / at least 8 bytes of input."
@st.composite
def big(draw):
    v = draw(u256()); n = draw(st.sampled_from([0, 1, 2, 31, 32, 32, 32, 32])); return v >> (8 * (32 - n)) if n else v % 3
def c_rt(s, c):
    r, v, idx = c; want = R.der(r, v); rb, sb = R.b32(r), R.b32(v); s("sig", 0, rb, sb)
    f = s("full", 0); eq(f["b"], want.hex(), "DER of r=%x s=%x" % (r, v)); eq(f["len"], len(want), "announced length of r=%x s=%x" % (r, v))
    x = s("sig_derout", 0, 72); eq(x["ret"], len(want), "der() length"); eq(x["buf"][:2 * len(want)], want.hex(), "der()"); eq(txt(s("tostr", 0)["s"]), want.hex(), "text form")
    for how in ("ctor", "ctor1", "hex", "der"):
        y = s("sig_der", 1, how, want); d = y["d"]; eq((d["r"], d["s"]), (rb.hex(), sb.hex()), "r, s parsed back from %s via %s" % (want.hex(), how)); eq(y["st"], 0, "status"); eq(s("eq", 0, 1), dict(eq=1, ne=0), "equality")
        if how == "der": eq(y["ret"], len(want), "consumed")
    for n in (66, 80): b = rb + sb + bytes([idx]) + R.expand(n, n - 65); s("new", 2, "sig"); s("sig_frombin", 2, b); d = s("dump", 2); eq((d["r"], d["s"], d["index"]), (rb.hex(), sb.hex(), idx), "r, s, index from a longer binary form")
    for n in (64, 65): b = rb + sb + bytes([idx])[:n - 64]; s("new", 2, "sig"); s("sig_frombin", 2, b); eq(s("sig_bin", 2, n)["buf"], b.hex(), "binary form"); d = s("dump", 2); eq((d["r"], d["s"]), (rb.hex(), sb.hex()), "r, s from the binary form")
    eq(d["index"], idx, "index from the binary form")
    eq(s("dump", 0)["valid"], int(bool(r or v)), "validity")
    s("sig", 3, R.b32(r ^ (1 << (idx % 256))), sb); eq(s("eq", 0, 3), dict(eq=0, ne=1), "different r"); s("sig", 3, rb, R.b32(v ^ (1 << (idx % 256)))); eq(s("eq", 0, 3), dict(eq=0, ne=1), "different s")
def integer(draw, v):
    b = v.to_bytes(32, "big").lstrip(b"\0") or b"\0"
    if b[0] & 128: b = b"\0" + b
    k = draw(st.integers(0, 11))
    if k == 0: b = b"\0" + b
    if k == 1 and b[0] == 0: b = b[1:]
    if k == 2: b = draw(st.binary(min_size=33, max_size=36))
    if k == 3: b = bytes([draw(st.integers(0, 255))]) + b[1:]
    if k == 4: b = draw(st.sampled_from([b"", b"\0", b"\x80", b"\x7f", b"\0\0", b"\0\x80", b"\0\x7f"]))
    if k == 5: b = b"\0" * draw(st.integers(1, 3)) + b
    return bytes([draw(st.sampled_from([2] * 20 + [3, 0x30])), len(b) if draw(st.integers(0, 15)) else draw(st.integers(0, 255))]) + b
@st.composite
def cand(draw):
    k = draw(st.integers(0, 7)); r, v = draw(big()), draw(big())
    if k <= 1: b = R.der(r, v)
    elif k <= 3: b = bytearray(R.der(r, v)); i = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 4 + b[3], 5 + b[3], 6 + b[3], len(b) - 1])); b[i] = draw(st.one_of(st.sampled_from([0, 1, 2, 0x80, 0x7f, b[i] ^ 1, (b[i] + 1) & 255, (b[i] - 1) & 255]), st.integers(0, 255))); b = bytes(b)
    elif k <= 6: x = integer(draw, r) + integer(draw, v); b = bytes([0x30, len(x) if draw(st.integers(0, 5)) else draw(st.integers(0, 255))]) + x
    else: b = draw(st.binary(max_size=80))
    j = draw(st.integers(0, 7))
    if j == 0: b = b[:draw(st.integers(0, len(b)))]
    if j == 1: b = b + draw(st.binary(min_size=1, max_size=8))
    return bytes(b)
def c_parse(s, b):
    w = R.der_parse(b)
    for how in ("ctor", "ctor1", "hex", "der", "parse", "phex", "bytes"):
        if how == "ctor1" and (len(b) < 2 or len(b) != b[1] + 2): continue
        if how in ("hex", "phex") and not b: continue
        if how[0] == "p": s("new", 0, "sig"); x = s("parse", 0, "hex" if how == "phex" else "raw", T(b.hex()) if how == "phex" else b); x["d"] = s("dump", 0)
        elif how == "bytes":
            s("new", 0, "sig"); q = s("feed", 0, "raw", *[b[i:i + 1] for i in range(len(b))])["r"] if b else [[0, 1, 0]]; x = dict(ret=sum(i[0] for i in q), st=q[-1][1], d=s("dump", 0))
        else: x = s("sig_der", 0, how, b)
        what = "DER %s via %s" % (b.hex(), how)
        if w: eq(x["st"], 0, "status of " + what); eq((x["d"]["r"], x["d"]["s"]), (R.b32(w[0]).hex(), R.b32(w[1]).hex()), "r, s of " + what); how in ("der", "parse", "phex", "bytes") and eq(x["ret"], w[2], "consumed by " + what)
        else: expect(x["st"] in (1, 2), "%s is reported as parsed", what); x["st"] == 2 and eq(x["d"]["valid"], 0, "signature left by the refused " + what)
        if w is None and prefix_ok(b): eq(x["st"], 1, "status of the truncated " + what)
def prefix_ok(b):
    """can b be extended to a strict encoding?"""
    if not b: return True
    if b[0] != 0x30: return False
    if len(b) == 1: return True
    L = b[1]
    if not 6 <= L <= 70: return False
    if len(b) < 4: return len(b) < 3 or b[2] == 2
    if b[2] != 2: return False
    n = b[3]
    if not 1 <= n <= 33: return False
    x = b[4:4 + n]
    if not iok(x, n): return False
    if len(b) <= 4 + n: return n + 5 <= L <= n + 37
    if b[4 + n] != 2: return False
    if len(b) == 5 + n: return n + 5 <= L <= n + 37
    m = b[5 + n]
    return 1 <= m <= 33 and L == n + m + 4 and iok(b[6 + n:6 + n + m], m)
def iok(x, n):
    if x and x[0] & 128: return False
    if n == 33 and x and x[0]: return False
    if n > 1 and len(x) > 1 and x[0] == 0 and not x[1] & 128: return False
    return True
def c_reuse(s, c):
    """one object that takes several signatures in turn"""
    s("new", 0, "sig"); last = 0; log = []
    for b, how in c:
        if last: s("rst", 0)
        w = R.der_parse(b); log.append(how)
        if how == "bin": v = R.expand(len(b), 65); s("sig_frombin", 0, v); d = s("dump", 0); eq((d["r"], d["s"], d["index"]), (v[:32].hex(), v[32:64].hex(), v[64]), "binary form in a used object"); eq(s("full", 0)["b"], R.der(R.I(v[:32]), R.I(v[32:64])).hex(), "DER after the binary form"); last = s("status", 0)["st"]; continue
        x = s("parse", 0, "raw", b) if how == "parse" else s("parse", 0, "hex", T(b.hex())) if how == "phex" else s("sig_from", 0, b); last = x["st"]; d = s("dump", 0); what = "DER %s via %s in a used object (%s)" % (b.hex(), how, ", ".join(log))
        if w: eq(x["st"], 0, "status of " + what); eq((d["r"], d["s"], x["ret"]), (R.b32(w[0]).hex(), R.b32(w[1]).hex(), w[2]), what); eq(s("full", 0)["b"], R.der(w[0], w[1]).hex(), "serialization of " + what)
        else: eq(x["st"], 1 if prefix_ok(b) else x["st"], "status of the truncated " + what); expect(x["st"] != 0, "%s is reported as parsed", what); x["st"] == 2 and eq(d["valid"], 0, "signature left by the refused " + what)
SUBS = [Sub("reuse", st.lists(st.tuples(cand(), st.sampled_from(["parse", "phex", "der", "der", "bin"])).map(list), min_size=2, max_size=6), c_reuse, lambda c: "%d signatures" % len(c), n=1500),
        Sub("roundtrip", st.tuples(big(), big(), st.integers(0, 255)).map(list), c_rt, lambda c: "%s/%s" % (["short", "32", "33"][(c[0] >= 2**248) + (c[0] >= 2**255)], ["short", "32", "33"][(c[1] >= 2**248) + (c[1] >= 2**255)]) if c[0] or c[1] else None, n=2500, examples=[[0, 0, 0], [0, 1, 1], [1, 0, 1], [2**256 - 1, 2**256 - 1, 255], [0x80, 0x7f, 2], [2**255, 2**255 - 1, 3]]),
        Sub("parse", cand(), c_parse, lambda b: "valid" if R.der_parse(b) else "prefix" if prefix_ok(b) else "malformed", n=5000, examples=[b"", b"\x30", R.der(1, 1)[:-1], R.der(1, 1) + b"\1", bytes.fromhex("3006020100020100"), bytes.fromhex("30050201010200"), bytes.fromhex("300702010102010100")])]
