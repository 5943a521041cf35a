from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
RULE = "byte strings of 0..420 bytes (one in 16 to 2500) with 0..300 (some to 1500) leading zero bytes; their encodings, decoded with exact, larger and smaller buffers; mutated and random alphabet texts. Non-trivial: the payload is non-empty / the text has at least 2 characters."
@st.composite
def payload(draw, mx=420):
    z = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 10, 20, 32, 100, 254, 255, 256, 257, 300])) if draw(st.booleans()) else 0
    if z and draw(st.integers(0, 7)) == 0: z = draw(loglen(4, 1500))
    return b"\0" * z + draw(blob(max(20, mx - 300) if z > 200 else mx, big=2500))
@st.composite
def rt(draw):
    b = draw(payload()); d = draw(st.sampled_from([0, 0, 1, 2, 5, 40, 300]))
    return [b, d, draw(st.integers(1, max(1, len(b)))), draw(st.sampled_from("sn"))]
def c_rt(s, c):
    b, d, short, form = c; e = R.b58(b); ec = R.b58c(b); n = len(b)
    rs = s.calls([("encs", "b58", 0, b), ("encs", "b58c", 0, b), ("enc", "b58", 0, 2 * n + 20, b), ("enc", "b58c", 0, 2 * n + 30, b), ("enclen", "b58", 0, b)])
    eq(txt(rs[0]["s"]), e, "toBase58 string"); eq(txt(rs[1]["s"]), ec, "toBase58Check string")
    for r, w, nm in ((rs[2], e, "toBase58"), (rs[3], ec, "toBase58Check")):
        eq(r["ret"], len(w), nm + " length"); eq(txt(r["buf"])[:len(w)], w, nm)
    expect(rs[4]["ret"] >= len(e), "toBase58Length announces %d, the encoding of %s has %d characters", rs[4]["ret"], b.hex(), len(e))
    rs = s.calls([("dec", "b58", form, 0, n + d, T(e)), ("dec", "b58c", form, 0, n + d, T(ec)), ("declen", "b58", 0, T(e))])
    for r, nm in ((rs[0], "fromBase58"), (rs[1], "fromBase58Check")):
        if n == 0 and nm == "fromBase58Check" : expect(r["ret"] == 0, "%s of an empty payload returns %d", nm, r["ret"]); continue
        eq(r["ret"], n, "%s length" % nm); eq(r["buf"][:2 * n], b.hex(), nm)
    expect(rs[2]["ret"] >= n, "fromBase58Length announces %d for a %d-byte value", rs[2]["ret"], n)
    if n:
        k = n - short
        rs = s.calls([("dec", "b58", form, 0, k, T(e)), ("dec", "b58c", form, 0, k, T(ec))])
        eq(rs[0]["ret"], 0, "fromBase58 into %d bytes of a %d-byte value" % (k, n)); eq(rs[1]["ret"], 0, "fromBase58Check into %d bytes of a %d-byte value" % (k, n))
A = R.B58
@st.composite
def texts(draw):
    k = draw(st.integers(0, 4))
    if k == 0: t = "1" * draw(st.integers(0, 40)) + draw(st.text(A, max_size=60))
    elif k == 1: t = "".join(A[x % 58] for x in R.expand(draw(seed64), draw(st.one_of(length(200), length(200), loglen(100, 3000)))))
    else:
        t = R.b58c(draw(payload(200))) if draw(st.booleans()) else R.b58(draw(payload(200)))
        for _ in range(draw(st.integers(0, 2))):
            if not t: break
            i = draw(st.integers(0, len(t) - 1)); w = draw(st.integers(0, 3)); ch = draw(st.sampled_from(A))
            t = t[:i] + ch + t[i+1:] if w == 0 else t[:i] + t[i+1:] if w == 1 else t[:i] + ch + t[i:] if w == 2 else t[:i] + t[i:][::-1]
    if k == 4 and draw(st.booleans()): i = draw(st.integers(0, len(t))); t = t[:i] + draw(st.sampled_from(list("0OIl+/ \n-\x7f\xff_\0"))) + t[i:]
    return [t, draw(st.sampled_from([0, 1, 2, 10, 300])), draw(st.sampled_from("sn"))]
def c_texts(s, c):
    t, d, form = c; pre = t
    for i, ch in enumerate(t):
        if ch not in A: pre = t[:i]; break
    v = R.b58d(pre); size = len(v) + d
    rs = s.calls([("dec", "b58", form, 0, size, T(t)), ("dec", "b58c", form, 0, size, T(t))])
    chk = R.b58cd(pre)
    if pre == t:
        eq(rs[0]["ret"], len(v), "fromBase58(%s) length" % t); eq(rs[0]["buf"][:2 * len(v)], v.hex(), "fromBase58(%s)" % t)
        eq(rs[1]["ret"], len(chk) if chk is not None else 0, "fromBase58Check(%s)" % t)
        if chk: eq(rs[1]["buf"][:2 * len(chk)], chk.hex(), "fromBase58Check(%s)" % t)
    else:   # a character outside the alphabet: refused, or read up to it; never anything else
        r = rs[0]["ret"]; expect(r == 0 or (r == len(v) and rs[0]["buf"][:2 * r] == v.hex()), "fromBase58(%r) returns %s", t, rs[0])
        r = rs[1]["ret"]; expect(r == 0 or (chk is not None and r == len(chk) and rs[1]["buf"][:2 * r] == chk.hex()), "fromBase58Check(%r) accepts data with a wrong checksum", t)
@st.composite
def badsum(draw):
    b = draw(payload(120)); k = draw(st.integers(0, 31)); raw = bytearray(b + R.dsha(b)[:4])
    i = draw(st.integers(0, len(raw) - 1)); raw[i] ^= 1 << (k % 8); return [bytes(raw)]
def c_badsum(s, c):
    raw = c[0]; t = R.b58(raw); v = R.b58cd(t)
    r = s("dec", "b58c", "n", 0, len(raw), T(t)); eq(r["ret"], len(v) if v is not None else 0, "fromBase58Check of a payload with one flipped bit")
def z(c): n = len(c[0]) - len(c[0].lstrip(b"\0")); return "no zeros" if n == 0 else "1-9 zeros" if n < 10 else "10-255 zeros" if n < 256 else "256+ zeros"
SUBS = [Sub("roundtrip", rt(), c_rt, lambda c: z(c) if c[0] else None, n=10000, examples=[[b"\0" * n + x, 0, 1, "n"] for n in (0, 1, 3, 4, 21, 255, 256) for x in (b"", b"\1", b"\xff" * 20)]),
        Sub("text", texts(), c_texts, lambda c: "alphabet" if all(x in A for x in c[0]) else "foreign char" if len(c[0]) > 1 else None, n=12000, examples=[["1111", 0, "n"], ["", 0, "s"], ["1111111111111111111114oLvT2", 0, "s"]]),
        Sub("badsum", badsum(), c_badsum, lambda c: "flip", n=6000)]
