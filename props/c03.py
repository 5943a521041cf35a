from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
RULE = "byte strings of 0..700 bytes (one in 16 of any order of magnitude to 70 KB, Base43 to 2500), all flag combinations, exact / larger / smaller buffers, both string and (pointer, length) forms; for rejection, valid encodings with characters replaced, inserted, deleted, truncated or padding moved. Non-trivial: at least one byte / a text of at least 2 characters."
CODECS = ["hex", "bin", "b43", "b64"]
def enc_ref(n, b, f):
    return b.hex() if n == "hex" else "".join("{:08b}".format(x) for x in b) if n == "bin" else R.base_enc(b, R.B43) if n == "b43" else R.b64(b, bool(f & 1), not f & 2)
@st.composite
def rt(draw):
    n = draw(st.sampled_from(CODECS + ["b64", "b64"])); mx = {"b43": 300, "bin": 300}.get(n, 700); b = draw(blob(mx, big=2500 if n == "b43" else 70000))
    if n == "b43" and draw(st.booleans()): b = b"\0" * draw(st.sampled_from([1, 2, 3, 8, 100, 255, 256, 257])) + b[:100]
    f = draw(st.integers(0, 3)) if n == "b64" else 0
    t = hexcase(draw, b.hex()) if n == "hex" else None
    return [n, f, b, draw(st.sampled_from([0, 0, 1, 3, 100])), draw(st.integers(1, max(1, len(b)))), draw(st.sampled_from("sn")), t]
def c_rt(s, c):
    n, f, b, d, short, form, t = c; e = enc_ref(n, b, f); L = len(b)
    room = len(e) + 4 + (L if n == "b43" else 0)
    rs = s.calls([("encs", n, f, b), ("enc", n, f, room, b), ("dec", n, form, f, L + d, T(t if t is not None else e))])
    eq(txt(rs[0]["s"]), e, "%s encoding (string form) of %s" % (n, b[:40].hex())); eq(rs[1]["ret"], len(e), "%s encoded length" % n); eq(txt(rs[1]["buf"])[:len(e)], e, "%s encoding" % n)
    eq(rs[2]["ret"], L, "%s decoded length of %s" % (n, e[:80])); eq(rs[2]["buf"][:2 * L], b.hex(), "%s decoding" % n)
    if n in ("b43", "b64"):
        r1, r2 = s.calls([("enclen", n, f, b), ("declen", n, f, T(e))])
        if n == "b64": eq(r1["ret"], len(e), "toBase64Length"); eq(r2["ret"], L, "fromBase64Length")
        else: expect(r1["ret"] >= len(e) and r2["ret"] >= L, "announced base43 lengths %s %s, real %d %d", r1["ret"], r2["ret"], len(e), L)
    if n != "b43": eq(s("enc", n, f, len(e), b)["ret"], len(e), "%s encoding into an exact buffer" % n)
    if L:
        eq(s("dec", n, form, f, L - short, T(e))["ret"], 0, "%s decoding of %d bytes into %d" % (n, L, L - short))
        if n != "b43": eq(s("enc", n, f, len(e) - 1, b)["ret"], 0, "%s encoding into a too small buffer" % n)
    if n == "b64":
        r1, r2 = s.calls([("b64hex", f, T(e)), ("hexb64", f, T(b.hex()))]); eq(txt(r1["s"]), b.hex(), "base64ToHex"); eq(txt(r2["s"]), e, "hexToBase64")
anych = st.integers(0, 255).map(chr)
JUNK = list("=+/-_ \n0Aaz~!.\x01\xff") + ["\0"]
@st.composite
def bad64(draw):
    f = draw(st.integers(0, 3)); t = R.b64(draw(blob(90, big=5000)), draw(st.booleans()), draw(st.booleans()))
    for _ in range(draw(st.integers(0, 3))):
        i = draw(st.one_of(st.integers(0, len(t)), st.integers(max(0, len(t) - 5), len(t)))); w = draw(st.integers(0, 3)); ch = draw(st.one_of(st.sampled_from(JUNK), anych))
        t = t[:i] + ch + t[i+1:] if w == 0 else t[:i] + t[i+1:] if w == 1 else t[:i] + ch + t[i:] if w == 2 else t[:i]
    return [f, t, draw(st.sampled_from([0, 0, 1, 50])), draw(st.sampled_from("sn"))]
def decodings(t, f):
    """every byte string the text may mean under the flags (leniency about the other alphabet and optional padding allowed)"""
    o = set()
    A = R.B64A + ("-_" if f & 1 else "")
    body = t.rstrip("="); pad = len(t) - len(body)
    if any(c not in A for c in body): return o
    if not f & 2 and (len(t) % 4 or pad > 2): return o
    if f & 2 and pad and (len(t) % 4 or pad > 2): return o
    if len(body) % 4 == 1: return o
    b = R.b64d(body.replace("-", "+").replace("_", "/"), False, False)
    if b is not None: o.add(b)
    return o
def strict(t, f):
    b = R.b64d(t, bool(f & 1), not f & 2)
    return b is not None and R.b64(b, bool(f & 1), not f & 2) == t
def c_bad64(s, c):
    f, t, d, form = c; ok = decodings(t, f); size = len(t) + d
    r = s("dec", "b64", form, f, size, T(t))
    if strict(t, f):
        b = R.b64d(t, bool(f & 1), not f & 2); eq(r["ret"], len(b), "fromBase64 length of %r flags %d" % (t, f)); eq(r["buf"][:2 * len(b)], b.hex(), "fromBase64")
    else: expect(r["ret"] == 0 or any(len(b) == r["ret"] and r["buf"][:2 * len(b)] == b.hex() for b in ok), "fromBase64(%r, flags %d) is not a valid encoding but decodes to %s", t, f, r["buf"][:2 * r["ret"]])
@st.composite
def badbin(draw):
    t = "".join("01"[x & 1] for x in R.expand(draw(seed64), draw(st.one_of(length(300), length(300), loglen(100, 9000)))))
    for _ in range(draw(st.integers(0, 2))):
        i = draw(st.integers(0, len(t))); ch = draw(st.one_of(st.sampled_from(list("2 3O-/a\x00\xff1")), anych)); t = t[:i] + ch + t[i+draw(st.integers(0, 1)):]
    return [t, draw(st.integers(-2, 3)), draw(st.sampled_from("sn"))]
def c_badbin(s, c):
    t, d, form = c; need = (len(t) + 7) // 8; size = max(0, need + d); r = s("dec", "bin", form, 0, size, T(t))
    if any(x not in "01" for x in t) or size < need: eq(r["ret"], 0, "fromBin of %r into %d bytes" % (t, size))
    elif len(t) % 8 == 0: eq(r["ret"], need, "fromBin length"); eq(r["buf"][:2 * need], int(t or "0", 2).to_bytes(need, "big").hex() if need else "", "fromBin")
    else: expect(r["ret"] in (0, need), "fromBin length"); expect(r["ret"] == 0 or r["buf"][:2 * need] == int(t, 2).to_bytes(need, "big").hex(), "fromBin(%r) = %s", t, r["buf"])
@st.composite
def hext(draw):
    t = hexcase(draw, draw(blob(60, big=5000)).hex()); i = draw(st.integers(0, len(t))); bad = draw(st.one_of(st.sampled_from(list("gG xz:/@`\x00\xff-")), anych))
    return [t[:i] + bad + t[i:], draw(st.sampled_from([0, 1, 20])), draw(st.sampled_from("sn"))]
def c_hext(s, c):
    t, d, form = c
    # documented: leading non-hex characters are skipped, decoding stops at the first invalid character
    u = t
    while u and u[0] not in "0123456789abcdefABCDEF": u = u[1:]
    b = bytearray()
    for i in range(0, len(u) - 1, 2):
        try: b.append(int("".join(x if x in "0123456789abcdefABCDEF" else "z" for x in u[i:i+2]), 16))
        except ValueError: break
    r = s("dec", "hex", form, 0, len(b) + d, T(t)); expect(r["ret"] == 0 or (r["ret"] == len(b) and r["buf"][:2 * len(b)] == b.hex()), "fromHex(%r) = %s", t, r)
@st.composite
def t43(draw): return ["0" * draw(st.one_of(st.sampled_from([0, 0, 1, 2, 5, 255, 256, 300]), st.just(0), loglen(1, 1500))) + "".join(R.B43[x % 43] for x in R.expand(draw(seed64), draw(st.one_of(length(100), length(100), loglen(80, 3000))))), draw(st.sampled_from([0, 1, 30])), draw(st.sampled_from("sn"))]
def c_t43(s, c):
    t, d, form = c; v = R.base_dec(t, R.B43); r = s("dec", "b43", form, 0, len(v) + d, T(t)); eq(r["ret"], len(v), "fromBase43(%s) length" % t); eq(r["buf"][:2 * len(v)], v.hex(), "fromBase43")
SUBS = [Sub("roundtrip", rt(), c_rt, lambda c: c[0] + str(c[1]) + (" long" if len(c[2]) > 60 else "") if c[2] else None, n=12000, examples=[[n, f, x, 0, 1, "n", None] for n in CODECS for f in (range(4) if n == "b64" else [0]) for x in (b"", b"\0", b"a", b"ab", b"abc", b"abcd", b"\xfb\xff\xbf", bytes(256), b"\1" * 257)] + [["b43", 0, x * n, 0, 1, "n", None] for n in (1000, 3500, 9000) for x in (b"\xff", b"\1")]),
        Sub("bad64", bad64(), c_bad64, lambda c: ("valid" if strict(c[1], c[0]) else "invalid") if len(c[1]) > 1 else None, n=12000, examples=[[f, t, 0, "n"] for f in range(4) for t in ("", "=", "==", "===", "====", "A", "AA", "AAA", "AAAA", "A===", "AA==", "AA=A", "AAA=BBBB", "AA==BBBB", "\0\0\0\0", "AAA\0", "A=AA")]),
        Sub("badbin", badbin(), c_badbin, lambda c: "bin" if len(c[0]) > 1 else None, n=5000, examples=[["10100101"[:i % 8] + chr(i) + "10100101"[i % 8 + 1:], 0, "n"] for i in range(256)]),
        Sub("hextext", hext(), c_hext, lambda c: "hex", n=5000, examples=[[t, 0, "n"] for i in range(256) for t in ("12" + chr(i) + "4", "123" + chr(i) + "56")]),
        Sub("b43text", t43(), c_t43, lambda c: "b43" if len(c[0]) > 1 else None, n=4000)]
