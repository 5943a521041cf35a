from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
RULE = "keys 1..n-1 of both y parities, messages biased to edge values; signatures: valid ones, and forgeries that satisfy or narrowly miss the BIP-340 equation (n - s, s + n, r >= p, r not on the curve, odd nonce point, infinite nonce point, other key or message, bit flips). Also a few keys and messages (some differing in one byte) used in turn by objects that stay alive. Non-trivial: every case except an all-zero signature."
N, P = R.N, R.P
def c_sign(s, c):
    d, m = c; di = R.I(d); pt = R.mulG(di); want = R.schnorr_sign(di, m)
    for comp in (True, False):
        s("prv", 0, d, comp, 0); x = s("ssign", 0, m); eq(x["rs"], want.hex(), "Schnorr signature of %s with %s" % (m.hex(), d.hex()))
        s("prv_pub", 1, 0); eq(s("sverify", 1, want, m)["v"], 1, "own Schnorr signature verifies")
    s("pub", 2, "x", R.b32(pt[0])); eq(s("sverify", 2, want, m)["v"], 1, "own Schnorr signature verifies under the x-only key")
    s("hd_ctor", 3, d, bytes(32), 0, bytes(4), 0, 0, 0); eq(s("ssign", 3, m)["rs"], want.hex(), "Schnorr signature by the extended key"); s("hd_xpub", 4, 3); eq(s("sverify", 4, want, m)["v"], 1, "own Schnorr signature verifies under the extended key")
    expect(R.schnorr_verify(pt[0], m, want), "oracle")
    eq(s("dump", 0)["secret"], d.hex(), "key afterwards")
def sign(d, m, k):
    """BIP-340 signature with a chosen nonce"""
    Pt = R.mulG(d); d = d if Pt[1] % 2 == 0 else N - d; Rp = R.mulG(k); k = k if Rp[1] % 2 == 0 else N - k
    e = R.I(R.tagged(b"BIP0340/challenge", R.b32(Rp[0]) + R.b32(Pt[0]) + m)) % N
    return R.b32(Rp[0]), (k + e * d) % N, (-k + e * d) % N, e * d % N
OFF = [x for x in range(60) if R.lift(x, 0) is None]; ON = [x for x in range(1, 60) if R.lift(x, 0)]
@st.composite
def vcase(draw):
    d = draw(secret); m = draw(digest); k = draw(st.integers(0, 13)); kk = draw(secret); r, s, sneg, ed = sign(d, m, kk); Q = R.mulG(d); lab = "valid"
    if k == 1: s = N - s if s else 0; lab = "n-s"
    elif k == 2: s = sneg; lab = "odd nonce point"
    elif k == 3: s = s + N if s + N < 2**256 else 2**256 - 1; lab = "s>=n"
    elif k == 4:          # s small enough that s+n fits in 32 bytes, chosen to satisfy the equation otherwise
        lab = "s small"; s = draw(st.integers(0, 2**128)); s = s + N if draw(st.booleans()) else s
    elif k == 5:
        lab = "infinite nonce point"; r = R.b32(draw(st.sampled_from([0, 1, 5] + OFF[:4]))); e = R.I(R.tagged(b"BIP0340/challenge", r + R.b32(Q[0]) + m)) % N; dd = d if Q[1] % 2 == 0 else N - d; s = e * dd % N
    elif k == 6: r = R.b32(draw(st.sampled_from([P, P + 1, 2**256 - 1] + [P + x for x in ON[:8]] + OFF))); s = draw(secret); lab = "bad r"
    elif k == 7: m = R.b32(R.I(m) ^ (1 << draw(st.integers(0, 255)))); lab = "other message"
    elif k == 8: Q = R.mulG(draw(secret)); lab = "other key"
    elif k == 9: b = R.I(r + R.b32(s)) ^ (1 << draw(st.integers(0, 511))); r, s = R.b32(b >> 256), b & (2**256 - 1); lab = "bit flip"
    elif k == 10: r = draw(digest); s = draw(u256()); lab = "random"
    elif k == 11: r, s = R.b32(s), R.I(r); lab = "swapped"
    elif k == 12: Q = R.neg(Q); lab = "negated key"
    elif k == 13: s = draw(st.sampled_from([0, N, (s + 1) % N, (s - 1) % N])); lab = "changed s"
    return [R.sec(Q, False)[1:], r + R.b32(s), m, lab]
def c_verify(s, c):
    xy, rs, m, lab = c; Q = (R.I(xy[:32]), R.I(xy[32:])); w = int(R.schnorr_verify(Q[0], m, rs))
    s("pub", 0, "xy", xy); s("pub", 1, "xyu", xy); s("pub", 2, "x", xy[:32]); s("pub", 3, "sec", R.sec(Q, True))
    for i in range(4): eq(s("sverify", i, rs, m)["v"], w, "Schnorr verification of %s message=%s key=%s (%s; %s)" % (rs.hex(), m.hex(), xy.hex(), ["compressed", "uncompressed", "x-only", "parsed"][i], lab))
def c_rt(s, c):
    for how in ("arr", "rs", "hex"): s("ssig", 0, how, c); x = s("dump", 0); eq((x["rs"], x["valid"]), (c.hex(), int(any(c))), "SchnorrSignature via " + how); f = s("full", 0); eq((f["b"], f["len"]), (c.hex(), 64), "serialization")
    s("new", 1, "ssig"); eq(s("parse", 1, "raw", c)["ret"], 64, "consumed"); eq(s("eq", 0, 1), dict(eq=1, ne=0), "equality"); eq(txt(s("tostr", 1)["s"]), c.hex(), "text")
    o = bytes([c[0] ^ 1]) + c[1:]; s("ssig", 2, "arr", o); eq(s("eq", 0, 2), dict(eq=0, ne=1), "inequality (r)"); o = c[:-1] + bytes([c[-1] ^ 128]); s("ssig", 2, "arr", o); eq(s("eq", 0, 2), dict(eq=0, ne=1), "inequality (s)")
def badx(x): return R.lift(R.I(x), 0) is None
def c_bad(s, c):
    x, rs, m = c
    if not badx(x): return
    s("pub", 0, "x", x); eq(s("sverify", 0, rs, m)["v"], 0, "verification under the invalid x-only key %s" % x.hex())
    s("new", 1, "pub"); eq(s("sverify", 1, rs, m)["v"], 0, "verification under an empty key")
def c_mixed(s, c):
    """a few keys and messages in turn, with objects that stay alive"""
    ks, ms, ps = c; ks = [keyish(k) for k in ks]; sg = {}
    for i, k in enumerate(ks): s("prv", i, k, i % 2, 0); s("prv_pub", 10 + i, i)
    for a, b in ps:
        a %= len(ks); b %= len(ms); w = sg.setdefault((a, b), R.schnorr_sign(R.I(ks[a]), ms[b])); eq(s("ssign", a, ms[b])["rs"], w.hex(), "Schnorr signature of %s with %s" % (ms[b].hex(), ks[a].hex()))
        for (p, q), w2 in sg.items():
            for y in {a, p}:
                for z in {b, q}: eq(s("sverify", 10 + y, w2, ms[z])["v"], int(ks[y] == ks[p] and ms[z] == ms[q] or R.schnorr_verify(R.mulG(R.I(ks[y]))[0], ms[z], w2)), "verification of the Schnorr signature by %s of %s under %s for %s" % (ks[p].hex(), ms[q].hex(), ks[y].hex(), ms[z].hex()))
SUBS = [Sub("mixed", st.tuples(related(secret_b), related(digest), pairs).map(list), c_mixed, lambda c: "%d keys %d messages" % (len(c[0]), len(c[1])), n=300),
        Sub("sign", st.tuples(secret_b, digest).map(list), c_sign, lambda c: "odd key" if R.mulG(R.I(c[0]))[1] & 1 else "even key", n=1500, examples=[[R.b32(a), R.b32(b)] for a in (1, 2, 6, N - 1) for b in (0, N, 2**256 - 1)]),
        Sub("verify", vcase(), c_verify, lambda c: c[3] + (" true" if R.schnorr_verify(R.I(c[0][:32]), c[2], c[1]) else " false") if any(c[1]) else None, n=2000),
        Sub("roundtrip", st.one_of(rbytes(64), st.tuples(digest, digest).map(b"".join)), c_rt, lambda c: "sig" if any(c) else None, n=800),
        Sub("badkey", st.tuples(st.one_of(digest, st.sampled_from([R.b32(x) for x in OFF + [P + y for y in ON]])), rbytes(64), digest).map(list), c_bad, lambda c: "off curve" if badx(c[0]) else None, n=600)]
