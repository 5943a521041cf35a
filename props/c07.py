from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
RULE = "keys 1..n-1 and 32-byte digests biased to edge values (0, n, n-1, 2^256-1); signatures: the valid one, its negation, and forgeries with the equation satisfied on purpose (nonce point x >= n, doubling, infinity, u1 = 0) or broken in one component (r or s zero, >= n, bit flips, another digest or key). Also a few keys and digests (some differing in one byte) used in turn by objects that stay alive, and histories of one key object. Non-trivial: every case except r = s = 0."
N, P = R.N, R.P
def hpub(s, slot, pt): s("hp_ctor", slot, R.b32(pt[0]) + R.b32(pt[1]), bytes(32), 0, bytes(4), 0, 0, 0)
def c_sign(s, c):
    d, h = c; r, sv, idx = R.ecdsa_sign(R.I(d), h); pt = R.mulG(R.I(d))
    for comp in (True, False):
        s("prv", 0, d, comp, 0); x = s("sign", 0, h)
        eq((x["r"], x["s"]), (R.b32(r).hex(), R.b32(sv).hex()), "signature of %s with %s" % (h.hex(), d.hex()))
        eq(x["index"], idx, "recovery index of %s with %s" % (h.hex(), d.hex())); eq(x["valid"], 1, "signature validity"); eq(x["len"], len(R.der(r, sv)), "signature length")
        s("prv_pub", 1, 0); eq(s("dump", 1)["sec"], R.sec(pt, comp).hex(), "public key"); w = int(R.I(h) % N != 0)
        s("signto", 2, 0, h); eq(s("verify2", 1, 2, h)["v"], w, "own signature verifies")
    s("hd_ctor", 3, d, bytes(32), 0, bytes(4), 0, 0, 0); y = s("sign", 3, h); eq((y["r"], y["s"]), (R.b32(r).hex(), R.b32(sv).hex()), "signature by the extended key")
    s("hd_xpub", 4, 3); eq(s("verify2", 4, 2, h)["v"], w, "own signature verifies under the extended public key")
    # the recovery index recovers the key: Q = (s*R - z*G)/r
    Rp = R.lift(r + (N if idx & 2 else 0), idx & 1); Q = R.mul(R.inv(r, N), R.add(R.mul(sv, Rp), R.neg(R.mulG(R.I(h) % N)))); eq(Q, pt, "key recovered with the index")
@st.composite
def vcase(draw):
    d = draw(secret); h = R.I(draw(digest)); k = draw(st.integers(0, 15)); r, s, _ = R.ecdsa_sign(d, R.b32(h)); Q = R.mulG(d); lab = "valid"
    if k == 1: s = N - s; lab = "high s"
    elif k == 2:
        if draw(st.booleans()): r = draw(st.sampled_from([0, N, r + N if r + N < 2**256 else N, 2**256 - 1, N - r, (r + 1) % N, P - 1]))
        else: s = draw(st.sampled_from([0, N, s + N if s + N < 2**256 else N, 2**256 - 1, (s + 1) % N]))
        lab = "changed"
    elif k == 3: h = h ^ (1 << draw(st.integers(0, 255))); lab = "other digest"
    elif k == 4: Q = R.mulG(draw(secret)); lab = "other key"
    elif k in (5, 6):     # nonce point with x >= n
        x = N + draw(st.integers(0, 400))
        while R.lift(x, 0) is None: x += 1
        Rp = R.lift(x, draw(st.integers(0, 1))); s = draw(secret); r = x - N; lab = "x>=n"
        if not r: r = 1
        Q = R.mul(R.inv(r, N), R.add(R.mul(s, Rp), R.neg(R.mulG(h % N))))
        if Q is None: Q = R.G
        if k == 6 and draw(st.booleans()): r = x - draw(st.sampled_from([0, 1, N + 1])); r %= 2**256
    elif k == 7:          # u1*G == u2*Q
        kk = draw(secret); r = R.mulG(kk)[0] % N; h = r * d % N; s = 2 * r * d * R.inv(kk, N) % N; lab = "doubling"
    elif k == 8: h = -r * d % N; lab = "infinity"
    elif k == 9: h = draw(st.sampled_from([0, N])); r, s, _ = R.ecdsa_sign(d, R.b32(h)); lab = "zero digest"
    elif k == 10: h = draw(st.sampled_from([h % (2**256 - N), 2**256 - N - 1])) + N; r, s, _ = R.ecdsa_sign(d, R.b32(h)); lab = "digest>=n"
    elif k == 11: r, s = draw(u256()), draw(u256()); lab = "random"
    elif k == 12: r, s = s, r; lab = "swapped"
    elif k == 13: i = draw(st.integers(0, 511)); b = R.I(R.b32(r) + R.b32(s)) ^ (1 << i); r, s = b >> 256, b & (2**256 - 1); lab = "bit flip"
    elif k == 14:         # arbitrary valid (not deterministic) signature, chosen from the equation
        a, b = draw(secret), draw(secret); Rp = R.add(R.mulG(a), R.mul(b, Q))
        if Rp: r = Rp[0] % N; s = r * R.inv(b, N) % N; h = a * s % N; lab = "constructed"
    elif k == 15: Q = R.neg(Q); lab = "negated key"
    return [R.sec(Q, False)[1:], R.b32(r) + R.b32(s), R.b32(h), lab]
def c_verify(s, c):
    xy, rs, h, lab = c; Q = (R.I(xy[:32]), R.I(xy[32:])); r, sv = R.I(rs[:32]), R.I(rs[32:])
    w = int(R.ecdsa_verify(Q, h, r, sv) and R.I(h) % N != 0)
    s("pub", 0, "xy", xy.hex()); s("pub", 1, "xyu", xy.hex()); s("pub", 2, "sec", R.sec(Q, True).hex()); hpub(s, 3, Q); s("sig", 4, rs[:32], rs[32:])
    for i in range(4):
        what = "verification of rs=%s digest=%s key=%s (%s)" % (rs.hex(), h.hex(), xy.hex(), ["compressed", "uncompressed", "parsed", "extended"][i])
        eq(s("verify", i, rs, h)["v"], w, what); eq(s("verify2", i, 4, h)["v"], w, what)
@st.composite
def badkey(draw):
    d = draw(secret); h = draw(digest); r, s, _ = R.ecdsa_sign(d, h); x, y = R.mulG(d); k = draw(st.integers(0, 3))
    if k == 0: y = (y + draw(st.integers(1, 9))) % P
    elif k == 1: x = (x + draw(st.integers(1, 9))) % P
    elif k == 2: x, y = draw(u256()), draw(u256())
    else: x = y = 0
    return [R.b32(x) + R.b32(y), R.b32(r) + R.b32(s), h]
def c_badkey(s, c):
    xy, rs, h = c; pt = (R.I(xy[:32]), R.I(xy[32:]))
    if R.parse_sec(b"\4" + xy): return
    for how in ("xy", "xyu", "sec"): s("pub", 0, how, xy.hex() if how != "sec" else "04" + xy.hex()); how != "xy" and eq(s("verify", 0, rs, h)["v"], 0, "verification under the invalid key %s (%s)" % (xy.hex(), how))
    s("new", 1, "pub"); eq(s("verify", 1, rs, h)["v"], 0, "verification under an empty key")
def c_mixed(s, c):
    """a few keys and digests in turn, with objects that stay alive"""
    ks, hs, ps = c; ks = [keyish(k) for k in ks]; sg = {}
    for i, k in enumerate(ks): s("prv", i, k, i % 2, 0); s("prv_pub", 10 + i, i)
    for a, b in ps:
        a %= len(ks); b %= len(hs); r, v, idx = sg.setdefault((a, b), R.ecdsa_sign(R.I(ks[a]), hs[b])); x = s("sign", a, hs[b]); eq((x["r"], x["s"], x["index"]), (R.b32(r).hex(), R.b32(v).hex(), idx), "signature of %s with %s" % (hs[b].hex(), ks[a].hex()))
        for (p, q), (r2, v2, _) in sg.items():
            for y in {a, p}:
                for z in {b, q}: w = int(R.I(hs[z]) % N != 0 and (ks[y] == ks[p] and hs[z] == hs[q] or R.ecdsa_verify(R.mulG(R.I(ks[y])), hs[z], r2, v2))); eq(s("verify", 10 + y, R.b32(r2) + R.b32(v2), hs[z])["v"], w, "verification of the signature by %s of %s under %s for %s" % (ks[p].hex(), hs[q].hex(), ks[y].hex(), hs[z].hex()))
def c_hist(s, c):
    """signatures follow the secret the key object holds now"""
    es, h = c; s("prv", 0, R.b32(9), True, 0); m = (R.b32(9), True, 0); log = []
    for e in es: m = prv_apply(s, 0, m, e); log.append(e[0]); r, v, _ = R.ecdsa_sign(R.I(m[0]), h); x = s("sign", 0, h); eq((x["r"], x["s"]), (R.b32(r).hex(), R.b32(v).hex()), "signature after " + ", ".join(log)); s("prv_pub", 1, 0); eq(s("verify", 1, R.b32(r) + R.b32(v), h)["v"], int(R.I(h) % N != 0), "own signature verifies after " + ", ".join(log))
SUBS = [Sub("mixed", st.tuples(related(secret_b), related(digest), pairs).map(list), c_mixed, lambda c: "%d keys %d digests" % (len(c[0]), len(c[1])), n=300),
        Sub("history", st.tuples(st.lists(prv_op(), min_size=1, max_size=6), digest).map(list), c_hist, lambda c: "%d steps" % len(c[0]), n=400),
        Sub("sign", st.tuples(secret_b, digest).map(list), c_sign, lambda c: "d=n-1" if R.I(c[0]) == N - 1 else "digest>=n" if R.I(c[1]) >= N else "generic", n=2500, examples=[[R.b32(a), R.b32(b)] for a in (1, 2, N - 1) for b in (0, 1, N - 1, N, N + 1, 2**256 - 1)]),
        Sub("verify", vcase(), c_verify, lambda c: c[3] + (" true" if R.ecdsa_verify((R.I(c[0][:32]), R.I(c[0][32:])), c[2], R.I(c[1][:32]), R.I(c[1][32:])) else " false") if any(c[1]) else None, n=2500),
        Sub("badkey", badkey(), c_badkey, lambda c: "off curve", n=600)]
