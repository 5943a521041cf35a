from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
RULE = "pairs of keys 1..n-1 (edge values, equal and opposite keys), both public-key encodings, three hash settings, extended keys on either side. Also a few keys (some differing in one byte) combined in turn. Non-trivial: both secrets above 1."
N = R.N
@st.composite
def case(draw):
    a = draw(secret); k = draw(st.integers(0, 7)); b = a if k == 0 else N - a if k == 1 else draw(secret); return [R.b32(a), R.b32(b)]
def c_ecdh(s, c):
    a, b = c; pt = R.mul(R.I(a), R.mulG(R.I(b))); x, y = R.b32(pt[0]), R.b32(pt[1]); want = {"d": R.sha256(x + y), "1": R.sha256(x + y), "0": x}
    s("hd_ctor", 6, a, bytes(32), 0, bytes(4), 0, 0, 0); s("hd_ctor", 7, b, bytes(32), 0, bytes(4), 0, 0, 0); s("hd_xpub", 8, 7)
    for ca in (True, False):
        for cb in (True, False):
            s("prv", 0, a, ca, 0); s("prv", 1, b, cb, 1); s("prv_pub", 2, 0); s("prv_pub", 3, 1); s("pub", 4, "sec", R.sec(R.mulG(R.I(b)), cb))
            for m in ("d", "0", "1"):
                for p, q in ((0, 3), (1, 2), (0, 4)):
                    r = s("ecdh", p, q, m); eq((r["ret"], r["s"]), (1, want[m].hex()), "shared secret of %s and %s (hash=%s)" % (a.hex(), b.hex(), m))
    for m in ("d", "0", "1"):
        for p, q in ((6, 3), (0, 8), (6, 8), (7, 2)): eq(s("ecdh", p, q, m)["s"], want[m].hex(), "shared secret with extended keys")
    eq(s("dump", 0)["secret"], a.hex(), "key afterwards"); eq(s("dump", 3)["sec"], R.sec(R.mulG(R.I(b)), False).hex(), "public key afterwards")
def c_mixed(s, c):
    ks, qs, ps = c; ks = [keyish(k) for k in ks]; qs = [keyish(q) for q in qs]
    for i, k in enumerate(ks): s("prv", i, k, 1, 0)
    for i, q in enumerate(qs): s("pub", 10 + i, "sec", R.sec(R.mulG(R.I(q)), i % 2))
    for a, b, m in ps: a %= len(ks); b %= len(qs); pt = R.mul(R.I(ks[a]), R.mulG(R.I(qs[b]))); x, y = R.b32(pt[0]), R.b32(pt[1]); eq(s("ecdh", a, 10 + b, m)["s"], (x if m == "0" else R.sha256(x + y)).hex(), "shared secret of %s and %s (hash=%s)" % (ks[a].hex(), qs[b].hex(), m))
SUBS = [Sub("mixed", st.tuples(related(secret_b), related(secret_b), st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3), st.sampled_from("d01")).map(list), min_size=2, max_size=10)).map(list), c_mixed, lambda c: "%d x %d keys" % (len(c[0]), len(c[1])), n=400),
        Sub("ecdh", case(), c_ecdh, lambda c: "equal" if c[0] == c[1] else "opposite" if R.I(c[0]) + R.I(c[1]) == N else "generic" if R.I(c[0]) > 1 and R.I(c[1]) > 1 else None, n=1600, examples=[[R.b32(a), R.b32(b)] for a in (1, 2, N - 1) for b in (1, 3, N - 1)])]
