from hypothesis import strategies as st
import ref as R, psbtgen as PG
from gens import *
from client import expect, eq
from runner import Sub
RULE = "PSBTs with 1..5 (sometimes up to 252) outputs, each with 0..3 (sometimes up to 255) derivations: own (any depth, hardened and not, compressed and uncompressed keys), of another root, right key with a changed path, right path with another, negated or neighbouring key, foreign fingerprints; asked for every output with the root, an account key, a child key and a foreign key, private and public. Non-trivial: some output carries a derivation."
@st.composite
def cases(draw):
    net_ = draw(net); roots = [draw(secret), draw(rbytes(32)), draw(secret), draw(rbytes(32))]; own, other = R.XPrv(roots[0], roots[1], net=net_), R.XPrv(roots[2], roots[3], net=net_)
    pool = [draw(st.one_of(PG.paths(5), st.lists(PG.index, max_size=4))) for _ in range(2)]
    def der():
        p = list(draw(st.sampled_from(pool))); k = draw(st.integers(0, 9)); q = own.path(p).pub().p; fp = draw(st.sampled_from([own.fpr(), other.fpr(), b"\0" * 4]))
        if k == 0: q = other.path(p).pub().p
        elif k == 1: q = R.mulG(draw(secret))
        elif k == 2: q = (q[0], R.P - q[1])
        elif k == 3: q = own.path(p + [draw(PG.index)]).pub().p
        elif k == 4 and p: j = draw(st.integers(0, len(p) - 1)); p[j] ^= 1 << draw(st.sampled_from([0, 1, 7, 8, 15, 16, 23, 24, 30, 31]))
        elif k == 5: p = p + [draw(PG.index)]
        elif k == 6 and p: p = p[:-1]
        return [R.sec(q, draw(st.integers(0, 5)) != 0), fp, p]
    n = draw(st.integers(1, 5)) if draw(st.integers(0, 19)) else draw(st.sampled_from([128, 252])); outs = []
    for k in range(n):
        l, seen = [], set()
        m = draw(st.integers(0, 3)) if k < 6 or k > n - 3 else 0; many = draw(st.sampled_from([15, 16, 17, 33, 64, 130, 252])) if k == 0 and draw(st.integers(0, 11)) == 0 else 0
        for q in range(many): l.append([R.sec(R.mulG(1000 + q)), own.fpr(), [q]])
        for _ in range(m):
            d = der()
            if d[0] not in seen: seen.add(d[0]); l.append(d)
        outs.append(dict(redeem=b"", wscript=b"", ders=l, extra=[], order=0))
    return [roots, net_, outs, draw(st.integers(0, 5)), draw(st.lists(PG.index, max_size=2))]
def c_mine(s, c):
    roots, net_, outs, cut, rel = c; n = len(outs); no_in = dict(nonwit=None, wit=None, sigs=[], redeem=b"", wscript=b"", ders=[], extra=[], order=0)
    p = dict(tx=dict(version=2, locktime=0, ins=[dict(id=b"\5" * 32, index=0, seq=0, script=b"", wit=[])], outs=[dict(amount=k, script=b"\x51") for k in range(n)]), ins=[no_in], outs=outs, glob=[])
    s("new", 0, "psbt"); eq(s("parse", 0, "raw", PG.ser(p))["st"], 0, "status"); own, other = R.XPrv(roots[0], roots[1], net=net_), R.XPrv(roots[2], roots[3], net=net_); keys = [("root", own), ("foreign", other), ("child", own.path(rel))]
    ps = [d[2] for o in outs for d in o["ders"]]
    if ps: keys.append(("account", own.path(ps[0][:cut])))
    for name, x in keys:
        s("hd_ctor", 1, R.b32(x.k), x.c, x.depth, x.fp, x.child, net_, 0); s("hd_xpub", 2, 1); pub = x.pub()
        for k in [k for k in range(n) if outs[k]["ders"] or k in (0, n - 1)]:
            wv = any(R.sec(x.path(d[2]).pub().p) == R.sec(R.parse_sec(d[0])[0]) for d in outs[k]["ders"]); wp = any(not any(i >> 31 for i in d[2]) and R.sec(pub.path(d[2]).p) == R.sec(R.parse_sec(d[0])[0]) for d in outs[k]["ders"])
            eq(s("psbt_mine", 0, k, 1)["v"], int(wv), "isMine(output %d, %s private key)" % (k, name)); eq(s("psbt_mine", 0, k, 2)["v"], int(wp), "isMine(output %d, %s public key)" % (k, name))
SUBS = [Sub("mine", cases(), c_mine, lambda c: "ders%d" % min(6, sum(len(o["ders"]) for o in c[2])) if any(o["ders"] for o in c[2]) else None, n=2400)]
