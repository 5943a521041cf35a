from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
from props.c13 import root, mk, FAM
RULE = "extended keys of any secret, chain code, depth, fingerprint and child number, four networks, nine script types; strings: exported ones, and altered ones (character edits, payload of another length or prefix, key field 0 / >= n / off the curve / wrong leading byte with a correct checksum, private prefix on public data and vice versa), into fresh and used objects. Non-trivial: every case."
N, P, B = R.N, R.P, R.B58
PTYPE = {"x": R.UNKNOWN, "y": R.P2SH_P2WPKH, "z": R.P2WPKH, "Y": R.P2SH_P2WSH, "Z": R.P2WSH}
PRV = {bytes.fromhex(R.NETS[n][c + "prv"]): (PTYPE[c], n) for n in (1, 0) for c in "xyzYZ"}; PUB = {bytes.fromhex(R.NETS[n][c + "pub"]): (PTYPE[c], n) for n in (1, 0) for c in "xyzYZ"}
def back(t): return PTYPE[R.SLIP[t]]
def put(s, slot, x): s("hd_ctor", slot, R.b32(x.k), x.c, x.depth, x.fp, x.child, x.net, x.typ)
def putp(s, slot, x): s("hp_ctor", slot, R.b32(x.p[0]) + R.b32(x.p[1]), x.c, x.depth, x.fp, x.child, x.net, x.typ)
def chk(s, slot, x, what):
    d = s("dump", slot); eq((d["secret"], d["chain"], d["depth"], d["child"], d["fp"], d["valid"]), (R.b32(x.k).hex(), x.c.hex(), x.depth, x.child, x.fp.hex(), 1), what); eq(d["type"], back(x.typ), "script type of " + what); eq(FAM[d["net"]], FAM[x.net], "network of " + what); eq(d["pub"]["sec"], R.sec(R.mulG(x.k)).hex(), "public key of " + what)
def chkp(s, slot, x, what):
    d = s("dump", slot); eq((d["point"], d["chain"], d["depth"], d["child"], d["fp"], d["valid"], d["compressed"]), ((R.b32(x.p[0]) + R.b32(x.p[1])).hex(), x.c.hex(), x.depth, x.child, x.fp.hex(), 1, 1), what); eq(d["type"], back(x.typ), "script type of " + what); eq(FAM[d["net"]], FAM[x.net], "network of " + what)
def c_rt(s, c):
    r, o = c; x, y = mk(r), mk(o); X = x.pub(); t, u = x.str(), X.str(); put(s, 0, x); putp(s, 1, X); raw, rawp = x.raw(), X.raw()
    d = s("hd_out", 0, 120); eq((txt(d["xprv"]).rstrip("\0"), d["r1"], txt(d["sxprv"])), (t, len(t), t), "xprv"); eq((txt(d["xpub"]).rstrip("\0"), d["r2"]), (u, len(u)), "xpub of the private key"); eq(txt(d["sfp"]), x.fpr().hex(), "fingerprint")
    d = s("hp_out", 1, 120); eq((txt(d["xpub"]).rstrip("\0"), d["r"], txt(d["sxpub"])), (u, len(u), u), "xpub"); eq((d["fp"], txt(d["sfp"])), (x.fpr().hex(),) * 2, "fingerprint")
    eq(txt(s("tostr", 0)["s"]), t, "text"); eq(txt(s("tostr", 1)["s"]), u, "text"); f = s("full", 0); eq((f["b"], f["len"]), (raw.hex(), 78), "bytes"); f = s("full", 1); eq((f["b"], f["len"]), (rawp.hex(), 78), "bytes")
    s("hd_xpub", 2, 0); eq(s("full", 2)["b"], rawp.hex(), "xpub()")
    e = s("hd_str", 3, T(t)); eq(e["st"], 0, "status of " + t); chk(s, 3, x, t); e = s("hp_str", 4, T(u)); eq(e["st"], 0, "status of " + u); chkp(s, 4, X, u)
    for fresh in (1, 0):
        for how in ("str", "strn", "raw", "hex"):
            if fresh: s("new", 5, "hprv"); s("new", 6, "hpub")
            else: put(s, 5, y); putp(s, 6, y.pub())
            for slot, tx, rw, z in ((5, t, raw, x), (6, u, rawp, X)):
                if how == "str": s("fromstr", slot, T(tx))
                elif how == "strn": s("fromstrn", slot, T(tx))
                else: eq(s("parse", slot, how, rw if how == "raw" else T(rw.hex()))["ret"], 78, "consumed")
                (chk if slot == 5 else chkp)(s, slot, z, "%s via %s into a %s object" % (tx, how, "fresh" if fresh else "used"))
    s("copy", 7, 4); eq(s("eq", 7, 4)["eq"], 1, "equality of a copy")
@st.composite
def bad(draw):
    x = mk(draw(root())); pub = draw(st.booleans()); raw = bytearray(x.pub().raw() if pub else x.raw()); k = draw(st.integers(0, 12)); t = None
    if k == 0: raw[draw(st.integers(0, 3))] ^= 1 << draw(st.integers(0, 7))
    elif k == 1: raw[:4] = draw(st.binary(min_size=4, max_size=4))
    elif k == 2: n = draw(st.integers(0, 90)); raw = (raw + draw(rbytes(20)))[:n]
    elif k == 3: raw[45] = draw(st.integers(0, 255))
    elif k == 4: raw[46:] = R.b32(draw(st.sampled_from([0, N, N + 1, 2**256 - 1, P, P + 1, P - 1, 5, 1])))
    elif k == 5: raw[46:] = draw(digest)
    elif k == 6: raw[:4] = draw(st.sampled_from(sorted(PRV) + sorted(PUB)))
    elif k in (7, 8, 9):
        t = R.b58c(bytes(raw)); i = draw(st.integers(0, len(t) - 1)); ch = draw(st.sampled_from(B))
        t = t[:i] + ch + t[i + 1:] if k == 7 else t[:i] + t[i + 1:] if k == 8 else t[:i] + ch + t[i:]
    elif k == 10: t = draw(st.sampled_from(["", "1", "x", "xpub", "xprv", R.b58c(bytes(raw))[:-1], R.b58c(bytes(raw)) * 2]) | st.text(B, max_size=112))
    elif k == 11: raw[45:] = draw(st.sampled_from([b"\4" + R.b32(1), b"\0" * 33, b"\2" + R.b32(5), b"\2" + bytes(32), b"\3" + R.b32(P), b"\2" + R.b32(P + 1), b"\1" + b"\1" * 32]))
    elif k == 12: i = draw(st.integers(0, len(raw) * 8 - 1)); raw[i // 8] ^= 1 << (i % 8)
    return [t if t is not None else R.b58c(bytes(raw)), draw(root())]
def verdict(t):
    """-> (XPrv or None, XPub or None)"""
    b = R.b58cd(t)
    if not b or len(b) != 78: return None, None
    c = (b[13:45], b[4], b[5:9], R.I(b[9:13]))
    if b[:4] in PRV and b[45] == 0 and 0 < R.I(b[46:]) < N: return R.XPrv(R.I(b[46:]), *c, net=PRV[b[:4]][1], typ=PRV[b[:4]][0]), None
    if b[:4] in PUB and b[45] in (2, 3) and R.parse_sec(b[45:]): return None, R.XPub(R.parse_sec(b[45:])[0], *c, net=PUB[b[:4]][1], typ=PUB[b[:4]][0])
    return None, None
def c_bad(s, c):
    t, o = c; y = mk(o); xp, xP = verdict(t); b = R.b58cd(t)
    s("hd_str", 0, T(t)); s("hp_str", 1, T(t)); put(s, 2, y); putp(s, 3, y.pub()); s("fromstr", 2, T(t)); s("fromstr", 3, T(t)); s("new", 4, "hprv"); s("new", 5, "hpub"); s("fromstrn", 4, T(t)); s("fromstrn", 5, T(t))
    todo = [(0, xp, "constructor"), (2, xp, "fromString into a used object"), (4, xp, "fromString"), (1, xP, "constructor"), (3, xP, "fromString into a used object"), (5, xP, "fromString")]
    if b and len(b) >= 78:            # the same bytes through the stream parser
        put(s, 6, y); putp(s, 7, y.pub()); s("new", 8, "hprv"); s("new", 9, "hpub"); bp, bP = verdict(R.b58c(b[:78]))
        for i in (6, 7, 8, 9): s("parse", i, "raw", b[:78])
        todo += [(6, bp, "bytes into a used object"), (8, bp, "bytes"), (7, bP, "bytes into a used object"), (9, bP, "bytes")]
    for slot, w, how in todo:
        what = "%r as an extended %s key (%s)" % (t, "private" if slot % 2 == 0 else "public", how)
        if w is None: d = s("dump", slot); eq(s("status", slot)["st"] != 0, True, "status after the refusal of " + what); eq(d["valid"], 0, "validity of " + what); slot % 2 == 0 and eq((d["pub"]["valid"], d["secret"]), (0, "00" * 32), "public key and secret left by " + what)
        else: (chk if slot % 2 == 0 else chkp)(s, slot, w, what)
SUBS = [Sub("roundtrip", st.tuples(root(), root()).map(list), c_rt, lambda c: "net%d type%d" % (c[0]["net"], c[0]["typ"]), n=1500),
        Sub("reject", bad(), c_bad, lambda c: "malformed" if verdict(c[0]) == (None, None) else "valid", n=3500)]
