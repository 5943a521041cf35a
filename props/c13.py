from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
RULE = "seeds of 0..130 bytes (one in 16 to 5 KB); extended keys with any chain code, fingerprint, child number and depth up to 255 (and steps beyond it); index lists of 0..6 steps mixing normal, hardened, edge (0, 2^31-1, 2^31, 2^32-1) and purpose/coin values; path texts rendered in every accepted style, and malformed ones (empty or signed components, misplaced markers, foreign characters, overflowing numbers). Also a few related keys, chain codes and indexes combined in turn by objects that stay alive, and histories of one object that holds several keys in turn. Non-trivial: at least one derivation step, or a malformed path."
H = 2**31; N = R.N
idx = st.one_of(loglen(0, H - 1), st.integers(0, 3), st.sampled_from([44, 45, 48, 49, 84, 0, 1, 2, H - 1, 255, 256, 65535, 65536, 2**24]), st.integers(0, H - 1))
hidx = st.tuples(idx, st.booleans()).map(lambda t: t[0] + H * t[1])
@st.composite
def steps(draw, mx=6):
    k = draw(st.integers(0, 3))
    if k == 0: return [draw(st.sampled_from([44, 45, 48, 49, 84])) + H, draw(st.sampled_from([0, 1, 2])) + H, draw(idx) + H, draw(st.sampled_from([0, 1, 2])) + H * draw(st.booleans()), draw(idx)][:draw(st.integers(1, 5))]
    return draw(st.lists(hidx, max_size=mx))
@st.composite
def root(draw):
    return dict(k=draw(secret_b), c=draw(rbytes(32)), depth=draw(st.one_of(st.integers(0, 5), st.integers(0, 240))), fp=draw(rbytes(4)), child=draw(hidx), net=draw(net), typ=draw(st.integers(0, 8)))
@st.composite
def rooted(draw):
    """a key and steps from it; standard paths mostly start where they are meant to"""
    r, p, k = draw(root()), draw(steps()), draw(st.integers(0, 7))
    if p and p[0] - H in (44, 45, 48, 49, 84) and k: r["depth"] = 0; r["typ"] = draw(st.sampled_from([0, r["typ"]]))
    elif k == 1: r["depth"], r["typ"], p = 3, R.MULTISIG, [draw(st.integers(0, 3)) + H * draw(st.booleans())] + p[:2]
    elif k == 3: r["depth"] = 255 - len(p)
    elif k == 2: r["depth"], p = 1, [draw(st.integers(0, 3)) + H * draw(st.booleans())] + p[:2]
    return [r, p]
def mk(r): return R.XPrv(R.I(r["k"]), r["c"], r["depth"], r["fp"], r["child"], r["net"], r["typ"])
def step(x, i):
    """one private derivation step with the documented purpose / coin type rules"""
    y = x.ckd(i)
    if i >= H:
        j = i - H
        if x.depth == 0: y.typ = {44: R.P2PKH, 49: R.P2SH_P2WPKH, 84: R.P2WPKH, 48: R.MULTISIG, 45: R.P2SH}.get(j, x.typ)
        if x.depth == 1 and j < 2: y.net = (0, 1)[j]
        if x.depth == 3 and x.typ == R.MULTISIG: y.typ = {1: R.P2SH_P2WSH, 2: R.P2WSH}.get(j, x.typ)
    return y
def walk(x, p):
    for i in p: x = step(x, i)
    return x
def put(s, slot, x): s("hd_ctor", slot, R.b32(x.k), x.c, x.depth, x.fp, x.child, x.net, x.typ)
FAM = R.FAMILY
def chk(s, slot, x, what):
    d = s("dump", slot)
    eq((d["secret"], d["chain"], d["depth"], d["child"], d["fp"], d["valid"]), (R.b32(x.k).hex(), x.c.hex(), x.depth, x.child, x.fp.hex(), 1), what)
    p = R.mulG(x.k); eq((d["pub"]["sec"], d["selffp"]), (R.sec(p).hex(), x.fpr().hex()), "public key / fingerprint of " + what); eq(d["type"], x.typ, "script type of " + what); eq(d["net"], x.net, "network of " + what)
    return d
def chkp(s, slot, x, what):
    d = s("dump", slot)
    eq((d["point"], d["chain"], d["depth"], d["child"], d["fp"], d["valid"], d["compressed"]), ((R.b32(x.p[0]) + R.b32(x.p[1])).hex(), x.c.hex(), x.depth, x.child, x.fp.hex(), 1, 1), what); eq(d["type"], x.typ, "script type of " + what); eq(d["net"], x.net, "network of " + what)
def c_seed(s, c):
    b, n, old = c; x = R.XPrv.seed(b, n); s("hd_seed", 0, b, n); chk(s, 0, x, "master key of seed %s" % b.hex()); eq(s("dump", 0)["net"], n, "network")
    put(s, 1, mk(old)); s("hd_reseed", 1, b, n); chk(s, 1, x, "master key of seed %s in a used object" % b.hex())
    s("hd_xpub", 2, 0); chkp(s, 2, x.pub(), "master public key"); o = s("hp_out", 2, 120); eq((o["fp"], txt(o["sfp"])), (x.fpr().hex(), x.fpr().hex()), "fingerprint")
def pname(p): return "/".join(str(i) if i < H else "%dh" % (i - H) for i in p)
def c_derive(s, c):
    r, p = c; x = mk(r); put(s, 0, x); y = walk(x, p); what = "m/%s from %s" % (pname(p), x.str())
    s("hd_derive", 1, 0, *p); chk(s, 1, y, what)
    z = x; cur = 0
    for n, i in enumerate(p):          # step by step, alternating the ways to ask for a hardened child
        z = step(z, i); dst = 2 + n % 2
        form, j = ("n", i) if i < H or n % 3 == 0 else ("h", i - H if n % 3 == 1 else i) if n % 2 else ("t", i - H)
        s("hd_child", dst, cur, form, j); chk(s, dst, z, "child %d (%s) in %s" % (i, form, what)); s("hd_xpub", 6, dst); chkp(s, 6, z.pub(), "public key of child %d in %s" % (i, what)); cur = dst
    d = chk(s, 0, x, "the parent afterwards"); q = [i for i in p if i < H]; s("hd_xpub", 7, 0); X = x.pub(); chkp(s, 7, X, "xpub of the parent")
    s("hp_derive", 8, 7, *q); Y = X.path(q); chkp(s, 8, Y, "public derivation of %s" % pname(q)); s("hd_derive", 9, 0, *q); eq(s("dump", 9)["pub"]["point"], s("dump", 8)["point"], "public and private derivation of %s" % pname(q))
    z = X; cur = 7
    for n, i in enumerate(q): z = z.ckd(i); s("hp_child", 10 + n % 2, cur, i); cur = 10 + n % 2; chkp(s, cur, z, "public child %d" % i)
    chkp(s, 7, X, "the public parent afterwards")
def c_hardpub(s, c):
    r, p, i, q = c; x = mk(r); put(s, 0, x); s("hd_xpub", 1, 0); s("hp_child", 2, 1, i); eq(s("dump", 2)["valid"], 0, "hardened public child %d" % i)
    s("hp_derive", 3, 1, *(p + [i] + q)); eq(s("dump", 3)["valid"], 0, "public derivation of %s" % pname(p + [i] + q))
    for t in ("m/" + "/".join(map(str, p + [i] + q)), "m/" + pname(p + [i] + q), pname(p + [i] + q).replace("h", "'") + "/"): d = s("hp_path", 4, 1, T(t)); eq(d["valid"], 0, "public derivation of %r" % t)
@st.composite
def good(draw):
    r, p = draw(rooted()); t = []
    for i in p: j = i % H; d = str(j); t.append(("0" * draw(st.sampled_from([0, 0, 0, 1, 5])) + d) + (draw(st.sampled_from(["h", "'"])) if i >= H else ""))
    pre = draw(st.sampled_from(["m/", "m/", ""])) if p else "m"
    return [r, p, pre + "/".join(t) + (draw(st.sampled_from(["", "/"])) if p or pre else "")]
def c_path(s, c):
    r, p, t = c; x = mk(r); put(s, 0, x); s("hd_path", 1, 0, T(t)); chk(s, 1, walk(x, p), "path %r" % t)
    if all(i < H for i in p): s("hd_xpub", 2, 0); s("hp_path", 3, 2, T(t)); chkp(s, 3, x.pub().path(p), "public path %r" % t)
FRAG = ["0", "1", "44", "84h", "1'", "2147483647", "2147483647h", "2147483648", "2147483648h", "4294967295", "4294967296", "4294967297h", "4294967340", "8589934592", "9999999999", "21474836480", "99999999999999999999", "18446744073709551621", "18446744073709551660h", "36893488147419103237", "184467440737095516161", "340282366920938463463374607431768211461", "0000000000000000000000044", "1K", "1j", "1&", "1(", "1/h", "1)", "1`", "1;", "1\"", "h",  "'", "hh", "1hh", "1h'", "1h1", "h1", "", "-1", "+1", " 1", "1 ", "0x1", "1H", "m", "M", ".", "1.0", "\xb2", "1\n", "44m", "*"]
@st.composite
def bad(draw):
    k = draw(st.integers(0, 3)); t = draw(st.sampled_from(["m/", "m/", "", "m", "M/", "/", "mm/", "n/"])) + "/".join(draw(st.lists(st.sampled_from(FRAG), max_size=4))) + draw(st.sampled_from(["", "/", "//"]))
    if k == 0: t = draw(st.text("m/0123456789h' xX", max_size=14))
    if k >= 2:        # one doubtful component in a good path
        l = [str(draw(st.integers(0, 100))) + draw(st.sampled_from(["", "h", "'"])) for _ in range(draw(st.integers(0, 4)))]; f = draw(st.sampled_from(FRAG))
        if draw(st.integers(0, 3)) == 0: f = str(draw(st.integers(0, 2**31))) + draw(st.characters(min_codepoint=1, max_codepoint=255))
        l.insert(draw(st.integers(0, len(l))), f); t = draw(st.sampled_from(["m/", ""])) + "/".join(l)
    return [draw(root()), t]
def parse_path(t):
    """-> list of indexes, None (malformed), or "either" where the convention is silent"""
    if t in ("", "/"): return "either"
    if t in ("m", "m/"): return []
    if t.startswith("m/"): t = t[2:]
    if t.endswith("/"): t = t[:-1]
    o = []; amb = False
    for c in t.split("/"):
        hard = c[-1:] in ("h", "'"); d = c[:-1] if hard else c
        if not d or any(ch not in "0123456789" for ch in d): return None
        v = int(d)
        if v >= H:
            if hard or v >= 2**32: return None
            amb = True            # a plain number from 2^31: refused, or the (hardened) index it denotes
        o.append(v + H * hard)
    return ("amb", o) if amb else o
def c_bad(s, c):
    r, t = c; x = mk(r); put(s, 0, x); w = parse_path(t); s("hd_xpub", 1, 0); d = s("hd_path", 2, 0, T(t)); e = s("hp_path", 3, 1, T(t))
    if w == "either": w = [] if d["valid"] else None; wp = [] if e["valid"] else None
    elif isinstance(w, tuple): w = w[1] if d["valid"] else None; wp = None
    else: wp = w if w is not None and all(i < H for i in w) else None
    if w is None: eq(d["valid"], 0, "validity of malformed path %r" % t)
    else: chk(s, 2, walk(x, w), "path %r" % t)
    if wp is None: eq(e["valid"], 0, "validity of public path %r" % t)
    else: chkp(s, 3, x.pub().path(wp), "public path %r" % t)
@st.composite
def mixed(draw):
    ks = draw(related(secret_b, 3)); cs = draw(related(rbytes(32), 3)); ix = draw(st.lists(hidx, min_size=1, max_size=3)); ix += [ix[0] ^ H]
    ops = draw(st.lists(st.tuples(st.integers(0, 11), st.integers(0, 11), st.integers(0, 11), st.sampled_from(["child", "child", "pub", "pub", "path", "grow", "fp", "xpub"])).map(list), min_size=2, max_size=12))
    return [ks, cs, ix, ops]
def c_mixed(s, c):
    """a few related keys, chain codes and indexes combined in turn, with objects that stay alive and children that become parents"""
    ks, cs, ix, ops = c; live = []      # (slot of the private key, slot of the public key, reference)
    def add(x, slot=None):
        i = 2 * len(live)
        if slot is None: put(s, i, x)
        else: s("copy", i, slot)
        s("hd_xpub", i + 1, i); live.append((i, i + 1, x))
    for k in ks:
        for ch in cs[:2]: add(R.XPrv(R.I(keyish(k)), ch, 0, bytes(4), 0, 0, 0))
    for a, b, e, o in ops:
        i, j, x = live[a % len(live)]; n = ix[b % len(ix)]; m = ix[e % len(ix)]
        if o == "child": s("hd_child", 40, i, "n", n); chk(s, 40, step(x, n), "child %d of %s" % (n, x.str()))
        elif o == "pub": s("hp_child", 41, j, n % H); chkp(s, 41, x.pub().ckd(n % H), "public child %d of %s" % (n % H, x.pub().str()))
        elif o == "path": s("hd_derive", 40, i, n, m); chk(s, 40, walk(x, [n, m]), "m/%s of %s" % (pname([n, m]), x.str())); s("hp_derive", 41, j, n % H, m % H); chkp(s, 41, x.pub().path([n % H, m % H]), "public path")
        elif o == "grow":
            if len(live) < 18: s("hd_child", 40, i, "n", n); add(step(x, n), 40)
        elif o == "fp": eq(s("dump", i)["selffp"], x.fpr().hex(), "fingerprint of %s" % x.str()); eq(s("hp_out", j, 120)["fp"], x.fpr().hex(), "fingerprint of %s" % x.pub().str())
        else: s("hd_xpub", 41, i); chkp(s, 41, x.pub(), "public key of %s" % x.str())
    for i, j, x in live: chk(s, i, x, "%s afterwards" % x.str()); chkp(s, j, x.pub(), "%s afterwards" % x.pub().str())
@st.composite
def hd_ops(draw): return [[draw(st.sampled_from(["seed", "seed", "raw", "hex", "str", "strn", "assign", "copy", "mutate", "self"])), draw(root()), draw(rbytes(16))] for _ in range(draw(st.integers(1, 6)))]
def c_hist(s, c):
    """one extended-key object that holds several keys in turn: children and public key follow the key it holds now"""
    ops, i = c; x = R.XPrv(7, b"c" * 32, 0, bytes(4), 0, 0, 0); put(s, 0, x); s("hd_xpub", 1, 0); log = []; BACK = {0: 0, 1: 1, 2: 1, 3: 1}
    for o, r, sd in ops:
        y = mk(r); log.append(o); what = " after " + ", ".join(log)
        if o == "seed": s("hd_reseed", 0, sd, r["net"]); x = R.XPrv.seed(sd, r["net"]); s("hd_xpub", 1, 0)
        elif o in ("raw", "hex"): d = lambda b: b if o == "raw" else T(b.hex()); s("parse", 0, o, d(y.raw())); s("parse", 1, o, d(y.pub().raw())); x = y
        elif o in ("str", "strn"): s("from" + o, 0, T(y.str())); s("from" + o, 1, T(y.pub().str())); x = y
        elif o == "assign": put(s, 5, y); s("hd_xpub", 6, 5); s("assign", 0, 5); s("assign", 1, 6); x = y
        elif o == "copy": s("copy", 5, 0); s("copy", 0, 5)
        elif o == "self": s("assign", 0, 0); s("assign", 1, 1)
        else: j = i % H; s("hd_child", 5, 0, "n", j); s("assign", 0, 5); s("hp_child", 6, 1, j); s("assign", 1, 6); x = x.ckd(j) if x.depth < 255 else x
        d = s("dump", 0); x = R.XPrv(x.k, x.c, x.depth, x.fp, x.child, d["net"], d["type"])       # which network and type a text restores is C14's matter
        chk(s, 0, x, "the key" + what); p = s("dump", 1); X = R.XPub(x.pub().p, x.c, x.depth, x.fp, x.child, p["net"], p["type"]); chkp(s, 1, X, "the public key" + what)
        s("hd_child", 2, 0, "n", i); chk(s, 2, step(x, i), "child %d" % i + what); s("hp_child", 3, 1, i % H); chkp(s, 3, X.ckd(i % H), "public child %d" % (i % H) + what); s("hd_xpub", 4, 0); chkp(s, 4, x.pub(), "xpub" + what)
def c_deep(s, c):
    """depth is one byte: nothing can be derived below depth 255"""
    r, p, k = c; p = p or [1]; k %= len(p); r = dict(r, depth=255 - k); x = mk(r); put(s, 0, x); s("hd_xpub", 1, 0); y = walk(x, p[:k]); what = "m/%s from depth %d" % (pname(p), 255 - k)
    s("hd_derive", 2, 0, *p[:k]); chk(s, 2, y, what); s("hd_derive", 3, 0, *p); eq(s("dump", 3)["valid"], 0, "validity of " + what); eq(s("hd_path", 4, 0, T("m/" + pname(p)))["valid"], 0, "validity of the path " + what)
    for f, i in (("n", p[k]), ("h", p[k] % H), ("t", p[k] % H), ("n", p[k] % H)): s("hd_child", 3, 2, f, i); eq(s("dump", 3)["valid"], 0, "validity of child %d (%s) of a key of depth 255" % (i, f))
    q = [i % H for i in p]; s("hp_derive", 2, 1, *q[:k]); chkp(s, 2, x.pub().path(q[:k]), "public " + what); s("hp_child", 3, 2, q[k]); eq(s("dump", 3)["valid"], 0, "validity of a public child of a key of depth 255"); s("hp_derive", 3, 1, *q); eq(s("dump", 3)["valid"], 0, "validity of public " + what); eq(s("hp_path", 3, 1, T("m/" + pname(q)))["valid"], 0, "validity of the public path " + what)
SUBS = [Sub("deep", st.tuples(root(), steps(), st.integers(0, 5)).map(list), c_deep, lambda c: "%d steps" % len(c[1]), n=400),
        Sub("mixed", mixed(), c_mixed, lambda c: "%d keys" % (len(c[0]) * min(2, len(c[1]))), n=500),
        Sub("history", st.tuples(hd_ops(), hidx).map(list), c_hist, lambda c: "%d steps" % len(c[0]), n=500),
        Sub("seed", st.tuples(blob(130, big=5000), net, root()).map(list), c_seed, lambda c: "seed %d" % (len(c[0]) // 16 * 16) if c[0] else None, n=1500, examples=[[bytes(range(16)), 0, dict(k=R.b32(5), c=b"c" * 32, depth=3, fp=b"abcd", child=7, net=2, typ=5)]]),
        Sub("derive", rooted(), c_derive, lambda c: ("%d steps" % len(c[1]) + (" hardened" if any(i >= H for i in c[1]) else "")) if c[1] else None, n=2000),
        Sub("path", good(), c_path, lambda c: "%d steps" % len(c[1]), n=2000),
        Sub("badpath", bad(), c_bad, lambda c: (lambda w: "malformed" if w is None else "silent" if isinstance(w, (str, tuple)) else "fine")(parse_path(c[1])), n=2500, examples=[[dict(k=R.b32(5), c=b"c" * 32, depth=3, fp=b"abcd", child=7, net=2, typ=5), t] for t in ("m", "m/", "", "/", "m//", "//", "m/h", "4294967296", "m/4294967340h", "m/1//2", "/1", "m1", "m/1/", "m/84h/1'/0/5/")] + [[dict(k=R.b32(5), c=b"c" * 32, depth=0, fp=b"abcd", child=7, net=2, typ=5), t] for f in FRAG for t in ("m/" + f, "m/1/" + f + "/2")]),
        Sub("hardpub", st.tuples(root(), st.lists(idx, max_size=3), idx.map(lambda i: i + H), st.lists(idx, max_size=3)).map(list), c_hardpub, lambda c: "hardened", n=800)]
