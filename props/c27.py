from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
RULE = "scalar, private-key and extended-private-key objects placed in inspected storage, brought through histories of 1..6 steps (construction from bytes, WIF, text, seed, mnemonic, chain code; copy, assignment, self-assignment, slicing, parsing whole or truncated, refused text, reset, setSecret, child and path derivation, use for signing and export) with random and extreme secrets, then destroyed; the storage is searched afterwards for any 6-byte piece of any secret or chain code the object ever held. Non-trivial: the storage did hold the secret before destruction."
def W(x): return len(set(x)) > 3
def clean(r, secs, what):
    b, a = bytes.fromhex(r["before"]), bytes.fromhex(r["after"])
    for x in secs:
        if not W(x): continue     # 0, 1, 2^k ...: indistinguishable from ordinary field contents
        p = b.find(x)
        while p >= 0: expect(a[p:p + len(x)] != x, "%s: the storage still holds %s at offset %d after destruction", what, x.hex(), p); p = b.find(x, p + 1)
        for i in range(len(x) - 5):
            w = x[i:i + 6]
            if W(w): expect(w not in a, "%s: the storage still holds %s (part of %s) after destruction", what, w.hex(), x.hex())
def held(r, x, what): expect(x in bytes.fromhex(r["before"]), "%s: the object does not hold its secret %s", what, x.hex())
rnd = st.one_of(seed64.map(lambda s: R.b32(R.I(R.expand(s, 32)) % (N - 1) + 1)), seed64.map(lambda s: R.b32(R.I(R.expand(s, 32)) % (N - 1) + 1)), secret_b)
chain = rbytes(32)
@st.composite
def one(draw):
    k = draw(st.sampled_from(["sc", "sc", "prv", "prv", "hprv", "hprv", "hprv"])); a, b, c = draw(rnd), draw(rnd), draw(chain)
    hows = {"sc": ["copy", "assign", "assign2", "parse", "str", "ctor", "set", "op"], "prv": ["copy", "assign", "assign2", "parse", "str", "ctor", "wif", "set", "sc", "slice"], "hprv": ["copy", "assign", "assign2", "parse", "str", "seed", "child", "path", "ctor", "xprv"] + (["mn"] if draw(st.integers(0, 7)) == 0 else [])}[k]
    return [k, draw(st.sampled_from(hows)), a, b, c, draw(net), draw(st.booleans()), draw(st.one_of(st.integers(0, 3), st.integers(0, 2**31 - 1))), draw(st.sampled_from("+-*/"))]
def mk(s, slot, k, a, c, n, comp):
    if k == "sc": s("sc_arr", slot, a)
    elif k == "prv": s("prv", slot, a, comp, n)
    else: s("hd_ctor", slot, a, c, 1, b"\1\2\3\4", 5, n, 0)
def c_one(s, x):
    k, how, a, b, c, n, comp, idx, op = x; what = "%s made by %s" % (k, how); I = R.I; c2 = R.sha256(c)
    if how in ("copy", "assign"): mk(s, 0, k, a, c, n, comp); r = s("wipe", k, how, 0); S = [a, c] if k == "hprv" else [a]
    elif how == "assign2": mk(s, 0, k, a, c, n, comp); mk(s, 1, k, b, c2, n, comp); r = s("wipe", k, how, 0, 1); S = [b, c2, a, c] if k == "hprv" else [b, a]
    elif k == "hprv" and how in ("parse", "str", "xprv"): y = R.XPrv(I(a), c, 1, b"\1\2\3\4", 5, n, 0); r = s("wipe", k, how, y.raw() if how == "parse" else T(y.str())); S = [a, c]
    elif k == "prv" and how in ("wif", "str"): r = s("wipe", k, how, T(R.wif(a, comp, n))); S = [a]
    elif how == "str": r = s("wipe", k, how, T(a.hex())); S = [a]
    elif how in ("parse", "set"): r = s("wipe", k, how, a); S = [a]
    elif how == "ctor": r = s("wipe", k, how, a, c) if k == "hprv" else s("wipe", k, how, a); S = [a, c] if k == "hprv" else [a]
    elif how == "op":
        mk(s, 0, "sc", a, c, n, comp); mk(s, 1, "sc", b, c, n, comp); r = s("wipe", k, how, op, 0, 1); v = {"+": I(a) + I(b), "-": I(a) - I(b), "*": I(a) * I(b), "/": I(a) * pow(I(b), -1, N)}[op] % N; S = [R.b32(v), a, b]
    elif how == "sc": s("sc_arr", 0, a); r = s("wipe", k, how, 0); S = [a]
    elif how == "slice": mk(s, 0, "hprv", a, c, n, comp); r = s("wipe", k, how, 0); S = [a]
    elif how == "seed": m = R.XPrv.seed(a + b); r = s("wipe", k, how, a + b); S = [R.b32(m.k), m.c]
    elif how == "mn": ph = R.mnemonic(a[:16]); m = R.XPrv.seed(R.mn_seed(ph.encode(), b"x")); r = s("wipe", k, how, T(ph), T("x")); S = [R.b32(m.k), m.c]
    elif how == "child": mk(s, 0, k, a, c, n, comp); m = R.XPrv(I(a), c, 1, b"\1\2\3\4", 5, n, 0).path([idx]); r = s("wipe", k, how, 0, idx); S = [R.b32(m.k), m.c, a, c]
    elif how == "path": mk(s, 0, k, a, c, n, comp); m = R.XPrv(I(a), c, 1, b"\1\2\3\4", 5, n, 0).path([idx + 2**31, 1, 2]); r = s("wipe", k, how, 0, T("m/%dh/1/2" % idx)); S = [R.b32(m.k), m.c, a, c]
    held(r, S[0], what)
    if k == "hprv": held(r, S[1], what)
    clean(r, S, what)
@st.composite
def hist(draw):
    k = draw(st.sampled_from(["sc", "prv", "hprv", "hprv"])); ops = []; base = ["parse", "str", "reset", "self", "assign", "copy", "set"]; ops_k = base + {"sc": [], "prv": ["wif", "query"], "hprv": ["seed", "child", "hchild", "path", "query", "child"]}[k]
    for _ in range(draw(st.integers(1, 6))):
        o = draw(st.sampled_from(ops_k)); d = draw(seed64); cut = draw(st.one_of(st.just(0), st.integers(1, 80))); bad = draw(st.integers(0, 5)) == 0; ops.append([o, d, cut, int(bad)])
    return [k, ops, draw(net), draw(st.booleans())]
def c_hist(s, x):
    k, ops, n, comp = x; S = []; args = []; cur = None; dirty = False     # cur: what the object is known to hold; dirty: a parse was left incomplete or refused
    for j, (o, d, cut, bad) in enumerate(ops):
        a = R.b32(R.I(R.expand(d, 32)) % (N - 1) + 1); c = R.expand(d + 1, 32); y = R.XPrv(R.I(a), c, 1, b"\1\2\3\4", 5, n, 0)
        if o == "parse":
            v = y.raw() if k == "hprv" else a; S += [a, c]
            if cut: v = v[:max(1, len(v) - cut)]
            args += [o, v]; dirty |= bool(cut); cur = None if dirty else (y if k == "hprv" else a)
        elif o in ("str", "wif"):
            v = y.str() if k == "hprv" else R.wif(a, comp, n) if k == "prv" else a.hex(); S += [a, c]; v = v[:20] + ("1" if v[20] != "1" else "2") + v[21:] if bad and k != "sc" else v; args += [o, T(v)]; dirty |= bool(bad and k != "sc"); cur = None if dirty else (y if k == "hprv" else a)
        elif o == "reset": args += [o, "-"]; cur = None; dirty = False
        elif o in ("self", "query"): 
            if o == "query" and cur is None: continue
            args += [o, "-"]
        elif o in ("assign", "copy"): mk(s, 10 + j, k, a, c, n, comp); S += [a, c]; args += [o, 10 + j]; dirty = False; cur = y if k == "hprv" else a
        elif o == "set":
            S += [a]; args += [o, a]; cur = None if k == "hprv" else a
        elif o == "seed": m = R.XPrv.seed(a); S += [R.b32(m.k), m.c]; args += [o, a]; cur = m
        else:
            if not isinstance(cur, R.XPrv): continue
            i = d % 1000; p = [i] if o == "child" else [i + 2**31] if o == "hchild" else [i + 2**31, 1, i]; cur = cur.path(p); S += [R.b32(cur.k), cur.c]; args += [o, i if o != "path" else T("m/%dh/1/%d" % (i, i))]
    if not args: return
    r = s("wipe", k, "seq", *args); what = "%s after %s" % (k, ", ".join(o[0] for o in ops))
    if isinstance(cur, R.XPrv): held(r, R.b32(cur.k), what); held(r, cur.c, what)
    elif cur: held(r, cur, what)
    clean(r, S, what)
SUBS = [Sub("single", one(), c_one, lambda c: c[0] + " " + c[1], n=12000), Sub("history", hist(), c_hist, lambda c: "%s %d steps" % (c[0], len(c[1])), n=8000)]
