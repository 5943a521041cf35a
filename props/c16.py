from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
RULE = "keys in both encodings, scripts of 0..10000 bytes (lengths around 75/76, 252/253, 255/256, 520, 10000, and of any order of magnitude between), every script type; multisig with thresholds 0..20 and 0..20 keys (repeated and shuffled); histories of up to 24 pushes of opcodes, bytes, keys, signatures, scripts, clears and copies near and beyond the 10000-byte limit, on scripts and witnesses. Non-trivial: every case (histories: at least two pushes)."
pubs = st.tuples(secret, st.booleans()).map(lambda t: R.sec(R.mulG(t[0]), t[1]))
LEN = [74, 75, 76, 77, 251, 252, 253, 254, 255, 256, 257, 520, 521, 9996, 9997, 9998, 9999, 10000]
scripts = blob(700, extra=LEN, big=10000)
EMPTY = ""
def c_build(s, c):
    pub, sc, pub_t = c; h = R.hash160(pub); w = {R.P2PKH: R.spk_pkh(h), R.P2WPKH: b"\0\x14" + h, R.P2SH_P2WPKH: R.spk_sh(R.hash160(b"\0\x14" + h))}
    s("pub", 0, "sec", pub); eq(s("scr_build", 1, "pkh", 0)["script"], w[R.P2PKH].hex(), "pkh(%s)" % pub.hex()); eq(s("scr_build", 1, "wpkh", 0)["script"], w[R.P2WPKH].hex(), "wpkh(%s)" % pub.hex())
    for t in (R.P2PKH, R.P2WPKH, R.P2SH_P2WPKH):
        for f in ("scr_pub", "scr_pubm"): s(f, 1, 0, t); eq(s("dump", 1)["script"], w[t].hex(), "%s of type %d of %s" % (f, t, pub.hex()))
    s("scr", 2, sc); d = s("dump", 2); eq(d["script"], sc.hex(), "script from bytes"); eq(d["len"], len(R.vstr(sc)), "length"); eq(s("full", 2)["b"], R.vstr(sc).hex(), "serialization")
    x = {R.P2SH: R.spk_sh(R.hash160(sc)), R.P2WSH: b"\0\x20" + R.sha256(sc)}
    eq(s("scr_build", 3, "sh", 2)["script"], x[R.P2SH].hex(), "sh"); eq(s("scr_build", 3, "wsh", 2)["script"], x[R.P2WSH].hex(), "wsh"); eq(s("dump", 3)["type"], R.P2WSH, "type of wsh")
    s("scr_build", 4, "sh", 3); eq(s("dump", 4)["script"], R.spk_sh(R.hash160(x[R.P2WSH])).hex(), "sh(wsh())")
    for t in (R.P2SH, R.P2WSH):
        for f in ("scr_scr", "scr_spk"): s(f, 5, 2, t); eq(s("dump", 5)["script"], x[t].hex(), "%s of type %d of %s" % (f, t, sc.hex()))
    eq(s("dump", 2)["script"], sc.hex(), "the given script")
@st.composite
def ms(draw):
    n = draw(st.one_of(st.integers(0, 20), st.integers(1, 16), st.integers(2, 5))); m = draw(st.one_of(st.integers(0, 20), st.integers(1, max(1, n)))); pool = draw(st.lists(st.tuples(secret, st.integers(0, 3)), min_size=1, max_size=max(1, n)))
    keys = [R.sec(R.mulG(k), c > 0) for k, c in (pool[i] if i < len(pool) else draw(st.sampled_from(pool)) for i in range(n))]
    return [m, keys, draw(st.permutations(range(n)))]
def c_multi(s, c):
    m, keys, perm = c; n = len(keys); ok = 1 <= m <= n <= 16
    for i, k in enumerate(keys): s("pub", i, "sec", k)
    mk = lambda ks: (bytes([0x50 + m]) + b"".join(bytes([len(k)]) + k for k in ks) + bytes([0x50 + n, 0xae])).hex() if ok else EMPTY
    r = s("scr_build", 30, "multi", m, *range(n)); eq(r["d"]["script"], mk(keys), "multi(%d of %d)" % (m, n))
    a = s("scr_build", 31, "sortedmulti", m, *range(n)); eq(a["keys"], [k.hex() for k in keys], "the caller's keys"); b = s("scr_build", 32, "sortedmulti", m, *perm)
    eq(a["d"]["script"], mk(sorted(keys)), "sortedmulti(%d of %d)" % (m, n)); eq(b["d"]["script"], a["d"]["script"], "sortedmulti with the keys in another order")
@st.composite
def hist(draw, wit):
    o = []
    if draw(st.integers(0, 2)) == 0: o.append(["bytes", R.expand(draw(seed64), draw(st.integers(9800, 10000)))])
    if wit and draw(st.integers(0, 5)) == 0: o.append(["rep", [draw(st.integers(240, 520)), draw(st.binary(max_size=3))]])
    for _ in range(draw(st.integers(0, 24))):
        k = draw(st.sampled_from(["op", "op", "bytes", "bytes", "pub", "sig", "sigt", "scr", "scr", "clear", "copy"]))
        if wit and k == "op": k = "bytes"
        if k == "clear" and draw(st.integers(0, 3)): continue
        if k == "op": v = draw(st.integers(0, 255))
        elif k == "bytes": v = draw(blob(300, extra=LEN, big=10000))
        elif k == "pub": v = draw(pubs)
        elif k == "sig": v = [R.b32(draw(u256())), R.b32(draw(u256()))]
        elif k == "sigt": v = [R.b32(draw(u256())), R.b32(draw(u256())), draw(st.integers(0, 255))]
        elif k == "scr": v = draw(scripts)
        else: v = 0
        o.append([k, v])
    return o
def c_hist(wit):
    def f(s, ops):
        s("new", 0, "wit" if wit else "scr"); m = [] if wit else b""; size = lambda: len(b"".join(map(R.vstr, m))) if wit else len(m); c = "wit_push" if wit else "scr_push"
        for k, v in ops:
            if k == "clear": s("wit_clear" if wit else "scr_clear", 0); m = [] if wit else b""
            elif k == "rep": 
                n, L = size(), len(R.vstr(v[1])); m = list(m); s.calls([("wit_push", 0, "bytes", v[1])] * v[0])
                for _ in range(v[0]): m, n = (m + [v[1]], n + L) if n + L <= 10000 else ([], 0)
            elif k == "copy": s("copy", 1, 0); s("assign", 0, 1)
            else:
                if k == "pub": s("pub", 2, "sec", v); e = v; a = (2,)
                elif k in ("sig", "sigt"): s("sig", 2, v[0], v[1]); e = R.der(R.I(v[0]), R.I(v[1])) + bytes([v[2] if k == "sigt" else 1]); a = (2,) + ((v[2],) if k == "sigt" else ())
                elif k == "scr": s("scr", 2, v); e = v; a = (2,)
                else: e = v; a = (v,)
                if wit: m = m + [e]
                else: m = m + (bytes([v]) if k == "op" else v if k == "bytes" else R.push(e))
                if size() > 10000: m = [] if wit else b""
                r = s(c, 0, k, *a); eq(r["ret"], size(), "result of push %s %s" % (k, repr(v)[:60]))
            d = s("dump", 0)
            if wit: eq(d["wit"], R.ser_wit(m).hex(), "witness after %s" % k); eq(d["count"], len(m), "count"); eq(d["len"], len(R.ser_wit(m)), "length"); eq(d["bool"], int(bool(m)), "bool")
            else: eq(d["script"], m.hex(), "script after %s" % k); eq(d["len"], len(R.vstr(m)), "length"); eq(d["bool"], int(bool(m)), "bool"); eq(d["type"], R.script_type(m), "type")
    return f
hl = lambda o: "limit" if any(k == "bytes" and len(v) > 9000 for k, v in o) else "%d pushes" % min(9, len(o)) if len(o) > 1 else None
SUBS = [Sub("build", st.tuples(pubs, scripts, st.just(0)).map(list), c_build, lambda c: "script of %d.." % (len(c[1]) // 100 * 100), n=1500),
        Sub("multi", ms(), c_multi, lambda c: "possible" if 1 <= c[0] <= len(c[1]) <= 16 else "impossible", n=1200),
        Sub("pushes", hist(False), c_hist(False), hl, n=2000, examples=[[["bytes", b"a" * 10000], ["pub", R.sec(R.mulG(1))]], [["scr", b"\x51" * 76]], [["bytes", b""]], [["bytes", b"a" * 10000], ["sig", [R.b32(1), R.b32(1)]]], [["bytes", b"a" * 9999], ["sig", [R.b32(1), R.b32(1)]]], [["scr", b"a" * 9998]], [["scr", b"a" * 9997]]]),
        Sub("witness", hist(True), c_hist(True), hl, n=1500)]
