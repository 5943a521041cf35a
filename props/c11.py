from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
RULE = "secrets 1..n-1, both flags, four networks; texts: exported WIFs, and altered ones (one character changed, removed or added, two swapped; payloads of other lengths, prefixes, flag bytes or secrets 0 / >= n with a correct checksum; other Base58Check strings), into fresh and used objects. Also histories of 1..7 changes of one key object (constructors, setSecret, parsing, WIF, assignment, copies), exported after each. Non-trivial: every case."
N = R.N; FAM = [0, 1, 1, 1]   # the network a WIF of each network is imported as: the first that has its prefix
def c_out(s, c):
    d, comp, n = c; pt = R.mulG(R.I(d)); w = R.wif(d, comp, n); s("prv", 0, d, comp, n); x = s("prv_wif", 0, 60)
    eq(txt(x["s"]), w, "WIF of %s" % d.hex()); eq(txt(x["buf"]).rstrip("\0"), w, "WIF in a buffer"); eq(x["ret"], len(w), "WIF length"); eq(txt(s("tostr", 0)["s"]), w, "text form")
    s("prv", 5, R.b32(N - 1), not comp, (n + 1) % 4)      # an object that held another key
    ways = [("prv_wifctor", 1, T(w)), ("prv_fromwif", 2, "n", T(w)), ("prv_fromwif", 3, "c", T(w)), ("prv_fromwif", 5, "n", T(w)), ("fromstr", 4, T(w))]
    s("new", 2, "prv"); s("new", 3, "prv"); s("new", 4, "prv")
    for y in ways:
        z = s(*y); how = y[0] + str(y[1]); k = s("dump", y[1])
        eq(k["secret"], d.hex(), "secret imported by " + how); eq(k["net"], FAM[n], "network imported by " + how); eq(k["valid"], 1, "validity after " + how)
        eq(k["pub"]["sec"], R.sec(pt, comp).hex(), "public key imported by " + how); s("prv_pub", 9, y[1]); p = s("dump", 9); eq((p["sec"], p["compressed"], p["valid"]), (R.sec(pt, comp).hex(), int(comp), 1), "publicKey() after " + how)
        if y[0] == "prv_fromwif": eq(z["ret"], 1, "result of " + how)
        eq(txt(s("prv_wif", y[1], 60)["s"]), R.wif(d, comp, k["net"]), "exported again after " + how)
B = R.B58
@st.composite
def bad(draw):
    d = draw(secret_b); comp = draw(st.booleans()); n = draw(net); w = R.wif(d, comp, n); k = draw(st.integers(0, 12)); i = draw(st.integers(0, len(w) - 1))
    if k == 0: w = w[:i] + draw(st.sampled_from(B)) + w[i + 1:]
    elif k == 1: w = w[:i] + w[i + 1:]
    elif k == 2: w = w[:i] + draw(st.sampled_from(B)) + w[i:]
    elif k == 3: j = draw(st.integers(0, len(w) - 1)); l = list(w); l[i], l[j] = l[j], l[i]; w = "".join(l)
    elif k == 4: w = R.b58c(bytes([draw(st.integers(0, 255))]) + d + (b"\1" if comp else b""))
    elif k == 5: w = R.b58c(bytes([R.NETS[n]["wif"]]) + d + bytes([draw(st.integers(0, 255))]))
    elif k == 6: w = R.b58c(bytes([R.NETS[n]["wif"]]) + (d + b"\1" * 6)[:draw(st.integers(0, 38))])
    elif k == 7: w = R.b58c(bytes([R.NETS[n]["wif"]]) + R.b32(draw(st.sampled_from([0, N, N + 1, 2**256 - 1]))) + (b"\1" if comp else b""))
    elif k == 8: w = draw(st.sampled_from([R.addr_legacy(R.sec(R.mulG(R.I(d))), n), R.XPrv(R.I(d), d).str(), "", "1", "5", w[:-1], w + w, w[::-1]]))
    elif k == 9: b = bytearray(R.b58d(w)) if hasattr(R, "b58d") else bytearray(R.base_dec(w, B)); j = draw(st.integers(0, len(b) * 8 - 1)); b[j // 8] ^= 1 << (j % 8); w = R.base_enc(bytes(b), B)
    elif k == 10: w = draw(st.text(B, max_size=60))
    elif k == 11: w = w[:i] + draw(st.sampled_from(list("0OIl +/\n"))) + w[i + draw(st.integers(0, 1)):]
    elif k == 12: w = R.b58c(bytes([R.NETS[n]["wif"]]) + draw(blob(100)))
    return [w, draw(secret_b)]
def verdict(w):
    p = R.b58cd(w)
    if not p or len(p) not in (33, 34) or p[0] not in (0x80, 0xEF): return None
    if len(p) == 34 and p[33] != 1: return None
    d = p[1:33]
    return (d, len(p) == 34, 0 if p[0] == 0x80 else 1) if 0 < R.I(d) < N else None
def c_bad(s, c):
    w, old = c; foreign = next((i for i, ch in enumerate(w) if ch not in B), None); v = verdict(w if foreign is None else w[:foreign])
    s("new", 0, "prv"); s("prv", 1, old, True, 1); s("new", 3, "prv"); s("prv", 4, old, True, 1)
    for y in (("prv_fromwif", 0, "n", T(w)), ("prv_fromwif", 1, "c", T(w)), ("prv_wifctor", 2, T(w)), ("fromstr", 3, T(w)), ("fromstr", 4, T(w))):
        z = s(*y); k = s("dump", y[1]); s("prv_pub", 9, y[1]); p = s("dump", 9); what = "WIF text %r via %s" % (w, y[0])
        ok = v is not None and k["secret"] == v[0].hex() and k["pub"]["sec"] == R.sec(R.mulG(R.I(v[0])), v[1]).hex() and k["net"] == v[2]
        if v is not None and foreign is None: expect(ok, "%s is well-formed but was not imported", what); y[0] == "prv_fromwif" and eq(z["ret"], 1, what); continue
        if v is not None and ok: continue                  # text up to a foreign character
        if y[0] == "prv_fromwif": eq(z["ret"], 0, what)
        kept = y[1] in (1, 4) and k["secret"] == old.hex()
        expect(kept or k["secret"] == "00" * 32, "%s left the secret %s", what, k["secret"])
        eq(k["valid"], int(kept), "validity after " + what); expect(0 <= k["net"] <= 3, "%s left no network", what)
        if kept: eq(p["sec"], R.sec(R.mulG(R.I(old)), True).hex(), "public key of the kept key after " + what)
        else: eq(p["valid"], 0, "public key left by " + what)
def c_hist(s, c):
    """the exported text follows the key the object holds now"""
    s("prv", 0, R.b32(9), True, 0); m = (R.b32(9), True, 0); log = []
    for e in c:
        m = prv_apply(s, 0, m, e); log.append(e[0]); what = " after " + ", ".join(log); k = s("dump", 0); s("prv_pub", 9, 0); p = s("dump", 9); comp = p["compressed"] if m[1] is None else int(m[1]); n = k["net"] if m[2] is None else m[2]
        eq([k["secret"], k["net"], p["compressed"], p["sec"], k["valid"]], [m[0].hex(), n, comp, R.sec(R.mulG(R.I(m[0])), comp).hex(), 1], "secret, network and public key" + what); w = R.wif(m[0], comp, n); x = s("prv_wif", 0, 60); eq(txt(x["s"]), w, "WIF" + what); eq(txt(x["buf"]).rstrip("\0"), w, "WIF in a buffer" + what); eq(txt(s("tostr", 0)["s"]), w, "text" + what)
SUBS = [Sub("history", st.lists(prv_op(), min_size=1, max_size=7), c_hist, lambda c: "%d steps" % len(c), n=800),
        Sub("export", st.tuples(secret_b, st.booleans(), net).map(list), c_out, lambda c: "net%d %s" % (c[2], "c" if c[1] else "u"), n=2500, examples=[[R.b32(v), c, n] for v in (1, N - 1) for c in (True, False) for n in range(4)]),
        Sub("reject", bad(), c_bad, lambda c: "valid" if verdict(c[0]) else "malformed", n=4000, examples=[["", R.b32(7)], [R.b58c(b"\x80" + b"\1" * 32 + b"\2"), R.b32(7)], [R.b58c(b"\x80" + bytes(32) + b"\1"), R.b32(7)], [R.b58c(b"\x81" + b"\1" * 33), R.b32(7)]])]
