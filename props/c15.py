from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
RULE = "keys (both encodings), 20/32-byte hashes (random, constant, zero-led) of the four standard types, four networks; texts: standard addresses, and altered ones (one character or case changed, removed, added, swapped; correct checksum over another version byte, length, human-readable part, witness version or program length, bad padding, bech32/bech32m mixed up; prefixes and overlong strings). Non-trivial: every case."
B, CH = R.B58, R.CH
def one(s, r, w, what): eq(txt(r["buf"]).rstrip("\0"), w, what + " (buffer)"); expect(r["ret"] > 0, "%s: no result", what); eq(txt(r["s"]), w, what)
def c_key(s, c):
    d, comp, n = c; pt = R.mulG(R.I(d)); pub = R.sec(pt, comp); w = {"legacy": R.addr_legacy(pub, n), "segwit": R.addr_segwit(pub, n), "nested": R.addr_nested(pub, n)}; w["address"] = w["legacy"]
    s("pub", 0, "sec", pub); s("prv", 1, d, comp, n); cp = R.sec(pt)
    for k, a in w.items():
        r = s("paddr", 0, k, n, 100); r["s"] = s("paddrs", 0, k, n)["s"]; one(s, r, a, "%s address of %s" % (k, pub.hex())); one(s, s("prv_addr", 1, k, 100), a, "%s address of private key %s" % (k, d.hex()))
    ty = {"legacy": R.P2PKH, "segwit": R.P2WPKH, "nested": R.P2SH_P2WPKH}
    for k, t in ty.items():
        sc = {R.P2PKH: R.spk_pkh(R.hash160(pub)), R.P2WPKH: b"\0\x14" + R.hash160(pub), R.P2SH_P2WPKH: R.spk_sh(R.hash160(b"\0\x14" + R.hash160(pub)))}[t]
        x = s("scr_addr", 2, "c", T(w[k])); eq(x["script"], sc.hex(), "script of " + w[k]); x = s("scr_pubm", 3, 0, t); eq(x["script"], sc.hex(), "script type %d of %s" % (t, pub.hex())); one(s, s("scr_address", 3, n, 100), w[k], "address of the script")
    # extended keys: address follows the script type
    for t in range(9):
        a = {R.P2WPKH: R.addr_segwit, R.P2SH_P2WPKH: R.addr_nested, R.P2PKH: R.addr_legacy}.get(t, R.addr_segwit)(cp, n)
        s("hd_ctor", 4, d, bytes(32), 0, bytes(4), 0, n, t); one(s, s("hd_addr", 4, 100), a, "address of an extended private key of type %d" % t); s("hd_xpub", 5, 4); one(s, s("hp_addr", 5, 100), a, "address of an extended public key of type %d" % t)
@st.composite
def spk(draw):
    k = draw(st.integers(0, 3)); h = draw(blob(32, mn=32))[:32]
    return [R.spk_pkh(h[:20]), R.spk_sh(h[:20]), b"\0\x14" + h[:20], b"\0\x20" + h][k]
def c_script(s, c):
    sc, n = c; a = R.script_addr(sc, n); s("scr", 0, sc); d = s("dump", 0); eq(d["type"], R.script_type(sc), "type of %s" % sc.hex()); one(s, s("scr_address", 0, n, 100), a, "address of %s" % sc.hex())
    for f in ("s", "c"): x = s("scr_addr", 1, f, T(a)); eq(x["script"], sc.hex(), "script of address " + a); eq(x["type"], R.script_type(sc), "type"); eq(s("eq", 0, 1)["eq"], 1, "equality")
    for f in ("ac", "ca"):
        s("txout", 2, f, 5, T(a)); eq(s("dump", 2)["script"], sc.hex(), "script of an output to " + a); x = s("txout_addr", 2, n, 100); eq(txt(x["s"]), a, "address of the output")
@st.composite
def near(draw):
    sc = bytearray(draw(spk())); k = draw(st.integers(0, 4))
    if k == 0: i = draw(st.sampled_from([0, 1, 2, len(sc) - 1, len(sc) - 2])); sc[i] ^= 1 << draw(st.integers(0, 7))
    elif k == 1: sc = sc[:-1]
    elif k == 2: sc = sc + bytes([draw(st.integers(0, 255))])
    elif k == 3: sc = draw(blob(45))
    elif k == 4: sc[0] = 0x51
    return [bytes(sc), draw(net)]
def c_near(s, c):
    sc, n = c; t = R.script_type(sc); s("scr", 0, sc); eq(s("dump", 0)["type"], t, "type of %s" % sc.hex()); x = s("scr_address", 0, n, 100); a = R.script_addr(sc, n)
    eq(txt(x["s"]), a or "", "address of %s" % sc.hex()); eq(x["ret"], len(a) if a else 0, "address length of %s" % sc.hex())
@st.composite
def bad(draw):
    n = draw(net); a = R.script_addr(draw(spk()), n); k = draw(st.integers(0, 15)); i = draw(st.integers(0, len(a) - 1)); hrp = R.NETS[n]["hrp"]; al = CH if a.startswith(hrp + "1") else B
    if k == 0: a = a[:i] + draw(st.sampled_from(al)) + a[i + 1:]
    elif k == 1: a = a[:i] + a[i + 1:]
    elif k == 2: a = a[:i] + draw(st.sampled_from(al)) + a[i:]
    elif k == 3: j = draw(st.integers(0, len(a) - 1)); l = list(a); l[i], l[j] = l[j], l[i]; a = "".join(l)
    elif k == 4: a = a[:i] + a[i].swapcase() + a[i + 1:]
    elif k == 5: a = draw(st.sampled_from([a.upper(), a.lower(), a[::-1], a + a, a[:-1], "", "b", "bc", "bc1", "tb1", "bcrt1", "bcr", "t", " " + a]))
    elif k == 6: a = R.b58c(bytes([draw(st.integers(0, 255))]) + draw(rbytes(20)))
    elif k == 7: a = R.b58c(bytes([draw(st.sampled_from([0, 5, 0x6f, 0xc4]))]) + draw(blob(40)))
    elif k in (8, 9): v = draw(st.integers(0, 17)); p = R.expand(draw(seed64), draw(st.one_of(st.sampled_from([20, 32]), st.integers(0, 45)))); a = R.bech32_enc(draw(st.sampled_from(["bc", "tb", "bcrt", "bc", "ltc", "BC", "b", "bcc", "tbb", "bc1", "bc1q", "tb1x", "bcrt1z", "bc11"])).lower(), [v] + R.bits(p, 8, 5, True), draw(st.sampled_from([1, 1, 0x2bc830a3])))
    elif k == 10: d = [draw(st.sampled_from([0, 0, 1, 16, 31]))] + [x % 32 for x in R.expand(draw(seed64), draw(st.integers(0, 66)))]; a = R.bech32_enc(hrp, d, draw(st.sampled_from([1, 0x2bc830a3])))
    elif k == 11:
        z = draw(st.integers(0, 3)); d = [0] + R.bits(R.expand(draw(seed64), 32 if z < 3 else 20), 8, 5, True) + [0] * (draw(st.integers(0, 4)) if z > 1 else 0)   # padding bits: four for 32-byte programs, none for 20-byte ones
        d[-1] ^= draw(st.integers(0, 15) if z else st.sampled_from([0, 1, 2, 4, 8, 16])); a = R.bech32_enc(hrp, d)
    elif k == 12: a = hrp + "1" + draw(st.text(CH + "1", min_size=0, max_size=110))
    elif k == 13: a = hrp + "1" + draw(st.text(CH, max_size=40)) + "1" + draw(st.text(CH, min_size=4, max_size=60)); b = R.bech32_enc(a[:a.rfind("1")], [1, 2, 3]); a = draw(st.sampled_from([a, b]))
    elif k == 14: a = draw(st.sampled_from(["xpub", "xprv", "wif"])); a = {"xpub": R.XPrv(5, b"c" * 32).pub().str(), "xprv": R.XPrv(5, b"c" * 32).str(), "wif": R.wif(R.b32(5), True, n)}[a]
    elif k == 15: a = a[:i] + draw(st.sampled_from(list("0OIl+ \n\xff"))) + a[i + draw(st.integers(0, 1)):]
    return a
def c_bad(s, a):
    w = R.addr_script(a); hold = [w.hex()] if w else [""]
    if w and (w[0] >= 0x51 and w[1:2] and R.b58cd(a) is None or a != a.lower() and R.b58cd(a) is None): hold.append("")   # witness versions from 1, upper-case bech32: may be refused
    f = next((i for i, ch in enumerate(a) if ch not in B), None)
    if not w and f: v = R.b58cd(a[:f]); v and len(v) == 21 and R.addr_script(a[:f]) and hold.append(R.addr_script(a[:f]).hex())  # Base58 text ends at a foreign character
    for form in ("s", "c"):
        x = s("scr_addr", 0, form, T(a)); expect(x["script"] in hold, "address text %r (%s) gives the script %s, expected %s", a, form, x["script"], hold); eq(x["bool"], int(x["script"] != ""), "bool")
SUBS = [Sub("key", st.tuples(secret_b, st.booleans(), net).map(list), c_key, lambda c: "net%d %s" % (c[2], "c" if c[1] else "u"), n=600),
        Sub("script", st.tuples(spk(), net).map(list), c_script, lambda c: "type%d net%d" % (R.script_type(c[0]), c[1]), n=2500),
        Sub("near", near(), c_near, lambda c: "standard" if R.script_type(c[0]) else "near miss", n=2500, examples=[[b"", 0]]),
        Sub("reject", bad(), c_bad, lambda a: "valid" if R.addr_script(a) else "malformed", n=6000, examples=["", "b", "bc", R.segwit_addr("bcrt", 0, b"\1" * 20), R.bech32_enc("bc", [1] + R.bits(b"\7" * 32, 8, 5, True), 1), R.segwit_addr("bc", 1, b"\7" * 32), R.bech32_enc("bc", [2] + R.bits(b"\7" * 40, 8, 5, True), 1), "bc1" + "q" * 97, "bc1" + "q" * 90 + "1qqqqqq"])]
