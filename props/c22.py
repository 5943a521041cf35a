import struct
from hypothesis import strategies as st
import ref as R, etxgen as EG
from gens import *
from client import expect, eq
from runner import Sub
RULE = "Electrum partial transactions, legacy (extended key in the scriptSig) and segwit (marker, amount, extended key in the witness), 1..60 inputs of two accounts, also ones that share the key but not the chain code (xpub/ypub/zpub, mainnet and testnet prefixes), 0..40 outputs, derivation indexes over the 16-bit range, amounts with 0, varint-marker-like bytes and up to 21e14; parsed whole, in hex and in chunks, signed with each account and with a foreign key, twice, in one or the other order; malformed: wrong magic, truncated, damaged extended key, scriptSig of another length, ordinary transactions. Non-trivial: every case."
def check(s, slot, e, t, what):
    d = s("dump", slot); w = tx_dump(t)
    for k in w: eq(d["tx"][k], w[k], "%s of the %s Electrum transaction" % (k, what))
    eq(len(d["ins"]), len(e["ins"]), "inputs with metadata")
    for n, (g, i) in enumerate(zip(d["ins"], e["ins"])):
        x = EG.xpub(e["keys"][i["key"]], i["typ"], e["net"]); eq([g["d0"], g["d1"], g["amount"]], i["d"] + [i["amount"] if e["seg"] else 0], "derivation and amount of input %d" % n)
        eq([g["hd"]["point"], g["hd"]["chain"], g["hd"]["depth"], g["hd"]["fp"], g["hd"]["child"], g["hd"]["type"], g["hd"]["net"]], [R.sec(x.p, False)[1:].hex(), x.c.hex(), x.depth, x.fp.hex(), x.child, x.typ, e["net"]], "extended key of input %d" % n)
    eq(d["valid"], 1, "valid"); eq(s("etx_fee", slot)["fee"], EG.fee(e), "fee"); b = R.ser_tx(t); f = s("full", slot); eq(f["b"], b.hex(), "serialization of the %s Electrum transaction" % what); eq(f["len"], len(b), "length")
@st.composite
def cases(draw): e = draw(EG.etxs()); return [e, draw(st.sampled_from(["raw", "hex", "feed"])), draw(st.permutations([0, 1, 2]))[:draw(st.integers(1, 3))], splits(draw, EG.ser(e))]
def c_sign(s, c):
    e, how, order, ch = c; b = EG.ser(e); t = EG.plain(e); s("new", 0, "etx")
    if how == "feed": r = s("feed", 0, "raw", *ch)["r"]; eq([sum(x[0] for x in r), r[-1][1]], [len(b), 0], "bytes consumed and status of the chunks")
    else: r = s("parse", 0, how, b if how == "raw" else b.hex().encode()); eq([r["ret"], r["st"]], [len(b), 0], "bytes consumed and status")
    check(s, 0, e, t, "parsed")
    for a in order:
        k = e["keys"][a] if a < 2 else [12345, bytes(32), 0, bytes(4), 0]; s("hd_ctor", 1, R.b32(k[0]), k[1], k[2], k[3], k[4], e["net"], 0); x = R.XPrv(*k); n = 0; cache = {}
        for j, i in enumerate(e["ins"]):
            if e["keys"][i["key"]][:2] != k[:2] or k[2] > 253: continue        # too deep to have grandchildren
            n += 1; key = tuple(i["d"])
            if key not in cache: cache[key] = x.path(i["d"]).k
            d = cache[key]; p = R.sec(R.mulG(d)); pkh = R.spk_pkh(R.hash160(p)); w = b"\0\x14" + R.hash160(p); sg = i["typ"] != R.UNKNOWN; z = R.sighash_segwit(t, j, pkh, i["amount"]) if sg else R.sighash_legacy(t, j, pkh); r, v, _ = R.ecdsa_sign(d, z); sig = R.der(r, v) + b"\1"
            if not sg: t["ins"][j]["script"] = R.push(sig) + R.push(p)
            else: t["ins"][j].update(wit=[sig, p], script=R.push(w) if i["typ"] == R.P2SH_P2WPKH else b"")
        eq(s("etx_sign", 0, 1)["ret"], n, "number of signed inputs"); check(s, 0, e, t, "signed")
@st.composite
def damaged(draw):
    e = draw(EG.etxs(maxin=5)); b = EG.ser(e); k = draw(st.integers(0, 5)); n = draw(st.integers(0, len(e["ins"]) - 1)); x = EG.raw_xpub(e, e["ins"][n])
    if k == 0: c = bytearray(b); c[draw(st.integers(0, 5))] ^= 1 << draw(st.integers(0, 7)); return [bytes(c), "magic"]
    if k == 1: return [b[:draw(st.integers(0, len(b) - 1))], "truncated"]
    if k in (2, 3):
        y = bytearray(x); q = draw(st.integers(0, 2))
        if q == 0: y[draw(st.integers(0, 3))] ^= 1 << draw(st.integers(0, 7))
        elif q == 1: y[45] = draw(st.sampled_from([0, 1, 4, 5, 6, 255]))
        else: y[45:] = b"\2" + draw(st.sampled_from([R.b32(5), R.b32(R.P), b"\xff" * 32]))
        if bytes(y[:4]) in {bytes.fromhex(v[p]) for v in R.NETS for p in ("xpub", "ypub", "zpub", "Ypub", "Zpub")} and q == 0: y[45] = 0
        return [b.replace(x, bytes(y), 1), "extended key"]
    t = EG.plain(e)
    if k == 4:
        for i, j in zip(t["ins"], e["ins"]): i["script"] = b"\1\xff\x4c\x53\xff" + EG.raw_xpub(e, j) + EG.der(j)
        g = t["ins"][n]["script"]; t["ins"][n]["script"] = draw(st.sampled_from([g[:-1], g[:-2], g[:-4], g + b"\0", g + b"\1" * 20, g + bytes(200), b"\1" + g, g[1:]])) if draw(st.booleans()) else draw(st.sampled_from([b"", R.expand(1, 86), R.expand(1, 88), R.expand(1, 107), R.expand(1, 300)])); return [EG.MAGIC + R.ser_tx(t, False), "other scriptSig"]
    t["ins"][0]["wit"] = [b"x"]; b = R.ser_tx(t)
    if draw(st.booleans()): return [EG.MAGIC + b, "ordinary segwit transaction"]
    b = R.ser_tx(t)[:-4 - sum(len(R.ser_wit(i["wit"])) for i in t["ins"])]; w = draw(st.sampled_from([b"\2\1x\xfd\5\0", b"\1\xfd\1\0", b"\2\0\xfd\5\0", b"\1\xfe\1\0\0\0"])); e2 = EG.ser(dict(e, seg=True)); m = e2[len(EG.MAGIC + b):]
    return [EG.MAGIC + b + w + m[len(w):], "malformed witness"]
def c_bad(s, c):
    b, why = c; s("new", 0, "etx"); r = s("parse", 0, "raw", b); expect(r["st"] != 0, "Electrum transaction accepted although %s: %s", why, b.hex()); eq(s("dump", 0)["valid"], 0, "valid"); s("hd_seed", 1, b"s" * 16, 0); eq(s("etx_sign", 0, 1)["ret"], 0, "signatures in a refused transaction"); eq(s("etx_fee", 0)["fee"], 0, "fee of a refused transaction"); s("full", 0)
def c_reuse(s, c):
    """several Electrum transactions, one after the other, in one object; unfinished or refused ones in between, after which it is reset"""
    l, bad, acc = c; s("new", 0, "etx")
    for e, (b, cutp) in zip(l, bad):
        if b is not None: s("parse", 0, "raw", b); s("rst", 0)
        elif cutp is not None: w = EG.ser(e); s("parse", 0, "raw", w[:cutp % len(w)]); s("rst", 0)
        w = EG.ser(e); r = s("parse", 0, "raw", w); eq([r["ret"], r["st"]], [len(w), 0], "bytes consumed and status of a repeated parse"); check(s, 0, e, EG.plain(e), "parsed again")
        if acc: k = e["keys"][0]; s("hd_ctor", 1, R.b32(k[0]), k[1], k[2], k[3], k[4], e["net"], 0); eq(s("etx_sign", 0, 1)["ret"], sum(e["keys"][i["key"]][:2] == k[:2] and k[2] <= 253 for i in e["ins"]), "number of signed inputs")
SUBS = [Sub("sign", cases(), c_sign, lambda c: EG.label(c[0]), n=1600), Sub("refuse", damaged(), c_bad, lambda c: c[1], n=1600),
        Sub("reuse", st.tuples(st.lists(EG.etxs(maxin=4), min_size=2, max_size=4), st.lists(st.one_of(st.just([None, None]), damaged().map(lambda x: [x[0], None]), st.integers(0, 10**6).map(lambda n: [None, n])), min_size=4, max_size=4), st.booleans()).map(list), c_reuse, lambda c: "legacy and segwit" if len({e["seg"] for e in c[0]}) > 1 else "same type", n=500)]
