import base64
from hypothesis import strategies as st
import ref as R, psbtgen as PG
from gens import *
from client import expect, eq
from runner import Sub
RULE = "PSBTs with up to 600 partial signatures, 600 derivations and 257-step paths, and with several hundred inputs and keys to sign for; structurally arbitrary PSBTs (up to 252 inputs and outputs; unknown pairs, any pair order, value lengths around the varint limits, both kinds of UTXO, previous transactions of up to 252 inputs and outputs spent at any index, partial signatures with other sighash bytes, also of the keys to sign with and of their negations) and wallet PSBTs (P2PKH, P2WPKH, P2SH-P2WPKH, P2SH/P2WSH/P2SH-P2WSH multisig and single-key scripts, bare scripts; keys of the root, of another root, with a colliding fingerprint, wrong path or random key; paths sharing, shortening and extending each other), signed once and twice, and in turn with several roots, also ones that share the fingerprint; and damaged PSBTs (wrong previous transaction, index out of range, truncated, bad magic, bad key or derivation lengths). Non-trivial: every case."
def load(s, slot, b, how):
    s("new", slot, "psbt")
    if how == "raw": r = s("parse", slot, "raw", b); eq(r["ret"], len(b), "bytes consumed")
    elif how == "b64": r = s("psbt_b64", slot, base64.b64encode(b)); eq(r["ret"], len(b), "bytes of the Base64 form")
    else: r = s("parse", slot, "hex", b.hex().encode())
    return r["st"]
def c_parse(s, c):
    p, how = c; b = PG.ser(p); eq(load(s, 0, b, how), 0, "status of the PSBT %s" % b.hex()[:2000]); PG.check_dump(s("dump", 0), p, eq)
    w = PG.out_ser(p, PG.in_sigs(p)); f = s("full", 0); eq(f["b"], w.hex(), "serialization"); eq(f["len"], len(w), "length"); eq(bytes.fromhex(s("psbt_tob64", 0)["s"]), base64.b64encode(w), "Base64 form"); eq(s("psbt_fee", 0)["fee"], PG.fee(p), "fee")
def c_sign(s, c):
    w, how = c; p = w["psbt"]; b = PG.ser(p); eq(load(s, 0, b, how), 0, "status of the PSBT %s" % b.hex()[:2000]); PG.check_dump(s("dump", 0), p, eq); rt = PG.root_of(w)
    s("hd_ctor", 1, R.b32(rt.k), rt.c, 0, bytes(4), 0, rt.net, 0); own = PG.own_sigs(w); n = sum(map(len, own))
    for rnd in (1, 2):
        eq(s("psbt_sign", 0, 1)["ret"], n, "number of signatures (round %d)" % rnd); out = bytes.fromhex(s("full", 0)["b"]); m = PG.parse_maps(out, 1 + len(p["ins"]) + len(p["outs"])); expect(m is not None, "the signed PSBT is not well-formed: %s", out.hex())
        eq([m[0]], [[(b"\0", R.ser_tx(p["tx"], False))]], "transaction of the signed PSBT")
        for k, i in enumerate(p["ins"]):
            want = {x[0]: R.der(R.I(x[1]), R.I(x[2])) + bytes([x[3]]) for x in i["sigs"]}; want.update(own[k]); got = {a[1:].hex(): v.hex() for a, v in m[1 + k] if a[:1] == b"\2"}
            eq(got, {a.hex(): v.hex() for a, v in want.items()}, "signatures of input %d (round %d)" % (k, rnd)); eq(len(m[1 + k]), len(want), "pairs of input %d (round %d)" % (k, rnd))
        PG.check_dump(s("dump", 0), p, eq, sigs=False)
    s("new", 2, "psbt"); r = s("parse", 2, "raw", out); eq(r["st"], 0, "status of the signed PSBT read back"); eq(s("full", 2)["b"], out.hex(), "signed PSBT read back"); eq(s("psbt_fee", 0)["fee"], PG.fee(p), "fee")
@st.composite
def damaged(draw):
    p = draw(PG.psbts(small=True)); k = draw(st.integers(0, 8)); n = draw(st.integers(0, len(p["ins"]) - 1)); i = p["ins"][n]; b = None; why = ""
    if k <= 1:
        out = dict(amount=draw(PG.amount), script=b"\x51"); ix = draw(PG.previndex); t = draw(PG.prevtx(out, ix)); p["tx"]["ins"][n].update(index=ix, id=R.txid(t)[::-1]); i["nonwit"] = t
        if k == 0:
            q = draw(st.integers(0, 3)); why = "previous transaction does not match"
            if q == 0: t["locktime"] ^= 1
            elif q == 1: t["outs"][ix]["amount"] ^= 1 << draw(st.integers(0, 40))
            elif q == 2: x = bytearray(p["tx"]["ins"][n]["id"]); x[draw(st.integers(0, 31))] ^= 1; p["tx"]["ins"][n]["id"] = bytes(x)
            else: p["tx"]["ins"][n]["id"] = p["tx"]["ins"][n]["id"][::-1]
        else: p["tx"]["ins"][n]["index"] = len(t["outs"]) + draw(st.sampled_from([0, 1, 255, 2**31, 2**32 - 1 - len(t["outs"])])); why = "output index out of range"; 
        if k == 1:   # serialized by hand: utxo() must not be asked
            pass
    elif k == 2: b = PG.ser(p); b = b[:draw(st.integers(0, len(b) - 1))]; why = "truncated"
    elif k == 3: b = bytearray(PG.ser(p)); b[draw(st.integers(0, 4))] ^= 1 << draw(st.integers(0, 7)); b = bytes(b); why = "magic"
    elif k == 4: b = PG.ser(p); x = draw(st.sampled_from([b"\0", b"\1\1", b"\1\xfb", b"\2\0\0"])); b = b[:5] + x + (b[7:] if x != b"\0" else b[5:]); why = "no transaction first"
    elif k == 5: d = i if draw(st.booleans()) or not p["outs"] else p["outs"][0]; d["extra"] = [[(b"\6" if d is i else b"\2") + R.sec(R.mulG(7)), draw(st.binary(max_size=3)) if draw(st.booleans()) else bytes(4 * draw(st.integers(1, 4)) + draw(st.integers(1, 3)))]]; why = "derivation length"
    elif k == 6: d = i if draw(st.booleans()) or not p["outs"] else p["outs"][0]; d["extra"] = [[(b"\6" if d is i else b"\2") + draw(st.sampled_from([b"", b"\2" * 32, b"\2" + b"\xff" * 32, b"\5" + bytes(32), R.sec(R.mulG(7)) + b"\0", R.sec(R.mulG(7), False)[:-1], b"\4" + bytes(64)])), bytes(8)]]; why = "derivation key"
    elif k == 7: i["extra"] = [draw(st.sampled_from([[b"\2" + R.sec(R.mulG(7)), b"\x30\x06\x02\x01\x00\x02\x02\x01\x01"], [b"\2" + R.sec(R.mulG(7))[:-1], R.der(5, 5) + b"\1"], [b"\2" + R.sec(R.mulG(7)), b""], [b"\1\1", R.ser_out(dict(amount=1, script=b""))], [b"\0\0", R.ser_out(dict(amount=1, script=b""))], [b"\4\4", b"aa"], [b"\5\5", b"aa"], [b"\0", b"\1"], [b"\1", b"\1" * 8]]))]; i["wit"] = i["nonwit"] = None; i["sigs"] = []; why = "malformed pair"
    elif k == 8 and p["outs"]: o = p["outs"][draw(st.integers(0, len(p["outs"]) - 1))]; t = draw(st.sampled_from(["redeem", "wscript"])); o[t] = b""; o["extra"] = [[bytes([t == "wscript"]) + draw(st.sampled_from([b"\0", b"\1", R.sec(R.mulG(7)), bytes(33)])), draw(st.sampled_from([b"", b"\x51", bytes(34)]))]]; why = "key of an output script"
    elif k == 8: b = PG.ser(p)[:-1]; why = "truncated"
    return [b if b is not None else PG.ser(p), why]
def c_bad(s, c):
    b, why = c; s("new", 0, "psbt"); r = s("parse", 0, "raw", b); expect(r["st"] != 0, "PSBT accepted although %s: %s", why, b.hex()); eq(s("dump", 0)["valid"], 0, "valid")
    s("hd_seed", 1, b"s" * 16, 0); s("psbt_sign", 0, 1); s("full", 0)
@st.composite
def mismatch(draw):
    """a PSBT whose previous transaction of one input is not the one spent: the id differs in one bit or is the hash with the witness, or the transaction differs"""
    p = draw(PG.psbts(maxin=2, maxout=1)) if draw(st.booleans()) else draw(PG.wallets(2, 1))["psbt"]; n = draw(st.integers(0, len(p["ins"]) - 1)); i, ti = p["ins"][n], p["tx"]["ins"][n]
    if i["nonwit"] is None: ti["index"] = draw(PG.previndex); i["nonwit"] = draw(PG.prevtx(i["wit"] or dict(amount=5, script=b"\x51"), ti["index"]))
    t = i["nonwit"]; ti["id"] = R.txid(t)[::-1]; ti["seq"] = draw(st.one_of(u32, st.sampled_from([0xffffffff, 0xfffffffe, 0]))); q = draw(st.integers(0, 6))
    if q == 6 and R.wtxid(t) != R.txid(t): ti["id"] = R.wtxid(t)[::-1]          # the hash with the witness is not the id
    elif q in (0, 1, 2, 3, 6): x = bytearray(ti["id"]); x[draw(st.one_of(st.sampled_from([0, 31]), st.integers(0, 31)))] ^= 1 << draw(st.integers(0, 7)); ti["id"] = bytes(x)
    elif q == 4: t["outs"][draw(st.integers(0, len(t["outs"]) - 1))]["amount"] ^= 1 << draw(st.integers(0, 63))
    else: k = draw(st.sampled_from(["locktime", "version"])); t[k] ^= 1 << draw(st.integers(0, 31))
    return [PG.ser(p), "previous transaction does not match"]
_S = {}
def rsig(k):
    if k not in _S: _S[k] = [R.sec(R.mulG(k + 1), k % 7 != 3), R.b32(R.I(R.sha256(b"r%d" % k)) % (R.N - 1) + 1), R.b32(R.I(R.sha256(b"s%d" % k)) % (R.N - 1) + 1), [1, 1, 2, 3, 0x81][k % 5]]
    return _S[k]
def _many(ni, no, nsig, ndi, ndo, plen, at):
    """PSBT of ni inputs and no outputs; input `at` carries nsig signatures and ndi derivations, an output ndo derivations, with paths of plen steps"""
    at %= ni; e = lambda: dict(nonwit=None, wit=None, sigs=[], redeem=b"", wscript=b"", ders=[], extra=[], order=0); ders = lambda n: [[rsig(k)[0], R.sha256(b"%d" % k)[:4], [(k * 7919 + j) % 2**32 for j in range(plen)]] for k in range(n)]
    ins = [e() for _ in range(ni)]; outs = [dict(redeem=b"", wscript=b"", ders=[], extra=[], order=0) for _ in range(no)]; ins[at].update(sigs=[rsig(k) for k in range(nsig)], ders=ders(ndi), wit=dict(amount=77, script=b"\x51")); outs[0]["ders"] = ders(ndo)
    return dict(tx=dict(version=2, locktime=0, ins=[dict(id=R.sha256(b"%d" % k), index=k, seq=0xfffffffe, script=b"", wit=[]) for k in range(ni)], outs=[dict(amount=k, script=b"\x51") for k in range(no)]), ins=ins, outs=outs, glob=[])
def c_many(s, c):
    """many signatures and derivations: all of them are kept, or (more than 255 derivations or path steps) the PSBT is refused"""
    *a, how = c; p = _many(*a); b = PG.ser(p); r = None; big = max(a[3], a[4], a[5] if a[3] or a[4] else 0) > 255
    if not big: return c_parse(s, [p, how])
    s("new", 0, "psbt"); r = s("parse", 0, "raw", b)
    if r["st"] == 0: return PG.check_dump(s("dump", 0), p, eq)
    eq(s("dump", 0)["valid"], 0, "valid"); s("hd_seed", 1, b"s" * 16, 0); s("psbt_sign", 0, 1); s("full", 0)
def c_signmany(s, c):
    """every signature of the own key is made and counted, however many"""
    n, per, seed = c; rt = R.XPrv.seed(bytes(seed), 0); fp = rt.fpr(); keys = [rt.path([j]) for j in range(per)]; pubs = [R.sec(k.pub().p) for k in keys]; p = _many(n, 1, 0, 0, 0, 0, 0)
    for k, i in enumerate(p["ins"]): i["wit"] = dict(amount=1000 + k, script=b"\0\x20" + R.sha256(b"\x51\xac")); i["wscript"] = b"\x51\xac"; i["ders"] = [[pubs[j], fp, [j]] for j in range(per)]
    eq(load(s, 0, PG.ser(p), "raw"), 0, "status"); s("hd_ctor", 1, R.b32(rt.k), rt.c, 0, bytes(4), 0, 0, 0); eq(s("psbt_sign", 0, 1)["ret"], n * per, "number of signatures")
    out = bytes.fromhex(s("full", 0)["b"]); m = PG.parse_maps(out, n + 2); expect(m is not None, "the signed PSBT is not well-formed: %s", out.hex()); eq([{x[0] for x in y} for y in m[1:-1]], [{b"\2" + q for q in pubs}] * n, "signed keys")
    for k in {0, n - 1}: eq({a[1:]: v for a, v in m[1 + k]}, {pubs[j]: R.der(*R.ecdsa_sign(keys[j].k, PG.digest_of(p, k, pubs[j]))[:2]) + b"\1" for j in range(per)}, "signatures of input %d" % k)
def c_reuse(s, c):
    """several PSBTs, one after the other, in one object; unfinished or refused ones in between, after which it is reset"""
    l, bad, sg = c; s("new", 0, "psbt"); s("hd_seed", 1, b"s" * 16, 0)
    for p, (b, k) in zip(l, bad):
        w = PG.ser(p)
        if b is not None: s("parse", 0, "raw", b); s("rst", 0)
        elif k is not None: s("parse", 0, "raw", w[:k % len(w)]); s("rst", 0)
        r = s("parse", 0, "raw", w); eq([r["ret"], r["st"]], [len(w), 0], "bytes consumed and status of a repeated parse"); PG.check_dump(s("dump", 0), p, eq)
        if sg: s("psbt_sign", 0, 1)
@st.composite
def twins(draw):
    """wallet PSBTs and two or three root keys, some with the same secret (and so the same fingerprint) but another chain code"""
    a = R.XPrv.seed(draw(rbytes(16)), 0); b = R.XPrv(a.k, draw(rbytes(32)), net=0); l = [draw(PG.wallets(2, 1, root=r)) for r in (a, b)]
    if draw(st.booleans()): l.append(draw(PG.wallets(2, 1)))
    if draw(st.integers(0, 2)): # the same paths under both
        w = l[0]; v = dict(w, root=[b.k, b.c, 0], psbt=dict(w["psbt"], ins=[dict(i) for i in w["psbt"]["ins"]])); l[1] = v
        for i in v["psbt"]["ins"]:
            d = {}
            for pub, fp, path in i["ders"]: k = b.path(path); q = R.sec(k.pub().p) if k is not None else pub; d.setdefault(q, [q, fp, path])
            i["ders"] = list(d.values())
    return [l, draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2)).map(list), min_size=2, max_size=7))]
def c_twins(s, c):
    """several PSBTs and root keys in one process: each root signs exactly for its own keys, whatever was signed before"""
    l, ops = c; roots = []
    for w in l:
        if w["root"] not in roots: roots.append(w["root"])
    for j, r in enumerate(roots): s("hd_ctor", 40 + j, R.b32(r[0]), r[1], 0, bytes(4), 0, r[2], 0)
    want = []
    for j, w in enumerate(l): eq(load(s, j, PG.ser(w["psbt"]), "raw"), 0, "status of the PSBT"); want.append([{x[0]: R.der(R.I(x[1]), R.I(x[2])) + bytes([x[3]]) for x in i["sigs"]} for i in w["psbt"]["ins"]])
    memo = {}
    for a, b in ops:
        a %= len(l); b %= len(roots)
        if (a, b) not in memo: memo[a, b] = PG.own_sigs(dict(l[a], root=roots[b]))
        own = memo[a, b]; eq(s("psbt_sign", a, 40 + b)["ret"], sum(map(len, own)), "signatures of PSBT %d with root %d in %s" % (a, b, ops)); p = l[a]["psbt"]
        for x, y in zip(want[a], own): x.update(y)
        out = bytes.fromhex(s("full", a)["b"]); m = PG.parse_maps(out, 1 + len(p["ins"]) + len(p["outs"])); expect(m is not None, "the signed PSBT is not well-formed: %s", out.hex())
        eq([{k[1:].hex(): v.hex() for k, v in x} for x in m[1:1 + len(p["ins"])]], [{k.hex(): v.hex() for k, v in x.items()} for x in want[a]], "signatures of PSBT %d after %s" % (a, ops))
cnt = st.one_of(st.sampled_from([0, 1, 3]), st.sampled_from([127, 128, 252, 253, 254, 255]), st.sampled_from([255, 256, 257, 258, 260, 300, 511, 512, 513, 600]))
how = st.sampled_from(["raw", "raw", "b64", "hex"])
SUBS = [Sub("parse", st.tuples(PG.psbts(), how).map(list), c_parse, lambda c: PG.label(c[0]), n=2400),
        Sub("sign", st.tuples(PG.wallets(), how).map(list), c_sign, lambda c: PG.label(c[0]["psbt"]), n=1200),
        Sub("refuse", damaged(), c_bad, lambda c: c[1], n=2000),
        Sub("many", st.tuples(st.sampled_from([1, 1, 2, 3, 128, 252]), st.sampled_from([1, 2, 252]), cnt, cnt, cnt, st.one_of(st.integers(0, 6), st.sampled_from([63, 64, 127, 128, 253, 254, 255, 256, 257])), st.integers(0, 251), how).map(list).filter(lambda c: (c[3] + c[4]) * c[5] < 140000), c_many, lambda c: "sigs%s ders%s" % tuple(">255" if x > 255 else ">0" if x else "0" for x in (c[2], max(c[3:5]))), n=160),
        Sub("signmany", st.tuples(st.one_of(st.integers(100, 252), st.sampled_from([64, 86, 127, 128, 252])), st.sampled_from([1, 2, 3]), st.binary(min_size=16, max_size=16)).filter(lambda c: c[0] * c[1] >= 200).map(list), c_signmany, lambda c: ">255" if c[0] * c[1] > 255 else "<=255", n=16),
        Sub("reuse", st.tuples(st.lists(PG.psbts(maxin=3, maxout=3), min_size=2, max_size=4), st.lists(st.one_of(st.just([None, None]), damaged().map(lambda x: [x[0], None]), st.integers(0, 10**6).map(lambda n: [None, n])), min_size=4, max_size=4), st.booleans()).map(list), c_reuse, lambda c: "reuse", n=600),
        Sub("twins", twins(), c_twins, lambda c: "%d PSBTs" % len(c[0]), n=400),
        Sub("prevtx", mismatch(), c_bad, lambda c: c[1], n=1500)]
