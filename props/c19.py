from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
from c17 import check_tx
RULE = "legacy and segwit transactions with 1..252 inputs and 0..252 outputs (parsed or assembled), any input index, script codes of 0..65537 bytes, extreme amounts, sequences and locktimes: SIGHASH_ALL, NONE and SINGLE digests against the BIP-143 / legacy reference; and histories of 1..6 signings of inputs (P2PKH, P2SH, P2WPKH, P2SH-P2WPKH, P2WSH, P2SH-P2WSH; compressed and uncompressed keys; inputs that already carry scripts and witnesses; the same input again; each sighash type). Also digests taken after each of 1..6 edits of a transaction. Also assembled transactions of up to 600 inputs and outputs. Non-trivial: every case."
def load(s, slot, t, api):
    if api and tx_small(t): tx_build(s, slot, t)
    else: s("new", slot, "tx"); eq(s("parse", slot, "raw", R.ser_tx(t))["st"], 0, "status")
@st.composite
def hcases(draw):
    t = draw(txs()); n = len(t["ins"]); qs = [[draw(st.one_of(st.integers(0, n - 1), st.sampled_from([0, n - 1]))), draw(scr_bytes()), draw(u64)] for _ in range(draw(st.integers(1, 3)))]
    return [t, draw(st.booleans()), qs]
def c_hash(s, c):
    t, api, qs = c; load(s, 0, t, api); h = s("tx_hashes", 0); eq(h["prev"], R.hash_prevouts(t).hex(), "hashPrevouts"); eq(h["seq"], R.hash_seq(t).hex(), "hashSequence"); eq(h["outs"], R.hash_outs(t).hex(), "hashOutputs")
    for i, sc, a in qs:
        s("new", 1, "scr"); s("parse", 1, "raw", R.vstr(sc))
        for x in ([], [1], [2], [3]):
            ty = (x or [1])[0]; r = s("tx_sighash", 0, i, 1, *x); eq(r["h"], R.sighash_legacy(t, i, sc, ty).hex(), "legacy digest (type %d) of input %d" % (ty, i)); eq(r["ret"], 32, "length of the digest")
            r = s("tx_sighashw", 0, i, 1, a, *x); eq(r["h"], R.sighash_segwit(t, i, sc, a, ty).hex(), "segwit digest (type %d) of input %d, amount %d" % (ty, i, a)); eq(r["ret"], 32, "length of the digest")
    check_tx(s, 0, t, "hashed")
KINDS = ["pkh", "pkh*", "sh", "wpkh", "wpkh*", "wpkhd", "shwpkh", "shwpkh*", "wsh", "shwsh"]
def wpkh(p): return b"\0\x14" + R.hash160(p)
redeem = st.one_of(scr_bytes(False), st.integers(1, 15).map(lambda n: b"\x51" + b"\x21\x02" + bytes(32) + bytes([0x50 + n, 0xae])), st.sampled_from([1, 16, 74, 75, 76, 77, 78, 252, 253, 254, 255, 256, 257, 258, 519, 520, 521, 2000]).map(lambda n: R.expand(n, n))).filter(lambda b: b and not (len(b) == 22 and b[:2] == b"\0\x14") and not (len(b) == 25 and b[:3] == b"\x76\xa9\x14" and b[23:] == b"\x88\xac"))
@st.composite
def scases(draw):
    t = draw(txs(maxin=40, maxout=20).filter(tx_small)); n = len(t["ins"]); ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(KINDS)); ops.append([draw(st.one_of(st.integers(0, n - 1), st.sampled_from([0, n - 1]))), k, draw(secret), draw(st.booleans()) if k in ("pkh", "pkh*", "sh", "wsh", "shwsh") else True, draw(redeem), draw(u64), draw(st.sampled_from([0, 1, 2, 2, 3, 3]))])      # type 0: ALL by default
    return [t, draw(st.booleans()), ops]
def c_sign(s, c):
    t, api, ops = c; load(s, 0, t, api); t = dict(t, ins=[dict(i) for i in t["ins"]])
    for i, k, d, comp, red, a, st_ in ops:
        p = R.sec(R.mulG(d), comp); s("prv", 1, R.b32(d), comp, 0); pkh = R.spk_pkh(R.hash160(p)); ssig, wit = b"", []
        if k[:3] == "pkh": sc = pkh
        elif "wpkh" in k: sc = wpkh(p)
        else: sc = red
        s("scr", 2, sc)
        if k in ("pkh", "wpkh", "shwpkh"): st_ = 0          # no type to choose in this form
        ty_ = st_ or 1; x = [st_] if st_ else []; z = R.sighash_legacy(t, i, sc, ty_) if k in ("pkh", "pkh*", "sh") else R.sighash_segwit(t, i, pkh if "wpkh" in k else sc, a, ty_); r, v, _ = R.ecdsa_sign(d, z); sig = R.der(r, v) + bytes([ty_])
        if k == "pkh": g = s("tx_sign", 0, i, 1)
        elif k in ("pkh*", "sh"): g = s("tx_sign", 0, i, 1, 2, *x)
        else:
            ty = {"wpkh": R.P2WPKH, "wpkh*": R.P2WPKH, "wpkhd": R.P2WPKH, "shwpkh": R.P2SH_P2WPKH, "shwpkh*": R.P2SH_P2WPKH, "wsh": R.P2WSH, "shwsh": R.P2SH_P2WSH}[k]
            g = s("tx_signw", 0, i, 1, a, ty) if k in ("wpkh", "shwpkh") else s("tx_signw", 0, i, 1, a, ty, 2, *x)
        eq([g["r"], g["s"]], [R.b32(r).hex(), R.b32(v).hex()], "signature of input %d (%s, sighash type %d)" % (i, k, ty_))
        if k[:3] == "pkh": t["ins"][i]["script"] = R.push(sig) + R.push(p)
        elif k == "sh": t["ins"][i]["script"] = R.push(sig) + R.push(p) + R.push(red)
        else:
            t["ins"][i]["script"] = b"" if k[:2] != "sh" else R.push(sc) if "wpkh" in k else R.push(b"\0\x20" + R.sha256(sc))
            t["ins"][i]["wit"] = [sig, p] + ([] if "wpkh" in k else [sc])
        check_tx(s, 0, t, "signed (%s)" % k)
def c_many(s, c):
    """assembled transactions of any number of inputs and outputs"""
    ni, no, wi, i, sc, a, d = c; ins = [dict(id=R.expand(k, 32), index=k * 7, seq=(0xfffffffe - k * 1001) & 0xffffffff, script=b"\x51" if k % 3 == 0 else b"", wit=[b"w"] if k == wi else []) for k in range(ni)]; outs = [dict(amount=k * 1001 + 1, script=bytes([k & 255]) * (k % 4)) for k in range(no)]
    t = dict(version=2, locktime=500, ins=ins, outs=outs); i %= min(ni, 256); q = [("new", 0, "tx"), ("tx_set", 0, 2, 500), ("new", 13, "wit"), ("wit_push", 13, "bytes", b"w")]
    for x in ins: q += [("scr", 10, x["script"]), ("txin", 11, "b", x["id"][::-1], x["index"], x["seq"], 10)] + ([("txin_wit", 11, 13)] if x["wit"] else []) + [("tx_addin", 0, 11)]
    for o in outs: q += [("scr", 10, o["script"]), ("txout", 11, "as", o["amount"], 10), ("tx_addout", 0, 11)]
    s.calls(q); h = s("tx_hashes", 0); what = " of a transaction with %d inputs and %d outputs" % (ni, no); eq(h["prev"], R.hash_prevouts(t).hex(), "hashPrevouts" + what); eq(h["seq"], R.hash_seq(t).hex(), "hashSequence" + what); eq(h["outs"], R.hash_outs(t).hex(), "hashOutputs" + what)
    s("scr", 1, sc); [(eq(s("tx_sighash", 0, i, 1, ty)["h"], R.sighash_legacy(t, i, sc, ty).hex(), "legacy digest (type %d) of input %d" % (ty, i) + what), eq(s("tx_sighashw", 0, i, 1, a, ty)["h"], R.sighash_segwit(t, i, sc, a, ty).hex(), "segwit digest (type %d) of input %d" % (ty, i) + what)) for ty in (1, 2, 3)]
    p = R.sec(R.mulG(d), True); s("prv", 2, R.b32(d), True, 0); z = R.sighash_segwit(t, i, R.spk_pkh(R.hash160(p)), a); r, v, _ = R.ecdsa_sign(d, z); sig = R.der(r, v) + b"\1"; s("tx_signw", 0, i, 2, a, R.P2WPKH); ins[i]["script"] = b""; ins[i]["wit"] = [sig, p]
    eq(s("full", 0)["b"], R.ser_tx(t).hex(), "signed transaction with %d inputs and %d outputs" % (ni, no))
def c_edit(s, c):
    """digests follow every change of the transaction"""
    t, api, es, sc, a, i = c; load(s, 0, t, api); s("scr", 1, sc); log = []
    for e in [None] + es:
        if e: t = tx_apply(s, 0, t, e); log.append(e[0])
        what = " after the edits " + ", ".join(log); h = s("tx_hashes", 0); eq(h["prev"], R.hash_prevouts(t).hex(), "hashPrevouts" + what); eq(h["seq"], R.hash_seq(t).hex(), "hashSequence" + what); eq(h["outs"], R.hash_outs(t).hex(), "hashOutputs" + what)
        for j in {i % len(t["ins"]), len(t["ins"]) - 1}:
            for ty in (1, 2, 3): eq(s("tx_sighash", 0, j, 1, ty)["h"], R.sighash_legacy(t, j, sc, ty).hex(), "legacy digest (type %d) of input %d" % (ty, j) + what); eq(s("tx_sighashw", 0, j, 1, a, ty)["h"], R.sighash_segwit(t, j, sc, a, ty).hex(), "segwit digest (type %d) of input %d" % (ty, j) + what)
    p = R.sec(R.mulG(5), True); s("prv", 2, R.b32(5), True, 0); j = i % len(t["ins"]); z = R.sighash_segwit(t, j, R.spk_pkh(R.hash160(p)), a); r, v, _ = R.ecdsa_sign(5, z); t = dict(t, ins=[dict(x) for x in t["ins"]]); t["ins"][j].update(script=b"", wit=[R.der(r, v) + b"\1", p]); s("tx_signw", 0, j, 2, a, R.P2WPKH); check_tx(s, 0, t, "signed after the edits " + ", ".join(log))
cnt = st.one_of(st.sampled_from([251, 252, 253, 254, 255, 256, 257, 258, 300, 512, 513]), st.integers(200, 600))
SUBS = [Sub("edit", st.tuples(txs(maxin=20, maxout=20).filter(tx_small), st.booleans(), st.lists(tx_edit(), min_size=1, max_size=6), scr_bytes(False), u64, st.integers(0, 60)).map(list), c_edit, lambda c: "%d edits" % len(c[2]), n=800),
        Sub("digest", hcases(), c_hash, lambda c: tx_label(c[0]), n=2400),
        Sub("sign", scases(), c_sign, lambda c: "+".join(sorted({o[1] for o in c[2]}))[:40], n=1600),
        Sub("many", st.tuples(cnt | st.integers(1, 10), cnt | st.integers(0, 10), st.integers(0, 300), st.sampled_from([0, 1, 44, 255, 252]) | st.integers(0, 255), scr_bytes(False), u64, secret).map(list).filter(lambda c: max(c[:2]) > 10), c_many, lambda c: "many inputs" if c[0] > 252 else "many outputs" if c[1] > 252 else "many", n=240, examples=[[n, m, 0, i, b"\x51", 5, 1] for n, m in ((257, 1), (300, 2), (513, 1), (1, 300)) for i in (0, 1, 255)])]
