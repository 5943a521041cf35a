from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
RULE = "legacy and segwit transactions with 1..252 inputs and 0..252 outputs, scripts and witness items of 0..65537 bytes (varint limits), up to 252 witness items, extreme integers; parsed from bytes and hex, assembled through the API in several constructor forms, serialized in bytes, hex and text. Also histories of 1..8 edits of a transaction through its public members, assignment, copying and parsing. Also transactions with one length or count not in shortest form (must be refused). Also transactions followed by further bytes, single inputs, outputs, scripts and witnesses. Non-trivial: every case."
def check_tx(s, slot, t, what):
    b = R.ser_tx(t); d = s("dump", slot); w = tx_dump(t)
    for k in w: eq(d[k], w[k], "%s of the %s transaction" % (k, what))
    f = s("full", slot); eq(f["b"], b.hex(), "serialization of the %s transaction" % what); eq(f["len"], len(b), "length"); eq(txt(s("tostr", slot)["s"]), b.hex(), "text form of the %s transaction" % what)
    h = s("tx_hashes", slot); eq(h["txid"], R.txid(t).hex().encode().hex(), "txid text"); eq(h["wtxid"], R.wtxid(t).hex().encode().hex(), "wtxid text"); eq(h["hash"], R.txid(t)[::-1].hex(), "hash"); eq(h["whash"], R.wtxid(t)[::-1].hex(), "whash")
def c_parse(s, c):
    t, tail, how = c; b = R.ser_tx(t)
    for slot, (form, data) in enumerate([("raw", b + tail), ("hex", (b + tail).hex().encode()), ("shex", (b + tail).hex().encode())]):
        if form != how and len(b) > 2000: continue
        s("new", slot, "tx"); r = s("parse", slot, form, data); eq(r["st"], 0, "status (%s)" % form); eq(r["ret"], len(b), "bytes consumed (%s)" % form); check_tx(s, slot, t, "parsed (%s)" % form)
    s("new", 5, "tx"); s("fromstr", 5, b.hex().encode()); check_tx(s, 5, t, "parsed from a string")
def c_api(s, c):
    t, forms = c; tx_build(s, 0, t); check_tx(s, 0, t, "assembled"); s("new", 1, "tx"); s("parse", 1, "raw", R.ser_tx(t)); eq(s("dump", 0), s("dump", 1), "assembled and parsed transaction")
    # other constructor forms
    s("new", 2, "tx"); s("tx_set", 2, t["version"], t["locktime"])
    for k, i in enumerate(t["ins"]):
        f = forms[k % len(forms)]; s("scr", 10, i["script"]); idd = i["id"][::-1] if f & 1 else T(i["id"][::-1].hex())
        if f & 2: s("txin", 11, "b" if f & 1 else "c", idd, i["index"], i["seq"]); s("txin_scr", 11, 10)
        else: s("txin", 11, "b" if f & 1 else "c", idd, i["index"], i["seq"], 10)
        eq(s("full", 11)["b"], R.ser_in(i).hex(), "input built with form %d" % f); s("wit", 12, R.ser_wit(i["wit"]))
        if f & 4: s("txin_wit", 11, 12)
        s("tx_addin", 2, 11)
        if not f & 4: s("tx_setin", 2, k, "wit", 12)
    for k, o in enumerate(t["outs"]): s("scr", 10, o["script"]); s("txout", 11, "sa" if forms[k % len(forms)] & 1 else "as", o["amount"], 10); eq(s("full", 11)["b"], R.ser_out(o).hex(), "output"); eq(s("tx_addout", 2, 11)["ret"], k + 1, "number of outputs")
    check_tx(s, 2, t, "assembled (other constructors)")
@st.composite
def parts(draw):
    k = draw(st.sampled_from(["txin", "txout", "scr", "wit"])); v = {"txin": txin(False), "txout": txout(), "scr": scr_bytes(), "wit": wit_items()}[k]; return [k, draw(v), draw(st.binary(max_size=3))]
def c_part(s, c):
    k, v, tail = c; b = {"txin": R.ser_in, "txout": R.ser_out, "scr": R.vstr, "wit": R.ser_wit}[k](v); s("new", 0, k); r = s("parse", 0, "raw", b + tail); eq(r["st"], 0, "status of the %s" % k); eq(r["ret"], len(b), "bytes consumed by the %s" % k); d = s("dump", 0)
    f = s("full", 0); eq(f["b"], b.hex(), "serialization of the %s" % k); eq(f["len"], len(b), "length of the %s" % k)
    if k == "txin": eq([d["hash"], d["index"], d["seq"], d["script"]], [v["id"].hex(), v["index"], v["seq"], v["script"].hex()], "input fields")
    if k == "txout": eq([d["amount"], d["script"]], [v["amount"], v["script"].hex()], "output fields")
    if k == "scr": eq(d["script"], v.hex(), "script")
    if k == "wit": eq(d["count"], len(v), "witness count")
    s("new", 1, k); s("parse", 1, "hex", b.hex().encode()); eq(s("dump", 1), d, "%s parsed from hex" % k)
def c_many(s, c):
    ni, no, wit, base = c; has = (lambda k: wit) if isinstance(wit, bool) else (lambda k: k == wit % ni); i0 = dict(id=b"\7" * 32, index=1, seq=5, script=b""); o0 = dict(amount=7, script=b"")
    t = dict(base, ins=[dict(i0, index=k, wit=[b"w"] if has(k) else []) for k in range(ni)], outs=[dict(o0, amount=k) for k in range(no)]); b = R.ser_tx(t); s("new", 0, "tx"); r = s("parse", 0, "raw", b)
    if r["st"] == 0: eq(s("full", 0)["b"], b.hex(), "serialization of an accepted transaction with %d inputs and %d outputs" % (ni, no)); eq(r["ret"], len(b), "bytes consumed"); check_tx(s, 0, t, "accepted")
    else: expect(ni > 252 or no > 252, "transaction with %d inputs and %d outputs refused", ni, no)
    # assembled, any number of them serializes
    s("new", 1, "tx"); s("tx_set", 1, t["version"], t["locktime"]); s("wit", 12, R.ser_wit([b"w"])); s("scr", 10, b""); q = []
    for i in t["ins"]: q += [("txin", 11, "b", i["id"][::-1], i["index"], i["seq"])] + ([("txin_wit", 11, 12)] if i["wit"] else []) + [("tx_addin", 1, 11)]
    for o in t["outs"]: q += [("txout", 11, "as", o["amount"], 10), ("tx_addout", 1, 11)]
    s.calls(q); f = s("full", 1); eq(f["b"], b.hex(), "serialization of an assembled transaction with %d inputs and %d outputs" % (ni, no)); eq(f["len"], len(b), "length"); h = s("tx_hashes", 1); eq(h["txid"], R.txid(t).hex().encode().hex(), "txid"); eq(h["wtxid"], R.wtxid(t).hex().encode().hex(), "wtxid")
    eq(s("windows", 1, ni)["bad"], None, "windows into the serialization of a transaction with %d inputs and %d outputs" % (ni, no))
def c_reuse(s, c):
    l, cut = c; s("new", 0, "tx"); s("new", 1, "txin"); s("new", 2, "txout")
    for t in l: r = s("parse", 0, "raw", R.ser_tx(t)); eq(r["st"], 0, "status of a repeated parse"); check_tx(s, 0, t, "parsed again")
    for t in l:
        if t["outs"]: s("parse", 2, "raw", R.ser_out(t["outs"][-1])); eq(s("full", 2)["b"], R.ser_out(t["outs"][-1]).hex(), "output parsed again")
        s("parse", 1, "raw", R.ser_in(t["ins"][-1])); d = s("dump", 1); eq(s("full", 1)["b"], R.ser_in(t["ins"][-1]).hex(), "input parsed again"); eq([d["wcount"], d["segwit"]], [0, 0], "witness of an input parsed again")
        s("wit", 3, R.ser_wit([b"x", b"y"])); s("txin_wit", 1, 3)
    # a refused or unfinished parse, then reset and a good one
    b = R.ser_tx(l[0]); s("parse", 0, "raw", b[:cut % len(b)]); s("rst", 0); r = s("parse", 0, "raw", b); eq(r["st"], 0, "status after reset"); check_tx(s, 0, l[0], "parsed after a reset")
def c_edit(s, c):
    """a transaction changed step by step through its members; everything read from it follows each step"""
    t, api, es = c
    if api: tx_build(s, 0, t)
    else: s("new", 0, "tx"); s("parse", 0, "raw", R.ser_tx(t))
    check_tx(s, 0, t, "first"); log = []
    for e in es: t = tx_apply(s, 0, t, e); log.append(e[0]); check_tx(s, 0, t, "edited (%s)" % ", ".join(log))
def longv(n, k): return bytes([252 + k]) + n.to_bytes(1 << k, "little")
@st.composite
def longform(draw):
    """a transaction one of whose lengths or counts is written in a longer form than needed"""
    t = draw(txs(maxin=8, maxout=8).filter(tx_small)); sites = ["ni", "no"] + [("in", k) for k in range(len(t["ins"]))] + [("out", k) for k in range(len(t["outs"]))]
    if R.has_wit(t): sites += [("wn", k) for k in range(len(t["ins"]))] + [("w", k, j) for k, i in enumerate(t["ins"]) for j in range(len(i["wit"]))] * 2
    return [t, list(x) if isinstance(x := draw(st.sampled_from(sites)), tuple) else [x], draw(st.integers(1, 3))]
def ser_long(t, site, k):
    site = tuple(site); v = lambda n, *w: longv(n, k if n < 253 else max(k, 2) if n < 65536 else 3) if w == site else R.varint(n); vs = lambda b, *w: v(len(b), *w) + b; p = lambda n: n.to_bytes(4, "little")
    r = p(t["version"]) + (b"\0\1" if R.has_wit(t) else b"") + v(len(t["ins"]), "ni") + b"".join(i["id"] + p(i["index"]) + vs(i["script"], "in", n) + p(i["seq"]) for n, i in enumerate(t["ins"])) + v(len(t["outs"]), "no") + b"".join(o["amount"].to_bytes(8, "little") + vs(o["script"], "out", n) for n, o in enumerate(t["outs"]))
    if R.has_wit(t): r += b"".join(v(len(i["wit"]), "wn", n) + b"".join(vs(x, "w", n, j) for j, x in enumerate(i["wit"])) for n, i in enumerate(t["ins"]))
    return r + p(t["locktime"])
def c_long(s, c):
    t, site, k = c; eq(ser_long(t, [], 1), R.ser_tx(t), "self-test of the generator"); b = ser_long(t, site, k); s("new", 0, "tx"); r = s("parse", 0, "raw", b); expect(r["st"] == 2, "a transaction with a length or count not in shortest form (%s) is not refused: status %d, parsed as %s", site, r["st"], s("dump", 0))
    s("new", 1, "tx"); eq(s("parse", 1, "hex", b.hex().encode())["st"], 2, "status of the same transaction in hex")
    s("rst", 0); r = s("parse", 0, "raw", R.ser_tx(t)); eq(r["st"], 0, "status of a good parse after a reset"); check_tx(s, 0, t, "parsed after a refused one and a reset")
E1 = dict(version=1, locktime=0, ins=[dict(id=b"\1" * 32, index=0, seq=0xffffffff, script=b"", wit=[])], outs=[])
SUBS = [Sub("parse", st.tuples(txs(), st.one_of(st.just(b""), st.binary(max_size=4)), st.sampled_from(["raw", "hex", "shex"])).map(list), c_parse, lambda c: tx_label(c[0]), n=2400, examples=[[E1, b"", "raw"]]),
        Sub("api", st.tuples(txs(maxin=60, maxout=60).filter(tx_small), st.lists(st.integers(0, 7), min_size=1, max_size=6)).map(list), c_api, lambda c: tx_label(c[0]), n=1200),
        Sub("parts", parts(), c_part, lambda c: c[0], n=2400),
        Sub("counts", st.tuples(st.one_of(st.sampled_from([1, 251, 252, 253, 254, 255, 256, 257, 300, 509]), st.integers(1, 600)), st.one_of(st.sampled_from([0, 1, 251, 252, 253, 254, 255, 256, 257]), st.integers(0, 600)), st.one_of(st.booleans(), st.integers(-3, 600)), st.fixed_dictionaries(dict(version=u32, locktime=u32))).map(list), c_many, lambda c: "counts" if max(c[:2]) > 250 else None, n=400, examples=[[n, 1, w, dict(version=2, locktime=0)] for n in (252, 253, 257, 300) for w in (-1, 252, 255)]),
        Sub("longform", longform(), c_long, lambda c: c[1][0], n=900),
        Sub("reuse", st.tuples(st.lists(txs(maxin=20, maxout=20).filter(tx_small), min_size=1, max_size=3), st.integers(0, 10**6)).map(list), c_reuse, lambda c: "reuse" if len(c[0]) > 1 else None, n=600),
        Sub("edit", st.tuples(txs(maxin=20, maxout=20).filter(tx_small), st.booleans(), st.lists(tx_edit(), min_size=1, max_size=8)).map(list), c_edit, lambda c: "%d edits" % len(c[2]), n=800)]
