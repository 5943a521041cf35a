from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
import psbtgen as PG, etxgen as EG
RULE = "serializations of scalars, points, keys, extended keys, signatures, scripts, witnesses, inputs, outputs, transactions and PSBTs: valid, followed by further bytes, truncated, or with bytes altered; cut into consecutive chunks (byte by byte, random cuts, empty chunks included), binary and hex; windows (offset, size) over valid objects, binary, hex and string; streams holding several objects and plain bytes one after another, read and written through one stream object. Non-trivial: more than one chunk, or a proper window."
KINDS = ["sc", "pt", "pub", "prv", "hprv", "hpub", "sig", "ssig", "scr", "wit", "txin", "txout", "tx", "tx", "psbt", "psbt", "etx"]
@st.composite
def valid(draw, k):
    if k in ("sc", "prv"): return draw(secret_b)
    if k in ("pt", "pub"): return R.sec(R.mulG(draw(secret)), draw(st.booleans()))
    if k in ("hprv", "hpub"):
        x = R.XPrv(draw(secret), draw(rbytes(32)), draw(st.integers(0, 255)), draw(rbytes(4)), draw(u32), draw(net), draw(st.sampled_from([R.P2PKH, R.P2WPKH, R.P2SH_P2WPKH]))); return (x if k == "hprv" else x.pub()).raw()
    if k == "sig": return R.der(draw(u256()), draw(u256()))
    if k == "ssig": return draw(rbytes(64))
    if k == "scr": return R.vstr(draw(scr_bytes()))
    if k == "wit": return R.ser_wit(draw(wit_items()))
    if k == "txin": return R.ser_in(draw(txin(False)))
    if k == "txout": return R.ser_out(draw(txout()))
    if k == "tx": return R.ser_tx(draw(txs(maxin=20, maxout=20)))
    if k == "etx": return EG.ser(draw(EG.etxs(maxin=6)))
    return PG.ser(draw(PG.psbts(small=True)))
@st.composite
def cases(draw):
    k = draw(st.sampled_from(KINDS)); b = draw(valid(k)); m = draw(st.integers(0, 7))
    if m == 1: b = b + draw(st.binary(min_size=1, max_size=40))
    elif m == 2: b = b[:draw(st.integers(0, len(b)))]
    elif m == 3: b = bytearray(b); [b.__setitem__(draw(st.integers(0, len(b) - 1)), draw(st.integers(0, 255))) for _ in range(draw(st.integers(1, 3)))]; b = bytes(b)
    elif m == 4: i = draw(st.integers(0, min(60, len(b) - 1))); b = bytearray(b); b[i] = draw(st.sampled_from([0, 1, 0xfc, 0xfd, 0xfe, 0xff, 0x80])); b = bytes(b)
    return [k, b, splits(draw, b, singles=len(b) <= 3000), "valid" if m in (0, 5, 6, 7) else "other"]
def feed(s, slot, cmd, ch):
    """feed chunks until the parser is done or failed; (consumed, status, statuses with the number of bytes fed)"""
    o, used, fed = [], 0, 0
    for r, c in zip(s("feed", slot, cmd, *ch)["r"], ch):
        fed += len(c) if cmd == "raw" else len(c) // 2; used += r[0]; o.append((fed, r[1], used))
        if r[1] != 1: break
    return used, (o[-1][1] if o else None), o
def c_parse(s, c):
    k, b, ch, kind = c
    s("new", 0, k); w = s("parse", 0, "raw", b); dw = s("dump", 0); s("new", 1, k); u, stt, o = feed(s, 1, "raw", ch)
    expect(0 <= w["ret"] <= len(b), "%s %s: consumed %d of %d bytes", k, b.hex(), w["ret"], len(b))
    eq(stt, w["st"], "status of %s %s in chunks of %s" % (k, b.hex(), [len(x) for x in ch])); eq(u, w["ret"], "bytes consumed of %s %s in chunks of %s" % (k, b.hex(), [len(x) for x in ch]))
    if stt == 0: d1 = s("dump", 1); eq(d1, dw, "%s %s parsed in chunks of %s" % (k, b.hex(), [len(x) for x in ch]))
    if stt == 2:      # refused data stay refused when the rest arrives
        s("new", 3, k); r = s("chunks", 3, *ch, b"\0" * 40, b); eq([sum(x[0] for x in r["r"]), r["r"][-1][1]], [w["ret"], 2], "bytes consumed and status of the malformed %s %s after further chunks" % (k, b.hex()))
    for fed, q, used in o:
        if q == 1: eq(used, fed, "bytes consumed while incomplete (%s %s)" % (k, b.hex()))
        if kind == "valid": eq(q, 1 if fed < len(b) else 0, "status of %s %s after %d of %d bytes" % (k, b.hex(), fed, len(b)))
    if kind == "valid": eq(w["ret"], len(b), "bytes consumed of the valid %s %s" % (k, b.hex()))
    hc = [x.hex().encode() for x in ch]; s("new", 2, k); u, q, _ = feed(s, 2, "hex", hc); eq([u, q], [w["ret"], w["st"]], "hex chunks of %s %s" % (k, b.hex()))
    if q == 0: eq(s("dump", 2), dw, "%s parsed in hex chunks" % k)
@st.composite
def wins(draw):
    k = draw(st.sampled_from(KINDS)); b = draw(valid(k)); w = []
    for _ in range(draw(st.integers(1, 8))):
        o = draw(st.one_of(st.integers(0, len(b)), st.integers(len(b), len(b) + 3))); w.append([o, draw(st.one_of(st.integers(0, 5), st.integers(0, len(b) + 5), st.just(max(0, len(b) - o))))])
    return [k, b, w]
def c_win(s, c):
    k, b, ws = c; s("new", 0, k); s("parse", 0, "raw", b); eq(s("status", 0)["st"], 0, "status of %s" % k); f = s("full", 0); full = bytes.fromhex(f["b"])
    eq(f["len"], len(full), "length of the %s %s" % (k, b.hex()))
    if k not in ("psbt", "etx"): eq(full.hex(), b.hex(), "serialization of %s" % k)
    if len(full) < 8000: eq(s("windows", 0, len(b))["bad"], None, "windows into the serialization %s of a %s" % (full.hex(), k))
    for o, n in ws + [[0, 1], [1, 1]]:
        w = full[o:o + n]; r = s("ser", 0, "raw", o, n); eq(r["ret"], len(w), "bytes written (%s, offset %d, size %d)" % (k, o, n)); eq(r["buf"][:2 * len(w)], w.hex(), "window of %s, offset %d size %d" % (k, o, n))
        eq(txt(s("sers", 0, o, n)["s"]), (w if n else full[o:]).hex(), "string window of %s, offset %d size %d" % (k, o, n))
        r = s("ser", 0, "hex", o, 2 * n + 1); eq(txt(r["buf"])[:2 * len(w)], w.hex(), "hex window of %s, offset %d size %d" % (k, o, n))
@st.composite
def streams(draw):
    """several objects and plain bytes in one stream"""
    parts = []
    for n in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(KINDS + ["bytes", "bytes"])); parts.append([k, draw(st.binary(min_size=1, max_size=9)) if k == "bytes" else draw(valid(k).filter(lambda b: len(b) < 3000))])
    return [parts, draw(st.sampled_from(["raw", "hex", "shex"])), draw(st.binary(max_size=5)), draw(st.integers(0, 40)), draw(st.integers(0, 3))]
def c_stream(s, c):
    parts, form, tail, cut, m = c; data = b"".join(b for _, b in parts) + tail; ops, want = ["a", "l"], [len(data), -1]; left, last = len(data), -1; n = 0
    for k, b in parts:
        if k == "bytes":
            if m & 1: ops += ["r"] * len(b); want += list(b)
            else: ops.append("b%d" % len(b)); want.append([len(b), b.hex()])
        else: s("new", n, k); ops.append("p%d" % n); want.append([len(b), 0]); n += 1
        left -= len(b); last = b[-1]; ops += ["a", "l"]; want += [left, last]
    ops += ["b%d" % (len(tail) + m), "r", "a"]; want += [[len(tail), tail.hex()], -1, 0]
    eq(s("pstream", form, data if form == "raw" else data.hex().encode(), *ops)["r"], want, "reading %s from one %s stream" % ([k for k, _ in parts], form))
    # and back: one buffer, too small by `cut` bytes; the objects hold what was parsed
    n = 0; out = b""; ops = []; sizes = []
    for k, b in parts:
        if k == "bytes": ops += ["w%d" % x for x in b] if m & 1 else ["b" + b.hex()]; sizes += [b[i:i + 1] for i in range(len(b))] if m & 1 else [b]
        else: o = bytes.fromhex(s("full", n)["b"]); off = (cut * 7 + m) % (len(o) + 1) if m & 2 else 0; ops.append("s%d:%d" % (n, off)); sizes.append(o[off:]); n += 1
        ops.append("a")
    total = sum(map(len, sizes)); room = max(0, total - cut) if m != 3 else total + cut; free = room; want = []; i = 0
    for o in ops:
        if o == "a": want.append(free); continue
        w = min(free, len(sizes[i])); want.append(w); free -= w; i += 1
    form = "raw" if form == "raw" else "hex" if m & 1 else "xhex"; r = s("sstream", form, room if form == "raw" else 2 * room + (m & 1), *ops); eq(r["r"], want, "writing %s to one %s stream" % ([k for k, _ in parts], form))
    full = b"".join(sizes)[:room]; got = bytes.fromhex(r["buf"]); eq(got[:len(full) if form == "raw" else 2 * len(full)].hex(), (full if form == "raw" else full.hex().encode()).hex(), "content of the %s stream" % form)
def lab(c): return "%s %s" % (c[0], c[3]) if len(c[2]) > 1 else None
SUBS = [Sub("parse", cases(), c_parse, lab, n=6000),
        Sub("window", wins(), c_win, lambda c: c[0], n=2000),
        Sub("stream", streams(), c_stream, lambda c: "%d parts" % len(c[0]), n=2000)]
