from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
ALGS = {"sha256": R.sha256, "sha512": R.sha512, "rmd160": R.rmd160, "hash160": R.hash160, "dsha": R.dsha}
RULE = "messages of 0..1500 bytes (also up to 70 KB, some of 2..3 MB and, per algorithm, one beyond 2^29 bytes) biased to block/padding edges; keys 0..300 bytes (one in 16 of any order of magnitude to 20 KB, HMAC messages to 70 KB, tags to 5 KB); write splittings incl. empty and single bytes; begin/write/end histories. Also several hash objects alive at once, written in turns and copied into each other. Non-trivial: message non-empty (oneshot), key or message longer than a block (hmac), at least two writes or a reuse (sessions)."
HL = {"sha512": 64, "rmd160": 20, "hash160": 20}
def bl(a): return 128 if a == "sha512" else 64
@st.composite
def oneshot(draw): return [draw(st.sampled_from(sorted(ALGS))), draw(st.sampled_from("ucs")), draw(blob(1500))]
def c_oneshot(s, c):
    r = s("hash", c[0], c[1], c[2]); eq(r["h"], ALGS[c[0]](c[2]).hex(), "%s of %d bytes" % (c[0], len(c[2]))); eq(r["ret"], HL.get(c[0], 32), "returned digest length of " + c[0])
@st.composite
def hm(draw): return [draw(st.sampled_from(["sha256", "sha512"])), draw(blob(300, big=20000)), draw(blob(700, big=70000))]
def c_hm(s, c):
    r = s("hmac", c[0], c[1], c[2]); eq(r["h"], R.hmac(c[0], c[1], c[2]).hex(), "HMAC-%s key %d msg %d" % (c[0], len(c[1]), len(c[2]))); eq(r["ret"], HL.get(c[0], 32), "returned HMAC length")
@st.composite
def tg(draw):
    f = draw(st.sampled_from("ucs"))
    t = draw(st.one_of(st.sampled_from([b"", b"BIP0340/challenge", b"BIP0340/nonce", b"BIP0340/aux", b"TapLeaf"]), blob(200, big=5000)))
    return [f, t.replace(b"\0", b"0"), draw(blob(500, big=20000))]
def c_tg(s, c): eq(s("tagged", c[0], c[1], c[2])["h"], R.tagged(c[1], c[2]).hex(), "tagged hash")
@st.composite
def sess(draw):
    alg = draw(st.sampled_from(sorted(ALGS) + ["tagged", "hmac256", "hmac512"]))
    tag = draw(blob(80)).replace(b"\0", b"1") if alg == "tagged" else b""
    parts = []
    for _ in range(draw(st.integers(1, 4))):
        key = draw(blob(200, big=5000)) if alg.startswith("hmac") else b""
        m = draw(blob(400, big=9000)); done = draw(st.integers(0, 3)) > 0
        parts.append([key, [[draw(st.sampled_from("wwy")), x] for x in splits(draw, m, singles=True)], done])
    return [alg, tag, parts, draw(st.booleans())]
def c_sess(s, c):
    alg, tag, parts, implicit = c
    name = {"hmac256": "sha256", "hmac512": "sha512"}.get(alg, alg); ops, want, rets = [], [], []
    for i, (key, ws, done) in enumerate(parts):
        if alg.startswith("hmac"): ops.append("K" + key.hex())
        # the constructor has already begun the hash; begin() again is always allowed
        elif i > 0 or not implicit: ops.append("b")
        for o, d in ws:
            ops.append(o + d.hex()); rets += [len(d)] if o == "w" else [1] * len(d)
        if done:
            m = b"".join(d for _, d in ws); ops.append("E" if alg.startswith("hmac") else "e")
            want.append(R.hmac(name, key, m).hex() if alg.startswith("hmac") else R.tagged(tag, m).hex() if alg == "tagged" else ALGS[alg](m).hex())
    # TaggedHash::begin() is SHA256::begin(): a tagged object is begun only by its constructor
    if alg == "tagged" and (len(parts) > 1 or not implicit): return c_sess(s, [alg, tag, parts[:1], True])
    r = s("hsess", name + (":" + tag.hex() if alg == "tagged" else ""), *ops)
    eq([x["h"] for x in r["out"]], want, "streaming %s" % alg); eq([x["ret"] for x in r["out"]], [len(w) // 2 for w in want], "returned digest lengths of %s" % alg); eq(r["rets"], rets, "bytes written to %s" % alg)
@st.composite
def big(draw): return [draw(st.sampled_from(sorted(ALGS))), draw(seed64), draw(st.integers(0, 70000))]
def c_big(s, c): m = R.expand(c[1], c[2]); eq(s("hash", c[0], "u", m)["h"], ALGS[c[0]](m).hex(), "%s of %d bytes" % (c[0], c[2]))
@st.composite
def long_(draw): return [draw(st.sampled_from(["sha256", "sha512", "rmd160"])), draw(st.integers(1, 5000)), draw(st.integers(1, 600)), draw(st.integers(0, 300))]
def c_long(s, c):
    """a message of c[1] * c[2] + c[3] bytes written to one object in large and small writes"""
    alg, size, cnt, tail = c; ch = R.expand(size * 7 + tail, size); h = R.hasher(alg); s("hlong", "open", alg); left = cnt
    while left: k = min(left, max(1, (64 << 20) // size)); eq(s("hlong", "rep", k, ch)["ret"], k * size, "bytes written"); left -= k
    for i in range(0, cnt, 4096): h.update(ch * min(4096, cnt - i))
    if tail: eq(s("hlong", "rep", 1, ch[:1] * tail)["ret"], tail, "bytes written"); h.update(ch[:1] * tail)
    eq(s("hlong", "close")["h"], h.digest().hex(), "%s of %d bytes" % (alg, size * cnt + tail))
@st.composite
def mix(draw):
    """several hash objects alive at once, written in turns, copied into each other"""
    algs = []
    for _ in range(draw(st.integers(2, 4))): n = draw(st.sampled_from(sorted(ALGS) + ["tagged", "tagged", "sha256", "sha512"])) if not algs or draw(st.booleans()) else algs[0][0]; algs.append([n, draw(st.one_of(st.sampled_from([b"BIP0340/challenge", b"BIP0340/nonce", b"a", b"b", b""]), blob(80).map(lambda t: t.replace(b"\0", b"1")))) if n == "tagged" else b""])
    pool = draw(related(blob(200), 3)); ops = []
    for _ in range(draw(st.integers(3, 16))): ops.append([draw(st.integers(0, len(algs) - 1)), draw(st.sampled_from("wwwwyeebKc")), draw(st.integers(0, 3))])
    return [algs, pool, ops]
def c_mix(s, c):
    algs, pool, ops = c; state = [["h", b"", t] for a, t in algs]; q = []; want = []; lone = []      # per object: [mode, message, key or tag] or None (finished)
    def end(i):
        m, msg, k = state[i]; a = algs[i][0]; q.append("%d%s" % (i, "E" if m == "m" else "e")); want.append((R.hmac(a, k, msg) if m == "m" else R.tagged(k, msg) if a == "tagged" else ALGS[a](msg)).hex()); state[i] = None
    for i, o, j in ops:
        a = algs[i][0]; v = pool[j % len(pool)]
        if o in "wy":
            if state[i] is None: continue
            q.append("%d%s%s" % (i, o, v.hex())); state[i] = [state[i][0], state[i][1] + v, state[i][2]]
        elif o == "e":
            if state[i]: end(i)
        elif o == "b":
            if a == "tagged": continue
            q.append("%db" % i); state[i] = ["h", b"", b""]
        elif o == "K":
            if a not in ("sha256", "sha512"): continue
            q.append("%dK%s" % (i, v.hex())); state[i] = ["m", b"", v]
        elif o == "c":
            j %= len(algs)
            if algs[j][0] != a or state[j] is None: continue
            q.append("%dc%d" % (i, j)); state[i] = list(state[j])
    for i in range(len(algs)):
        if state[i]: end(i)
    eq(s("hmix", len(algs), *(["%s:%s" % (a, t.hex()) if a == "tagged" else a for a, t in algs] + q))["out"], want, "digests of interleaved hash objects (%s; %s)" % (" ".join(a for a, _ in algs), " ".join(x[:2] for x in q)))
    for v in pool:          # and plain calls with the same keys and messages in turn
        for k in pool:
            for a in ("sha256", "sha512"): eq(s("hmac", a, k, v)["h"], R.hmac(a, k, v).hex(), "HMAC-%s" % a)
            t = k.replace(b"\0", b"1"); eq(s("tagged", "u", t, v)["h"], R.tagged(t, v).hex(), "tagged hash")
SUBS = [
    Sub("mixed", mix(), c_mix, lambda c: "%d objects" % len(c[0]), n=3000),
    Sub("oneshot", oneshot(), c_oneshot, lambda c: "%s %d blocks" % (c[0], len(c[2]) // bl(c[0])) if c[2] else None, n=16000,
        examples=[[a, "u", b"a" * n] for a in ALGS for n in (0, 1, 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 239, 240)]),
    Sub("hmac", hm(), c_hm, lambda c: "long key" if len(c[1]) > bl(c[0]) else "long msg" if len(c[2]) > bl(c[0]) else None, n=12000, examples=[[a, b"k" * n, b"m"] for a in ("sha256", "sha512") for n in (0, 63, 64, 65, 127, 128, 129)]),
    Sub("tagged", tg(), c_tg, lambda c: "tagged" if c[1] else None, n=6000),
    Sub("session", sess(), c_sess, lambda c: c[0] if len(c[2]) > 1 or len(c[2][0][1]) > 1 else None, n=12000),
    Sub("large", big(), c_big, lambda c: "large" if c[2] > 1000 else None, n=400),
    # lengths around 2^24 and 2^32 bits, where a length counter may overflow
    Sub("long", long_(), c_long, lambda c: c[0], n=160, examples=[[a, 65536, 8192, t] for a, t in (("sha256", 70), ("sha512", 130), ("rmd160", 70)) if a != "rmd160" or R.rmd160 is not R._rmd_py] + [[a, 4096, 512, t] for a in ("sha256", "sha512", "rmd160") for t in (0, 1, 119)]),
]
