from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
RULE = "entropies of the five sizes (and wrong sizes), random, constant and zero-led; caller data of any length for generation; phrases: valid ones and ones with a word replaced, misspelt, truncated, extended, duplicated, separators changed, wrong counts, random words; passphrases of 0..300 bytes (one in 16 to 9 KB) of any value. Also a few phrases and passphrases, some differing in one byte, combined in turn. Non-trivial: every phrase of at least 12 words / every entropy of an allowed size."
SIZES = [16, 20, 24, 28, 32]
@st.composite
def ent(draw):
    k = draw(st.integers(0, 9))
    if k == 1: return draw(lengthy())
    n = draw(st.sampled_from(SIZES)) if k else draw(st.integers(0, 40)); return draw(blob(n, mn=n))[:n]
def cstr(x): return txt(x["s"])
def c_ent(s, e):
    x = s("mn_fromentropy", e)
    if len(e) not in SIZES: eq(x["null"], 1, "mnemonic of %d bytes" % len(e)); return
    m = R.mnemonic(e); eq(x["null"], 0, "mnemonic of " + e.hex()); eq(cstr(x), m, "mnemonic of " + e.hex()); eq(s("mn_check", T(m))["v"], 1, "check of the mnemonic of " + e.hex())
    for form in ("s", "n"):
        for size in (len(e), len(e) + 1, 40): y = s("mn_toentropy", form, size, T(m)); eq((y["ret"], y["buf"][:2 * len(e)]), (len(e), e.hex()), "entropy of %r" % m)
        for size in (len(e) - 1, 0): eq(s("mn_toentropy", form, size, T(m))["ret"], 0, "entropy of %r into %d bytes" % (m, size))
@st.composite
def gen(draw): return [draw(st.sampled_from([12, 15, 18, 21, 24])) if draw(st.integers(0, 5)) else draw(st.integers(0, 255)), draw(blob(300, big=20000))]
def c_gen(s, c):
    w, d = c; ok = w in (12, 15, 18, 21, 24); z = d.split(b"\0")[0]
    def one(x, ok, src, n, what):
        eq(x["null"], int(not ok), what)
        if ok: eq(cstr(x), R.mnemonic(R.sha256(src)[:n * 4 // 3]), what)
    one(s("mn_gen", "d", w, d), ok, d, w, "generateMnemonic(%d, data)" % w); one(s("mn_gen", "d24", 0, d), True, d, 24, "generateMnemonic(data)")
    one(s("mn_gen", "s", w, z), ok, z, w, "generateMnemonic(%d, text)" % w); one(s("mn_gen", "s24", 0, z), True, z, 24, "generateMnemonic(text)")
    x = s("mn_gen", "r", w, "-"); eq(x["null"], int(not ok), "generateMnemonic(%d)" % w)
    if ok: m = cstr(x); v = R.words_value(m.split(" ")); expect(v is not None and v[1] and len(m.split(" ")) == w, "generateMnemonic(%d) returned %r", w, m); eq(s("mn_check", T(m))["v"], 1, "check of a generated mnemonic")
W = R.WORDS
LONG = [i for i, w in enumerate(R.WORDS) if len(w) == 8]; SHORT = [i for i, w in enumerate(R.WORDS) if len(w) == 3]
@st.composite
def lengthy(draw):
    """entropy whose phrase has the longest (or shortest) words the list allows"""
    n = draw(st.sampled_from(SIZES)); k = n * 3 // 4; L = draw(st.sampled_from([LONG, LONG, SHORT])); v = 0
    for _ in range(k): v = v << 11 | draw(st.sampled_from(L))
    v >>= n // 4; e = v.to_bytes(n, "big"); good = [x for x in ((v ^ y).to_bytes(n, "big") for y in range(1 << (11 - n // 4))) if len(R.mnemonic(x).split(" ")[-1]) == len(W[L[0]])]
    return draw(st.sampled_from(good)) if good else e
@st.composite
def phrase(draw):
    k = draw(st.integers(0, 13)); n = draw(st.sampled_from([12, 15, 18, 21, 24])); e = draw(lengthy()) if draw(st.integers(0, 7)) == 3 else R.expand(draw(seed64), n * 4 // 3); n = len(e) * 3 // 4; ws = R.mnemonic(e).split(" "); i = draw(st.integers(0, n - 1)); sep = " "
    if k in (1, 2): ws[i] = draw(st.sampled_from(W))
    elif k == 3: ws[i] = draw(st.sampled_from([ws[i][:-1], ws[i] + "s", ws[i].upper(), ws[i][:4], "", ws[i] + ws[(i + 1) % n], "zzzzzzzzz", "zzzzzzzzzz", "a" * 40, "\xe9", ws[i] + "\n", "zoo\t"]))
    elif k == 4: ws = ws[:-1]
    elif k == 5: ws = ws + [draw(st.sampled_from(W))]
    elif k == 6: j = draw(st.integers(0, n - 1)); ws[i], ws[j] = ws[j], ws[i]
    elif k == 7: return draw(st.sampled_from([" " + " ".join(ws), " ".join(ws) + " ", "  ".join(ws), "\t".join(ws), "-".join(ws), "", " ", "  ", " " * 11, " " * 23, "abandon"]))
    elif k == 8: ws = [draw(st.sampled_from(W))] * n
    elif k == 9: ws = [W[x % 2048] for x in draw(st.lists(st.integers(0, 2047), min_size=0, max_size=30))]
    elif k == 10: ws = [W[(a << 8 | b) % 2048] for a, b in zip(R.expand(draw(seed64), n), R.expand(draw(seed64), n))]
    elif k == 11:   # right words, last one chosen to match / miss the checksum by one
        j = W.index(ws[-1]); ws[-1] = W[(j + draw(st.sampled_from([1, -1, 1 << (n // 3)]))) % 2048]
    elif k == 12: return draw(st.text(st.characters(min_codepoint=1, max_codepoint=255), max_size=120))
    elif k == 13: i = draw(st.integers(1, 20)); ws = (ws * 3)[:3 * i]
    return " ".join(ws)
def c_check(s, p):
    v = R.words_value(p.split(" ")); eq(s("mn_check", T(p))["v"], int(bool(v and v[1])), "check of %r" % p)
    for form in ("s", "n"):
        x = s("mn_toentropy", form, 40, T(p))
        if v and v[1]: eq((x["ret"], x["buf"][:2 * len(v[0])]), (len(v[0]), v[0].hex()), "entropy of %r" % p)
        elif v: expect(x["ret"] == 0 or (x["ret"] == len(v[0]) and x["buf"][:2 * len(v[0])] == v[0].hex()), "entropy of the phrase %r with a bad checksum: %s", p, x)
        else: eq(x["ret"], 0, "entropy of %r" % p)
@st.composite
def seedcase(draw):
    k = draw(st.integers(0, 3)); m = T(R.mnemonic(R.expand(draw(seed64), draw(st.sampled_from(SIZES))))) if k > 1 else T(R.mnemonic(draw(lengthy()))) if k else draw(blob(300, big=9000))
    return [m, draw(st.one_of(st.just(b""), blob(80), blob(300, big=9000))), draw(net)]
def c_seed(s, c):
    m, p, n = c; k = R.XPrv.seed(R.mn_seed(m, p), n); nul = b"\0" in m + p
    for form in ("ctors", "ctorn", "n", "c", "s"):
        if nul and form == "c": continue
        x = s("hd_mn", 0, form, m, p, n); d = s("dump", 0); what = "root key of %r / %r (%s)" % (m, p, form)
        eq((d["secret"], d["chain"], d["depth"], d["child"], d["fp"], d["net"], d["valid"]), (R.b32(k.k).hex(), k.c.hex(), 0, 0, "00000000", n, 1), what)
        eq(d["pub"]["sec"], R.sec(R.mulG(k.k)).hex(), "public key of the " + what)
def c_mixed(s, c):
    """a few phrases and passphrases (some differing in one letter) in turn; the splitting into phrase and passphrase moves too"""
    ms, ps, es = c; cut = lambda b: b.replace(b"\0", b"0"); ms, ps = [cut(m) for m in ms], [cut(p) for p in ps]; memo = {}
    for a, b in es:
        m, p = ms[a % len(ms)], ps[b % len(ps)]
        if (m, p) not in memo: memo[m, p] = R.XPrv.seed(R.mn_seed(m, p), 0)
        k = memo[m, p]; s("hd_mn", 0, "ctors", m, p, 0); d = s("dump", 0); eq((d["secret"], d["chain"]), (R.b32(k.k).hex(), k.c.hex()), "root key of %r / %r" % (m, p))
phr = st.one_of(seed64.map(lambda x: T(R.mnemonic(R.expand(x, 16)))), blob(140))
SUBS = [Sub("mixed", st.tuples(related(phr, 3), related(st.one_of(st.just(b""), blob(20), phr), 3), st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2)).map(list), min_size=2, max_size=6)).map(list), c_mixed, lambda c: "%d phrases %d passphrases" % (len(c[0]), len(c[1])), n=90),
        Sub("entropy", ent(), c_ent, lambda e: "%d bytes" % len(e) if len(e) in SIZES else None, n=4000, examples=[bytes([b]) * n for b in (0, 255, 0x7f, 0x80) for n in SIZES]),
        Sub("generate", gen(), c_gen, lambda c: "%d words" % c[0] if c[0] in (12, 15, 18, 21, 24) else "refused", n=1500),
        Sub("check", phrase(), c_check, lambda p: (lambda v: "unknown word or count" if v is None else "valid" if v[1] else "bad checksum")(R.words_value(p.split(" "))) if p.count(" ") > 10 else None, n=4000, examples=[" ".join(["abandon"] * n + ["about"]) for n in (11, 14, 17, 20, 23)] + [R.mnemonic(bytes(n)) for n in SIZES]),
        Sub("seed", seedcase(), c_seed, lambda c: "passphrase" if c[1] else "no passphrase", n=250, examples=[[b"", b"", 0], [b"a" * 128, b"b" * 128, 1], [b"a" * 129, b"", 0], [b"a" * 300, b"b" * 300, 2]])]
