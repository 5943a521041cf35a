from hypothesis import strategies as st
import ref as R
from gens import *
from client import expect, eq
from runner import Sub
RULE = "strings of 0..600 characters (some of any order of magnitude to 20000) over the BIP-380 character set (random, single character classes, realistic descriptors with one character changed), output buffers of 0..40 bytes, and strings with one or more foreign characters (NUL and bytes from 0x80 included) at any place; sequences of 2..6 such calls in one process, accepted and refused ones mixed, on equal, shortened and slightly changed strings. Non-trivial: every non-empty string."
D = R.DIN
@st.composite
def desc(draw):
    k = draw(st.integers(0, 5))
    if k == 0: return draw(st.text(D, max_size=40))
    if k == 1: return "".join(D[x % len(D)] for x in R.expand(draw(seed64), draw(st.one_of(length(600), length(600), loglen(300, 20000)))))
    if k == 2: c = draw(st.sampled_from(D)); return c * draw(st.one_of(length(60), length(60), loglen(60, 5000)))
    if k == 3: g = draw(st.sampled_from([D[:32], D[32:64], D[64:]])); return draw(st.text(g, max_size=30))
    x = R.XPrv(draw(secret), draw(rbytes(32))).pub().str(); t = draw(st.sampled_from(["wpkh([d34db33f/84h/0h/0h]%s/0/*)", "sh(wsh(multi(1,%s/<0;1>/*)))", "pkh(%s)", "wsh(sortedmulti(2,[00000000/48'/1']%s/*))", "raw(%s)#x", "addr(%s)"])) % x; i = draw(st.integers(0, len(t) - 1))
    return t if k == 4 else t[:i] + draw(st.sampled_from(D)) + t[i + 1:]
def c_ok(s, c):
    t, size = c; w = R.desc_checksum(t); r = s("dcheck", "n", size, T(t))
    if size >= 9: eq(r["ret"], 8, "length of the checksum of %r in %d bytes" % (t, size)); eq(txt(r["s"])[:9], w + "\0", "checksum of %r" % t)
    elif size < 8: eq(r["ret"], 0, "checksum of %r into %d bytes" % (t, size))
    else: expect(r["ret"] == 0 or (r["ret"] == 8 and txt(r["s"]) == w), "checksum of %r into 8 bytes: %s", t, r)
    eq(txt(s("dcheck", "s", 0, T(t))["s"]), w, "checksum string of %r" % t)
FOREIGN = [chr(i) for i in range(256) if chr(i) not in D]
@st.composite
def bad(draw):
    t = draw(desc())
    for _ in range(draw(st.integers(1, 2))): i = draw(st.integers(0, len(t))); t = t[:i] + draw(st.sampled_from(FOREIGN + ["\0", "\n", "\t", "\x7f", "\x80", "\xff"])) + t[i + draw(st.integers(0, 1)):]
    return [t, draw(st.integers(9, 40))]
def c_bad(s, c):
    t, size = c; r = s("dcheck", "n", size, T(t)); eq(r["ret"], 0, "checksum of %r, which has a character outside the set" % t)
    if "\0" not in t: eq(s("dcheck", "s", 0, T(t))["s"], "", "checksum string of %r" % t)
@st.composite
def mixed(draw):
    """several calls in one process: good strings, strings with a foreign character and too small buffers, in any order; strings related to each other"""
    l = []
    for _ in range(draw(st.integers(2, 6))):
        k = draw(st.integers(0, 4))
        if k <= 1 or not l: x = [draw(desc()), draw(st.integers(9, 40))]
        elif k == 2: x = draw(bad())
        elif k == 3: x = [draw(desc()), draw(st.integers(0, 7))]
        else:
            t = draw(st.sampled_from(l))[0]; q = draw(st.integers(0, 3)); i = draw(st.integers(0, len(t)))
            x = [[t, t[:i], t[:i] + draw(st.sampled_from(D)) + t[i + 1:], t[:i] + draw(st.sampled_from(D)) + t[i:]][q], draw(st.integers(9, 40))]
        l.append(x)
    return l
def isbad(t): return any(c not in D for c in t)
def c_mixed(s, l):
    for t, size in l: (c_bad if isbad(t) else c_ok)(s, [t, size])
SUBS = [Sub("exact", st.tuples(desc(), st.one_of(st.integers(0, 12), st.sampled_from([8, 9, 10, 40]), st.just(20))).map(list), c_ok, lambda c: "len%d" % min(9, len(c[0]) // 10) if c[0] else None, n=16000),
        Sub("foreign", bad(), c_bad, lambda c: "foreign", n=8000),
        Sub("mixed", mixed(), c_mixed, lambda l: "good and refused" if any(isbad(t) or z < 9 for t, z in l) else "good", n=2500)]
