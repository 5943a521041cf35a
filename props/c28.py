from hypothesis import strategies as st
import ref as R, hist as HI, borrow as BO, c13, c18, c24
from gens import *
from client import expect, eq
from runner import Sub
RULE = "the histories of C24 (parse whole, in part, damaged; copy, assign, mutate, sign, reset, destroy) and damaged serializations of every kind parsed into fresh and used objects; the cases of the other properties' sub-tests (malformed paths, keys, addresses, PSBTs, builders, signing); each is performed three times in one process with all objects destroyed in between, and the bytes allocated after the third round must equal those after the second. Non-trivial: the history allocates heap memory (transactions, PSBTs, scripts, witnesses, Electrum transactions)."
def rounds(s, f, what):
    m = []
    for k in range(3): f(); m.append(s("reset")["mem"])
    if m[2] != m[1]: f(); m.append(s("reset")["mem"]); f(); m.append(s("reset")["mem"])
    # a leak grows every time; a one-off growth (a cache, a lazily made table) is none
    expect(not all(b > a for a, b in zip(m[1:], m[2:])) or len(m) < 4, "memory is not released: %s bytes allocated after each repetition of %s", m, what)
def c_hist(s, c): rounds(s, lambda: HI.Model(s, c, verify=False).run(), "%s on %s" % (" -> ".join(o[0] for o in c["ops"]), HI.label(c)))
@st.composite
def damaged(draw):
    k = draw(st.sampled_from(c18.KINDS + ["tx", "psbt", "psbt", "etx", "wit"])); b = draw(c18.valid(k).filter(lambda b: len(b) < 5000)); c = bytearray(b)
    for _ in range(draw(st.integers(0, 3))):
        m = draw(st.integers(0, 6)); i = draw(st.integers(0, max(0, len(c) - 1)))
        if not c: break
        if m == 0: c[i] = draw(st.sampled_from([0, 1, 2, 5, 0xfc, 0xfd, 0xfe, 0xff, 0x80]))
        elif m == 1: c[i] ^= 1 << draw(st.integers(0, 7))
        elif m == 2: c = c[:i]
        elif m == 3: del c[i:i + draw(st.integers(1, 9))]
        elif m == 5: z = [j for j in range(len(c)) if c[j] < 60]; j = draw(st.sampled_from(z)) if z else i; c[j:j + 1] = b"\xfd" + c[j:j + 1] + b"\0"      # a length not in its shortest form
        elif m == 6: z = [j for j in range(len(c)) if 0 < c[j] < 60]; j = draw(st.sampled_from(z)) if z else i; c[j:j + 1] = draw(st.sampled_from([b"\xfe\xff\xff\xff\x7f", b"\xff" * 9, b"\xfd\xff\xff", b"\xfe\0\0\1\0", b"\xff\0\0\0\0\1\0\0\0"]))
        else: c[i:i] = draw(st.binary(min_size=1, max_size=9))
    return [k, b, bytes(c), splits(draw, bytes(c)), draw(st.sampled_from(["new", "used", "hex"]))]
def c_damaged(s, c):
    k, b, d, ch, how = c
    def go():
        s("new", 0, k)
        if how == "used": s("parse", 0, "raw", b)
        if how == "hex": s("parse", 0, "hex", d.hex().encode())
        else: s("feed", 0, "raw", *ch)
        s("copy", 1, 0); s("new", 2, k); s("parse", 2, "raw", b); s("assign", 2, 0); s("full", 1); s("rst", 1); s("parse", 1, "raw", b)
        if k in ("psbt", "etx"): s("hd_seed", 3, b"seed" * 4, 0); s(k + "_sign", 0, 3); s(k + "_sign", 1, 3)
    rounds(s, go, "parsing the %s %s" % (k, d.hex()))
@st.composite
def misc(draw): return [draw(secret), draw(st.integers(0, 5)), draw(st.one_of(c13.bad().map(lambda c: c[1]), st.text("123456789abcdefghijkmnopqrstuvwxyzABCDEF/h'", max_size=80), st.sampled_from(["m/44h/0h/0", "bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4"]))), draw(blob(200))]
def c_misc(s, c):
    d, m, t, b = c
    def go():
        s("prv", 0, R.b32(d), 1, m % 4); s("prv_pub", 1, 0); s("signto", 2, 0, R.sha256(b)); s("hd_seed", 3, R.sha256(b), m % 4); s("hd_path", 4, 3, T(t)); s("hd_xpub", 5, 3); s("hp_path", 6, 5, T(t)); s("scr_addr", 7, "c", T(t)); s("prv_fromwif", 0, "c", T(t)); s("hd_str", 8, T(t)); s("hp_str", 9, T(t)); s("mn_check", T(t)); s("mn_toentropy", "n", 33, T(t))
        for k in ("hex", "b58", "b58c", "b43", "b64", "bin"): s("encs", k, 0, b); s("dec", k, "s", 0, 300, T(t))
        s("new", 10, "scr"); [s("scr_push", 10, w, v) for w, v in (("pub", 1), ("sig", 2), ("bytes", b), ("op", m), ("scr", 7))]; s("scr_build", 11, "sh", 10); s("scr_build", 12, "sortedmulti", 1, 1, 1); s("wit_sp", 13, 2, 1); s("wit_push", 13, "scr", 10); s("scr", 22, b""); s("wit_push", 13, "scr", 22); s("scr_push", 10, "scr", 22); s("scr_address", 11, 0, 80)
        s("txin", 14, "c", T(t), 1, 2, 10); s("txout", 15, "ac", 5, T(t)); s("txin_wit", 14, 13); s("new", 16, "tx"); s("tx_addin", 16, 14); s("tx_addout", 16, 15); s("tx_sign", 16, 0, 3); s("tx_signw", 16, 0, 3, 7, 6); s("tx_hashes", 16); s("tx_get", 17, 16, "tx", 0); s("full", 17); s("psbt_b64", 18, T(t)) if s("new", 18, "psbt") is not None else 0
    rounds(s, go, "a sequence of API calls on %r" % t)
def c_others(s, c):
    m = []
    for k in range(5):
        if not BO.perform(s, c, False): return
        m.append(s("reset")["mem"])
        if k == 2 and m[2] == m[1]: return
    expect(not all(b > a for a, b in zip(m[1:], m[2:])), "memory is not released: %s bytes allocated after each repetition of %s", m, c[0])
OTHERS = ["C02", "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C25", "C26"]
HEAP = {"scr", "wit", "txin", "txout", "tx", "psbt", "etx"}
SUBS = [Sub("history", HI.histories(), c_hist, HI.label, n=2400), Sub("unfinished", c24.unfinished(), c_hist, HI.label, n=1600), Sub("damaged", damaged(), c_damaged, lambda c: "%s %s" % (c[0], c[4]) if c[0] in HEAP else None, n=4000), Sub("others", BO.cases(OTHERS, ("C12/seed", "C12/mixed", "C12/generate")), c_others, lambda c: c[0], n=2000), Sub("calls", misc(), c_misc, lambda c: "calls", n=400)]
