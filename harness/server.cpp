// Command server around the uBitcoin public API. One request per line on stdin, one JSON reply per
// line on stdout. Every buffer handed to the library is an exact-size heap block, so AddressSanitizer
// sees any access outside it. The server contains no oracle: expectations live in the Python side.
#include "Bitcoin.h"
#include "Hash.h"
#include "PSBT.h"
#include "Electrum.h"
#include "Conversion.h"
#include "Networks.h"
#include "OpCodes.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <memory>
#include <new>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#define HAVE_ALLOC_STATS 1
#endif
#endif
#ifndef ASAN_POISON_MEMORY_REGION
#define ASAN_POISON_MEMORY_REGION(a, n) ((void)(a), (void)(n))
#define ASAN_UNPOISON_MEMORY_REGION(a, n) ((void)(a), (void)(n))
#endif

using std::string; using std::vector;
typedef vector<string> Args;

struct Bad { string msg; };
[[noreturn]] static void bad(const string &m) { throw Bad{m}; }

// exact-size heap block
struct Buf {
    uint8_t *p; size_t n;
    // an empty buffer is a valid pointer to no accessible byte at all
    explicit Buf(size_t len, int fill = 0x5A) : p((uint8_t *)malloc(len)), n(len) { if (len) memset(p, fill, len); else ASAN_POISON_MEMORY_REGION(p, 1); }
    explicit Buf(const string &s) : p((uint8_t *)malloc(s.size())), n(s.size()) { if (n) memcpy(p, s.data(), n); else ASAN_POISON_MEMORY_REGION(p, 1); }
    ~Buf() { if (!n) ASAN_UNPOISON_MEMORY_REGION(p, 1); free(p); }
    Buf(const Buf &) = delete; Buf &operator=(const Buf &) = delete;
    char *c() { return (char *)p; }
};
// exact-size zero-terminated C string
struct CStr {
    char *p;
    explicit CStr(const string &s) : p((char *)malloc(s.size() + 1)) { memcpy(p, s.c_str(), s.size() + 1); }
    ~CStr() { free(p); }
    CStr(const CStr &) = delete;
};

static int hv(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; bad("hex"); }
static string unhex(const string &s) {
    if (s == "-") return string();
    string r; r.reserve(s.size() / 2);
    for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((char)(hv(s[i]) * 16 + hv(s[i + 1])));
    return r;
}
static string hx(const void *p, size_t n) {
    static const char D[] = "0123456789abcdef";
    string r; r.reserve(2 * n);
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) { r.push_back(D[b[i] >> 4]); r.push_back(D[b[i] & 15]); }
    return r;
}
static string hx(const string &s) { return hx(s.data(), s.size()); }
static long long I(const string &s) { return atoll(s.c_str()); }
static uint64_t U(const string &s) { return strtoull(s.c_str(), NULL, 10); }

struct J {
    string s = "{"; bool first = true;
    J &key(const char *k) { if (!first) s += ","; first = false; s += "\""; s += k; s += "\":"; return *this; }
    J &i(const char *k, long long v) { key(k); s += std::to_string(v); return *this; }
    J &u(const char *k, unsigned long long v) { key(k); s += std::to_string(v); return *this; }
    J &h(const char *k, const void *p, size_t n) { key(k); s += "\"" + hx(p, n) + "\""; return *this; }
    J &h(const char *k, const string &v) { key(k); s += "\"" + hx(v) + "\""; return *this; }
    J &raw(const char *k, const string &v) { key(k); s += v; return *this; }
    string end() { return s + "}"; }
};

static const Network *NETS[] = {&Mainnet, &Testnet, &Regtest, &Signet};
static const Network *net(const string &s) { long long k = I(s); if (k < 0 || k > 3) bad("net"); return NETS[k]; }
static int netidx(const Network *n) { for (int i = 0; i < 4; i++) if (NETS[i] == n) return i; return -1; }

enum Kind { K_NONE, K_SC, K_PT, K_PUB, K_PRV, K_HPRV, K_HPUB, K_SIG, K_SSIG, K_SCR, K_WIT, K_TXIN, K_TXOUT, K_TX, K_PSBT, K_ETX };
static const char *KN[] = {"none", "sc", "pt", "pub", "prv", "hprv", "hpub", "sig", "ssig", "scr", "wit", "txin", "txout", "tx", "psbt", "etx"};
static Kind kind(const string &s) { for (int i = 1; i <= K_ETX; i++) if (s == KN[i]) return (Kind)i; bad("kind " + s); }

struct Slot { Kind k; Streamable *o; };
static const int NSLOT = 64;
static Slot slots[NSLOT];

#define ALLK(X) X(K_SC, ECScalar) X(K_PT, ECPoint) X(K_PUB, PublicKey) X(K_PRV, PrivateKey) X(K_HPRV, HDPrivateKey) X(K_HPUB, HDPublicKey) \
    X(K_SIG, Signature) X(K_SSIG, SchnorrSignature) X(K_SCR, Script) X(K_WIT, Witness) X(K_TXIN, TxIn) X(K_TXOUT, TxOut) X(K_TX, Tx) X(K_PSBT, PSBT) X(K_ETX, ElectrumTx)

template <class T> struct KindOf;
#define X(k, T) template <> struct KindOf<T> { static const Kind v = k; };
ALLK(X)
#undef X

static void del(int i) {
    Streamable *o = slots[i].o; Kind k = slots[i].k;
    slots[i].o = NULL; slots[i].k = K_NONE;
    switch (k) {
#define X(kk, T) case kk: delete (T *)o; break;
        ALLK(X)
#undef X
        default: break;
    }
}
static int si(const string &s) { long long i = I(s); if (i < 0 || i >= NSLOT) bad("slot"); return (int)i; }
static Streamable *any(const string &s) { int i = si(s); if (!slots[i].o) bad("empty slot " + s); return slots[i].o; }
template <class T> static T &get(const string &s) {
    int i = si(s);
    if (slots[i].k != KindOf<T>::v) bad(string("slot ") + s + " holds " + KN[slots[i].k]);
    return *(T *)slots[i].o;
}
template <class T> static T &put(const string &s, T *o) {
    int i = si(s); del(i);
    slots[i].k = KindOf<T>::v; slots[i].o = o; return *o;
}
// anything usable as a public key
static PublicKey aspub(const string &s) {
    int i = si(s);
    switch (slots[i].k) {
        case K_PUB: return *(PublicKey *)slots[i].o;
        case K_HPUB: return *(HDPublicKey *)slots[i].o;
        default: bad("not a pubkey");
    }
}
static const PublicKey &refpub(const string &s) {
    int i = si(s);
    switch (slots[i].k) {
        case K_PUB: return *(PublicKey *)slots[i].o;
        case K_HPUB: return *(HDPublicKey *)slots[i].o;
        default: bad("not a pubkey");
    }
}
static const PrivateKey &refprv(const string &s) {
    int i = si(s);
    switch (slots[i].k) {
        case K_PRV: return *(PrivateKey *)slots[i].o;
        case K_HPRV: return *(HDPrivateKey *)slots[i].o;
        default: bad("not a privkey");
    }
}

// ------------------------------------------------------------------------------------- dumps
#ifndef BIGLIM
#define BIGLIM (1 << 22)
#endif
static const size_t BIG = BIGLIM; // objects announcing more (unfinished parses of huge lengths) are shown in part
static string jstr(const string &hexv) { return "\"" + hexv + "\""; }
static string ser(const Streamable &o) {
    size_t n = o.length(); if (n > BIG) n = BIG; Buf b(n);
    size_t r = o.serialize(b.p, n);
    return string(b.c(), r < n ? r : n);
}
static string d_scr(const Script &s) { return jstr(hx(s.scriptArray, s.scriptLen < BIG ? s.scriptLen : BIG)); }
static string d_txin(const TxIn &t) {
    return J().h("hash", t.hash, 32).u("index", t.outputIndex).u("seq", t.sequence).raw("script", d_scr(t.scriptSig))
        .i("wcount", t.witness.count()).h("wit", ser(t.witness)).u("len", t.length()).i("segwit", t.isSegwit()).end();
}
static string d_txout(const TxOut &t) { return J().u("amount", t.amount).raw("script", d_scr(t.scriptPubkey)).u("len", t.length()).end(); }
static string d_tx(const Tx &t) {
    string a = "[", b = "[";
    for (size_t i = 0; i < t.inputsNumber; i++) { if (i) a += ","; a += d_txin(t.txIns[i]); }
    for (size_t i = 0; i < t.outputsNumber; i++) { if (i) b += ","; b += d_txout(t.txOuts[i]); }
    uint8_t id[32], w[32];
    t.txid(id); t.wtxid(w);
    return J().u("version", t.version).u("locktime", t.locktime).raw("ins", a + "]").raw("outs", b + "]").u("len", t.length())
        .i("segwit", t.isSegwit()).h("txid", id, 32).h("wtxid", w, 32).i("valid", t.isValid()).end();
}
static string d_pub(const ECPoint &p) {
    uint8_t sec[65]; size_t n = p.sec(sec, 65);
    return J().h("point", p.point, 64).i("compressed", p.compressed).i("valid", p.isValid()).h("sec", sec, n).i("even", p.isEven()).end();
}
static string d_ders(const PSBTDerivation *d, size_t n) {
    string r = "[";
    for (size_t i = 0; i < n; i++) {
        if (i) r += ",";
        string path = "[";
        for (size_t k = 0; k < d[i].derivationLen; k++) { if (k) path += ","; path += std::to_string(d[i].derivation[k]); }
        uint8_t sec[65]; size_t sl = d[i].pubkey.sec(sec, 65);
        r += J().h("pub", sec, sl).h("fp", d[i].fingerprint, 4).raw("path", path + "]").end();
    }
    return r + "]";
}
static string d_psbt(const PSBT &p) {
    string a = "[", b = "[";
    if (p.txInsMeta) for (size_t i = 0; i < p.tx.inputsNumber; i++) {
        const PSBTInputMetadata &m = p.txInsMeta[i];
        string sg = "[";
        for (size_t k = 0; k < m.signaturesLen; k++) {
            if (k) sg += ",";
            uint8_t sec[65]; size_t sl = m.signatures[k].pubkey.sec(sec, 65);
            sg += J().h("pub", sec, sl).h("sig", ser(m.signatures[k].signature)).end();
        }
        if (i) a += ",";
        a += J().raw("utxo", d_txout(m.txOut)).raw("ders", d_ders(m.derivations, m.derivationsLen)).raw("redeem", d_scr(m.redeemScript))
            .raw("wscript", d_scr(m.witnessScript)).raw("sigs", sg + "]").end();
    }
    if (p.txOutsMeta) for (size_t i = 0; i < p.tx.outputsNumber; i++) {
        const PSBTOutputMetadata &m = p.txOutsMeta[i];
        if (i) b += ",";
        b += J().raw("ders", d_ders(m.derivations, m.derivationsLen)).raw("redeem", d_scr(m.redeemScript)).raw("wscript", d_scr(m.witnessScript)).end();
    }
    return J().raw("tx", d_tx(p.tx)).raw("ins", a + "]").raw("outs", b + "]").u("fee", p.fee()).i("valid", p.isValid()).end();
}
static string d_hpub(const HDPublicKey &h) {
    return J().h("point", h.point, 64).h("chain", h.chainCode, 32).i("depth", h.depth).h("fp", h.parentFingerprint, 4).u("child", h.childNumber)
        .i("type", h.type).i("net", netidx(h.network)).i("valid", h.isValid()).i("compressed", h.compressed).end();
}
static string d_etx(const ElectrumTx &e) {
    string a = "[";
    if (e.txInsMeta) for (size_t i = 0; i < e.tx.inputsNumber; i++) {
        if (i) a += ",";
        a += J().raw("hd", d_hpub(e.txInsMeta[i].hd)).i("d0", e.txInsMeta[i].derivation[0]).i("d1", e.txInsMeta[i].derivation[1]).u("amount", e.txInsMeta[i].amount).end();
    }
    return J().raw("tx", d_tx(e.tx)).raw("ins", a + "]").i("valid", e.isValid()).end();
}
static string d_prv(const PrivateKey &k) {
    uint8_t s[32]; k.getSecret(s);
    return J().h("secret", s, 32).i("net", netidx(k.network)).raw("pub", d_pub(k.publicKey())).i("valid", k.isValid()).end();
}
static string d_hprv(const HDPrivateKey &k) {
    uint8_t s[32]; k.getSecret(s); uint8_t f[4]; k.fingerprint(f);
    return J().h("secret", s, 32).i("net", netidx(k.network)).raw("pub", d_pub(k.publicKey())).i("valid", k.isValid()).h("chain", k.chainCode, 32)
        .i("depth", k.depth).h("fp", k.parentFingerprint, 4).u("child", k.childNumber).i("type", k.type).h("selffp", f, 4).end();
}
static string d_sig(const Signature &s) {
    uint8_t b[65]; s.bin(b, 65);
    return J().h("r", b, 32).h("s", b + 32, 32).i("index", b[64]).i("valid", s.isValid()).u("len", s.length()).end();
}
static string dump(int i) {
    Streamable *o = slots[i].o;
    switch (slots[i].k) {
        case K_SC: { uint8_t s[32]; ((ECScalar *)o)->getSecret(s); return J().h("num", s, 32).i("valid", ((ECScalar *)o)->isValid()).end(); }
        case K_PT: return d_pub(*(ECPoint *)o);
        case K_PUB: return d_pub(*(PublicKey *)o);
        case K_PRV: return d_prv(*(PrivateKey *)o);
        case K_HPRV: return d_hprv(*(HDPrivateKey *)o);
        case K_HPUB: return d_hpub(*(HDPublicKey *)o);
        case K_SIG: return d_sig(*(Signature *)o);
        case K_SSIG: { uint8_t b[64]; ((SchnorrSignature *)o)->serialize(b, 64); return J().h("rs", b, 64).i("valid", ((SchnorrSignature *)o)->isValid()).end(); }
        case K_SCR: { Script &s = *(Script *)o; return J().raw("script", d_scr(s)).u("len", s.length()).i("type", s.type()).i("bool", (bool)s).end(); }
        case K_WIT: { Witness &w = *(Witness *)o; return J().h("wit", ser(w)).i("count", w.count()).u("len", w.length()).i("bool", (bool)w).end(); }
        case K_TXIN: return d_txin(*(TxIn *)o);
        case K_TXOUT: return d_txout(*(TxOut *)o);
        case K_TX: return d_tx(*(Tx *)o);
        case K_PSBT: return d_psbt(*(PSBT *)o);
        case K_ETX: return d_etx(*(ElectrumTx *)o);
        default: bad("empty");
    }
}

// ------------------------------------------------------------------------------------- commands
typedef std::function<string(const Args &)> Cmd;
static std::map<string, Cmd> cmds;
#define CMD(name) static string f_##name(const Args &a); static int r_##name = (cmds[#name] = f_##name, 0); static string f_##name(const Args &a)

// ---- hashes
static HashAlgorithm *mk(const string &n) {
    if (n == "sha256") return new SHA256(); if (n == "sha512") return new SHA512(); if (n == "rmd160") return new RMD160();
    if (n == "hash160") return new Hash160(); if (n == "dsha") return new DoubleSha();
    bad("alg");
}
static void hbegin(const string &n, HashAlgorithm *h) {
    if (n == "sha256" || n == "tagged") ((SHA256 *)h)->begin(); else if (n == "sha512") ((SHA512 *)h)->begin(); else if (n == "rmd160") ((RMD160 *)h)->begin();
    else if (n == "hash160") ((Hash160 *)h)->begin(); else ((DoubleSha *)h)->begin();
}
static void hdel(const string &n, HashAlgorithm *h) {
    if (n == "sha256") delete (SHA256 *)h; else if (n == "tagged") delete (TaggedHash *)h; else if (n == "sha512") delete (SHA512 *)h; else if (n == "rmd160") delete (RMD160 *)h;
    else if (n == "hash160") delete (Hash160 *)h; else delete (DoubleSha *)h;
}
static size_t hlen(const string &n) { return n == "sha512" ? 64 : (n == "rmd160" || n == "hash160") ? 20 : 32; }
CMD(hash) { // alg form data
    Buf d(unhex(a[2])); Buf o(hlen(a[0])); const string &n = a[0]; int r = 0;
    if (a[1] == "u") {
        r = n == "sha256" ? sha256(d.p, d.n, o.p) : n == "sha512" ? sha512(d.p, d.n, o.p) : n == "rmd160" ? rmd160(d.p, d.n, o.p) : n == "hash160" ? hash160(d.p, d.n, o.p) : doubleSha(d.p, d.n, o.p);
    } else if (a[1] == "c") {
        const char *c = d.c();
        r = n == "sha256" ? sha256(c, d.n, o.p) : n == "sha512" ? sha512(c, d.n, o.p) : n == "rmd160" ? rmd160(c, d.n, o.p) : n == "hash160" ? hash160(c, d.n, o.p) : doubleSha(c, d.n, o.p);
    } else {
        string s = unhex(a[2]);
        r = n == "sha256" ? sha256(s, o.p) : n == "sha512" ? sha512(s, o.p) : n == "rmd160" ? rmd160(s, o.p) : n == "hash160" ? hash160(s, o.p) : doubleSha(s, o.p);
    }
    return J().i("ret", r).h("h", o.p, o.n).end();
}
CMD(hmac) { // alg key data
    Buf k(unhex(a[1])), d(unhex(a[2])); Buf o(a[0] == "sha512" ? 64 : 32);
    int r = a[0] == "sha512" ? sha512Hmac(k.p, k.n, d.p, d.n, o.p) : sha256Hmac(k.p, k.n, d.p, d.n, o.p);
    return J().i("ret", r).h("h", o.p, o.n).end();
}
CMD(tagged) { // form tag data
    Buf o(32); int r; string t = unhex(a[1]);
    if (a[0] == "s") r = tagged_hash(t, unhex(a[2]), o.p);
    else { CStr c(t); Buf d(unhex(a[2])); r = a[0] == "u" ? tagged_hash(c.p, d.p, d.n, o.p) : tagged_hash(c.p, (const char *)d.p, d.n, o.p); }
    return J().i("ret", r).h("h", o.p, o.n).end();
}
CMD(hsess) { // alg[:tag] ops...   one object, ops: b | K<hex> | w<hex> | y<hex> (bytewise) | e | E   -> list of digests
    string n = a[0], tag; size_t c = n.find(':');
    if (c != string::npos) { tag = unhex(n.substr(c + 1)); n = n.substr(0, c); }
    HashAlgorithm *h; if (n == "tagged") { CStr t(tag); h = new TaggedHash(t.p); } else h = mk(n);
    string out = "[", rets = "["; bool first = true, fr = true; size_t L = hlen(n);
    auto addret = [&](size_t v) { if (!fr) rets += ","; fr = false; rets += std::to_string(v); };
    for (size_t i = 1; i < a.size(); i++) {
        char op = a[i][0]; string v = a[i].substr(1);
        if (op == 'b') hbegin(n, h);
        else if (op == 'K') { Buf k(unhex(v)); if (n == "sha512") ((SHA512 *)h)->beginHMAC(k.p, k.n); else ((SHA256 *)h)->beginHMAC(k.p, k.n); }
        else if (op == 'w') { Buf d(unhex(v)); addret(h->write(d.p, d.n)); }
        else if (op == 'y') { string d = unhex(v); for (char ch : d) addret(h->write((uint8_t)ch)); }
        else if (op == 'e' || op == 'E') {
            size_t l = op == 'E' ? (n == "sha512" ? 64 : 32) : L; Buf o(l);
            size_t r = op == 'e' ? h->end(o.p) : n == "sha512" ? ((SHA512 *)h)->endHMAC(o.p) : ((SHA256 *)h)->endHMAC(o.p);
            if (!first) out += ","; first = false; out += J().u("ret", r).h("h", o.p, l).end();
        }
    }
    hdel(n, h);
    return J().raw("out", out + "]").raw("rets", rets + "]").end();
}
CMD(hmix) { // count alg[:tag]... ops...   several objects alive at once; ops "<i><op>" as in hsess, and <i>c<j>: object i becomes a copy of object j
    size_t n = (size_t)U(a[0]); std::vector<HashAlgorithm *> h; std::vector<string> nm; string out = "["; bool first = true;
    for (size_t i = 0; i < n; i++) { string s = a[1 + i], tag; size_t c = s.find(':'); if (c != string::npos) { tag = unhex(s.substr(c + 1)); s = s.substr(0, c); } nm.push_back(s); if (s == "tagged") { CStr t(tag); h.push_back(new TaggedHash(t.p)); } else h.push_back(mk(s)); }
    for (size_t i = 1 + n; i < a.size(); i++) {
        size_t k = (size_t)(a[i][0] - '0'); char op = a[i][1]; string v = a[i].substr(2); if (k >= n) bad("index"); const string &s = nm[k]; HashAlgorithm *x = h[k];
        if (op == 'b') hbegin(s, x);
        else if (op == 'K') { Buf q(unhex(v)); if (s == "sha512") ((SHA512 *)x)->beginHMAC(q.p, q.n); else ((SHA256 *)x)->beginHMAC(q.p, q.n); }
        else if (op == 'w') { Buf d(unhex(v)); x->write(d.p, d.n); }
        else if (op == 'y') { string d = unhex(v); for (char ch : d) x->write((uint8_t)ch); }
        else if (op == 'c') { size_t j = (size_t)(v[0] - '0'); if (j >= n || nm[j] != s) bad("copy");
            if (s == "sha256") *(SHA256 *)x = *(SHA256 *)h[j]; else if (s == "tagged") *(TaggedHash *)x = *(TaggedHash *)h[j]; else if (s == "sha512") *(SHA512 *)x = *(SHA512 *)h[j];
            else if (s == "rmd160") *(RMD160 *)x = *(RMD160 *)h[j]; else if (s == "hash160") *(Hash160 *)x = *(Hash160 *)h[j]; else *(DoubleSha *)x = *(DoubleSha *)h[j]; }
        else { size_t l = op == 'E' ? (s == "sha512" ? 64 : 32) : hlen(s); Buf o(l);
            if (op == 'e') x->end(o.p); else if (s == "sha512") ((SHA512 *)x)->endHMAC(o.p); else ((SHA256 *)x)->endHMAC(o.p);
            if (!first) out += ","; first = false; out += "\"" + hx(o.p, l) + "\""; }
    }
    for (size_t i = 0; i < n; i++) hdel(nm[i], h[i]);
    return J().raw("out", out + "]").end();
}
static HashAlgorithm *g_long = nullptr; static string g_longn;   // one long-lived hash object for messages too large for one command
CMD(hlong) { // open alg | rep count chunk | close
    if (a[0] == "open") { if (g_long) hdel(g_longn, g_long); g_longn = a[1]; g_long = mk(g_longn); return J().u("ret", 1).end(); }
    if (a[0] == "rep") { Buf d(unhex(a[2])); uint64_t k = U(a[1]), t = 0; for (uint64_t i = 0; i < k; i++) t += g_long->write(d.p, d.n); return J().u("ret", t).end(); }
    Buf o(hlen(g_longn)); size_t r = g_long->end(o.p); string s = J().u("ret", r).h("h", o.p, o.n).end(); hdel(g_longn, g_long); g_long = nullptr; return s;
}
// ---- codecs
static uint8_t b64f(const string &s) { long long v = I(s); return (uint8_t)((v & 1 ? BASE64_URLSAFE : 0) | (v & 2 ? BASE64_NOPADDING : 0)); }
CMD(enc) { // name flags size data
    Buf d(unhex(a[3])); Buf o((size_t)U(a[2])); uint8_t f = b64f(a[1]); const string &n = a[0]; size_t r;
    if (n == "hex") r = toHex(d.p, d.n, o.c(), o.n); else if (n == "bin") r = toBin(d.p, d.n, o.c(), o.n); else if (n == "b58") r = toBase58(d.p, d.n, o.c(), o.n);
    else if (n == "b58c") r = toBase58Check(d.p, d.n, o.c(), o.n); else if (n == "b43") r = toBase43(d.p, d.n, o.c(), o.n); else r = toBase64(d.p, d.n, o.c(), o.n, f);
    return J().u("ret", r).h("buf", o.p, o.n).end();
}
CMD(encs) { // name flags data
    Buf d(unhex(a[2])); uint8_t f = b64f(a[1]); const string &n = a[0]; string s;
    if (n == "hex") s = toHex(d.p, d.n); else if (n == "bin") s = toBin(d.p, d.n); else if (n == "b58") s = toBase58(d.p, d.n);
    else if (n == "b58c") s = toBase58Check(d.p, d.n); else if (n == "b43") s = toBase43(d.p, d.n); else s = toBase64(d.p, d.n, f);
    return J().h("s", s).end();
}
CMD(enclen) { Buf d(unhex(a[2])); const string &n = a[0]; size_t r = n == "b58" ? toBase58Length(d.p, d.n) : n == "b43" ? toBase43Length(d.p, d.n) : toBase64Length(d.p, d.n, b64f(a[1])); return J().u("ret", r).end(); }
CMD(declen) { Buf d(unhex(a[2])); const string &n = a[0]; size_t r = n == "b58" ? fromBase58Length(d.c(), d.n) : n == "b43" ? fromBase43Length(d.c(), d.n) : fromBase64Length(d.c(), d.n, b64f(a[1])); return J().u("ret", r).end(); }
CMD(dec) { // name form flags size text
    string t = unhex(a[4]); Buf o((size_t)U(a[3])); uint8_t f = b64f(a[2]); const string &n = a[0]; size_t r;
    if (a[1] == "s") {
        if (n == "hex") r = fromHex(t, o.p, o.n); else if (n == "bin") r = fromBin(t, o.p, o.n); else if (n == "b58") r = fromBase58(t, o.p, o.n);
        else if (n == "b58c") r = fromBase58Check(t, o.p, o.n); else if (n == "b43") r = fromBase43(t, o.p, o.n); else r = fromBase64(t, o.p, o.n, f);
    } else {
        Buf d(t); const char *c = d.c(); size_t l = d.n;
        if (n == "hex") r = fromHex(c, l, o.p, o.n); else if (n == "bin") r = fromBin(c, l, o.p, o.n); else if (n == "b58") r = fromBase58(c, l, o.p, o.n);
        else if (n == "b58c") r = fromBase58Check(c, l, o.p, o.n); else if (n == "b43") r = fromBase43(c, l, o.p, o.n); else r = fromBase64(c, l, o.p, o.n, f);
    }
    return J().u("ret", r).h("buf", o.p, o.n).end();
}
CMD(b64hex) { return J().h("s", base64ToHex(unhex(a[1]), b64f(a[0]))).end(); }
CMD(hexb64) { return J().h("s", hexToBase64(unhex(a[1]), b64f(a[0]))).end(); }
CMD(b2i) { Buf d(unhex(a[1])); return J().u("v", a[0] == "le" ? littleEndianToInt(d.p, d.n) : bigEndianToInt(d.p, d.n)).end(); }
CMD(i2b) { Buf o((size_t)U(a[2])); if (a[0] == "le") intToLittleEndian(U(a[1]), o.p, o.n); else intToBigEndian(U(a[1]), o.p, o.n); return J().h("b", o.p, o.n).end(); }
CMD(vilen) { return J().u("v", lenVarInt(U(a[0]))).end(); }
CMD(viread) { Buf d(unhex(a[0])); return J().u("v", readVarInt(d.p, d.n)).end(); }
CMD(viwrite) { Buf o((size_t)U(a[1])); size_t r = writeVarInt(U(a[0]), o.p, o.n); return J().u("ret", r).h("b", o.p, o.n).end(); }
CMD(dcheck) { // form size text
    if (a[0] == "s") return J().i("ret", -1).h("s", descriptorChecksum(unhex(a[2]))).end();
    Buf d(unhex(a[2])); Buf o((size_t)U(a[1])); size_t r = descriptorChecksum(d.c(), d.n, o.c(), o.n); return J().u("ret", r).h("s", o.p, o.n).end();
}
// ---- generic object commands
static string st(Streamable *o) { return std::to_string((int)o->getStatus()); }
CMD(new) {
    switch (kind(a[1])) {
#define X(k, T) case k: put<T>(a[0], new T()); break;
        ALLK(X)
#undef X
        default: bad("kind");
    }
    return "{}";
}
CMD(del) { del(si(a[0])); return "{}"; }
CMD(copy) { // dst src
    int s = si(a[1]);
    switch (slots[s].k) {
#define X(k, T) case k: { T *n = new T(*(const T *)slots[s].o); put<T>(a[0], n); break; }
        ALLK(X)
#undef X
        default: bad("empty");
    }
    return "{}";
}
CMD(assign) { // dst src (same kind)
    int d = si(a[0]), s = si(a[1]); if (slots[d].k != slots[s].k) bad("kinds");
    switch (slots[s].k) {
#define X(k, T) case k: *(T *)slots[d].o = *(const T *)slots[s].o; break;
        ALLK(X)
#undef X
        default: bad("empty");
    }
    return "{}";
}
CMD(eq) {
    int d = si(a[0]), s = si(a[1]); if (slots[d].k != slots[s].k) bad("kinds"); bool e, n;
    switch (slots[s].k) {
#define X(k, T) case k: e = *(const T *)slots[d].o == *(const T *)slots[s].o; n = *(const T *)slots[d].o != *(const T *)slots[s].o; break;
        X(K_SC, ECScalar) X(K_PT, ECPoint) X(K_PUB, PublicKey) X(K_SIG, Signature) X(K_SSIG, SchnorrSignature) X(K_SCR, Script) X(K_WIT, Witness) X(K_HPUB, HDPublicKey) X(K_PRV, PrivateKey) X(K_HPRV, HDPrivateKey)
#undef X
        default: bad("no ==");
    }
    return J().i("eq", e).i("ne", n).end();
}
CMD(parse) { // slot raw|hex|shex data   (shex: std::string overload)
    Streamable *o = any(a[0]); size_t r;
    if (a[1] == "raw") { Buf b(unhex(a[2])); r = o->parse(b.p, b.n); }
    else if (a[1] == "hex") { Buf b(unhex(a[2])); r = o->parse((const char *)b.p, b.n); }
    else r = o->parse(unhex(a[2]));
    return J().u("ret", r).i("st", o->getStatus()).end();
}
// a stream that hands out the bytes of several chunks over several from_stream calls, like a serial port
CMD(chunks) { // slot raw chunk chunk ... -> list of (ret,status)
    Streamable *o = any(a[0]); string out = "[";
    for (size_t i = 1; i < a.size(); i++) {
        Buf b(unhex(a[i])); ParseByteStream s(b.p, b.n); size_t r = s.parse(o);
        if (i > 1) out += ","; out += "[" + std::to_string(r) + "," + st(o) + "," + std::to_string(s.available()) + "]";
    }
    return J().raw("r", out + "]").end();
}
CMD(hchunks) { // like chunks, hex encoded text chunks
    Streamable *o = any(a[0]); string out = "[";
    for (size_t i = 1; i < a.size(); i++) {
        Buf b(unhex(a[i])); ParseByteStream s(b.p, b.n, HEX_ENCODING); size_t r = s.parse(o);
        if (i > 1) out += ","; out += "[" + std::to_string(r) + "," + st(o) + "," + std::to_string(s.available()) + "]";
    }
    return J().raw("r", out + "]").end();
}
CMD(feed) { // slot raw|hex chunk ...: chunks until the object is done or failed -> list of (ret,status,left)
    Streamable *o = any(a[0]); string out = "[";
    for (size_t i = 2; i < a.size(); i++) {
        Buf b(unhex(a[i])); ParseByteStream s(b.p, b.n, a[1] == "hex" ? HEX_ENCODING : RAW); size_t r = s.parse(o);
        if (i > 2) out += ","; out += "[" + std::to_string(r) + "," + st(o) + "," + std::to_string(s.available()) + "]";
        if (o->getStatus() != PARSING_INCOMPLETE) break;
    }
    return J().raw("r", out + "]").end();
}
CMD(ser) { // slot raw|hex offset size
    Streamable *o = any(a[0]); size_t n = (size_t)U(a[3]); Buf b(n < 2 * BIG ? n : 2 * BIG); size_t r;
    if (a[1] == "raw") r = o->serialize(b.p, b.n, (size_t)U(a[2])); else r = o->serialize(b.c(), b.n, (size_t)U(a[2]));
    return J().u("ret", r).h("buf", b.p, b.n).end();
}
CMD(windows) { // slot seed   every offset (many of them for long objects) with short, exact and generous sizes against the whole serialization -> n, bad [offset, size, returned, bytes]
    Streamable *o = any(a[0]); string f = ser(*o); uint64_t x = U(a[1]) * 2 + 1; size_t L = f.size(), n = 0; string bad;
    for (size_t off = 0; off <= L + 2 && bad.empty(); off++) {
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        if (L > 500 && off > 100 && off + 100 < L && (x >> 33) % L > 150) continue;
        size_t rest = off < L ? L - off : 0, sz[] = { 1, 1 + (size_t)((x >> 40) % 12), rest, rest + 1 + (size_t)((x >> 50) % 4) };
        for (size_t k : sz) {
            Buf b(k); size_t w = k < rest ? k : rest, r = o->serialize(b.p, b.n, off); n++;
            if (r != w || memcmp(b.p, f.data() + (off < L ? off : L), w)) { bad = J().u("off", off).u("size", k).u("ret", r).h("buf", b.p, b.n).end(); break; }
        }
    }
    return J().u("n", n).raw("bad", bad.empty() ? "null" : bad).end();
}
CMD(full) { Streamable *o = any(a[0]); return J().u("len", o->length()).u("slen", o->stringLength()).h("b", ser(*o)).i("st", o->getStatus()).end(); }
static const char *INCOH = "{\"incoherent\":1}";
CMD(sers) {
    Streamable *o = any(a[0]); if (o->length() > BIG) return J().h("s", "").end(); size_t x = (size_t)U(a[1]), y = (size_t)U(a[2]); string s = o->serialize(x, y);
    if (x < 1000000 && y < 1000000 && (s != o->serialize((int)x, (int)y) || s != o->serialize(x, (int)y))) return INCOH;
    return J().h("s", s).end();
}
CMD(tostr) { if (any(a[0])->length() > BIG) return J().h("s", "").end(); string s = any(a[0])->toString(); string t = *any(a[0]); if (s != t) return INCOH; return J().h("s", s).end(); }
CMD(tostrb) { Buf b((size_t)U(a[1])); size_t r = any(a[0])->toString(b.c(), b.n); return J().u("ret", r).h("buf", b.p, b.n).end(); }
CMD(fromstr) { Streamable *o = any(a[0]); CStr c(unhex(a[1])); size_t r = o->fromString(c.p); return J().u("ret", r).i("st", o->getStatus()).end(); }
CMD(fromstrn) { Streamable *o = any(a[0]); Buf c(unhex(a[1])); size_t r = o->fromString(c.c(), c.n); return J().u("ret", r).i("st", o->getStatus()).end(); }
// one stream over several objects and plain reads / writes
CMD(pstream) { // raw|hex data ops...   p<slot> | r (read) | b<n> (read n bytes) | a (available) | l (getLast)  -> list
    Buf b(unhex(a[1])); CStr c(unhex(a[1])); ParseByteStream *s = a[0] == "raw" ? new ParseByteStream(b.p, b.n) : a[0] == "hex" ? new ParseByteStream(b.p, b.n, HEX_ENCODING) : new ParseByteStream((const char *)c.p); string out = "[";
    for (size_t i = 2; i < a.size(); i++) {
        if (i > 2) out += ","; char op = a[i][0]; string v = a[i].substr(1);
        if (op == 'p') { Streamable *o = any(v); size_t r = s->parse(o); out += "[" + std::to_string(r) + "," + st(o) + "]"; }
        else if (op == 'r') out += std::to_string(s->read());
        else if (op == 'b') { Buf o((size_t)U(v)); size_t r = s->read(o.p, o.n); out += "[" + std::to_string(r) + "," + jstr(hx(o.p, r < o.n ? r : o.n)) + "]"; }
        else if (op == 'a') out += std::to_string(s->available());
        else out += std::to_string(s->getLast());
    }
    delete s; return J().raw("r", out + "]").end();
}
CMD(sstream) { // raw|hex size ops...   s<slot>:<offset> | w<byte> | b<hex> | a   -> list, buf
    Buf b((size_t)U(a[1])); SerializeByteStream *s = a[0] == "raw" ? new SerializeByteStream(b.p, b.n) : a[0] == "hex" ? new SerializeByteStream(b.c(), b.n) : new SerializeByteStream(b.p, b.n, HEX_ENCODING); string out = "[";
    for (size_t i = 2; i < a.size(); i++) {
        if (i > 2) out += ","; char op = a[i][0]; string v = a[i].substr(1);
        if (op == 's') { size_t c = v.find(':'); out += std::to_string(s->serialize(any(v.substr(0, c)), (size_t)U(v.substr(c + 1)))); }
        else if (op == 'w') out += std::to_string(s->write((uint8_t)U(v)));
        else if (op == 'b') { Buf d(unhex(v)); out += std::to_string(s->write((const uint8_t *)d.p, d.n)); }
        else out += std::to_string(s->available());
    }
    string r = J().raw("r", out + "]").h("buf", b.p, b.n).end(); delete s; return r;
}
CMD(status) { return J().i("st", any(a[0])->getStatus()).end(); }
CMD(rst) { any(a[0])->reset(); return "{}"; }
// isValid() and the conversion to bool say the same, and for the containers the same as getStatus()
template <class T> static bool coh(Streamable *o) { T *t = (T *)o; return t->isValid() == (bool)*t; }
template <class T> static bool cohs(Streamable *o) { T *t = (T *)o; return t->isValid() == (bool)*t && t->isValid() == (t->getStatus() == PARSING_DONE); }
static bool coherent(int i) {
    Streamable *o = slots[i].o;
    switch (slots[i].k) {
        case K_SC: return coh<ECScalar>(o); case K_PT: return coh<ECPoint>(o); case K_PUB: return coh<PublicKey>(o); case K_PRV: return coh<PrivateKey>(o); case K_HPRV: return coh<HDPrivateKey>(o); case K_HPUB: return coh<HDPublicKey>(o);
        case K_SIG: return coh<Signature>(o); case K_SSIG: return coh<SchnorrSignature>(o); case K_TXIN: return cohs<TxIn>(o); case K_TXOUT: return cohs<TxOut>(o); case K_TX: return cohs<Tx>(o); case K_PSBT: return cohs<PSBT>(o); case K_ETX: return cohs<ElectrumTx>(o);
        default: return true;
    }
}
CMD(dump) { any(a[0]); if (!coherent(si(a[0]))) return INCOH; return dump(si(a[0])); }
// ---- scalars and points
CMD(sc_arr) { Buf b(unhex(a[1])); put(a[0], new ECScalar(b.p, b.n)); return st(any(a[0])); }
CMD(sc_hex) { CStr c(a[1]); put(a[0], new ECScalar((const char *)c.p)); return st(any(a[0])); }
CMD(sc_int) { put(a[0], new ECScalar((uint32_t)U(a[1]))); return "{}"; }
static ECScalar scop(const string &op, ECScalar &x, ECScalar &y) {
    if (op == "+") return x + y; if (op == "-") return x - y; if (op == "*") return x * y; if (op == "/") return x / y;
    ECScalar r = x;
    if (op == "+=") r += y; else if (op == "-=") r -= y; else if (op == "*=") r *= y; else if (op == "/=") r /= y; else bad("op");
    return r;
}
CMD(sc_op) { ECScalar r = scop(a[1], get<ECScalar>(a[2]), get<ECScalar>(a[3])); put(a[0], new ECScalar(r)); return "{}"; }
CMD(sc_opi) { // dst op slot int
    ECScalar &x = get<ECScalar>(a[2]); uint32_t i = (uint32_t)U(a[3]); const string &op = a[1]; ECScalar r;
    if (op == "+") r = ((const ECScalar &)x) + i; else if (op == "-") r = ((const ECScalar &)x) - i; else if (op == "*") r = x * i; else if (op == "/") r = x / i;
    else if (op == "i+") r = i + x; else if (op == "i-") r = i - x; else if (op == "i*") r = i * x; else if (op == "i/") r = i / x; else if (op == "v+") r = x + i; else if (op == "v-") r = x - i;
    else if (op == "+=") { r = x; r += i; } else if (op == "-=") { r = x; r -= i; } else bad("op");
    put(a[0], new ECScalar(r)); return "{}";
}
CMD(sc_neg) { ECScalar r = -get<ECScalar>(a[1]); put(a[0], new ECScalar(r)); return "{}"; }
CMD(sc_cmp) { ECScalar &x = get<ECScalar>(a[0]), &y = get<ECScalar>(a[1]); return J().i("eq", x == y).i("ne", x != y).i("lt", x < y).i("gt", x > y).i("le", x <= y).i("ge", x >= y).end(); }
CMD(pt_sec) { // slot how hex
    string d = unhex(a[2]); Buf b(d); ECPoint *p; size_t r = 0;
    if (a[1] == "arr") p = new ECPoint((const uint8_t *)b.p);
    else if (a[1] == "hex") { CStr c(a[2]); p = new ECPoint((const char *)c.p); }
    else if (a[1] == "xy") p = new ECPoint(b.p, true);
    else if (a[1] == "xyu") p = new ECPoint(b.p, false);
    else if (a[1] == "x") { p = new ECPoint(); r = p->from_x(b.p, b.n); }
    else { p = new ECPoint(); r = p->fromSec(b.p, b.n); }
    put(a[0], p); return J().u("ret", r).i("st", p->getStatus()).end();
}
CMD(pt_const) { put(a[0], new ECPoint(a[1] == "inf" ? InfinityPoint : GeneratorPoint)); return "{}"; }
CMD(pt_op) { // dst op a b
    ECPoint &x = get<ECPoint>(a[2]), &y = get<ECPoint>(a[3]); ECPoint r; const string &op = a[1];
    if (op == "+") r = x + y; else if (op == "-") r = x - y; else if (op == "+=") { r = x; r += y; } else { r = x; r -= y; }
    put(a[0], new ECPoint(r)); return "{}";
}
CMD(pt_neg) { ECPoint r = -get<ECPoint>(a[1]); put(a[0], new ECPoint(r)); return "{}"; }
CMD(pt_mul) { // dst op scalar point
    ECScalar &s = get<ECScalar>(a[2]); ECPoint &p = get<ECPoint>(a[3]); ECPoint r;
    if (a[1] == "sp") r = s * p; else if (a[1] == "ps") r = p * s; else r = p / s;
    put(a[0], new ECPoint(r)); return "{}";
}
CMD(pt_cmp) { ECPoint &x = get<ECPoint>(a[0]), &y = get<ECPoint>(a[1]); return J().i("eq", x == y).i("ne", x != y).i("lt", x < y).i("gt", x > y).i("le", x <= y).i("ge", x >= y).end(); }
CMD(pt_x) { ECPoint &x = get<ECPoint>(a[0]); Buf b((size_t)U(a[1])); size_t r = x.x(b.p, b.n); return J().u("ret", r).h("buf", b.p, b.n).h("s", x.x()).end(); }
CMD(pt_secout) { ECPoint &x = get<ECPoint>(a[0]); Buf b((size_t)U(a[1])); size_t r = x.sec(b.p, b.n); return J().u("ret", r).h("buf", b.p, b.n).h("s", x.sec()).end(); }
// ---- public keys
CMD(pub) { // slot how hex
    string d = unhex(a[2]); Buf b(d); PublicKey *p; size_t r = 0;
    if (a[1] == "arr") p = new PublicKey((const uint8_t *)b.p);
    else if (a[1] == "hex") { CStr c(a[2]); p = new PublicKey((const char *)c.p); }
    else if (a[1] == "xy") p = new PublicKey(b.p, true);
    else if (a[1] == "xyu") p = new PublicKey(b.p, false);
    else if (a[1] == "x") { p = new PublicKey(); r = p->from_x(b.p, b.n); }
    else if (a[1] == "sec") { p = new PublicKey(); r = p->fromSec(b.p, b.n); }
    else if (a[1] == "parse") { p = new PublicKey(); r = p->parse(b.p, b.n); }
    else if (a[1] == "phex") { p = new PublicKey(); r = p->parse(a[2]); }
    else { p = new PublicKey(); CStr c(a[2]); r = p->fromString(c.p); }
    put(a[0], p); return J().u("ret", r).i("st", p->getStatus()).raw("d", d_pub(*p)).end();
}
CMD(pub_from) { // slot sec|x hex: into the object as it is
    PublicKey &p = get<PublicKey>(a[0]); Buf b(unhex(a[2])); size_t r = a[1] == "x" ? p.from_x(b.p, b.n) : p.fromSec(b.p, b.n); return J().u("ret", r).i("st", p.getStatus()).end();
}
CMD(pub_comp) { get<PublicKey>(a[0]).compressed = I(a[1]); return "{}"; }
CMD(pub_secout) { const PublicKey &x = refpub(a[0]); Buf b((size_t)U(a[1])); size_t r = x.sec(b.p, b.n); return J().u("ret", r).h("buf", b.p, b.n).h("s", x.sec()).end(); }
CMD(verify) { // pubslot rs hash
    string rs = unhex(a[1]); Buf h(unhex(a[2])); Signature s((const uint8_t *)rs.data(), (const uint8_t *)rs.data() + 32);
    return J().i("v", refpub(a[0]).verify(s, h.p)).end();
}
CMD(verify2) { Buf h(unhex(a[2])); return J().i("v", refpub(a[0]).verify(get<Signature>(a[1]), h.p)).end(); }
CMD(sverify) { string rs = unhex(a[1]); Buf h(unhex(a[2])); SchnorrSignature s((const uint8_t *)rs.data()); return J().i("v", refpub(a[0]).schnorr_verify(s, h.p)).end(); }
CMD(paddr) { // slot kind net size
    const PublicKey &p = refpub(a[0]); const Network *n = net(a[2]); Buf b((size_t)U(a[3])); int r;
    if (a[1] == "legacy") r = p.legacyAddress(b.c(), b.n, n); else if (a[1] == "segwit") r = p.segwitAddress(b.c(), b.n, n); else if (a[1] == "nested") r = p.nestedSegwitAddress(b.c(), b.n, n); else r = p.address(b.c(), b.n, n);
    return J().i("ret", r).h("buf", b.p, b.n).end();
}
CMD(paddrs) {
    const PublicKey &p = refpub(a[0]); const Network *n = net(a[2]); string s;
    if (a[1] == "legacy") s = p.legacyAddress(n); else if (a[1] == "segwit") s = p.segwitAddress(n); else if (a[1] == "nested") s = p.nestedSegwitAddress(n); else s = p.address(n);
    return J().h("s", s).end();
}
// ---- private keys
CMD(prv) { // slot secret compressed net
    Buf b(unhex(a[1])); put(a[0], new PrivateKey(b.p, I(a[2]) != 0, net(a[3]))); return "{}";
}
CMD(prv_sc) { put(a[0], new PrivateKey(get<ECScalar>(a[1]))); return "{}"; }
CMD(prv_set) { Buf b(unhex(a[1])); get<PrivateKey>(a[0]).setSecret(b.p); return "{}"; }
CMD(prv_wifctor) { put(a[0], new PrivateKey(unhex(a[1]))); return "{}"; }
CMD(prv_fromwif) { // slot form text
    PrivateKey &k = get<PrivateKey>(a[0]); int r; if (a[1] == "n") { Buf b(unhex(a[2])); r = k.fromWIF(b.c(), b.n); } else { CStr c(unhex(a[2])); r = k.fromWIF(c.p); }
    return J().i("ret", r).end();
}
CMD(prv_wif) { const PrivateKey &k = refprv(a[0]); Buf b((size_t)U(a[1])); int r = k.wif(b.c(), b.n); return J().i("ret", r).h("buf", b.p, b.n).h("s", k.wif()).end(); }
CMD(prv_pub) { put(a[0], new PublicKey(refprv(a[1]).publicKey())); return "{}"; }
CMD(prv_addr) { // slot kind size
    const PrivateKey &k = refprv(a[0]); Buf b((size_t)U(a[2])); int r; string s;
    if (a[1] == "legacy") { r = k.legacyAddress(b.c(), b.n); s = k.legacyAddress(); } else if (a[1] == "segwit") { r = k.segwitAddress(b.c(), b.n); s = k.segwitAddress(); }
    else if (a[1] == "nested") { r = k.nestedSegwitAddress(b.c(), b.n); s = k.nestedSegwitAddress(); } else { r = k.address(b.c(), b.n); s = k.PrivateKey::address(); }
    return J().i("ret", r).h("buf", b.p, b.n).h("s", s).end();
}
CMD(sign) { // prvslot hash -> sig
    Buf h(unhex(a[1])); Signature s = refprv(a[0]).sign(h.p); return d_sig(s);
}
CMD(signto) { Buf h(unhex(a[2])); put(a[0], new Signature(refprv(a[1]).sign(h.p))); return "{}"; }
CMD(ssign) { Buf h(unhex(a[1])); SchnorrSignature s = refprv(a[0]).schnorr_sign(h.p); return J().h("rs", ser(s)).end(); }
CMD(ecdh) { // prvslot pubslot hash
    Buf o(32); PrivateKey k = refprv(a[0]); int r; if (a[2] == "d") r = k.ecdh(aspub(a[1]), o.p); else r = k.ecdh(aspub(a[1]), o.p, I(a[2]) != 0);
    return J().i("ret", r).h("s", o.p, 32).end();
}
// ---- signatures
CMD(sig) { // slot r s
    Buf r(unhex(a[1])), s(unhex(a[2])); put(a[0], new Signature(r.p, s.p)); return "{}";
}
CMD(sig_der) { // slot how hex
    string d = unhex(a[2]); Signature *g; size_t r = 0;
    if (a[1] == "ctor") { Buf b(d); g = new Signature(b.p, b.n); }
    else if (a[1] == "ctor1") { Buf b(d); g = new Signature((const uint8_t *)b.p); }
    else if (a[1] == "hex") { CStr c(a[2]); g = new Signature((const char *)c.p); }
    else { Buf b(d); g = new Signature(); r = g->fromDer(b.p, b.n); }
    put(a[0], g); return J().u("ret", r).i("st", g->getStatus()).raw("d", d_sig(*g)).end();
}
CMD(sig_from) { // slot hex: DER into the object as it is
    Signature &g = get<Signature>(a[0]); Buf b(unhex(a[1])); size_t r = g.fromDer(b.p, b.n); return J().u("ret", r).i("st", g.getStatus()).end();
}
CMD(sig_derout) { Signature &g = get<Signature>(a[0]); Buf b((size_t)U(a[1])); size_t r = g.der(b.p, b.n); return J().u("ret", r).h("buf", b.p, b.n).end(); }
CMD(sig_bin) { Signature &g = get<Signature>(a[0]); Buf b((size_t)U(a[1])); g.bin(b.p, b.n); return J().h("buf", b.p, b.n).end(); }
CMD(sig_frombin) { Signature &g = get<Signature>(a[0]); Buf b(unhex(a[1])); g.fromBin(b.p, b.n); return "{}"; }
CMD(ssig) { // slot how hex
    string d = unhex(a[2]); SchnorrSignature *g;
    if (a[1] == "arr") { Buf b(d); g = new SchnorrSignature((const uint8_t *)b.p); } else if (a[1] == "rs") { Buf b(d); g = new SchnorrSignature(b.p, b.p + 32); } else { CStr c(a[2]); g = new SchnorrSignature((const char *)c.p); }
    put(a[0], g); return J().i("st", g->getStatus()).end();
}
// ---- mnemonics
static string mn(const char *m) { return m ? J().i("null", 0).h("s", string(m)).end() : J().i("null", 1).end(); }
CMD(mn_gen) { // form words data
    uint8_t w = (uint8_t)I(a[1]);
    if (a[0] == "r") return mn(generateMnemonic(w));
    if (a[0] == "d") { Buf b(unhex(a[2])); return mn(generateMnemonic(w, b.p, b.n)); }
    if (a[0] == "s") return mn(generateMnemonic(w, unhex(a[2])));
    if (a[0] == "d24") { Buf b(unhex(a[2])); return mn(generateMnemonic(b.p, b.n)); }
    return mn(generateMnemonic(unhex(a[2])));
}
CMD(mn_fromentropy) { Buf b(unhex(a[0])); return mn(mnemonicFromEntropy(b.p, b.n)); }
CMD(mn_toentropy) { // form size text
    Buf o((size_t)U(a[1])); size_t r;
    if (a[0] == "s") r = mnemonicToEntropy(unhex(a[2]), o.p, o.n); else { Buf t(unhex(a[2])); r = mnemonicToEntropy((const char *)t.p, t.n, o.p, o.n); }
    return J().u("ret", r).h("buf", o.p, o.n).end();
}
CMD(mn_check) { return J().i("v", checkMnemonic(unhex(a[0]))).end(); }
// ---- HD keys
CMD(hd_seed) { Buf b(unhex(a[1])); HDPrivateKey *k = new HDPrivateKey(); int r = k->fromSeed(b.p, b.n, net(a[2])); put(a[0], k); return J().i("ret", r).end(); }
CMD(hd_reseed) { Buf b(unhex(a[1])); int r = get<HDPrivateKey>(a[0]).fromSeed(b.p, b.n, net(a[2])); return J().i("ret", r).end(); }
static int cbcount; static float cblast;
static void cb(float f) { cbcount++; cblast = f; }
CMD(hd_mn) { // slot form phrase pass net
    string m = unhex(a[2]), p = unhex(a[3]); HDPrivateKey *k; cbcount = 0;
    if (a[1] == "ctors") k = new HDPrivateKey(m, p, net(a[4]));
    else if (a[1] == "ctorn") { Buf x(m), y(p); k = new HDPrivateKey(x.c(), x.n, y.c(), y.n, net(a[4]), cb); }
    else if (a[1] == "n") { k = new HDPrivateKey(); Buf x(m), y(p); k->fromMnemonic(x.c(), x.n, y.c(), y.n, net(a[4])); }
    else if (a[1] == "c") { k = new HDPrivateKey(); CStr x(m), y(p); k->fromMnemonic(x.p, y.p, net(a[4])); }
    else { k = new HDPrivateKey(); k->fromMnemonic(m, p, net(a[4])); }
    put(a[0], k); return J().i("cb", cbcount).end();
}
CMD(hd_ctor) { // slot secret chain depth fp child net type
    Buf s(unhex(a[1])), c(unhex(a[2])); string fp = unhex(a[4]); Buf f(fp);
    put(a[0], new HDPrivateKey(s.p, c.p, (uint8_t)I(a[3]), fp.empty() ? NULL : f.p, (uint32_t)U(a[5]), net(a[6]), (ScriptType)I(a[7]))); return "{}";
}
CMD(hp_ctor) { // slot point chain depth fp child net type
    Buf s(unhex(a[1])), c(unhex(a[2])); string fp = unhex(a[4]); Buf f(fp);
    put(a[0], new HDPublicKey(s.p, c.p, (uint8_t)I(a[3]), fp.empty() ? NULL : f.p, (uint32_t)U(a[5]), net(a[6]), (ScriptType)I(a[7]))); return "{}";
}
CMD(hd_str) { CStr c(unhex(a[1])); put(a[0], new HDPrivateKey((const char *)c.p)); return J().i("st", any(a[0])->getStatus()).raw("d", dump(si(a[0]))).end(); }
CMD(hp_str) { CStr c(unhex(a[1])); put(a[0], new HDPublicKey((const char *)c.p)); return J().i("st", any(a[0])->getStatus()).raw("d", dump(si(a[0]))).end(); }
CMD(hd_child) { // dst src form index
    const HDPrivateKey &k = get<HDPrivateKey>(a[1]); uint32_t i = (uint32_t)U(a[3]);
    HDPrivateKey r = a[2] == "h" ? k.hardenedChild(i) : a[2] == "t" ? k.child(i, true) : k.child(i);
    put(a[0], new HDPrivateKey(r)); return "{}";
}
CMD(hp_child) { HDPublicKey r = get<HDPublicKey>(a[1]).child((uint32_t)U(a[2])); put(a[0], new HDPublicKey(r)); return "{}"; }
static vector<uint32_t> path(const Args &a, size_t from) { vector<uint32_t> v; for (size_t i = from; i < a.size(); i++) v.push_back((uint32_t)U(a[i])); return v; }
CMD(hd_derive) { vector<uint32_t> v = path(a, 2); Buf b(string((char *)v.data(), v.size() * 4)); HDPrivateKey r = get<HDPrivateKey>(a[1]).derive((uint32_t *)b.p, v.size()); put(a[0], new HDPrivateKey(r)); return "{}"; }
CMD(hp_derive) { vector<uint32_t> v = path(a, 2); Buf b(string((char *)v.data(), v.size() * 4)); HDPublicKey r = get<HDPublicKey>(a[1]).derive((uint32_t *)b.p, v.size()); put(a[0], new HDPublicKey(r)); return "{}"; }
CMD(hd_path) { CStr c(unhex(a[2])); HDPrivateKey r = get<HDPrivateKey>(a[1]).derive((const char *)c.p); put(a[0], new HDPrivateKey(r)); return dump(si(a[0])); }
CMD(hp_path) { CStr c(unhex(a[2])); HDPublicKey r = get<HDPublicKey>(a[1]).derive((const char *)c.p); put(a[0], new HDPublicKey(r)); return dump(si(a[0])); }
CMD(hd_xpub) { put(a[0], new HDPublicKey(get<HDPrivateKey>(a[1]).xpub())); return "{}"; }
CMD(hd_out) { // slot size
    HDPrivateKey &k = get<HDPrivateKey>(a[0]); Buf b((size_t)U(a[1])), c((size_t)U(a[1])); int r = k.xprv(b.c(), b.n), q = k.xpub(c.c(), c.n);
    return J().i("r1", r).h("xprv", b.p, b.n).i("r2", q).h("xpub", c.p, c.n).h("sxprv", k.xprv()).h("sfp", k.fingerprint()).end();
}
CMD(hp_out) { HDPublicKey &k = get<HDPublicKey>(a[0]); Buf b((size_t)U(a[1])); int r = k.xpub(b.c(), b.n); uint8_t f[4]; k.fingerprint(f); return J().i("r", r).h("xpub", b.p, b.n).h("sxpub", k.xpub()).h("fp", f, 4).h("sfp", k.fingerprint()).end(); }
CMD(hd_addr) { HDPrivateKey &k = get<HDPrivateKey>(a[0]); Buf b((size_t)U(a[1])); int r = k.address(b.c(), b.n); return J().i("ret", r).h("buf", b.p, b.n).h("s", k.address()).end(); }
CMD(hp_addr) { HDPublicKey &k = get<HDPublicKey>(a[0]); Buf b((size_t)U(a[1])); int r = k.address(b.c(), b.n); return J().i("ret", r).h("buf", b.p, b.n).h("s", k.address()).end(); }
CMD(hd_type) { int i = si(a[0]); if (slots[i].k == K_HPRV) get<HDPrivateKey>(a[0]).type = (ScriptType)I(a[1]); else get<HDPublicKey>(a[0]).type = (ScriptType)I(a[1]); return "{}"; }
CMD(hd_net) { int i = si(a[0]); if (slots[i].k == K_HPRV) get<HDPrivateKey>(a[0]).network = net(a[1]); else get<HDPublicKey>(a[0]).network = net(a[1]); return "{}"; }
// ---- scripts
CMD(scr) { Buf b(unhex(a[1])); put(a[0], new Script(b.p, b.n)); return "{}"; }
CMD(scr_addr) { // slot form text
    string t = unhex(a[2]); if (a[1] == "s") put(a[0], new Script(t)); else { CStr c(t); put(a[0], new Script((const char *)c.p)); } return dump(si(a[0]));
}
CMD(scr_pub) { put(a[0], new Script(aspub(a[1]), (ScriptType)I(a[2]))); return dump(si(a[0])); }
CMD(scr_pubm) { put(a[0], new Script(refpub(a[1]).script((ScriptType)I(a[2])))); return dump(si(a[0])); }
CMD(scr_scr) { put(a[0], new Script(get<Script>(a[1]), (ScriptType)I(a[2]))); return dump(si(a[0])); }
CMD(scr_spk) { put(a[0], new Script(get<Script>(a[1]).scriptPubkey((ScriptType)I(a[2])))); return dump(si(a[0])); }
CMD(scr_build) { // dst what args
    const string &w = a[1];
    if (w == "pkh") put(a[0], new Script(pkh(aspub(a[2])))); else if (w == "wpkh") put(a[0], new Script(wpkh(aspub(a[2]))));
    else if (w == "sh") put(a[0], new Script(sh(get<Script>(a[2])))); else if (w == "wsh") put(a[0], new Script(wsh(get<Script>(a[2]))));
    else { // multi/sortedmulti threshold pubs...
        size_t n = a.size() - 3; PublicKey *p = new PublicKey[n]; for (size_t i = 0; i < n; i++) p[i] = aspub(a[3 + i]);
        put(a[0], new Script(w == "multi" ? multi((uint8_t)I(a[2]), p, (uint8_t)n) : sortedmulti((uint8_t)I(a[2]), p, (uint8_t)n)));
        string after = "["; for (size_t i = 0; i < n; i++) { if (i) after += ","; uint8_t s[65]; size_t l = p[i].sec(s, 65); after += jstr(hx(s, l)); }
        delete[] p; return J().raw("d", dump(si(a[0]))).raw("keys", after + "]").end();
    }
    return dump(si(a[0]));
}
CMD(scr_push) { // slot what value
    Script &s = get<Script>(a[0]); size_t r; const string &w = a[1];
    if (w == "op") r = s.push((uint8_t)I(a[2])); else if (w == "bytes") { Buf b(unhex(a[2])); r = s.push(b.p, b.n); } else if (w == "pub") r = s.push(aspub(a[2]));
    else if (w == "sig") r = s.push(get<Signature>(a[2])); else if (w == "sigt") r = s.push(get<Signature>(a[2]), (SigHashType)I(a[3])); else r = s.push(get<Script>(a[2]));
    return J().u("ret", r).end();
}
CMD(scr_clear) { get<Script>(a[0]).clear(); return "{}"; }
CMD(scr_address) { Script &s = get<Script>(a[0]); Buf b((size_t)U(a[2])); size_t r = s.address(b.c(), b.n, net(a[1])); return J().u("ret", r).h("buf", b.p, b.n).h("s", s.address(net(a[1]))).end(); }
// ---- witness
CMD(wit) { Buf b(unhex(a[1])); put(a[0], new Witness(b.p, b.n)); return st(any(a[0])); }
CMD(wit_sp) { put(a[0], new Witness(get<Signature>(a[1]), aspub(a[2]))); return "{}"; }
CMD(wit_push) {
    Witness &s = get<Witness>(a[0]); size_t r; const string &w = a[1];
    if (w == "bytes") { Buf b(unhex(a[2])); r = s.push(b.p, b.n); } else if (w == "pub") r = s.push(aspub(a[2])); else if (w == "sig") r = s.push(get<Signature>(a[2]));
    else if (w == "sigt") r = s.push(get<Signature>(a[2]), (SigHashType)I(a[3])); else r = s.push(get<Script>(a[2]));
    return J().u("ret", r).end();
}
CMD(wit_clear) { get<Witness>(a[0]).clear(); return "{}"; }
// ---- tx parts
CMD(txin) { // slot form id index seq [scriptslot]
    uint32_t i = (uint32_t)U(a[3]), q = (uint32_t)U(a[4]); TxIn *t;
    if (a[1] == "c") { CStr c(unhex(a[2])); t = a.size() > 5 ? new TxIn((const char *)c.p, i, get<Script>(a[5]), q) : new TxIn((const char *)c.p, i, q); }
    else { Buf b(unhex(a[2])); t = a.size() > 5 ? new TxIn(b.p, i, get<Script>(a[5]), q) : new TxIn(b.p, i, q); }
    put(a[0], t); return "{}";
}
CMD(txin_wit) { get<TxIn>(a[0]).witness = get<Witness>(a[1]); return "{}"; }
CMD(txin_scr) { get<TxIn>(a[0]).scriptSig = get<Script>(a[1]); return "{}"; }
CMD(txout) { // slot form amount scriptslot|address
    uint64_t v = U(a[2]); TxOut *t;
    if (a[1] == "as") t = new TxOut(v, get<Script>(a[3])); else if (a[1] == "sa") t = new TxOut(get<Script>(a[3]), v);
    else { CStr c(unhex(a[3])); t = a[1] == "ac" ? new TxOut(v, (const char *)c.p) : new TxOut((const char *)c.p, v); }
    put(a[0], t); return "{}";
}
CMD(txout_addr) { TxOut &t = get<TxOut>(a[0]); Buf b((size_t)U(a[2])); size_t r = t.address(b.c(), b.n, net(a[1])); return J().u("ret", r).h("buf", b.p, b.n).h("s", t.address(net(a[1]))).end(); }
// ---- tx
static Tx &tx(const string &s) { int i = si(s); if (slots[i].k == K_PSBT) return ((PSBT *)slots[i].o)->tx; if (slots[i].k == K_ETX) return ((ElectrumTx *)slots[i].o)->tx; return get<Tx>(s); }
CMD(tx_set) { Tx &t = tx(a[0]); t.version = (uint32_t)U(a[1]); t.locktime = (uint32_t)U(a[2]); return "{}"; }
CMD(tx_addin) { return J().i("ret", tx(a[0]).addInput(get<TxIn>(a[1]))).end(); }
CMD(tx_addout) { return J().i("ret", tx(a[0]).addOutput(get<TxOut>(a[1]))).end(); }
static size_t idx(const string &s, size_t n) { size_t i = (size_t)U(s); if (i >= n) bad("index"); return i; }
CMD(tx_setin) { // tx i what value
    Tx &t = tx(a[0]); TxIn &x = t.txIns[idx(a[1], t.inputsNumber)];
    if (a[2] == "seq") x.sequence = (uint32_t)U(a[3]); else if (a[2] == "index") x.outputIndex = (uint32_t)U(a[3]); else if (a[2] == "scr") x.scriptSig = get<Script>(a[3]);
    else if (a[2] == "wit") x.witness = get<Witness>(a[3]); else if (a[2] == "push") { Buf b(unhex(a[3])); x.scriptSig.push(b.p, b.n); } else if (a[2] == "wpush") { Buf b(unhex(a[3])); x.witness.push(b.p, b.n); } else if (a[2] == "in") x = get<TxIn>(a[3]); else bad("what");
    return "{}";
}
CMD(tx_setout) { Tx &t = tx(a[0]); TxOut &x = t.txOuts[idx(a[1], t.outputsNumber)]; if (a[2] == "amount") x.amount = U(a[3]); else if (a[2] == "scr") x.scriptPubkey = get<Script>(a[3]); else if (a[2] == "out") x = get<TxOut>(a[3]); else { Buf b(unhex(a[3])); x.scriptPubkey.push(b.p, b.n); } return "{}"; }
CMD(tx_sighash) { Tx &t = tx(a[0]); Buf o(32); size_t i = idx(a[1], t.inputsNumber); int r; if (a.size() > 3) r = t.sigHash(o.p, i, get<Script>(a[2]), (SigHashType)I(a[3])); else r = t.sigHash(o.p, i, get<Script>(a[2])); return J().i("ret", r).h("h", o.p, 32).end(); }
CMD(tx_sighashw) { Tx &t = tx(a[0]); Buf o(32); size_t i = idx(a[1], t.inputsNumber); int r; if (a.size() > 4) r = t.sigHashSegwit(o.p, i, get<Script>(a[2]), U(a[3]), (SigHashType)I(a[4])); else r = t.sigHashSegwit(o.p, i, get<Script>(a[2]), U(a[3])); return J().i("ret", r).h("h", o.p, 32).end(); }
CMD(tx_hashes) { Tx &t = tx(a[0]); Buf p(32), q(32), o(32), h(32), w(32); t.hashPrevouts(p.p); t.hashSequence(q.p); t.hashOutputs(o.p); t.hash(h.p); t.whash(w.p); return J().h("prev", p.p, 32).h("seq", q.p, 32).h("outs", o.p, 32).h("hash", h.p, 32).h("whash", w.p, 32).h("txid", t.txid()).h("wtxid", t.wtxid()).end(); }
CMD(tx_sign) { // tx i prv [script [sighash]]
    Tx &t = tx(a[0]); size_t i = idx(a[1], t.inputsNumber); Signature s = a.size() > 4 ? t.signInput(i, refprv(a[2]), get<Script>(a[3]), (SigHashType)I(a[4])) : a.size() > 3 ? t.signInput(i, refprv(a[2]), get<Script>(a[3])) : t.signInput(i, refprv(a[2])); return d_sig(s);
}
CMD(tx_signw) { // tx i prv amount type [script [sighash]]
    Tx &t = tx(a[0]); size_t i = idx(a[1], t.inputsNumber); ScriptType ty = (ScriptType)I(a[4]);
    Signature s = a.size() > 6 ? t.signSegwitInput(i, refprv(a[2]), get<Script>(a[5]), U(a[3]), ty, (SigHashType)I(a[6])) : a.size() > 5 ? t.signSegwitInput(i, refprv(a[2]), get<Script>(a[5]), U(a[3]), ty) : t.signSegwitInput(i, refprv(a[2]), U(a[3]), ty); return d_sig(s);
}
CMD(tx_get) { // dst tx what i -> copy of part
    Tx &t = tx(a[1]); if (a[2] == "in") put(a[0], new TxIn(t.txIns[idx(a[3], t.inputsNumber)])); else if (a[2] == "out") put(a[0], new TxOut(t.txOuts[idx(a[3], t.outputsNumber)])); else put(a[0], new Tx(t)); return "{}";
}
// ---- psbt / electrum
CMD(psbt_b64) { PSBT &p = get<PSBT>(a[0]); size_t r = p.parseBase64(unhex(a[1])); return J().u("ret", r).i("st", p.getStatus()).end(); }
CMD(psbt_tob64) { if (any(a[0])->length() > BIG) return J().h("s", "").end(); return J().h("s", get<PSBT>(a[0]).toBase64()).end(); }
CMD(psbt_sign) { return J().i("ret", get<PSBT>(a[0]).sign(get<HDPrivateKey>(a[1]))).end(); }
CMD(psbt_fee) { return J().u("fee", get<PSBT>(a[0]).fee()).end(); }
CMD(psbt_mine) { PSBT &p = get<PSBT>(a[0]); size_t o = idx(a[1], p.tx.outputsNumber); int i = si(a[2]); bool r = slots[i].k == K_HPRV ? p.isMine((uint8_t)o, get<HDPrivateKey>(a[2])) : p.isMine((uint8_t)o, get<HDPublicKey>(a[2])); return J().i("v", r).end(); }
CMD(etx_sign) { return J().i("ret", get<ElectrumTx>(a[0]).sign(get<HDPrivateKey>(a[1]))).end(); }
CMD(etx_fee) { return J().u("fee", get<ElectrumTx>(a[0]).fee()).end(); }
// ---- secrets after destruction: build an object in our storage, destroy it, return the storage
template <class T> static string wiped(std::function<void(void *)> make) {
    size_t n = sizeof(T); void *m = malloc(n); memset(m, 0x5A, n);
    make(m); string before((char *)m, n); ((T *)m)->~T(); string after((char *)m, n); free(m);
    return J().h("before", before).h("after", after).end();
}
template <class T> static void wset(T *t, const string &d) { Buf b(d); t->setSecret(b.p); }
template <class T> static bool wmore(T *, const string &, const string &) { return false; }
static bool wmore(PrivateKey *t, const string &op, const string &v) {
    if (op == "wif") { CStr c(unhex(v)); t->fromWIF(c.p); } else if (op == "query") { uint8_t h[32]; memset(h, 7, 32); t->sign(h); t->wif(); t->publicKey(); t->schnorr_sign(h); } else return false; return true; }
static bool wmore(HDPrivateKey *t, const string &op, const string &v) {
    if (op == "seed") { Buf b(unhex(v)); t->fromSeed(b.p, b.n); } else if (op == "child") *t = t->child((uint32_t)U(v)); else if (op == "hchild") *t = t->hardenedChild((uint32_t)U(v));
    else if (op == "path") { CStr c(unhex(v)); *t = t->derive((const char *)c.p); } else if (op == "query") { t->xprv(); t->xpub(); t->fingerprint(); t->address(); uint8_t h[32]; memset(h, 7, 32); t->sign(h); } else return false; return true; }
CMD(wipe) { // kind how srcslot...  copies/assigns from existing objects, or builds
    Kind k = kind(a[0]); const string &how = a[1];
#define GEN(T) \
    if (how == "copy") return wiped<T>([&](void *m) { new (m) T(get<T>(a[2])); }); \
    if (how == "assign") return wiped<T>([&](void *m) { T *t = new (m) T(); *t = get<T>(a[2]); }); \
    if (how == "assign2") return wiped<T>([&](void *m) { T *t = new (m) T(get<T>(a[2])); *t = get<T>(a[3]); }); \
    if (how == "seq") return wiped<T>([&](void *m) { T *t = new (m) T(); \
        for (size_t i = 2; i + 1 < a.size(); i += 2) { const string &op = a[i], &v = a[i + 1]; \
            if (op == "parse") { Buf b(unhex(v)); t->parse(b.p, b.n); } else if (op == "str") { CStr c(unhex(v)); t->fromString(c.p); } \
            else if (op == "reset") t->reset(); else if (op == "self") *t = *(T *)t; else if (op == "assign") *t = get<T>(v); else if (op == "copy") { t->~T(); new (m) T(get<T>(v)); } \
            else if (op == "set") wset(t, unhex(v)); else if (!wmore(t, op, v)) bad("wipe op " + op); } }); \
    if (how == "parse") { Buf b(unhex(a[2])); return wiped<T>([&](void *m) { T *t = new (m) T(); t->parse(b.p, b.n); }); } \
    if (how == "str") { CStr c(unhex(a[2])); return wiped<T>([&](void *m) { T *t = new (m) T(); t->fromString(c.p); }); }
    if (k == K_SC) {
        GEN(ECScalar)
        if (how == "ctor") { Buf b(unhex(a[2])); return wiped<ECScalar>([&](void *m) { new (m) ECScalar(b.p, b.n); }); }
        if (how == "set") { Buf b(unhex(a[2])); return wiped<ECScalar>([&](void *m) { ECScalar *t = new (m) ECScalar(); t->setSecret(b.p); }); }
        if (how == "op") return wiped<ECScalar>([&](void *m) { new (m) ECScalar(scop(a[2], get<ECScalar>(a[3]), get<ECScalar>(a[4]))); });
    } else if (k == K_PRV) {
        GEN(PrivateKey)
        if (how == "ctor") { Buf b(unhex(a[2])); return wiped<PrivateKey>([&](void *m) { new (m) PrivateKey(b.p); }); }
        if (how == "wif") return wiped<PrivateKey>([&](void *m) { new (m) PrivateKey(unhex(a[2])); });
        if (how == "set") { Buf b(unhex(a[2])); return wiped<PrivateKey>([&](void *m) { PrivateKey *t = new (m) PrivateKey(); t->setSecret(b.p); }); }
        if (how == "sc") return wiped<PrivateKey>([&](void *m) { new (m) PrivateKey(get<ECScalar>(a[2])); });
        if (how == "slice") return wiped<PrivateKey>([&](void *m) { new (m) PrivateKey((const PrivateKey &)get<HDPrivateKey>(a[2])); });
    } else {
        GEN(HDPrivateKey)
        if (how == "seed") { Buf b(unhex(a[2])); return wiped<HDPrivateKey>([&](void *m) { HDPrivateKey *t = new (m) HDPrivateKey(); t->fromSeed(b.p, b.n); }); }
        if (how == "child") return wiped<HDPrivateKey>([&](void *m) { new (m) HDPrivateKey(get<HDPrivateKey>(a[2]).child((uint32_t)U(a[3]))); });
        if (how == "path") { CStr c(unhex(a[3])); return wiped<HDPrivateKey>([&](void *m) { new (m) HDPrivateKey(get<HDPrivateKey>(a[2]).derive((const char *)c.p)); }); }
        if (how == "ctor") { Buf s(unhex(a[2])), c(unhex(a[3])); return wiped<HDPrivateKey>([&](void *m) { new (m) HDPrivateKey(s.p, c.p); }); }
        if (how == "mn") { string x = unhex(a[2]), y = unhex(a[3]); return wiped<HDPrivateKey>([&](void *m) { new (m) HDPrivateKey(x, y); }); }
        if (how == "xprv") { CStr c(unhex(a[2])); return wiped<HDPrivateKey>([&](void *m) { new (m) HDPrivateKey((const char *)c.p); }); }
    }
    bad("wipe");
}
CMD(reset) {
    for (int i = 0; i < NSLOT; i++) del(i);
#ifdef HAVE_ALLOC_STATS
    return J().u("mem", __sanitizer_get_current_allocated_bytes()).end();
#else
    return J().u("mem", 0).end();
#endif
}
CMD(networks) {
    string o = "[";
    for (int i = 0; i < 4; i++) { const Network *n = NETS[i]; if (i) o += ",";
        o += J().i("p2pkh", n->p2pkh).i("p2sh", n->p2sh).h("bech32", string(n->bech32)).i("wif", n->wif).h("xprv", n->xprv, 4).h("yprv", n->yprv, 4).h("zprv", n->zprv, 4).h("Yprv", n->Yprv, 4).h("Zprv", n->Zprv, 4)
            .h("xpub", n->xpub, 4).h("ypub", n->ypub, 4).h("zpub", n->zpub, 4).h("Ypub", n->Ypub, 4).h("Zpub", n->Zpub, 4).u("bip32", n->bip32).end(); }
    return J().raw("nets", o + "]").end();
}

static char line[1 << 25];
int main() {
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    while (fgets(line, sizeof line, stdin)) {
        string rep;
        {
            Args a; char *sv; for (char *t = strtok_r(line, " \n", &sv); t; t = strtok_r(NULL, " \n", &sv)) a.push_back(t);
            if (a.empty()) continue;
            string name = a[0]; a.erase(a.begin());
            auto it = cmds.find(name);
            if (it == cmds.end()) rep = "{\"harness_error\":\"unknown command " + name + "\"}";
            else try { a.reserve(a.size() + 1); rep = it->second(a); } catch (const Bad &b) { rep = "{\"harness_error\":\"" + b.msg + "\"}"; }
        }
        fputs(rep.c_str(), stdout); fputc('\n', stdout); fflush(stdout);
    }
    return 0;
}
