// libFuzzer entry: FUZZ_KIND selects the object kind (or "text"); the input is [flags, chunk size, payload].
// Everything is judged by AddressSanitizer, the bounds checks and libFuzzer's timeout.
#define main server_main
#define BIGLIM (1 << 16)
#include "server.cpp"
#undef main
#include <string_view>
static Kind FK = K_NONE; static bool TEXT = false;
static HDPrivateKey *root; static PrivateKey *prvkey;
static Streamable *mk(Kind k) {
    switch (k) {
#define X(kk, T) case kk: return new T();
        ALLK(X)
#undef X
        default: abort();
    }
}
static Streamable *dup(Kind k, Streamable *o) {
    switch (k) {
#define X(kk, T) case kk: return new T(*(const T *)o);
        ALLK(X)
#undef X
        default: abort();
    }
}
static void asg(Kind k, Streamable *d, Streamable *o) {
    switch (k) {
#define X(kk, T) case kk: *(T *)d = *(const T *)o; break;
        ALLK(X)
#undef X
        default: abort();
    }
}
static void feed(Streamable *o, const uint8_t *p, size_t n, size_t chunk, bool hex) {
    if (chunk == 0) { Buf b(string((const char *)p, n)); if (hex) o->parse((const char *)b.p, b.n); else o->parse(b.p, b.n); return; }
    for (size_t i = 0; i < n; i += chunk) {
        size_t m = n - i < chunk ? n - i : chunk; Buf b(string((const char *)p + i, m)); ParseByteStream s(b.p, b.n, hex ? HEX_ENCODING : RAW); s.parse(o);
        if (o->getStatus() != PARSING_INCOMPLETE) break;
    }
}
static int curve; // curve operations are slow: a few per input
static void use(int i, uint8_t flags) {
    Streamable *o = slots[i].o; Kind k = slots[i].k;
    dump(i); size_t n = o->length();
    if (n < BIG) {
        { Buf b(n); o->serialize(b.p, b.n); } { Buf b(n / 2); o->serialize(b.p, b.n, n / 3); } { Buf b(2 * n + 1); o->serialize(b.c(), b.n, 0); }
        { Buf b(flags & 63); o->toString(b.c(), b.n); } o->toString();
    }
    auto dosign = [&](Tx &t) { if (t.inputsNumber) { size_t j = flags % t.inputsNumber; uint8_t h[32]; t.sigHash(h, j, t.txIns[j].scriptSig); t.sigHashSegwit(h, j, t.txIns[j].scriptSig, 5); if ((flags & 96) == 96 && curve-- > 0) { t.signInput(j, *prvkey); t.signSegwitInput(j, *prvkey, 5, P2SH_P2WPKH); } }
        for (size_t j = 0; j < t.outputsNumber && j < 4; j++) { Buf b(76); t.txOuts[j].address(b.c(), b.n); } };
    if (k == K_TX) dosign(*(Tx *)o);
    if (k == K_PSBT) { PSBT &p = *(PSBT *)o; p.fee(); if (curve-- > 0) p.sign(*root); if (curve-- > 0) for (size_t j = 0; j < p.tx.outputsNumber && j < 3; j++) { p.isMine((uint8_t)j, *root); p.isMine((uint8_t)j, root->xpub()); } if (n < BIG) p.toBase64(); }
    if (k == K_ETX) { ElectrumTx &p = *(ElectrumTx *)o; p.fee(); if (curve-- > 0) p.sign(*root); }
    if (k == K_SCR) { Script &s = *(Script *)o; Buf b(76); s.address(b.c(), b.n); s.scriptPubkey((ScriptType)(flags % 9)); if (flags & 1) s.push(o ? (uint8_t)flags : 0); if (flags & 2) s.push((uint8_t *)"abc", 3); }
    if (k == K_WIT && (flags & 2)) ((Witness *)o)->push((uint8_t *)"abc", 3);
    if (k == K_PUB && curve-- > 0) { PublicKey &p = *(PublicKey *)o; uint8_t h[32]; memset(h, 9, 32); Signature sg; p.verify(sg, h); Buf b(76); p.segwitAddress(b.c(), b.n); p.legacyAddress(b.c(), b.n); p.nestedSegwitAddress(b.c(), b.n); }
    if (k == K_HPUB && curve-- > 0) { HDPublicKey &p = *(HDPublicKey *)o; p.child(flags); p.address(); p.xpub(); p.derive("m/1/2"); }
    if (k == K_HPRV && curve-- > 0) { HDPrivateKey &p = *(HDPrivateKey *)o; p.hardenedChild(flags); p.address(); p.xprv(); p.xpub(); }
    if (k == K_PRV && curve-- > 0) { PrivateKey &p = *(PrivateKey *)o; uint8_t h[32]; memset(h, 9, 32); p.sign(h); p.wif(); }
    dump(i);
}
static void text(uint8_t flags, uint8_t c2, const uint8_t *p, size_t n) {
    string t((const char *)p, n); Buf b(t); CStr z(t); size_t m = c2 & 1 ? c2 : n + c2; // z: text up to the first zero
    switch (flags % 16) {
        case 0: { Buf o(m); fromHex((const char *)b.p, b.n, o.p, o.n); fromHex(t, o.p, o.n); break; }
        case 1: { Buf o(m); fromBin((const char *)b.p, b.n, o.p, o.n); fromBin(t, o.p, o.n); break; }
        case 2: { Buf o(m); fromBase58((const char *)b.p, b.n, o.p, o.n); fromBase58Length((const char *)b.p, b.n); fromBase58(t, o.p, o.n); break; }
        case 3: { Buf o(m); fromBase58Check((const char *)b.p, b.n, o.p, o.n); fromBase58Check(t, o.p, o.n); break; }
        case 4: { Buf o(m); fromBase43((const char *)b.p, b.n, o.p, o.n); fromBase43(t, o.p, o.n); fromBase43Length((const char *)b.p, b.n); break; }
        case 5: { Buf o(m); fromBase64((const char *)b.p, b.n, o.p, o.n, c2 >> 6); fromBase64Length((const char *)b.p, b.n, c2 >> 6); base64ToHex(t, c2 >> 6); hexToBase64(t, c2 >> 6); break; }
        case 6: { Script s((const char *)z.p); Script s2(t); Buf o(76); s.address(o.c(), o.n); break; }
        case 7: { PrivateKey k; k.fromWIF((const char *)b.p, b.n); k.fromWIF(z.p); PrivateKey k2(t); k2.wif(); k.fromString(z.p, n); break; }
        case 8: { HDPrivateKey k((const char *)z.p); k.xpub(); HDPublicKey q((const char *)z.p); q.address(); k.fromString(z.p); q.fromString(b.c(), b.n); break; }
        case 9: { root->derive((const char *)z.p); break; }
        case 10: { root->xpub().derive((const char *)z.p); break; }
        case 11: { checkMnemonic((const char *)z.p); Buf o(m); mnemonicToEntropy((const char *)b.p, b.n, o.p, o.n); mnemonicToEntropy(t, o.p, o.n); break; }
        case 12: { Buf o(c2 % 12); descriptorChecksum((const char *)b.p, b.n, o.c(), o.n); descriptorChecksum(t); break; }
        case 13: { PSBT q; q.parseBase64(t); q.sign(*root); PSBT r(q); q = r; q.parseBase64(string(z.p)); break; }
        case 14: { PublicKey q((const char *)z.p); Signature g((const char *)z.p); SchnorrSignature h((const char *)z.p); TxIn x((const char *)z.p, 1, 2); TxOut y((uint64_t)5, (const char *)z.p); y.address(); ECScalar e((const char *)z.p); ECPoint pt((const char *)z.p); break; }
        default: { Kind k = (Kind)(1 + c2 % K_ETX); slots[0].k = k; slots[0].o = mk(k); if (flags & 16) slots[0].o->fromString(b.c(), b.n); else slots[0].o->parse(t); use(0, c2); del(0); }
    }
}
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    const char *k = getenv("FUZZ_KIND"); if (!k) { fprintf(stderr, "FUZZ_KIND?\n"); exit(3); }
    if (!strcmp(k, "text")) TEXT = true; else FK = kind(k);
    root = new HDPrivateKey(); const char *x = getenv("FUZZ_ROOT"); uint8_t seed[16] = {1, 2, 3}; root->fromSeed(seed, 16); if (x) root->fromString(x);
    prvkey = new PrivateKey(*root); return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    if (n < 2) return 0;
    curve = d[0] & 128 ? 3 : 1; uint8_t fl = d[0], c = d[1]; d += 2; n -= 2;
    if (TEXT) { text(fl, c, d, n); return 0; }
    size_t chunk = c < 64 ? 0 : c < 128 ? 1 : c; bool hex = (fl & 128) != 0;
    Streamable *o = mk(FK); slots[0].k = FK; slots[0].o = o;
    feed(o, d, n, chunk, hex); 
    if (fl & 1) dump(0);
    if (fl & 2) { slots[1].k = FK; slots[1].o = dup(FK, o); }
    if (fl & 4) use(0, c);
    if (fl & 8) { slots[2].k = FK; slots[2].o = mk(FK); asg(FK, slots[2].o, o); asg(FK, o, o); }
    if (fl & 16) { o->reset(); feed(o, d, n, chunk ? 0 : 7, hex); if (fl & 4) use(0, c); }
    else if (fl & 32) feed(o, d, n, chunk, hex);    // once more into the object as it is
    if (fl & 64 && slots[1].o) { feed(slots[1].o, d, n < 40 ? n : 40, 3, hex); asg(FK, o, slots[1].o); }
    if (slots[1].o) use(1, fl);
    if (slots[2].o) { del(0); use(2, c); }
    for (int i = 0; i < 3; i++) del(i);
    return 0;
}
