#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property catalogue is kept here as one readable table)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe)))

p("C01", "Hashes, HMACs and tagged hashes equal the published standards",
  "For every message, key and tag, the library's SHA-256, SHA-512, RIPEMD-160, HASH160, double-SHA-256, HMAC-SHA-256, HMAC-SHA-512 and BIP-340 tagged hash return exactly the value the published standard defines. The streaming hash objects give the same value however the message is split into writes (single bytes included), and a hash object (a tagged one apart, which only its constructor begins) can be begun again and reused after it was finished or abandoned half-way.",
  ["inputs", "histories"], "all messages, keys and tags of any length (including around the 55/56/63/64/111/112/127/128-byte block and padding edges and keys longer than a block), all ways of splitting a message into writes, all begin/write/end histories of one object",
  "test_hash samples a handful of short ASCII messages, each fed in one call: no block-boundary lengths, no chunked writes, no reuse, no long HMAC key.",
  ["src/Hash.cpp", "src/Hash.h", "src/utility/trezor/sha2.c", "src/utility/trezor/ripemd160.c", "src/utility/trezor/hmac.c"],
  [("streaming contexts", "src/Hash.cpp"), ("block buffering and padding", "src/utility/trezor/sha2.c, ripemd160.c"), ("key block preparation", "src/utility/trezor/hmac.c")],
  ["sha256/sha512/rmd160/hash160/doubleSha/tagged_hash/sha256Hmac/sha512Hmac and the hash classes"])

p("C02", "Base58 and Base58Check encode and decode losslessly and reject bad data",
  "Encoding any byte string in Base58 or Base58Check gives exactly the standard encoding, and decoding it gives back exactly the original bytes, leading zero bytes included. Base58Check decoding succeeds only if the four-byte double-SHA-256 checksum matches, and both decoders report failure (0) when the result does not fit the caller's buffer.",
  ["inputs", "configurations"], "all byte strings (any number of leading zeros, all lengths up to several hundred bytes), all alphabet strings, all single- and multi-character corruptions, all output buffer sizes",
  "The existing tests convert a few fixed strings; no leading-zero families, checksum corruptions or buffer-size sweeps are tried.",
  ["src/Conversion.cpp", "src/Conversion.h"],
  [("toBase58/fromBase58 digit loops and zero counting", "src/Conversion.cpp"), ("checksum compare", "src/Conversion.cpp fromBase58Check")],
  ["toBase58, toBase58Check, fromBase58, fromBase58Check (array and string forms)"])

p("C03", "Hex, binary, Base64 and Base43 codecs are lossless and reject bad input",
  "For every byte string, hex, binary-digit, Base64 (standard, URL-safe, with or without padding) and Base43 encoding gives exactly the standard text and decoding that text gives back exactly the original bytes. Text that is not a valid Base64 or binary-digit encoding, or whose decoded form does not fit the caller's buffer, is reported as failure (0) rather than decoded to something else.",
  ["inputs", "configurations"], "all byte strings of any length including empty, all flag combinations, all corruptions of encoded text, all buffer sizes",
  "test_conversion exercises a few fixed vectors; no empty input, odd remainders with each flag, or malformed text.",
  ["src/Conversion.cpp", "src/Conversion.h"],
  [("toHex/fromHex, toBin/fromBin, toBase64/fromBase64, toBase43/fromBase43", "src/Conversion.cpp")],
  ["the conversion functions (array and string forms), base64ToHex, hexToBase64"])

p("C04", "Integer and CompactSize (varint) conversions are exact inverses",
  "Every unsigned 64-bit integer written little- or big-endian into a field of any width yields the expected bytes (truncated or zero-extended), and reading them back gives the integer modulo the field width. Every 64-bit integer is written as the shortest Bitcoin CompactSize, whose length is what the length function announces, reads back to the same integer, and nothing is written when the buffer is too small.",
  ["inputs"], "all 64-bit integers (all width boundaries), all field widths, all buffer sizes",
  "Existing tests check a couple of small constants.",
  ["src/Conversion.cpp"],
  [("intToLittleEndian/intToBigEndian/...ToInt", "src/Conversion.cpp"), ("lenVarInt/readVarInt/writeVarInt", "src/Conversion.cpp")],
  ["the integer and varint functions"])

p("C05", "Scalar and curve-point arithmetic is exact group arithmetic on secp256k1",
  "Addition, subtraction, negation, multiplication and division of scalars equal arithmetic modulo the curve order, and addition, subtraction, negation, scalar multiplication and division of points equal the secp256k1 group law, with infinity represented by the identity object; the negative or a multiple of a point keeps its (un)compressed form. Mixed operations with small integers behave as the same operations on scalars, and comparisons order scalars numerically and points by their serialized public key. A scalar or private key parsed from 32 bytes is that number modulo the order, zero being refused, and serializes to 32 bytes.",
  ["inputs", "programs"], "all scalars (including 0, 1, n-1 and values near the order), all points including infinity, equal and opposite points, all expressions built from the operators",
  "No existing test touches scalar or point operators directly; signing tests reach a few random multiplications only.",
  ["src/BitcoinCurve.cpp", "src/BitcoinCurve.h", "src/utility/trezor/bignum.c", "src/utility/trezor/ecdsa.c"],
  [("ECScalar/ECPoint operators", "src/BitcoinCurve.cpp"), ("point_add/point_multiply/scalar_multiply", "src/utility/trezor/ecdsa.c"), ("modular bignum code", "src/utility/trezor/bignum.c")],
  ["ECScalar and ECPoint operators"])

p("C06", "Public keys parse exactly from valid SEC encodings and round-trip",
  "A compressed or uncompressed SEC encoding is accepted as a valid public key exactly when it denotes a point on secp256k1 with coordinates in range, and then yields that point; everything else (bad prefix, x not on the curve, wrong y, out-of-range coordinate, truncated data) leaves an invalid key. Serializing a valid key gives back the canonical SEC bytes for its compressed flag, and an x-only key parses to the even-y point.",
  ["inputs", "histories"], "all 33- and 65-byte strings with any prefix, all truncations, all sequences of parses in one process (a failed parse must not reuse an earlier key)",
  "Existing tests only parse known good keys.",
  ["src/BitcoinCurve.cpp", "src/BitcoinCurve.h", "src/Bitcoin.h", "src/utility/trezor/ecdsa.c"],
  [("ECPoint::from_stream / isValid", "src/BitcoinCurve.cpp"), ("ecdsa_uncompress_pubkey, ecdsa_read_pubkey", "src/utility/trezor/ecdsa.c")],
  ["PublicKey/ECPoint constructors, parse, fromSec, from_x, sec, isValid, getStatus"])

p("C07", "ECDSA signing is RFC 6979 low-S and verification accepts exactly valid sigs",
  "For every private key and 32-byte digest, signing returns the deterministic RFC 6979 signature (HMAC-SHA-256, fed with the digest bytes as given) in low-S form with its public-key recovery index, and it verifies under the key's public key in either encoding and for HD keys. Verification of any (key, digest, signature) returns true exactly when the ECDSA equation holds with r and s in [1, n-1]; the only exception is a digest equal to 0 modulo n, which is always refused.",
  ["inputs"], "all private keys in [1, n-1], all digests, all (r, s) pairs including edge values, negated s, mutated signatures, digests and keys",
  "No existing test calls ECDSA sign or verify over generated inputs; the few fixed vectors cannot cover k/r/s edge cases, negative verification or the recovery id.",
  ["src/Bitcoin.cpp", "src/utility/trezor/ecdsa.c", "src/utility/trezor/rfc6979.c"],
  [("PrivateKey::sign, PublicKey::verify", "src/Bitcoin.cpp"), ("ecdsa_sign_digest, ecdsa_verify_digest", "src/utility/trezor/ecdsa.c")],
  ["PrivateKey::sign, Signature::index, PublicKey::verify"])

p("C08", "Schnorr signing and verification follow BIP-340",
  "For every private key and 32-byte message, the Schnorr signature is the deterministic BIP-340-style signature of this library (nonce from the BIP0340/nonce tagged hash of key, x-only public key and message) and is valid under BIP-340 verification for that x-only key. Verification returns true exactly when BIP-340 accepts: r below the field size, s below the order, and the recomputed nonce point finite, with even y and x equal to r.",
  ["inputs"], "all private keys with even and odd public keys, all messages, all 64-byte signatures: valid, mutated in any bit, with negated s, r not on the curve, r or s out of range",
  "test_schnorr signs and verifies a few vectors; it contains no invalid-signature cases, so nothing rejects.",
  ["src/Bitcoin.cpp", "src/Hash.cpp"],
  [("PrivateKey::schnorr_sign, PublicKey::schnorr_verify", "src/Bitcoin.cpp")],
  ["schnorr_sign, schnorr_verify, SchnorrSignature"])

p("C09", "DER signatures serialize and parse strictly, round-tripping r and s",
  "Every signature with r and s below 2^256 serializes to its unique shortest DER form, the announced length matches, and parsing it gives back the same r and s; the 64/65-byte binary form round-trips too. DER input is accepted exactly when it starts with such a well-formed strict encoding (tags, consistent total length, minimal non-negative integers of at most 33 bytes); anything else is reported as failed or incomplete and never as a parsed signature.",
  ["inputs", "histories"], "all r and s of every byte length and top bit, all mutations, truncations and extensions of DER encodings",
  "No existing test parses malformed DER; fixed vectors cover one or two length combinations.",
  ["src/Bitcoin.cpp"],
  [("Signature::from_stream, der, rlen, slen", "src/Bitcoin.cpp")],
  ["Signature parse/serialize/der/fromDer/bin/fromBin/length/getStatus"])

p("C10", "ECDH shared secrets agree and equal the reference computation",
  "For every pair of private keys both parties compute the same shared secret, equal to SHA-256 of the 64-byte x||y of the product point (or its bare x coordinate when hashing is off), whichever public-key encoding was exchanged.",
  ["inputs"], "all key pairs, hashed and raw mode, compressed and uncompressed peers, peer equal to the generator or to the own key",
  "No existing test exercises ECDH.",
  ["src/Bitcoin.cpp", "src/BitcoinCurve.cpp"],
  [("PrivateKey::ecdh", "src/Bitcoin.cpp")],
  ["PrivateKey::ecdh"])

p("C11", "Private keys import and export WIF losslessly and reject bad WIF",
  "For every private key, compression flag and network, the exported WIF string is the standard one, and importing it restores the same secret, compression flag and public key, and the network (mainnet, or testnet for the prefix that the test networks share). A string that is not a well-formed WIF for a known network (bad checksum, length, prefix or flag byte, or a secret outside 1..n-1) is refused with 0 and does not yield a key with a usable secret derived from it.",
  ["inputs", "configurations"], "all secrets in [1, n-1], both compression flags, all networks, all corruptions of WIF strings",
  "Existing tests do not exercise WIF beyond fixed examples.",
  ["src/Bitcoin.cpp", "src/Networks.cpp"],
  [("PrivateKey::wif, fromWIF", "src/Bitcoin.cpp")],
  ["PrivateKey::wif, fromWIF, string constructor, publicKey"])

p("C12", "BIP-39 mnemonics encode entropy exactly and seeds follow the standard",
  "For every entropy of 16, 20, 24, 28 or 32 bytes the mnemonic is the BIP-39 English phrase, it passes the mnemonic check, and converting it back returns the same entropy; phrases derived from caller-supplied random data use its SHA-256. A phrase is accepted exactly when all its 12, 15, 18, 21 or 24 words are in the word list and the checksum matches, and the root key from any phrase and passphrase is the BIP-32 master of the PBKDF2-HMAC-SHA-512 (2048 rounds) seed.",
  ["inputs"], "all entropies of the five sizes, all word sequences including wrong counts, swapped, unknown or truncated words and bad checksums, all passphrases, all caller data",
  "test_mnemonic uses a few fixed phrases; it never covers the 15- and 21-word sizes or rejection.",
  ["src/Bitcoin.cpp", "src/HDWallet.cpp", "src/utility/trezor/bip39.c"],
  [("mnemonic_from_data, mnemonic_to_entropy, mnemonic_check", "src/utility/trezor/bip39.c"), ("HDPrivateKey::fromMnemonic", "src/HDWallet.cpp")],
  ["generateMnemonic, mnemonicFromEntropy, mnemonicToEntropy, checkMnemonic, HDPrivateKey(mnemonic, password)"])

p("C13", "BIP-32 derivation is exact, and public derivation matches private",
  "Master keys from seeds, normal and hardened children and whole paths (index lists or strings like m/84h/1'/0/5/) equal the BIP-32 reference in key, chain code, depth, child number and parent fingerprint, and hardened steps of the standard purposes (44, 45, 48, 49, 84) and coin types (0, 1) select script type and network. For non-hardened steps deriving from the public key gives exactly the public key of the privately derived child; a malformed path, a hardened index on a public key, or a step below depth 255 yields an invalid key instead of some other key.",
  ["inputs", "histories", "programs"], "all seeds, all keys, all index sequences including boundary and hardened indexes, all path strings well-formed or not, all sequences of derivations",
  "Existing tests derive a couple of fixed paths from fixed mnemonics.",
  ["src/HDWallet.cpp"],
  [("HDPrivateKey/HDPublicKey::child, derive", "src/HDWallet.cpp")],
  ["fromSeed, child, hardenedChild, derive, xpub, fingerprint"])

p("C14", "Extended keys serialize and parse exactly, rejecting malformed strings",
  "Every extended private or public key of every network and script type serializes to the standard 78-byte / Base58Check (SLIP-132 prefix) form and parsing that, from text or bytes, restores key, chain code, depth, parent fingerprint, child number, network family and the script type the prefix stands for. A string with a bad checksum, wrong length, unknown prefix, or an invalid key field yields an invalid key, never a usable one.",
  ["inputs", "configurations", "histories"], "all keys and metadata, the five serialization types on all networks, all corruptions of strings and payloads, sequences of parses in one process",
  "Existing tests compare a few fixed xpub strings.",
  ["src/HDWallet.cpp", "src/Networks.cpp"],
  [("to_bytes, from_stream, from_str, xprv, xpub", "src/HDWallet.cpp")],
  ["xprv, xpub, toString, parse, constructors from text"])

p("C15", "Addresses and scriptPubkeys correspond one-to-one for every network",
  "For every public key, script hash and network, legacy, nested-segwit and native-segwit addresses are the standard strings; a script of a standard type yields that address and parsing the address yields exactly that script. A string that is not a valid address of a known network (checksum, length, case, prefix, witness program rules) yields an empty script, so funds are never directed to a wrong script.",
  ["inputs", "configurations"], "all hashes, keys and scripts, all networks, all witness versions and program lengths, all corruptions of address strings",
  "Existing tests compare a few fixed mainnet/testnet addresses and never parse bad ones.",
  ["src/Script.cpp", "src/Bitcoin.cpp", "src/HDWallet.cpp", "src/utility/segwit_addr.c", "src/Networks.cpp"],
  [("Script::fromAddress, Script::address", "src/Script.cpp"), ("legacyAddress/segwitAddress/nestedSegwitAddress", "src/Bitcoin.cpp"), ("segwit_addr_encode/decode", "src/utility/segwit_addr.c")],
  ["PublicKey and HD key address methods, Script(address), Script::address, Script::type, TxOut::address"])

p("C16", "Script builders emit the standard scripts",
  "pkh, wpkh, sh, wsh, multi and sortedmulti, the script constructors from keys and scripts, and scriptPubkey emit exactly the standard byte sequences (sortedmulti independently of the order in which keys are given), and impossible multisig parameters give an empty script. Pushing opcodes, raw bytes, keys, signatures and scripts appends exactly the standard encoding, up to the 10000-byte limit beyond which the script becomes empty.",
  ["inputs", "programs"], "all keys (both encodings), all thresholds and key counts, all key orders, all push sequences and script sizes",
  "No existing test builds scripts from generated keys.",
  ["src/Script.cpp"],
  [("script-generating functions, Script::push", "src/Script.cpp")],
  ["Script builders, push overloads, scriptArray/scriptLen, serialize"])

p("C17", "Transactions parse and serialize losslessly with correct ids",
  "For every legacy or segwit transaction with 1 to 252 inputs and up to 252 outputs, parsing its network serialization succeeds with exactly its fields, the reported length is the serialized length, and serializing gives back the same bytes, in binary and hex. Its txid and wtxid are the reversed double-SHA-256 of the standard serializations, and a transaction assembled through the API from the same parts is identical. Larger counts, and lengths or counts not written in their shortest form, are refused when parsed, never misread; an assembled transaction serializes exactly whatever its counts.",
  ["inputs", "histories"], "all transactions (versions, sequences, amounts, locktimes, script and witness sizes across varint boundaries), parsed or built incrementally, object reused for several parses",
  "No existing test parses or serializes a transaction.",
  ["src/Transaction.cpp", "src/Script.cpp"],
  [("Tx/TxIn/TxOut from_stream, to_stream, length, hash, whash", "src/Transaction.cpp"), ("Script and Witness streams", "src/Script.cpp")],
  ["Tx parse/serialize/length/txid/wtxid/isSegwit/addInput/addOutput"])

p("C18", "Streaming is chunk-independent for parsing and serialization",
  "Parsing any streamable object (keys, signatures, scripts, witnesses, inputs, outputs, transactions, PSBTs) gives the same result, status and total number of consumed bytes however the input is split into consecutive chunks, and the status is incomplete at every point before the object's last byte. Serializing with an offset and a bounded buffer yields exactly the corresponding window of the full serialization, in binary and hex. Several objects and plain bytes read from, or written to, one stream follow one another without loss or overlap.",
  ["inputs", "schedules", "histories"], "all objects of all streamable types, all ways of splitting the bytes into chunks (including empty and one-byte chunks), interleaved parsing of two objects, all (offset, length) windows",
  "All existing tests parse from one complete buffer and serialize at offset 0.",
  ["src/BaseClasses.cpp", "src/BaseClasses.h", "src/Transaction.cpp", "src/Script.cpp", "src/PSBT.cpp", "src/Bitcoin.cpp", "src/BitcoinCurve.cpp", "src/HDWallet.cpp"],
  [("from_stream with bytes_parsed state", "all classes"), ("to_stream with offset", "all classes")],
  ["parse/serialize of every Streamable, getStatus"])

p("C19", "Signature hashes and transaction signing commit to the whole transaction",
  "For every transaction, input index and script code, the legacy and segwit v0 (BIP-143) digests of every sighash type offered (ALL, NONE, SINGLE) equal the reference, including the prevouts, sequence and outputs hashes. Signing an input through the API produces the RFC 6979 signature over that digest, labelled with its sighash type, installs exactly the standard scriptSig and witness for the chosen type, and changes nothing else in the transaction.",
  ["inputs"], "all transactions, input indexes, script codes of any length, amounts, keys (compressed or not), P2PKH, P2SH, P2WPKH, P2WSH and nested types",
  "No existing test computes a signature hash.",
  ["src/Transaction.cpp"],
  [("sigHash, sigHashSegwit, hashPrevouts, hashSequence, hashOutputs, signInput, signSegwitInput", "src/Transaction.cpp")],
  ["Tx::sigHash, sigHashSegwit, signInput, signSegwitInput"])

p("C20", "PSBTs are parsed faithfully and signed only where, and as, they should be",
  "Parsing a well-formed PSBT exposes exactly its transaction, UTXOs, scripts, derivations and partial signatures, refuses a previous transaction whose id does not match the spent outpoint, and reports the fee as inputs minus outputs. Signing with a root key adds, for exactly those inputs that carry a derivation with the root's fingerprint leading to the stated public key, one SIGHASH_ALL signature over the right digest for the input's type, returns their number, and serializes to a PSBT holding the same transaction and those signatures.",
  ["inputs", "histories"], "all PSBTs with any mix of input types (P2PKH, P2SH, P2WPKH, P2WSH, nested), foreign and own derivations, several derivations per input, partial signatures, unknown keys, wrong previous transactions, reparsing into the same object",
  "No existing test parses a PSBT.",
  ["src/PSBT.cpp", "src/PSBT.h"],
  [("PSBT::from_stream, add, sign, to_stream, fee", "src/PSBT.cpp")],
  ["PSBT parse, parseBase64, toBase64, sign, fee, serialize, txInsMeta/txOutsMeta"])

p("C21", "PSBT change detection recognises exactly outputs derived from the key",
  "For every PSBT output and extended key, the ownership test is true exactly when some derivation recorded for that output, applied to the given key, leads to the public key recorded with it; the private-key and public-key forms agree on non-hardened paths.",
  ["inputs"], "all outputs with zero, one or several derivations, own or foreign, corrupted paths or keys, any depth",
  "No existing test covers it.",
  ["src/PSBT.cpp"],
  [("PSBT::isMine", "src/PSBT.cpp")],
  ["PSBT::isMine (both overloads)"])

p("C22", "Electrum unsigned transactions are parsed, valued and signed correctly",
  "Parsing an Electrum partial transaction with extended-key inputs (legacy, or native segwit with amounts) exposes exactly the transaction, keys, derivation indexes and amounts, and the fee is inputs minus outputs when all amounts are known and 0 otherwise. Signing with an account key signs exactly the inputs whose extended key matches, with the correct child key and digest, and the signed transaction serializes to the standard form.",
  ["inputs"], "all Electrum transactions with 1 to several inputs, matching and foreign keys, all derivation indexes, amounts and key types; malformed ones are refused",
  "No existing test covers Electrum transactions.",
  ["src/Electrum.cpp", "src/Electrum.h"],
  [("ElectrumTx::from_stream, sign, fee", "src/Electrum.cpp")],
  ["ElectrumTx parse, sign, fee, serialize"])

p("C23", "No input can crash, hang or corrupt the memory of any parser",
  "For every byte sequence or text given, whole or in chunks, to any parser or decoder of the library (keys, signatures, scripts, witnesses, addresses, transactions, PSBTs, Electrum transactions, mnemonics, paths, codecs), the call returns and touches no memory outside its buffers. Afterwards the object can be queried, serialized, copied, parsed into again and destroyed safely, whether parsing succeeded, failed or is incomplete.",
  ["inputs", "histories"], "arbitrary and structured-but-corrupted byte strings, truncations, splices, all parser entry points, arbitrary follow-up call sequences",
  "Existing tests feed only well-formed input.",
  ["src/PSBT.cpp", "src/Electrum.cpp", "src/Transaction.cpp", "src/Script.cpp", "src/Bitcoin.cpp", "src/HDWallet.cpp", "src/BitcoinCurve.cpp", "src/Conversion.cpp", "src/BaseClasses.cpp", "src/utility/segwit_addr.c", "src/utility/trezor/bip39.c"],
  [("bounds and status checks in every from_stream", "src/*.cpp")],
  ["every parse entry point under AddressSanitizer"])

p("C24", "Objects have value semantics: copies are deep and independent",
  "Copying or assigning any library object yields an equal, independent object: later changes to, reparsing of, or destruction of either one never alters the other. This holds for every history of construction, copy, assignment (self-assignment included), mutation, parsing and destruction, with no double free or use of freed memory. A copy of a partly parsed object can be parsed further like the original.",
  ["histories", "programs"], "all sequences of operations over several live scripts, witnesses, inputs, outputs, transactions, PSBTs and Electrum transactions",
  "Existing tests never copy or reuse objects.",
  ["src/Script.cpp", "src/Transaction.cpp", "src/PSBT.cpp", "src/Electrum.cpp"],
  [("copy constructors and assignment operators", "src/Script.cpp, Transaction.cpp, PSBT.cpp, Electrum.cpp")],
  ["copy, assignment, push, parse, serialize of all container classes"])

p("C25", "Descriptor checksums equal BIP-380",
  "For every descriptor string over the BIP-380 character set the checksum is the eight characters BIP-380 defines; a string containing any other character, or a too small output buffer, gives no checksum.",
  ["inputs"], "all strings over the character set, all lengths, strings with foreign characters",
  "No existing test covers descriptor checksums.",
  ["src/PSBT.cpp"],
  [("descriptorChecksum, PolyMod", "src/PSBT.cpp")],
  ["descriptorChecksum (both forms)"])

p("C26", "Functions writing to caller buffers never exceed the stated size",
  "Every function that writes into a caller-supplied buffer with a stated size writes only inside it, whatever the size: either the complete result is written and its length returned, or failure (0) is returned, or, for stream serialization, the returned number of leading bytes was written. Text results that fit with room to spare are zero-terminated.",
  ["inputs", "configurations"], "all buffer sizes from 0 to beyond the result length for every codec, address, key export and serialization function, over all inputs",
  "Existing tests always pass comfortably large buffers.",
  ["src/Conversion.cpp", "src/Bitcoin.cpp", "src/HDWallet.cpp", "src/Script.cpp", "src/PSBT.cpp", "src/BaseClasses.cpp"],
  [("size checks before writes", "src/Conversion.cpp, Script.cpp, Bitcoin.cpp")],
  ["all (buffer, size) functions with guarded exact-size buffers"])

p("C27", "Destroying a private key erases the secret from its memory",
  "When a scalar, private key or extended private key object is destroyed, the memory it occupied no longer contains its secret number, and for extended keys its chain code, whatever way the object was created, copied, assigned, parsed or derived.",
  ["inputs", "histories"], "all secrets, all ways of obtaining the object, all assignment histories",
  "Existing tests never look at memory after destruction.",
  ["src/BitcoinCurve.h", "src/Bitcoin.cpp", "src/HDWallet.cpp", "src/utility/trezor/memzero.c"],
  [("destructors with memzero", "src/BitcoinCurve.h, Bitcoin.cpp, HDWallet.cpp")],
  ["object storage after explicit destruction"])

p("C28", "No memory is leaked by any use of the library",
  "After all objects created in a history of library calls are destroyed, all heap memory the library allocated for them has been released, whether operations succeeded or failed.",
  ["histories", "inputs"], "all histories of building, parsing (well-formed and malformed input), copying, assigning, signing and serializing",
  "Existing tests run once and exit; on a microcontroller a leak per transaction exhausts the heap.",
  ["src/Script.cpp", "src/Transaction.cpp", "src/PSBT.cpp", "src/Electrum.cpp", "src/Conversion.cpp", "src/BaseClasses.cpp", "src/HDWallet.cpp"],
  [("free/delete in destructors, assignment and error paths", "src/*.cpp")],
  ["allocator statistics after destruction"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
