#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand when a property changes)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, level="exploration", state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  observe=observe, technique=technique, note=note, level=level, state=list(state)))


TRUST = ("Search, not proof: what was generated is in the evidence file. Trusts the reference model in /verif/lib, OpenSSL 3 "
         "(digests, curve arithmetic), the compilers, and (for key operations) the installed libsecp256k1. ")

prop("C01", "Hex encoding and decoding are exact inverses",
     "Encoding any bytes as hexadecimal gives exactly two digits per byte in the requested letter case, and decoding digits of any letter case gives the bytes back. "
     "Decoding any text yields the bytes of its longest prefix of whole legal digit pairs and returns their number, never reading beyond the text nor writing beyond the documented size.",
     ["inputs"], "every byte string, every text of every length (odd ones and ones with illegal characters at any position included), both letter cases, every buffer alignment",
     "The tests encode one fixed table and decode it; no illegal character, odd length, mixed case or buffer bound is tried.",
     ["src/hex.c", "include/fingera_libc/hex.h"], [("digit table and 255 as the illegal mark", "src/hex.c fingera_from_hex"), ("word-wise conversion", "src/hex.c fingera_to_hex")],
     ["fingera_to_hex", "fingera_from_hex"], "property-based testing and libFuzzer: round trip and differential against a reference model, exhaustive small inputs",
     "All 1- and 2-character texts and all bytes exhaustively; longer inputs by search.")
prop("C02", "Hex dump prints every byte, complete and in order",
     "Dumping any bytes writes to standard output every byte as two digits in the requested letter case, in order, 32 bytes per line, with extra spaces after every 4, 8 and 16 bytes and a final line end. "
     "Nothing is lost, repeated or reordered however long the data is.",
     ["inputs"], "every byte string of every length, both letter cases, standard output in any state",
     "The tests print one dump to the terminal and look at nothing.",
     ["src/hex.c"], [("chunked formatting through a line buffer", "src/hex.c fingera_hex_dump")], ["standard output"],
     "property-based testing and libFuzzer: captured output against a layout model, every length 0..1500",
     "Layout (line breaks, separators) is taken from the code's present format, which is the only specification.")
prop("C03", "Base64 (standard and URL-safe) round-trips and stops at bad input",
     "Encoding any bytes gives the RFC 4648 text of the announced length, padded in the standard form and unpadded in the URL-safe form, and decoding returns the bytes. "
     "Decoding any other text yields only the bytes of its longest well-formed prefix of groups, within the announced output size and without touching memory outside the text.",
     ["inputs"], "every byte string; every text: truncated, with misplaced '=', with the other alphabet's digits or 8-bit characters, of any length modulo 4",
     "The tests round-trip a data file; illegal characters, misplaced padding, odd lengths and the URL-safe error paths are not reached.",
     ["src/base64.c", "include/fingera_libc/base64.h"], [("decode tables with 255 marks", "src/base64.c"), ("length functions", "include/fingera_libc/base64.h")],
     ["fingera_to_base64", "fingera_to_base64_urlsafe", "fingera_from_base64", "fingera_from_base64_urlsafe", "length functions"],
     "property-based testing and libFuzzer: round trip and differential against an RFC 4648 bit-string model, exhaustive small inputs",
     "Non-canonical trailing bits of the last digit are accepted by the code and by the model.")
prop("C04", "Base32 text and raw 5-bit conversion round-trip and stop at bad input",
     "Encoding any bytes gives the RFC 4648 text (padded) or the bare 5-bit digits of the announced length, and decoding either, in any letter case, returns the bytes. "
     "Decoding any other text yields only the bytes of its longest well-formed prefix before the first '=', within the announced output size and without touching memory outside the text.",
     ["inputs"], "every byte string; every text or digit string of any length, alphabet and padding",
     "The tests use a handful of fixed strings; characters above 127, unterminated texts and impossible tail lengths were never tried (three defects were found here).",
     ["src/base32.c", "include/fingera_libc/base32.h"], [("digit tables", "src/base32.c"), ("tail-length table", "src/base32.c"), ("search for '='", "src/base32.c base32_strlen")],
     ["fingera_to_base32", "fingera_from_base32", "fingera_to_base32_raw", "fingera_from_base32_raw", "length functions"],
     "property-based testing and libFuzzer: round trip and differential against an RFC 4648 bit-string model, exhaustive small inputs",
     "")
prop("C05", "Base58 is a bijection between bytes and digit strings",
     "Encoding any bytes gives the Bitcoin base58 text, leading zero bytes becoming leading '1's, and decoding returns exactly the bytes. "
     "Decoding accepts precisely the strings of base58 digits with optional outer white space and refuses all others by returning 0, within the announced sizes and without reading beyond the given length.",
     ["inputs"], "every byte string with any number of leading zeros; every text with illegal digits, white space, NUL and 8-bit characters anywhere",
     "The tests decode and encode a fixed list; worst-case sizes (all ones, all zero digits) and unterminated texts were not tried (two memory defects were found here).",
     ["src/base58.c", "include/fingera_libc/base58.h"], [("big-number carry loop", "src/base58.c"), ("announced sizes", "include/fingera_libc/base58.h")],
     ["fingera_to_base58", "fingera_from_base58", "length functions"],
     "property-based testing and libFuzzer: round trip and differential against schoolbook base conversion, exhaustive small inputs",
     "")
prop("C06", "Base58Check detects every corrupted string",
     "Text made from any prefix and payload decodes back to the prefix and payload. "
     "A string decodes only when its last four bytes are the first four of the double SHA-256 of the rest, so every mistyped, truncated or extended string whose checksum does not match is refused.",
     ["inputs"], "every payload and prefix of every size; every edit of every valid string",
     "The tests round-trip a few fixed addresses; corruption is not tried at all.",
     ["src/btc/base58_check.c"], [("checksum append and compare", "src/btc/base58_check.c")], ["fingera_to_base58_check", "fingera_from_base58_check"],
     "property-based testing and libFuzzer: differential against an independent model, all single-character edits of sampled strings",
     "An empty payload is encoded right but, by the interface, cannot be told from failure when decoded.")
prop("C07", "Bech32 strings encode per BIP 173 and every bad string is refused",
     "Encoding any legal human-readable part and 5-bit data gives the BIP 173 string, and decoding it in all-lower or all-upper case returns both parts. "
     "A string is accepted exactly when its length, characters, letter case, separator and checksum are legal, so any one to four substituted characters are always detected; memory outside the given text and buffers is never touched.",
     ["inputs"], "every human-readable part and data, every string with edits, mixed case, moved or missing separators, control and 8-bit characters",
     "The tests hold the published vectors only; the search for the separator beyond the text was not noticed by them.",
     ["src/btc/bech32.c"], [("BCH checksum", "src/btc/bech32.c poly_mod, create_checksum, verify_checksum"), ("character check", "src/btc/bech32.c is_illegal")],
     ["fingera_bech32_encode", "fingera_bech32_decode"],
     "property-based testing and libFuzzer: differential against a polynomial-division model, error-detection metamorphic relation",
     "The limit on length is the code's.")
prop("C08", "Variable-length integers are a bijection, signed and unsigned",
     "Every 64-bit unsigned and signed integer encodes into at most 10 bytes and decodes from them to the same value and length, and distinct values have distinct encodings. "
     "Decoding any byte string either reports failure - when it is truncated or does not denote a 64-bit value - or returns a value whose encoding is exactly the bytes consumed, never reading beyond the given size.",
     ["inputs"], "every 64-bit value and every byte string",
     "The tests try a handful of values; the smallest signed value and overflowing strings failed (two defects were found here).",
     ["src/compress_integer.c", "include/fingera_libc/compress_integer.h"], [("offset groups of 7 bits", "src/compress_integer.c"), ("sign mapping", "src/compress_integer.c")],
     ["fingera_encode_varint", "fingera_decode_varint", "fingera_encode_zigzag", "fingera_decode_zigzag"],
     "property-based testing and libFuzzer: round trip, re-encoding and differential against a big-number model, exhaustive small values",
     "")
prop("C09", "SHA-1, RIPEMD-160, SHA-256 and SHA-512 equal their standards",
     "For every message the four digest functions return the standard digest, whatever the message's length, content or alignment, messages of more than 2^32 bits and bytes included. "
     "The message is not changed and exactly the digest is written.",
     ["inputs"], "every message of every length, content and alignment",
     "The tests check a few published short messages; the padding boundaries, block loops and long lengths have no test.",
     ["src/hash/sha1.c", "src/hash/ripemd160.c", "src/hash/sha2.c"], [("compression functions", "src/hash/*.c"), ("padding with a 64-/128-bit length", "src/hash/*.c")],
     ["fingera_sha1", "fingera_ripemd160", "fingera_sha256", "fingera_sha512"],
     "property-based testing and libFuzzer: differential against OpenSSL, every length 0..1100, lengths above 2^29 and 2^32",
     "The >4 GiB messages are a repeated mapping of one block of random bytes, optimised build only.")
prop("C10", "HMAC-SHA-256 and HMAC-SHA-512 equal RFC 2104",
     "For every key and message of every size the HMAC functions return the RFC 2104 tag, so keys longer than a block act as their digest and shorter ones as if padded with zeros. "
     "Key and message are not changed.",
     ["inputs"], "every key and message of every size",
     "The tests check a few published vectors; key sizes at and around the block sizes are not tried.",
     ["src/hash/sha2.c"], [("key folding and pads", "src/hash/sha2.c fingera_hmac_sha256, fingera_hmac_sha512")], ["fingera_hmac_sha256", "fingera_hmac_sha512"],
     "property-based testing and libFuzzer: differential against OpenSSL plus metamorphic key relations, every key length 0..300", "")
prop("C11", "Bitcoin hashes are the defined compositions, for any count of blocks",
     "Hash160 is RIPEMD-160 of SHA-256, hash256 is double SHA-256, the 64-byte-block form hashes each of any number of blocks separately to what hash256 gives, and the BIP 32 hash is the HMAC-SHA-512 under the chain code of header, data and big-endian child number. "
     "Inputs stay unchanged and nothing beyond the outputs is written.",
     ["inputs"], "every message, every number of blocks, every chain code, child, header and data",
     "The tests do not call the 64-byte-block form or the BIP 32 hash directly and compare one message for the others.",
     ["src/btc/hash.c", "src/hash/sha2.c"], [("specialised two-block transform", "src/hash/sha2.c _hash256_d64_transform"), ("composition", "src/btc/hash.c")],
     ["fingera_btc_hash160", "fingera_btc_hash256", "fingera_btc_hash256_d64", "fingera_btc_bip32_hash"],
     "property-based testing and libFuzzer: differential against OpenSSL compositions and between the two forms", "")
prop("C12", "Addresses decode to what they were made from, on the right network only",
     "Every key hash, script hash and witness program of legal version and size encodes to the standard address of the chosen network and decodes to the same kind and payload. "
     "A string that is not a well-formed address of that network - wrong prefix, human-readable part, version, program size, padding or checksum - is reported as bad, and outputs never exceed the capacity given.",
     ["inputs", "configurations"], "every payload, witness version and size, every network (built-in or with arbitrary prefixes), every string, every output capacity",
     "The tests hold lists of known good and bad addresses; the networks' constants, padding bits, capacities and other networks' strings are barely sampled (a padding defect was found).",
     ["src/btc/address.c", "src/btc/chain_parameters.c"], [("prefix match", "src/btc/address.c"), ("5-to-8 bit conversion and program-size rules", "src/btc/address.c decode_bech32")],
     ["fingera_to_address_*", "fingera_btc_address_decode"],
     "property-based testing and libFuzzer: round trip and differential against a Base58Check/BIP 173 model over networks",
     "Human-readable parts over 16 characters are outside what decoding supports. Base58 payloads of other than 20 bytes are accepted by the code and the model.")
prop("C13", "WIF private keys round-trip and bad ones are refused",
     "Every valid secret key written as text for a network, with or without the compression mark, reads back to the same key and mark on that network. "
     "Any text that is not exactly such - wrong network, size, mark, checksum, or a secret outside 1..n-1 - is refused, however long it is, without touching memory outside the given buffers.",
     ["inputs", "configurations"], "every key, both marks, every network prefix, every string of every length",
     "The tests read a few valid keys; over-long texts overflowed the stack and zero keys were accepted without any test noticing.",
     ["src/btc/key.c"], [("payload checks", "src/btc/key.c key_from_payload")], ["fingera_btc_key_to_string", "fingera_btc_key_from_string"],
     "property-based testing and libFuzzer: round trip and differential against a Base58Check model over networks", "")
prop("C14", "Public keys, key ids and fingerprints follow the curve and the encodings",
     "The public key of every valid secret k is k*G, and its 33- and 65-byte encodings, key ids (hash160 of the chosen encoding) and fingerprints (their first four bytes) are the standard ones, whether computed from the secret or the public key. "
     "A byte string is accepted as a public key exactly when it denotes a curve point, and re-encodes to the canonical form.",
     ["inputs"], "every secret key; every 33- and 65-byte string",
     "The tests check a few known keys; invalid points, the ends of the key range and hybrid encodings are not tried.",
     ["src/btc/key.c"], [("libsecp256k1 wrappers", "src/btc/key.c")], ["fingera_btc_key_get_pub", "fingera_btc_pubkey_encode", "fingera_btc_pubkey_decode", "fingera_btc_*_keyid", "fingera_btc_*_fingerprint"],
     "property-based testing and libFuzzer: differential against OpenSSL curve arithmetic", "")
prop("C15", "DER private keys round-trip and malformed ones are refused",
     "Every valid secret key written as a 279- or 214-byte DER private key is the standard encoding of that key and curve and reads back to the same key. "
     "Reading any byte string either gives the valid key it contains under the documented lax rules or fails leaving an all-zero key, without reading outside it.",
     ["inputs"], "every key in both forms; every byte string: truncated, edited, with other length forms, octet string sizes or invalid secrets",
     "The tests round-trip a few keys; no malformed encoding is tried.",
     ["src/btc/key.c"], [("DER reader", "src/btc/key.c ec_privkey_import_der"), ("DER writer", "src/btc/key.c ec_privkey_export_der")], ["fingera_btc_key_encode", "fingera_btc_key_decode"],
     "property-based testing and libFuzzer: round trip and differential against a DER model, all truncations and single-byte changes of sampled encodings", "")
prop("C16", "Signing is RFC 6979 with low S and low R; verification is sound",
     "Signing any hash with any valid key gives the same signature every time, the RFC 6979 one with Bitcoin Core's low-R counter and S at most n/2, and it verifies under that key. "
     "Verification accepts a signature exactly when textbook ECDSA does, high-S forms included, and rejects it under any other hash, key or altered signature.",
     ["inputs"], "every key, hash, signature and public key, ends of the ranges included",
     "The tests sign fixed messages with fixed keys; unusual hashes, S above n/2, r or s of 0, and retries of the low-R search are not reached reliably.",
     ["src/btc/key.c"], [("low-R retry loop", "src/btc/key.c SigHasLowR, fingera_btc_key_sign"), ("normalisation before verification", "src/btc/key.c fingera_btc_key_verify")],
     ["fingera_btc_key_sign", "fingera_btc_key_verify"],
     "property-based testing and libFuzzer: differential against an independent RFC 6979/ECDSA implementation over OpenSSL bignums", "A hash of n or more is reduced modulo n, as RFC 6979 and libsecp256k1 do.")
prop("C17", "Signature encoding is minimal DER; lax decoding follows its rules",
     "Every signature encodes to the minimal strict DER form of at most 72 bytes and decodes back to the same r and s. "
     "Decoding any byte string either gives the r and s it denotes under the historical lax rules (an overflowing value giving a signature that never verifies) or fails leaving the zero signature, without reading outside it.",
     ["inputs"], "every pair r, s; every byte string with extra zeros, negative integers, long-form or over-long lengths, trailing bytes, truncation",
     "The tests decode what they encoded; no lax or malformed form is tried.",
     ["src/btc/key.c"], [("lax parser", "src/btc/key.c ecdsa_signature_parse_der_lax")], ["fingera_btc_signature_encode", "fingera_btc_signature_decode"],
     "property-based testing and libFuzzer: round trip and differential against a model of the lax grammar", "")
prop("C18", "BIP 32 derivation equals the standard along every path",
     "From any seed or key, every sequence of private derivations, public derivations and neuterings gives the keys, chain codes, depths, child numbers and fingerprints BIP 32 defines, and deriving then neutering equals neutering then deriving. "
     "Derivation that BIP 32 does not allow - below depth 255, hardened from a public key, from a point off the curve - fails instead of giving a key.",
     ["inputs", "histories"], "every seed, key, chain code, and sequence of up to 12 steps with any child numbers and fingerprints; all depths",
     "The tests follow published vectors; depth 255, release builds and random paths are not tried (two defects were found).",
     ["src/btc/exkey.c", "src/btc/key.c", "src/btc/hash.c"], [("tweak addition", "src/btc/key.c fingera_btc_key_derive, fingera_btc_pubkey_derive"), ("extension bookkeeping", "src/btc/exkey.c")],
     ["fingera_exkey_init", "fingera_exkey_derive", "fingera_exkey_get_pub", "fingera_expubkey_derive"],
     "stateful property-based testing and libFuzzer: derivation histories against a BIP 32 model over OpenSSL, published vectors",
     "Invalid children (left half of n or more, child key 0) come from a stand-in for the HMAC; if the code no longer calls fingera_hmac_sha512 they cannot be had.")
prop("C19", "Extended key texts round-trip and bad ones are refused",
     "Every extended private or public key written as text for a network reads back, on that network and as that kind, to the same depth, fingerprint, child number, chain code and key. "
     "Any other text - wrong network or kind, size, pad byte, checksum, secret outside the range, point off the curve - is refused, however long it is, without touching memory outside the given buffers.",
     ["inputs", "configurations"], "every field value, every network prefix, every string of every length",
     "The tests read the published vectors; over-long texts overflowed the stack and invalid keys were accepted without any test noticing.",
     ["src/btc/exkey.c"], [("74-byte layout", "src/btc/exkey.c"), ("payload checks", "src/btc/exkey.c exkey_from_payload, expubkey_from_payload")],
     ["fingera_exkey_to_string", "fingera_exkey_from_string", "fingera_expubkey_to_string", "fingera_expubkey_from_string", "fingera_ex*_encode/_decode"],
     "property-based testing and libFuzzer: round trip and differential against a BIP 32 serialisation model over networks",
     "A depth-0 key with a non-zero fingerprint or child number may be accepted or refused.")
prop("C20", "Randomness is the system's entropy, complete, or the process stops",
     "Filling a buffer with random bytes, generating a key and starting the key context return only after every requested byte came from the operating system's entropy source, across any sequence of short reads, and a generated key is always a valid secret. "
     "When the source fails or ends early the process terminates with an error instead of returning; no descriptor is leaked.",
     ["fault_sequences", "inputs"], "every request size and every schedule of whole, short and failing open/read results, entropy that is not a valid key included",
     "The tests ask for one buffer from a healthy source; short reads gave stale bytes without any test noticing.",
     ["src/random.c", "src/btc/key.c", "src/error.c"], [("read loop", "src/random.c fingera_os_rand_bytes"), ("retry until valid", "src/btc/key.c fingera_btc_key_new")],
     ["fingera_os_rand_bytes", "fingera_btc_key_new", "fingera_btc_key_init"],
     "fault-schedule property-based testing: linker-interposed entropy source with generated read schedules against a byte-exact model",
     "Linux code path only. Interposes open/open64/read/close/getrandom/getentropy; another way to the entropy source would need a new stand-in. An interrupted read (EINTR) may either be retried or end the process.",
     level="fault_enumeration")
prop("C21", "Calls touch only their operands, and results ignore surrounding memory",
     "Every public operation reads only the bytes of its inputs and writes only its outputs within the documented sizes, for valid and invalid operands alike. "
     "Its result does not depend on where the operands lie, how they are aligned, what surrounds them or what the outputs held before, nor on whether an operand of no bytes has an address or is a null pointer, and inputs are never changed.",
     ["inputs", "configurations"], "every public operation with valid, edited or random operands at page ends, heap-block ends and arbitrary offsets, with adversarial surroundings",
     "The tests pass zero-terminated strings and roomy buffers, which hide reads beyond the given length and writes beyond the result.",
     ["src", "include/fingera_libc"], [("explicit length parameters", "all parsers"), ("temporary buffers", "include/fingera_libc/sl/buffer.h")], ["all 61 public operations"],
     "metamorphic property-based testing and libFuzzer: the same call in several memory placements (guard pages, ASan heap blocks, hostile surroundings, null pointers for empty operands) must agree", "")
prop("C22", "Results are pure functions of the inputs, also across threads and restarts",
     "Every public operation except the random ones gives the same result every time for the same inputs, whatever was called before, how often the key context was restarted, what the stack and heap held, and what other threads call at the same time. "
     "Every call releases all memory it takes, on failure too, and concurrent calls do not race.",
     ["histories", "schedules", "inputs"], "every history of public operations with context restarts, and concurrent execution in 2..4 threads",
     "The tests call each function alone, once, on one thread.",
     ["src", "src/btc/key.c"], [("no mutable globals but the key contexts", "src/btc/key.c"), ("constant tables", "src/*.c"), ("temporary buffers freed on every path", "include/fingera_libc/sl/buffer.h")],
     ["all 61 public operations", "heap balance"],
     "stateful property-based testing: operation histories (with related operands) and threads, repeated-result and fresh-process oracles, heap balance, ThreadSanitizer, libFuzzer",
     "Thread schedules are those the machine produces (plus ThreadSanitizer's happens-before detection), not an enumeration.",
     state=[dict(name="secp256k1_context_sign, secp256k1_context_verify", meaning="the two key contexts", where="src/btc/key.c")])
prop("C23", "Secrets are erased from temporary memory before a call returns",
     "After any operation that handles secret material - WIF and extended-private-key text, private derivation, master keys, HMAC, SHA-1 and SHA-2 over a secret message, key generation, context start - no copy of the secret remains in the stack it used or in heap memory it released, on success and failure alike.",
     ["inputs", "configurations"], "every such operation, secret, text length (small-buffer and heap paths) and network, valid and invalid inputs",
     "The tests look at results only; HMAC and the parsers left copies of keys behind unnoticed.",
     ["src/cleanse.c", "src/btc/key.c", "src/btc/exkey.c", "src/btc/hash.c", "src/hash/sha2.c", "include/fingera_libc/sl/buffer.h"],
     [("fingera_cleanse on temporaries", "src"), ("CLEANSE/DESTROY of buffers", "include/fingera_libc/sl/buffer.h")], ["stack and released heap memory after the call"],
     "property-based testing: private-stack and freed-heap scan for 16-byte runs of generated secrets",
     "gcc -O0 and -O2 builds; runs shorter than 16 bytes, registers, and libsecp256k1's own frames beyond the scan are not judged.")
prop("C24", "Byte-order accessors and memory erasure do exactly what they say",
     "Reading or writing a 16-, 32- or 64-bit integer in either byte order at any alignment moves exactly its bytes in that order and touches no others. "
     "Erasing a memory range destroys every byte of its former contents and nothing outside it.",
     ["inputs"], "every value, alignment, range length and former contents",
     "There is no test of either.",
     ["include/fingera_libc/endian.h", "src/cleanse.c"], [("byte swaps", "include/fingera_libc/endian.h"), ("volatile stores", "src/cleanse.c")], ["accessors", "fingera_cleanse"],
     "property-based testing and libFuzzer: differential against shifted bytes, every length 0..600 at every alignment", "Little-endian x86-64 only: the big-endian branches cannot run here.")
prop("C25", "A fatal error is reported in full and always ends the process",
     "Reporting a fatal error prints the formatted message with its location, and the system error when there is one, to standard error, whatever the message's length and arguments. "
     "The process then ends with a failure status; the call never returns.",
     ["inputs"], "every message, format arguments, location, length and errno",
     "Nothing tests it: it would end the test program.",
     ["src/error.c", "include/fingera_libc/error.h"], [("vfprintf and exit", "src/error.c fingera_fatal")], ["standard error", "exit status"],
     "property-based testing and libFuzzer-less generated calls in forked children against an independently composed message", "")

exec(open(os.path.join(HERE, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more_props.py")) else None

with open(HERE + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], state=p["state"], mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]],
                              observe_at=p["observe"], hook_needed=None))
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
M = dict(version=1, setup_cmd="python3 run_check.py --selftest",
         checks=[dict(property=p["id"], quick_cmd="python3 run_check.py %s" % p["id"],
                      thorough_cmd="python3 run_check.py %s --tier thorough" % p["id"], technique=p["technique"], level=p["level"],
                      level_note=TRUST + p["note"]) for p in P],
         not_applicable=[],
         notes="No hooks in /repo: the harnesses in /verif/props are compiled together with /repo's sources by run_check.py. "
               "known_findings.txt lists the repaired defects. DESIGN.md describes the oracles, generators and seeded bugs.")
json.dump(M, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
