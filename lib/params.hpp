// Chain parameters: the library's three networks (their values stated here independently) or
// random ones with prefixes and a human-readable part of their own.
#pragma once
#include <fingera_libc/btc/chain_parameters.h>
#include "pbt.hpp"

struct Params {
  chain_parameters p;
  std::string pk, sc, wif, xpub, xprv, hrp;  // expected contents
  std::string name;
  bool builtin = false;

  void bind() {
    p.prefix_pubkey_address = pk.data();
    p.prefix_pubkey_address_size = (unsigned)pk.size();
    p.prefix_script_address = sc.data();
    p.prefix_script_address_size = (unsigned)sc.size();
    p.prefix_secret_key = wif.data();
    p.prefix_secret_key_size = (unsigned)wif.size();
    p.prefix_ext_public_key = xpub.data();
    p.prefix_ext_public_key_size = (unsigned)xpub.size();
    p.prefix_ext_secret_key = xprv.data();
    p.prefix_ext_secret_key_size = (unsigned)xprv.size();
    p.bech32_hrp = hrp.data();
    p.bech32_hrp_size = (unsigned)hrp.size();
  }
  Params() = default;
  Params(const Params &) = delete;
  Params &operator=(const Params &) = delete;
  const chain_parameters *get() const { return &p; }
};
inline Bytes vec(const std::string &s) { return Bytes(s.begin(), s.end()); }

inline void fill_builtin(Params &r, unsigned k) {
  r.builtin = true;
  if (k == 0) {
    r.name = "mainnet";
    r.pk = std::string("\x00", 1);
    r.sc = "\x05";
    r.wif = "\x80";
    r.xpub = "\x04\x88\xB2\x1E";
    r.xprv = "\x04\x88\xAD\xE4";
    r.hrp = "bc";
    r.p = g_mainnet_chain_parameters;
  } else {
    r.name = k == 1 ? "testnet" : "regtest";
    r.pk = "\x6F";
    r.sc = "\xC4";
    r.wif = "\xEF";
    r.xpub = "\x04\x35\x87\xCF";
    r.xprv = "\x04\x35\x83\x94";
    r.hrp = k == 1 ? "tb" : "bcrt";
    r.p = k == 1 ? g_testnet_chain_parameters : g_regnet_chain_parameters;
  }
}
inline void gen_params(Tape &t, Params &r) {
  unsigned k = (unsigned)t.range(0, 5);
  if (k < 3) {
    fill_builtin(r, k);
    return;
  }
  r.name = "custom";
  auto pre = [&](size_t lo, size_t hi) {
    size_t n = t.range(lo, hi);
    std::string s(n, 0);
    unsigned st = (unsigned)t.range(0, 2);
    for (auto &c : s) c = st == 0 ? (char)t.byte() : st == 1 ? 0 : (char)0xFF;
    return s;
  };
  r.pk = pre(1, 4);
  r.sc = pre(1, 4);
  if (r.sc == r.pk) r.sc[0] = (char)(r.sc[0] ^ 0x55);
  r.wif = pre(1, 8);
  r.xpub = pre(1, 8);
  r.xprv = pre(1, 8);
  if (r.xprv == r.xpub) r.xprv[0] = (char)(r.xprv[0] ^ 0x55);
  r.hrp = t.str_of(t.range(1, 12), t.chance(1, 3) ? "a1z" : "abcdefghijklmnopqrstuvwxyz023456789-!?~");
  r.bind();
}
