// Line interface to harness/ref.cpp for tools/selftest.py: "function hexarg ..." -> hex
#include "../harness/ref.h"
#include <iostream>
#include <sstream>
using namespace ref;
static Bytes un(const std::string& s) { Bytes b; if (s == "-") return b; for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t)std::stoi(s.substr(i, 2), 0, 16)); return b; }
int main() {
  std::string l; 
  while (std::getline(std::cin, l)) {
    std::istringstream is(l); std::string f, t; is >> f; std::vector<Bytes> a; while (is >> t) a.push_back(un(t)); Bytes o;
    auto n = [&](size_t i) { size_t v = 0; for (uint8_t c : a[i]) v = v << 8 | c; return v; };
    if (f == "shake256" || f == "shake128") { o.resize(n(1)); sponge(f == "shake256" ? 136 : 168, 0x1f, a[0].data(), a[0].size(), o.data(), o.size()); }
    else if (f == "sha3_256") { o.resize(32); sha3_256(a[0].data(), a[0].size(), o.data()); } else if (f == "sha3_384") { o.resize(48); sha3_384(a[0].data(), a[0].size(), o.data()); } else if (f == "sha3_512") { o.resize(64); sha3_512(a[0].data(), a[0].size(), o.data()); }
    else if (f == "sha512") { o.resize(64); sha512(a[0].data(), a[0].size(), o.data()); }
    else if (f == "edpk") { o.resize(32); uint8_t sk[64]; ed_keypair(a[0].data(), o.data(), sk); }
    else if (f == "edsign") { o.resize(64); uint8_t pk[32], sk[64]; ed_keypair(a[0].data(), pk, sk); ed_sign(sk, a[1].data(), a[1].size(), o.data()); }
    else if (f == "edverify") o.push_back(ed_verify(a[0].data(), a[1].data(), a[1].size(), a[2].data()));
    else if (f == "x25519") { o.resize(32); x25519(o.data(), a[0].data(), a[1].data()); }
    else if (f == "poly1305") { o.resize(16); poly1305(o.data(), a[0].data(), a[0].size(), a[1].data()); }
    else if (f == "xsalsa") { o.resize(n(2)); xsalsa20_stream(o.data(), o.size(), a[0].data(), a[1].data()); }
    else if (f == "muladd") { o.resize(32); sc_muladd(a[0].data(), a[1].data(), a[2].data(), o.data()); }
    else if (f == "dilmul") { dil::Poly x, y, r, s; for (int i = 0; i < 256; i++) { auto g = [&](const Bytes& b) { return (int32_t)((b[3 * i] | b[3 * i + 1] << 8 | b[3 * i + 2] << 16) % dil::Q); }; x[i] = g(a[0]); y[i] = g(a[1]); } dil::mul(x, y, r); dil::schoolbook(x, y, s); bool same = true; for (int i = 0; i < 256; i++) same &= ((r[i] - s[i]) % dil::Q) == 0; o.push_back(same); }
    else if (f == "dilrt") { Bytes pk(1312), sk(2560), sig(2420); dil::keypair(a[0].data(), pk.data(), sk.data()); dil::sign(sk.data(), a[1].data(), a[1].size(), sig.data()); o.push_back(dil::verify(pk.data(), a[1].data(), a[1].size(), sig.data())); sig[n(2) % 2420] ^= 1; o.push_back(dil::verify(pk.data(), a[1].data(), a[1].size(), sig.data())); }
    else if (f == "spxrt") { Bytes pk(64), sk(128), sig(spx::SIGLEN); spx::keypair(a[0].data(), pk.data(), sk.data()); spx::sign(sk.data(), a[0].data(), a[1].data(), a[1].size(), sig.data()); o.push_back(spx::verify(pk.data(), a[1].data(), a[1].size(), sig.data(), sig.size())); sig[n(2) % sig.size()] ^= 1; o.push_back(spx::verify(pk.data(), a[1].data(), a[1].size(), sig.data(), sig.size())); }
    static const char* d = "0123456789abcdef"; std::string r; for (uint8_t c : o) { r += d[c >> 4]; r += d[c & 15]; } std::cout << r << std::endl;
  }
}
