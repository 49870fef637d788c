// Crafted component signatures: valid in every respect but one.
#pragma once
#include "hy.h"
// Ed25519: signature whose R differs from the true commitment in `mask` at byte `pos`; S is consistent with the altered R,
// so only the final 32-byte comparison can notice.
Bytes craft_ed_flipR(const Key& k, const Bytes& m, const Bytes& r, unsigned pos, uint8_t mask);
// R starting with a zero byte (strings compare functions stop there), altered at `pos` > 0
Bytes craft_ed_zeroR(const Key& k, const Bytes& m, uint64_t salt, unsigned pos, uint8_t mask);
// Dilithium: consistent with a challenge string altered at byte pos
Bytes craft_dil_flipC(const Key& k, const Bytes& m, unsigned pos, uint8_t mask);
// all coefficients within bounds except z[poly][coef] == val (val may be any in +-GAMMA1); empty when not found
Bytes craft_dil_z(const Key& k, const Bytes& m, int poly, int coef, int val);
// non-canonical encodings of the same hint vector; kind 0..5; empty when not applicable
Bytes craft_dil_hint(const Bytes& sig, unsigned kind, unsigned which, unsigned val);
// SPHINCS+ key whose root field is wrong in one byte (signatures made with it are wrong only in the final comparison)
Key craft_spx_badroot(const Key& k, unsigned pos, uint8_t mask);
// index of a seed whose root starts with a zero byte
Key key_zero_root();
// Dilithium signature under the public key rho || 0, with w' steered to an edge of the rounding and arbitrary hints; returns a description
std::string craft_dil_free(Gen& g, const Bytes& m, Bytes* pk, Bytes* sig);
