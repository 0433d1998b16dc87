// Textbook Poseidon / Poseidon2 over integers, and lane views of packed fields.
#ifndef VH_HASHES_H_
#define VH_HASHES_H_

#include <functional>
#include <string>
#include <vector>

#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_params.h"
#include "tachyon/math/finite_fields/finite_field_traits.h"
#include "vh/fields.h"

namespace vh {

using Z = mpz_class;
using ZV = std::vector<Z>;
namespace crypto = tachyon::crypto;
namespace math = tachyon::math;
using crypto::GetPoseidon2InternalDiagonalArray;
using crypto::GetPoseidon2InternalShiftArray;
using crypto::Poseidon2Vendor;

template <typename F>
struct Lane {  // scalar field
  static constexpr bool kPacked = math::FiniteFieldTraits<F>::kIsPackedPrimeField;
  using PF = math::MaybeUnpack<F>;
  static constexpr size_t kN = [] {
    if constexpr (kPacked) return F::N; else return size_t{1};
  }();
  static Z Get(const F& f, size_t l) {
    if constexpr (kPacked) return FV<PF>::Z(f[l]); else return FV<PF>::Z(f);
  }
  static bool Canonical(const F& f) {
    for (size_t l = 0; l < kN; ++l) {
      if constexpr (kPacked) {
        if (!FV<PF>::Canonical(f[l])) return false;
      } else {
        if (!FV<PF>::Canonical(f)) return false;
      }
    }
    return true;
  }
  static F Make(const std::function<PF(size_t)>& fn) {
    if constexpr (kPacked) {
      F f;
      for (size_t l = 0; l < kN; ++l) f[l] = fn(l);
      return f;
    } else {
      return fn(0);
    }
  }
  static F Any(Rng& r) {
    return Make([&](size_t) { return FV<PF>::Any(r); });
  }
};

// Grain LFSR in self-shrinking mode, as the Poseidon paper (appendix F)
// defines it.
class Grain {
 public:
  Grain(int n, int t, int rf, int rp) : n_(n) {
    auto push = [&](unsigned v, int bits) {
      for (int i = bits - 1; i >= 0; --i) s_.push_back((v >> i) & 1);
    };
    push(1, 2);   // prime field
    push(0, 4);   // x^alpha
    push(n, 12);
    push(t, 12);
    push(rf, 10);
    push(rp, 10);
    for (int i = 0; i < 30; ++i) s_.push_back(1);
    for (int i = 0; i < 160; ++i) Raw();
  }
  int Bit() {
    for (;;) {
      int a = Raw(), b = Raw();
      if (a) return b;
    }
  }
  Z Int() {
    Z v = 0;
    for (int i = 0; i < n_; ++i) v = v * 2 + Bit();
    return v;
  }
  Z Rejection(const Z& p) {
    for (;;) {
      Z v = Int();
      if (v < p) return v;
    }
  }

 private:
  int Raw() {
    size_t k = s_.size() - 80;
    int b = s_[k + 62] ^ s_[k + 51] ^ s_[k + 38] ^ s_[k + 23] ^ s_[k + 13] ^
            s_[k];
    s_.push_back(b);
    return b;
  }
  int n_;
  std::vector<uint8_t> s_;
};

inline Z Det(std::vector<ZV> m, const Z& p) {
  size_t n = m.size();
  Z det = 1;
  for (size_t i = 0; i < n; ++i) {
    size_t k = i;
    while (k < n && m[k][i] == 0) ++k;
    if (k == n) return 0;
    if (k != i) {
      std::swap(m[k], m[i]);
      det = -det;
    }
    det = Mod(det * m[i][i], p);
    Z inv = InvM(m[i][i], p);
    for (size_t r = i + 1; r < n; ++r) {
      if (m[r][i] == 0) continue;
      Z f = Mod(m[r][i] * inv, p);
      for (size_t c = i; c < n; ++c) m[r][c] = Mod(m[r][c] - f * m[i][c], p);
    }
  }
  return Mod(det, p);
}

template <typename Params>
struct RefBase {
  using PF = math::MaybeUnpack<typename Params::Field>;
  const Z p = FV<PF>::P();
  static constexpr size_t W = Params::kWidth;
  std::vector<ZV> ark;
  ZV Mul(const std::vector<ZV>& m, const ZV& v) const {
    ZV r(v.size());
    for (size_t i = 0; i < v.size(); ++i) {
      Z a = 0;
      for (size_t j = 0; j < v.size(); ++j) a += m[i][j] * v[j];
      r[i] = Mod(a, p);
    }
    return r;
  }
  void SBox(Z& x) const {
    Z e = (unsigned long)Params::kAlpha;
    x = PowM(x, e, p);
  }
};

// textbook Poseidon
template <typename Params>
struct Ref1 : RefBase<Params> {
  using B = RefBase<Params>;
  using B::p, B::ark, B::W;
  std::vector<ZV> mds;
  explicit Ref1(size_t skip) {
    Grain g(mpz_sizeinbase(p.get_mpz_t(), 2), W, Params::kFullRounds,
            Params::kPartialRounds);
    for (size_t i = 0; i < Params::kFullRounds + Params::kPartialRounds; ++i) {
      ark.emplace_back();
      for (size_t j = 0; j < W; ++j) ark.back().push_back(g.Rejection(p));
    }
    for (size_t i = 0; i < skip * 2 * W; ++i) g.Int();
    ZV xy;
    for (size_t i = 0; i < 2 * W; ++i) xy.push_back(Mod(g.Int(), p));
    mds.assign(W, ZV(W));
    for (size_t i = 0; i < W; ++i)
      for (size_t j = 0; j < W; ++j)
        mds[i][j] = InvM(xy[i] + xy[W + j], p);
  }
  void Permute(ZV& s) const {
    size_t half = Params::kFullRounds / 2;
    for (size_t r = 0; r < ark.size(); ++r) {
      for (size_t j = 0; j < W; ++j) s[j] = Mod(s[j] + ark[r][j], p);
      bool full = r < half || r >= half + Params::kPartialRounds;
      for (size_t j = 0; j < (full ? W : 1); ++j) this->SBox(s[j]);
      s = this->Mul(mds, s);
    }
  }
};

// Poseidon2 as in the paper: external matrix first, then rounds
template <typename Params>
struct Ref2 : RefBase<Params> {
  using B = RefBase<Params>;
  using B::p, B::ark, B::W;
  std::vector<ZV> ext, in;
  Ref2() {
    using PF = typename B::PF;
    Grain g(mpz_sizeinbase(p.get_mpz_t(), 2), W, Params::kFullRounds,
            Params::kPartialRounds);
    size_t half = Params::kFullRounds / 2;
    for (size_t i = 0; i < Params::kFullRounds + Params::kPartialRounds; ++i) {
      ark.emplace_back(W, 0);
      bool full = i < half || i >= half + Params::kPartialRounds;
      for (size_t j = 0; j < (full ? W : 1); ++j)
        ark.back()[j] = g.Rejection(p);
    }
    static const int kH[4][4] = {
        {5, 7, 1, 3}, {4, 6, 1, 1}, {1, 3, 5, 7}, {1, 1, 4, 6}};
    static const int kP[4][4] = {
        {2, 3, 1, 1}, {1, 2, 3, 1}, {1, 1, 2, 3}, {3, 1, 1, 2}};
    bool horizen = Params::kExternalMatrixVendor == Poseidon2Vendor::kHorizen;
    ext.assign(W, ZV(W));
    for (size_t i = 0; i < W; ++i)
      for (size_t j = 0; j < W; ++j) {
        if (W < 4) {
          ext[i][j] = i == j ? 2 : 1;
        } else {
          int m = horizen ? kH[i % 4][j % 4] : kP[i % 4][j % 4];
          ext[i][j] = (W > 4 && i / 4 == j / 4) ? 2 * m : m;
        }
      }
    in.assign(W, ZV(W, 1));
    if constexpr (Params::kInternalMatrixVendor == Poseidon2Vendor::kPlonky3 &&
                  PF::Config::kModulusBits <= 32) {
      auto sh = GetPoseidon2InternalShiftArray<Params>();
      in[0][0] = Mod(-1, p);
      for (size_t i = 1; i < W; ++i) in[i][i] = Mod((Z(1) << sh[i - 1]) + 1, p);
      if (FV<PF>::kMont)  // the vendor skips one Montgomery correction
        for (auto& r : in)
          for (auto& x : r) x = Mod(x * FV<PF>::RInv(), p);
    } else {
      auto d = GetPoseidon2InternalDiagonalArray<Params>();
      for (size_t i = 0; i < W; ++i) in[i][i] = Mod(FV<PF>::Z(d[i]) + 1, p);
    }
  }
  void Permute(ZV& s) const {
    size_t half = Params::kFullRounds / 2;
    s = this->Mul(ext, s);
    for (size_t r = 0; r < ark.size(); ++r) {
      bool full = r < half || r >= half + Params::kPartialRounds;
      for (size_t j = 0; j < (full ? W : 1); ++j) {
        s[j] = Mod(s[j] + ark[r][j], p);
        this->SBox(s[j]);
      }
      s = this->Mul(full ? ext : in, s);
    }
  }
};

// duplex construction: an unbounded stream of absorbed / squeezed elements
template <typename Ref>
struct RefSponge {
  const Ref& ref;
  size_t rate, cap;
  ZV s;
  bool squeezing = false;
  size_t pos = 0;
  RefSponge(const Ref& r, size_t rate_, size_t cap_)
      : ref(r), rate(rate_), cap(cap_), s(rate_ + cap_, 0) {}
  void Absorb(const Z& v) {
    if (squeezing || pos == rate) {
      ref.Permute(s);
      pos = 0;
      squeezing = false;
    }
    s[cap + pos] = Mod(s[cap + pos] + v, ref.p);
    ++pos;
  }
  Z Squeeze() {
    if (!squeezing || pos == rate) {
      ref.Permute(s);
      pos = 0;
      squeezing = true;
    }
    return s[cap + pos++];
  }
};

inline std::string SZ(const ZV& v) {
  std::string s;
  for (const Z& z : v) s += "0x" + z.get_str(16) + " ";
  return s;
}

}  // namespace vh

#endif  // VH_HASHES_H_
