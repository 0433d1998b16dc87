// Independent integer view of tachyon prime fields (through GMP).
#ifndef VH_FIELDS_H_
#define VH_FIELDS_H_

#include <gmpxx.h>

#include <algorithm>
#include <set>
#include <string>
#include <vector>

#include "tachyon/math/base/big_int.h"
#include "vh/vh.h"

namespace vh {

template <size_t N>
mpz_class BigToZ(const tachyon::math::BigInt<N>& b) {
  mpz_class r;
  mpz_import(r.get_mpz_t(), N, -1, 8, 0, 0, b.limbs);
  return r;
}
template <size_t N>
tachyon::math::BigInt<N> ZToBig(const mpz_class& z) {
  tachyon::math::BigInt<N> b(0);
  size_t cnt = 0;
  uint64_t tmp[N + 64] = {0};
  if (mpz_sizeinbase(z.get_mpz_t(), 2) > (N + 64) * 64) abort();
  mpz_export(tmp, &cnt, -1, 8, 0, 0, z.get_mpz_t());
  for (size_t i = 0; i < N; ++i) b[i] = tmp[i];
  return b;
}

inline mpz_class Mod(const mpz_class& a, const mpz_class& p) {
  mpz_class r;
  mpz_mod(r.get_mpz_t(), a.get_mpz_t(), p.get_mpz_t());
  return r;
}
inline mpz_class PowM(const mpz_class& a, const mpz_class& e,
                      const mpz_class& p) {
  mpz_class r;
  mpz_powm(r.get_mpz_t(), a.get_mpz_t(), e.get_mpz_t(), p.get_mpz_t());
  return r;
}
inline mpz_class InvM(const mpz_class& a, const mpz_class& p) {
  mpz_class r;
  mpz_invert(r.get_mpz_t(), a.get_mpz_t(), p.get_mpz_t());
  return r;
}

// The raw representation <-> integer, written independently of the library's
// own conversions.
template <typename F>
struct FV {
  static constexpr bool kSmall = F::Config::kModulusBits <= 32;
  static constexpr bool kMont = F::Config::kUseMontgomery;
  static constexpr size_t N = F::N;

  static const mpz_class& P() {
    static mpz_class p = [] {
      if constexpr (kSmall) {
        return mpz_class((unsigned long)F::Config::kModulus);
      } else {
        return BigToZ(F::Config::kModulus);
      }
    }();
    return p;
  }
  static const mpz_class& R() {
    static mpz_class r = mpz_class(1) << (kSmall ? 32 : 64 * N);
    return r;
  }
  static const mpz_class& RInv() {
    static mpz_class r = InvM(R(), P());
    return r;
  }
  static mpz_class Raw(const F& f) {
    if constexpr (kSmall) {
      return mpz_class((unsigned long)f.value());
    } else {
      return BigToZ(f.value());
    }
  }
  static bool Canonical(const F& f) { return Raw(f) < P(); }
  static mpz_class Z(const F& f) {
    if constexpr (kMont) {
      return Mod(Raw(f) * RInv(), P());
    } else {
      return Raw(f);
    }
  }
  static F FromRaw(const mpz_class& raw) {
    if constexpr (kMont) {
      if constexpr (kSmall) {
        return F::FromMontgomery((uint32_t)raw.get_ui());
      } else {
        return F::FromMontgomery(ZToBig<N>(raw));
      }
    } else {
      if constexpr (kSmall) {
        return F((uint32_t)raw.get_ui());
      } else {
        return F(ZToBig<N>(raw));
      }
    }
  }
  static F From(const mpz_class& z) {
    if constexpr (kMont) {
      return FromRaw(Mod(z * R(), P()));
    } else {
      return FromRaw(Mod(z, P()));
    }
  }
  static mpz_class RandZ(Rng& r) {
    mpz_class x;
    std::string b = r.Bytes(64 * 1);
    mpz_import(x.get_mpz_t(), b.size(), 1, 1, 0, 0, b.data());
    return Mod(x, P());
  }
  static F Rand(Rng& r) {
    if (kSmall) return FromRaw(mpz_class((unsigned long)r.U64()) % P());
    return FromRaw(RandZ(r));
  }
  // boundary values, as integers in [0, p)
  static const std::vector<mpz_class>& Bounds() {
    static std::vector<mpz_class> v = [] {
      std::set<mpz_class> s;
      const mpz_class& p = P();
      auto add = [&](const mpz_class& x) { s.insert(Mod(x, p)); };
      for (int d = -3; d <= 3; ++d) {
        add(d);
        add((p - 1) / 2 + d);
        add(R() + d);
        add(p / 3 + d);
      }
      add(R() * R());
      add(RInv());
      add(-RInv());
      size_t bits = mpz_sizeinbase(p.get_mpz_t(), 2);
      std::vector<size_t> pos = {1, 8, 16, 31, 32, 33, 62, 63, 64, 65, 127, 128,
                                 129, 191, 192, 193, 255, 256, 257, 319, 320,
                                 383, 384, bits - 1, bits};
      for (size_t k : pos) {
        if (k > bits) continue;
        mpz_class t = mpz_class(1) << k;
        add(t);
        add(t - 1);
        add(t + 1);
        add(p - t);
        add(p - t - 1);
        add(p - t + 1);
      }
      return std::vector<mpz_class>(s.begin(), s.end());
    }();
    return v;
  }
  // limb patterns, below p
  static mpz_class Pattern(Rng& r) {
    if constexpr (kSmall) {
      static const uint32_t w[] = {0, 1, 0x7fffffff, 0x80000000, 0xffffffff,
                                   0xffff, 0x10000};
      return Mod(mpz_class((unsigned long)w[r.Below(7)]), P());
    } else {
      static const uint64_t w[] = {0, 1, ~0ull, 1ull << 63, (1ull << 63) - 1,
                                   0xffffffffull, 0xffffffff00000000ull};
      mpz_class x = 0;
      for (size_t i = 0; i < N; ++i) {
        uint64_t l = r.Chance(1, 4) ? r.U64() : w[r.Below(7)];
        if (r.Chance(1, 8)) l = F::Config::kModulus[i];
        if (r.Chance(1, 16)) l = F::Config::kModulus[N - 1 - i] - 1;
        mpz_class t;
        mpz_import(t.get_mpz_t(), 1, -1, 8, 0, 0, &l);
        x += t << (64 * i);
      }
      while (x >= P()) x -= (x >> 1) + 1;
      return x;
    }
  }
  // a mixture of boundary, pattern and uniform elements
  static F Any(Rng& r) {
    switch (r.Below(6)) {
      case 0:
        return From(r.Pick(Bounds()));
      case 1:
        return FromRaw(r.Pick(Bounds()));
      case 2:
        return FromRaw(Pattern(r));
      case 3:
        return From(mpz_class((unsigned long)r.Below(20)));
      default:
        return Rand(r);
    }
  }
  static F NonZero(Rng& r) {
    for (;;) {
      F f = Any(r);
      if (!f.IsZero()) return f;
    }
  }
  static std::string S(const F& f) { return "0x" + Z(f).get_str(16); }
};

template <typename F>
uint64_t HashF(const F& f) {
  return HashStr(FV<F>::Raw(f).get_str(36));
}

}  // namespace vh
#endif
