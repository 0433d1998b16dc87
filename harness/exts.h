// Independent view of tachyon extension fields: an element is its flat list of
// prime-field coefficients; products are schoolbook products modulo the tower's
// stated binomials, over GMP integers.
#ifndef VH_EXTS_H_
#define VH_EXTS_H_

#include "tachyon/math/finite_fields/extension_field_traits_forward.h"
#include "vh/fields.h"

namespace vh {

using ZVec = std::vector<mpz_class>;

// The tower's non-residue, as flat coefficients of the base field (written down
// here independently of the generated configuration).
template <typename F>
struct NonRes;

template <typename F, typename = void>
struct EV {  // extension
  using B = typename F::BaseField;
  using P = typename F::BasePrimeField;
  static constexpr size_t D = tachyon::math::ExtensionFieldTraits<F>::kDegreeOverBaseField;
  static constexpr size_t BD = EV<B>::Deg;
  static constexpr size_t Deg = D * BD;

  static void Flat(const F& f, ZVec& out) {
    for (size_t i = 0; i < D; ++i) EV<B>::Flat(f[i], out);
  }
  static ZVec Z(const F& f) {
    ZVec v;
    Flat(f, v);
    return v;
  }
  static bool Canonical(const F& f) {
    for (size_t i = 0; i < D; ++i)
      if (!EV<B>::Canonical(f[i])) return false;
    return true;
  }
  static F From(const ZVec& v, size_t off = 0) {
    auto b = [&](size_t i) { return EV<B>::From(v, off + i * BD); };
    if constexpr (D == 2) return F(b(0), b(1));
    else if constexpr (D == 3) return F(b(0), b(1), b(2));
    else return F(b(0), b(1), b(2), b(3));
  }
  static ZVec Zero() { return ZVec(Deg); }
  static ZVec One() {
    ZVec v(Deg);
    v[0] = 1;
    return v;
  }
  static ZVec Add(const ZVec& a, const ZVec& b) {
    ZVec r(Deg);
    for (size_t i = 0; i < Deg; ++i) r[i] = Mod(a[i] + b[i], FV<P>::P());
    return r;
  }
  static ZVec Sub(const ZVec& a, const ZVec& b) {
    ZVec r(Deg);
    for (size_t i = 0; i < Deg; ++i) r[i] = Mod(a[i] - b[i], FV<P>::P());
    return r;
  }
  static ZVec Scale(const ZVec& a, const mpz_class& k) {
    ZVec r(Deg);
    for (size_t i = 0; i < Deg; ++i) r[i] = Mod(a[i] * k, FV<P>::P());
    return r;
  }
  static ZVec Part(const ZVec& a, size_t i) {
    return ZVec(a.begin() + i * BD, a.begin() + (i + 1) * BD);
  }
  static ZVec Mul(const ZVec& a, const ZVec& b) {
    static const ZVec nr = [] {
      ZVec v;
      for (long x : NonRes<F>::value()) v.push_back(Mod(x, FV<P>::P()));
      v.resize(BD);
      return v;
    }();
    std::vector<ZVec> t(2 * D - 1, ZVec(BD));
    for (size_t i = 0; i < D; ++i)
      for (size_t j = 0; j < D; ++j)
        t[i + j] = EV<B>::Add(t[i + j], EV<B>::Mul(Part(a, i), Part(b, j)));
    ZVec r;
    for (size_t i = 0; i < D; ++i) {
      ZVec c = t[i];
      if (i + D < 2 * D - 1) c = EV<B>::Add(c, EV<B>::Mul(nr, t[i + D]));
      r.insert(r.end(), c.begin(), c.end());
    }
    return r;
  }
  // embeds a base-field element
  static ZVec FromBase(const ZVec& b) {
    ZVec r = b;
    r.resize(Deg);
    return r;
  }
  static ZVec Pow(const ZVec& a, const mpz_class& e) {
    ZVec r = One();
    for (size_t i = mpz_sizeinbase(e.get_mpz_t(), 2); i-- > 0;) {
      r = Mul(r, r);
      if (mpz_tstbit(e.get_mpz_t(), i)) r = Mul(r, a);
    }
    return r;
  }
  // a^(p^e) by linearity from the images of the basis
  static ZVec Frob(const ZVec& a, size_t e) {
    static const std::vector<ZVec> img = [] {
      std::vector<ZVec> v;
      for (size_t j = 0; j < Deg; ++j) {
        ZVec b(Deg);
        b[j] = 1;
        v.push_back(Pow(b, FV<P>::P()));
      }
      return v;
    }();
    ZVec r = a;
    for (size_t k = 0; k < e % Deg; ++k) {
      ZVec n(Deg);
      for (size_t j = 0; j < Deg; ++j) n = Add(n, Scale(img[j], r[j]));
      r = n;
    }
    return r;
  }
  static F Any(Rng& r) {
    switch (r.Below(10)) {
      case 0:
        return From(Zero());
      case 1: {
        ZVec v = Zero();
        v[r.Below(Deg)] = FV<P>::Z(FV<P>::Any(r));
        return From(v);
      }
      case 2: {
        ZVec v = Zero();
        for (auto& x : v)
          if (r.Bool()) x = FV<P>::Z(FV<P>::Any(r));
        return From(v);
      }
      case 3: {
        ZVec v = Zero();
        for (auto& x : v) x = FV<P>::P() - 1;
        return From(v);
      }
      case 4: {
        ZVec v = Zero();
        for (size_t i = 0; i < BD; ++i) v[i] = FV<P>::Z(FV<P>::Any(r));
        return From(v);
      }
      default: {
        ZVec v = Zero();
        for (auto& x : v) x = FV<P>::Z(FV<P>::Any(r));
        return From(v);
      }
    }
  }
  static F Rand(Rng& r) {
    ZVec v = Zero();
    for (auto& x : v) x = FV<P>::Z(FV<P>::Rand(r));
    return From(v);
  }
  static std::string S(const F& f) {
    std::string s = "(";
    for (auto& z : Z(f)) s += z.get_str(16) + " ";
    return s + ")";
  }
  static uint64_t H(const F& f) { return HashStr(S(f)); }
};

template <typename F>
struct EV<F, std::enable_if_t<F::ExtensionDegree() == 1>> {
  static constexpr size_t Deg = 1;
  static void Flat(const F& f, ZVec& out) { out.push_back(FV<F>::Z(f)); }
  static ZVec Z(const F& f) { return {FV<F>::Z(f)}; }
  static bool Canonical(const F& f) { return FV<F>::Canonical(f); }
  static F From(const ZVec& v, size_t off = 0) { return FV<F>::From(v[off]); }
  static ZVec Zero() { return ZVec(1); }
  static ZVec One() { return ZVec{mpz_class(1)}; }
  static ZVec Add(const ZVec& a, const ZVec& b) {
    return {Mod(a[0] + b[0], FV<F>::P())};
  }
  static ZVec Sub(const ZVec& a, const ZVec& b) {
    return {Mod(a[0] - b[0], FV<F>::P())};
  }
  static ZVec Mul(const ZVec& a, const ZVec& b) {
    return {Mod(a[0] * b[0], FV<F>::P())};
  }
  static ZVec Scale(const ZVec& a, const mpz_class& k) {
    return {Mod(a[0] * k, FV<F>::P())};
  }
  static ZVec Pow(const ZVec& a, const mpz_class& e) {
    return {PowM(a[0], e, FV<F>::P())};
  }
  static F Any(Rng& r) { return FV<F>::Any(r); }
  static F Rand(Rng& r) { return FV<F>::Rand(r); }
  static std::string S(const F& f) { return FV<F>::S(f); }
  static uint64_t H(const F& f) { return HashF(f); }
};

inline std::string ShowZ(const ZVec& v) {
  std::string s = "(";
  for (auto& z : v) s += z.get_str(16) + " ";
  return s + ")";
}

}  // namespace vh

#define VH_NONRES(F, ...)                                  \
  template <>                                              \
  struct vh::NonRes<F> {                                   \
    static std::vector<long> value() { return {__VA_ARGS__}; } \
  };

#endif
