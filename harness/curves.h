// Independent view of short Weierstrass curves: affine chord-and-tangent law
// over GMP integers.
#ifndef VH_CURVES_H_
#define VH_CURVES_H_

#include "tachyon/math/elliptic_curves/short_weierstrass/affine_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/jacobian_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/projective_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/sw_curve.h"
#include "vh/exts.h"

namespace vh {

template <typename F>
ZVec InvZ(const ZVec& a) {
  if constexpr (EV<F>::Deg == 1) {
    return {InvM(a[0], FV<F>::P())};
  } else {
    static_assert(EV<F>::Deg == 2);
    using P = typename F::BasePrimeField;
    const mpz_class& p = FV<P>::P();
    mpz_class nr = Mod(NonRes<F>::value()[0], p);
    mpz_class n = InvM(Mod(a[0] * a[0] - nr * a[1] * a[1], p), p);
    return {Mod(a[0] * n, p), Mod(-a[1] * n, p)};
  }
}

inline bool IsZ(const ZVec& v) {
  for (auto& x : v)
    if (x != 0) return false;
  return true;
}

struct Pt {
  bool inf = true;
  ZVec x, y;
  bool operator==(const Pt& o) const {
    return inf == o.inf && (inf || (x == o.x && y == o.y));
  }
  bool operator!=(const Pt& o) const { return !(*this == o); }
  std::string ToString() const {
    return inf ? "O" : "(" + ShowZ(x) + "," + ShowZ(y) + ")";
  }
};

template <typename Curve>
struct CV {
  using F = typename Curve::BaseField;
  using E = EV<F>;
  using Aff = tachyon::math::AffinePoint<Curve>;
  using Jac = tachyon::math::JacobianPoint<Curve>;
  using Prj = tachyon::math::ProjectivePoint<Curve>;
  using Xyz = tachyon::math::PointXYZZ<Curve>;

  static ZVec A() {
    if constexpr (Curve::Config::kAIsZero)
      return E::Zero();
    else
      return E::Z(Curve::Config::kA);
  }
  static ZVec B() { return E::Z(Curve::Config::kB); }
  static bool On(const Pt& p) {
    if (p.inf) return true;
    ZVec r = E::Mul(E::Mul(p.x, p.x), p.x);
    r = E::Add(r, E::Add(E::Mul(A(), p.x), B()));
    return E::Mul(p.y, p.y) == r;
  }
  static Pt Neg(Pt p) {
    if (!p.inf) p.y = E::Sub(E::Zero(), p.y);
    return p;
  }
  static Pt Add(const Pt& p, const Pt& q) {
    if (p.inf) return q;
    if (q.inf) return p;
    ZVec l;
    if (p.x == q.x) {
      if (p.y != q.y || IsZ(p.y)) return Pt();
      ZVec x2 = E::Mul(p.x, p.x);
      l = E::Mul(E::Add(E::Add(x2, E::Add(x2, x2)), A()),
                 InvZ<F>(E::Add(p.y, p.y)));
    } else {
      l = E::Mul(E::Sub(q.y, p.y), InvZ<F>(E::Sub(q.x, p.x)));
    }
    Pt r;
    r.inf = false;
    r.x = E::Sub(E::Sub(E::Mul(l, l), p.x), q.x);
    r.y = E::Sub(E::Mul(l, E::Sub(p.x, r.x)), p.y);
    return r;
  }
  static Pt Mul(const Pt& p, mpz_class k) {
    Pt b = k < 0 ? Neg(p) : p, r;
    if (k < 0) k = -k;
    for (size_t i = mpz_sizeinbase(k.get_mpz_t(), 2); i-- > 0;) {
      r = Add(r, r);
      if (mpz_tstbit(k.get_mpz_t(), i)) r = Add(r, b);
    }
    return r;
  }
  static Pt Gen() { return Of(Aff::Generator()); }

  // meaning of a library point
  static Pt Of(const Aff& a) {
    Pt p;
    p.x = E::Z(a.x());
    p.y = E::Z(a.y());
    p.inf = IsZ(p.x) && IsZ(p.y);
    return p;
  }
  static Pt Of(const Jac& j) {
    Pt p;
    ZVec z = E::Z(j.z());
    if (IsZ(z)) return p;
    ZVec i = InvZ<F>(z), i2 = E::Mul(i, i);
    p.inf = false;
    p.x = E::Mul(E::Z(j.x()), i2);
    p.y = E::Mul(E::Z(j.y()), E::Mul(i2, i));
    return p;
  }
  static Pt Of(const Prj& j) {
    Pt p;
    ZVec z = E::Z(j.z());
    if (IsZ(z)) return p;
    ZVec i = InvZ<F>(z);
    p.inf = false;
    p.x = E::Mul(E::Z(j.x()), i);
    p.y = E::Mul(E::Z(j.y()), i);
    return p;
  }
  static Pt Of(const Xyz& j) {
    Pt p;
    ZVec zz = E::Z(j.zz()), zzz = E::Z(j.zzz());
    if (IsZ(zz)) return p;
    p.inf = false;
    p.x = E::Mul(E::Z(j.x()), InvZ<F>(zz));
    p.y = E::Mul(E::Z(j.y()), InvZ<F>(zzz));
    return p;
  }
  // representation invariants beyond the meaning
  static bool Good(const Aff& a) {
    return E::Canonical(a.x()) && E::Canonical(a.y());
  }
  static bool Good(const Jac& a) {
    return E::Canonical(a.x()) && E::Canonical(a.y()) && E::Canonical(a.z());
  }
  static bool Good(const Prj& a) {
    return E::Canonical(a.x()) && E::Canonical(a.y()) && E::Canonical(a.z());
  }
  static bool Good(const Xyz& a) {
    if (!(E::Canonical(a.x()) && E::Canonical(a.y()) && E::Canonical(a.zz()) &&
          E::Canonical(a.zzz())))
      return false;
    ZVec zz = E::Z(a.zz()), zzz = E::Z(a.zzz());
    return E::Mul(zz, E::Mul(zz, zz)) == E::Mul(zzz, zzz);
  }
  // a library point with the given meaning, scaled by l != 0
  template <typename T>
  static T Mk(const Pt& p, const ZVec& l) {
    ZVec l2 = E::Mul(l, l), l3 = E::Mul(l2, l);
    if constexpr (std::is_same_v<T, Aff>) {
      return p.inf ? Aff::Zero() : Aff(E::From(p.x), E::From(p.y));
    } else if constexpr (std::is_same_v<T, Jac>) {
      if (p.inf) return Jac(E::From(l2), E::From(l3), F::Zero());
      return Jac(E::From(E::Mul(p.x, l2)), E::From(E::Mul(p.y, l3)), E::From(l));
    } else if constexpr (std::is_same_v<T, Prj>) {
      if (p.inf) return Prj(E::From(l2), E::From(l3), F::Zero());
      return Prj(E::From(E::Mul(p.x, l)), E::From(E::Mul(p.y, l)), E::From(l));
    } else {
      if (p.inf) return Xyz(E::From(l2), E::From(l3), F::Zero(), F::Zero());
      return Xyz(E::From(E::Mul(p.x, l2)), E::From(E::Mul(p.y, l3)),
                 E::From(l2), E::From(l3));
    }
  }
  static ZVec Scale(Rng& r) {
    if (r.Chance(1, 4)) return E::One();
    for (;;) {
      ZVec v = E::Z(r.Bool() ? E::Any(r) : E::Rand(r));
      if (!IsZ(v)) return v;
    }
  }
  static uint64_t Hash(const Pt& p) { return HashStr(p.ToString()); }
};

}  // namespace vh

#endif
