// P07: elliptic-curve groups in four coordinate systems against the affine
// chord-and-tangent law.
#include <algorithm>

#include "tachyon/math/geometry/point_conversions.h"
#include "vh/curves.h"
#include "vh/vh.h"

#if VH_SET == 1
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g2.h"
VH_NONRES(tachyon::math::bn254::Fq2, -1)
#elif VH_SET == 2
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g2.h"
VH_NONRES(tachyon::math::bls12_381::Fq2, -1)
#elif VH_SET == 3
#include "tachyon/math/elliptic_curves/pasta/pallas/curve.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/curve.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/curve.h"
#else
#include "tachyon/math/finite_fields/baby_bear/internal/baby_bear.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#endif

using namespace tachyon::math;
using vh::Ctx;
using vh::CV;
using vh::Pt;
using vh::Rng;
using vh::ZVec;

namespace {

template <typename Curve>
struct T {
  using V = CV<Curve>;
  using F = typename Curve::BaseField;
  using E = vh::EV<F>;
  using Aff = typename V::Aff;
  using Jac = typename V::Jac;
  using Prj = typename V::Prj;
  using Xyz = typename V::Xyz;

  template <typename P, typename In>
  static void Is(Ctx& c, const P& got, const Pt& want, const char* m, In&& in) {
    c.CheckF(V::Of(got) == want && V::Good(got), m, [&] {
      return in() + " got " + got.ToHexString() +
             (V::Good(got) ? "" : " (malformed representation)") + " = " +
             V::Of(got).ToString() + " want " + want.ToString();
    });
  }

  template <typename R>
  static std::string Name() {
    if constexpr (std::is_same_v<R, Jac>) return "jac ";
    else if constexpr (std::is_same_v<R, Prj>) return "proj ";
    else if constexpr (std::is_same_v<R, Xyz>) return "xyzz ";
    else return "aff ";
  }

  // all forms of one representation on one pair
  template <typename R>
  static void Rep(Ctx& c, const Pt& p, const Pt& q, const ZVec& lp,
                  const ZVec& lq) {
    static const std::string n = Name<R>();
    static const std::string mAdd = n + "P+Q", mAddI = n + "P+=Q",
        mSub = n + "P-Q", mSubI = n + "P-=Q", mMix = n + "P+affine",
        mMixI = n + "P+=affine", mMixS = n + "P-affine",
        mMixSI = n + "P-=affine", mRev = n + "affine+P", mDbl = n + "double",
        mDblI = n + "double in place", mSelf = n + "x+=x",
        mSelfS = n + "x-=x", mNeg = n + "negate", mNegI = n + "negate in place",
        mEq = n + "equality", mZ = n + "IsZero", mOn = n + "IsOnCurve",
        mConv = n + "conversion", mSame = n + "x+x";
    R P = V::template Mk<R>(p, lp), Q = V::template Mk<R>(q, lq);
    Aff qa = V::template Mk<Aff>(q, lq);
    auto in = [&] {
      return "P=" + P.ToHexString() + " Q=" + Q.ToHexString();
    };
    Pt sum = V::Add(p, q), dif = V::Add(p, V::Neg(q)), dbl = V::Add(p, p);
    Is(c, P + Q, sum, mAdd.c_str(), in);
    Is(c, P - Q, dif, mSub.c_str(), in);
    R z = P;
    z += Q;
    Is(c, z, sum, mAddI.c_str(), in);
    z = P;
    z -= Q;
    Is(c, z, dif, mSubI.c_str(), in);
    Is(c, P + qa, sum, mMix.c_str(), in);
    Is(c, P - qa, dif, mMixS.c_str(), in);
    z = P;
    z += qa;
    Is(c, z, sum, mMixI.c_str(), in);
    z = P;
    z -= qa;
    Is(c, z, dif, mMixSI.c_str(), in);
    Is(c, V::template Mk<Aff>(p, lp) + Q, sum, mRev.c_str(), in);
    Is(c, P.Double(), dbl, mDbl.c_str(), in);
    z = P;
    z.DoubleInPlace();
    Is(c, z, dbl, mDblI.c_str(), in);
    z = P;
    z += z;
    Is(c, z, dbl, mSelf.c_str(), in);
    z = P;
    Is(c, z + z, dbl, mSame.c_str(), in);
    z -= z;
    Is(c, z, Pt(), mSelfS.c_str(), in);
    // z is now an identity that the library produced itself
    Is(c, z + Q, q, mAdd.c_str(), in);
    Is(c, Q + z, q, mAdd.c_str(), in);
    Is(c, z + qa, q, mMix.c_str(), in);
    Is(c, z.Double(), Pt(), mDbl.c_str(), in);
    c.CheckF(z.IsZero() && z == R::Zero() && R::Zero() == z, mZ.c_str(), in);
    Is(c, -P, V::Neg(p), mNeg.c_str(), in);
    z = P;
    z.NegateInPlace();
    Is(c, z, V::Neg(p), mNegI.c_str(), in);
    bool eq = p == q;
    c.CheckF((P == Q) == eq && (Q == P) == eq && (P != Q) == !eq, mEq.c_str(), in);
    R P2 = V::template Mk<R>(p, lq);  // the same point, scaled differently
    c.CheckF(P == P2 && !(P != P2), mEq.c_str(), in);
    R nP = V::template Mk<R>(V::Neg(p), lq);
    c.CheckF((P == nP) == (p == V::Neg(p)), mEq.c_str(), in);
    c.CheckF(P.IsZero() == p.inf, mZ.c_str(), in);
    if (!p.inf) {
      c.CheckF(P.IsOnCurve(), mOn.c_str(), in);
      Pt off = p;
      off.x[0] = vh::Mod(off.x[0] + 1, P_());
      if (!V::On(off)) {
        R o = V::template Mk<R>(off, lp);
        c.CheckF(!o.IsOnCurve(), mOn.c_str(), [&] { return o.ToHexString(); });
      }
    }
    // conversions
    Is(c, P.ToAffine(), p, mConv.c_str(), in);
    Is(c, ConvertPoint<Aff>(P), p, mConv.c_str(), in);
    Is(c, Aff(P.ToAffine()), p, mConv.c_str(), in);
    if constexpr (!std::is_same_v<R, Jac>) {
      Is(c, P.ToJacobian(), p, mConv.c_str(), in);
      Is(c, ConvertPoint<Jac>(P), p, mConv.c_str(), in);
    } else {
      Is(c, Aff::FromJacobian(P), p, mConv.c_str(), in);
      Is(c, Prj::FromJacobian(P), p, mConv.c_str(), in);
      Is(c, Xyz::FromJacobian(P), p, mConv.c_str(), in);
    }
    if constexpr (!std::is_same_v<R, Prj>) {
      Is(c, P.ToProjective(), p, mConv.c_str(), in);
      Is(c, ConvertPoint<Prj>(P), p, mConv.c_str(), in);
    } else {
      Is(c, Aff::FromProjective(P), p, mConv.c_str(), in);
      Is(c, Jac::FromProjective(P), p, mConv.c_str(), in);
      Is(c, Xyz::FromProjective(P), p, mConv.c_str(), in);
    }
    if constexpr (!std::is_same_v<R, Xyz>) {
      Is(c, P.ToXYZZ(), p, mConv.c_str(), in);
      Is(c, ConvertPoint<Xyz>(P), p, mConv.c_str(), in);
    } else {
      Is(c, Aff::FromXYZZ(P), p, mConv.c_str(), in);
      Is(c, Jac::FromXYZZ(P), p, mConv.c_str(), in);
      Is(c, Prj::FromXYZZ(P), p, mConv.c_str(), in);
    }
    Is(c, R::FromAffine(V::template Mk<Aff>(p, lp)), p, mConv.c_str(), in);
  }
  static const mpz_class& P_() {
    if constexpr (E::Deg == 1) return vh::FV<F>::P();
    else return vh::FV<typename F::BasePrimeField>::P();
  }

  static void Affine(Ctx& c, const Pt& p, const Pt& q) {
    ZVec one = E::One();
    Aff P = V::template Mk<Aff>(p, one), Q = V::template Mk<Aff>(q, one);
    auto in = [&] { return "P=" + P.ToHexString() + " Q=" + Q.ToHexString(); };
    Is(c, P + Q, V::Add(p, q), "aff P+Q", in);
    Is(c, P - Q, V::Add(p, V::Neg(q)), "aff P-Q", in);
    Is(c, P.Double(), V::Add(p, p), "aff double", in);
    Is(c, P.DoubleProjective(), V::Add(p, p), "aff DoubleProjective", in);
    Is(c, P.DoubleXYZZ(), V::Add(p, p), "aff DoubleXYZZ", in);
    Is(c, -P, V::Neg(p), "aff negate", in);
    Aff z = P;
    z.NegateInPlace();
    Is(c, z, V::Neg(p), "aff negate in place", in);
    c.CheckF((P == Q) == (p == q) && (P != Q) == (p != q), "aff equality", in);
    c.CheckF(P.IsZero() == p.inf, "aff IsZero", in);
    if (!p.inf) c.CheckF(P.IsOnCurve(), "aff IsOnCurve", in);
    Is(c, P.ToJacobian(), p, "aff conversion", in);
    Is(c, P.ToProjective(), p, "aff conversion", in);
    Is(c, P.ToXYZZ(), p, "aff conversion", in);
  }

  static void Pair(Ctx& c, Rng& r, const Pt& p, const Pt& q) {
    c.Distinct(vh::Mix(V::Hash(p)) ^ V::Hash(q));
    Affine(c, p, q);
    Rep<Jac>(c, p, q, V::Scale(r), V::Scale(r));
    Rep<Prj>(c, p, q, V::Scale(r), V::Scale(r));
    Rep<Xyz>(c, p, q, V::Scale(r), V::Scale(r));
    if (p.inf || q.inf) c.Count("pairs with the identity");
    else if (p == q) c.Count("equal pairs");
    else if (p == V::Neg(q)) c.Count("opposite pairs");
    else if (p.y == q.y) c.Count("pairs sharing y");
    else c.Count("generic pairs");
  }

  template <typename R>
  static void Batch(Ctx& c, Rng& r, const std::vector<Pt>& pool, size_t n) {
    std::vector<Pt> p;
    std::vector<R> v;
    for (size_t i = 0; i < n; ++i) {
      p.push_back(r.Chance(1, 5) ? Pt() : r.Pick(pool));
      v.push_back(V::template Mk<R>(p[i], V::Scale(r)));
    }
    auto same = [&](const auto& o) {
      if (o.size() != n) return false;
      for (size_t i = 0; i < n; ++i)
        if (V::Of(o[i]) != p[i] || !V::Good(o[i])) return false;
      return true;
    };
    auto in = [&] { return Name<R>() + vh::Show(p); };
    if constexpr (!std::is_same_v<R, Aff>) {
      std::vector<Aff> o(n, Aff::Generator());
      bool ok = R::BatchNormalize(v, &o);
      c.CheckF(ok && same(o), "BatchNormalize", in);
      std::vector<Aff> o2(n, Aff::Generator());
      ok = R::BatchNormalizeSerial(v, &o2);
      c.CheckF(ok && same(o2), "BatchNormalizeSerial", in);
      std::vector<Aff> bad(n + 1);
      c.CheckF(!R::BatchNormalize(v, &bad), "BatchNormalize size mismatch", in);
      std::vector<Aff> o3(n, Aff::Generator());
      c.CheckF(ConvertPoints(v, &o3) && same(o3), "ConvertPoints", in);
    }
    std::vector<Jac> o4(n, Jac::Generator());
    if constexpr (!std::is_same_v<R, Jac>)
      c.CheckF(ConvertPoints(v, &o4) && same(o4), "ConvertPoints", in);
    std::vector<Xyz> o5(n, Xyz::Generator());
    if constexpr (!std::is_same_v<R, Xyz>)
      c.CheckF(ConvertPoints(v, &o5) && same(o5), "ConvertPoints", in);
    std::vector<Prj> o6(n + 1, Prj::Generator());
    if constexpr (!std::is_same_v<R, Prj>)
      c.CheckF(!ConvertPoints(v, &o6), "ConvertPoints size mismatch", in);
  }

  static void FromX(Ctx& c, Rng& r, std::vector<Pt>* pool) {
    if constexpr (E::Deg == 1) {
      for (int i = 0; i < 12; ++i) {
        F x = E::Any(r);
        ZVec X = E::Z(x);
        ZVec rhs = E::Add(E::Mul(E::Mul(X, X), X), E::Add(E::Mul(V::A(), X), V::B()));
        int leg = mpz_legendre(rhs[0].get_mpz_t(), P_().get_mpz_t());
        for (bool odd : {false, true}) {
          auto in = [&] { return x.ToHexString() + (odd ? " odd" : " even"); };
          auto a = Aff::CreateFromX(x, odd);
          c.CheckF(!!a == (leg >= 0), "CreateFromX existence", in);
          if (!a) continue;
          Pt p = V::Of(*a);
          bool good = V::Good(*a) && p.x == X && (p.inf || V::On(p)) &&
                      (p.y[0] == 0 || (mpz_odd_p(p.y[0].get_mpz_t()) != 0) == odd);
          c.CheckF(good, "CreateFromX point", [&] { return in() + p.ToString(); });
          if (!good) continue;
          if (pool && !p.inf) pool->push_back(p);
          auto j = Jac::CreateFromX(x, odd);
          auto pr = Prj::CreateFromX(x, odd);
          auto z = Xyz::CreateFromX(x, odd);
          if (c.CheckF(j && pr && z, "CreateFromX existence", in)) {
            Is(c, *j, p, "CreateFromX point", in);
            Is(c, *pr, p, "CreateFromX point", in);
            Is(c, *z, p, "CreateFromX point", in);
          }
        }
      }
    }
  }
};

template <typename Curve>
void Big(Ctx& c, const char* name, const char* order) {
  using X = T<Curve>;
  using V = CV<Curve>;
  using S = typename Curve::ScalarField;
  Curve::Init();
  Rng& r = c.rng;
  mpz_class n(order);
  std::vector<Pt> pool;
  auto fill = [&] {
    pool.clear();
    Pt g = V::Gen(), k = g;
    pool.push_back(Pt());
    for (int i = 0; i < 6; ++i) {
      pool.push_back(k);
      k = V::Add(k, g);
    }
    mpz_class s;
    std::string b = r.Bytes(48);
    mpz_import(s.get_mpz_t(), b.size(), 1, 1, 0, 0, b.data());
    Pt a = V::Mul(g, s);
    for (int i = 0; i < 5; ++i) {
      pool.push_back(a);
      pool.push_back(V::Neg(a));
      a = V::Add(a, a);
      if (i == 2) a = V::Add(a, g);
    }
    X::FromX(c, r, &pool);
    // points sharing the y coordinate (images under the cube root of unity)
    size_t m = pool.size();
    for (size_t i = 1; i < m && i < 6; ++i) {
      ZVec x = pool[i].x;
      static const ZVec beta = [] {
        // cube root of unity in the prime field
        const mpz_class& p = X::P_();
        for (int g = 2;; ++g) {
          mpz_class w = vh::PowM(g, (p - 1) / 3, p);
          if (w != 1) {
            ZVec v = vh::EV<typename Curve::BaseField>::Zero();
            v[0] = w;
            return v;
          }
        }
      }();
      Pt q = pool[i];
      q.x = vh::EV<typename Curve::BaseField>::Mul(x, beta);
      if (V::On(q)) pool.push_back(q);
    }
  };
  if (c.Section(std::string(name) + " curve")) {
    Pt g = V::Gen();
    c.CheckF(V::On(g) && !g.inf, "generator on curve", [&] { return g.ToString(); });
    c.CheckF(V::Mul(g, n).inf && !V::Mul(g, 1).inf, "generator has the group order",
             [&] { return g.ToString(); });
    c.CheckF(vh::FV<S>::P() == n, "scalar field is the group order",
             [&] { return vh::FV<S>::P().get_str(); });
    auto none = [] { return std::string(); };
    X::Is(c, V::Jac::Generator(), g, "generators agree", none);
    X::Is(c, V::Prj::Generator(), g, "generators agree", none);
    X::Is(c, V::Xyz::Generator(), g, "generators agree", none);
    X::Is(c, V::Aff::Zero(), Pt(), "zero", none);
    X::Is(c, V::Jac::Zero(), Pt(), "zero", none);
    X::Is(c, V::Prj::Zero(), Pt(), "zero", none);
    X::Is(c, V::Xyz::Zero(), Pt(), "zero", none);
    for (int i = 0; i < 3; ++i) {
      auto chk = [&](const auto& q) {
        c.CheckF(V::On(V::Of(q)) && V::Good(q), "random point on curve",
                 [&] { return q.ToHexString(); });
      };
      chk(V::Aff::Random());
      chk(V::Jac::Random());
      chk(V::Prj::Random());
      chk(V::Xyz::Random());
    }
  }
  if (c.Section(std::string(name) + " pairs")) {
    fill();
    // every ordered pair of the pool, then refreshed pools at random
    size_t lim = c.N(260, 3000);
    for (size_t it = 0; it < lim && c.TimeLeft(); ++it) {
      if (it % 200 == 199) fill();
      Pt p = r.Pick(pool), q = r.Pick(pool);
      switch (r.Below(6)) {
        case 0: q = p; break;
        case 1: q = V::Neg(p); break;
        case 2: q = V::Add(p, p); break;
      }
      if (it < 2) c.Sample(p.ToString() + " , " + q.ToString());
      X::Pair(c, r, p, q);
    }
  }
  if (c.Section(std::string(name) + " batch")) {
    fill();
    for (size_t k : {0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 33, 64, 65, 100}) {
      X::template Batch<typename V::Jac>(c, r, pool, k);
      X::template Batch<typename V::Prj>(c, r, pool, k);
      X::template Batch<typename V::Xyz>(c, r, pool, k);
      X::template Batch<typename V::Aff>(c, r, pool, k);
    }
  }
}

#if VH_SET == 4
template <typename F, bool AZero>
struct TinyConfig {
  using BaseField = F;
  using BasePrimeField = F;
  using ScalarField = F;
  using CpuBaseField = F;
  using CpuScalarField = F;
  using GpuBaseField = F;
  using GpuScalarField = F;
  using CpuCurveConfig = TinyConfig;
  using GpuCurveConfig = TinyConfig;
  constexpr static bool kAIsZero = AZero;
  static inline F kA;
  static inline F kB;
  static inline Point2<F> kGenerator;
  static F MulByA(const F& v) { return kA * v; }
  static void Init() {}
};

// every curve over GF(7), every pair of points, every scaling
template <bool AZero>
void Tiny(Ctx& c) {
  using Cfg = TinyConfig<GF7, AZero>;
  using Curve = SWCurve<Cfg>;
  using X = T<Curve>;
  using V = CV<Curve>;
  Curve::Init();
  if (!c.Section(AZero ? "GF7 a=0" : "GF7 a!=0")) return;
  Rng& r = c.rng;
  for (int a = AZero ? 0 : 1; a < (AZero ? 1 : 7); ++a)
    for (int b = 0; b < 7; ++b) {
      if ((4 * a * a * a + 27 * b * b) % 7 == 0) continue;
      if (b == 0) continue;  // (0,0) denotes the identity in affine form
      Cfg::kA = GF7(a);
      Cfg::kB = GF7(b);
      std::vector<Pt> pts{Pt()};
      for (int x = 0; x < 7; ++x)
        for (int y = 0; y < 7; ++y)
          if ((x * x * x + a * x + b - y * y) % 7 == 0) {
            Pt p;
            p.inf = false;
            p.x = {mpz_class(x)};
            p.y = {mpz_class(y)};
            pts.push_back(p);
            if (y == 0) c.Count("points of order two");
          }
      if (pts.size() < 2) continue;
      Cfg::kGenerator.x = GF7(static_cast<uint32_t>(pts[1].x[0].get_ui()));
      Cfg::kGenerator.y = GF7(static_cast<uint32_t>(pts[1].y[0].get_ui()));
      c.Count("curves");
      c.Case("a=" + std::to_string(a) + " b=" + std::to_string(b));
      for (auto& p : pts)
        for (auto& q : pts) {
          X::Pair(c, r, p, q);
          if (c.thorough)
            for (int l = 1; l < 7; ++l)
              for (int m = 1; m < 7; ++m) {
                ZVec L{mpz_class(l)}, M{mpz_class(m)};
                X::template Rep<typename V::Jac>(c, p, q, L, M);
                X::template Rep<typename V::Prj>(c, p, q, L, M);
                X::template Rep<typename V::Xyz>(c, p, q, L, M);
              }
        }
      for (size_t k = 0; k < 5; ++k) {
        X::template Batch<typename V::Jac>(c, r, pts, k);
        X::template Batch<typename V::Prj>(c, r, pts, k);
        X::template Batch<typename V::Xyz>(c, r, pts, k);
      }
      X::FromX(c, r, nullptr);
    }
}

// curves with a != 0 over a 31-bit field
void Mid(Ctx& c) {
  using Cfg = TinyConfig<BabyBear, false>;
  using Curve = SWCurve<Cfg>;
  using X = T<Curve>;
  using V = CV<Curve>;
  BabyBear::Init();
  Curve::Init();
  if (!c.Section("BabyBear a!=0")) return;
  Rng& r = c.rng;
  size_t n = c.N(40);
  for (size_t k = 0; k < n && c.TimeLeft(); ++k) {
    Cfg::kA = BabyBear(1 + (uint32_t)r.Below(1000));
    Cfg::kB = BabyBear(1 + (uint32_t)r.Below(1000000));
    std::vector<Pt> pool{Pt()};
    X::FromX(c, r, &pool);
    if (pool.size() < 3) continue;
    size_t m = pool.size();
    for (size_t i = 1; i < m; ++i) {
      pool.push_back(V::Add(pool[i], pool[i]));
      pool.push_back(V::Neg(pool[i]));
    }
    for (int j = 0; j < 30; ++j) {
      Pt p = r.Pick(pool), q = r.Chance(1, 4) ? p : r.Pick(pool);
      X::Pair(c, r, p, q);
    }
  }
}
#endif

}  // namespace

void vh_main(Ctx& c) {
#if VH_SET == 1
  const char* n = "21888242871839275222246405745257275088548364400416034343698204186575808495617";
  Big<bn254::G1Curve>(c, "bn254 g1", n);
  Big<bn254::G2Curve>(c, "bn254 g2", n);
#elif VH_SET == 2
  const char* n = "52435875175126190479447740508185965837690552500527637822603658699938581184513";
  Big<bls12_381::G1Curve>(c, "bls12_381 g1", n);
  Big<bls12_381::G2Curve>(c, "bls12_381 g2", n);
#elif VH_SET == 3
  Big<secp256k1::Curve>(c, "secp256k1", "115792089237316195423570985008687907852837564279074904382605163141518161494337");
  Big<pallas::Curve>(c, "pallas", "28948022309329048855892746252171976963363056481941647379679742748393362948097");
  Big<vesta::Curve>(c, "vesta", "28948022309329048855892746252171976963363056481941560715954676764349967630337");
#else
  GF7::Init();
  Tiny<true>(c);
  Tiny<false>(c);
  Mid(c);
  c.Require("points of order two", 5);
#endif
  c.Require("equal pairs", 5);
  c.Require("opposite pairs", 5);
  c.Require("pairs with the identity", 5);
  c.Require("generic pairs", 5);
}
