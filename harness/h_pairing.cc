// P09: pairings against powers of one base value, computed over GMP.
#include <array>

#include "tachyon/math/elliptic_curves/pairing/pairing.h"
#include "vh/curves.h"
#include "vh/vh.h"

#if VH_SET == 1
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
VH_NONRES(tachyon::math::bn254::Fq2, -1)
VH_NONRES(tachyon::math::bn254::Fq6, 9, 1)
VH_NONRES(tachyon::math::bn254::Fq12, 0, 0, 1, 0, 0, 0)
#else
#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
VH_NONRES(tachyon::math::bls12_381::Fq2, -1)
VH_NONRES(tachyon::math::bls12_381::Fq6, 1, 1)
VH_NONRES(tachyon::math::bls12_381::Fq12, 0, 0, 1, 0, 0, 0)
#endif

using namespace tachyon::math;
using vh::Ctx;
using vh::CV;
using vh::Mod;
using vh::Rng;
using vh::ZVec;

namespace {

template <typename Curve>
struct T {
  using C1 = typename Curve::G1Curve;
  using C2 = typename Curve::G2Curve;
  using V1 = CV<C1>;
  using V2 = CV<C2>;
  using A1 = typename V1::Aff;
  using A2 = typename V2::Aff;
  using F12 = typename Curve::Fp12;
  using E = vh::EV<F12>;
  using Fr = typename C1::ScalarField;
  using SV = vh::FV<Fr>;
  using Prep = typename Curve::G2Prepared;
  Ctx& c;
  Rng& r;
  mpz_class n;
  ZVec base;
  std::map<std::string, ZVec> pow_cache;

  T(Ctx& c, Rng& r) : c(c), r(r), n(SV::P()) {
    base = E::Z(Single(A1::Generator(), A2::Generator()));
  }
  static F12 Single(const A1& p, const A2& q) {
    A1 a[] = {p};
    A2 b[] = {q};
    return Pairing<Curve>(a, b);
  }
  const ZVec& Pow(const mpz_class& k) {
    mpz_class m = Mod(k, n);
    auto& v = pow_cache[m.get_str(36)];
    if (v.empty()) v = E::Pow(base, m);
    return v;
  }
  A1 G1(const mpz_class& k) {
    return V1::template Mk<A1>(V1::Mul(V1::Gen(), Mod(k, n)), V1::E::One());
  }
  A2 G2(const mpz_class& k) {
    return V2::template Mk<A2>(V2::Mul(V2::Gen(), Mod(k, n)), V2::E::One());
  }
  mpz_class Scalar() {
    switch (r.Below(7)) {
      case 0: return r.Below(4);
      case 1: return n - 1 - r.Below(3);
      case 2: return Mod((n + 1) / 2, n);
      case 3: return r.U64() >> r.Below(64);
      default: return SV::RandZ(r);
    }
  }
  void Is(const F12& got, const ZVec& want, const char* m, const std::string& in) {
    c.CheckF(E::Canonical(got) && E::Z(got) == want, m, [&] {
      return in + " got " + vh::ShowZ(E::Z(got)) + " want " + vh::ShowZ(want);
    });
  }
  void Base() {
    ZVec one = E::One();
    c.CheckF(base != one, "non-degenerate", [] { return "e(G1, G2) = 1"; });
    c.CheckF(E::Pow(base, n) == one, "order r", [] { return "e(G1, G2)^r != 1"; });
    Is(Single(A1::Zero(), A2::Generator()), one, "identity", "e(O, G2)");
    Is(Single(A1::Generator(), A2::Zero()), one, "identity", "e(G1, O)");
    Is(Single(A1::Zero(), A2::Zero()), one, "identity", "e(O, O)");
    std::vector<A1> no1;
    std::vector<A2> no2;
    Is(Pairing<Curve>(no1, no2), one, "empty product", "no pairs");
  }
  void Bilinear(size_t m) {
    for (size_t i = 0; i < m && c.TimeLeft(); ++i) {
      mpz_class a = i < 4 ? mpz_class(i) : i < 7 ? mpz_class(n - (i - 3)) : Scalar();
      mpz_class b = i < 2 ? Scalar() : i < 4 ? mpz_class(1) : Scalar();
      if (i == 5) b = n - 1;
      std::string in = "e(" + a.get_str() + " G1, " + b.get_str() + " G2)";
      c.Case(in);
      c.Distinct(vh::HashStr(in));
      A1 p = G1(a);
      A2 q = G2(b);
      F12 e = Single(p, q);
      Is(e, Pow(a * b), "bilinear", in);
      if (Mod(a * b, n) != 0) {
        c.CheckF(!e.IsOne(), "non-degenerate", [&] { return in; });
        c.Count("pairings of non-identity points");
      }
      // the halves of the definition on their own
      std::vector<A1> ps{p};
      std::vector<Prep> qs{Prep::From(q)};
      c.CheckF(qs[0].infinity() == q.IsZero(), "prepared infinity", [&] { return in; });
      F12 ml = Curve::MultiMillerLoop(ps, qs);
      Is(Curve::FinalExponentiation(ml), Pow(a * b), "Miller loop, final exponentiation", in);
      Is(Pairing<Curve>(ps, qs), Pow(a * b), "prepared point", in);
      Is(Pairing<Curve>(ps, qs), Pow(a * b), "prepared point used again", in);
    }
  }
  void Multi(size_t k) {
    std::vector<A1> ps;
    std::vector<A2> qs;
    std::vector<Prep> pre;
    mpz_class sum = 0;
    std::string in = "pairs " + std::to_string(k) + ":";
    uint64_t kind = r.Below(4);
    F12 prod = F12::One();
    for (size_t i = 0; i < k; ++i) {
      mpz_class a = Scalar(), b = Scalar();
      if (kind == 1 && i) b = 1;
      if (r.Chance(1, 6)) a = 0;
      if (r.Chance(1, 6)) b = 0;
      if (kind == 2 && i + 1 == k && b != 0) {  // make the product one
        mpz_class inv = vh::InvM(Mod(b, n), n);
        a = Mod(-sum * inv, n);
      }
      sum += a * b;
      in += " " + a.get_str() + "*" + b.get_str();
      ps.push_back(G1(a));
      qs.push_back(G2(b));
      pre.push_back(Prep::From(qs.back()));
      if (k < 6) prod *= Single(ps.back(), qs.back());
    }
    c.Case(in);
    c.Distinct(vh::HashStr(in));
    F12 e = Pairing<Curve>(ps, qs);
    Is(e, Pow(sum), "multi-pairing", in);
    Is(Pairing<Curve>(ps, pre), Pow(sum), "multi-pairing of prepared points", in);
    if (k < 6) Is(e, E::Z(prod), "product of single pairings", in);
    if (k && Mod(sum, n) == 0) c.Count("products that cancel");
    c.Count("multi-pairings");
  }
  // f -> f^(k (q^12 - 1) / r) with the cofactor k of the published formula
  void FinalExp(size_t m) {
    mpz_class q = vh::FV<typename C1::BaseField>::P(), q12 = 1;
    for (int i = 0; i < 12; ++i) q12 *= q;
    mpz_class x = vh::BigToZ(Curve::Config::kX);
    if (Curve::Config::kXIsNegative) x = -x;
#if VH_SET == 1
    mpz_class cof = 2 * x * (6 * x * x + 3 * x + 1);
#else
    mpz_class cof = 3;
#endif
    mpz_class exp = (q12 - 1) / n * cof;
    Is(Curve::FinalExponentiation(F12::One()), E::One(), "final exponentiation", "1");
    for (size_t i = 0; i < m && c.TimeLeft(); ++i) {
      F12 f = i == 0 ? -F12::One() : r.Bool() ? E::Any(r) : E::Rand(r);
      if (f.IsZero()) continue;
      std::string in = vh::ShowZ(E::Z(f));
      c.Case(in);
      c.Distinct(vh::HashStr(in));
      Is(Curve::FinalExponentiation(f), E::Pow(E::Z(f), exp), "final exponentiation", in);
    }
  }
};

}  // namespace

void vh_main(Ctx& c) {
#if VH_SET == 1
  using Curve = bn254::BN254Curve;
  std::string n = "bn254";
#else
  using Curve = bls12_381::BLS12_381Curve;
  std::string n = "bls12_381";
#endif
  Curve::Init();
  Curve::G1Curve::Init();
  Curve::G2Curve::Init();
  if (c.Section(n + " single")) {
    T<Curve> t(c, c.rng);
    t.Base();
    t.Bilinear(c.N(25, 200));
  }
  if (c.Section(n + " multi")) {
    T<Curve> t(c, c.rng);
    for (size_t k : {1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 17}) t.Multi(k);
    size_t m = c.N(6, 100);
    for (size_t i = 0; i < m && c.TimeLeft(); ++i) t.Multi(1 + t.r.Below(12));
  }
  if (c.Section(n + " final exponentiation")) {
    T<Curve> t(c, c.rng);
    t.FinalExp(c.N(3, 20));
  }
  c.Require("pairings of non-identity points", 10);
  c.Require("multi-pairings", 8);
  c.Require("final exponentiation", 2);
}
