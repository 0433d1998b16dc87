// P04: extension fields against schoolbook tower arithmetic over GMP.
#include "vh/exts.h"

#include "absl/hash/hash.h"
#if VH_SET == 1
#include "tachyon/math/elliptic_curves/bn/bn254/fq12.h"
#elif VH_SET == 2
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq12.h"
#else
#include "tachyon/math/circle/m31/fq4.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/goldilocks/internal/goldilocks2.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear4.h"
#include "tachyon/math/finite_fields/test/gf7_2.h"
#include "tachyon/math/finite_fields/test/gf7_3.h"
#endif

using namespace tachyon::math;
using vh::Ctx;
using vh::EV;
using vh::FV;
using vh::Rng;
using vh::ZVec;

#if VH_SET == 1
VH_NONRES(bn254::Fq2, -1)
VH_NONRES(bn254::Fq6, 9, 1)
VH_NONRES(bn254::Fq12, 0, 0, 1, 0, 0, 0)
#elif VH_SET == 2
VH_NONRES(bls12_381::Fq2, -1)
VH_NONRES(bls12_381::Fq6, 1, 1)
VH_NONRES(bls12_381::Fq12, 0, 0, 1, 0, 0, 0)
#else
VH_NONRES(m31::Fq2, -1)
VH_NONRES(m31::Fq4, 2, 1)
VH_NONRES(BabyBear4, 11)
VH_NONRES(KoalaBear4, 3)
VH_NONRES(Goldilocks2, 7)
VH_NONRES(GF7_2, -1)
VH_NONRES(GF7_3, 2)
#endif

namespace {

template <typename F>
struct T {
  using E = EV<F>;
  using B = typename F::BaseField;
  using EB = EV<B>;
  using P = typename F::BasePrimeField;
  static constexpr size_t D = E::D;

  Ctx& c;
  Rng& r;

  bool Is(const F& got, const ZVec& want, const char* m, const std::string& in) {
    return c.CheckF(E::Canonical(got) && E::Z(got) == want, m, [&] {
      return in + " got " + E::S(got) + " want " + vh::ShowZ(want);
    });
  }

  void Ops(const F& a, const F& b) {
    ZVec A = E::Z(a), Bz = E::Z(b);
    std::string in = E::S(a) + " , " + E::S(b);
    c.Distinct(vh::HashStr(in));
    c.Sample(in);
    F x;
    Is(a + b, E::Add(A, Bz), "add", in);
    Is(a.Add(b), E::Add(A, Bz), "add", in);
    x = a;
    Is(x += b, E::Add(A, Bz), "add_in_place", in);
    x = a;
    x += x;
    Is(x, E::Add(A, A), "add_alias", in);
    Is(a - b, E::Sub(A, Bz), "sub", in);
    x = a;
    Is(x -= b, E::Sub(A, Bz), "sub_in_place", in);
    x = a;
    x -= x;
    Is(x, E::Zero(), "sub_alias", in);
    Is(-a, E::Sub(E::Zero(), A), "neg", in);
    x = a;
    Is(x.NegateInPlace(), E::Sub(E::Zero(), A), "neg_in_place", in);
    Is(a.Double(), E::Add(A, A), "double", in);
    x = a;
    Is(x.DoubleInPlace(), E::Add(A, A), "double_in_place", in);
    ZVec AB = E::Mul(A, Bz), AA = E::Mul(A, A);
    Is(a * b, AB, "mul", in);
    Is(a.Mul(b), AB, "mul", in);
    x = a;
    Is(x *= b, AB, "mul_in_place", in);
    x = b;
    Is(x.MulInPlace(a), AB, "mul_in_place", in);
    x = a;
    x *= x;
    Is(x, AA, "mul_alias", in);
    Is(a * a, AA, "mul_same", in);
    Is(a.Square(), AA, "square", in);
    x = a;
    Is(x.SquareInPlace(), AA, "square_in_place", in);
    // base field
    {
      B s = EB::Any(r);
      ZVec S = E::FromBase(EB::Z(s));
      std::string in2 = E::S(a) + " base " + EB::S(s);
      Is(a * s, E::Mul(A, S), "mul_base", in2);
      Is(s * a, E::Mul(A, S), "base_mul", in2);
      x = a;
      Is(x *= s, E::Mul(A, S), "mul_base_in_place", in2);
      Is(F(s), S, "embed_base", in2);
    }
    // inverse / division
    auto inv = a.Inverse();
    x = a;
    auto invp = x.InverseInPlace();
    bool z = A == E::Zero();
    c.CheckF(inv.has_value() == !z && invp.has_value() == !z, "inverse_zero",
             [&] { return in; });
    if (inv && !z) {
      c.CheckF(E::Canonical(*inv) && E::Mul(E::Z(*inv), A) == E::One(), "inverse",
               [&] { return in + " got " + E::S(*inv); });
      c.CheckF(x == *inv && *invp == &x, "inverse_in_place", [&] { return in; });
      auto q = b / a;
      c.CheckF(q.has_value() && E::Mul(E::Z(*q), A) == Bz, "div", [&] { return in; });
      x = b;
      auto qp = x /= a;
      c.CheckF(qp.has_value() && q && x == *q, "div_in_place", [&] { return in; });
      x = a;
      auto qs = x /= x;
      c.CheckF(qs.has_value() && E::Z(x) == E::One(), "div_alias", [&] { return in; });
    } else if (z) {
      c.CheckF(!(b / a).has_value(), "div_zero", [&] { return in; });
      x = b;
      c.CheckF(!(x /= a).has_value(), "div_zero", [&] { return in; });
    }
    // comparisons
    c.CheckF((a == b) == (A == Bz) && (a != b) == (A != Bz), "eq", [&] { return in; });
    int cmp = 0;
    for (size_t i = D; i-- > 0 && cmp == 0;)
      cmp = a[i] < b[i] ? -1 : (a[i] > b[i] ? 1 : 0);
    c.CheckF((a < b) == (cmp < 0) && (a > b) == (cmp > 0) && (a <= b) == (cmp <= 0) &&
                 (a >= b) == (cmp >= 0),
             "order", [&] { return in; });
    c.CheckF((absl::HashOf(a) == absl::HashOf(b)) || A != Bz, "hash", [&] { return in; });
    F copy = E::From(A);
    c.CheckF(copy == a && absl::HashOf(copy) == absl::HashOf(a), "hash", [&] { return in; });
    c.CheckF(a.IsZero() == z && a.IsOne() == (A == E::One()) &&
                 a.IsMinusOne() == (A == E::Sub(E::Zero(), E::One())),
             "is_const", [&] { return in; });
    // coefficients
    {
      std::vector<P> flat;
      for (auto& v : A) flat.push_back(FV<P>::From(v));
      Is(F::FromBasePrimeFields(flat), A, "from_base_prime_fields", in);
      auto arr = a.ToBaseFields();
      bool ok = arr.size() == D;
      for (size_t i = 0; i < D; ++i) ok &= arr[i] == a[i];
      size_t i = 0;
      for (auto it = a.begin(); it != a.end(); ++it, ++i) ok &= i < D && *it == a[i];
      ok &= i == D;
      c.CheckF(ok, "to_base_fields", [&] { return in; });
      x = E::From(E::Zero());
      for (size_t k = 0; k < D; ++k) x[k] = a[k];
      Is(x, A, "index_assign", in);
    }
    // Frobenius
    {
      size_t e = r.Below(3 * E::Deg + 2);
      x = a;
      x.FrobeniusMapInPlace(e);
      Is(x, E::Frob(A, e), "frobenius", in + " e=" + std::to_string(e));
    }
    // norm over the base field
    {
      ZVec n = E::One();
      for (size_t i = 0; i < D; ++i) n = E::Mul(n, E::Frob(A, i * E::BD));
      ZVec got = E::FromBase(EB::Z(a.Norm()));
      c.CheckF(got == n, "norm",
               [&] { return in + " got " + vh::ShowZ(got) + " want " + vh::ShowZ(n); });
    }
    if constexpr (D == 2) {
      ZVec cj = A;
      for (size_t i = E::BD; i < E::Deg; ++i)
        cj[i] = vh::Mod(-cj[i], FV<P>::P());
      Is(a.Conjugate(), cj, "conjugate", in);
      x = a;
      Is(x.ConjugateInPlace(), cj, "conjugate_in_place", in);
    }
    // powers
    {
      uint64_t e = r.U64() >> r.Below(64);
      if (r.Chance(1, 4)) e = r.Below(5);
      if (r.Chance(1, 3) && E::Deg < 6) {
        mpz_class pz = vh::Mod(FV<P>::RandZ(r), FV<P>::P());
        if constexpr (!FV<P>::kSmall)
          Is(a.Pow(vh::ZToBig<P::N>(pz)), E::Pow(A, pz), "pow_big", in + pz.get_str());
      }
      Is(a.Pow(BigInt<1>(e)), E::Pow(A, mpz_class((unsigned long)e)), "pow",
         in + std::to_string(e));
    }
  }

  void Batch() {
    size_t n = r.Below(9);
    std::vector<F> v;
    for (size_t i = 0; i < n; ++i) v.push_back(E::Any(r));
    std::vector<F> w = v, out(n);
    std::string in;
    for (auto& f : v) in += E::S(f);
    c.Check(F::BatchInverseInPlace(w), "batch_inverse_ok", in);
    c.Check(F::BatchInverse(v, &out), "batch_inverse_ok", in);
    for (size_t i = 0; i < n; ++i) {
      ZVec want = v[i].IsZero() ? E::Zero() : E::One();
      ZVec Z = E::Z(v[i]);
      c.CheckF(E::Mul(E::Z(w[i]), Z) == want && (!v[i].IsZero() || w[i].IsZero()),
               "batch_inverse", [&] { return in; });
      c.CheckF(out[i] == w[i], "batch_inverse", [&] { return in; });
    }
    std::vector<F> u;
    ZVec sum = E::Zero();
    for (size_t i = 0; i < n; ++i) {
      u.push_back(E::Any(r));
      sum = E::Add(sum, E::Mul(E::Z(v[i]), E::Z(u[i])));
    }
    if (n) Is(F::SumOfProducts(v, u), sum, "sum_of_products", in);
    if (n) Is(F::SumOfProductsSerial(v, u), sum, "sum_of_products", in);
    F g = E::Any(r);
    auto pw = F::GetSuccessivePowers(n, g);
    ZVec acc = E::One();
    c.Check(pw.size() == n, "powers_size", in);
    for (size_t i = 0; i < n && i < pw.size(); ++i) {
      Is(pw[i], acc, "powers", E::S(g));
      acc = E::Mul(acc, E::Z(g));
    }
  }

  // elements of the cyclotomic subgroup of the quadratic top level
  void Cyclo() {
    if constexpr (D == 2) {
      F f = E::Rand(r);
      if (f.IsZero()) return;
      ZVec Fz = E::Z(f);
      // g = f^(q-1), q = |B|; for degree 12 additionally ^(p^2+1)
      F fi = *f.Inverse();
      ZVec g = E::Mul(E::Frob(Fz, E::BD), E::Z(fi));
      if (E::Deg == 12) g = E::Mul(E::Frob(g, 2), g);
      F x = E::From(g);
      if (r.Chance(1, 10)) {
        x = F::One();
        g = E::One();
      }
      std::string in = E::S(x);
      c.Distinct(vh::HashStr(in));
      Is(x.CyclotomicSquare(), E::Mul(g, g), "cyclo_square", in);
      F y = x;
      Is(y.CyclotomicSquareInPlace(), E::Mul(g, g), "cyclo_square_in_place", in);
      auto i = x.CyclotomicInverse();
      c.CheckF(i && E::Mul(E::Z(*i), g) == E::One(), "cyclo_inverse", [&] { return in; });
      y = x;
      auto ip = y.CyclotomicInverseInPlace();
      c.CheckF(ip && E::Mul(E::Z(y), g) == E::One(), "cyclo_inverse", [&] { return in; });
      uint64_t e = r.U64() >> r.Below(64);
      if (r.Chance(1, 8)) e = ~0ull - r.Below(4);
      if (r.Chance(1, 8)) e = r.Below(8);
      Is(x.CyclotomicPow(BigInt<1>(e)), E::Pow(g, mpz_class((unsigned long)e)),
         "cyclo_pow", in + std::to_string(e));
      mpz_class e2 = (mpz_class((unsigned long)r.U64()) << 64) + mpz_class((unsigned long)e);
      if (E::Deg < 12 || r.Chance(1, 4)) {
        Is(x.CyclotomicPow(vh::ZToBig<2>(e2)), E::Pow(g, e2), "cyclo_pow", in + e2.get_str());
        y = x;
        Is(y.CyclotomicPowInPlace(vh::ZToBig<3>(e2)), E::Pow(g, e2), "cyclo_pow",
           in + e2.get_str());
      }
    }
    F z = F::Zero();
    c.Check(!z.CyclotomicInverse().has_value(), "cyclo_inverse_zero", "0");
    c.Check(z.CyclotomicPow(BigInt<1>(5)).IsZero(), "cyclo_pow_zero", "0");
  }

  void Sparse() {
    if constexpr (E::Deg == 12) {
      using Fq6 = B;
      using Fq2 = typename B::BaseField;
      using E2 = EV<Fq2>;
      F a = E::Any(r);
      Fq2 b0 = E2::Any(r), b1 = E2::Any(r), b2 = E2::Any(r);
      Fq2 o = Fq2::Zero();
      std::string in = E::S(a) + E2::S(b0) + E2::S(b1) + E2::S(b2);
      c.Distinct(vh::HashStr(in));
      F x = a;
      Is(x.MulInPlaceBy034(b0, b1, b2),
         E::Mul(E::Z(a), E::Z(F(Fq6(b0, o, o), Fq6(b1, b2, o)))), "mul_by_034", in);
      x = a;
      Is(x.MulInPlaceBy014(b0, b1, b2),
         E::Mul(E::Z(a), E::Z(F(Fq6(b0, b1, o), Fq6(o, b2, o)))), "mul_by_014", in);
    }
    if constexpr (E::Deg == 6 && D == 3) {
      using E2 = EV<B>;
      F a = E::Any(r);
      B b0 = E2::Any(r), b1 = E2::Any(r), o = B::Zero();
      std::string in = E::S(a) + E2::S(b0) + E2::S(b1);
      F x = a;
      Is(x.MulInPlaceBy1(b1), E::Mul(E::Z(a), E::Z(F(o, b1, o))), "mul_by_1", in);
      x = a;
      Is(x.MulInPlaceBy01(b0, b1), E::Mul(E::Z(a), E::Z(F(b0, b1, o))), "mul_by_01", in);
      // aliasing with the element's own coefficient
    }
  }

  void Consts() {
    Is(F::Zero(), E::Zero(), "consts", "0");
    Is(F::One(), E::One(), "consts", "1");
    Is(F::MinusOne(), E::Sub(E::Zero(), E::One()), "consts", "-1");
    Is(F::TwoInv() + F::TwoInv(), E::One(), "consts", "1/2");
    for (int k : {0, 1, 2, 3, 6}) {
      ZVec w = E::Zero();
      w[0] = vh::Mod(k, FV<P>::P());
      Is(F(k), w, "from_int", std::to_string(k));
    }
    c.Check(F::ExtensionDegree() == E::Deg, "degree", "");
    // sampled elements are canonical
    for (int i = 0; i < 20; ++i) c.Check(E::Canonical(F::Random()), "random_canonical", "");
  }

  // algebra is a field: every non-zero element of the tiny fields
  void Exhaustive() {
    if (FV<P>::P() > 7) return;
    mpz_class q;
    mpz_pow_ui(q.get_mpz_t(), FV<P>::P().get_mpz_t(), E::Deg);
    std::vector<F> all;
    for (unsigned long i = 0; i < q.get_ui(); ++i) {
      ZVec v = E::Zero();
      unsigned long t = i;
      for (auto& x : v) {
        x = t % 7;
        t /= 7;
      }
      all.push_back(E::From(v));
    }
    for (auto& a : all)
      for (auto& b : all) {
        if (all.size() > 100 && !r.Chance(1, 40)) continue;
        Ops(a, b);
      }
    c.Count("exhaustive_tiny_elements", all.size());
  }
};

template <typename F>
void Run(Ctx& c, const char* name, size_t n) {
  F::Init();
  if (!c.Section(name)) return;
  T<F> t{c, c.rng};
  t.Consts();
  n = c.N(n, n * 12);
  for (size_t i = 0; i < n && c.TimeLeft(); ++i) {
    F a = EV<F>::Any(c.rng), b = EV<F>::Any(c.rng);
    if (c.rng.Chance(1, 12)) b = a;
    if (c.rng.Chance(1, 12)) b = EV<F>::From(EV<F>::Sub(EV<F>::Zero(), EV<F>::Z(a)));
    t.Ops(a, b);
    t.Sparse();
    if (i % 4 == 0) t.Cyclo();
    if (i % 4 == 0) t.Batch();
  }
  t.Exhaustive();
}

}  // namespace

void vh_main(Ctx& c) {
#if VH_SET == 1
  Run<bn254::Fq2>(c, "bn254.fq2", 400);
  Run<bn254::Fq6>(c, "bn254.fq6", 150);
  Run<bn254::Fq12>(c, "bn254.fq12", 70);
#elif VH_SET == 2
  Run<bls12_381::Fq2>(c, "bls12_381.fq2", 400);
  Run<bls12_381::Fq6>(c, "bls12_381.fq6", 150);
  Run<bls12_381::Fq12>(c, "bls12_381.fq12", 70);
#else
  Run<m31::Fq2>(c, "m31.fq2", 600);
  Run<m31::Fq4>(c, "m31.fq4", 400);
  Run<BabyBear4>(c, "baby_bear4", 500);
  Run<KoalaBear4>(c, "koala_bear4", 500);
  Run<Goldilocks2>(c, "goldilocks2", 500);
  Run<GF7_2>(c, "gf7_2", 50);
  Run<GF7_3>(c, "gf7_3", 50);
#endif
  for (const char* m : {"mul", "mul_alias", "inverse", "frobenius", "norm",
                        "cyclo_square", "cyclo_pow", "batch_inverse"})
    c.Require(m, 20);
}
