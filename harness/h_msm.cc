// P08: scalar and multi-scalar multiplication against sums of known multiples.
#include <algorithm>
#include <list>

#include "tachyon/base/openmp_util.h"
#include "tachyon/math/elliptic_curves/msm/algorithms/pippenger/pippenger_adapter.h"
#include "tachyon/math/elliptic_curves/msm/fixed_base_msm.h"
#include "tachyon/math/elliptic_curves/msm/glv.h"
#include "tachyon/math/elliptic_curves/msm/variable_base_msm.h"
#include "tachyon/math/geometry/point_conversions.h"
#include "vh/curves.h"
#include "vh/vh.h"

#if VH_SET == 1
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g2.h"
VH_NONRES(tachyon::math::bn254::Fq2, -1)
#elif VH_SET == 2
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g2.h"
VH_NONRES(tachyon::math::bls12_381::Fq2, -1)
#else
#include "tachyon/math/elliptic_curves/pasta/pallas/curve.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/curve.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/test/sw_curve_config.h"
#endif

using namespace tachyon::math;
using vh::Ctx;
using vh::CV;
using vh::Mod;
using vh::Pt;
using vh::Rng;
using vh::ZVec;

namespace {

template <typename Curve>
struct S {
  using V = CV<Curve>;
  using Fr = typename Curve::ScalarField;
  using SV = vh::FV<Fr>;
  using Big = typename Fr::BigIntTy;
  using Aff = typename V::Aff;
  using Jac = typename V::Jac;
  using Prj = typename V::Prj;
  using Xyz = typename V::Xyz;
  constexpr static bool kTiny = Fr::Config::kModulusBits < 16;

  struct Base {
    Pt p;
    mpz_class k;  // p = k * generator
  };
  Ctx& c;
  Rng& r;
  mpz_class n;
  std::vector<Base> pool;
  // doubling ladder of the generator, so that k * generator costs only adds
  std::vector<Pt> ladder;

  S(Ctx& c, Rng& r) : c(c), r(r), n(SV::P()) {
    Pt g = V::Gen();
    for (size_t i = 0; i < 260; ++i) {
      ladder.push_back(g);
      g = V::Add(g, g);
    }
  }
  Pt G(mpz_class k) const {
    k = Mod(k, n);
    Pt q;
    for (size_t i = 0; i < mpz_sizeinbase(k.get_mpz_t(), 2); ++i)
      if (mpz_tstbit(k.get_mpz_t(), i)) q = V::Add(q, ladder[i]);
    return q;
  }
  void AddBase(const mpz_class& k) { pool.push_back({G(k), Mod(k, n)}); }
  void MakePool(size_t m) {
    for (int k : {0, 1, 2, 3, 4}) AddBase(k);
    for (int k : {1, 2, 3}) AddBase(n - k);
    while (pool.size() < m) {
      mpz_class k = SV::RandZ(r);
      AddBase(k);
      if (r.Chance(1, 4)) AddBase(n - k);
      if (r.Chance(1, 4)) AddBase(2 * k);
    }
  }
  mpz_class Scalar() {
    mpz_class one = 1;
    size_t b = Fr::Config::kModulusBits;
    switch (r.Below(12)) {
      case 0: return r.Below(4);
      case 1: return Mod(n - 1 - r.Below(4), n);
      case 2: return Mod((n + (long)r.Below(3) - 1) / 2, n);
      case 3: return Mod(one << r.Below(b), n);
      case 4: return Mod((one << r.Below(b + 1)) - 1, n);
      case 5: return Mod(mpz_class(r.Below(1000)), n);
      case 6: {  // the same window digit everywhere
        size_t w = 2 + r.Below(14);
        uint64_t d = r.Below(4) == 0   ? (uint64_t{1} << w) - 1
                     : r.Below(3) == 0 ? (uint64_t{1} << (w - 1))
                     : r.Bool()        ? (uint64_t{1} << (w - 1)) - 1
                                       : r.Below(uint64_t{1} << w);
        mpz_class v = 0;
        for (size_t i = 0; i * w < b; ++i) v = (v << w) + d;
        return Mod(v, one << (b - 1));
      }
      case 7: return Mod(SV::RandZ(r) >> r.Below(b), n);
      case 8: return Mod(SV::RandZ(r) << r.Below(b), n);
      default: return SV::RandZ(r);
    }
  }
  template <typename P>
  P Mk(const Pt& p) {
    return V::template Mk<P>(p, V::Scale(r));
  }
  template <typename P>
  void Is(const P& got, const Pt& want, const std::string& m,
          const std::string& in) {
    c.CheckF(V::Of(got) == want && V::Good(got), m.c_str(), [&] {
      return in + " got " + V::Of(got).ToString() + " want " + want.ToString();
    });
  }
  template <typename P>
  static std::string Name() {
    if constexpr (std::is_same_v<P, Jac>) return "jac ";
    else if constexpr (std::is_same_v<P, Prj>) return "proj ";
    else if constexpr (std::is_same_v<P, Xyz>) return "xyzz ";
    else return "aff ";
  }

  template <typename P>
  void Single(const Base& b, const mpz_class& s) {
    std::string nm = Name<P>();
    P p = Mk<P>(b.p);
    Pt want = G(b.k * s);
    Fr f = SV::From(s);
    std::string in = b.p.ToString() + " * " + s.get_str();
    Is(p * f, want, nm + "P*s", in);
    Is(p.ScalarMul(f), want, nm + "ScalarMul(field)", in);
    Is(p.ScalarMul(f.ToBigInt()), want, nm + "ScalarMul(bigint)", in);
    Is(f * p, want, nm + "s*P", in);
    if constexpr (!std::is_same_v<P, Aff>) {
      P q = p;
      q *= f;
      Is(q, want, nm + "P*=s", in);
    }
    uint64_t small = s.get_ui();
    Is(p.ScalarMul(small), G(b.k * mpz_class((unsigned long)small)),
       nm + "ScalarMul(u64)", in);
    // exponents that are not reduced
    BigInt<5> big = BigInt<5>::Zero();
    mpz_class z = 0;
    for (size_t i = 0; i < 5; ++i) {
      big[i] = r.Chance(1, 4) ? ~uint64_t{0} : r.Chance(1, 3) ? 0 : r.U64();
      mpz_class t = (unsigned long)big[i];
      z += t << (64 * i);
    }
    Is(p.ScalarMul(big), G(b.k * z), nm + "ScalarMul(unreduced)",
       b.p.ToString() + " * " + z.get_str());
  }
  template <typename P>
  void Const(const Base& b) {
    std::string nm = Name<P>() + "ConstScalarMul", in = b.p.ToString();
    P p = Mk<P>(b.p);
    Is(p.template ConstScalarMul<0>(), G(0), nm, in + "*0");
    Is(p.template ConstScalarMul<1>(), G(b.k), nm, in + "*1");
    Is(p.template ConstScalarMul<2>(), G(b.k * 2), nm, in + "*2");
    Is(p.template ConstScalarMul<3>(), G(b.k * 3), nm, in + "*3");
    Is(p.template ConstScalarMul<4>(), G(b.k * 4), nm, in + "*4");
    Is(p.template ConstScalarMul<5>(), G(b.k * 5), nm, in + "*5");
    Is(p.template ConstScalarMul<6>(), G(b.k * 6), nm, in + "*6");
    Is(p.template ConstScalarMul<7>(), G(b.k * 7), nm, in + "*7");
    Is(p.template ConstScalarMul<8>(), G(b.k * 8), nm, in + "*8");
    Is(p.template ConstScalarMul<1000003>(), G(b.k * 1000003), nm,
       in + "*1000003");
  }
  template <typename P>
  void Many(size_t m) {
    std::string nm = Name<P>();
    using R = typename AdditiveSemigroup<P>::AddResult;
    std::vector<P> ps;
    std::vector<mpz_class> ks, ss;
    std::vector<Fr> fs;
    for (size_t i = 0; i < m; ++i) {
      const Base& b = pool[r.Below(pool.size())];
      ps.push_back(Mk<P>(b.p));
      ks.push_back(b.k);
      ss.push_back(Scalar());
      fs.push_back(SV::From(ss.back()));
    }
    std::string in = "n=" + std::to_string(m);
    std::vector<R> out(m);
    c.CheckF(P::MultiScalarMul(fs, ps, &out), "MultiScalarMul accepts", [&] { return in; });
    for (size_t i = 0; i < m; ++i)
      Is(out[i], G(ks[i] * ss[i]), nm + "many scalars, many bases", in);
    c.CheckF(P::MultiScalarMul(fs, ps[0], &out), "MultiScalarMul accepts", [&] { return in; });
    for (size_t i = 0; i < m; ++i)
      Is(out[i], G(ks[0] * ss[i]), nm + "many scalars, one base", in);
    c.CheckF(P::MultiScalarMul(fs[0], ps, &out), "MultiScalarMul accepts", [&] { return in; });
    for (size_t i = 0; i < m; ++i)
      Is(out[i], G(ks[i] * ss[0]), nm + "one scalar, many bases", in);
    std::vector<R> bad(m + 1);
    c.CheckF(!P::MultiScalarMul(fs, ps, &bad) && !P::MultiScalarMul(fs, ps[0], &bad) &&
                 !P::MultiScalarMul(fs[0], ps, &bad),
             "length mismatch refused", [&] { return in; });
    if constexpr (std::is_same_v<P, R>) {
      mpz_class fw = 0, bw = 0;
      for (size_t i = 0; i < m; ++i) fw = Mod(fw * ss[0] + ks[i], n);
      for (size_t i = m; i-- > 0;) bw = Mod(bw * ss[0] + ks[i], n);
      Is(P::template LinearCombination<true>(ps, fs[0]), G(fw),
         nm + "linear combination", in);
      Is(P::template LinearCombination<false>(ps, fs[0]), G(bw),
         nm + "linear combination", in);
      auto t = ps;
      Is(P::template LinearCombinationInPlace<true>(t, fs[0]), G(fw),
         nm + "linear combination in place", in);
      t = ps;
      Is(P::template LinearCombinationInPlace<false>(t, fs[0]), G(bw),
         nm + "linear combination in place", in);
      std::vector<P> su = P::GetSuccessiveScalarMuls(m, ps[0]);
      c.CheckF(su.size() == m, "successive multiples length", [&] { return in; });
      for (size_t i = 0; i < m && i < su.size(); ++i)
        Is(su[i], G(ks[0] * (unsigned long)i), nm + "successive multiples", in);
    }
    c.Count("batches of scalar multiplications");
  }

  // endomorphism-accelerated multiplication
  template <typename P>
  void Glv(const Base& b, const mpz_class& s) {
    using L = GLV<P>;
    std::string nm = Name<P>();
    P p = Mk<P>(b.p);
    mpz_class lam = SV::Z(Curve::Config::kLambda);
    std::string in = b.p.ToString() + " * " + s.get_str();
    Is(L::Endomorphism(p), G(b.k * lam), nm + "endomorphism", in);
    Fr f = SV::From(s);
    auto d = L::Decompose(f);
    mpz_class k1 = d.k1.ToValue(), k2 = d.k2.ToValue();
    c.CheckF(Mod(k1 + lam * k2, n) == s, "GLV decomposition", [&] {
      return s.get_str() + " -> " + k1.get_str() + ", " + k2.get_str();
    });
    size_t half = (mpz_sizeinbase(n.get_mpz_t(), 2) + 1) / 2 + 3;
    c.CheckF(mpz_sizeinbase(k1.get_mpz_t(), 2) <= half &&
                 mpz_sizeinbase(k2.get_mpz_t(), 2) <= half,
             "GLV decomposition is short", [&] {
               return s.get_str() + " -> " + k1.get_str() + ", " + k2.get_str();
             });
    Is(L::Mul(p, f), G(b.k * s), nm + "GLV multiplication", in);
    if (k1 < 0) c.Count("negative k1");
    if (k2 < 0) c.Count("negative k2");
    if (mpz_size(k1.get_mpz_t()) != mpz_size(k2.get_mpz_t()))
      c.Count("halves of different length");
  }
  void AllGlv(size_t m) {
    mpz_class lam = SV::Z(Curve::Config::kLambda);
    for (size_t i = 0; i < m; ++i) {
      mpz_class s = Scalar();
      const Base& b = pool[r.Below(pool.size())];
      if (r.Chance(1, 2)) {
        // scalars whose halves are of very different size
        mpz_class a = r.Below(3) == 0 ? mpz_class(r.Below(4)) : SV::RandZ(r) >> (n.get_ui() % 2 + 128 + r.Below(126));
        mpz_class e = r.Below(3) == 0 ? mpz_class(r.Below(4)) : SV::RandZ(r) >> (128 + r.Below(126));
        if (r.Bool()) a = -a;
        if (r.Bool()) e = -e;
        s = Mod(a + lam * e, n);
      }
      c.Distinct(vh::HashStr("glv" + b.k.get_str() + "*" + s.get_str()));
      Glv<Jac>(b, s);
      if (i % 4 == 0) {
        Glv<Aff>(b, s);
        Glv<Prj>(b, s);
        Glv<Xyz>(b, s);
      }
    }
  }

  template <typename P>
  void Fixed(size_t reset, size_t m) {
    const Base& b = pool[r.Below(pool.size())];
    FixedBaseMSM<P> msm;
    msm.Reset(r.Below(50), Mk<P>(pool[r.Below(pool.size())].p));
    msm.Reset(reset, Mk<P>(b.p));
    std::string nm = Name<P>(),
                in = b.p.ToString() + " Reset(" + std::to_string(reset) + ")";
    using R = typename FixedBaseMSM<P>::AddResult;
    std::vector<Fr> fs;
    std::vector<Pt> want;
    for (size_t i = 0; i < m; ++i) {
      mpz_class s = Scalar();
      fs.push_back(SV::From(s));
      want.push_back(G(b.k * s));
      c.Distinct(vh::HashStr("fixed" + std::to_string(reset) + "," + b.k.get_str() + "*" + s.get_str()));
      Is(msm.ScalarMul(fs[i]), want[i], nm + "fixed base ScalarMul", in + " * " + s.get_str());
    }
    std::vector<R> o1(m), o2(m);
    c.CheckF(msm.Run(fs, &o1), "fixed base Run accepts", [&] { return in; });
    c.CheckF(msm.RunSerial(fs, o2), "fixed base RunSerial accepts", [&] { return in; });
    for (size_t i = 0; i < m; ++i) {
      Is(o1[i], want[i], nm + "fixed base Run", in + " scalar " + std::to_string(i));
      Is(o2[i], want[i], nm + "fixed base RunSerial", in + " scalar " + std::to_string(i));
    }
    std::list<Fr> lf(fs.begin(), fs.end());
    std::list<R> lo(m);
    c.CheckF(msm.Run(lf, &lo), "fixed base Run on lists accepts", [&] { return in; });
    size_t i = 0;
    for (auto& x : lo) {
      Is(x, want[i], nm + "fixed base Run on lists", in);
      ++i;
    }
    std::vector<R> bad(m + 1);
    c.CheckF(!msm.Run(fs, &bad) && !msm.RunSerial(fs, bad),
             "length mismatch refused", [&] { return in; });
    c.Count("fixed-base tables");
  }

  // every variable-base algorithm on one input
  template <typename P>
  void Var(size_t m, int kind) {
    std::vector<P> ps;
    std::vector<Fr> fs;
    mpz_class sum = 0;
    size_t nb = r.Bool() ? pool.size() : 1 + r.Below(4);
    size_t off = r.Below(pool.size());
    mpz_class fixed = Scalar();
    uint64_t h = m;
    std::string first;
    for (size_t i = 0; i < m; ++i) {
      const Base& b = pool[(off + r.Below(nb)) % pool.size()];
      mpz_class s = kind == 0   ? mpz_class(SV::RandZ(r))
                    : kind == 1 ? Scalar()
                    : kind == 2 ? fixed
                    : kind == 3 ? mpz_class(r.Below(3))
                    : kind == 4 ? Mod(n - 1 - r.Below(3), n)
                                : mpz_class(0);
      if (kind == 5 && r.Chance(1, 8)) s = Scalar();
      ps.push_back(V::template Mk<P>(b.p, i < 64 ? V::Scale(r) : V::E::One()));
      fs.push_back(SV::From(s));
      sum += b.k * s;
      h = vh::Mix(h ^ vh::HashStr(b.k.get_str() + s.get_str()));
      if (i < 4) first += " " + b.k.get_str() + "*" + s.get_str();
    }
    c.Distinct(h);
    Pt want = G(sum);
    std::string nm = Name<P>(),
                in = "n=" + std::to_string(m) + " kind=" + std::to_string(kind) +
                     " (base dlog * scalar)" + first;
    c.Case(in);
    using Bucket = typename VariableBaseMSM<P>::Bucket;
    Bucket out = Bucket::Generator();
    VariableBaseMSM<P> v;
    c.CheckF(v.Run(ps, fs, &out), "variable base Run accepts", [&] { return in; });
    Is(out, want, nm + "variable base", in);
    out = Bucket::Generator();
    c.CheckF(v.Run(absl::Span<const P>(ps), absl::Span<const Fr>(fs), &out),
             "variable base Run accepts", [&] { return in; });
    Is(out, want, nm + "variable base on spans", in);
    for (bool naf : {false, true})
      for (bool par : {false, true}) {
        Pippenger<P> pip;
        pip.SetUseMSMWindowNAForTesting(naf);
        pip.SetParallelWindows(par);
        out = Bucket::Generator();
        c.CheckF(pip.Run(ps.begin(), ps.end(), fs.begin(), fs.end(), &out),
                 "Pippenger accepts", [&] { return in; });
        Is(out, want, nm + (naf ? "NAF" : "plain") + (par ? " parallel" : " serial") + " buckets", in);
      }
    using PS = PippengerParallelStrategy;
    int k = 0;
    for (PS ps2 : {PS::kNone, PS::kParallelWindow, PS::kParallelTerm,
                   PS::kParallelWindowAndTerm}) {
      static const char* names[] = {"none", "window", "term", "window and term"};
      PippengerAdapter<P> a;
      out = Bucket::Generator();
      c.CheckF(a.RunWithStrategy(ps.begin(), ps.end(), fs.begin(), fs.end(), ps2, &out),
               "strategy accepts", [&] { return in; });
      Is(out, want, nm + "strategy " + names[k++], in);
    }
    if (m) {
      c.CheckF(!v.Run(ps.begin(), ps.end(), fs.begin(), fs.end() - 1, &out) &&
                   !v.Run(ps.begin(), ps.end() - 1, fs.begin(), fs.end(), &out),
               "length mismatch refused", [&] { return in; });
      Pippenger<P> pip;
      c.CheckF(!pip.Run(ps.begin(), ps.end(), fs.begin(), fs.end() - 1, &out),
               "length mismatch refused", [&] { return in; });
    }
    c.Count("multi-scalar inputs");
  }
  template <typename P>
  void Vars(size_t reps, std::initializer_list<size_t> sizes) {
    for (size_t m : sizes)
      for (size_t k = 0; k < reps && c.TimeLeft(); ++k)
        Var<P>(m, r.Below(6));
  }
};

template <typename Curve, bool G2 = false, bool HasGlv = true>
void All(Ctx& c, const std::string& name) {
  Curve::Init();
  Curve::ScalarField::Init();
  if (c.Section(name + " single")) {
    S<Curve> s(c, c.rng);
    using V = typename S<Curve>::V;
    s.MakePool(30);
    size_t m = c.N(30, 400);
    for (size_t i = 0; i < m && c.TimeLeft(); ++i) {
      const auto& b = s.pool[i < s.pool.size() ? i : s.r.Below(s.pool.size())];
      mpz_class k = s.Scalar();
      c.Distinct(vh::HashStr(b.k.get_str() + "*" + k.get_str()));
      c.Case(b.k.get_str() + "*" + k.get_str());
      s.template Single<typename V::Aff>(b, k);
      s.template Single<typename V::Jac>(b, k);
      s.template Single<typename V::Prj>(b, k);
      s.template Single<typename V::Xyz>(b, k);
      if (i % 4 == 0) {
        s.template Const<typename V::Aff>(b);
        s.template Const<typename V::Jac>(b);
        s.template Const<typename V::Prj>(b);
        s.template Const<typename V::Xyz>(b);
      }
    }
    for (size_t sz : {1, 2, 7, 40}) {
      s.template Many<typename V::Aff>(sz);
      s.template Many<typename V::Jac>(sz);
      if (!G2 || c.thorough) {
        s.template Many<typename V::Prj>(sz);
        s.template Many<typename V::Xyz>(sz);
      }
    }
  }
  if constexpr (HasGlv) {
    if (c.Section(name + " GLV")) {
      S<Curve> s(c, c.rng);
      s.MakePool(16);
      s.AllGlv(c.N(G2 ? 30 : 80, 2000));
    }
  }
  if (c.Section(name + " fixed base")) {
    S<Curve> s(c, c.rng);
    using V = typename S<Curve>::V;
    s.MakePool(16);
    for (size_t reset : {0, 1, 5, 31, 32, 33, 64, 100, 300, 1000, 3000}) {
      if (reset > 100 && G2 && !c.thorough) continue;
      c.Case("reset " + std::to_string(reset));
      s.template Fixed<typename V::Aff>(reset, c.N(6, 60));
      if (reset < 100 || c.thorough) {
        s.template Fixed<typename V::Jac>(reset, c.N(3, 60));
        if (!G2) s.template Fixed<typename V::Prj>(reset, c.N(3, 60));
        if (!G2) s.template Fixed<typename V::Xyz>(reset, c.N(3, 60));
      }
    }
  }
  if (c.Section(name + " variable base")) {
    S<Curve> s(c, c.rng);
    using V = typename S<Curve>::V;
    s.MakePool(40);
    size_t k = c.N(2, 20);
    s.template Vars<typename V::Aff>(k, {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 31, 32, 33, 64, 100});
    if (!G2 || c.thorough) s.template Vars<typename V::Aff>(1, {257, 600});
    if (c.thorough) s.template Vars<typename V::Aff>(2, {1024, 3000, 8192});
    s.template Vars<typename V::Jac>(k, {0, 1, 2, 5, 33});
    if (!G2 || c.thorough) {
      s.template Vars<typename V::Prj>(k, {0, 1, 2, 5, 33});
      s.template Vars<typename V::Xyz>(k, {0, 1, 2, 5, 33});
    }
  }
}

}  // namespace

void vh_main(Ctx& c) {
#if VH_SET == 1
  All<bn254::G1Curve>(c, "bn254 g1");
  All<bn254::G2Curve, true>(c, "bn254 g2");
#elif VH_SET == 2
  All<bls12_381::G1Curve>(c, "bls12_381 g1");
  All<bls12_381::G2Curve, true>(c, "bls12_381 g2");
#else
  All<secp256k1::Curve, false, false>(c, "secp256k1");
  All<pallas::Curve, false, false>(c, "pallas");
  GF7::Init();
  All<test::G1Curve, false, false>(c, "GF7 curve");
#endif
  c.Require("multi-scalar inputs", 50);
  c.Require("fixed-base tables", 8);
#if VH_SET != 3
  c.Require("GLV decomposition", 30);
  c.Require("halves of different length", 1);
#endif
}
