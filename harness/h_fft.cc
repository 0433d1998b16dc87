// P10: evaluation domains and (I)FFTs against direct evaluation over GMP.
#include <algorithm>
#include <memory>

#include "tachyon/base/openmp_util.h"
#include "vh/fields.h"
#include "vh/vh.h"
#if VH_SET == 1
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#elif VH_SET == 2
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#else
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fr.h"
#endif
#include "tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h"
#include "tachyon/math/polynomials/univariate/naive_batch_fft.h"
#include "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"

using namespace tachyon::math;
using vh::Ctx;
using vh::Mod;
using vh::PowM;
using vh::Rng;

namespace {

using Zs = std::vector<mpz_class>;

mpz_class Horner(const Zs& c, const mpz_class& x, const mpz_class& p) {
  mpz_class r = 0;
  for (size_t i = c.size(); i-- > 0;) {
    r *= x;
    r += c[i];
    mpz_tdiv_r(r.get_mpz_t(), r.get_mpz_t(), p.get_mpz_t());
  }
  return r;
}

template <typename F>
struct S {
  using V = vh::FV<F>;
  constexpr static size_t kMax = (size_t{1} << 24) - 1;
  using Dom = UnivariateEvaluationDomain<F, kMax>;
  using Evals = typename Dom::Evals;
  using Poly = typename Dom::DensePoly;
  using Coeffs = UnivariateDenseCoefficients<F, kMax>;
  Ctx& c;
  Rng& r;
  const mpz_class& p;
  std::string name;

  S(Ctx& ctx, const std::string& n) : c(ctx), r(ctx.rng), p(V::P()), name(n) {}

  Zs Ints(const std::vector<F>& v) {
    Zs z(v.size());
    for (size_t i = 0; i < v.size(); ++i) z[i] = V::Z(v[i]);
    return z;
  }
  std::vector<F> RandVec(size_t n) {
    std::vector<F> v(n);
    int kind = r.Below(8);
    for (size_t i = 0; i < n; ++i) {
      switch (kind) {
        case 0: v[i] = F::Zero(); break;
        case 1: v[i] = F::One(); break;
        case 2: v[i] = r.Chance(1, 8) ? V::Any(r) : F::Zero(); break;
        case 3: v[i] = V::From(p - 1); break;
        default: v[i] = V::Any(r);
      }
    }
    return v;
  }
  std::unique_ptr<Dom> Make(size_t n, int kind) {
    if (kind == 0) return Radix2EvaluationDomain<F, kMax>::Create(n);
    if constexpr (F::Config::kHasLargeSubgroupRootOfUnity) {
      if (kind == 1) return MixedRadixEvaluationDomain<F, kMax>::Create(n);
      return Dom::Create(n);
    }
    abort();
  }

  // every fact that defines a domain
  void Shape(const Dom& d, size_t asked, const std::string& in,
             const mpz_class& off) {
    auto I = [&] { return in; };
    size_t n = d.size();
    c.CheckF(n >= asked, "domain_fits", I);
    mpz_class w = V::Z(d.group_gen());
    mpz_class nz((unsigned long)n);
    c.CheckF(PowM(w, nz, p) == 1, "generator_order", I);
    mpz_class m = nz;
    for (unsigned q : {2u, 3u, 5u, 7u}) {
      if (n % q == 0)
        c.CheckF(PowM(w, nz / q, p) != 1, "generator_order", I);
      while (m % q == 0) m /= q;
    }
    c.CheckF(m == 1, "size_factors", I);
    c.Eq(V::Z(d.size_as_field_element()), Mod(nz, p), "size_field", I);
    c.Eq(Mod(V::Z(d.size_inv()) * nz, p), mpz_class(1), "size_inv", I);
    c.Eq(Mod(V::Z(d.group_gen_inv()) * w, p), mpz_class(1), "gen_inv", I);
    c.Eq(V::Z(d.offset()), off, "offset", I);
    c.Eq(Mod(V::Z(d.offset_inv()) * off, p), mpz_class(1), "offset_inv", I);
    c.Eq(V::Z(d.offset_pow_size()), PowM(off, nz, p), "offset_pow", I);
    std::vector<F> els = d.GetElements();
    c.CheckF(els.size() == n, "elements", I);
    mpz_class e = off;
    bool ok = true;
    for (size_t i = 0; i < els.size() && ok; ++i) {
      ok = V::Z(els[i]) == e;
      e = Mod(e * w, p);
    }
    c.CheckF(ok, "elements", I);
    for (int k = 0; k < 6; ++k) {
      int64_t i = r.Range(-(int64_t)(2 * n), (int64_t)(2 * n));
      if (k == 0) i = 0;
      int64_t im = ((i % (int64_t)n) + (int64_t)n) % (int64_t)n;
      mpz_class want = Mod(off * PowM(w, mpz_class((long)im), p), p);
      c.Eq(V::Z(d.GetElement(i)), want, "element_i",
           [&] { return in + " i=" + std::to_string(i); });
    }
    // vanishing polynomial
    auto van = d.GetVanishingPolynomial();
    for (int k = 0; k < 4; ++k) {
      mpz_class t = k == 0 ? Mod(off * PowM(w, r.Below(n), p), p)
                           : V::Z(V::Any(r));
      mpz_class want = Mod(PowM(t, nz, p) - PowM(off, nz, p), p);
      F tf = V::From(t);
      c.Eq(V::Z(d.EvaluateVanishingPolynomial(tf)), want, "vanishing", I);
      c.Eq(V::Z(van.Evaluate(tf)), want, "vanishing_poly", I);
    }
    if (n < 64 || r.Chance(1, 4)) {
      F t = d.SampleElementOutsideDomain();
      c.CheckF(PowM(V::Z(t), nz, p) != PowM(off, nz, p), "sample_outside", I);
    }
  }

  void Lagrange(const Dom& d, const std::string& in, const mpz_class& off) {
    size_t n = d.size();
    mpz_class w = V::Z(d.group_gen());
    mpz_class nz((unsigned long)n);
    for (int k = 0; k < 3; ++k) {
      size_t from = 0, to = n;
      if (k > 0 && n > 1) {
        from = r.Below(n);
        to = from + r.Below(n - from + 1);
      }
      mpz_class tau;
      bool inside = r.Chance(1, 2);
      if (inside) {
        tau = Mod(off * PowM(w, r.Below(n), p), p);
      } else {
        do tau = V::Z(V::Any(r));
        while (PowM(tau, nz, p) == PowM(off, nz, p));
      }
      auto I = [&] {
        return in + " tau=" + tau.get_str() + " range=[" +
               std::to_string(from) + "," + std::to_string(to) + ")";
      };
      c.Case("lagrange " + I());
      std::vector<F> got =
          k == 0 ? d.EvaluateAllLagrangeCoefficients(V::From(tau))
                 : d.EvaluatePartialLagrangeCoefficients(
                       V::From(tau), tachyon::base::Range<size_t>(from, to));
      c.CheckF(got.size() == to - from, "lagrange_size", I);
      mpz_class zh = Mod(PowM(tau, nz, p) - PowM(off, nz, p), p);
      bool ok = true;
      size_t bad = 0;
      size_t step = got.size() > 256 ? got.size() / 97 : 1;
      for (size_t i = 0; i < got.size() && ok; i += step) {
        mpz_class x = Mod(off * PowM(w, from + i, p), p);
        mpz_class want;
        if (x == tau) {
          want = 1;
        } else {
          // l_i(tau) = Z(tau) * x_i / (n * off^n * (tau - x_i))
          mpz_class den = Mod(nz * PowM(off, nz, p) % p * (tau - x), p);
          want = Mod(zh * x % p * vh::InvM(den, p), p);
        }
        ok = V::Z(got[i]) == want;
        bad = i;
      }
      c.CheckF(ok, inside ? "lagrange_in_domain" : "lagrange_outside",
               [&] { return I() + " i=" + std::to_string(bad); });
    }
  }

  void Transforms(const Dom& d, const std::string& in, const mpz_class& off) {
    size_t n = d.size();
    mpz_class w = V::Z(d.group_gen());
    for (int k = 0; k < (n <= 64 ? 4 : 2); ++k) {
      size_t len = k == 0 ? n : 1 + r.Below(n);
      if (r.Chance(1, 4)) len = 1 + r.Below(std::min<size_t>(n, 4));
      std::vector<F> co = RandVec(len);
      if (r.Chance(1, 2)) co.back() = V::NonZero(r);
      Zs cz = Ints(co);
      auto I = [&] { return in + " coeffs=" + vh::Show(co); };
      c.Case("fft " + I());
      c.Distinct(vh::HashStr(in + vh::Show(co)));
      c.Sample(I());
      Poly poly(Coeffs(co, true));
      Evals ev;
      if (r.Bool()) {
        ev = d.FFT(poly);
      } else {
        Poly copy = poly;
        ev = d.FFT(std::move(copy));
      }
      if (poly.IsZero()) {
        c.CheckF(ev.IsZero(), "fft_zero", I);
      } else {
        c.CheckF(ev.evaluations().size() == n, "fft_size", I);
        bool ok = ev.evaluations().size() == n;
        size_t bad = 0;
        size_t step = n > 512 ? 1 + r.Below(2 * n / 48) : 1;
        for (size_t i = 0; i < n && ok; i += step) {
          mpz_class x = Mod(off * PowM(w, i, p), p);
          ok = V::Z(ev.evaluations()[i]) == Horner(cz, x, p);
          bad = i;
        }
        c.CheckF(ok, "fft", [&] { return I() + " i=" + std::to_string(bad); });
        c.Count("transforms");
      }
      // inverse of a forward transform
      Poly back = r.Bool() ? d.IFFT(ev) : d.IFFT(Evals(ev));
      c.CheckF(back == poly, "ifft_fft", [&] { return I(); });
      // inverse of arbitrary evaluations, judged by evaluating it again
      std::vector<F> e = RandVec(n);
      auto J = [&] { return in + " evals=" + vh::Show(e); };
      c.Case("ifft " + J());
      Evals evs(e);
      Poly q = r.Bool() ? d.IFFT(evs) : d.IFFT(Evals(evs));
      const auto& qc = q.coefficients().coefficients();
      c.CheckF(qc.size() <= n, "ifft_size", J);
      c.CheckF(qc.empty() || !qc.back().IsZero(), "ifft_trimmed", J);
      Zs qz = Ints(qc);
      bool ok = true;
      size_t bad = 0;
      size_t step = n > 512 ? 1 + r.Below(2 * n / 48) : 1;
      for (size_t i = 0; i < n && ok; i += step) {
        ok = Horner(qz, Mod(off * PowM(w, i, p), p), p) == V::Z(e[i]);
        bad = i;
      }
      c.CheckF(ok, "ifft", [&] { return J() + " i=" + std::to_string(bad); });
    }
  }

  mpz_class Offset() {
    mpz_class o;
    do o = V::Z(V::Any(r));
    while (o == 0);
    return o;
  }

  void Domain(size_t asked, int kind) {
    c.Case(name + " create " + std::to_string(asked));
    auto d = Make(asked, kind);
    std::string in = name + " n=" + std::to_string(d->size()) +
                     (kind == 1 ? " mixed" : kind == 2 ? " factory" : "");
    c.Count("domains");
    if (kind == 0) {
      size_t want = 1;
      while (want < asked) want *= 2;
      c.CheckF(d->size() == want, "radix2_size", [&] { return in; });
    } else if (kind == 1) {
      if constexpr (F::Config::kHasLargeSubgroupRootOfUnity) {
        // smallest admissible 2^a q^b >= asked
        size_t best = SIZE_MAX;
        size_t qb = 1;
        for (size_t b = 0; b <= F::Config::kSmallSubgroupAdicity; ++b) {
          size_t s = qb;
          for (size_t a = 0; a <= F::Config::kTwoAdicity && a < 40; ++a) {
            if (s >= asked) best = std::min(best, s);
            s *= 2;
          }
          qb *= F::Config::kSmallSubgroupBase;
        }
        c.CheckF(d->size() == best, "mixed_size", [&] { return in; });
      }
    }
    Shape(*d, asked, in, 1);
    Lagrange(*d, in, 1);
    Transforms(*d, in, 1);
    mpz_class off = Offset();
    auto cs = d->GetCoset(V::From(off));
    std::string in2 = in + " coset=" + off.get_str();
    Shape(*cs, asked, in2, off);
    Lagrange(*cs, in2, off);
    Transforms(*cs, in2, off);
    // a coset of a coset is the coset of the last offset
    if (d->size() <= 32) {
      mpz_class off2 = Offset();
      auto cc = cs->GetCoset(V::From(off2));
      std::string in3 = in + " coset2=" + off2.get_str();
      Shape(*cc, asked, in3, off2);
      Transforms(*cc, in3, off2);
    }
    Filter(*d, kind);
  }

  void Filter(const Dom& d, int kind) {
    size_t n = d.size();
    if (n < 2 || n > 256) return;
    // subdomain: a coset of a smaller subgroup lying inside d
    size_t m = n;
    do {
      m = kind == 1 ? n / (n % 2 == 0 ? 2 : n) : m / 2;
      if (kind == 1) break;
    } while (m > 1 && r.Bool());
    auto sub0 = Make(m, kind);
    if (sub0->size() != m) return;
    mpz_class w = V::Z(d.group_gen());
    mpz_class off = PowM(w, r.Below(n), p);
    auto sub = r.Bool() ? sub0->GetCoset(V::From(off)) : sub0->GetCoset(F::One());
    off = V::Z(sub->offset());
    std::string in = name + " filter n=" + std::to_string(n) +
                     " m=" + std::to_string(m) + " off=" + off.get_str();
    c.Case(in);
    auto I = [&] { return in; };
    auto f = d.GetFilterPolynomial(*sub);
    mpz_class nz((unsigned long)n), mz((unsigned long)m);
    bool ok = true;
    for (size_t i = 0; i < n && ok; ++i) {
      mpz_class x = PowM(w, i, p);
      bool in_sub = PowM(x, mz, p) == PowM(off, mz, p);
      ok = V::Z(f.Evaluate(V::From(x))) == (in_sub ? 1 : 0);
      auto e = d.EvaluateFilterPolynomial(*sub, V::From(x));
      ok = ok && e.has_value() && V::Z(*e) == (in_sub ? 1 : 0);
    }
    c.CheckF(ok, "filter_on_domain", I);
    for (int k = 0; k < 3; ++k) {
      F t = V::Any(r);
      auto e = d.EvaluateFilterPolynomial(*sub, t);
      c.CheckF(e.has_value() && *e == f.Evaluate(t), "filter_eval", I);
    }
  }

  // ---- matrices -----------------------------------------------------------
  using Mat = RowMajorMatrix<F>;
  Mat RandMat(size_t rows, size_t cols) {
    Mat m(rows, cols);
    for (size_t j = 0; j < cols; ++j) {
      std::vector<F> v = RandVec(rows);
      for (size_t i = 0; i < rows; ++i) m(i, j) = v[i];
    }
    return m;
  }
  // evals of the column interpolant (over the size-rows subgroup) at points
  void CheckColumns(const Mat& coeff_in, const Mat& out, const mpz_class& shift,
                    bool rev, const char* mon, const std::string& in) {
    size_t rows = out.rows(), cols = out.cols();
    auto I = [&] { return in; };
    F gf;
    c.CheckF(F::GetRootOfUnity(rows, &gf), mon, I);
    mpz_class g = V::Z(gf);
    uint32_t lg = 0;
    while ((size_t{1} << lg) < rows) ++lg;
    bool ok = true;
    size_t bi = 0, bj = 0;
    size_t step = rows > 256 ? 1 + r.Below(rows / 24) : 1;
    for (size_t j = 0; j < cols && ok; ++j) {
      Zs co(coeff_in.rows());
      for (size_t i = 0; i < co.size(); ++i) co[i] = V::Z(coeff_in(i, j));
      for (size_t i = 0; i < rows && ok; i += step) {
        size_t src = i;
        if (rev) {
          src = 0;
          for (uint32_t b = 0; b < lg; ++b)
            if (i >> b & 1) src |= size_t{1} << (lg - 1 - b);
        }
        ok = V::Z(out(i, j)) ==
             Horner(co, Mod(shift * PowM(g, src, p), p), p);
        bi = i;
        bj = j;
      }
    }
    c.CheckF(ok, mon, [&] {
      return in + " row " + std::to_string(bi) + " col " + std::to_string(bj) +
             " got " + vh::Show(out(bi, bj)) + " coeffs " +
             vh::Show(std::vector<F>{coeff_in(0, bj), coeff_in(coeff_in.rows() - 1, bj)});
    });
    c.Count("matrix_transforms");
  }

  void Batch(size_t lg) {
    if constexpr (F::Config::kModulusBits <= 32) {
      size_t rows = size_t{1} << lg;
      size_t cols = 1 + r.Below(lg > 8 ? 5 : 40);
      std::string in = name + " rows=" + std::to_string(rows) +
                       " cols=" + std::to_string(cols);
      c.Case("batch " + in);
      auto dom = Radix2EvaluationDomain<F, kMax>::Create(rows);
      Mat co = RandMat(rows, cols);
      c.Distinct(vh::HashStr(in) ^ vh::HashF(co(rows - 1, 0)) ^ r.U64());
      {
        Mat m = co;
        dom->FFTBatch(m);
        CheckColumns(co, m, 1, false, "fft_batch", in);
        c.Case("lde " + in);
        // |m| now holds evaluations: extend them onto a coset
        size_t added = r.Below(lg > 9 ? 2 : 4);
        mpz_class sh = Offset();
        bool rev = r.Bool();
        std::string in2 = in + " added=" + std::to_string(added) +
                          " shift=" + sh.get_str() +
                          " bitrev=" + std::to_string(rev);
        Mat out(rows << added, cols);
        Mat m1 = m;
        dom->CosetLDEBatch(std::move(m1), added, V::From(sh), out, rev);
        CheckColumns(co, out, sh, !rev, "coset_lde", in2);
        Mat out2(rows << added, cols);
        const Mat& cm = m;
        dom->CosetLDEBatch(cm, added, V::From(sh), out2, rev);
        CheckColumns(co, out2, sh, !rev, "coset_lde_copy", in2);
      }
      if (lg <= 7) {
        NaiveBatchFFT<F> nv;
        Mat m = co;
        nv.FFTBatch(m);
        CheckColumns(co, m, 1, false, "naive_fft_batch", in);
        size_t added = r.Below(3);
        mpz_class sh = Offset();
        Mat out(rows << added, cols);
        nv.CosetLDEBatch(m, added, V::From(sh), out);
        CheckColumns(co, out, sh, false, "naive_coset_lde", in);
      }
    }
  }

  // First touches of the per-size twiddle tables in different orders: the
  // answer must not depend on what ran before.
  void History() {
    if constexpr (F::Config::kModulusBits <= 32) {
      if (!c.Section(name + "_history")) return;
      std::vector<size_t> done(14, 0);
      for (size_t k = 0; k < c.N(10, 14); ++k) {
        size_t lg = 1 + r.Below(7);
        size_t added = r.Below(4);
        size_t rows = size_t{1} << lg;
        auto dom = Radix2EvaluationDomain<F, kMax>::Create(rows);
        Mat co = RandMat(rows, 3);
        Mat m = co;
        dom->FFTBatch(m);
        Mat out(rows << added, 3);
        mpz_class sh = Offset();
        dom->CosetLDEBatch(std::move(m), added, V::From(sh), out);
        std::string in = name + " after lde " + std::to_string(lg) + "+" +
                         std::to_string(added);
        CheckColumns(co, out, sh, false, "coset_lde", in);
        c.Case(in + ", fft");
        c.Count("history_steps");
        size_t m2 = rows << added;
        auto d2 = Radix2EvaluationDomain<F, kMax>::Create(m2);
        Transforms(*d2, in + " n=" + std::to_string(m2), 1);
        // the first domain is still usable
        Transforms(*dom, in + " first n=" + std::to_string(rows), 1);
      }
    }
  }

  void Run() {
    History();
    if (c.Section(name + "_radix2")) {
      size_t maxlg = std::min<size_t>(F::Config::kTwoAdicity, c.thorough ? 14 : 11);
      for (size_t lg = 0; lg <= maxlg; ++lg) {
        size_t n = size_t{1} << lg;
        for (size_t rep = 0; rep < c.N(lg <= 6 ? 3 : 1, 6); ++rep)
          Domain(n - (n > 2 ? r.Below(n / 2) : 0), 0);
      }
    }
    if (c.Section(name + "_small")) {
      for (size_t n = 1; n <= 20; ++n) {
        Domain(n, 0);
        if constexpr (F::Config::kHasLargeSubgroupRootOfUnity) Domain(n, 1);
      }
      // all 0/1 coefficient vectors of length 4 on the size-4 domain
      auto d = Make(4, 0);
      for (size_t b = 1; b < 16; ++b) {
        std::vector<F> co(4);
        Zs cz(4);
        for (size_t i = 0; i < 4; ++i) {
          co[i] = (b >> i & 1) ? F::One() : F::Zero();
          cz[i] = b >> i & 1;
        }
        Evals e = d->FFT(Poly(Coeffs(co, true)));
        for (size_t i = 0; i < 4; ++i)
          c.Eq(V::Z(e.evaluations()[i]),
               Horner(cz, PowM(V::Z(d->group_gen()), i, p), p), "fft_tiny",
               [&] { return name + " " + vh::Show(co); });
      }
    }
    if constexpr (F::Config::kHasLargeSubgroupRootOfUnity) {
      if (c.Section(name + "_mixed")) {
        for (size_t k = 0; k < c.N(24, 80); ++k) {
          size_t n = 1 + r.Below(k % 3 == 0 ? 1200 : 120);
          Domain(n, 1);
        }
      }
      if (c.Section(name + "_factory")) {
        for (size_t n : {1u, 2u, 3u, 9u, 27u, 64u, 100u, 511u}) Domain(n, 2);
        size_t lim = size_t{1} << F::Config::kTwoAdicity;
        // beyond the two-adic subgroup the factory has to go mixed radix
        if (lim < 8192) {
          Domain(lim, 2);
          Domain(lim + 1, 2);
        }
      }
    }
    if constexpr (F::Config::kModulusBits <= 32) {
      if (c.Section(name + "_batch"))
        for (size_t lg = 0; lg <= (c.thorough ? 12 : 10); ++lg)
          for (size_t rep = 0; rep < c.N(lg <= 6 ? 4 : 2, 10); ++rep) Batch(lg);
    }
  }
};

}  // namespace

void vh_main(Ctx& ctx) {
#if defined(TACHYON_HAS_OPENMP)
  ctx.Count("omp_threads", omp_get_max_threads());
#endif
#if VH_SET == 1
  BabyBear::Init();
  KoalaBear::Init();
  PackedFieldTraits<BabyBear>::PackedField::Init();
  PackedFieldTraits<KoalaBear>::PackedField::Init();
  S<BabyBear>(ctx, "babybear").Run();
  S<KoalaBear>(ctx, "koalabear").Run();
  ctx.Require("matrix_transforms");
#elif VH_SET == 2
  bn254::Fr::Init();
  bls12_381::Fr::Init();
  Goldilocks::Init();
  S<bn254::Fr>(ctx, "bn254").Run();
  S<bls12_381::Fr>(ctx, "bls381").Run();
  S<Goldilocks>(ctx, "goldilocks").Run();
#else
  bn384_small_two_adicity::Fq::Init();
  bn384_small_two_adicity::Fr::Init();
  S<bn384_small_two_adicity::Fq>(ctx, "bn384fq").Run();
  S<bn384_small_two_adicity::Fr>(ctx, "bn384fr").Run();
#endif
  ctx.Require("fft");
  ctx.Require("ifft");
  ctx.Require("lagrange_outside");
  ctx.Require("filter_on_domain");
}
