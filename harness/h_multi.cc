// P12: multilinear extensions, sparse multivariate polynomials, products of
// multilinear extensions and the sumcheck protocol over them, against their
// definitions over GMP.
#include <algorithm>
#include <functional>
#include <map>
#include <set>

#include "absl/hash/hash.h"
#include "tachyon/base/openmp_util.h"
#include "tachyon/crypto/sumcheck/multilinear/multilinear_sumcheck.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/polynomials/multivariate/linear_combination.h"
#include "tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
#include "tachyon/math/polynomials/multivariate/multivariate_polynomial.h"
#include "vh/polys.h"
#include "vh/vh.h"

using namespace tachyon::math;
namespace crypto = tachyon::crypto;
using vh::Ctx;
using vh::Mod;
using vh::Rng;
using ZV = std::vector<mpz_class>;

namespace {

std::string Sh(const ZV& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < 20; ++i) s += (i ? "," : "") + v[i].get_str(16);
  return s + "]#" + std::to_string(v.size());
}

// value of the multilinear extension of a table at a point: the definition
mpz_class MleEval(const ZV& t, const ZV& x, const mpz_class& p) {
  mpz_class r = 0;
  for (size_t i = 0; i < t.size(); ++i) {
    mpz_class w = t[i];
    for (size_t j = 0; j < x.size() && w != 0; ++j)
      w = Mod(w * (((i >> j) & 1) ? x[j] : Mod(1 - x[j], p)), p);
    r += w;
  }
  return Mod(r, p);
}
ZV MleFix(const ZV& t, const ZV& x, const mpz_class& p) {
  ZV r(t.size() >> x.size());
  for (size_t h = 0; h < r.size(); ++h) {
    ZV low(t.begin() + (h << x.size()), t.begin() + ((h + 1) << x.size()));
    r[h] = MleEval(low, x, p);
  }
  return r;
}
mpz_class Lagrange(const ZV& v, const mpz_class& x, const mpz_class& p) {
  mpz_class r = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    mpz_class n = v[i], d = 1;
    for (size_t j = 0; j < v.size(); ++j) {
      if (j == i) continue;
      n = Mod(n * (x - mpz_class(j)), p);
      d = Mod(d * (mpz_class(i) - mpz_class(j)), p);
    }
    r += n * vh::InvM(d, p);
  }
  return Mod(r, p);
}

template <typename F, size_t MaxDegree>
struct M {
  using V = vh::FV<F>;
  using E = MultilinearDenseEvaluations<F, MaxDegree>;
  using X = MultilinearExtension<E>;
  using LC = LinearCombination<E>;
  Ctx& c;
  Rng& r;
  const mpz_class& p;
  std::string name;
  M(Ctx& ctx, const std::string& n) : c(ctx), r(ctx.rng), p(V::P()), name(n) {}

  std::vector<F> To(const ZV& z) {
    std::vector<F> v;
    for (auto& x : z) v.push_back(V::From(x));
    return v;
  }
  ZV From(const std::vector<F>& v) {
    ZV z;
    for (auto& x : v) z.push_back(V::Z(x));
    return z;
  }
  ZV Table(size_t k) {
    ZV t(size_t{1} << k);
    int kind = r.Below(5);
    for (auto& x : t) {
      switch (kind) {
        case 0: x = r.Below(2); break;
        case 1: x = Mod(-mpz_class(r.Below(2)), p); break;
        case 2: x = r.Chance(1, 8) ? V::Z(V::Any(r)) : mpz_class(0); break;
        default: x = V::Z(V::Any(r));
      }
    }
    return t;
  }
  ZV Point(size_t k) {
    ZV x(k);
    int kind = r.Below(4);
    for (auto& e : x) e = kind == 0 ? mpz_class(r.Below(2)) : V::Z(V::Any(r));
    return x;
  }
  // as a normal form: the zero polynomial may be empty
  bool Same(const E& e, const ZV& want) {
    ZV g = From(e.evaluations());
    bool zero = std::all_of(want.begin(), want.end(), [](auto& x) { return x == 0; });
    if (g.empty()) return zero;
    return want.empty() ? std::all_of(g.begin(), g.end(), [](auto& x) { return x == 0; }) : g == want;
  }
  void Is(const X& got, const ZV& want, const char* mon, const std::string& in) {
    c.CheckF(Same(got.evaluations(), want), mon, [&] {
      return in + " got " + Sh(From(got.evaluations().evaluations())) + " want " + Sh(want);
    });
  }

  void Unary(const ZV& t) {
    size_t k = 0;
    while ((size_t{1} << k) < t.size()) ++k;
    std::string in = name + " t=" + Sh(t);
    c.Case("mle " + in);
    auto I = [&] { return in; };
    E e(To(t));
    X x(e);
    c.CheckF(x.Degree() == k, "degree", I);
    bool zero = std::all_of(t.begin(), t.end(), [](auto& v) { return v == 0; });
    bool one = std::all_of(t.begin(), t.end(), [](auto& v) { return v == 1; });
    c.CheckF(x.IsZero() == zero && x.IsOne() == one, "zero_one", I);
    c.CheckF((x == X::Zero()) == zero && (X::Zero() == x) == zero && (x != X::Zero()) == !zero, "eq_zero", I);
    if (zero)
      c.CheckF(absl::HashOf(x) == absl::HashOf(X::Zero()), "hash_zero", I);
    for (int q = 0; q < 3; ++q) {
      ZV pt = Point(k);
      c.Eq(V::Z(x.Evaluate(To(pt))), MleEval(t, pt, p), "evaluate", [&] { return in + " x=" + Sh(pt); });
    }
    {
      size_t i = r.Below(t.size());
      ZV pt(k);
      for (size_t j = 0; j < k; ++j) pt[j] = (i >> j) & 1;
      c.Eq(V::Z(x.Evaluate(To(pt))), t[i], "hypercube", I);
      c.Eq(V::Z(x[i]), t[i], "coefficient", I);
      c.CheckF(x[t.size() + r.Below(3)].IsZero(), "coefficient_beyond", I);
    }
    {
      size_t m = r.Below(k + 1);
      ZV pt = Point(m);
      ZV w = MleFix(t, pt, p);
      std::string in2 = in + " fix=" + Sh(pt);
      Is(X(e.FixVariables(To(pt))), w, "fix_variables", in2);
      c.CheckF(From(e.evaluations()) == t, "fix_pure", I);
      E f = e;
      E g = f.FixVariablesInPlace(To(pt));
      Is(X(f), w, "fix_variables_inplace", in2);
      Is(X(g), w, "fix_variables_inplace_ret", in2);
    }
    ZV neg(t.size());
    for (size_t i = 0; i < t.size(); ++i) neg[i] = Mod(-t[i], p);
    Is(-x, neg, "negate", in);
    X y = x;
    Is(y.NegateInPlace(), neg, "negate_inplace", in);
    Is(X::Zero() - x, neg, "zero_minus", in);
    Is(x - X::Zero(), t, "minus_zero", in);
    Is(x + X::Zero(), t, "plus_zero", in);
    Is(X::Zero() + x, t, "zero_plus", in);
    Is(x * X::Zero(), {}, "mul_zero", in);
    Is(X::Zero() * x, {}, "zero_mul", in);
    Is(x * X::One(k), t, "mul_one", in);
  }

  void Binary(const ZV& a, const ZV& b) {
    std::string in = name + " a=" + Sh(a) + " b=" + Sh(b);
    c.Case("mle2 " + in);
    c.Distinct(vh::HashStr(in));
    X x{E(To(a))}, y{E(To(b))};
    ZV s(a.size()), d(a.size()), m(a.size()), q(a.size());
    bool div = true;
    for (size_t i = 0; i < a.size(); ++i) {
      s[i] = Mod(a[i] + b[i], p);
      d[i] = Mod(a[i] - b[i], p);
      m[i] = Mod(a[i] * b[i], p);
      if (b[i] == 0) div = false;
      else q[i] = Mod(a[i] * vh::InvM(b[i], p), p);
    }
    auto I = [&] { return in; };
    c.CheckF((x == y) == (a == b) && (x != y) == (a != b), "eq", I);
    if (a == b) c.CheckF(absl::HashOf(x) == absl::HashOf(y), "hash_eq", I);
    Is(x + y, s, "add", in);
    Is(x - y, d, "sub", in);
    Is(x * y, m, "mul", in);
    X z = x;
    Is(z += y, s, "add_inplace", in);
    z = x;
    Is(z -= y, d, "sub_inplace", in);
    z = x;
    Is(z *= y, m, "mul_inplace", in);
    auto quo = x / y;
    c.CheckF(quo.has_value() == div, "div_defined", I);
    if (div && quo) Is(*quo, q, "div", in);
    z = x;
    auto zq = (z /= y);
    c.CheckF(zq.has_value() == div, "div_inplace_defined", I);
    if (div && zq) {
      Is(z, q, "div_inplace", in);
      c.CheckF(*zq == &z, "div_inplace_self", I);
    }
    // aliasing
    z = x;
    ZV dbl(a.size()), sq(a.size());
    for (size_t i = 0; i < a.size(); ++i) {
      dbl[i] = Mod(2 * a[i], p);
      sq[i] = Mod(a[i] * a[i], p);
    }
    z += z;
    Is(z, dbl, "add_self", in);
    z = x;
    z *= z;
    Is(z, sq, "mul_self", in);
    z = x;
    z -= z;
    Is(z, ZV(a.size()), "sub_self", in);
    // the extension of a sum is the sum of the extensions
    size_t k = x.Degree();
    ZV pt = Point(k);
    c.Eq(V::Z((x + y).Evaluate(To(pt))), Mod(MleEval(a, pt, p) + MleEval(b, pt, p), p), "sum_evaluate", I);
  }

  // sums of products, and the sumcheck protocol over them
  template <size_t MaxEval>
  void Combination(size_t k, size_t max_terms, size_t max_factors) {
    std::vector<ZV> tables;
    std::vector<std::shared_ptr<E>> mles;
    size_t nt = 1 + r.Below(5);
    for (size_t i = 0; i < nt; ++i) {
      tables.push_back(Table(k));
      mles.push_back(std::make_shared<E>(To(tables.back())));
    }
    struct T {
      mpz_class coef;
      std::vector<size_t> idx;
    };
    std::vector<T> terms(1 + r.Below(max_terms));
    LC lc(k);
    size_t maxf = 0;
    std::string in = name + " k=" + std::to_string(k);
    for (auto& t : terms) {
      t.coef = V::Z(V::Any(r));
      size_t n = 1 + r.Below(max_factors);
      maxf = std::max(maxf, n);
      std::vector<std::shared_ptr<E>> f;
      in += " +" + t.coef.get_str(16);
      for (size_t i = 0; i < n; ++i) {
        t.idx.push_back(r.Below(nt));
        f.push_back(mles[t.idx.back()]);
        in += "*T" + std::to_string(t.idx.back());
      }
      lc.AddTerm(V::From(t.coef), f);
    }
    for (size_t i = 0; i < nt; ++i) in += " T" + std::to_string(i) + "=" + Sh(tables[i]);
    c.Case("combination " + in);
    c.Distinct(vh::HashStr(in));
    auto I = [&] { return in; };
    auto At = [&](const ZV& x) {
      ZV v;
      for (auto& t : tables) v.push_back(MleEval(t, x, p));
      mpz_class s = 0;
      for (auto& t : terms) {
        mpz_class w = t.coef;
        for (size_t i : t.idx) w = Mod(w * v[i], p);
        s += w;
      }
      return Mod(s, p);
    };
    mpz_class sum = 0;
    for (size_t i = 0; i < (size_t{1} << k); ++i)
      for (auto& t : terms) {
        mpz_class w = t.coef;
        for (size_t j : t.idx) w = Mod(w * tables[j][i], p);
        sum += w;
      }
    sum = Mod(sum, p);
    c.Eq(V::Z(lc.Combine()), sum, "combine", I);
    for (int q = 0; q < 2; ++q) {
      ZV x = Point(k);
      c.Eq(V::Z(lc.Evaluate(To(x))), At(x), "combination_evaluate", [&] { return in + " x=" + Sh(x); });
    }
    c.CheckF(lc.max_evaluations() == maxf && lc.num_variables() == k, "combination_shape", I);
    {
      std::set<size_t> used;
      for (auto& t : terms) used.insert(t.idx.begin(), t.idx.end());
      c.CheckF(lc.flattened_ml_evaluations().size() == used.size(), "shared_tables", I);
    }
    if (k == 0) return;

    // honest run
    using Msg = crypto::SumcheckProverMsg<F, MaxEval>;
    auto pk = crypto::SumcheckProvingKey<E>::Build(lc);
    auto pk2 = crypto::SumcheckProvingKey<E>::Build(lc);
    c.CheckF(pk == pk2, "proving_key_eq", I);
    pk2.flattened_ml_evaluations[0].at(r.Below(size_t{1} << k)) += F::One();
    c.CheckF(pk != pk2, "proving_key_differs", I);
    auto vk = crypto::SumcheckVerifyingKey::Build(lc);
    int tamper = r.Below(5);  // 0,1: honest; 2: sum; 3: one evaluation; 4: one consistent pair
    mpz_class asserted = sum;
    if (tamper == 2) asserted = Mod(sum + 1 + vh::FV<F>::RandZ(r) % (p - 1), p);
    size_t bad_round = r.Below(k);
    crypto::SumcheckProver<E, MaxEval> prover(pk);
    crypto::SumcheckVerifier<E> verifier(vk);
    std::vector<ZV> polys;
    ZV rs;
    Msg m = prover.Round();
    for (size_t i = 0; i < k; ++i) {
      ZV g = From(m.evaluations.evaluations());
      // the round polynomial by its definition
      ZV w(maxf + 1);
      for (size_t y = 0; y < w.size(); ++y) {
        ZV x = rs;
        x.push_back(Mod(mpz_class(y), p));
        x.resize(k);
        for (size_t h = 0; h < (size_t{1} << (k - i - 1)); ++h) {
          for (size_t j = i + 1; j < k; ++j) x[j] = (h >> (j - i - 1)) & 1;
          w[y] += At(x);
        }
        w[y] = Mod(w[y], p);
      }
      c.CheckF(g == w, "sumcheck_round", [&] {
        return in + " round " + std::to_string(i) + " got " + Sh(g) + " want " + Sh(w);
      });
      if (i == bad_round && tamper >= 3) {
        mpz_class d = 1 + vh::FV<F>::RandZ(r) % (p - 1);
        auto bump = [&](size_t j, const mpz_class& d) {
          g[j] = Mod(g[j] + d, p);
          m.evaluations.at(j) = V::From(g[j]);
        };
        if (tamper == 3) {
          bump(r.Below(g.size()), d);
        } else {
          bump(0, d);
          bump(1, Mod(-d, p));
        }
      }
      polys.push_back(g);
      auto v = verifier.Round(std::move(m));
      rs.push_back(V::Z(v.random_value));
      if (i + 1 < k) m = prover.Round(std::move(v));
    }
    // what the verifier has to say
    bool ok = true;
    mpz_class exp = asserted;
    for (size_t i = 0; i < k && ok; ++i) {
      ok = Mod(polys[i][0] + polys[i][1], p) == exp;
      // with fewer field elements than nodes only a node can be asked for
      if (rs[i] < mpz_class(polys[i].size())) exp = polys[i][rs[i].get_ui()];
      else exp = Lagrange(polys[i], rs[i], p);
    }
    crypto::Subclaim<F> sub;
    bool got = verifier.CheckAndGenerateSubclaim(V::From(asserted), &sub);
    std::string in2 = in + " tamper=" + std::to_string(tamper) + " round=" + std::to_string(bad_round) + " r=" + Sh(rs);
    auto I2 = [&] { return in2; };
    if (tamper < 2) c.CheckF(got, "sumcheck_complete", I2);
    if (tamper == 2) c.CheckF(!got, "sumcheck_rejects_sum", I2);
    c.CheckF(got == ok, tamper < 3 ? "sumcheck_verdict" : "sumcheck_tampered_verdict", I2);
    if (got && ok) {
      c.CheckF(From(sub.point) == rs, "subclaim_point", I2);
      c.Eq(V::Z(sub.expected_evaluation), exp, "subclaim_value", I2);
      if (tamper < 2) c.Eq(exp, At(rs), "subclaim_true", I2);
    }
    // interpolation of any values at any point
    {
      size_t n = 1 + r.Below(std::min<size_t>(12, mpz_class(std::min(p, mpz_class(12))).get_ui()));
      ZV v(n);
      for (auto& x : v) x = V::Z(V::Any(r));
      mpz_class x = r.Chance(1, 3) ? Mod(mpz_class(r.Below(n + 2)), p) : V::Z(V::Any(r));
      c.Eq(V::Z(crypto::InterpolateUniPoly(To(v), V::From(x))), Lagrange(v, x, p), "interpolate",
           [&] { return name + " v=" + Sh(v) + " x=" + x.get_str(16); });
    }
  }

  void Run() {
    c.Section("mle/" + name);
    for (size_t i = c.N(160); i > 0 && c.TimeLeft(); --i) {
      size_t k = r.Below(7);
      ZV a = Table(k), b = Table(k);
      if (r.Chance(1, 8)) b = a;
      if (r.Chance(1, 8)) for (size_t j = 0; j < a.size(); ++j) b[j] = Mod(-a[j], p);
      if (r.Chance(1, 4)) for (auto& x : b) if (x == 0) x = 1;
      Unary(a);
      Binary(a, b);
    }
    Unary(ZV(1));
    Unary(ZV(8));
    Unary(ZV(4, 1));
    {
      size_t k = std::min<size_t>(MaxDegree, 11);
      Unary(Table(k));
      Binary(Table(k), Table(k));
    }
    c.Section("combination/" + name);
    for (size_t i = c.N(40); i > 0 && c.TimeLeft(); --i) Combination<16>(r.Below(6), 4, 5);
    Combination<16>(7, 3, 4);
  }
};

template <typename F, size_t MaxDegree>
struct MV {
  using V = vh::FV<F>;
  using C = MultivariateSparseCoefficients<F, MaxDegree>;
  using P = MultivariatePolynomial<C>;
  using Mono = std::map<size_t, size_t>;  // variable -> exponent, no zeros
  using Ref = std::map<Mono, mpz_class>;
  Ctx& c;
  Rng& r;
  const mpz_class& p;
  std::string name;
  MV(Ctx& ctx, const std::string& n) : c(ctx), r(ctx.rng), p(V::P()), name(n) {}

  typename C::Literal Lit(const Mono& m) {
    std::vector<typename C::Element> e;
    for (auto& [v, x] : m) e.push_back({v, x});
    if (e.empty() && r.Bool()) e.push_back({0, 0});
    return typename C::Literal(std::move(e));
  }
  P To(size_t nv, const Ref& f) {
    typename C::Terms t;
    for (auto& [m, x] : f) t.push_back({Lit(m), V::From(x)});
    std::sort(t.begin(), t.end());
    return P(C::CreateChecked(nv, std::move(t)));
  }
  // nothing may be in there twice, nor with a zero coefficient
  bool From(const P& q, Ref* out) {
    bool ok = true;
    for (auto& t : q.coefficients().terms()) {
      Mono m;
      for (auto& e : t.literal.elements)
        if (e.exponent) m[e.variable] += e.exponent;
      if (t.coefficient.IsZero() || out->count(m)) ok = false;
      (*out)[m] = V::Z(t.coefficient);
    }
    return ok;
  }
  static Ref Clean(Ref f, const mpz_class& p) {
    for (auto it = f.begin(); it != f.end();) {
      it->second = Mod(it->second, p);
      if (it->second == 0) it = f.erase(it);
      else ++it;
    }
    return f;
  }
  std::string Sh(const Ref& f) {
    std::string s;
    for (auto& [m, x] : f) {
      s += "+" + x.get_str(16);
      for (auto& [v, e] : m) s += "*x" + std::to_string(v) + "^" + std::to_string(e);
    }
    return s.empty() ? "0" : s;
  }
  Ref Rand(size_t nv) {
    Ref f;
    for (size_t i = r.Below(7); i > 0; --i) {
      Mono m;
      size_t left = MaxDegree;
      for (size_t v = 0; v < nv; ++v)
        if (r.Bool() && left > 0) {
          size_t e = 1 + r.Below(std::min<size_t>(left, 3));
          m[v] = e;
          left -= e;
        }
      f[m] = V::Z(V::NonZero(r));
    }
    return f;
  }
  mpz_class Eval(const Ref& f, const ZV& x) {
    mpz_class s = 0;
    for (auto& [m, k] : f) {
      mpz_class w = k;
      for (auto& [v, e] : m) w = Mod(w * vh::PowM(x[v], e, p), p);
      s += w;
    }
    return Mod(s, p);
  }
  void Is(const P& got, const Ref& want, const char* mon, const std::string& in) {
    Ref g;
    bool wf = From(got, &g);
    c.CheckF(wf && g == want, mon, [&] {
      return in + (wf ? "" : " (not in normal form)") + " got " + Sh(g) + " want " + Sh(want);
    });
  }
  void AtPoint(const P& q, const Ref& want, size_t nv, const char* mon, const std::string& in) {
    if (q.coefficients().terms().empty() && q.coefficients().num_vars() < nv) return;
    ZV x(nv);
    std::vector<F> pt;
    for (auto& e : x) {
      F f = V::Any(r);
      e = V::Z(f);
      pt.push_back(f);
    }
    c.Eq(V::Z(q.Evaluate(pt)), Eval(want, x), mon, [&] { return in + " x=" + ::Sh(x); });
  }
  void One(size_t nv, const Ref& a, const Ref& b) {
    std::string in = name + " a=" + Sh(a) + " b=" + Sh(b);
    c.Case("multivariate " + in);
    c.Distinct(vh::HashStr(in));
    auto I = [&] { return in; };
    P x = To(nv, a), y = To(nv, b);
    Is(x, a, "build", in);
    c.CheckF(x.IsZero() == a.empty(), "mv_is_zero", I);
    c.CheckF(x.IsOne() == (a == Ref{{Mono{}, 1}}), "mv_is_one", I);
    c.CheckF((x == y) == (a == b) && (x != y) == (a != b), "mv_eq", I);
    size_t deg = 0;
    for (auto& [m, k] : a) {
      size_t d = 0;
      for (auto& [v, e] : m) d += e;
      deg = std::max(deg, d);
    }
    c.CheckF(x.Degree() == deg, "mv_degree", I);
    AtPoint(x, a, nv, "mv_evaluate", in);
    for (auto& [m, k] : a)
      c.CheckF(V::Z(x[Lit(m)]) == k && V::Z(std::as_const(x).at(Lit(m))) == k, "mv_coefficient", I);
    for (auto& [m, k] : b)
      c.CheckF(V::Z(x[Lit(m)]) == (a.count(m) ? a.at(m) : mpz_class(0)), "mv_coefficient_absent", I);
    Ref s = a, d = a, n;
    for (auto& [m, k] : b) s[m] += k, d[m] -= k;
    for (auto& [m, k] : a) n[m] = Mod(-k, p);
    s = Clean(s, p);
    d = Clean(d, p);
    P t = x + y;
    Is(t, s, "mv_add", in);
    AtPoint(t, s, nv, "mv_add_evaluate", in);
    t = x - y;
    Is(t, d, "mv_sub", in);
    AtPoint(t, d, nv, "mv_sub_evaluate", in);
    t = x;
    t += y;
    Is(t, s, "mv_add_inplace", in);
    AtPoint(t, s, nv, "mv_add_inplace_evaluate", in);
    t = x;
    t -= y;
    Is(t, d, "mv_sub_inplace", in);
    AtPoint(t, d, nv, "mv_sub_inplace_evaluate", in);
    Is(-x, n, "mv_negate", in);
    t = x;
    t.NegateInPlace();
    Is(t, n, "mv_negate_inplace", in);
    AtPoint(t, n, nv, "mv_negate_evaluate", in);
    t = x;
    t -= t;
    Is(t, {}, "mv_sub_self", in);
    c.CheckF(t.Degree() == 0 && t.IsZero(), "mv_cancelled", I);
    t = x;
    t += t;
    Ref dbl;
    for (auto& [m, k] : a) dbl[m] = 2 * k;
    Is(t, Clean(dbl, p), "mv_add_self", in);
    // (a + b) - b == a
    Is((x + y) - y, a, "mv_add_sub", in);
  }
  void Run() {
    c.Section("multivariate/" + name);
    for (size_t i = c.N(250); i > 0 && c.TimeLeft(); --i) {
      size_t nv = 1 + r.Below(5);
      Ref a = Rand(nv), b = Rand(nv);
      if (r.Chance(1, 10)) b = a;
      if (r.Chance(1, 4)) {
        // shares some monomials, some of them cancelling
        b = a;
        for (auto& [m, k] : b) k = r.Bool() ? Mod(-k, p) : V::Z(V::NonZero(r));
        if (!b.empty() && r.Bool()) b.erase(b.begin());
      }
      One(nv, a, b);
    }
    One(1, {}, {});
    One(2, {{{}, 1}}, {{{}, 1}});
  }
};

}  // namespace

void vh_main(Ctx& ctx) {
#if defined(TACHYON_HAS_OPENMP)
  ctx.Count("omp_threads", omp_get_max_threads());
#endif
  GF7::Init();
  BabyBear::Init();
  Goldilocks::Init();
  bn254::Fr::Init();
  M<GF7, 12>(ctx, "gf7").Run();
  M<BabyBear, 12>(ctx, "babybear").Run();
  M<Goldilocks, 12>(ctx, "goldilocks").Run();
  M<bn254::Fr, 12>(ctx, "bn254").Run();
  MV<GF7, 8>(ctx, "gf7").Run();
  MV<BabyBear, 8>(ctx, "babybear").Run();
  MV<bn254::Fr, 8>(ctx, "bn254").Run();
  ctx.Require("evaluate");
  ctx.Require("combine");
  ctx.Require("sumcheck_round");
  ctx.Require("sumcheck_rejects_sum");
  ctx.Require("mv_add");
}
