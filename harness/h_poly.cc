// P11: univariate polynomials (dense, sparse, evaluations, interpolation)
// against schoolbook arithmetic over GMP.
#include <algorithm>

#include "absl/hash/hash.h"
#include "tachyon/base/openmp_util.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/polynomials/univariate/lagrange_interpolation.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"
#include "vh/polys.h"
#include "vh/vh.h"

using namespace tachyon::math;
using vh::Ctx;
using vh::Mod;
using vh::Rng;
using vh::ShowZP;
using vh::ZP;

namespace {

template <typename F, size_t MaxDegree>
struct S {
  using V = vh::FV<F>;
  using D = UnivariateDensePolynomial<F, MaxDegree>;
  using Sp = UnivariateSparsePolynomial<F, MaxDegree>;
  using DC = UnivariateDenseCoefficients<F, MaxDegree>;
  using SC = UnivariateSparseCoefficients<F, MaxDegree>;
  using E = UnivariateEvaluations<F, MaxDegree>;
  Ctx& c;
  Rng& r;
  const mpz_class& p;
  std::string name;
  S(Ctx& ctx, const std::string& n) : c(ctx), r(ctx.rng), p(V::P()), name(n) {}

  D ToD(const ZP& z) {
    std::vector<F> v = vh::ZPTo<F>(z);
    if (r.Bool()) return D(DC(v, true));
    // trailing zeros have to be cleaned away
    for (size_t i = r.Below(3); i > 0 && v.size() <= MaxDegree; --i) v.push_back(F::Zero());
    return D(DC(std::move(v), true));
  }
  Sp ToS(const ZP& z) {
    std::vector<UnivariateTerm<F>> t;
    bool dirty = r.Bool();
    for (size_t i = 0; i < z.size(); ++i)
      if (z[i] != 0 || (dirty && r.Chance(1, 3))) t.push_back({i, V::From(z[i])});
    return Sp(SC(std::move(t), true));
  }
  ZP Z(const D& d) { return vh::ZPFrom<F>(d.coefficients().coefficients()); }
  ZP Z(const Sp& s) {
    ZP z;
    for (auto& t : s.coefficients().terms()) {
      if (z.size() <= t.degree) z.resize(t.degree + 1);
      z[t.degree] = V::Z(t.coefficient);
    }
    return z;
  }
  static bool Wf(const D& d) {
    return d.coefficients().IsClean();
  }
  static bool Wf(const Sp& s) {
    auto& t = s.coefficients().terms();
    for (size_t i = 0; i < t.size(); ++i)
      if (t[i].coefficient.IsZero() || (i && t[i - 1].degree >= t[i].degree)) return false;
    return true;
  }
  ZP Rand(size_t maxlen) {
    size_t len = r.Below(maxlen + 1);
    ZP z(len);
    int kind = r.Below(7);
    for (size_t i = 0; i < len; ++i) {
      switch (kind) {
        case 0: z[i] = r.Chance(1, 6) ? V::Z(V::Any(r)) : mpz_class(0); break;
        case 1: z[i] = r.Below(2); break;
        case 2: z[i] = Mod(-(long)r.Below(2), p); break;
        case 3: z[i] = i + 1 == len ? 1 : 0; break;
        default: z[i] = V::Z(V::Any(r));
      }
    }
    return vh::Trim(z);
  }

  template <typename P>
  void Is(const P& got, const ZP& want, const char* mon, const std::string& in) {
    bool wf = Wf(got);
    ZP g = Z(got);
    c.CheckF(wf && g == want, mon, [&] {
      return in + (wf ? "" : " (not in normal form)") + " got " + ShowZP(g) +
             " want " + ShowZP(want);
    });
  }

  // all queries on one polynomial
  void Unary(const ZP& z) {
    std::string in = name + " f=" + ShowZP(z);
    c.Case("unary " + in);
    D d = ToD(z);
    Sp s = ToS(z);
    auto I = [&] { return in; };
    Is(d, z, "dense_build", in);
    Is(s, z, "sparse_build", in);
    Is(d.ToSparse(), z, "to_sparse", in);
    Is(s.ToDense(), z, "to_dense", in);
    size_t deg = z.empty() ? 0 : z.size() - 1;
    c.CheckF(d.Degree() == deg && s.Degree() == deg, "degree", I);
    bool zero = z.empty(), one = z.size() == 1 && z[0] == 1;
    c.CheckF(d.IsZero() == zero && s.IsZero() == zero, "is_zero", I);
    c.CheckF(d.IsOne() == one && s.IsOne() == one, "is_one", I);
    mpz_class lead = zero ? mpz_class(0) : z.back();
    c.CheckF(V::Z(d.GetLeadingCoefficient()) == lead &&
                 V::Z(s.GetLeadingCoefficient()) == lead, "leading", I);
    for (int k = 0; k < 4; ++k) {
      size_t i = r.Below(z.size() + 3);
      mpz_class w = i < z.size() ? z[i] : mpz_class(0);
      c.CheckF(V::Z(d[i]) == w && V::Z(s[i]) == w, "coefficient", I);
    }
    for (int k = 0; k < 4; ++k) {
      F x = k == 0 ? F::Zero() : k == 1 ? F::One() : V::Any(r);
      mpz_class w = vh::ZPEval(z, V::Z(x), p);
      c.Eq(V::Z(d.Evaluate(x)), w, "dense_eval", [&] { return in + " x=" + V::S(x); });
      c.Eq(V::Z(s.Evaluate(x)), w, "sparse_eval", [&] { return in + " x=" + V::S(x); });
    }
    {
      F x = r.Chance(1, 4) ? F::Zero() : V::Any(r);
      ZP f((z.size() + 1) / 2);
      for (size_t i = 0; i < z.size(); ++i) {
        if (i % 2 == 0) f[i / 2] += z[i];
        else f[i / 2] += z[i] * V::Z(x);
      }
      for (auto& e : f) e = Mod(e, p);
      f = vh::Trim(f);
      std::string in2 = in + " r=" + V::S(x);
      Is(d.Fold(x), f, "dense_fold", in2);
      Is(s.Fold(x), f, "sparse_fold", in2);
    }
    ZP neg = vh::ZPScale(z, -1, p);
    Is(-d, neg, "dense_neg", in);
    Is(-s, neg, "sparse_neg", in);
    {
      D a = d;
      Is(a.NegateInPlace(), neg, "dense_neg_in", in);
      Sp b = s;
      Is(b.NegateInPlace(), neg, "sparse_neg_in", in);
    }
    for (int k = 0; k < 3; ++k) {
      F x = k == 0 ? F::Zero() : k == 1 ? F::One() : V::Any(r);
      std::string in2 = in + " k=" + V::S(x);
      ZP w = vh::ZPScale(z, V::Z(x), p);
      Is(d * x, w, "dense_scalar", in2);
      Is(s * x, w, "sparse_scalar", in2);
      D a = d;
      a *= x;
      Is(a, w, "dense_scalar_in", in2);
      Sp b = s;
      b *= x;
      Is(b, w, "sparse_scalar_in", in2);
      auto dq = d / x;
      auto sq = s / x;
      D a2 = d;
      auto aq = a2 /= x;
      Sp b2 = s;
      auto bq = b2 /= x;
      if (x.IsZero()) {
        c.CheckF(!dq && !sq && !aq && !bq, "scalar_div_zero", [&] { return in2; });
      } else {
        ZP q = vh::ZPScale(z, vh::InvM(V::Z(x), p), p);
        c.CheckF(dq && sq && aq && bq, "scalar_div", [&] { return in2; });
        if (dq && sq && aq && bq) {
          Is(*dq, q, "dense_scalar_div", in2);
          Is(*sq, q, "sparse_scalar_div", in2);
          Is(a2, q, "dense_scalar_div_in", in2);
          Is(b2, q, "sparse_scalar_div_in", in2);
        }
      }
    }
    std::string txt;
    for (size_t i = z.size(); i-- > 0;) {
      if (z[i] == 0) continue;
      if (!txt.empty()) txt += " + ";
      txt += V::From(z[i]).ToString();
      if (i == 1) txt += " * x";
      if (i > 1) txt += " * x^" + std::to_string(i);
    }
    c.CheckF(d.ToString() == txt && s.ToString() == txt, "to_string", I);
    if constexpr (MaxDegree < 100) {
      D d2 = ToD(z);
      Sp s2 = ToS(z);
      c.CheckF(absl::HashOf(d) == absl::HashOf(d2), "hash", I);
      c.CheckF(absl::HashOf(s) == absl::HashOf(s2), "hash", I);
    }
    c.CheckF(d == ToD(z) && s == ToS(z) && !(d != ToD(z)) && !(s != ToS(z)), "equal", I);
  }

  template <typename A, typename B>
  void DivPair(const A& a, const B& b, const ZP& za, const ZP& zb, const char* t,
               const std::string& in) {
    auto I = [&] { return in + " " + t; };
    auto q = a / b;
    auto m = a % b;
    auto dm = a.DivMod(b);
    if (zb.empty()) {
      // 0 / 0 included
      if (za.empty() && std::is_same_v<A, Sp>) {
        c.CheckF(!q && !m && !dm, "sparse_zero_div_zero", I);
      } else {
        c.CheckF(!q && !m && !dm, "div_by_zero", I);
      }
      return;
    }
    c.CheckF(q && m && dm, "div_defined", I);
    if (!q || !m || !dm) return;
    ZP zq, zr;
    vh::ZPDivMod(za, zb, p, &zq, &zr);
    Is(*q, zq, "div", I());
    Is(dm->quotient, zq, "divmod_quotient", I());
    if (za.empty() && Z(*m) == zb && Z(dm->remainder) == zb) {
      c.CheckF(false, "zero_dividend_remainder_is_divisor", I);
      return;
    }
    Is(*m, zr, "mod", I());
    Is(dm->remainder, zr, "divmod_remainder", I());
  }

  void Binary(const ZP& za, const ZP& zb) {
    std::string in = name + " f=" + ShowZP(za) + " g=" + ShowZP(zb);
    c.Case("binary " + in);
    c.Distinct(vh::HashStr(in));
    c.Sample(in);
    D da = ToD(za), db = ToD(zb);
    Sp sa = ToS(za), sb = ToS(zb);
    c.CheckF((da == db) == (za == zb) && (sa == sb) == (za == zb) &&
                 (da != db) == (za != zb) && (sa != sb) == (za != zb),
             "equality", [&] { return in; });
    ZP sum = vh::ZPAdd(za, zb, p), dif = vh::ZPAdd(za, zb, p, -1);
    Is(da + db, sum, "add_dd", in);
    Is(da + sb, sum, "add_ds", in);
    Is(sa + db, sum, "add_sd", in);
    Is(sa + sb, sum, "add_ss", in);
    Is(da - db, dif, "sub_dd", in);
    Is(da - sb, dif, "sub_ds", in);
    Is(sa - db, dif, "sub_sd", in);
    Is(sa - sb, dif, "sub_ss", in);
    { D t = da; t += db; Is(t, sum, "add_in_dd", in); }
    { D t = da; t += sb; Is(t, sum, "add_in_ds", in); }
    { Sp t = sa; t += sb; Is(t, sum, "add_in_ss", in); }
    { D t = da; t -= db; Is(t, dif, "sub_in_dd", in); }
    { D t = da; t -= sb; Is(t, dif, "sub_in_ds", in); }
    { Sp t = sa; t -= sb; Is(t, dif, "sub_in_ss", in); }
    if (za.size() + zb.size() <= MaxDegree + 2) {
      ZP pr = vh::ZPMul(za, zb, p);
      Is(da * db, pr, "mul_dd", in);
      Is(da * sb, pr, "mul_ds", in);
      Is(sa * db, pr, "mul_sd", in);
      if (za.size() + zb.size() < 200) Is(sa * sb, pr, "mul_ss", in);
      { D t = da; t *= db; Is(t, pr, "mul_in_dd", in); }
      { D t = da; t *= sb; Is(t, pr, "mul_in_ds", in); }
      if (za.size() + zb.size() < 200) { Sp t = sa; t *= sb; Is(t, pr, "mul_in_ss", in); }
    }
    if (za.size() * 2 <= MaxDegree + 2 && za.size() < 200) {
      ZP sq = vh::ZPMul(za, za, p);
      { D t = da; t *= t; Is(t, sq, "mul_alias_d", in); }
      { Sp t = sa; t *= t; Is(t, sq, "mul_alias_s", in); }
    }
    ZP dbl = vh::ZPScale(za, 2, p);
    { D t = da; t += t; Is(t, dbl, "add_alias_d", in); }
    { Sp t = sa; t += t; Is(t, dbl, "add_alias_s", in); }
    { D t = da; t -= t; Is(t, {}, "sub_alias_d", in); }
    { Sp t = sa; t -= t; Is(t, {}, "sub_alias_s", in); }
    DivPair(da, db, za, zb, "dd", in);
    DivPair(da, sb, za, zb, "ds", in);
    DivPair(sa, db, za, zb, "sd", in);
    DivPair(sa, sb, za, zb, "ss", in);
    if (!zb.empty()) {
      ZP zq, zr;
      vh::ZPDivMod(za, zb, p, &zq, &zr);
      {
        D t = da;
        c.CheckF((t /= db).has_value(), "div_in", [&] { return in; });
        Is(t, zq, "div_in_dd", in);
      }
      {
        D t = da;
        c.CheckF((t /= sb).has_value(), "div_in", [&] { return in; });
        Is(t, zq, "div_in_ds", in);
      }
      if (!za.empty()) {
        D t = da;
        c.CheckF(t.ModInPlace(db).has_value(), "mod_in", [&] { return in; });
        Is(t, zr, "mod_in_dd", in);
        D t2 = da;
        c.CheckF(t2.ModInPlace(sb).has_value(), "mod_in", [&] { return in; });
        Is(t2, zr, "mod_in_ds", in);
        D t4 = da;
        c.CheckF((t4 %= db).has_value(), "mod_in", [&] { return in; });
        Is(t4, zr, "mod_in_op", in);
        D t3 = da;
        c.CheckF((t3 /= t3).has_value(), "div_in", [&] { return in; });
        Is(t3, {mpz_class(1)}, "div_alias", in);
      }
    } else {
      D t = da;
      c.CheckF(!(t /= db).has_value() && !t.ModInPlace(sb).has_value(), "div_in_by_zero",
               [&] { return in; });
    }
  }

  void Roots(size_t n) {
    std::vector<F> roots(n);
    for (auto& x : roots) x = V::Any(r);
    if (n > 1 && r.Chance(1, 3)) roots[0] = roots[n - 1];
    std::string in = name + " roots=" + vh::Show(roots);
    c.Case(in);
    ZP w{1};
    for (auto& x : roots) w = vh::ZPMul(w, {Mod(-V::Z(x), p), 1}, p);
    Is(D::FromRoots(roots), w, "from_roots_d", in);
    Is(Sp::FromRoots(roots), w, "from_roots_s", in);
    for (int k = 0; k < 3; ++k) {
      F x = k == 0 && n > 0 ? roots[r.Below(n)] : V::Any(r);
      mpz_class e = vh::ZPEval(w, V::Z(x), p);
      if (n > 0)
        c.Eq(V::Z(D::EvaluateVanishingPolyByRoots(roots, x)), e, "vanishing_by_roots",
             [&] { return in + " x=" + V::S(x); });
      c.Eq(V::Z(D::EvaluateVanishingPolyByRootsSerial(roots, x)), e,
           "vanishing_by_roots_serial", [&] { return in + " x=" + V::S(x); });
    }
  }

  void Interpolate(size_t n) {
    std::vector<F> xs, ys;
    std::set<mpz_class> seen;
    while (xs.size() < n && mpz_class((unsigned long)xs.size()) < p) {
      F x = V::Any(r);
      if (p < 100 && r.Bool()) x = V::From(mpz_class((unsigned long)xs.size()));
      if (!seen.insert(V::Z(x)).second) continue;
      xs.push_back(x);
    }
    n = xs.size();
    ZP target;
    if (r.Bool()) {
      // values of a polynomial of lower degree
      target = Rand(n);
      for (auto& x : xs) ys.push_back(V::From(vh::ZPEval(target, V::Z(x), p)));
    } else {
      for (size_t i = 0; i < n; ++i) ys.push_back(r.Chance(1, 5) ? F::Zero() : V::Any(r));
    }
    std::string in = name + " xs=" + vh::Show(xs) + " ys=" + vh::Show(ys);
    c.Case("interpolate " + in);
    c.Distinct(vh::HashStr(in));
    D d;
    bool ok = LagrangeInterpolate<MaxDegree>(xs, ys, &d);
    c.CheckF(ok, "interpolate", [&] { return in; });
    ZP z = Z(d);
    c.CheckF(Wf(d) && z.size() <= n, "interpolate_degree", [&] { return in; });
    bool good = true;
    for (size_t i = 0; i < n && good; ++i)
      good = vh::ZPEval(z, V::Z(xs[i]), p) == V::Z(ys[i]);
    c.CheckF(good, "interpolate_values", [&] { return in; });
    ys.push_back(F::One());
    c.CheckF(!LagrangeInterpolate<MaxDegree>(xs, ys, &d), "interpolate_mismatch",
             [&] { return in; });
  }

  // evaluation form: pointwise, with the empty vector as zero
  void Evals(size_t n) {
    auto rv = [&](bool nz) {
      std::vector<F> v(n);
      for (auto& x : v)
        do x = r.Chance(1, 8) ? F::Zero() : r.Chance(1, 8) ? F::One() : V::Any(r);
        while (nz && x.IsZero());
      if (!nz && r.Chance(1, 8)) v.clear();
      return v;
    };
    std::vector<F> va = rv(false), vb = rv(r.Bool());
    std::string in = name + " a=" + vh::Show(va) + " b=" + vh::Show(vb);
    c.Case("evals " + in);
    c.Distinct(vh::HashStr(in));
    E a(va), b(vb);
    auto I = [&] { return in; };
    auto at = [&](const std::vector<F>& v, size_t i) {
      return v.empty() ? mpz_class(0) : V::Z(v[i]);
    };
    auto same = [&](const E& e, auto fn, const char* mon) {
      bool ok = true;
      if (e.evaluations().empty()) {
        for (size_t i = 0; i < n && ok; ++i) ok = fn(i) == 0;
      } else {
        ok = e.evaluations().size() == n;
        for (size_t i = 0; i < n && ok; ++i) ok = V::Z(e.evaluations()[i]) == fn(i);
      }
      c.CheckF(ok, mon, I);
    };
    auto add = [&](size_t i) { return Mod(at(va, i) + at(vb, i), p); };
    auto sub = [&](size_t i) { return Mod(at(va, i) - at(vb, i), p); };
    auto mul = [&](size_t i) { return Mod(at(va, i) * at(vb, i), p); };
    same(a + b, add, "ev_add");
    same(a - b, sub, "ev_sub");
    same(a * b, mul, "ev_mul");
    { E t = a; t += b; same(t, add, "ev_add_in"); }
    { E t = a; t -= b; same(t, sub, "ev_sub_in"); }
    { E t = a; t *= b; same(t, mul, "ev_mul_in"); }
    { E t = a; t *= t; same(t, [&](size_t i) { return Mod(at(va, i) * at(va, i), p); }, "ev_mul_alias"); }
    { E t = a; t -= t; same(t, [&](size_t) { return mpz_class(0); }, "ev_sub_alias"); }
    same(-a, [&](size_t i) { return Mod(-at(va, i), p); }, "ev_neg");
    { E t = a; t.NegateInPlace(); same(t, [&](size_t i) { return Mod(-at(va, i), p); }, "ev_neg_in"); }
    F k = r.Chance(1, 5) ? F::Zero() : r.Chance(1, 5) ? F::One() : V::Any(r);
    auto sc = [&](size_t i) { return Mod(at(va, i) * V::Z(k), p); };
    same(a * k, sc, "ev_scalar");
    { E t = a; t *= k; same(t, sc, "ev_scalar_in"); }
    auto qs = a / k;
    E qt = a;
    auto qs2 = qt /= k;
    if (k.IsZero()) {
      c.CheckF(!qs && !qs2, "ev_scalar_div_zero", I);
    } else {
      mpz_class ki = vh::InvM(V::Z(k), p);
      auto dv = [&](size_t i) { return Mod(at(va, i) * ki, p); };
      c.CheckF(qs && qs2, "ev_scalar_div", I);
      if (qs) same(*qs, dv, "ev_scalar_div");
      same(qt, dv, "ev_scalar_div_in");
    }
    bool nz = !vb.empty();
    for (auto& x : vb) nz = nz && !x.IsZero();
    auto q = a / b;
    E t = a;
    auto q2 = t /= b;
    if (!nz) {
      if (!va.empty()) c.CheckF(!q && !q2, "ev_div_zero", I);
    } else {
      auto dv = [&](size_t i) { return Mod(at(va, i) * vh::InvM(at(vb, i), p), p); };
      c.CheckF(q && q2, "ev_div", I);
      if (q) same(*q, dv, "ev_div");
      same(t, dv, "ev_div_in");
    }
    bool az = true, ao = !va.empty();
    for (auto& x : va) az = az && x.IsZero(), ao = ao && x.IsOne();
    c.CheckF(a.IsZero() == az, "ev_is_zero", I);
    c.CheckF(a.IsOne() == ao, "ev_is_one", I);
    bool eq = va == vb;
    if (va.empty() || vb.empty()) {
      eq = true;
      for (auto& x : va) eq = eq && x.IsZero();
      for (auto& x : vb) eq = eq && x.IsZero();
    }
    c.CheckF((a == b) == eq && (a != b) == !eq, "ev_equal", I);
    for (int i = 0; i < 3; ++i) {
      size_t j = r.Below(n + 2);
      c.Eq(V::Z(a[j]), j < va.size() ? V::Z(va[j]) : mpz_class(0), "ev_index", I);
    }
    E same_a(va);
    if (MaxDegree < 100) c.CheckF(absl::HashOf(a) == absl::HashOf(same_a), "ev_hash", I);
  }

  void Factories() {
    Is(D::Zero(), {}, "zero", name);
    Is(Sp::Zero(), {}, "zero", name);
    Is(D::One(), {mpz_class(1)}, "one", name);
    Is(Sp::One(), {mpz_class(1)}, "one", name);
    for (size_t i = 0; i < 12; ++i) {
      size_t deg = r.Below(std::min<size_t>(MaxDegree, 40));
      D d = D::Random(deg);
      c.CheckF(Wf(d) && d.Degree() == deg, "random", [&] { return name; });
      Sp s = Sp::Random(deg);
      c.CheckF(Wf(s) && s.Degree() <= deg, "random", [&] { return name; });
      E e = E::Random(deg);
      c.CheckF(e.NumElements() == deg + 1, "random", [&] { return name; });
    }
  }

  void Run() {
    if (c.Section(name + "_unary")) {
      Factories();
      Unary({});
      Unary({1});
      for (size_t i = 0; i < c.N(300); ++i) Unary(Rand(std::min<size_t>(MaxDegree, r.Chance(1, 6) ? 30 : 6)));
    }
    if (c.Section(name + "_binary")) {
      for (size_t i = 0; i < c.N(400); ++i) {
        ZP a = Rand(std::min<size_t>(MaxDegree / 2, r.Chance(1, 6) ? 24 : 5));
        ZP b = Rand(std::min<size_t>(MaxDegree / 2, r.Chance(1, 6) ? 24 : 5));
        switch (r.Below(10)) {
          case 0: b = a; break;
          case 1: b = vh::ZPScale(a, -1, p); break;
          case 2: {  // same leading part: the sum / difference drops degree
            b = a;
            if (!b.empty()) b[0] = Mod(b[0] + 1, p);
            b = vh::Trim(b);
            if (r.Bool()) b = vh::ZPScale(b, -1, p);
            break;
          }
          case 3:  // exact division
            if (a.size() + b.size() <= MaxDegree / 2) a = vh::ZPMul(a, b, p);
            break;
        }
        Binary(a, b);
      }
    }
    if (c.Section(name + "_roots"))
      for (size_t i = 0; i < c.N(60); ++i) Roots(r.Below(i % 4 ? 6 : 24));
    if (c.Section(name + "_interpolate"))
      for (size_t i = 0; i < c.N(80); ++i) Interpolate(1 + r.Below(i % 4 ? 6 : 24));
    if (c.Section(name + "_evals"))
      for (size_t i = 0; i < c.N(200); ++i) Evals(1 + r.Below(i % 4 ? 6 : 24));
  }

  // all pairs of polynomials over a tiny field
  void Exhaustive() {
    if (!c.Section(name + "_exhaustive")) return;
    unsigned long P = p.get_ui();
    size_t n = c.thorough ? P * P * P : P * P;
    auto poly = [&](size_t k) {
      ZP z;
      for (; k; k /= P) z.push_back(k % P);
      return vh::Trim(z);
    };
    for (size_t i = 0; i < n; ++i) {
      Unary(poly(i));
      for (size_t j = 0; j < P * P; ++j) Binary(poly(i), poly(j));
    }
    c.Count("exhaustive_pairs", n * P * P);
  }

  // lengths beyond the thresholds at which work is split
  void Large() {
    if (!c.Section(name + "_large")) return;
    for (size_t i = 0; i < c.N(6, 24); ++i) {
      ZP a(500 + r.Below(4000)), b(1 + r.Below(40));
      for (auto& x : a) x = r.Chance(1, 3) ? mpz_class(0) : V::Z(V::Rand(r));
      for (auto& x : b) x = V::Z(V::Rand(r));
      a = vh::Trim(a);
      b = vh::Trim(b);
      Unary(a);
      Binary(a, b);
      Binary(b, a);
    }
    Evals(3000 + r.Below(3000));
    Roots(150);
    Interpolate(60 + r.Below(40));
  }
};

// sparse polynomials whose degrees exceed the characteristic
template <typename F>
void HugeDegrees(Ctx& c, const std::string& name) {
  if (!c.Section(name + "_huge_degree")) return;
  using V = vh::FV<F>;
  constexpr size_t kMax = size_t{1} << 40;
  using Sp = UnivariateSparsePolynomial<F, kMax>;
  using SC = UnivariateSparseCoefficients<F, kMax>;
  for (size_t k = 0; k < c.N(60); ++k) {
    std::set<size_t> degs;
    for (size_t i = 1 + c.rng.Below(4); i > 0; --i) {
      size_t d = c.rng.U64() >> (24 + c.rng.Below(40));
      if (d <= kMax) degs.insert(d);
    }
    if (c.rng.Bool()) degs.insert(V::P().get_ui() & (kMax - 1));
    std::vector<UnivariateTerm<F>> t;
    F x = V::Any(c.rng);
    mpz_class want = 0;
    for (size_t d : degs) {
      t.push_back({d, V::NonZero(c.rng)});
      want += V::Z(t.back().coefficient) *
              vh::PowM(V::Z(x), mpz_class((unsigned long)d), V::P());
    }
    std::string in = name + " degrees";
    for (size_t d : degs) in += " " + std::to_string(d);
    c.Case(in);
    Sp s(SC(std::move(t), true));
    c.Eq(V::Z(s.Evaluate(x)), Mod(want, V::P()), "sparse_eval_huge",
         [&] { return in + " x=" + V::S(x); });
  }
}

}  // namespace

void vh_main(Ctx& ctx) {
#if defined(TACHYON_HAS_OPENMP)
  ctx.Count("omp_threads", omp_get_max_threads());
#endif
  GF7::Init();
  BabyBear::Init();
  Goldilocks::Init();
  bn254::Fr::Init();
  {
    S<GF7, 63> s(ctx, "gf7");
    s.Exhaustive();
    s.Run();
  }
  S<BabyBear, 63>(ctx, "babybear").Run();
  S<bn254::Fr, 63>(ctx, "bn254").Run();
  S<BabyBear, 16383>(ctx, "babybear").Large();
  S<Goldilocks, 16383>(ctx, "goldilocks").Large();
  HugeDegrees<GF7>(ctx, "gf7");
  HugeDegrees<BabyBear>(ctx, "babybear");
  HugeDegrees<bn254::Fr>(ctx, "bn254");
  ctx.Require("mul_dd");
  ctx.Require("div");
  ctx.Require("interpolate_values");
  ctx.Require("ev_mul");
}
