// P17: KZG openings (GWC and SHPlonk), Lagrange and coefficient commitments,
// batch commitments, groupings of openings, Pedersen commitments.
//
// The harness knows tau, so a commitment is decided by p(tau) * G.
#include <algorithm>
#include <memory>
#include <set>

#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/commitments/kzg/gwc.h"
#include "tachyon/crypto/commitments/kzg/shplonk.h"
#include "tachyon/crypto/commitments/pedersen/pedersen.h"
#include "tachyon/crypto/commitments/polynomial_openings.h"
#include "tachyon/crypto/transcripts/transcript.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "vh/vh.h"
#if VH_SET == 1
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
using Curve = tachyon::math::bn254::BN254Curve;
#else
#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
using Curve = tachyon::math::bls12_381::BLS12_381Curve;
#endif

namespace cr = tachyon::crypto;
namespace math = tachyon::math;
namespace base = tachyon::base;
using vh::Ctx;
using vh::Rng;
using G1 = Curve::G1Curve::AffinePoint;
using G1J = Curve::G1Curve::JacobianPoint;
using G2 = Curve::G2Curve::AffinePoint;
using F = G1::ScalarField;
constexpr size_t kMax = 31;
using GWC = cr::GWC<Curve, kMax, G1>;
using SHP = cr::SHPlonk<Curve, kMax, G1>;
using Poly = GWC::Poly;
using Evals = GWC::Evals;
using Domain = math::UnivariateEvaluationDomain<F, kMax>;

// A transcript of the harness' own: challenges are a hash chain over what was
// written to it. Claims aren't absorbed, so that a rejection is always due to
// the algebra and never to diverging challenges.
struct Chain {
  uint64_t s = 77;
  void Absorb(const std::string& x) { s = vh::Mix(s ^ vh::HashStr(x)); }
  F Squeeze() {
    F r = F::Zero();
    for (int i = 0; i < 4; ++i) {
      s = vh::Mix(s + 0x9e3779b97f4a7c15ull);
      r *= F(uint64_t{1} << 62);
      r += F(s >> 2);
    }
    return r;
  }
};
struct Writer : public cr::TranscriptWriter<G1> {
  Chain c;
  explicit Writer(uint64_t seed) { c.s = seed; }
  F SqueezeChallenge() override { return c.Squeeze(); }
  bool WriteToTranscript(const G1& p) override { c.Absorb(p.ToString()); return true; }
  bool WriteToTranscript(const F& p) override { c.Absorb(p.ToString()); return true; }
  bool DoWriteToProof(const G1& p) override { items.push_back(p); return true; }
  bool DoWriteToProof(const F&) override { return false; }
  std::vector<G1> items;
};
struct Reader : public cr::TranscriptReader<G1> {
  Chain c;
  Reader(uint64_t seed, std::vector<G1> v) : items(std::move(v)) { c.s = seed; }
  F SqueezeChallenge() override { return c.Squeeze(); }
  bool WriteToTranscript(const G1& p) override { c.Absorb(p.ToString()); return true; }
  bool WriteToTranscript(const F& p) override { c.Absorb(p.ToString()); return true; }
  bool DoReadFromProof(G1* p) const override {
    if (at >= items.size()) return false;
    *p = items[at++];
    return true;
  }
  bool DoReadFromProof(F*) const override { return false; }
  std::vector<G1> items;
  mutable size_t at = 0;
};

F RandF(Rng& r) {
  Chain c;
  c.s = r.U64();
  return c.Squeeze();
}
F EdgeF(Rng& r) {
  switch (r.Below(8)) {
    case 0: return F::Zero();
    case 1: return F::One();
    case 2: return -F::One();
    case 3: return F(r.Below(10));
    default: return RandF(r);
  }
}
F Pow(F x, size_t k) {
  F r = F::One();
  while (k--) r *= x;
  return r;
}
// evaluation with the coefficients read one by one
F Eval(const std::vector<F>& c, const F& x) {
  F r = F::Zero(), p = F::One();
  for (auto& a : c) {
    r += a * p;
    p *= x;
  }
  return r;
}
G1 Mul(const F& k) { return (G1::Generator() * k).ToAffine(); }
std::vector<F> RandCoeffs(Rng& r, size_t n) {
  size_t len = r.Chance(1, 8) ? 0 : r.Chance(1, 3) ? n : 1 + r.Below(n);
  std::vector<F> c;
  bool sparse = r.Chance(1, 4);
  for (size_t i = 0; i < len; ++i) c.push_back(sparse && r.Chance(3, 4) ? F::Zero() : EdgeF(r));
  return c;
}
Poly MakePoly(std::vector<F> c) { return Poly(Poly::Coefficients(std::move(c), true)); }
std::vector<F> CoeffsOf(const Poly& p) { return p.coefficients().coefficients(); }
G1 ToA(const G1& p) { return p; }
template <typename P> G1 ToA(const P& p) { return p.ToAffine(); }

template <typename PCS>
struct Setup {
  PCS pcs;
  F tau;
  size_t n;
};
template <typename PCS>
std::unique_ptr<Setup<PCS>> MakeSetup(Ctx& ctx, size_t n, const F& tau) {
  auto s = std::make_unique<Setup<PCS>>();
  s->tau = tau;
  s->n = n;
  ctx.CheckF(s->pcs.UnsafeSetup(n, tau), "setup_succeeds", [&] { return "n=" + std::to_string(n) + " tau=" + tau.ToString(); });
  return s;
}

template <typename PCS>
void Srs(Ctx& ctx, const char* name) {
  if (!ctx.Section(std::string("srs/") + name)) return;
  size_t total = ctx.N(24, 200);
  for (size_t it = 0; it < total && ctx.TimeLeft(); ++it) {
    size_t n = size_t{1} << (it % 6);
    auto domain = Domain::Create(n);
    F w = domain->group_gen();
    size_t k = ctx.rng.Below(n);
    F tau = it % 4 == 1 ? Pow(w, k) : it % 8 == 2 ? EdgeF(ctx.rng) : RandF(ctx.rng);
    ctx.Case("n=" + std::to_string(n) + " tau=" + tau.ToString());
    auto s = MakeSetup<PCS>(ctx, n, tau);
    auto show = [&] { return "n=" + std::to_string(n) + " tau=" + tau.ToString(); };
    auto& pw = s->pcs.kzg().g1_powers_of_tau();
    auto& lg = s->pcs.kzg().g1_powers_of_tau_lagrange();
    ctx.CheckF(s->pcs.N() == n && pw.size() == n && lg.size() == n && s->pcs.D() == n - 1, "srs_size", show);
    bool ok = true, okl = true;
    F t = F::One();
    for (size_t i = 0; i < n && i < pw.size() && i < lg.size(); ++i) {
      ok &= pw[i] == Mul(t);
      t *= tau;
      // L_i(tau) = prod_{j != i} (tau - w^j) / (w^i - w^j)
      F num = F::One(), den = F::One();
      for (size_t j = 0; j < n; ++j)
        if (j != i) {
          num *= tau - Pow(w, j);
          den *= Pow(w, i) - Pow(w, j);
        }
      okl &= lg[i] == Mul(num * *den.Inverse());
    }
    ctx.CheckF(ok, "srs_powers_of_tau", show);
    ctx.CheckF(okl, "srs_lagrange_basis", show);
    ctx.CheckF(s->pcs.s_g2() == (G2::Generator() * tau).ToAffine(), "srs_tau_g2", show);
    ctx.Distinct(vh::HashStr(show()));
  }
}

// KZG by itself, with the interface of the schemes built on it
template <typename Commitment>
struct Bare {
  cr::KZG<G1, kMax, Commitment> k;
  cr::BatchCommitmentState st;
  const auto& kzg() const { return k; }
  bool UnsafeSetup(size_t n, const F& tau) { return k.UnsafeSetup(n, tau); }
  bool Commit(const Poly& p, Commitment* c) const { return k.Commit(p.coefficients().coefficients(), c); }
  bool CommitLagrange(const Evals& p, Commitment* c) const { return k.CommitLagrange(p.evaluations(), c); }
  bool Commit(const Poly& p, size_t i) { return k.Commit(p.coefficients().coefficients(), st, i); }
  bool CommitLagrange(const Evals& p, size_t i) { return k.CommitLagrange(p.evaluations(), st, i); }
  void SetBatchMode(size_t n) {
    st = cr::BatchCommitmentState(true, n);
    k.ResizeBatchCommitments(n);
  }
  bool GetBatchMode() const { return st.batch_mode; }
  std::vector<Commitment> GetBatchCommitments() { return k.GetBatchCommitments(st); }
};

template <typename K, typename Commitment>
void Commit(Ctx& ctx, const char* name) {
  using KZ = cr::KZG<G1, kMax, Commitment>;
  if (!ctx.Section(std::string("commit/") + name)) return;
  size_t total = ctx.N(60, 500);
  std::unique_ptr<Setup<K>> s;
  for (size_t it = 0; it < total && ctx.TimeLeft(); ++it) {
    if (it % 6 == 0) {
      size_t n = size_t{1} << ctx.rng.Below(6);
      s = MakeSetup<K>(ctx, n, it % 12 == 6 ? EdgeF(ctx.rng) : RandF(ctx.rng));
    }
    size_t n = s->n;
    auto domain = Domain::Create(n);
    std::vector<F> c = RandCoeffs(ctx.rng, n);
    if (c.empty()) c.push_back(F::Zero());
    std::string desc = "n=" + std::to_string(n) + " coeffs=" + std::to_string(c.size()) + " tau=" + s->tau.ToString();
    ctx.Case(desc);
    auto show = [&] { return desc; };
    G1 want = Mul(Eval(c, s->tau));
    Commitment got;
    // the zero polynomial without coefficients is refused by the MSM
    Poly p = MakePoly(c);
    bool zero = CoeffsOf(p).empty();
    if (!zero) ctx.CheckF(s->pcs.Commit(p, &got) && ToA(got) == want, "commit_is_p_of_tau", show);
    ctx.CheckF(s->pcs.kzg().Commit(c, &got) && ToA(got) == want, "commit_coefficients", show);
    std::vector<F> ev(n);
    for (size_t i = 0; i < n; ++i) ev[i] = Eval(c, Pow(domain->group_gen(), i));
    ctx.CheckF(s->pcs.CommitLagrange(Evals(ev), &got) && ToA(got) == want, "commit_lagrange_is_p_of_tau", show);
    std::vector<F> big(n + 1 + ctx.rng.Below(3), F::One());
    if (big.size() <= kMax + 1) {
      ctx.CheckF(!s->pcs.kzg().Commit(big, &got), "too_large_degree_refused", show);
      ctx.CheckF(!s->pcs.CommitLagrange(Evals(big), &got), "too_many_evaluations_refused", show);
    }
    // batch mode, indices in any order, twice in a row
    for (int round = 0; round < 2; ++round) {
      size_t k = 1 + ctx.rng.Below(5);
      std::vector<G1> wants(k);
      std::vector<size_t> order(k);
      for (size_t i = 0; i < k; ++i) order[i] = i;
      for (size_t i = k; i-- > 1;) std::swap(order[i], order[ctx.rng.Below(i + 1)]);
      s->pcs.SetBatchMode(k);
      bool ok = s->pcs.GetBatchMode();
      for (size_t i : order) {
        std::vector<F> cc = RandCoeffs(ctx.rng, n);
        cc.resize(std::max<size_t>(cc.size(), 1), F::One());
        wants[i] = Mul(Eval(cc, s->tau));
        Poly q = MakePoly(cc);
        if (ctx.rng.Bool()) {
          std::vector<F> e(n);
          for (size_t j = 0; j < n; ++j) e[j] = Eval(cc, Pow(domain->group_gen(), j));
          ok &= s->pcs.CommitLagrange(Evals(e), i);
        } else {
          if (CoeffsOf(q).empty()) {
            q = MakePoly({F::One()});
            wants[i] = G1::Generator();
          }
          ok &= s->pcs.Commit(q, i);
        }
      }
      std::vector<Commitment> out = s->pcs.GetBatchCommitments();
      ok &= out.size() == k && !s->pcs.GetBatchMode();
      for (size_t i = 0; ok && i < k; ++i) ok = ToA(out[i]) == wants[i];
      ctx.CheckF(ok, "batch_commitments_match", [&] { return desc + " batch=" + std::to_string(k); });
      ctx.Count("batch", k);
    }
    if (it % 6 == 5 && n > 1) {
      KZ small = s->pcs.kzg();
      size_t m = n / 2;
      ctx.CheckF(!small.Downsize(n) && !small.Downsize(n + 1) && small.N() == n, "downsize_up_refused", show);
      bool ok = small.Downsize(m) && small.N() == m;
      std::vector<F> cc = RandCoeffs(ctx.rng, m);
      cc.resize(std::max<size_t>(cc.size(), 1), F::One());
      G1 w = Mul(Eval(cc, s->tau));
      ok = ok && small.Commit(cc, &got) && ToA(got) == w;
      ctx.CheckF(ok, "downsized_commit", show);
      auto d2 = Domain::Create(m);
      std::vector<F> e(m);
      for (size_t j = 0; j < m; ++j) e[j] = Eval(cc, Pow(d2->group_gen(), j));
      ctx.CheckF(small.CommitLagrange(e, &got) && ToA(got) == w, "downsized_commit_lagrange", show);
    }
    ctx.Distinct(vh::HashStr(desc + want.ToString()));
  }
}

struct Claim {
  size_t poly, point;
};
struct Instance {
  std::vector<Poly> polys;
  std::vector<G1> comms;
  std::vector<F> points;
  std::vector<Claim> claims;
  std::string desc;
};
Instance MakeInstance(Rng& r, size_t n, const F& tau, bool dups) {
  Instance t;
  size_t m = 1 + r.Below(r.Chance(1, 5) ? 12 : 5);
  size_t np = 1 + r.Below(std::min<size_t>(n, r.Chance(1, 5) ? 8 : 4));
  auto domain = Domain::Create(n);
  while (t.points.size() < np) {
    F x = r.Chance(1, 3) ? Pow(domain->group_gen(), r.Below(n)) : r.Chance(1, 12) ? tau : EdgeF(r);
    if (std::find(t.points.begin(), t.points.end(), x) == t.points.end()) t.points.push_back(x);
  }
  for (size_t i = 0; i < m; ++i) {
    std::vector<F> c = RandCoeffs(r, n);
    if (i && r.Chance(1, 8)) c = CoeffsOf(t.polys[r.Below(i)]);
    t.polys.push_back(MakePoly(c));
    t.comms.push_back(Mul(Eval(c, tau)));
  }
  t.desc = "n=" + std::to_string(n) + " polys=" + std::to_string(m) + " points=" + std::to_string(np) + " claims=";
  // similar subsets are likely, so that groups have several members
  std::vector<std::vector<size_t>> sets;
  for (size_t i = 0; i < m; ++i) {
    std::vector<size_t> s;
    if (!sets.empty() && r.Bool()) {
      s = r.Pick(sets);
    } else {
      for (size_t j = 0; j < np; ++j) if (r.Bool()) s.push_back(j);
      if (s.empty()) s.push_back(r.Below(np));
      sets.push_back(s);
    }
    for (size_t j : s) t.claims.push_back({i, j});
  }
  for (size_t i = t.claims.size(); i-- > 1;)
    if (r.Chance(2, 3)) std::swap(t.claims[i], t.claims[r.Below(i + 1)]);
  if (dups && r.Chance(1, 6)) t.claims.push_back(r.Pick(t.claims));
  for (auto& c : t.claims) t.desc += std::to_string(c.poly) + "@" + std::to_string(c.point) + " ";
  return t;
}

template <typename PCS>
void Openings(Ctx& ctx, const char* name) {
  if (!ctx.Section(std::string("openings/") + name)) return;
  using PO = cr::PolynomialOpening<Poly>;
  using VO = cr::PolynomialOpening<Poly, G1>;
  size_t total = ctx.N(30, 300);
  std::unique_ptr<Setup<PCS>> s, other;
  PCS loaded;
  for (size_t it = 0; it < total && ctx.TimeLeft(); ++it) {
    Rng& r = ctx.rng;
    if (it % 5 == 0) {
      size_t n = size_t{1} << (it == 0 ? 0 : 1 + r.Below(5));
      s = MakeSetup<PCS>(ctx, n, RandF(r));
      other = MakeSetup<PCS>(ctx, n, RandF(r));
      base::Uint8VectorBuffer buf;
      PCS l;
      bool ok = buf.Grow(base::EstimateSize(s->pcs)) && buf.Write(s->pcs) && buf.Done();
      buf.set_buffer_offset(0);
      ok = ok && buf.Read(&l);
      ctx.CheckF(ok && l.N() == n, "setup_reads_back", [&] { return "n=" + std::to_string(n); });
      loaded = std::move(l);
    }
    size_t n = s->n;
    Instance t = MakeInstance(r, n, s->tau, true);
    ctx.Case(t.desc);
    uint64_t seed = r.U64();
    std::vector<PO> po;
    std::vector<F> vals;
    bool allzero = true;
    for (auto& c : t.claims) {
      F y = Eval(CoeffsOf(t.polys[c.poly]), t.points[c.point]);
      vals.push_back(y);
      po.push_back(PO(base::Ref<const Poly>(&t.polys[c.poly]), t.points[c.point], y));
      allzero &= CoeffsOf(t.polys[c.poly]).size() <= 1;
    }
    auto show = [&] { return t.desc; };
    Writer w(seed);
    bool made = s->pcs.CreateOpeningProof(po, &w);
    ctx.CheckF(made, "honest_proof_created", show);
    if (!made) continue;
    auto verify = [&](const PCS& pcs, const std::vector<G1>& comms, const std::vector<F>& ys,
                      const std::vector<F>& points, const std::vector<G1>& items,
                      const std::vector<Claim>& claims) {
      std::vector<VO> vo;
      for (size_t i = 0; i < claims.size(); ++i)
        vo.push_back(VO(base::Ref<const G1>(&comms[claims[i].poly]), points[claims[i].point], ys[i]));
      Reader rd(seed, items);
      return pcs.VerifyOpeningProof(vo, &rd);
    };
    ctx.CheckF(verify(s->pcs, t.comms, vals, t.points, w.items, t.claims), "honest_opening_accepted", show);
    ctx.CheckF(verify(loaded, t.comms, vals, t.points, w.items, t.claims), "accepted_with_a_loaded_setup", show);
    {
      Writer w2(seed);
      PCS& which = r.Bool() ? loaded : s->pcs;
      ctx.CheckF(which.CreateOpeningProof(po, &w2) && w2.items == w.items, "proof_reproducible", show);
    }
    ctx.Count("points", t.points.size());
    ctx.Count("claims", t.claims.size());
    // false claims
    auto rejects = [&](bool accepted, const char* what, const std::string& how) {
      ctx.CheckF(!accepted, (std::string("rejects_") + what).c_str(), [&] { return how + " | " + t.desc; });
      ctx.Count(std::string("altered_") + what);
    };
    bool dup = t.claims.size() > 1 && [&] {
      std::set<std::pair<size_t, size_t>> seen;
      for (auto& c : t.claims) if (!seen.insert({c.poly, c.point}).second) return true;
      return false;
    }();
    if (!dup) {  // a contradictory second claim of one opening isn't a claim
      size_t i = r.Below(t.claims.size());
      auto ys = vals;
      F d = r.Bool() ? F::One() : RandF(r);
      ys[i] += d;
      rejects(verify(s->pcs, t.comms, ys, t.points, w.items, t.claims), "wrong_value", "claim " + std::to_string(i));
      if (ys.size() > 1) {
        size_t j = (i + 1 + r.Below(ys.size() - 1)) % ys.size();
        ys[j] -= d;
        rejects(verify(s->pcs, t.comms, ys, t.points, w.items, t.claims), "compensating_values",
                "claims " + std::to_string(i) + "," + std::to_string(j));
        ys = vals;
        if (ys[i] != ys[j]) {
          std::swap(ys[i], ys[j]);
          rejects(verify(s->pcs, t.comms, ys, t.points, w.items, t.claims), "swapped_values",
                  "claims " + std::to_string(i) + "," + std::to_string(j));
        }
      }
      // another point
      size_t k = r.Below(t.points.size());
      auto pts = t.points;
      F x = RandF(r);
      pts[k] = x;
      bool differs = false;
      for (size_t q = 0; q < t.claims.size(); ++q)
        if (t.claims[q].point == k && Eval(CoeffsOf(t.polys[t.claims[q].poly]), x) != vals[q]) differs = true;
      if (differs) rejects(verify(s->pcs, t.comms, vals, pts, w.items, t.claims), "other_point", "point " + std::to_string(k));
      // another commitment
      k = r.Below(t.comms.size());
      auto cs = t.comms;
      if (r.Bool() && cs.size() > 1) {
        size_t q = (k + 1) % cs.size();
        std::swap(cs[k], cs[q]);
        bool bad = false;
        for (size_t z = 0; z < t.claims.size(); ++z) {
          size_t p = t.claims[z].poly;
          size_t src = p == k ? q : p == q ? k : p;
          if (Eval(CoeffsOf(t.polys[src]), t.points[t.claims[z].point]) != vals[z]) bad = true;
        }
        if (bad) rejects(verify(s->pcs, cs, vals, t.points, w.items, t.claims), "swapped_commitments", "poly " + std::to_string(k));
      } else {
        cs[k] = (cs[k] + Mul(RandF(r))).ToAffine();
        rejects(verify(s->pcs, cs, vals, t.points, w.items, t.claims), "other_commitment", "poly " + std::to_string(k));
      }
      // another setup
      if (!allzero)
        rejects(verify(other->pcs, t.comms, vals, t.points, w.items, t.claims), "other_setup", "");
    }
    // altered proofs (a witness at the point tau itself isn't bound by the equation)
    bool at_tau = std::find(t.points.begin(), t.points.end(), s->tau) != t.points.end();
    for (size_t k = 0; k < w.items.size(); ++k) {
      auto items = w.items;
      switch (r.Below(4)) {
        case 0: items[k] = (items[k] + G1::Generator()).ToAffine(); break;
        case 1: items[k] = -items[k]; break;
        case 2: items[k] = G1::Zero(); break;
        default: items[k] = Mul(RandF(r));
      }
      if (items[k] != w.items[k] && !at_tau)
        rejects(verify(s->pcs, t.comms, vals, t.points, items, t.claims), "altered_proof", "item " + std::to_string(k));
      items = w.items;
      items.resize(k);
      rejects(verify(s->pcs, t.comms, vals, t.points, items, t.claims), "truncated_proof", "at " + std::to_string(k));
    }
    if (w.items.size() > 1) {
      auto items = w.items;
      size_t k = r.Below(items.size() - 1);
      if (items[k] != items[k + 1] && !at_tau) {
        std::swap(items[k], items[k + 1]);
        rejects(verify(s->pcs, t.comms, vals, t.points, items, t.claims), "swapped_proof_items", "item " + std::to_string(k));
      }
    }
    ctx.Distinct(vh::HashStr(t.desc + std::to_string(seed)));
  }
  ctx.Require("altered_wrong_value", 10);
  ctx.Require("altered_altered_proof", 10);
}

// The grouping of openings, over a small field and no curve.
#if VH_SET == 1
using S = math::BabyBear;
#else
using S = math::Goldilocks;
#endif
void Grouping(Ctx& ctx) {
  if (!ctx.Section("grouping")) return;
  S::Init();
  using P = math::UnivariateDensePolynomial<S, 63>;
  using PO = cr::PolynomialOpening<P>;
  size_t total = ctx.N(1500, 20000);
  for (size_t it = 0; it < total && ctx.TimeLeft(); ++it) {
    Rng& r = ctx.rng;
    size_t m = 1 + r.Below(8), np = 1 + r.Below(7);
    std::vector<P> polys;
    std::vector<S> pts;
    while (pts.size() < np) {
      S x(r.Below(r.Bool() ? 20 : 1u << 30));
      if (std::find(pts.begin(), pts.end(), x) == pts.end()) pts.push_back(x);
    }
    for (size_t i = 0; i < m; ++i) {
      std::vector<S> c;
      for (size_t j = r.Below(20); j > 0; --j) c.push_back(S(r.Below(r.Bool() ? 3 : 1u << 30)));
      polys.push_back(P(P::Coefficients(std::move(c), true)));
    }
    std::vector<PO> claims;
    std::map<std::pair<size_t, size_t>, S> want;
    std::vector<std::vector<size_t>> sets;
    std::string desc = "polys=" + std::to_string(m) + " ";
    for (size_t i = 0; i < m; ++i) {
      std::vector<size_t> s;
      if (!sets.empty() && r.Bool()) s = r.Pick(sets);
      else {
        for (size_t j = 0; j < np; ++j) if (r.Bool()) s.push_back(j);
        sets.push_back(s);
      }
      desc += "{";
      for (size_t j : s) {
        S y = S::Zero(), p = S::One();
        for (auto& a : polys[i].coefficients().coefficients()) { y += a * p; p *= pts[j]; }
        want[{i, j}] = y;
        claims.push_back(PO(base::Ref<const P>(&polys[i]), pts[j], y));
        desc += std::to_string(j) + " ";
      }
      desc += "}";
    }
    if (claims.empty()) continue;
    for (size_t i = claims.size(); i-- > 1;) std::swap(claims[i], claims[r.Below(i + 1)]);
    ctx.Case(desc);
    for (bool gwc : {true, false}) {
      cr::PolynomialOpeningGrouper<P> g;
      if (gwc) g.GroupBySinglePoint(claims);
      else g.GroupByPolyOracleAndPoints(claims);
      std::map<std::pair<size_t, size_t>, S> got;
      std::string why;
      std::set<std::vector<size_t>> groups;
      std::set<size_t> used_points, super;
      auto idx = [&](const S& x) { return size_t(std::find(pts.begin(), pts.end(), x) - pts.begin()); };
      for (auto& x : g.super_point_set()) super.insert(idx(x));
      for (auto& [k, v] : want) used_points.insert(k.second);
      if (super != used_points) why = "super point set";
      for (auto& grp : g.grouped_poly_openings_vec()) {
        std::vector<size_t> ps;
        for (auto& x : grp.points) ps.push_back(idx(x));
        auto sorted = ps;
        std::sort(sorted.begin(), sorted.end());
        if (!groups.insert(sorted).second) why = "two groups of the same points";
        if (gwc && ps.size() != 1) why = "group of several points";
        for (auto& o : grp.poly_openings_vec) {
          size_t i = o.poly_oracle.get() - polys.data();
          if (o.openings.size() != ps.size()) why = "openings per point";
          for (size_t j = 0; j < std::min(ps.size(), o.openings.size()); ++j)
            if (!got.insert({{i, ps[j]}, o.openings[j]}).second) why = "opening listed twice";
        }
        // the combined quotient times the vanishing polynomial
        S rr(r.Below(1u << 30));
        std::vector<P> lde;
        P h = grp.CreateCombinedLowDegreeExtensions(rr, lde);
        S x(r.Below(1u << 30));
        S lhs = h.Evaluate(x), rhs = S::Zero(), pw = S::One();
        for (size_t j : ps) lhs *= x - pts[j];
        for (size_t q = 0; q < grp.poly_openings_vec.size(); ++q) {
          for (size_t j : ps)
            if (lde[q].Evaluate(pts[j]) != want[{size_t(grp.poly_openings_vec[q].poly_oracle.get() - polys.data()), j}])
              why = "low degree extension";
          if (lde[q].Degree() >= std::max<size_t>(ps.size(), 1)) why = "degree of the extension";
          rhs += pw * (grp.poly_openings_vec[q].poly_oracle->Evaluate(x) - lde[q].Evaluate(x));
          pw *= rr;
        }
        ctx.CheckF(lhs == rhs, "combined_quotient", [&] { return std::string(gwc ? "gwc " : "shplonk ") + desc; });
      }
      if (why.empty() && got != want) why = "openings lost or changed";
      ctx.CheckF(why.empty(), "groups_partition_the_openings", [&] { return std::string(gwc ? "gwc " : "shplonk ") + why + " | " + desc; });
    }
    ctx.Distinct(vh::HashStr(desc));
  }
}

template <typename Commitment>
void Ped(Ctx& ctx, const char* name) {
  if (!ctx.Section(std::string("pedersen/") + name)) return;
  using V = cr::Pedersen<G1, 40, Commitment>;
  size_t total = ctx.N(30, 300);
  V v;
  for (size_t it = 0; it < total && ctx.TimeLeft(); ++it) {
    Rng& r = ctx.rng;
    if (it % 5 == 0) {
      size_t n = it == 0 ? 1 : 1 + r.Below(40);
      if (it % 10 == 0) {
        V fresh;
        bool ok = fresh.Setup(n) && fresh.N() == n;
        for (auto g : fresh.generators()) ok &= g.IsOnCurve() && !g.IsZero();
        std::set<std::string> seen;
        for (auto& g : fresh.generators()) seen.insert(g.ToString());
        seen.insert(fresh.h().ToString());
        ctx.CheckF(ok && seen.size() == n + 1, "pedersen_setup", [&] { return "n=" + std::to_string(n); });
        v = fresh;
      } else {
        std::vector<G1> g;
        for (size_t i = 0; i < n; ++i) g.push_back(Mul(r.Chance(1, 6) ? F(r.Below(3)) : RandF(r)));
        v = V(Mul(RandF(r)), std::move(g));
      }
    }
    size_t n = v.N();
    std::vector<F> x;
    for (size_t i = 0; i < n; ++i) x.push_back(EdgeF(r));
    F rr = EdgeF(r);
    std::string desc = "n=" + std::to_string(n) + " r=" + rr.ToString();
    ctx.Case(desc);
    auto sum = [&](const std::vector<F>& x, const F& rr) {
      G1J acc = v.h() * rr;
      for (size_t i = 0; i < n; ++i) acc += v.generators()[i] * x[i];
      return acc.ToAffine();
    };
    Commitment got;
    ctx.CheckF(v.Commit(x, rr, &got) && ToA(got) == sum(x, rr), "pedersen_commitment_is_sum", [&] { return desc; });
    auto bad = x;
    bad.resize(r.Bool() ? n + 1 : n - 1, F::One());
    ctx.CheckF(!v.Commit(bad, rr, &got), "pedersen_wrong_size_refused", [&] { return desc; });
    size_t k = 1 + r.Below(4);
    std::vector<std::vector<F>> xs;
    std::vector<F> rs;
    v.SetBatchMode(k);
    bool ok = true;
    for (size_t i = 0; i < k; ++i) {
      xs.push_back(x);
      for (auto& a : xs.back()) if (r.Bool()) a = EdgeF(r);
      rs.push_back(RandF(r));
      ok &= v.Commit(xs[i], rs[i], i);
    }
    std::vector<Commitment> out = v.GetBatchCommitments();
    bool blinded = out.size() == k, plain = out.size() == k;
    for (size_t i = 0; i < k && i < out.size(); ++i) {
      blinded &= ToA(out[i]) == sum(xs[i], rs[i]);
      plain &= ToA(out[i]) == sum(xs[i], F::Zero());
    }
    ctx.CheckF(ok && (blinded || plain), "pedersen_batch_is_vector_sum", [&] { return desc + " k=" + std::to_string(k); });
    ctx.CheckF(blinded, "pedersen_batch_is_blinded", [&] { return desc + " k=" + std::to_string(k); });
    ctx.Distinct(vh::HashStr(desc + sum(x, rr).ToString()));
  }
}

void vh_main(Ctx& ctx) {
  Curve::Init();
  Srs<GWC>(ctx, "gwc");
  Srs<SHP>(ctx, "shplonk");
  using Bucket = math::Pippenger<G1>::Bucket;
  Commit<GWC, G1>(ctx, "gwc");
  Commit<SHP, G1>(ctx, "shplonk");
  Commit<Bare<Bucket>, Bucket>(ctx, "kzg_bucket");
  Commit<Bare<G1J>, G1J>(ctx, "kzg_jacobian");
  Openings<GWC>(ctx, "gwc");
  Openings<SHP>(ctx, "shplonk");
  Grouping(ctx);
  Ped<G1>(ctx, "affine");
  Ped<Bucket>(ctx, "bucket");
}
