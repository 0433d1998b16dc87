// P18: FRI. Honest commitments open to the committed polynomials' values and
// verify; no altered proof, claim, commitment or shape verifies or aborts.
#include <memory>
#include <set>
#include <vector>

#include "tachyon/crypto/challenger/duplex_challenger.h"
#include "tachyon/crypto/commitments/fri/simple_fri.h"
#include "tachyon/crypto/commitments/fri/two_adic_fri.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/simple_binary_merkle_tree_storage.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/extension_field_merkle_tree_mmcs.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h"
#include "tachyon/crypto/hashes/sponge/padding_free_sponge.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_koala_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_params.h"
#include "tachyon/crypto/hashes/sponge/truncated_permutation.h"
#include "tachyon/crypto/transcripts/simple_transcript.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/packed_baby_bear4.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "vh/exts.h"
#include "vh/vh.h"

using namespace tachyon;
using vh::Ctx;

namespace {

template <typename F_, typename ExtF_, typename PF>
struct Types {
  using F = F_;
  using ExtF = ExtF_;
  static constexpr auto V = crypto::Poseidon2Vendor::kPlonky3;
  using P2 = crypto::Poseidon2Sponge<crypto::Poseidon2Params<V, V, F, 15, 7>>;
  using PP2 = crypto::Poseidon2Sponge<crypto::Poseidon2Params<V, V, PF, 15, 7>>;
  using H = crypto::PaddingFreeSponge<P2, 8, 8>;
  using PH = crypto::PaddingFreeSponge<PP2, 8, 8>;
  using T = crypto::TruncatedPermutation<P2, 8, 2>;
  using PT = crypto::TruncatedPermutation<PP2, 8, 2>;
  using MMCS = crypto::FieldMerkleTreeMMCS<F, H, PH, T, PT, 8>;
  using Inner = crypto::FieldMerkleTreeMMCS<ExtF, H, PH, T, PT, 8>;
  using CMMCS = crypto::ExtensionFieldMerkleTreeMMCS<ExtF, Inner>;
  using Challenger = crypto::DuplexChallenger<P2, 8>;
  using PCS = crypto::TwoAdicFRI<ExtF, MMCS, CMMCS, Challenger>;
  using Domain = crypto::TwoAdicMultiplicativeCoset<F>;
};

template <typename T, typename E>
E Eval(const std::vector<T>& v, const E& x) {
  E r = E::Zero();
  for (size_t i = v.size(); i-- > 0;) r = r * x + E(v[i]);
  return r;
}

template <typename E>
E NPow(E b, uint64_t e) {
  E r = E::One();
  for (; e; e >>= 1) {
    if (e & 1) r = r * b;
    b = b * b;
  }
  return r;
}

template <typename T>
void Cosets(Ctx& c, const char* name) {
  using F = typename T::F;
  using X = typename T::ExtF;
  using D = typename T::Domain;
  if (!c.Section(std::string(name) + "/coset")) return;
  F gen = F::FromMontgomery(F::Config::kSubgroupGenerator);
  for (size_t k = 0; k < c.N(120, 3000) && c.TimeLeft(); ++k) {
    uint32_t lg = k < 16 ? k / 2 : c.rng.Below(9);
    size_t n = size_t{1} << lg;
    F shift = k % 3 == 0 ? F::One() : vh::EV<F>::Rand(c.rng);
    if (shift.IsZero()) continue;
    D d(lg, shift);
    std::string s = std::string(name) + " 2^" + std::to_string(lg) + " shift " + shift.ToString();
    c.Case(s);
    c.Distinct(vh::HashStr(s));
    c.Sample(s);
    // elements: n distinct n-th roots times the shift
    std::vector<F> el(n);
    F g = d.domain()->group_gen();
    F cur = shift;
    std::set<std::string> seen;
    bool okel = true;
    for (size_t i = 0; i < n; ++i, cur *= g) {
      el[i] = cur;
      okel = okel && d.domain()->GetElement(i) == cur && seen.insert(cur.ToString()).second;
    }
    c.CheckF(okel && cur == shift && d.domain()->size() == n, "coset_elements", [&] { return s; });
    X x = vh::EV<X>::Rand(c.rng);
    c.CheckF(d.GetNextPoint(x) == x * g, "next_point", [&] { return s; });
    auto zp = [&](const X& p) {  // product form, normalised by shift^n
      X r = X::One();
      for (const F& e : el) r = r * (p - X(e));
      F sn = NPow(shift, n);
      return r * X(sn.Inverse().value());
    };
    c.CheckF(d.GetZpAtPoint(x) == zp(x), "zp", [&] { return s; });
    c.CheckF(d.GetZpAtPoint(X(el[c.rng.Below(n)])).IsZero(), "zp_root", [&] { return s; });
    for (uint32_t lc = 0; lc <= lg && lc <= 4; ++lc) {
      auto ch = d.SplitDomains(size_t{1} << lc);
      bool ok = ch.size() == (size_t{1} << lc);
      for (size_t i = 0; ok && i < ch.size(); ++i) {
        ok = ch[i].domain()->size() == n >> lc;
        for (size_t j = 0; ok && j < (n >> lc); ++j) ok = ch[i].domain()->GetElement(j) == el[i + (j << lc)];
      }
      c.CheckF(ok, "split", [&] { return s + " into 2^" + std::to_string(lc); });
    }
    {
      size_t want = 1 + c.rng.Below(300);
      D dj = d.CreateDisjointDomain(want);
      bool ok = dj.domain()->size() >= want && dj.domain()->size() < 2 * want;
      for (size_t j = 0; ok && j < dj.domain()->size(); ++j)
        ok = !d.GetZpAtPoint(X(dj.domain()->GetElement(j))).IsZero();
      c.CheckF(ok, "disjoint", [&] { return s + " at least " + std::to_string(want); });
    }
    {
      auto sel = d.GetSelectorsAtPoint(x);
      X u = x * X(shift.Inverse().value());
      X z = zp(x);
      X gi = X(g.Inverse().value());
      c.CheckF(sel.first_row * (u - X::One()) == z && sel.last_row * (u - gi) == z &&
                   sel.transition == u - gi && sel.inv_zeroifier * z == X::One(),
               "selectors_at_point", [&] { return s; });
    }
    if (shift.IsOne()) {
      uint32_t extra = c.rng.Below(4);
      D co(lg + extra, c.rng.Bool() ? gen : vh::EV<F>::Rand(c.rng));
      F o = co.domain()->offset();
      if (o.IsZero() || d.GetZpAtPoint(X(NPow(o, 1 << extra))).IsZero()) continue;
      bool meets = false;
      for (size_t j = 0; j < co.domain()->size(); ++j)
        meets = meets || d.GetZpAtPoint(X(co.domain()->GetElement(j))).IsZero();
      if (meets) continue;
      auto sel = d.GetSelectorsOnCoset(co);
      bool ok = sel.first_row.size() == n << extra && sel.last_row.size() == n << extra &&
                sel.transition.size() == n << extra && sel.inv_zeroifier.size() == n << extra;
      F gi = g.Inverse().value();
      for (size_t j = 0; ok && j < (n << extra); ++j) {
        F y = co.domain()->GetElement(j);
        F z = NPow(y, n) - F::One();
        ok = sel.first_row[j] * (y - F::One()) == z && sel.last_row[j] * (y - gi) == z &&
             sel.transition[j] == y - gi && sel.inv_zeroifier[j] * z == F::One();
      }
      c.CheckF(ok, "selectors_on_coset", [&] { return s + " coset 2^" + std::to_string(lg + extra) + " shift " + o.ToString(); });
      c.Count("selector cosets", extra ? 1 : 0);
    }
  }
}

template <typename T>
void Fold(Ctx& c, const char* name) {
  using F = typename T::F;
  using X = typename T::ExtF;
  if (!c.Section(std::string(name) + "/fold")) return;
  for (size_t k = 0; k < c.N(60, 2000) && c.TimeLeft(); ++k) {
    uint32_t lg = k < 8 ? k : c.rng.Below(8);  // rows
    size_t n = size_t{1} << lg;
    std::string s = std::string(name) + " rows 2^" + std::to_string(lg) + " #" + std::to_string(k);
    c.Case(s);
    std::vector<X> p(1 + c.rng.Below(2 * n)), ev, od;
    for (auto& e : p) e = vh::EV<X>::Any(c.rng);
    for (size_t i = 0; i < p.size(); ++i) (i % 2 ? od : ev).push_back(p[i]);
    X beta = vh::EV<X>::Any(c.rng);
    F w, w2;
    c.CheckF(F::GetRootOfUnity(2 * n, &w) && F::GetRootOfUnity(n, &w2), "prover_succeeds", [&] { return std::string("no roots of unity"); });
    auto rev = [](size_t x, uint32_t bits) {
      size_t r = 0;
      for (uint32_t i = 0; i < bits; ++i) r |= ((x >> i) & 1) << (bits - 1 - i);
      return r;
    };
    math::RowMajorMatrix<X> m(n, 2);
    for (size_t i = 0; i < 2 * n; ++i) m(i / 2, i % 2) = Eval(p, X(NPow(w, rev(i, lg + 1))));
    auto got = crypto::FoldMatrix(beta, m);
    bool ok = got.size() == n, row = true;
    for (size_t i = 0; ok && i < n; ++i) {
      X x = X(NPow(w2, rev(i, lg)));
      X want = Eval(ev, x) + beta * Eval(od, x);
      ok = got[i] == want;
      row = row && crypto::FoldRow(i, lg, beta, std::vector<X>{m(i, 0), m(i, 1)}) == want;
    }
    c.CheckF(ok, "fold_matrix", [&] { return s; });
    c.CheckF(row, "fold_row", [&] { return s; });
    c.Distinct(vh::HashBytes(m.data(), sizeof(X) * 2 * n));
  }
}

// A prover that commits to a function which is no low-degree polynomial, with
// the real prover's code: every query that meets the disturbed part differs
// from the claimed final evaluation, and one is enough to refuse the proof.
template <typename T>
void Cheat(Ctx& c, const char* name) {
  using F = typename T::F;
  using X = typename T::ExtF;
  using PCS = typename T::PCS;
  using Challenger = typename T::Challenger;
  if (!c.Section(std::string(name) + "/far_function")) return;
#if !DCHECK_IS_ON()
  auto rev = [](size_t x, uint32_t bits) {
    size_t r = 0;
    for (uint32_t i = 0; i < bits; ++i) r |= ((x >> i) & 1) << (bits - 1 - i);
    return r;
  };
  for (size_t k = 0; k < c.N(60, 1500) && c.TimeLeft(); ++k) {
    uint32_t blowup = 1 + c.rng.Below(3), lg = c.rng.Below(6);
    size_t queries = 1 + c.rng.Below(6), pow = c.rng.Below(5);
    size_t nb = size_t{1} << blowup;
    std::vector<std::vector<X>> in;
    for (uint32_t l = lg + 1; l-- > 0;) {
      if (l != lg && (l == 0 || c.rng.Chance(1, 2))) continue;
      std::vector<X> p(size_t{1} << l), e(p.size() << blowup);
      for (auto& x : p) x = vh::EV<X>::Any(c.rng);
      F w;
      (void)F::GetRootOfUnity(e.size(), &w);
      for (size_t i = 0; i < e.size(); ++i) e[i] = Eval(p, X(NPow(w, rev(i, l + blowup))));
      in.push_back(std::move(e));
    }
    // blocks of positions that end at the same folded value
    std::vector<bool> bad(nb);
    bool any = false;
    if (k % 4)
      for (size_t b = 0; b < nb; ++b) bad[b] = c.rng.Chance(1, nb > 2 ? 3 : 2), any = any || bad[b];
    for (size_t b = 0; b < nb; ++b) {
      if (!bad[b]) continue;
      size_t n = 1 + c.rng.Below(size_t{1} << lg);
      for (size_t i = 0; i < n; ++i) {
        X r = vh::EV<X>::Rand(c.rng);
        in[0][(b << lg) + (n == 1 ? c.rng.Below(size_t{1} << lg) : i)] += r;
      }
    }
    std::string s = std::string(name) + " blowup " + std::to_string(blowup) + " 2^" + std::to_string(lg) + " inputs " +
                    std::to_string(in.size()) + " queries " + std::to_string(queries) + " pow " + std::to_string(pow) + " bad";
    for (size_t b = 0; b < nb; ++b) s += bad[b] ? "1" : "0";
    c.Case(s);
    auto copy = in;
    crypto::FRIConfig<typename T::CMMCS> cfg{blowup, queries, pow, typename T::CMMCS{typename T::Inner()}};
    Challenger pc, vc;
    for (Challenger* ch : {&pc, &vc}) ch->Observe(F((uint32_t)k));
    std::vector<size_t> asked;
    auto proof = crypto::fri::Prove<PCS>(cfg, std::move(copy), pc, [&](size_t index) {
      asked.push_back(index);
      return std::vector<crypto::BatchOpening<PCS>>();
    });
    size_t at = 0;
    bool same = true;
    bool ok = crypto::fri::Verify<PCS>(cfg, proof, vc, [&](size_t index, const auto&, std::vector<size_t>& rows, std::vector<X>& vals) {
      same = same && at < asked.size() && asked[at++] == index;
      for (auto& v : in) {
        uint32_t l = __builtin_ctzll(v.size());
        rows.push_back(l);
        vals.push_back(v[index >> (lg + blowup - l)]);
      }
      return true;
    });
    bool want = asked.size() == queries;
    for (size_t i : asked) want = want && (bad[0] ? (i >> lg) == 0 : !bad[i >> lg]);
    auto d = [&] {
      std::string q;
      for (size_t i : asked) q += " " + std::to_string(i);
      return s + " queries at" + q + (ok ? " accepted" : " refused");
    };
    c.CheckF(same, "same_queries", d);
    c.CheckF(ok == want, "far_function_verdict", d);
    c.Distinct(vh::HashStr(s) ^ k);
    c.Count(want ? (any ? "far functions missed by every query" : "low-degree functions") : "far functions hit");
  }
#endif
}

template <typename T>
void TwoAdic(Ctx& c, const char* name, size_t quick) {
  using F = typename T::F;
  using X = typename T::ExtF;
  using PCS = typename T::PCS;
  using D = typename T::Domain;
  using Commitment = typename T::MMCS::Commitment;
  using ProverData = typename T::MMCS::ProverData;
  using Challenger = typename T::Challenger;
  using Proof = crypto::FRIProof<PCS>;
  using Points = typename PCS::OpeningPoints;
  using Values = typename PCS::OpenedValues;
  if (!c.Section(std::string(name) + "/two_adic")) return;
  for (size_t k = 0; k < c.N(quick, quick * 40) && c.TimeLeft(); ++k) {
    uint32_t blowup = 1 + (k % 4 == 3 ? c.rng.Below(3) : 0);
    size_t queries = k % 7 == 5 ? 0 : 1 + c.rng.Below(8);
    size_t pow = c.rng.Below(9);
    typename T::MMCS mmcs;
    typename T::CMMCS cm{typename T::Inner()};
    PCS pcs(std::move(mmcs), crypto::FRIConfig<typename T::CMMCS>{blowup, queries, pow, std::move(cm)});
    size_t nr = 1 + c.rng.Below(3);
    std::string s = std::string(name) + " blowup " + std::to_string(blowup) + " queries " + std::to_string(queries) +
                    " pow " + std::to_string(pow);
    struct Mat { uint32_t lg; size_t w; F shift; };
    std::vector<std::vector<Mat>> sh(nr);
    uint32_t cap = k % 5 == 0 ? 1 : 1 + c.rng.Below(7);
    size_t maxlg = 0;
    for (auto& r : sh) {
      r.resize(1 + c.rng.Below(k % 6 == 1 ? 5 : 3));
      s += " [";
      for (auto& m : r) {
        m = {(uint32_t)c.rng.Below(cap), 1 + c.rng.Below(c.rng.Chance(1, 4) ? 20 : 5),
             c.rng.Chance(1, 3) ? vh::EV<F>::Rand(c.rng) : F::One()};
        if (m.shift.IsZero()) m.shift = F::One();
        maxlg = std::max<size_t>(maxlg, m.lg);
        s += "2^" + std::to_string(m.lg) + "x" + std::to_string(m.w) + (m.shift.IsOne() ? "" : "s") + " ";
      }
      s += "]";
    }
    c.Case(s);
    c.Sample(s);
    auto mkdom = [&] {
      std::vector<std::vector<D>> d(nr);
      for (size_t r = 0; r < nr; ++r)
        for (auto& m : sh[r]) d[r].push_back(m.shift.IsOne() ? pcs.GetNaturalDomainForDegree(size_t{1} << m.lg) : D(m.lg, m.shift));
      return d;
    };
    auto doms = mkdom();
    std::vector<Commitment> com(nr);
    std::vector<std::unique_ptr<ProverData>> data(nr);
    // coefficients, from the definition of the evaluations
    std::vector<std::vector<std::vector<std::vector<F>>>> coef(nr);
    bool varied = false;  // a largest matrix whose rows differ
    for (size_t r = 0; r < nr; ++r) {
      std::vector<math::RowMajorMatrix<F>> ms;
      coef[r].resize(sh[r].size());
      for (size_t i = 0; i < sh[r].size(); ++i) {
        size_t n = size_t{1} << sh[r][i].lg;
        auto& cf = coef[r][i];
        cf.resize(sh[r][i].w);
        math::RowMajorMatrix<F> m(n, cf.size());
        for (size_t j = 0; j < cf.size(); ++j) {
          cf[j].resize(n);
          bool low = c.rng.Chance(1, 6);
          for (size_t e = 0; e < n; ++e) cf[j][e] = low && e > n / 4 ? F::Zero() : vh::EV<F>::Any(c.rng);
          for (size_t e = 1; e < n; ++e) varied = varied || (sh[r][i].lg == maxlg && !cf[j][e].IsZero());
          for (size_t e = 0; e < n; ++e) m(e, j) = Eval(cf[j], doms[r][i].domain()->GetElement(e));
        }
        ms.push_back(std::move(m));
      }
      data[r].reset(new ProverData());
      c.CheckF(pcs.Commit(doms[r], ms, &com[r], data[r].get()), "prover_succeeds", [&] { return std::string("Commit failed"); });
    }
    X shared = vh::EV<X>::Rand(c.rng);
    Points pts(nr);
    for (size_t r = 0; r < nr; ++r)
      for (auto& m : sh[r]) {
        std::vector<X> v{shared};
        if (c.rng.Bool()) v.push_back(doms[r][0].GetNextPoint(shared));
        if (c.rng.Chance(1, 4)) v.push_back(vh::EV<X>::Rand(c.rng));
        if (c.rng.Chance(1, 6)) v.erase(v.begin());
        if (c.rng.Chance(1, 8) && sh[r].size() > 1) v.clear();
        pts[r].push_back(v);
        (void)m;
      }
    {
      // something must be opened in the largest matrix: reduced openings define the proof
      bool some = false;
      for (size_t r = 0; r < nr; ++r)
        for (auto& p : pts[r]) some = some || !p.empty();
      if (!some) pts[0][0].push_back(shared);
    }
    Challenger base;
    uint64_t domsep = c.rng.Below(1 << 20);
    base.Observe(F(domsep));
    for (auto& x : com) base.ObserveContainer(x);
    Challenger pc = base;
    Values vals;
    Proof proof;
    c.CheckF(pcs.CreateOpeningProof(data, pts, pc, &vals, &proof), "prover_succeeds", [&] { return std::string("CreateOpeningProof failed"); });
    bool right = vals.size() == nr;
    for (size_t r = 0; right && r < nr; ++r) {
      right = vals[r].size() == sh[r].size();
      for (size_t i = 0; right && i < sh[r].size(); ++i) {
        right = vals[r][i].size() == pts[r][i].size();
        for (size_t p = 0; right && p < pts[r][i].size(); ++p) {
          right = vals[r][i][p].size() == sh[r][i].w;
          for (size_t j = 0; right && j < sh[r][i].w; ++j)
            right = vals[r][i][p][j] == Eval(coef[r][i][j], pts[r][i][p]);
        }
      }
    }
    c.CheckF(right, "opened_values", [&] { return s; });
    auto verify = [&](const std::vector<Commitment>& co, const std::vector<std::vector<D>>& d, const Points& pt,
                      const Values& v, const Proof& pr, const Challenger& ch) {
      Challenger vc = ch;
      return pcs.VerifyOpeningProof(co, d, pt, v, pr, vc);
    };
    {
      Challenger vc = base;
      bool ok = pcs.VerifyOpeningProof(com, doms, pts, vals, proof, vc);
      c.CheckF(ok, "honest_accepted", [&] { return s; });
      // both sides are left in the same state
      c.CheckF(vc.template SampleExtElement<X>() == pc.template SampleExtElement<X>(), "challengers_agree", [&] { return s; });
    }
    c.CheckF(proof.commit_phase_commits.size() == maxlg && proof.query_proofs.size() == queries, "proof_shape", [&] { return s; });
    {
      base::Uint8VectorBuffer b;
      bool ok = b.Grow(base::EstimateSize(proof)) && b.Write(proof) && b.Done();
      b.set_buffer_offset(0);
      Proof q;
      ok = ok && b.Read(&q) && q == proof && b.Done();
      c.CheckF(ok, "proof_bytes", [&] { return s; });
    }
    // the grinding witness opens exactly the proofs whose challenge has the low bits clear
    for (int q = 0; q < 4; ++q) {
      if (queries) break;
      Proof p2 = proof;
      p2.pow_witness = vh::EV<F>::Rand(c.rng);
      Challenger vc = base;
      vc.template SampleExtElement<X>();
      for (auto& x : p2.commit_phase_commits) {
        vc.ObserveContainer(x);
        vc.template SampleExtElement<X>();
      }
      vc.ObserveContainer(p2.final_eval);
      vc.Observe(p2.pow_witness);
      bool want = vc.SampleBits(pow) == 0;
      c.CheckF(verify(com, doms, pts, vals, p2, base) == want, "pow", [&] { return s; });
    }
    c.Distinct(vh::HashStr(s) ^ vh::HashBytes(&proof.final_eval, sizeof(X)));
    // shape changes must be refused even without queries; others need one
    for (int m = 0; m < 30; ++m) {
      auto co = com;
      auto d = mkdom();
      auto pt = pts;
      auto v = vals;
      auto pr = proof;
      Challenger ch = base;
      size_t r = c.rng.Below(nr), i = c.rng.Below(sh[r].size());
      bool need = true;  // needs at least one query to be noticed
      size_t q = queries ? c.rng.Below(queries) : 0;
      size_t st = maxlg ? c.rng.Below(maxlg) : 0;
      auto rx = [&] { X x; do x = vh::EV<X>::Any(c.rng); while (x.IsZero()); return x; };
      auto rf = [&] { F x; do x = vh::EV<F>::Any(c.rng); while (x.IsZero()); return x; };
      if (!queries && m >= 5 && m != 20 && m < 25) continue;
      switch (m) {
        case 0: pr.query_proofs.emplace_back(queries ? pr.query_proofs[0] : crypto::QueryProof<PCS>{}); break;
        case 1: pr.commit_phase_commits.push_back(co[0]); break;
        case 2:
          if (!maxlg) continue;
          pr.commit_phase_commits.pop_back();
          break;
        case 3: co.pop_back(); break;
        case 4: v[r].pop_back(); break;
        case 5: {
          if (pts[r][i].empty()) continue;
          auto& x = v[r][i][c.rng.Below(v[r][i].size())];
          x[c.rng.Below(x.size())] += rx();
          break;
        }
        case 6: {  // swap two opened columns
          if (pts[r][i].empty() || sh[r][i].w < 2) continue;
          auto& x = v[r][i][0];
          size_t a = c.rng.Below(x.size()), b = c.rng.Below(x.size());
          if (x[a] == x[b]) continue;
          std::swap(x[a], x[b]);
          break;
        }
        case 7: {  // other point, same values
          if (pts[r][i].empty()) continue;
          auto& x = pt[r][i][c.rng.Below(pt[r][i].size())];
          bool constant = true;
          for (auto& cf : coef[r][i])
            for (size_t e = 1; e < cf.size(); ++e) constant = constant && cf[e].IsZero();
          if (constant) continue;
          x += rx();
          break;
        }
        case 8: co[r][c.rng.Below(8)] += rf(); break;
        case 9:
          if (!maxlg) continue;
          pr.commit_phase_commits[st][c.rng.Below(8)] += rf();
          break;
        case 10: pr.final_eval += rx(); break;
        case 11: {  // a different witness leads to different queries
          if (!varied || queries * (maxlg + blowup) < 24) continue;
          pr.pow_witness += rf();
          break;
        }
        case 12: pr.query_proofs.pop_back(); break;
        case 13: {
          auto& o = pr.query_proofs[q].input_proof[r].opened_values;
          auto& row = o[c.rng.Below(o.size())];
          row[c.rng.Below(row.size())] += rf();
          break;
        }
        case 14: {
          auto& o = pr.query_proofs[q].input_proof[r].opening_proof;
          if (o.empty()) continue;
          o[c.rng.Below(o.size())][c.rng.Below(8)] += rf();
          break;
        }
        case 15:
          if (!maxlg) continue;
          pr.query_proofs[q].commit_phase_openings[st].sibling_value += rx();
          break;
        case 16: {
          if (!maxlg) continue;
          auto& o = pr.query_proofs[q].commit_phase_openings[st].opening_proof;
          if (o.empty()) continue;
          o[c.rng.Below(o.size())][c.rng.Below(8)] += rf();
          break;
        }
        case 17:
          if (!maxlg) continue;
          pr.query_proofs[q].commit_phase_openings.pop_back();
          break;
        case 18:
          pr.query_proofs[q].commit_phase_openings.emplace_back();
          break;
        case 19: pr.query_proofs[q].input_proof.pop_back(); break;
        case 20: {
          // other transcript: the challenges differ
          if (!varied || queries * (maxlg + blowup) < 24) continue;
          ch = Challenger();
          ch.Observe(F(domsep + 1));
          for (auto& x : com) ch.ObserveContainer(x);
          break;
        }
        case 21: {
          auto& o = pr.query_proofs[q].input_proof[r].opened_values;
          if (c.rng.Bool()) o.pop_back(); else o.push_back(o[0]);
          break;
        }
        case 22: {
          // (the width of a matrix that is opened nowhere is not claimed)
          if (pts[r][i].empty()) continue;
          auto& row = pr.query_proofs[q].input_proof[r].opened_values[i];
          if (c.rng.Bool()) row.pop_back(); else row.push_back(F::Zero());
          break;
        }
        case 23: {
          auto& o = pr.query_proofs[q].input_proof[r].opening_proof;
          if (o.empty() || c.rng.Bool()) o.push_back(com[0]); else o.pop_back();
          break;
        }
        case 24: {
          if (pts[r][i].empty()) continue;
          auto& x = v[r][i][c.rng.Below(v[r][i].size())];
          if (c.rng.Bool()) x.pop_back(); else x.push_back(X::Zero());
          break;
        }
        case 25:
          if (c.rng.Bool()) { pt[r][i].push_back(shared); } else { v[r][i].emplace_back(sh[r][i].w, X::Zero()); }
          need = false;
          break;
        case 26: pt.pop_back(); need = false; break;
        case 27: d.pop_back(); need = false; break;
        case 28: {  // claim another height; the largest ones change the number of folds
          if (sh[r][i].lg != maxlg) continue;
          d[r][i] = pcs.GetNaturalDomainForDegree(size_t{2} << sh[r][i].lg);
          need = false;
          break;
        }
        case 29: {
          if (!queries || maxlg < 2 || sh[r][i].lg + 1 >= maxlg) continue;
          d[r][i] = pcs.GetNaturalDomainForDegree(size_t{2} << sh[r][i].lg);
          break;
        }
      }
      (void)need;
      bool acc = verify(co, d, pt, v, pr, ch);
      c.CheckF(!acc, "altered_rejected", [&] { return s + " alteration " + std::to_string(m); });
      c.Count("proofs altered");
    }
  }
}

using G = math::Goldilocks;
struct GHasher : crypto::BinaryMerkleHasher<G, G> {
  G ComputeLeafHash(const G& l) const override { return Mix3(l + G(77)); }
  G ComputeParentHash(const G& a, const G& b) const override { return Mix3(Mix3(a) + b * G(3) + G(5)); }
  static G Mix3(G x) {
    for (int i = 0; i < 3; ++i) {
      G y = x * x;
      x = y * y * y * x + G(0x1234567 + i);
    }
    return x;
  }
};
// leaf hashes double as evaluations in SimpleFRI, so leaves hash to themselves
struct GLeaf : GHasher {
  G ComputeLeafHash(const G& l) const override { return l; }
};
struct GStorage : crypto::SimpleFRIStorage<G> {
  std::vector<crypto::SimpleBinaryMerkleTreeStorage<G>> l;
  void Allocate(size_t n) override { l.resize(n); }
  crypto::BinaryMerkleTreeStorage<G>* GetLayer(size_t i) override { return &l[i]; }
};

void Simple(Ctx& c) {
  if (!c.Section("simple_fri")) return;
  using PCS = crypto::SimpleFRI<G, 255>;
  using Poly = PCS::Poly;
  for (size_t k = 0; k < c.N(80, 3000) && c.TimeLeft(); ++k) {
    uint32_t lg = 1 + (k < 16 ? k / 2 : c.rng.Below(8));
    size_t n = size_t{1} << lg;
    auto dom = PCS::Domain::Create(n);
    GStorage st;
    GLeaf h;
    PCS pcs(dom.get(), &st, &h);
    size_t deg = k % 5 == 0 ? c.rng.Below(n + 1) : n;
    std::vector<G> co(deg);
    for (auto& x : co) x = vh::EV<G>::Any(c.rng);
    bool full = true;
    for (auto& x : co) full = full && !x.IsZero();
    while (!co.empty() && co.back().IsZero()) co.pop_back();
    Poly poly{math::UnivariateDenseCoefficients<G, 255>(co)};
    std::string s = "size 2^" + std::to_string(lg) + " coefficients " + std::to_string(co.size()) + " #" + std::to_string(k);
    c.Case(s);
    crypto::SimpleTranscriptWriter<G> wr(base::Uint8VectorBuffer{});
    c.CheckF(pcs.Commit(poly, &wr), "prover_succeeds", [&] { return std::string("SimpleFRI commit failed"); });
    auto bytes = std::move(wr).TakeBuffer().owned_buffer();
    for (int q = 0; q < 3; ++q) {
      size_t idx = q == 0 ? n - 1 : c.rng.Below(n);
      crypto::SimpleFRIProof<G> pr;
      c.CheckF(pcs.CreateOpeningProof(idx, &pr), "prover_succeeds", [&] { return std::string("SimpleFRI open failed"); });
      auto verify = [&](const std::vector<uint8_t>& by, size_t ix, const crypto::SimpleFRIProof<G>& p) {
        base::Uint8VectorBuffer b(by);
        crypto::SimpleTranscriptReader<G> rd(std::move(b));
        rd.buffer().set_buffer_offset(0);
        return pcs.VerifyOpeningProof(rd, ix, p);
      };
      std::string t = s + " index " + std::to_string(idx);
      G x = dom->GetElement(idx);
      c.CheckF(pr.evaluations.size() == lg && pr.evaluations[0] == Eval(co, x) && pr.evaluations_sym[0] == Eval(co, -x),
               "simple_values", [&] { return t; });
      c.CheckF(verify(bytes, idx, pr), "simple_accepts", [&] { return t; });
      c.Distinct(vh::HashBytes(bytes.data(), bytes.size()) + idx);
      for (int m = 0; m < 14; ++m) {
        auto p = pr;
        auto by = bytes;
        size_t ix = idx;
        size_t l = c.rng.Below(lg);
        auto rg = [&] { G v; do v = vh::EV<G>::Any(c.rng); while (v.IsZero()); return v; };
        auto path = [&](std::vector<crypto::BinaryMerkleProof<G>>& ps, bool drop) {
          auto& v = ps[l].paths;
          if (v.empty()) return false;
          if (drop) v.pop_back(); else v[c.rng.Below(v.size())].hash += rg();
          return true;
        };
        switch (m) {
          case 0: p.evaluations[l] += rg(); break;
          case 1: p.evaluations_sym[l] += rg(); break;
          case 2: if (!path(p.paths, false)) continue; break;
          case 3: if (!path(p.paths_sym, false)) continue; break;
          case 4: if (!path(p.paths, true)) continue; break;
          case 5: if (!path(p.paths_sym, true)) continue; break;
          case 6: p.evaluations.pop_back(); break;
          case 7: p.evaluations_sym.pop_back(); break;
          case 8: p.paths.pop_back(); break;
          case 9: p.paths_sym.pop_back(); break;
          case 10: by[8 * c.rng.Below(by.size() / 8)] ^= 1; break;
          case 11: by.resize(8 * c.rng.Below(by.size() / 8)); break;
          case 12:
            ix ^= size_t{1} << c.rng.Below(lg);
            // (with p(x) = p(-x) the fold doesn't depend on the index)
            {
              bool sym = lg < 2 || !full || deg != n;
              for (size_t i = 0; i < lg; ++i) sym = sym || pr.evaluations[i] == pr.evaluations_sym[i];
              if (sym) continue;
            }
            break;
          case 13: {  // last word: the final constant
            by[by.size() - 8] ^= 1;
            break;
          }
        }
        c.CheckF(!verify(by, ix, p), "simple_rejects", [&] { return t + " alteration " + std::to_string(m); });
        c.Count("simple proofs altered");
      }
    }
  }
}

}  // namespace

void vh_main(Ctx& c) {
  math::BabyBear::Init();
  math::BabyBear4::Init();
  math::PackedBabyBear::Init();
  math::PackedBabyBear4::Init();
  math::KoalaBear::Init();
  math::KoalaBear4::Init();
  math::PackedKoalaBear::Init();
  math::PackedKoalaBear4::Init();
  G::Init();
  using B = Types<math::BabyBear, math::BabyBear4, math::PackedBabyBear>;
  using K = Types<math::KoalaBear, math::KoalaBear4, math::PackedKoalaBear>;
  Cosets<B>(c, "babybear");
  Cosets<K>(c, "koalabear");
  Fold<B>(c, "babybear");
  Fold<K>(c, "koalabear");
  Cheat<B>(c, "babybear");
  Cheat<K>(c, "koalabear");
  TwoAdic<B>(c, "babybear", 80);
  TwoAdic<K>(c, "koalabear", 30);
  Simple(c);
}
