// P22: copy constraints as cycles, the permutation polynomials and the
// permuted/grand product/grand sum columns of the prover, and the
// verifier-side identities, judged row by row against definitions kept here.
#include <algorithm>
#include <map>
#include <memory>
#include <numeric>
#include <set>

#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/fr.h"
#include "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"
#include "tachyon/zk/base/entities/prover_base.h"
#include "tachyon/zk/lookup/halo2/permute_expression_pair.h"
#include "tachyon/zk/lookup/halo2/prover.h"
#include "tachyon/zk/lookup/halo2/verifier.h"
#include "tachyon/zk/lookup/log_derivative_halo2/prover.h"
#include "tachyon/zk/lookup/log_derivative_halo2/verifier.h"
#include "tachyon/zk/plonk/constraint_system/constraint_system.h"
#include "tachyon/zk/plonk/expressions/expression_factory.h"
#include "tachyon/zk/plonk/halo2/proof.h"
#include "tachyon/zk/plonk/permutation/permutation_assembly.h"
#include "tachyon/zk/plonk/permutation/permutation_prover.h"
#include "tachyon/zk/plonk/permutation/permutation_table_store.h"
#include "tachyon/zk/plonk/permutation/permutation_verifier.h"
#include "tachyon/zk/shuffle/prover.h"
#include "tachyon/zk/shuffle/verifier.h"
#include "vh.h"

namespace zk = tachyon::zk;
namespace pl = tachyon::zk::plonk;
namespace math = tachyon::math;
namespace lk = tachyon::zk::lookup;
using pl::Label;
using tachyon::zk::RowIndex;

constexpr size_t kMaxDegree = 511;

// A commitment scheme that commits to nothing: these sections only look at the
// polynomials themselves.
template <typename F_>
struct NoPCS {
  using Field = F_;
  using Domain = math::Radix2EvaluationDomain<F_, kMaxDegree>;
  using ExtendedDomain = Domain;
  using Evals = math::UnivariateEvaluations<F_, kMaxDegree>;
  using ExtendedEvals = Evals;
  using Poly = math::UnivariateDensePolynomial<F_, kMaxDegree>;
  using Commitment = F_;
  constexpr static bool kSupportsBatchMode = false;
  size_t n = 0;
  size_t N() const { return n; }
};
namespace tachyon::crypto {
template <typename F_>
struct VectorCommitmentSchemeTraits<NoPCS<F_>> {
  constexpr static bool kSupportsBatchMode = false;
};
}  // namespace tachyon::crypto

template <typename F>
F Rf(vh::Rng& r) {
  typename F::BigIntTy b(0);
  for (size_t i = 0; i < F::BigIntTy::kLimbNums; ++i) b[i] = r.U64();
  b[F::BigIntTy::kLimbNums - 1] &= 0x0fffffffffffffffull;
  return F(b);
}
template <typename F>
struct Gen : zk::RandomFieldGeneratorBase<F> {
  vh::Rng* r;
  std::vector<F> made;
  F Generate() override {
    made.push_back(Rf<F>(*r));
    return made.back();
  }
};

// ---------------------------------------------------------------- cycles
struct UnionFind {
  std::vector<size_t> p;
  explicit UnionFind(size_t n) : p(n) { std::iota(p.begin(), p.end(), 0); }
  size_t Find(size_t x) {
    while (p[x] != x) x = p[x] = p[p[x]];
    return x;
  }
  bool Join(size_t a, size_t b) {
    a = Find(a), b = Find(b);
    if (a == b) return false;
    p[a] = b;
    return true;
  }
};

void Cycles(vh::Ctx& ctx) {
  size_t total = ctx.N(300);
  for (size_t t = 0; t < total && ctx.TimeLeft(); ++t) {
    size_t cols = 1 + ctx.rng.Below(ctx.rng.Chance(1, 6) ? 40 : 6);
    size_t rows = 1 + ctx.rng.Below(ctx.rng.Chance(1, 6) ? 100 : 12);
    size_t cells = cols * rows;
    size_t steps = ctx.rng.Below(2 * cells + 2);
    size_t style = ctx.rng.Below(4);
    ctx.Case("cycles " + std::to_string(cols) + "x" + std::to_string(rows));
    auto show = [&] { return std::to_string(cols) + "x" + std::to_string(rows) + " steps " + std::to_string(steps) + " style " + std::to_string(style); };
    pl::CycleStore st(cols, rows);
    UnionFind uf(cells);
    auto L = [&](size_t i) { return Label(i / rows, i % rows); };
    auto I = [&](const Label& l) { return l.col * rows + l.row; };
    bool ret_ok = true;
    uint64_t h = cells;
    for (size_t s = 0; s < steps; ++s) {
      size_t a, b;
      switch (style) {
        case 0: a = ctx.rng.Below(cells), b = ctx.rng.Below(cells); break;
        case 1: a = 0, b = ctx.rng.Below(cells); break;                       // star
        case 2: a = s % cells, b = (s + 1) % cells; break;                    // chain, then closing it
        default: a = ctx.rng.Below(cells); b = ctx.rng.Chance(1, 3) ? a : (a + rows) % cells;  // self copies
      }
      if (ctx.rng.Chance(1, 2)) std::swap(a, b);
      bool want = uf.Join(a, b);
      bool got = st.MergeCycle(L(a), L(b));
      ret_ok = ret_ok && want == got;
      h = vh::Mix(h ^ (a * 1000003 + b));
    }
    ctx.CheckF(ret_ok, "merge_tells_whether_cycles_were_apart", show);
    // classes by union-find
    std::map<size_t, std::set<size_t>> cls;
    for (size_t i = 0; i < cells; ++i) cls[uf.Find(i)].insert(i);
    bool cyc = true, size = true, same = true, all = true, bases = true;
    for (auto& [root, members] : cls) {
      (void)root;
      // the next-labels walk through exactly the class
      std::set<size_t> seen;
      size_t first = *members.begin();
      size_t at = first;
      do {
        cyc = cyc && seen.insert(at).second;
        at = I(st.GetNextLabel(L(at)));
      } while (at != first && seen.size() <= members.size());
      cyc = cyc && seen == members;
      size_t base = I(st.GetCycleBase(L(first)));
      bases = bases && members.count(base);
      for (size_t m : members) {
        size = size && st.GetCycleSize(L(m)) == members.size();
        bases = bases && I(st.GetCycleBase(L(m))) == base;
        if (ctx.rng.Chance(1, 8)) {
          std::set<size_t> lab;
          for (const Label& l : st.GetAllLabels(L(m))) lab.insert(I(l));
          all = all && lab == members;
        }
      }
    }
    for (int k = 0; k < 40; ++k) {
      size_t a = ctx.rng.Below(cells), b = ctx.rng.Below(cells);
      same = same && st.CheckSameCycle(L(a), L(b)) == (uf.Find(a) == uf.Find(b));
    }
    ctx.CheckF(cyc, "next_labels_walk_each_class_once", show);
    ctx.CheckF(size, "cycle_size", show);
    ctx.CheckF(same, "same_cycle_iff_connected", show);
    ctx.CheckF(bases, "one_representative_per_class", show);
    ctx.CheckF(all, "all_labels", show);
    ctx.Count("merged_classes", cells - cls.size());
    ctx.Distinct(h);
  }
}

// ---------------------------------------------------------------- fixtures
template <typename F>
struct Fix {
  using P = NoPCS<F>;
  using Domain = typename P::Domain;
  using Evals = typename P::Evals;
  using Poly = typename P::Poly;
  size_t n;
  RowIndex blinds;
  Gen<F> gen;
  std::unique_ptr<zk::ProverBase<P>> prover;
  RowIndex usable;
  std::vector<F> omega;

  Fix(size_t n_, RowIndex blinds_, vh::Rng& r) : n(n_), blinds(blinds_) {
    gen.r = &r;
    P pcs;
    pcs.n = n;
    prover = std::make_unique<zk::ProverBase<P>>(std::move(pcs), nullptr, zk::Blinder<F>(&gen, blinds));
    prover->set_domain(Domain::Create(n));
    usable = n - blinds - 1;
    omega.push_back(F::One());
    for (size_t i = 1; i < n; ++i) omega.push_back(omega.back() * prover->domain()->group_gen());
  }
  std::string Str() const {
    return "n=" + std::to_string(n) + " usable=" + std::to_string(usable);
  }
};
template <typename F>
Fix<F> MakeFix(vh::Rng& r) {
  size_t n = size_t{4} << r.Below(r.Chance(1, 4) ? 7 : 4);
  RowIndex blinds = r.Below(std::min<size_t>(n - 1, 7));
  return Fix<F>(n, blinds, r);
}
template <typename F>
using EvalsOf = typename NoPCS<F>::Evals;

template <typename F>
EvalsOf<F> Col(std::vector<F> v) { return EvalsOf<F>(std::move(v)); }

// ---------------------------------------------------------------- permutation
template <typename F>
void Permutation(vh::Ctx& ctx) {
  using Fx = Fix<F>;
  using Evals = typename Fx::Evals;
  using Poly = typename Fx::Poly;
  const F delta = pl::GetDelta<F>();
  size_t total = ctx.N(60);
  for (size_t t = 0; t < total && ctx.TimeLeft(); ++t) {
    Fx fx = MakeFix<F>(ctx.rng);
    size_t n = fx.n;
    ctx.Case("permutation " + fx.Str());
    int na = 1 + ctx.rng.Below(4), nf = ctx.rng.Below(3), ni = ctx.rng.Below(3);
    pl::ConstraintSystem<F> cs;
    std::vector<pl::AnyColumnKey> pool;
    for (int i = 0; i < na; ++i) pool.push_back(cs.CreateAdviceColumn());
    for (int i = 0; i < nf; ++i) pool.push_back(cs.CreateFixedColumn());
    for (int i = 0; i < ni; ++i) pool.push_back(cs.CreateInstanceColumn());
    // the order in which equality is enabled is arbitrary, with repeats
    std::vector<pl::AnyColumnKey> order = pool;
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[ctx.rng.Below(i)]);
    if (ctx.rng.Chance(1, 3)) order.resize(1 + ctx.rng.Below(order.size()));
    for (auto& k : order) {
      cs.EnableEquality(k);
      if (ctx.rng.Chance(1, 4)) cs.EnableEquality(order[ctx.rng.Below(order.size())]);
    }
    if (ctx.rng.Chance(3, 4)) cs.set_minimum_degree(3 + ctx.rng.Below(6));
    std::vector<pl::AnyColumnKey> cols = cs.permutation().columns();
    // (the library's own operator< ignores indices)
    auto key = [](const pl::AnyColumnKey& k) { return std::make_pair(static_cast<int>(k.type()), k.index()); };
    std::set<std::pair<int, size_t>> uniq;
    for (auto& k : cols) uniq.insert(key(k));
    size_t degree = cs.ComputeDegree();
    size_t chunk = degree - 2;
    size_t chunks = (cols.size() + chunk - 1) / chunk;
    auto show = [&] { return fx.Str() + " columns " + std::to_string(cols.size()) + " degree " + std::to_string(degree); };
    ctx.CheckF(uniq.size() == cols.size(), "each_column_once", show);
    ctx.CheckF(cs.ComputePermutationChunkLen() == chunk && cs.ComputePermutationProductNums() == chunks, "chunk_count", show);

    // random copies (style: few, many, whole columns)
    pl::PermutationAssembly as = ctx.rng.Chance(1, 2) ? pl::PermutationAssembly(cs.permutation(), n)
                                                      : pl::PermutationAssembly(cols, n);
    UnionFind uf(cols.size() * n);
    size_t steps = ctx.rng.Below(ctx.rng.Chance(1, 3) ? 3 * n * cols.size() : 8);
    bool all_rows = ctx.rng.Chance(1, 4);
    std::vector<std::pair<size_t, size_t>> req;
    for (size_t s = 0; s < steps; ++s) {
      size_t lim = all_rows ? n : fx.usable;
      size_t a = ctx.rng.Below(cols.size()) * n + ctx.rng.Below(lim);
      size_t b = ctx.rng.Below(cols.size()) * n + ctx.rng.Below(lim);
      as.Copy(cols[a / n], a % n, cols[b / n], b % n);
      uf.Join(a, b);
      req.push_back({a, b});
    }
    std::vector<Evals> perms = as.template GeneratePermutations<Evals>(fx.prover->domain());
    // decode each evaluation as the label of a cell
    std::vector<std::vector<F>> label(cols.size(), std::vector<F>(n));
    std::map<std::string, size_t> of;
    {
      F d = F::One();
      for (size_t c = 0; c < cols.size(); ++c, d *= delta)
        for (size_t r = 0; r < n; ++r) {
          label[c][r] = d * fx.omega[r];
          of[label[c][r].ToString()] = c * n + r;
        }
    }
    ctx.CheckF(of.size() == cols.size() * n, "labels_distinct", show);
    bool decoded = perms.size() == cols.size(), bij = true, classes = true;
    std::vector<size_t> next(cols.size() * n, 0);
    std::set<size_t> image;
    for (size_t c = 0; c < cols.size() && decoded; ++c)
      for (size_t r = 0; r < n; ++r) {
        auto it = of.find(perms[c][r].ToString());
        if (it == of.end()) { decoded = false; break; }
        next[c * n + r] = it->second;
        image.insert(it->second);
      }
    ctx.CheckF(decoded, "permutation_values_are_labels", show);
    if (!decoded) continue;
    bij = image.size() == next.size();
    ctx.CheckF(bij, "permutation_is_a_bijection", show);
    {
      UnionFind u2(next.size());
      for (size_t i = 0; i < next.size(); ++i) u2.Join(i, next[i]);
      std::map<size_t, size_t> m1, m2;
      for (size_t i = 0; i < next.size(); ++i) {
        size_t a = uf.Find(i), b = u2.Find(i);
        classes = classes && m1.emplace(a, b).first->second == b && m2.emplace(b, a).first->second == a;
      }
    }
    ctx.CheckF(classes, "cycles_are_the_requested_equalities", show);

    // the polynomial form of the proving key evaluates to the same labels
    {
      std::vector<Evals> copy = perms;
      auto pk = as.template BuildProvingKey<pl::halo2::Vendor::kScroll>(fx.prover.get(), std::move(copy));
      bool ok = pk.polys().size() == cols.size() && pk.permutations() == perms;
      for (size_t k = 0; k < 6 && ok; ++k) {
        size_t c = ctx.rng.Below(cols.size()), r = ctx.rng.Below(n);
        ok = pk.polys()[c].Evaluate(fx.omega[r]) == label[next[c * n + r] / n][next[c * n + r] % n];
      }
      ctx.CheckF(ok, "proving_key_polys_are_the_permutations", show);
    }

    // a satisfying assignment: one value per class; then maybe break a cell
    std::vector<std::vector<F>> val(cols.size(), std::vector<F>(n));
    {
      std::map<size_t, F> of_class;
      bool small = ctx.rng.Chance(1, 2);
      for (size_t i = 0; i < next.size(); ++i) {
        auto it = of_class.find(uf.Find(i));
        if (it == of_class.end()) it = of_class.emplace(uf.Find(i), small ? F(ctx.rng.Below(3)) : Rf<F>(ctx.rng)).first;
        val[i / n][i % n] = it->second;
      }
    }
    int broken = -1;
    if (ctx.rng.Chance(1, 2)) {
      // changes one cell of a class of two cells or more
      std::vector<size_t> cand;
      for (size_t i = 0; i < next.size(); ++i)
        if (next[i] != i && i % n < fx.usable) cand.push_back(i);
      if (!cand.empty()) {
        broken = ctx.rng.Pick(cand);
        val[broken / n][broken % n] += ctx.rng.Chance(1, 2) ? F::One() : Rf<F>(ctx.rng);
      }
    }
    // whether the usable rows' values respect the cycles on those rows
    bool want_ok = true;
    {
      for (size_t i = 0; i < next.size(); ++i) {
        if (i % n >= fx.usable && next[i] % n < fx.usable) all_rows = true;
        want_ok = want_ok && val[i / n][i % n] == val[next[i] / n][next[i] % n];
      }
    }
    bool crosses = false;  // copies that leave the usable rows: the argument says nothing
    for (size_t i = 0; i < next.size(); ++i) crosses = crosses || ((i % n < fx.usable) != (next[i] % n < fx.usable));

    std::vector<Evals> adv, fix, inst;
    std::map<std::pair<int, size_t>, size_t> idx;
    for (size_t i = 0; i < cols.size(); ++i) idx[key(cols[i])] = i;
    for (auto& k : pool) {
      std::vector<F> v(n);
      if (idx.count(key(k))) v = val[idx[key(k)]];
      else for (auto& x : v) x = Rf<F>(ctx.rng);
      (k.type() == pl::ColumnType::kAdvice ? adv : k.type() == pl::ColumnType::kFixed ? fix : inst).push_back(Col<F>(v));
    }
    std::vector<F> challenges;
    std::vector<pl::MultiPhaseRefTable<Evals>> tables;
    size_t circuits = 1 + ctx.rng.Below(2);
    for (size_t i = 0; i < circuits; ++i) tables.emplace_back(fix, adv, inst, challenges);
    F beta = Rf<F>(ctx.rng), gamma = Rf<F>(ctx.rng);
    pl::PermutationProvingKey<Poly, Evals, Evals> pk(perms, {}, {});
    std::vector<pl::PermutationProver<Poly, Evals>> provers(circuits);
    fx.gen.made.clear();
    pl::PermutationProver<Poly, Evals>::BatchCreateGrandProductPolys(provers, fx.prover.get(), cs.permutation(), tables,
                                                                     degree, pk, beta, gamma);
    // the chunk store
    {
      auto unp = pl::UnpermutedTable<Evals>::Construct(cols.size(), n, fx.prover->domain());
      pl::PermutedTable<Evals> per(&perms);
      pl::PermutationTableStore<Evals> store(cols, tables[0], per, unp, chunk);
      bool ok = true;
      size_t at = 0;
      for (size_t c = 0; c < chunks && ok; ++c) {
        auto pc = store.GetPermutedColumns(c), uc = store.GetUnpermutedColumns(c), vc = store.GetValueColumns(c);
        ok = pc.size() == store.GetChunkSize(c) && uc.size() == pc.size() && vc.size() == pc.size();
        for (size_t j = 0; j < pc.size() && ok; ++j, ++at)
          for (size_t r = 0; r < n && ok; ++r)
            ok = (*pc[j])[r] == perms[at][r] && (*uc[j])[r] == label[at][r] && (*vc[j])[r] == val[at][r];
      }
      ctx.CheckF(ok && at == cols.size(), "chunks_cover_the_columns_in_order", show);
    }
    for (size_t ci = 0; ci < circuits; ++ci) {
      auto& z = provers[ci].grand_product_polys();
      ctx.CheckF(z.size() == chunks, "one_product_per_chunk", show);
      if (z.size() != chunks) break;
      // definition
      F acc = F::One();
      bool def = true, tail = true;
      for (size_t k = 0; k < chunks; ++k) {
        def = def && z[k].evals()[0] == acc;
        for (size_t r = 0; r < fx.usable; ++r) {
          F num = F::One(), den = F::One();
          for (size_t c = k * chunk; c < std::min(cols.size(), (k + 1) * chunk); ++c) {
            num *= val[c][r] + beta * label[c][r] + gamma;
            den *= val[c][r] + beta * perms[c][r] + gamma;
          }
          acc *= num * *den.Inverse();
          def = def && z[k].evals()[r + 1] == acc;
        }
        // the rows after the last are blinded with fresh randomness
        for (size_t r = fx.usable + 1; r < n; ++r) {
          bool drawn = std::find(fx.gen.made.begin(), fx.gen.made.end(), z[k].evals()[r]) != fx.gen.made.end();
          tail = tail && drawn;
        }
      }
      ctx.CheckF(def, "grand_product_columns", show);
      ctx.CheckF(tail, "unusable_rows_are_random", show);
      if (!crosses) {
        ctx.CheckF(acc.IsOne() == want_ok, "product_is_one_iff_copies_hold",
                   [&] { return show() + (broken < 0 ? " intact" : " broken"); });
        ctx.Count(want_ok ? "copies_hold" : "copies_broken");
      }
      // the verifier's identities on every row of the domain
      std::vector<F> pe(chunks), pn(chunks), sub(cols.size());
      std::vector<std::optional<F>> plast(chunks);
      bool zero_all = true, formula = true;
      for (size_t r = 0; r < n; ++r) {
        std::vector<F> ae, fe, ie;
        for (auto& q : cs.advice_queries()) ae.push_back(adv[q.column().index()][(r + n + q.rotation().value()) % n]);
        for (auto& q : cs.fixed_queries()) fe.push_back(fix[q.column().index()][(r + n + q.rotation().value()) % n]);
        for (auto& q : cs.instance_queries()) ie.push_back(inst[q.column().index()][(r + n + q.rotation().value()) % n]);
        for (size_t k = 0; k < chunks; ++k) {
          pe[k] = z[k].evals()[r];
          pn[k] = z[k].evals()[(r + 1) % n];
          plast[k] = z[k].evals()[(r + fx.usable) % n];
        }
        for (size_t c = 0; c < cols.size(); ++c) sub[c] = perms[c][r];
        F first = r == 0 ? F::One() : F::Zero(), last = r == fx.usable ? F::One() : F::Zero(),
          blind = r > fx.usable ? F::One() : F::Zero();
        pl::LValues<F> lv(first, blind, last);
        std::vector<F> no;
        pl::PermutationVerifierData<F, F> data(fe, ae, ie, challenges, no, pe, pn, plast, no, sub, beta, gamma);
        pl::PermutationVerifier<F, F> ver(data);
        std::vector<F> ev;
        ver.Evaluate(cs, fx.omega[r], lv, ev);
        formula = formula && ev.size() == 2 + (chunks - 1) + chunks;
        for (auto& e : ev) zero_all = zero_all && e.IsZero();
        // an arbitrary other next value makes the row's identity fail
        if (r < fx.usable && ctx.rng.Chance(1, 4)) {
          size_t k = ctx.rng.Below(chunks);
          pn[k] += F::One();
          std::vector<F> ev2;
          ver.Evaluate(cs, fx.omega[r], lv, ev2);
          formula = formula && !ev2[2 + chunks - 1 + k].IsZero();
        }
      }
      ctx.CheckF(formula, "verifier_identities_constrain_each_chunk", show);
      if (!crosses) ctx.CheckF(zero_all == want_ok, "verifier_identities_hold_on_every_row_iff_copies_hold", show);
    }
    uint64_t h = n * 131 + cols.size();
    for (auto& [a, b] : req) h = vh::Mix(h ^ (a * 1009 + b));
    ctx.Distinct(h);
  }
}

// ---------------------------------------------------------------- permuted pairs
template <typename F>
void Pairs(vh::Ctx& ctx) {
  using Fx = Fix<F>;
  using Evals = typename Fx::Evals;
  size_t total = ctx.N(200);
  for (size_t t = 0; t < total && ctx.TimeLeft(); ++t) {
    Fx fx = MakeFix<F>(ctx.rng);
    ctx.Case("pairs " + fx.Str());
    size_t n = fx.n;
    // values: wide, few distinct, or all the same
    size_t kinds = ctx.rng.Chance(1, 3) ? 1 + ctx.rng.Below(3) : 1 + ctx.rng.Below(2 * n);
    std::vector<F> pool;
    bool small = ctx.rng.Chance(1, 2);
    for (size_t i = 0; i < kinds; ++i) pool.push_back(small ? F(i) : Rf<F>(ctx.rng));
    if (ctx.rng.Chance(1, 3)) pool.push_back(-F::One());
    std::vector<F> table(n), input(n);
    for (auto& v : table) v = ctx.rng.Pick(pool);
    for (size_t i = 0; i < n; ++i) input[i] = i < fx.usable ? table[ctx.rng.Below(fx.usable)] : Rf<F>(ctx.rng);
    bool valid = true;
    if (ctx.rng.Chance(1, 3)) {
      // a value missing from the usable rows of the table (maybe present below)
      F v = ctx.rng.Chance(1, 2) ? Rf<F>(ctx.rng) : table[fx.usable + ctx.rng.Below(n - fx.usable)];
      input[ctx.rng.Below(fx.usable)] = v;
    }
    std::set<std::string> in_table;
    for (size_t i = 0; i < fx.usable; ++i) in_table.insert(table[i].ToString());
    for (size_t i = 0; i < fx.usable; ++i) valid = valid && in_table.count(input[i].ToString());
    auto show = [&] { return fx.Str() + " kinds " + std::to_string(kinds) + (valid ? " valid" : " invalid"); };
    lk::Pair<Evals> in(Col<F>(input), Col<F>(table)), out;
    bool ok = lk::halo2::PermuteExpressionPair(fx.prover.get(), in, &out);
    ctx.CheckF(ok == valid, "lookup_accepted_iff_every_input_is_in_the_table", show);
    ctx.Count(valid ? "valid_lookup" : "missing_value");
    if (!ok || !valid) continue;
    auto sorted = [&](const auto& v) {
      std::vector<std::string> s;
      for (size_t i = 0; i < fx.usable; ++i) s.push_back(v[i].ToString());
      std::sort(s.begin(), s.end());
      return s;
    };
    ctx.CheckF(sorted(out.input()) == sorted(input), "permuted_input_is_a_permutation", show);
    ctx.CheckF(sorted(out.table()) == sorted(table), "permuted_table_is_a_permutation", show);
    bool rule = out.input()[0] == out.table()[0];
    for (size_t i = 1; i < fx.usable; ++i)
      rule = rule && (out.input()[i] == out.table()[i] || out.input()[i] == out.input()[i - 1]);
    ctx.CheckF(rule, "input_equals_table_or_previous_input", show);
    ctx.CheckF(out.input().NumElements() == n && out.table().NumElements() == n, "column_lengths", show);
    bool unchanged = true;
    for (size_t i = 0; i < n; ++i) unchanged = unchanged && in.input()[i] == input[i] && in.table()[i] == table[i];
    ctx.CheckF(unchanged, "source_pair_untouched", show);
    ctx.Distinct(vh::HashStr(show() + input[0].ToString()));
  }
}

// ---------------------------------------------------------------- lookups, shuffles
// Expressions over the advice/fixed columns with the harness' own value.
template <typename F>
struct Ex {
  // sum of coeff * col (* col2)
  struct Term { F c; int a, b; };
  std::vector<Term> t;
  std::unique_ptr<zk::Expression<F>> Build() const {
    using EF = pl::ExpressionFactory<F>;
    std::unique_ptr<zk::Expression<F>> r;
    for (auto& x : t) {
      auto col = [](int i) { return EF::Advice(pl::AdviceQuery(i, zk::Rotation::Cur(), pl::AdviceColumnKey(i))); };
      auto e = col(x.a);
      if (x.b >= 0) e = EF::Product(std::move(e), col(x.b));
      e = EF::Scaled(std::move(e), x.c);
      r = r ? EF::Sum(std::move(r), std::move(e)) : std::move(e);
    }
    return r;
  }
  F At(const std::vector<std::vector<F>>& v, size_t row) const {
    F r = F::Zero();
    for (auto& x : t) r += x.c * v[x.a][row] * (x.b < 0 ? F::One() : v[x.b][row]);
    return r;
  }
};

template <typename F>
void Lookups(vh::Ctx& ctx) {
  using Fx = Fix<F>;
  using Evals = typename Fx::Evals;
  using Poly = typename Fx::Poly;
  using Exprs = std::vector<std::unique_ptr<zk::Expression<F>>>;
  size_t total = ctx.N(60);
  for (size_t t = 0; t < total && ctx.TimeLeft(); ++t) {
    Fx fx = MakeFix<F>(ctx.rng);
    size_t n = fx.n;
    ctx.Case("lookups " + fx.Str());
    size_t args = 1 + ctx.rng.Below(3);
    // columns: each argument has its own table and input columns
    std::vector<std::vector<F>> v;
    struct Arg {
      std::vector<Ex<F>> table;
      std::vector<std::vector<Ex<F>>> inputs;
      bool ok = true, shuffle_ok = true;
      std::vector<Ex<F>> shuffle;
    };
    std::vector<Arg> as(args);
    bool duplicates = ctx.rng.Chance(1, 2);
    for (auto& a : as) {
      size_t width = 1 + ctx.rng.Below(3);
      size_t groups = 1 + ctx.rng.Below(3);
      size_t tbase = v.size();
      for (size_t w = 0; w < width; ++w) {
        std::vector<F> c(n);
        for (auto& x : c) x = duplicates ? F(ctx.rng.Below(3)) : Rf<F>(ctx.rng);
        v.push_back(c);
      }
      auto plain = [&](int c) {
        Ex<F> e;
        if (ctx.rng.Chance(1, 3)) {
          // x written as 3x - 2x
          e.t = {{F(3), c, -1}, {-F(2), c, -1}};
        } else {
          e.t = {{F::One(), c, -1}};
        }
        return e;
      };
      for (size_t w = 0; w < width; ++w) a.table.push_back(plain(tbase + w));
      for (size_t g = 0; g < groups; ++g) {
        size_t ibase = v.size();
        for (size_t w = 0; w < width; ++w) v.push_back(std::vector<F>(n));
        for (size_t r = 0; r < n; ++r) {
          size_t src = r < fx.usable ? ctx.rng.Below(fx.usable) : ctx.rng.Below(n);
          for (size_t w = 0; w < width; ++w) v[ibase + w][r] = v[tbase + w][src];
        }
        a.inputs.emplace_back();
        for (size_t w = 0; w < width; ++w) a.inputs.back().push_back(plain(ibase + w));
      }
      if (ctx.rng.Chance(1, 3)) {
        // one wrong row: a value that isn't there, or columns of two rows mixed
        size_t g = ctx.rng.Below(groups), w = ctx.rng.Below(width);
        size_t col = a.inputs[g][w].t[0].a;
        v[col][ctx.rng.Below(fx.usable)] += ctx.rng.Chance(1, 2) ? F::One() : Rf<F>(ctx.rng);
      }
      auto row = [&](const std::vector<Ex<F>>& e, size_t r) {
        std::string s;
        for (auto& x : e) s += x.At(v, r).ToString() + ",";
        return s;
      };
      std::set<std::string> rows;
      for (size_t r = 0; r < fx.usable; ++r) rows.insert(row(a.table, r));
      for (auto& g : a.inputs)
        for (size_t r = 0; r < fx.usable; ++r) a.ok = a.ok && rows.count(row(g, r));
      // shuffle: the table rows in another order (usable rows), maybe one changed
      size_t sbase = v.size();
      std::vector<size_t> order(fx.usable);
      std::iota(order.begin(), order.end(), 0);
      for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[ctx.rng.Below(i)]);
      for (size_t w = 0; w < width; ++w) {
        std::vector<F> c(n);
        for (size_t r = 0; r < n; ++r) c[r] = r < fx.usable ? v[tbase + w][order[r]] : Rf<F>(ctx.rng);
        v.push_back(c);
        a.shuffle.push_back(plain(sbase + w));
      }
      if (ctx.rng.Chance(1, 2)) {
        size_t r = ctx.rng.Below(fx.usable), w = ctx.rng.Below(width), q = ctx.rng.Below(fx.usable);
        if (ctx.rng.Chance(1, 2)) v[sbase + w][r] += F::One();
        else std::swap(v[sbase + w][r], v[sbase + w][q]);
      }
      std::vector<std::string> m1, m2;
      for (size_t r = 0; r < fx.usable; ++r) {
        m1.push_back(row(a.table, r));
        m2.push_back(row(a.shuffle, r));
      }
      std::sort(m1.begin(), m1.end());
      std::sort(m2.begin(), m2.end());
      a.shuffle_ok = m1 == m2;
    }
    std::vector<Evals> adv, none;
    for (auto& c : v) adv.push_back(Col<F>(c));
    std::vector<F> chal;
    std::vector<pl::MultiPhaseRefTable<Evals>> tables;
    tables.emplace_back(none, adv, none, chal);
    F theta = Rf<F>(ctx.rng), beta = Rf<F>(ctx.rng), gamma = Rf<F>(ctx.rng);
    auto build = [](const std::vector<Ex<F>>& e) {
      Exprs r;
      for (auto& x : e) r.push_back(x.Build());
      return r;
    };
    auto comp = [&](const std::vector<Ex<F>>& e, size_t r) {
      F acc = F::Zero();
      for (auto& x : e) acc = acc * theta + x.At(v, r);
      return acc;
    };
    bool all_ok = true, all_shuffle = true;
    for (auto& a : as) all_ok = all_ok && a.ok, all_shuffle = all_shuffle && a.shuffle_ok;
    auto show = [&] {
      std::string s = fx.Str();
      for (auto& a : as)
        s += " [w" + std::to_string(a.table.size()) + " g" + std::to_string(a.inputs.size()) + (a.ok ? " ok" : " bad") + "]";
      return s;
    };
    auto row_evals = [&](size_t r) {
      std::vector<F> ae;
      for (auto& c : v) ae.push_back(c[r]);
      return ae;
    };
    std::vector<F> noc;
    // ---- log derivative: several inputs per argument
    {
      using Prover = lk::log_derivative_halo2::Prover<Poly, Evals>;
      std::vector<lk::Argument<F>> largs;
      for (auto& a : as) {
        std::vector<Exprs> in;
        for (auto& g : a.inputs) in.push_back(build(g));
        largs.emplace_back("l", std::move(in), build(a.table));
      }
      size_t circuits = 1 + ctx.rng.Below(2);
      std::vector<pl::MultiPhaseRefTable<Evals>> tabs(circuits, tables[0]);
      std::vector<Prover> ps(circuits);
      fx.gen.made.clear();
      Prover::BatchCompressPairs(ps, fx.prover->domain(), largs, theta, tabs);
      Prover::BatchComputeMPolys(ps, fx.prover.get());
      Prover::BatchCreateGrandSumPolys(ps, fx.prover.get(), beta);
      for (auto& p : ps) {
        bool compressed = true, mult = true, sums = true, ids = true;
        for (size_t k = 0; k < args; ++k) {
          Arg& a = as[k];
          std::map<std::string, F> m_by_value, in_count;
          for (size_t r = 0; r < n; ++r) {
            compressed = compressed && p.compressed_tables()[k][r] == comp(a.table, r);
            for (size_t g = 0; g < a.inputs.size(); ++g)
              compressed = compressed && p.compressed_inputs_vec()[k][g][r] == comp(a.inputs[g], r);
          }
          auto& m = p.m_polys()[k].evals();
          std::set<std::string> tv;
          for (size_t r = 0; r < fx.usable; ++r) {
            std::string s = comp(a.table, r).ToString();
            m_by_value.try_emplace(s, F::Zero()).first->second += m[r];
            tv.insert(s);
          }
          for (auto& g : a.inputs)
            for (size_t r = 0; r < fx.usable; ++r) {
              std::string s = comp(g, r).ToString();
              if (tv.count(s)) in_count.try_emplace(s, F::Zero()).first->second += F::One();
            }
          for (auto& [s, c] : m_by_value) {
            auto it = in_count.find(s);
            mult = mult && c == (it == in_count.end() ? F::Zero() : it->second);
          }
          for (size_t r = fx.usable; r < n; ++r) mult = mult && m[r].IsZero();
          auto& phi = p.grand_sum_polys()[k].evals();
          F acc = F::Zero();
          for (size_t r = 0; r < fx.usable; ++r) {
            sums = sums && phi[r] == acc;
            for (auto& g : a.inputs) acc += *(comp(g, r) + beta).Inverse();
            acc -= m[r] * *(comp(a.table, r) + beta).Inverse();
          }
          sums = sums && acc.IsZero() == a.ok && phi[fx.usable].IsZero();
          for (size_t r = fx.usable + 1; r < n; ++r)
            sums = sums && std::find(fx.gen.made.begin(), fx.gen.made.end(), phi[r]) != fx.gen.made.end();
        }
        for (size_t r = 0; r < n; ++r) {
          pl::halo2::LogDerivativeHalo2Proof<F, F> proof;
          proof.theta = theta, proof.beta = beta, proof.gamma = gamma;
          proof.advice_evals_vec = {row_evals(r)};
          proof.instance_evals_vec = {{}};
          proof.lookup_m_poly_commitments_vec = {std::vector<F>(args)};
          proof.lookup_sum_commitments_vec = {std::vector<F>(args)};
          std::vector<F> e1, e2, e3;
          for (size_t k = 0; k < args; ++k) {
            e1.push_back(p.grand_sum_polys()[k].evals()[r]);
            e2.push_back(p.grand_sum_polys()[k].evals()[(r + 1) % n]);
            e3.push_back(p.m_polys()[k].evals()[r]);
          }
          proof.lookup_sum_evals_vec = {e1};
          proof.lookup_sum_next_evals_vec = {e2};
          proof.lookup_m_evals_vec = {e3};
          F first = F(r == 0 ? 1 : 0), last = F(r == fx.usable ? 1 : 0), blind = F(r > fx.usable ? 1 : 0);
          pl::LValues<F> lv(first, blind, last);
          lk::log_derivative_halo2::Verifier<F, F> ver(proof, 0, lv);
          std::vector<F> ev;
          ver.Evaluate(largs, ev);
          ids = ids && true;
          bool shape = ev.size() == 3 * args;
          ctx.CheckF(shape, "logderiv_identity_count", show);
          if (!shape) break;
          for (size_t k = 0; k < args; ++k) {
            bool z = ev[3 * k].IsZero() && ev[3 * k + 1].IsZero() && ev[3 * k + 2].IsZero();
            // only the last usable row shows that a lookup fails
            bool want = as[k].ok || r != fx.usable - 1;
            ids = ids && z == want;
          }
          if (ctx.rng.Chance(1, 4)) {
            // any other multiplicity, sum or next sum is seen on its row
            size_t k = ctx.rng.Below(args), what = ctx.rng.Below(3);
            auto pr = proof;
            (what == 0 ? pr.lookup_m_evals_vec : what == 1 ? pr.lookup_sum_evals_vec : pr.lookup_sum_next_evals_vec)[0][k] += F(2);
            lk::log_derivative_halo2::Verifier<F, F> ver2(pr, 0, lv);
            std::vector<F> ev2;
            ver2.Evaluate(largs, ev2);
            bool seen = !ev2[3 * k + 2].IsZero();
            bool differs = ev2[3 * k + 2] != ev[3 * k + 2];
            ids = ids && differs == (r < fx.usable);
            if (as[k].ok) ids = ids && seen == (r < fx.usable);
            if (what == 1) ids = ids && (ev2[3 * k].IsZero() == (r != 0)) && (ev2[3 * k + 1].IsZero() == (r != fx.usable));
          }
        }
        ctx.CheckF(compressed, "logderiv_compressed_columns", show);
        ctx.CheckF(mult, "multiplicities_count_the_inputs", show);
        ctx.CheckF(sums, "grand_sum_columns", show);
        ctx.CheckF(ids, "logderiv_identities_hold_iff_lookups_hold", show);
      }
      ctx.Count(all_ok ? "lookups_hold" : "lookups_broken");
    }
    // ---- halo2: one input per argument; the prover refuses a missing value
    if (std::all_of(as.begin(), as.end(), [](Arg& a) { return a.ok; })) {
      using Prover = lk::halo2::Prover<Poly, Evals>;
      std::vector<lk::Argument<F>> largs;
      for (auto& a : as) largs.emplace_back("l", build(a.inputs[0]), build(a.table));
      std::vector<Prover> ps(1);
      fx.gen.made.clear();
      Prover::BatchCompressPairs(ps, fx.prover->domain(), largs, theta, tables);
      std::vector<lk::Pair<Evals>> pairs = ps[0].compressed_pairs();
      Prover::BatchPermutePairs(ps, fx.prover.get());
      Prover::BatchCreateGrandProductPolys(ps, fx.prover.get(), beta, gamma);
      auto& p = ps[0];
      bool compressed = true, perm = true, prod = true, ids = true, tail = true;
      auto drawn = [&](const F& x) { return std::find(fx.gen.made.begin(), fx.gen.made.end(), x) != fx.gen.made.end(); };
      for (size_t k = 0; k < args; ++k) {
        auto& A = p.permuted_pairs()[k].input().evals();
        auto& S = p.permuted_pairs()[k].table().evals();
        auto& Z = p.grand_product_polys()[k].evals();
        F acc = F::One();
        perm = perm && A[0] == S[0];
        for (size_t r = 0; r < n; ++r)
          compressed = compressed && pairs[k].input()[r] == comp(as[k].inputs[0], r) && pairs[k].table()[r] == comp(as[k].table, r);
        for (size_t r = 0; r < fx.usable; ++r) {
          if (r) perm = perm && (A[r] == S[r] || A[r] == A[r - 1]);
          prod = prod && Z[r] == acc;
          acc *= (comp(as[k].inputs[0], r) + beta) * (comp(as[k].table, r) + gamma);
          acc *= *((A[r] + beta) * (S[r] + gamma)).Inverse();
        }
        prod = prod && Z[fx.usable] == acc && acc.IsOne();
        for (size_t r = fx.usable + 1; r < n; ++r) tail = tail && drawn(Z[r]) && drawn(A[r]) && drawn(S[r]);
        tail = tail && drawn(A[fx.usable]) && drawn(S[fx.usable]);
      }
      for (size_t r = 0; r < n; ++r) {
        pl::halo2::Halo2Proof<F, F> proof;
        proof.theta = theta, proof.beta = beta, proof.gamma = gamma;
        proof.advice_evals_vec = {row_evals(r)};
        proof.instance_evals_vec = {{}};
        proof.lookup_permuted_commitments_vec = {std::vector<lk::Pair<F>>(args)};
        proof.lookup_product_commitments_vec = {std::vector<F>(args)};
        std::vector<F> z, zn, a, ap, s;
        for (size_t k = 0; k < args; ++k) {
          auto& A = p.permuted_pairs()[k].input().evals();
          auto& S = p.permuted_pairs()[k].table().evals();
          auto& Z = p.grand_product_polys()[k].evals();
          z.push_back(Z[r]), zn.push_back(Z[(r + 1) % n]);
          a.push_back(A[r]), ap.push_back(A[(r + n - 1) % n]), s.push_back(S[r]);
        }
        proof.lookup_product_evals_vec = {z};
        proof.lookup_product_next_evals_vec = {zn};
        proof.lookup_permuted_input_evals_vec = {a};
        proof.lookup_permuted_input_prev_evals_vec = {ap};
        proof.lookup_permuted_table_evals_vec = {s};
        F first = F(r == 0 ? 1 : 0), last = F(r == fx.usable ? 1 : 0), blind = F(r > fx.usable ? 1 : 0);
        pl::LValues<F> lv(first, blind, last);
        auto eval = [&](const pl::halo2::Halo2Proof<F, F>& pr) {
          lk::halo2::Verifier<F, F> ver(pr, 0, lv);
          std::vector<F> ev;
          ver.Evaluate(largs, ev);
          return ev;
        };
        std::vector<F> ev = eval(proof);
        ids = ids && ev.size() == 5 * args;
        for (auto& e : ev) ids = ids && e.IsZero();
        if (ev.size() != 5 * args) break;
        size_t k = ctx.rng.Below(args);
        F bump = F(2) + F(ctx.rng.Below(5));
        auto pr = proof;
        switch (ctx.rng.Below(4)) {
          case 0:  // Z
            pr.lookup_product_evals_vec[0][k] += bump;
            ev = eval(pr);
            ids = ids && ev[5 * k].IsZero() == (r != 0) && ev[5 * k + 2].IsZero() == (r >= fx.usable) &&
                  ev[5 * k + 1].IsZero() == (r != fx.usable);
            break;
          case 1:
            pr.lookup_product_next_evals_vec[0][k] += bump;
            ids = ids && eval(pr)[5 * k + 2].IsZero() == (r >= fx.usable);
            break;
          case 2: {  // A' and S' both off, with the previous A' differing from A'
            pr.lookup_permuted_input_evals_vec[0][k] += bump;
            pr.lookup_permuted_input_prev_evals_vec[0][k] += bump * F(3);
            F ai = pr.lookup_permuted_input_evals_vec[0][k];
            bool z3 = (ai - s[k]).IsZero() || r != 0;
            bool z4 = r >= fx.usable || (ai - s[k]).IsZero() || (ai - pr.lookup_permuted_input_prev_evals_vec[0][k]).IsZero();
            ev = eval(pr);
            ids = ids && ev[5 * k + 3].IsZero() == z3 && ev[5 * k + 4].IsZero() == z4;
            break;
          }
          case 3: {
            pr.lookup_permuted_table_evals_vec[0][k] += bump;
            F si = s[k] + bump;
            bool z3 = (a[k] - si).IsZero() || r != 0;
            bool z4 = r >= fx.usable || (a[k] - si).IsZero() || a[k] == ap[k];
            ev = eval(pr);
            ids = ids && ev[5 * k + 3].IsZero() == z3 && ev[5 * k + 4].IsZero() == z4 &&
                  ev[5 * k + 2].IsZero() == (r >= fx.usable);
            break;
          }
        }
      }
      ctx.CheckF(compressed, "halo2_compressed_columns", show);
      ctx.CheckF(perm, "halo2_permuted_columns", show);
      ctx.CheckF(prod, "halo2_grand_product_columns", show);
      ctx.CheckF(tail, "halo2_unusable_rows_are_random", show);
      ctx.CheckF(ids, "halo2_identities", show);
    }
    // ---- shuffles
    {
      using Prover = zk::shuffle::Prover<Poly, Evals>;
      std::vector<zk::shuffle::Argument<F>> sargs;
      for (auto& a : as) sargs.emplace_back("s", build(a.table), build(a.shuffle));
      std::vector<Prover> ps(1);
      fx.gen.made.clear();
      Prover::BatchCompressPairs(ps, fx.prover->domain(), sargs, theta, tables);
      Prover::BatchCreateGrandProductPolys(ps, fx.prover.get(), gamma);
      auto& zs = ps[0].grand_product_polys();
      bool prod = zs.size() == args, ids = true;
      for (size_t k = 0; k < args && prod; ++k) {
        F acc = F::One();
        for (size_t r = 0; r < fx.usable; ++r) {
          prod = prod && zs[k].evals()[r] == acc;
          acc *= (comp(as[k].table, r) + gamma) * *(comp(as[k].shuffle, r) + gamma).Inverse();
        }
        prod = prod && zs[k].evals()[fx.usable] == acc && acc.IsOne() == as[k].shuffle_ok;
      }
      ctx.CheckF(prod, "shuffle_grand_product_columns", show);
      for (size_t r = 0; r < n && prod; ++r) {
        std::vector<F> ae = row_evals(r), z, zn;
        for (size_t k = 0; k < args; ++k) {
          z.push_back(zs[k].evals()[r]);
          zn.push_back(zs[k].evals()[(r + 1) % n]);
        }
        std::vector<F> com(args);
        F first = F(r == 0 ? 1 : 0), last = F(r == fx.usable ? 1 : 0), blind = F(r > fx.usable ? 1 : 0);
        pl::LValues<F> lv(first, blind, last);
        auto eval = [&] {
          zk::shuffle::VerifierData<F, F> data(noc, ae, noc, chal, com, z, zn, theta, gamma);
          zk::shuffle::Verifier<F, F> ver(data, lv);
          std::vector<F> ev;
          ver.Evaluate(sargs, ev);
          return ev;
        };
        std::vector<F> ev = eval();
        ids = ids && ev.size() == 3 * args;
        if (!ids) break;
        for (size_t k = 0; k < args; ++k) {
          bool zero = ev[3 * k].IsZero() && ev[3 * k + 1].IsZero() && ev[3 * k + 2].IsZero();
          ids = ids && zero == (as[k].shuffle_ok || r != fx.usable);
        }
        size_t k = ctx.rng.Below(args);
        if (ctx.rng.Chance(1, 2)) {
          zn[k] += F(3);
          ids = ids && eval()[3 * k + 2].IsZero() == (r >= fx.usable);
        } else {
          z[k] += F(3);
          ev = eval();
          ids = ids && ev[3 * k].IsZero() == (r != 0) && ev[3 * k + 2].IsZero() == (r >= fx.usable);
        }
      }
      ctx.CheckF(ids, "shuffle_identities_hold_iff_multisets_agree", show);
      ctx.Count(all_shuffle ? "shuffles_hold" : "shuffles_broken");
    }
    ctx.Distinct(vh::HashStr(show() + v[0][0].ToString() + v.back()[0].ToString()));
  }
}

// ---------------------------------------------------------------- refusals, counts
void Refusals(vh::Ctx& ctx) {
  using F = math::bn254::Fr;
  size_t total = ctx.N(24);
  for (size_t t = 0; t < total && ctx.TimeLeft(); ++t) {
    RowIndex rows = 1 + ctx.rng.Below(40);
    std::vector<pl::AnyColumnKey> cols{pl::AdviceColumnKey(0), pl::FixedColumnKey(1), pl::InstanceColumnKey(0)};
    RowIndex row = t % 4 == 0 ? rows : t % 4 == 1 ? rows - 1 : ctx.rng.Below(rows + 5);
    bool left = ctx.rng.Chance(1, 2), unknown = ctx.rng.Chance(1, 5);
    pl::AnyColumnKey c = unknown ? pl::AnyColumnKey(pl::AdviceColumnKey(7)) : cols[ctx.rng.Below(3)];
    bool valid = row < rows && !unknown;
    int rc = vh::InChild([&] {
      pl::PermutationAssembly as(cols, rows);
      if (left) as.Copy(c, row, cols[0], 0);
      else as.Copy(cols[2], 0, c, row);
    });
    auto show = [&] { return "row " + std::to_string(row) + " of " + std::to_string(rows) + (unknown ? " unknown column" : "") + " rc=" + std::to_string(rc); };
    // (an abort; a crash of the sanitizer is something else)
    ctx.CheckF(valid ? rc == 0 : rc == 1000 + SIGABRT || rc == 1000 + SIGTRAP || rc == 1000 + SIGILL, "copy_outside_the_table_is_refused", show);
    ctx.Count(valid ? "copy_inside" : "copy_refused");
  }
  for (size_t t = 0; t < ctx.N(100); ++t) {
    size_t circuits = ctx.rng.Below(4), polys = ctx.rng.Below(6), perms = ctx.rng.Below(9);
    bool empty = circuits == 0 || polys == 0;
    ctx.CheckF(pl::GetNumPermutationEvals(circuits, polys) ==
                   (empty ? 0 : circuits * (polys * 2 + 1)),
               "permutation_eval_count", [&] { return std::to_string(circuits) + "/" + std::to_string(polys); });
    ctx.CheckF(pl::GetNumPermutationOpenings(circuits, polys, perms) == (empty ? 0 : circuits * (polys * 3 - 1) + perms),
               "permutation_opening_count", [&] { return std::to_string(circuits) + "/" + std::to_string(polys); });
  }
  (void)sizeof(F);
}

template <typename F>
void Delta(vh::Ctx& ctx) {
  // the order of delta is the odd part of p - 1, so delta^i w^j are distinct
  F d = pl::GetDelta<F>();
  F t = d;
  typename F::BigIntTy trace = F::Config::kTrace;
  ctx.Check(d.Pow(trace).IsOne(), "delta_order_divides_trace", d.ToString());
  std::set<std::string> seen;
  bool ok = true;
  t = F::One();
  for (int i = 0; i < 2000; ++i, t *= d) ok = ok && seen.insert(t.ToString()).second;
  ctx.Check(ok, "delta_powers_distinct", d.ToString());
}

void vh_main(vh::Ctx& ctx) {
  using F1 = math::bn254::Fr;
  using F2 = math::pallas::Fr;
  F1::Init();
  F2::Init();
  FLAGS_minloglevel = 3;
  if (ctx.Section("cycles")) Cycles(ctx);
  if (ctx.Section("delta")) { Delta<F1>(ctx); Delta<F2>(ctx); }
  if (ctx.Section("permutation/bn254")) Permutation<F1>(ctx);
  if (ctx.Section("permutation/pallas")) Permutation<F2>(ctx);
  if (ctx.Section("pairs/bn254")) Pairs<F1>(ctx);
  if (ctx.Section("pairs/pallas")) Pairs<F2>(ctx);
  if (ctx.Section("lookups/bn254")) Lookups<F1>(ctx);
  if (ctx.Section("lookups/pallas")) Lookups<F2>(ctx);
  if (ctx.Section("refusals")) Refusals(ctx);
  ctx.Require("verifier_identities_hold_on_every_row_iff_copies_hold", 20);
  ctx.Require("next_labels_walk_each_class_once", 100);
  ctx.Require("lookup_accepted_iff_every_input_is_in_the_table", 100);
  ctx.Require("logderiv_identities_hold_iff_lookups_hold", 20);
  ctx.Require("halo2_identities", 10);
  ctx.Require("copy_outside_the_table_is_refused", 10);
}
