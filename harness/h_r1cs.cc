// P24: rank-1 constraint systems mean what their constraints say, through
// inlining/outlining, matrices and the QAP; Groth16 keys and proofs are the
// ones the toxic waste defines, and proofs verify exactly for the statement.
#include <algorithm>
#include <map>
#include <memory>
#include <set>

#include "absl/numeric/bits.h"

#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h"
#include "tachyon/zk/r1cs/groth16/prove.h"
#include "tachyon/zk/r1cs/groth16/verify.h"
#include "vh.h"

namespace math = tachyon::math;
using namespace tachyon::zk::r1cs;
namespace g16 = tachyon::zk::r1cs::groth16;

constexpr size_t kMaxDegree = 127;

template <typename F>
F RandF(vh::Rng& r) {
  switch (r.Below(8)) {
    case 0: return F::Zero();
    case 1: return F::One();
    case 2: return -F::One();
    case 3: return F(static_cast<uint32_t>(r.Below(20)));
    default: {
      F x = F(static_cast<uint32_t>(r.Below(1u << 30)));
      for (int i = 0; i < 9; ++i) x = x * F(static_cast<uint32_t>(r.Below(1u << 30))) + F(static_cast<uint32_t>(r.Below(1u << 30)));
      return x;
    }
  }
}
template <typename F>
F RandNZ(vh::Rng& r) {
  F x = RandF<F>(r);
  return x.IsZero() ? F(7) : x;
}

// ---- a circuit as a script -------------------------------------------------
enum Kind { kZero, kOne, kInst, kWit, kSym };
template <typename F>
struct T { F c; Kind k; size_t i; };
template <typename F>
using L = std::vector<T<F>>;

template <typename F>
struct Script {
  struct Op { int what; F value; L<F> a, b, c; };  // 0 inst, 1 wit, 2 lc, 3 enforce
  std::vector<Op> ops;
  std::vector<F> inst, wit;  // values (inst without the one)
  std::vector<L<F>> syms;
  std::vector<std::array<L<F>, 3>> cons;

  F Val(const T<F>& t) const {
    switch (t.k) {
      case kZero: return F::Zero();
      case kOne: return t.c;
      case kInst: return t.c * inst[t.i];
      case kWit: return t.c * wit[t.i];
      case kSym: return t.c * Eval(syms[t.i]);
    }
    return F::Zero();
  }
  F Eval(const L<F>& l) const {
    F s = F::Zero();
    for (const T<F>& t : l) s += Val(t);
    return s;
  }
  bool Satisfied() const {
    for (auto& k : cons)
      if (Eval(k[0]) * Eval(k[1]) != Eval(k[2])) return false;
    return true;
  }
  // coefficients over (1, instances.., witnesses..)
  void Flat(const L<F>& l, const F& scale, std::vector<F>& out) const {
    for (const T<F>& t : l) {
      F c = t.c * scale;
      switch (t.k) {
        case kZero: break;
        case kOne: out[0] += c; break;
        case kInst: out[1 + t.i] += c; break;
        case kWit: out[1 + inst.size() + t.i] += c; break;
        case kSym: Flat(syms[t.i], c, out); break;
      }
    }
  }
  std::vector<F> Flat(const L<F>& l) const {
    std::vector<F> out(1 + inst.size() + wit.size(), F::Zero());
    Flat(l, F::One(), out);
    return out;
  }
  size_t AddInst(const F& v) { inst.push_back(v); ops.push_back({0, v, {}, {}, {}}); return inst.size() - 1; }
  size_t AddWit(const F& v) { wit.push_back(v); ops.push_back({1, v, {}, {}, {}}); return wit.size() - 1; }
  size_t AddSym(const L<F>& l) { syms.push_back(l); ops.push_back({2, F::Zero(), l, {}, {}}); return syms.size() - 1; }
  void Enforce(const L<F>& a, const L<F>& b, const L<F>& c) {
    cons.push_back({a, b, c});
    ops.push_back({3, F::Zero(), a, b, c});
  }
  std::string Show() const {
    std::string s = "inst=" + std::to_string(inst.size()) + " wit=" + std::to_string(wit.size()) + " ops:";
    auto l = [](const L<F>& x) {
      std::string r = "(";
      for (auto& t : x) r += t.c.ToString().substr(0, 6) + "*" + "01xws"[t.k] + std::to_string(t.i) + " ";
      return r + ")";
    };
    for (auto& o : ops) {
      if (o.what == 2) s += " sym" + l(o.a);
      if (o.what == 3) s += " [" + l(o.a) + l(o.b) + l(o.c) + "]";
    }
    return s.substr(0, 900);
  }
  uint64_t Hash() const { return vh::HashStr(Show()); }
};

template <typename F>
LinearCombination<F> ToLC(const L<F>& l, const std::vector<Variable>& in, const std::vector<Variable>& wi,
                          const std::vector<Variable>& sy) {
  LinearCombination<F> r;
  for (const T<F>& t : l) {
    Variable v = Variable::Zero();
    if (t.k == kOne) v = Variable::One();
    if (t.k == kInst) v = in[t.i];
    if (t.k == kWit) v = wi[t.i];
    if (t.k == kSym) v = sy[t.i];
    r.AppendTerm(Term<F>(t.c, v));
  }
  return r;
}

template <typename F>
class ScriptCircuit : public Circuit<F> {
 public:
  explicit ScriptCircuit(const Script<F>& s) : s_(s) {}
  void Synthesize(ConstraintSystem<F>& cs) const override {
    std::vector<Variable> in, wi, sy;
    for (auto& o : s_.ops) {
      if (o.what == 0) in.push_back(cs.CreateInstanceVariable([&o]() { return o.value; }));
      if (o.what == 1) wi.push_back(cs.CreateWitnessVariable([&o]() { return o.value; }));
      if (o.what == 2) sy.push_back(cs.CreateLinearCombination(ToLC(o.a, in, wi, sy)));
      if (o.what == 3) {
        auto a = ToLC(o.a, in, wi, sy), b = ToLC(o.b, in, wi, sy), c = ToLC(o.c, in, wi, sy);
        if (&o - s_.ops.data() & 1) cs.EnforceConstraint(a, b, c);
        else cs.EnforceConstraint(std::move(a), std::move(b), std::move(c));
      }
    }
  }
 private:
  const Script<F>& s_;
};

template <typename F>
L<F> RandLC(vh::Rng& r, const Script<F>& s, size_t max_terms, bool zero_ok) {
  L<F> l;
  size_t n = r.Below(max_terms + 1);
  for (size_t i = 0; i < n; ++i) {
    F c = RandF<F>(r);
    switch (r.Below(6)) {
      case 0: l.push_back({c, kOne, 0}); break;
      case 1: if (zero_ok && r.Chance(1, 4)) l.push_back({c, kZero, 0}); break;
      case 2: if (!s.inst.empty()) l.push_back({c, kInst, r.Below(s.inst.size())}); break;
      case 3: case 4: if (!s.wit.empty()) l.push_back({c, kWit, r.Below(s.wit.size())}); break;
      case 5: if (!s.syms.empty()) l.push_back({c, kSym, r.Below(s.syms.size())}); break;
    }
  }
  return l;
}

// A random circuit, satisfied by its own assignment.
template <typename F>
Script<F> RandScript(vh::Rng& r, size_t max_cons, bool zero_ok = true, int n_inst = -1) {
  Script<F> s;
  size_t ni = n_inst >= 0 ? n_inst : r.Below(5), nc = 1 + r.Below(max_cons);
  size_t placed = 0;
  for (size_t i = 0; i < nc; ++i) {
    if (placed < ni && r.Bool()) { s.AddInst(RandF<F>(r)); ++placed; }
    for (size_t k = r.Below(3); k > 0; --k) s.AddWit(RandF<F>(r));
    if (r.Chance(1, 2)) s.AddSym(RandLC(r, s, 6, zero_ok));
    L<F> a = RandLC(r, s, 5, zero_ok), b = RandLC(r, s, 5, zero_ok), c = RandLC(r, s, 4, zero_ok);
    if (!s.syms.empty() && r.Chance(1, 3)) {  // reuse one symbol often
      size_t k = r.Below(s.syms.size());
      a.push_back({RandF<F>(r), kSym, k});
      if (r.Bool()) b.push_back({RandF<F>(r), kSym, k});
      if (r.Bool()) c.push_back({RandF<F>(r), kSym, k});
    }
    F want = s.Eval(a) * s.Eval(b) - s.Eval(c);
    if (!want.IsZero() || r.Bool()) {
      F k = RandNZ<F>(r);
      F v = want * k.Inverse().value();
      size_t w = s.AddWit(v);
      c.push_back({k, kWit, w});
    }
    s.Enforce(a, b, c);
  }
  while (placed < ni) { s.AddInst(RandF<F>(r)); ++placed; }
  return s;
}

// ---- linear combinations ---------------------------------------------------
template <typename F>
void LinComb(vh::Ctx& ctx) {
  vh::Rng& r = ctx.rng;
  auto var = [&]() {
    switch (r.Below(5)) {
      case 0: return Variable::Zero();
      case 1: return Variable::One();
      case 2: return Variable::Instance(r.Below(6));
      case 3: return Variable::Witness(r.Below(6));
      default: return Variable::SymbolicLinearCombination(r.Below(6));
    }
  };
  auto key = [](const Variable& v) {
    return std::make_pair(static_cast<int>(v.type()), v.IsZero() || v.IsOne() ? size_t{0} : v.index());
  };
  using M = std::map<std::pair<int, size_t>, F>;
  auto sum = [&](const LinearCombination<F>& l) {
    M m;
    for (auto& t : l.terms()) {
      auto it = m.emplace(key(t.variable), F::Zero()).first;
      it->second += t.coefficient;
    }
    return m;
  };
  auto add = [&](M a, const M& b, const F& k) {
    for (auto& [v, c] : b) {
      auto it = a.emplace(v, F::Zero()).first;
      it->second += c * k;
    }
    return a;
  };
  auto clean = [](const M& a) {
    M o;
    for (auto& [v, c] : a) if (!c.IsZero()) o.emplace(v, c);
    return o;
  };
  auto same = [&](const LinearCombination<F>& l, const M& m, bool canonical, const char* mon) {
    bool ok = clean(sum(l)) == clean(m);
    bool sorted = true;
    for (size_t i = 1; i < l.terms().size(); ++i)
      sorted = sorted && key(l.terms()[i - 1].variable) < key(l.terms()[i].variable);
    ctx.CheckF(ok && (!canonical || sorted), mon, [&] { return l.ToString(); });
  };
  for (size_t it = 0; it < ctx.N(400); ++it) {
    std::vector<Term<F>> ts;
    for (size_t n = r.Below(14); n > 0; --n) ts.emplace_back(RandF<F>(r), var());
    ctx.Distinct(vh::HashStr(LinearCombination<F>(ts).ToString()));
    LinearCombination<F> raw(ts);
    M mr = sum(raw);
    bool srt = true;
    for (size_t i = 1; i < ts.size(); ++i) srt = srt && !(key(ts[i].variable) < key(ts[i - 1].variable));
    ctx.CheckF(raw.IsSorted() == srt, "is_sorted", [&] { return raw.ToString(); });
    auto a = LinearCombination<F>::CreateDeduplicated(ts);
    same(a, mr, true, "deduplicate_merges_equal_variables");
    ctx.CheckF(a.IsSorted(), "deduplicated_is_sorted", [&] { return a.ToString(); });
    LinearCombination<F> b;
    M mb;
    for (size_t n = r.Below(16); n > 0; --n) {
      Term<F> t(RandF<F>(r), var());
      M mt = {{key(t.variable), t.coefficient}};
      bool neg = r.Bool();
      LinearCombination<F> c = neg ? b - t : b + t;
      if (neg) b -= t; else b += t;
      ctx.CheckF(b == c, "in_place_is_same", [&] { return c.ToString(); });
      mb = add(mb, mt, neg ? -F::One() : F::One());
      same(b, mb, true, "adding_terms_keeps_the_sum_and_the_order");
    }
    { Variable v = var();
      M mt = {{key(v), F::One()}};
      same(b + v, add(mb, mt, F::One()), true, "adding_a_variable");
      same(b - v, add(mb, mt, -F::One()), true, "subtracting_a_variable"); }
    same(a + b, add(mr, mb, F::One()), true, "sum_of_combinations");
    same(a - b, add(mr, mb, -F::One()), true, "difference_of_combinations");
    auto c = a; c += b; ctx.Check(c == a + b, "plus_assign", c.ToString());
    c = a; c -= b; ctx.Check(c == a - b, "minus_assign", c.ToString());
    F k = RandF<F>(r);
    same(a * k, add({}, mr, k), true, "scaling");
    same(-a, add({}, mr, -F::One()), true, "negation");
    c = a; c.NegateInPlace(); ctx.Check(c == -a, "negate_in_place", c.ToString());
    // the order of variables
    Variable x = var(), y = var();
    auto kx = key(x), ky = key(y);
    ctx.CheckF((x < y) == (kx < ky) && (x > y) == (kx > ky) && (x <= y) == (kx <= ky) && (x >= y) == (kx >= ky) &&
               (x == y) == (kx == ky) && (x != y) == (kx != ky), "order_of_variables",
               [&] { return x.ToString() + " " + y.ToString(); });
  }
}

// ---- constraint systems ----------------------------------------------------
template <typename F>
bool MatrixHas(const Matrix<F>& m, size_t row, const std::vector<F>& want) {
  std::vector<F> got(want.size(), F::Zero());
  for (auto& c : m[row]) {
    if (c.index >= got.size()) return false;
    got[c.index] += c.coefficient;
  }
  return got == want;
}

template <typename F>
void Systems(vh::Ctx& ctx) {
  vh::Rng& r = ctx.rng;
  for (size_t it = 0; it < ctx.N(250); ++it) {
    Script<F> s = RandScript<F>(r, 8);
    ctx.Distinct(s.Hash());
    bool broken = r.Chance(1, 3);
    if (broken && !s.wit.empty()) {
      size_t k = r.Below(s.wit.size());
      F d = RandNZ<F>(r);
      s.wit[k] += d;
      size_t n = 0;
      for (auto& o : s.ops) if (o.what == 1 && n++ == k) o.value += d;
    }
    bool sat = s.Satisfied();
    ctx.Count(sat ? "systems_satisfied" : "systems_unsatisfied");
    bool weight = r.Bool();
    ConstraintSystem<F> cs;
    if (weight) cs.set_optimization_goal(OptimizationGoal::kWeight);
    if (r.Bool()) cs.set_mode(SynthesisMode::Prove(true));
    ScriptCircuit<F> circuit(s);
    circuit.Synthesize(cs);
    auto show = [&] { return s.Show() + (weight ? " weight" : " constraints"); };
    ctx.CheckF(cs.IsSatisfied() == sat, "satisfied_iff_every_constraint_holds", show);
    ctx.CheckF(cs.num_instance_variables() == 1 + s.inst.size() && cs.num_witness_variables() == s.wit.size() &&
               cs.num_constraints() == s.cons.size(), "counts", show);
    std::vector<F> iv = {F::One()};
    iv.insert(iv.end(), s.inst.begin(), s.inst.end());
    ctx.CheckF(cs.instance_assignments() == iv && cs.witness_assignments() == s.wit, "assignments", show);
    // symbols have the value of their combination (before they are inlined)
    size_t lc = 0, sy = 0;
    for (auto& o : s.ops) {
      if (o.what == 2) {
        ctx.CheckF(cs.GetAssignedValue(Variable::SymbolicLinearCombination(lc)) == s.Eval(s.syms[sy]),
                   "value_of_a_combination", show);
        ++lc; ++sy;
      }
      if (o.what == 3) lc += 3;
    }
    ctx.Case("finalize " + show());
    cs.Finalize();
    ctx.CheckF(cs.IsSatisfied() == sat, "satisfied_iff_every_constraint_holds_after_finalize", show);
    auto m = cs.ToMatrices();
    if (!ctx.CheckF(m.has_value(), "matrices_exist", show)) continue;
    size_t nw = cs.num_witness_variables();
    ctx.CheckF(m->num_instance_variables == iv.size() && m->num_witness_variables == nw &&
               m->num_constraints == cs.num_constraints() && nw >= s.wit.size() &&
               cs.num_constraints() - s.cons.size() == nw - s.wit.size() && cs.witness_assignments().size() == nw &&
               (weight || nw == s.wit.size()), "counts_after_finalize", show);
    std::vector<F> z = iv;
    z.insert(z.end(), cs.witness_assignments().begin(), cs.witness_assignments().end());
    bool prefix = std::equal(s.wit.begin(), s.wit.end(), cs.witness_assignments().begin());
    ctx.CheckF(prefix, "finalize_keeps_witnesses", show);
    auto dot = [&](const std::vector<Cell<F>>& row) {
      F x = F::Zero();
      for (auto& c : row) {
        if (c.index >= z.size()) { ctx.Check(false, "cell_index_in_range", show()); return x; }
        x += z[c.index] * c.coefficient;
      }
      return x;
    };
    size_t nz[3] = {0, 0, 0};
    for (size_t i = 0; i < m->num_constraints; ++i) {
      F a = dot(m->a[i]), b = dot(m->b[i]), c = dot(m->c[i]);
      nz[0] += m->a[i].size(); nz[1] += m->b[i].size(); nz[2] += m->c[i].size();
      for (auto* row : {&m->a[i], &m->b[i], &m->c[i]}) {
        std::set<size_t> idx;
        bool ok = true;
        for (auto& cell : *row) ok = ok && idx.insert(cell.index).second && !cell.coefficient.IsZero();
        ctx.CheckF(ok, "rows_hold_each_column_once", show);
      }
      if (i < s.cons.size()) {
        ctx.CheckF(a == s.Eval(s.cons[i][0]) && b == s.Eval(s.cons[i][1]) && c == s.Eval(s.cons[i][2]),
                   "matrix_rows_evaluate_to_the_constraint", show);
        if (!weight)
          ctx.CheckF(MatrixHas(m->a, i, s.Flat(s.cons[i][0])) && MatrixHas(m->b, i, s.Flat(s.cons[i][1])) &&
                     MatrixHas(m->c, i, s.Flat(s.cons[i][2])), "inlined_matrix_is_the_constraint", show);
        ctx.Count("matrix_rows");
      } else {
        ctx.CheckF(a * b == c, "outlined_constraint_holds", show);
        ctx.Count("outlined_constraints");
      }
    }
    ctx.CheckF(nz[0] == m->a_num_non_zero && nz[1] == m->b_num_non_zero && nz[2] == m->c_num_non_zero,
               "non_zero_counts", show);
    // Outlining must not lose constraints: another assignment of the original
    // variables, extended by the outlining constraints, satisfies the matrices
    // iff it satisfies the original system.
    if (weight) {
      Script<F> s2 = s;
      for (auto& v : s2.wit) if (r.Chance(1, 3)) v += RandF<F>(r);
      std::vector<F> z2 = iv;
      z2.insert(z2.end(), s2.wit.begin(), s2.wit.end());
      z2.resize(z.size(), F::Zero());
      z.swap(z2);
      for (size_t i = s.cons.size(); i < m->num_constraints; ++i) {
        // a * 1 = w
        if (m->c[i].size() != 1 || !m->c[i][0].coefficient.IsOne()) { ctx.Check(false, "outlining_shape", show()); continue; }
        F v = dot(m->a[i]) * dot(m->b[i]);
        z[m->c[i][0].index] = v;
      }
      bool ok2 = true;
      for (size_t i = 0; i < m->num_constraints; ++i) ok2 = ok2 && dot(m->a[i]) * dot(m->b[i]) == dot(m->c[i]);
      ctx.CheckF(ok2 == s2.Satisfied(), "outlined_system_is_equivalent", show);
      z.swap(z2);
    }
    // setup mode builds the same matrices without assignments
    ConstraintSystem<F> st;
    if (weight) st.set_optimization_goal(OptimizationGoal::kWeight);
    st.set_mode(SynthesisMode::Setup());
    circuit.Synthesize(st);
    st.Finalize();
    ctx.CheckF(st.ToMatrices() == m, "setup_matrices_equal_prove_matrices", show);
    ctx.CheckF(!st.IsSatisfied() && st.witness_assignments().empty(), "setup_has_no_assignment", show);
  }
}

// ---- QAP -------------------------------------------------------------------
template <typename F>
std::vector<F> Lagrange(size_t n, const F& x) {
  F w;
  CHECK(F::GetRootOfUnity(n, &w));
  F t = x.Pow(n) - F::One(), ninv = F(static_cast<uint32_t>(n)).Inverse().value();
  std::vector<F> l(n);
  F wi = F::One();
  for (size_t i = 0; i < n; ++i, wi *= w) {
    F d = x - wi;
    if (d.IsZero()) {
      for (size_t j = 0; j < n; ++j) l[j] = j == i ? F::One() : F::Zero();
      return l;
    }
    l[i] = t * wi * ninv * d.Inverse().value();
  }
  return l;
}
template <typename F>
struct QapDef { std::vector<F> a, b, c; size_t n; F t; };
template <typename F>
QapDef<F> Define(const Script<F>& s, const F& x) {
  QapDef<F> q;
  size_t ni = s.inst.size() + 1, nc = s.cons.size();
  q.n = absl::bit_ceil(nc + ni);
  q.t = x.Pow(q.n) - F::One();
  auto l = Lagrange<F>(q.n, x);
  size_t m = ni + s.wit.size();
  q.a.assign(m, F::Zero()); q.b = q.a; q.c = q.a;
  for (size_t j = 0; j < nc; ++j) {
    auto A = s.Flat(s.cons[j][0]), B = s.Flat(s.cons[j][1]), C = s.Flat(s.cons[j][2]);
    for (size_t i = 0; i < m; ++i) { q.a[i] += l[j] * A[i]; q.b[i] += l[j] * B[i]; q.c[i] += l[j] * C[i]; }
  }
  for (size_t i = 0; i < ni; ++i) q.a[i] += l[nc + i];
  return q;
}
template <typename F>
F Dot(const std::vector<F>& a, const std::vector<F>& z) {
  F s = F::Zero();
  for (size_t i = 0; i < z.size(); ++i) s += a[i] * z[i];
  return s;
}

template <typename F>
void Qap(vh::Ctx& ctx) {
  vh::Rng& r = ctx.rng;
  using Q = QuadraticArithmeticProgram<F>;
  using Domain = math::UnivariateEvaluationDomain<F, kMaxDegree>;
  for (size_t it = 0; it < ctx.N(60); ++it) {
    Script<F> s = RandScript<F>(r, it % 5 == 0 ? 30 : 9);
    if (it % 7 == 0) {  // the all zero assignment: every polynomial vanishes
      s = Script<F>();
      size_t x = s.AddWit(F::Zero()), y = s.AddWit(F::Zero()), z = s.AddWit(F::Zero());
      s.Enforce({{F::One(), kWit, x}}, {{F::One(), kWit, y}}, {{F::One(), kWit, z}});
    }
    ctx.Distinct(s.Hash());
    ConstraintSystem<F> cs;
    ScriptCircuit<F> circuit(s);
    circuit.Synthesize(cs);
    cs.Finalize();
    auto show = [&] { return s.Show(); };
    std::unique_ptr<Domain> domain = Domain::Create(cs.num_constraints() + cs.num_instance_variables());
    F x = RandF<F>(r);
    if (r.Chance(1, 8)) x = domain->GetElement(r.Below(domain->size()));
    auto def = Define(s, x);
    ctx.CheckF(def.n == domain->size(), "domain_size", show);
    auto inst = Q::InstanceMap(domain.get(), cs, x);
    ctx.CheckF(inst.a == def.a && inst.b == def.b && inst.c == def.c && inst.t_x == def.t,
               "instance_map_is_the_interpolation_of_the_columns", show);
    ctx.CheckF(inst.num_constraints == s.cons.size() && inst.num_instance_variables == s.inst.size() + 1 &&
               inst.num_witness_variables == s.wit.size() && inst.num_qap_variables == s.inst.size() + s.wit.size(),
               "instance_map_counts", show);
    auto w = Q::WitnessMap(domain.get(), cs);
    std::vector<F> z = {F::One()};
    z.insert(z.end(), s.inst.begin(), s.inst.end());
    z.insert(z.end(), s.wit.begin(), s.wit.end());
    ctx.CheckF(w.full_assignments == z, "full_assignments", show);
    F h = F::Zero();
    for (size_t i = w.h.size(); i > 0; --i) h = h * x + w.h[i - 1];
    ctx.CheckF(Dot(def.a, z) * Dot(def.b, z) - Dot(def.c, z) == h * def.t, "witness_map_divides_exactly", show);
    bool top = true;
    for (size_t i = domain->size() - 1; i < w.h.size(); ++i) top = top && w.h[i].IsZero();
    ctx.CheckF(top && w.h.size() <= domain->size(), "quotient_degree", show);
    F d = RandNZ<F>(r), tx = RandF<F>(r);
    auto hq = Q::ComputeHQuery(domain.get(), tx, x, d);
    bool ok = hq.size() == domain->size() - 1;
    for (size_t i = 0; i < hq.size(); ++i) ok = ok && hq[i] == x.Pow(i) * tx * d;
    ctx.CheckF(ok, "h_query_is_the_powers", show);
  }
}

// ---- Groth16 ---------------------------------------------------------------
template <typename Curve>
void Groth(vh::Ctx& ctx, size_t n) {
  using G1 = typename Curve::G1Curve::AffinePoint;
  using G2 = typename Curve::G2Curve::AffinePoint;
  using F = typename G1::ScalarField;
  using Q = QuadraticArithmeticProgram<F>;
  vh::Rng& r = ctx.rng;
  auto g1 = [&](const F& k, const G1& g) { return (g * k).ToAffine(); };
  auto g2 = [&](const F& k, const G2& g) { return (g * k).ToAffine(); };
  for (size_t it = 0; it < n; ++it) {
    Script<F> s = RandScript<F>(r, it % 4 == 3 ? 12 : 4, it % 2, it % 5 == 1 ? 0 : -1);
    if (it % 6 == 2) {  // all zero
      s = Script<F>();
      if (r.Bool()) s.AddInst(F::Zero());
      size_t x = s.AddWit(F::Zero()), y = s.AddWit(F::Zero()), z = s.AddWit(F::Zero());
      s.Enforce({{F::One(), kWit, x}}, {{F::One(), kWit, y}}, {{F::One(), kWit, z}});
    }
    if (it % 6 == 4 && r.Bool()) {  // only public variables
      s = Script<F>();
      F a = RandF<F>(r), b = RandF<F>(r);
      size_t x = s.AddInst(a), y = s.AddInst(b), z = s.AddInst(a * b);
      s.Enforce({{F::One(), kInst, x}}, {{F::One(), kInst, y}}, {{F::One(), kInst, z}});
    }
    ctx.Distinct(s.Hash());
    std::string label = s.Show();
    auto show = [&] { return label; };
    ctx.Case(label);
    ScriptCircuit<F> circuit(s);
    F al = RandNZ<F>(r), be = RandNZ<F>(r), ga = RandNZ<F>(r), de = RandNZ<F>(r);
    G1 G = g1(RandNZ<F>(r), G1::Generator());
    G2 H = g2(RandNZ<F>(r), G2::Generator());
    g16::ToxicWaste<Curve> tw(al, be, ga, de, F::Zero(), G, H);
    g16::ProvingKey<Curve> pk;
    bool loaded = pk.template Load<kMaxDegree, Q>(tw, circuit);
    if (!ctx.CheckF(loaded, "proving_key_loads", show)) continue;
    F x = tw.x();
    auto q = Define(s, x);
    ctx.CheckF(!q.t.IsZero(), "secret_point_is_outside_the_domain", show);
    size_t ni = s.inst.size() + 1, m = ni + s.wit.size();
    F gi = ga.Inverse().value(), di = de.Inverse().value();
    auto abc = [&](size_t i) { return be * q.a[i] + al * q.b[i] + q.c[i]; };
    const auto& vk = pk.verifying_key();
    ctx.CheckF(vk.alpha_g1() == g1(al, G) && vk.beta_g2() == g2(be, H) && vk.gamma_g2() == g2(ga, H) &&
               vk.delta_g2() == g2(de, H) && pk.beta_g1() == g1(be, G) && pk.delta_g1() == g1(de, G),
               "key_elements_are_the_secrets_times_the_generators", show);
    bool ok = vk.l_g1_query().size() == ni && pk.a_g1_query().size() == m && pk.b_g1_query().size() == m &&
              pk.b_g2_query().size() == m && pk.l_g1_query().size() == m - ni && pk.h_g1_query().size() == q.n - 1;
    ctx.CheckF(ok, "query_sizes", show);
    if (!ok) continue;
    for (size_t i = 0; i < ni; ++i) ok = ok && vk.l_g1_query()[i] == g1(abc(i) * gi, G);
    for (size_t i = 0; i < m; ++i)
      ok = ok && pk.a_g1_query()[i] == g1(q.a[i], G) && pk.b_g1_query()[i] == g1(q.b[i], G) && pk.b_g2_query()[i] == g2(q.b[i], H);
    for (size_t i = ni; i < m; ++i) ok = ok && pk.l_g1_query()[i - ni] == g1(abc(i) * di, G);
    for (size_t i = 0; i < q.n - 1; ++i) ok = ok && pk.h_g1_query()[i] == g1(x.Pow(i) * q.t * di, G);
    ctx.CheckF(ok, "queries_are_the_qap_at_the_secret_point", show);
    // a verifying key loaded on its own
    if (it % 4 == 0) {
      g16::ToxicWaste<Curve> tw2(al, be, ga, de, F::Zero(), G, H);
      g16::VerifyingKey<Curve> vk2;
      bool l2 = vk2.template Load<kMaxDegree, Q>(tw2, circuit);
      bool ok2 = l2 && vk2.l_g1_query().size() == ni && vk2.alpha_g1() == vk.alpha_g1() && vk2.delta_g2() == vk.delta_g2();
      if (ok2) {
        auto q2 = Define(s, tw2.x());
        for (size_t i = 0; i < ni; ++i)
          ok2 = ok2 && vk2.l_g1_query()[i] == g1((be * q2.a[i] + al * q2.b[i] + q2.c[i]) * gi, G);
      }
      ctx.CheckF(ok2, "verifying_key_alone", show);
    }
    g16::PreparedVerifyingKey<Curve> pvk = vk.ToPreparedVerifyingKey();
    auto pvk2 = g16::VerifyingKey<Curve>(vk).ToPreparedVerifyingKey();
    ctx.CheckF(pvk2.alpha_g1_beta_g2() == pvk.alpha_g1_beta_g2(), "prepared_key_by_move", show);

    std::vector<F> z = {F::One()};
    z.insert(z.end(), s.inst.begin(), s.inst.end());
    z.insert(z.end(), s.wit.begin(), s.wit.end());
    auto expect = [&](const F& rr, const F& ss) {
      F A = al + Dot(q.a, z) + rr * de, B = be + Dot(q.b, z) + ss * de, pub = F::Zero();
      for (size_t i = 0; i < ni; ++i) pub += z[i] * abc(i);
      F C = (A * B - al * be - pub) * di;
      return g16::Proof<Curve>(g1(A, G), g2(B, H), g1(C, G));
    };
    // fixed randomness: the proof is determined
    F rr = r.Chance(1, 4) ? F::Zero() : RandF<F>(r), ss = r.Chance(1, 4) ? F::Zero() : RandF<F>(r);
    auto p = g16::CreateProofWithReduction<kMaxDegree, Q>(circuit, pk, rr, ss);
    ctx.CheckF(p == expect(rr, ss), "proof_is_the_one_defined_by_the_randomness", show);
    auto nzk = g16::CreateProofWithReductionNoZK<kMaxDegree, Q>(circuit, pk);
    ctx.CheckF(nzk == expect(F::Zero(), F::Zero()), "proof_without_randomness", show);
    auto zk = g16::CreateProofWithReductionZK<kMaxDegree, Q>(circuit, pk);
    auto zk2 = g16::CreateProofWithReductionZK<kMaxDegree, Q>(circuit, pk);
    ctx.CheckF(!(zk == nzk) && zk.a() != zk2.a() && zk.b() != zk2.b() && zk.c() != zk2.c(), "zk_proofs_are_randomised", show);
    auto verify = [&](const g16::Proof<Curve>& pr, const std::vector<F>& in) { return VerifyProof(pvk, pr, in); };
    ctx.CheckF(verify(p, s.inst) && verify(nzk, s.inst) && verify(zk, s.inst), "honest_proofs_verify", show);
    if (s.inst.empty()) ctx.Count("circuits_without_public_inputs");
    if (s.wit.empty()) ctx.Count("circuits_without_witness");
    auto rer = g16::ReRandomizeProof(pvk.verifying_key(), zk);
    ctx.CheckF(verify(rer, s.inst) && rer.a() != zk.a() && rer.b() != zk.b() && rer.c() != zk.c(),
               "rerandomised_proof_verifies_and_differs", show);
    // altered statements
    if (!s.inst.empty()) {
      auto in = s.inst;
      in[r.Below(in.size())] += RandNZ<F>(r);
      ctx.CheckF(!verify(zk, in), "altered_public_input_is_rejected", show);
      in = s.inst;
      in.pop_back();
      ctx.CheckF(!verify(zk, in), "missing_public_input_is_rejected", show);
      if (s.inst.size() > 1 && s.inst[0] != s.inst[1]) {
        in = s.inst;
        std::swap(in[0], in[1]);
        ctx.CheckF(!verify(zk, in), "swapped_public_inputs_are_rejected", show);
      }
    }
    { auto in = s.inst; in.push_back(RandF<F>(r));
      ctx.CheckF(!verify(zk, in), "extra_public_input_is_rejected", show); }
    // altered proofs
    auto d1 = g1(RandNZ<F>(r), G1::Generator());
    auto d2 = g2(RandNZ<F>(r), G2::Generator());
    auto a1 = [](const auto& u, const auto& v) { return (u + v).ToAffine(); };
    using P = g16::Proof<Curve>;
    std::vector<std::pair<std::string, P>> bad = {
        {"a", P(a1(zk.a(), d1), zk.b(), zk.c())}, {"b", P(zk.a(), a1(zk.b(), d2), zk.c())},
        {"c", P(zk.a(), zk.b(), a1(zk.c(), d1))}, {"swap", P(zk.c(), zk.b(), zk.a())},
        {"-a", P(-zk.a(), zk.b(), zk.c())}, {"-b", P(zk.a(), -zk.b(), zk.c())}, {"-c", P(zk.a(), zk.b(), -zk.c())},
        {"0a", P(G1::Zero(), zk.b(), zk.c())}, {"0b", P(zk.a(), G2::Zero(), zk.c())}, {"0c", P(zk.a(), zk.b(), G1::Zero())},
        {"00", P(G1::Zero(), G2::Zero(), G1::Zero())}};
    // which of these happen to satisfy the equation is known from the exponents
    for (auto& [name, pr] : bad) {
      if (pr == zk) continue;
      if ((name == "-c" || name == "0c") && zk.c().IsZero()) continue;
      ctx.CheckF(!verify(pr, s.inst), "altered_proof_is_rejected", [&, n = name] { return n + " " + label; });
    }
    // a key for other secrets
    { g16::ToxicWaste<Curve> tw3(al, be, ga + F::One(), de, F::Zero(), G, H);
      if (!(ga + F::One()).IsZero()) {
        g16::ProvingKey<Curve> pk3;
        if (pk3.template Load<kMaxDegree, Q>(tw3, circuit)) {
          auto pvk3 = pk3.verifying_key().ToPreparedVerifyingKey();
          ctx.CheckF(!VerifyProof(pvk3, zk, s.inst), "proof_under_another_key_is_rejected", show);
        }
      } }
    // a witness that doesn't satisfy the constraints
    if (!s.wit.empty()) {
      Script<F> s2 = s;
      size_t k = r.Below(s2.wit.size());
      F d = RandNZ<F>(r);
      s2.wit[k] += d;
      size_t c = 0;
      for (auto& o : s2.ops) if (o.what == 1 && c++ == k) o.value += d;
      if (!s2.Satisfied()) {
        ScriptCircuit<F> circuit2(s2);
        auto pb = g16::CreateProofWithReductionZK<kMaxDegree, Q>(circuit2, pk);
        ctx.CheckF(!verify(pb, s.inst), "proof_from_unsatisfying_witness_is_rejected", show);
      } else {
        ScriptCircuit<F> circuit2(s2);
        auto pb = g16::CreateProofWithReductionZK<kMaxDegree, Q>(circuit2, pk);
        ctx.CheckF(verify(pb, s.inst), "honest_proofs_verify", [&] { return s2.Show(); });
      }
    }
    ctx.Count("groth16_circuits");
  }
}

void vh_main(vh::Ctx& ctx) {
  using BN = math::bn254::BN254Curve;
  using BL = math::bls12_381::BLS12_381Curve;
  BN::Init();
  BL::Init();
  FLAGS_minloglevel = 3;
  using F1 = math::bn254::Fr;
  using F2 = math::bls12_381::Fr;
  if (ctx.Section("lc")) { LinComb<F1>(ctx); LinComb<F2>(ctx); }
  if (ctx.Section("systems")) { Systems<F1>(ctx); Systems<F2>(ctx); }
  if (ctx.Section("qap/bn254")) Qap<F1>(ctx);
  if (ctx.Section("qap/bls12_381")) Qap<F2>(ctx);
  if (ctx.Section("groth16/bn254")) Groth<BN>(ctx, ctx.N(12));
  if (ctx.Section("groth16/bls12_381")) Groth<BL>(ctx, ctx.N(8));
  ctx.Require("satisfied_iff_every_constraint_holds", 50);
  ctx.Require("outlined_constraints", 4);
  ctx.Require("systems_unsatisfied", 5);
  ctx.Require("honest_proofs_verify", 4);
  ctx.Require("altered_proof_is_rejected", 15);
}
