// P21: gate/lookup expressions, their evaluators, the constraint system's
// derived numbers and the selector replacement, against a mirror of each
// expression kept by the harness and evaluated by definition.
#include <algorithm>
#include <memory>
#include <set>

#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"
#include "tachyon/zk/base/value.h"
#include "tachyon/zk/plonk/constraint_system/constraint_system.h"
#include "tachyon/zk/plonk/expressions/compress_expression.h"
#include "tachyon/zk/plonk/expressions/expression_factory.h"
#include "tachyon/zk/plonk/expressions/proving_evaluator.h"
#include "tachyon/zk/plonk/expressions/verifying_evaluator.h"
#include "tachyon/zk/plonk/vanishing/graph_evaluator.h"
#include "vh.h"

namespace zk = tachyon::zk;
namespace pl = tachyon::zk::plonk;
namespace math = tachyon::math;
using F = math::BabyBear;
using Expr = zk::Expression<F>;
using ExprP = std::unique_ptr<Expr>;
using EF = pl::ExpressionFactory<F>;
constexpr size_t kMaxDegree = 255;
using Domain = math::Radix2EvaluationDomain<F, kMaxDegree>;
using Evals = math::UnivariateEvaluations<F, kMaxDegree>;

F Rf(vh::Rng& r) {
  static const uint32_t kSp[] = {0, 1, 2, 2013265920u, 3, 7};
  if (r.Chance(1, 4)) return F(kSp[r.Below(6)]);
  return F(static_cast<uint32_t>(r.Below(2013265921u)));
}

enum Kind { kConst, kFix, kAdv, kInst, kChal, kSel, kNeg, kSum, kProd, kScaled };
struct Node {
  Kind k = kConst;
  F c;
  int col = 0, rot = 0;
  bool simple = false;
  std::vector<Node> s;
};
bool Same(const Node& a, const Node& b) {
  if (a.k != b.k || a.s.size() != b.s.size()) return false;
  if ((a.k == kConst || a.k == kScaled) && a.c != b.c) return false;
  if (a.k >= kFix && a.k <= kSel && a.col != b.col) return false;
  if (a.k >= kFix && a.k <= kInst && a.rot != b.rot) return false;
  if (a.k == kSel && a.simple != b.simple) return false;
  for (size_t i = 0; i < a.s.size(); ++i)
    if (!Same(a.s[i], b.s[i])) return false;
  return true;
}
std::string Str(const Node& n) {
  static const char* nm[] = {"", "f", "a", "i", "ch", "s"};
  std::string sub = std::to_string(n.col) + "@" + std::to_string(n.rot);
  switch (n.k) {
    case kConst: return n.c.ToString();
    case kFix: case kAdv: case kInst: return nm[n.k] + sub;
    case kChal: return "ch" + std::to_string(n.col);
    case kSel: return (n.simple ? "ss" : "cs") + std::to_string(n.col);
    case kNeg: return "-(" + Str(n.s[0]) + ")";
    case kSum: return "(" + Str(n.s[0]) + "+" + Str(n.s[1]) + ")";
    case kProd: return "(" + Str(n.s[0]) + "*" + Str(n.s[1]) + ")";
    case kScaled: return "scale(" + Str(n.s[0]) + "," + n.c.ToString() + ")";
  }
  return "?";
}
Node Mk(Kind k, Node a, Node b) {
  Node n;
  n.k = k;
  n.s = {std::move(a), std::move(b)};
  return n;
}
Node Leaf(Kind k, int col, int rot = 0) {
  Node n;
  n.k = k;
  n.col = col;
  n.rot = rot;
  return n;
}
Node Con(const F& c) {
  Node n;
  n.c = c;
  return n;
}

struct Shape {
  int fix = 2, adv = 3, inst = 1, chal = 2, rot = 3;
  std::vector<int> complex;  // complex selector indices allowed
};
Node Gen(vh::Rng& r, const Shape& sh, int depth, const Node* reuse = nullptr) {
  Node n;
  if (reuse && r.Chance(1, 8)) return *reuse;
  if (depth == 0 || r.Chance(1, 6)) {
    for (;;) {
      n.k = static_cast<Kind>(r.Below(6));
      int cnt = n.k == kFix ? sh.fix : n.k == kAdv ? sh.adv : n.k == kInst ? sh.inst
                : n.k == kChal ? sh.chal : n.k == kSel ? (int)sh.complex.size() : 1;
      if (cnt == 0) continue;
      n.col = r.Below(cnt);
      if (n.k == kSel) n.col = sh.complex[n.col];
      if (n.k >= kFix && n.k <= kInst)
        n.rot = r.Chance(1, 2) ? 0 : r.Range(-sh.rot, sh.rot);
      n.c = Rf(r);
      return n;
    }
  }
  n.k = static_cast<Kind>(kNeg + r.Below(4));
  n.s.push_back(Gen(r, sh, depth - 1, reuse));
  if (n.k == kSum || n.k == kProd) {
    if (r.Chance(1, 6)) n.s.push_back(n.s[0]);
    else n.s.push_back(Gen(r, sh, depth - 1, r.Chance(1, 2) ? &n.s[0] : reuse));
    if (r.Chance(1, 4)) std::swap(n.s[0], n.s[1]);
  }
  n.c = Rf(r);
  return n;
}
size_t Deg(const Node& n) {
  switch (n.k) {
    case kConst: case kChal: return 0;
    case kFix: case kAdv: case kInst: case kSel: return 1;
    case kNeg: case kScaled: return Deg(n.s[0]);
    case kSum: return std::max(Deg(n.s[0]), Deg(n.s[1]));
    case kProd: return Deg(n.s[0]) + Deg(n.s[1]);
  }
  return 0;
}
size_t Size(const Node& n) {
  size_t t = 1;
  for (auto& s : n.s) t += Size(s);
  return t;
}
bool HasSimple(const Node& n) {
  if (n.k == kSel && n.simple) return true;
  for (auto& s : n.s)
    if (HasSimple(s)) return true;
  return false;
}
int SimpleOf(const Node& n) {
  if (n.k == kSel && n.simple) return n.col;
  for (auto& s : n.s)
    if (int i = SimpleOf(s); i >= 0) return i;
  return -1;
}

struct Table {
  int n = 0;
  std::vector<std::vector<F>> fix, adv, inst;
  std::vector<F> chal;
  std::vector<std::vector<bool>> sel;
  F At(const std::vector<F>& c, int row, int rot, int scale) const {
    int64_t i = (int64_t{row} + int64_t{rot} * scale) % n;
    if (i < 0) i += n;
    return c[i];
  }
};
F Eval(const Node& n, const Table& t, int row, int scale = 1) {
  switch (n.k) {
    case kConst: return n.c;
    case kFix: return t.At(t.fix[n.col], row, n.rot, scale);
    case kAdv: return t.At(t.adv[n.col], row, n.rot, scale);
    case kInst: return t.At(t.inst[n.col], row, n.rot, scale);
    case kChal: return t.chal[n.col];
    case kSel: return t.sel[n.col][row] ? F::One() : F::Zero();
    case kNeg: return F::Zero() - Eval(n.s[0], t, row, scale);
    case kSum: return Eval(n.s[0], t, row, scale) + Eval(n.s[1], t, row, scale);
    case kProd: return Eval(n.s[0], t, row, scale) * Eval(n.s[1], t, row, scale);
    case kScaled: return Eval(n.s[0], t, row, scale) * n.c;
  }
  return F();
}
Table MakeTable(vh::Rng& r, const Shape& sh, int n) {
  Table t;
  t.n = n;
  auto fill = [&](std::vector<std::vector<F>>& v, int k) {
    for (int i = 0; i < k; ++i) {
      std::vector<F> c(n);
      for (F& x : c) x = Rf(r);
      v.push_back(c);
    }
  };
  fill(t.fix, sh.fix);
  fill(t.adv, sh.adv);
  fill(t.inst, sh.inst);
  for (int i = 0; i < sh.chal; ++i) t.chal.push_back(Rf(r));
  return t;
}
struct EvalTable {
  std::vector<Evals> f, a, i;
  std::vector<F> ch;
  explicit EvalTable(const Table& t) : ch(t.chal) {
    for (auto& c : t.fix) f.emplace_back(std::vector<F>(c));
    for (auto& c : t.adv) a.emplace_back(std::vector<F>(c));
    for (auto& c : t.inst) i.emplace_back(std::vector<F>(c));
  }
  pl::MultiPhaseRefTable<Evals> Ref() const {
    return pl::MultiPhaseRefTable<Evals>(absl::MakeConstSpan(f), absl::MakeConstSpan(a),
                                         absl::MakeConstSpan(i), absl::MakeConstSpan(ch));
  }
};

const std::vector<int>* g_phase = nullptr;
pl::AdviceColumnKey AdvKey(int c) {
  return pl::AdviceColumnKey(c, g_phase ? pl::Phase((*g_phase)[c]) : pl::kFirstPhase);
}
// Builds the library expression. |qidx| gives the query index of a cell.
template <typename Q>
ExprP Build(const Node& n, Q&& q) {
  switch (n.k) {
    case kConst: return EF::Constant(n.c);
    case kFix: return EF::Fixed(pl::FixedQuery(q(n), zk::Rotation(n.rot), pl::FixedColumnKey(n.col)));
    case kAdv: return EF::Advice(pl::AdviceQuery(q(n), zk::Rotation(n.rot), AdvKey(n.col)));
    case kInst: return EF::Instance(pl::InstanceQuery(q(n), zk::Rotation(n.rot), pl::InstanceColumnKey(n.col)));
    case kChal: return EF::Challenge(pl::Challenge(n.col, pl::kFirstPhase));
    case kSel: return EF::Selector(n.simple ? pl::Selector::Simple(n.col) : pl::Selector::Complex(n.col));
    case kNeg: return EF::Negated(Build(n.s[0], q));
    case kSum: return EF::Sum(Build(n.s[0], q), Build(n.s[1], q));
    case kProd: return EF::Product(Build(n.s[0], q), Build(n.s[1], q));
    case kScaled: return EF::Scaled(Build(n.s[0], q), n.c);
  }
  return nullptr;
}
// Same, through the operators.
template <typename Q>
ExprP BuildOps(const Node& n, Q&& q) {
  switch (n.k) {
    case kNeg: return -BuildOps(n.s[0], q);
    case kSum: {
      if (n.s[1].k == kNeg) return BuildOps(n.s[0], q) - BuildOps(n.s[1].s[0], q);
      ExprP a = BuildOps(n.s[0], q), b = BuildOps(n.s[1], q);
      return a + b;
    }
    case kProd: return BuildOps(n.s[0], q) * BuildOps(n.s[1], q);
    case kScaled: return BuildOps(n.s[0], q) * n.c;
    default: return Build(n, q);
  }
}
// Checks that a library expression has the mirror's structure.
ExprP operator-(const ExprP& e) { return e->operator-(); }

std::optional<size_t> StaticIdx(const Node& n) {
  return static_cast<size_t>(n.col * 16 + n.rot + 8);
}

void Evaluators(vh::Ctx& ctx) {
  for (int rep = 0; rep < (int)ctx.N(600); ++rep) {
    vh::Rng& r = ctx.rng;
    Shape sh;
    sh.rot = r.Chance(1, 3) ? 9 : 2;
    int lg = r.Below(5), n = 1 << lg;
    int sk = r.Below(3), ext = n << sk;
    Table t = MakeTable(r, sh, n), te = MakeTable(r, sh, ext);
    int ne = 1 + r.Below(5);
    std::vector<Node> nodes;
    std::vector<ExprP> exprs;
    for (int i = 0; i < ne; ++i) {
      const Node* reuse = i && r.Bool() ? &nodes[r.Below(i)] : nullptr;
      nodes.push_back(Gen(r, sh, 1 + r.Below(5), reuse));
      exprs.push_back(r.Bool() ? Build(nodes[i], StaticIdx) : BuildOps(nodes[i], StaticIdx));
    }
    std::string label = "n=" + std::to_string(n) + " ext=" + std::to_string(ext);
    for (auto& nd : nodes) label += " " + Str(nd);
    label = label.substr(0, 1500);
    ctx.Case(label);
    ctx.Distinct(vh::HashStr(label));
    auto show = [&]() { return label; };
    EvalTable et(t), ete(te);
    pl::MultiPhaseRefTable<Evals> ref = et.Ref(), refe = ete.Ref();

    // proving side: every row, the domain and the extended one
    pl::ProvingEvaluator<Evals> pe(0, n, 1, ref), pee(0, ext, 1 << sk, refe);
    for (int row = 0; row < n; ++row) {
      pe.set_idx(row);
      for (int i = 0; i < ne; ++i)
        ctx.Eq(exprs[i]->Evaluate(&pe), Eval(nodes[i], t, row), "proving_evaluator", show);
    }
    for (int row = 0; row < ext; row += 1 + r.Below(3)) {
      pee.set_idx(row);
      for (int i = 0; i < ne; ++i)
        ctx.Eq(pee.Evaluate(exprs[i].get()), Eval(nodes[i], te, row, 1 << sk),
               "proving_evaluator_extended", show);
    }
    // compression
    {
      std::unique_ptr<Domain> d = Domain::Create(n);
      F theta = Rf(r);
      Evals got = pl::CompressExpressions(d.get(), exprs, theta, pe);
      bool ok = got.evaluations().size() == size_t(n);
      for (int row = 0; row < n && ok; ++row) {
        F w = F::Zero();
        for (int i = 0; i < ne; ++i) w = w * theta + Eval(nodes[i], t, row);
        ok = got[row] == w;
      }
      ctx.CheckF(ok, "compressed_expressions", show);
    }
    // the evaluation graph: all expressions folded with y, as for gates
    {
      pl::GraphEvaluator<F> g;
      std::vector<pl::ValueSource> parts;
      for (auto& e : exprs) parts.push_back(g.AddExpression(e.get()));
      int how = r.Below(3);
      F th = Rf(r), be = Rf(r), ga = Rf(r), y = Rf(r);
      if (how == 0) {
        g.AddCalculation(pl::Calculation::Horner(pl::ValueSource::PreviousValue(), parts,
                                                 pl::ValueSource::Y()));
      } else if (how == 1) {
        pl::ValueSource h = g.AddCalculation(pl::Calculation::Horner(
            pl::ValueSource::ZeroConstant(), parts, pl::ValueSource::Theta()));
        pl::ValueSource b = g.AddCalculation(pl::Calculation::Add(h, pl::ValueSource::Beta()));
        pl::ValueSource c = g.AddCalculation(
            pl::Calculation::Add(parts[r.Below(ne)], pl::ValueSource::Gamma()));
        (void)c;
        g.AddCalculation(pl::Calculation::Mul(b, pl::ValueSource::PreviousValue()));
      } else {
        g.AddCalculation(pl::Calculation::Horner(parts[0], parts, pl::ValueSource::Gamma()));
      }
      pl::EvaluationInput<Evals> in(g.CreateInitialIntermediates(), g.CreateEmptyRotations(), refe,
                                    th, be, ga, y, ext);
      for (int row = 0; row < ext; row += 1 + r.Below(3)) {
        F prev = Rf(r), w;
        std::vector<F> v;
        for (int i = 0; i < ne; ++i) v.push_back(Eval(nodes[i], te, row, 1 << sk));
        if (how == 0) {
          w = prev;
          for (F& x : v) w = w * y + x;
        } else if (how == 1) {
          w = F::Zero();
          for (F& x : v) w = w * th + x;
          w = (w + be) * prev;
        } else {
          w = v[0];
          for (F& x : v) w = w * ga + x;
        }
        ctx.Eq(g.Evaluate(in, row, 1 << sk, prev), w, "evaluation_graph", show);
      }
      ctx.Count("graph_calculations", g.calculations().size());
    }
    // verifying side: each queried cell is an entry of the evaluation vector
    {
      int row = r.Below(n);
      std::vector<F> fv(200), av(200), iv(200);
      for (int c = 0; c < 8; ++c)
        for (int rot = -8; rot <= 7; ++rot) {
          size_t i = c * 16 + rot + 8;
          if (c < sh.fix) fv[i] = t.At(t.fix[c], row, rot, 1);
          if (c < sh.adv) av[i] = t.At(t.adv[c], row, rot, 1);
          if (c < sh.inst) iv[i] = t.At(t.inst[c], row, rot, 1);
        }
      if (sh.rot == 2) {
        pl::MultiPhaseEvaluations<F> data(absl::MakeConstSpan(fv), absl::MakeConstSpan(av),
                                          absl::MakeConstSpan(iv), absl::MakeConstSpan(t.chal));
        pl::VerifyingEvaluator<F> ve(data);
        for (int i = 0; i < ne; ++i)
          ctx.Eq(ve.Evaluate(exprs[i].get()), Eval(nodes[i], t, row), "verifying_evaluator", show);
      }
    }
    for (int i = 0; i < ne; ++i) {
      ctx.Eq(exprs[i]->Degree(), Deg(nodes[i]), "degree", show);
      ExprP c = exprs[i]->Clone();
      ctx.CheckF(*c == *exprs[i] && !(*c != *exprs[i]), "clone_equals", show);
      ctx.CheckF(c->Complexity() == exprs[i]->Complexity() && c->Degree() == exprs[i]->Degree() &&
                     c->ToString() == exprs[i]->ToString(),
                 "clone_measures", show);
      ExprP b = Build(nodes[i], StaticIdx);
      ctx.CheckF(*b == *exprs[i], "operators_build_the_expression", show);
      for (int j = 0; j < i; ++j)
        ctx.CheckF((*exprs[i] == *exprs[j]) == Same(nodes[i], nodes[j]), "expression_equality", show);
      uint64_t cx = exprs[i]->Complexity(), sub = 0;
      if (!nodes[i].s.empty()) {
        for (auto& s : nodes[i].s) sub += Build(s, StaticIdx)->Complexity();
        ctx.CheckF(cx > sub, "complexity_grows", show);
      }
    }
    ctx.Sample(label.substr(0, 200));
  }
}

// small trees: equality and identifiers separate different functions
void Identity(vh::Ctx& ctx) {
  for (int rep = 0; rep < (int)ctx.N(300); ++rep) {
    vh::Rng& r = ctx.rng;
    Shape sh;
    sh.fix = 1 + r.Below(2);
    sh.adv = r.Below(2);
    sh.inst = r.Below(2);
    sh.chal = r.Below(2);
    sh.rot = 1;
    sh.complex = {0, 1};
    Table t = MakeTable(r, sh, 8);
    for (int s = 0; s < 2; ++s) {
      std::vector<bool> v;
      for (int i = 0; i < 8; ++i) v.push_back(r.Bool());
      t.sel.push_back(v);
    }
    std::vector<Node> ns;
    std::vector<ExprP> es;
    std::vector<std::string> ids;
    for (int i = 0; i < 24; ++i) {
      ns.push_back(Gen(r, sh, r.Below(3)));
      es.push_back(Build(ns[i], StaticIdx));
      ids.push_back(pl::GetIdentifier(es[i].get()));
    }
    for (int i = 0; i < 24; ++i) {
      ctx.Distinct(vh::HashStr(Str(ns[i])));
      for (int j = 0; j < i; ++j) {
        auto show = [&]() { return Str(ns[i]) + " vs " + Str(ns[j]) + " id " + ids[i]; };
        bool same = Same(ns[i], ns[j]);
        ctx.CheckF((*es[i] == *es[j]) == same, "expression_equality", show);
        if (same) ctx.CheckF(ids[i] == ids[j], "identifier_deterministic", show);
        if (ids[i] == ids[j]) {
          bool eq = true;
          for (int row = 0; row < 8; ++row) eq = eq && Eval(ns[i], t, row) == Eval(ns[j], t, row);
          ctx.CheckF(eq, "identifier_names_one_function", show);
        }
      }
    }
  }
}

// evaluates a built (selector-free) expression on the rows of a table
std::vector<F> Rows(const Expr* e, const EvalTable& et, int n) {
  pl::ProvingEvaluator<Evals> pe(0, n, 1, et.Ref());
  std::vector<F> v;
  for (int i = 0; i < n; ++i) {
    pe.set_idx(i);
    v.push_back(e->Evaluate(&pe));
  }
  return v;
}

struct LookupRec {
  std::string name;
  std::vector<Node> in, tab;
};

void System(vh::Ctx& ctx) {
  for (int rep = 0; rep < (int)ctx.N(700); ++rep) {
    vh::Rng& r = ctx.rng;
    pl::ConstraintSystem<F> cs;
    bool logd = r.Bool();
    cs.set_lookup_type(logd ? zk::lookup::Type::kLogDerivativeHalo2 : zk::lookup::Type::kHalo2);
    Shape sh;
    sh.fix = 1 + r.Below(3);
    sh.adv = 1 + r.Below(4);
    sh.inst = r.Below(3);
    sh.chal = r.Below(3);
    sh.rot = 1 + r.Below(4);
    std::vector<std::pair<int, bool>> sels;  // index, simple
    std::set<std::tuple<char, int, int>> queried;
    size_t gate_degree = 0, max_degree_set = 0;
    std::string label = logd ? "logd" : "halo2";
    bool phases_ok = true;
    // columns, phases, challenges
    std::vector<int> phase;
    for (int i = 0; i < sh.fix; ++i)
      phases_ok = phases_ok && cs.CreateFixedColumn().index() == size_t(i);
    int top = 0;
    for (int i = 0; i < sh.adv; ++i) {
      int p = i == 0 ? 0 : r.Below(std::min(top + 2, 3));
      top = std::max(top, p);
      phase.push_back(p);
      pl::AdviceColumnKey k = i == 0 && r.Bool() ? cs.CreateAdviceColumn()
                                                 : cs.CreateAdviceColumn(pl::Phase(p));
      phases_ok = phases_ok && k.index() == size_t(i) && k.phase() == pl::Phase(p);
    }
    for (int i = 0; i < sh.inst; ++i)
      phases_ok = phases_ok && cs.CreateInstanceColumn().index() == size_t(i);
    g_phase = &phase;
    std::vector<int> cph;
    for (int i = 0; i < sh.chal; ++i) {
      int p = r.Below(top + 1);
      cph.push_back(p);
      pl::Challenge c = cs.CreateChallengeUsableAfter(pl::Phase(p));
      phases_ok = phases_ok && c.index() == size_t(i) && c.phase() == pl::Phase(p);
    }
    int nsel = r.Below(6), nsimple = 0;
    for (int i = 0; i < nsel; ++i) {
      bool simple = r.Chance(2, 3);
      pl::Selector s = simple ? cs.CreateSimpleSelector() : cs.CreateComplexSelector();
      phases_ok = phases_ok && s.index() == size_t(i) && s.is_simple() == simple;
      sels.push_back({i, simple});
      if (!simple) sh.complex.push_back(i);
      nsimple += simple;
    }
    auto show = [&]() { return label.substr(0, 1800); };
    ctx.CheckF(phases_ok, "columns_numbered_in_order", show);
    // how an expression refers to its cells: with an index obtained from the
    // system, or with none (the system must then supply it)
    auto note = [&](const Node& n, auto&& self) -> void {
      if (n.k == kFix || n.k == kAdv || n.k == kInst)
        queried.insert({"-fai"[n.k], n.col, n.rot});
      for (auto& s : n.s) self(s, self);
    };
    auto through_cells = [&](pl::VirtualCells<F>& cells, const Node& n, auto&& self) -> ExprP {
      switch (n.k) {
        case kFix: return cells.QueryFixed(pl::FixedColumnKey(n.col), zk::Rotation(n.rot));
        case kAdv: return cells.QueryAdvice(pl::AdviceColumnKey(n.col, pl::Phase(phase[n.col])), zk::Rotation(n.rot));
        case kInst: return cells.QueryInstance(pl::InstanceColumnKey(n.col), zk::Rotation(n.rot));
        case kSel: return cells.QuerySelector(n.simple ? pl::Selector::Simple(n.col) : pl::Selector::Complex(n.col));
        case kChal: return cells.QueryChallenge(pl::Challenge(n.col, pl::Phase(cph[n.col])));
        case kConst: return EF::Constant(n.c);
        case kNeg: return EF::Negated(self(cells, n.s[0], self));
        case kSum: { ExprP a = self(cells, n.s[0], self); return EF::Sum(std::move(a), self(cells, n.s[1], self)); }
        case kProd: { ExprP a = self(cells, n.s[0], self); return EF::Product(std::move(a), self(cells, n.s[1], self)); }
        case kScaled: return EF::Scaled(self(cells, n.s[0], self), n.c);
      }
      return nullptr;
    };
    auto unindexed = [&](const Node& n) {
      return Build(n, [](const Node&) -> std::optional<size_t> { return std::nullopt; });
    };
    // Reading the derived numbers early must not freeze them.
    auto peek = [&]() {
      if (r.Chance(1, 3)) {
        (void)cs.ComputeDegree();
        (void)cs.ComputeBlindingFactors();
      }
    };
    // gates
    struct G {
      std::vector<Node> polys;
    };
    std::vector<G> gates;
    int ng = r.Below(5);
    for (int g = 0; g < ng; ++g) {
      G gate;
      int np = 1 + r.Below(3);
      for (int p = 0; p < np; ++p) {
        Node body = Gen(r, sh, r.Below(4));
        if (nsimple && r.Chance(3, 4)) {
          int s;
          do s = r.Below(nsel); while (!sels[s].second);
          Node sel = Leaf(kSel, s);
          sel.simple = true;
          body = r.Bool() ? Mk(kProd, sel, body) : Mk(kProd, body, sel);
          if (r.Chance(1, 4)) {
            Node neg;
            neg.k = kNeg;
            neg.s = {body};
            body = neg;
          }
        }
        gate.polys.push_back(body);
        gate_degree = std::max(gate_degree, Deg(body));
        note(body, note);
        label += " G:" + Str(body);
      }
      bool idx = r.Bool();
      cs.CreateGate("g", [&](pl::VirtualCells<F>& cells) {
        std::vector<pl::Constraint<F>> v;
        for (auto& n : gate.polys)
          v.emplace_back("c", idx ? through_cells(cells, n, through_cells) : unindexed(n));
        return v;
      });
      gates.push_back(std::move(gate));
      peek();
    }
    auto mdeg = [](const std::vector<Node>& v, size_t floor) {
      size_t d = floor;
      for (auto& n : v) d = std::max(d, Deg(n));
      return d;
    };
    // lookups
    std::vector<LookupRec> lookups;
    int nl = r.Below(5);
    Shape lsh = sh;
    std::vector<std::vector<Node>> used_tables;
    size_t table_cols_at = sh.fix;
    for (int l = 0; l < nl; ++l) {
      LookupRec rec;
      rec.name = "l" + std::to_string(l);
      int w = 1 + r.Below(3);
      if (!used_tables.empty() && r.Chance(1, 2)) {
        rec.tab = used_tables[r.Below(used_tables.size())];
        w = rec.tab.size();
        if (r.Chance(1, 4)) {  // nearly the same table
          Node& x = rec.tab[r.Below(w)];
          if (x.k == kScaled) x.s[0] = Gen(r, sh, 1);
          else if (x.k == kConst) x.c += F::One();
        } else if (r.Chance(1, 4)) {  // tables that read alike when written out
          rec.tab = {Con(F(1)), Con(F(12)), Leaf(kFix, 0)};
          if (r.Bool()) rec.tab = {Con(F(11)), Con(F(2)), Leaf(kFix, 0)};
          w = 3;
        }
      } else {
        for (int i = 0; i < w; ++i) {
          switch (r.Below(4)) {
            case 0: rec.tab.push_back(Leaf(kFix, r.Below(sh.fix), r.Chance(1, 4) ? 1 : 0)); break;
            case 1: {
              Node n;
              n.k = kScaled;
              n.c = F(2 + r.Below(2));
              n.s = {Leaf(kFix, r.Below(sh.fix))};
              rec.tab.push_back(n);
              break;
            }
            case 2: rec.tab.push_back(Con(F(static_cast<uint32_t>(r.Chance(1, 2) ? 1 + r.Below(2) : 11 + r.Below(2))))); break;
            default: rec.tab.push_back(Gen(r, sh, r.Below(2))); break;
          }
        }
      }
      used_tables.push_back(rec.tab);
      for (int i = 0; i < w; ++i) rec.in.push_back(Gen(r, lsh, r.Below(4)));
      // (a constant input still costs one degree in the argument)
      if (mdeg(rec.in, 0) == 0) rec.in[0] = Leaf(kAdv, r.Below(sh.adv));
      label += " L" + std::to_string(l) + ":";
      for (auto& n : rec.in) label += Str(n) + ",";
      label += "|";
      for (auto& n : rec.tab) label += Str(n) + ",";
      for (auto& n : rec.in) note(n, note);
      bool plain = true;  // a table made of fixed columns at the current row
      for (auto& n : rec.tab) plain = plain && n.k == kFix && n.rot == 0;
      if (plain && r.Bool()) {
        // through LookupTableColumn: the columns must be created as such
        std::vector<pl::LookupTableColumn> cols;
        for (auto& n : rec.tab) {
          cols.push_back(cs.CreateLookupTableColumn());
          n.col = cols.back().column().index();
          queried.insert({'f', n.col, 0});
          ctx.CheckF(n.col == (int)table_cols_at, "columns_numbered_in_order", show);
          table_cols_at++;
        }
        used_tables.back() = rec.tab;
        cs.Lookup(rec.name, [&](pl::VirtualCells<F>& cells) {
          zk::lookup::Pairs<ExprP, pl::LookupTableColumn> p;
          for (int i = 0; i < w; ++i)
            p.emplace_back(l % 2 ? unindexed(rec.in[i]) : through_cells(cells, rec.in[i], through_cells), cols[i]);
          return p;
        });
        sh.fix = table_cols_at;
      } else {
        cs.LookupAny(rec.name, [&](pl::VirtualCells<F>& cells) {
          zk::lookup::Pairs<ExprP> p;
          for (int i = 0; i < w; ++i) {
            ExprP a = through_cells(cells, rec.in[i], through_cells);
            p.emplace_back(std::move(a), through_cells(cells, rec.tab[i], through_cells));
          }
          return p;
        });
      }
      for (auto& n : rec.tab) note(n, note);
      lookups.push_back(rec);
      peek();
    }
    // shuffles
    std::vector<LookupRec> shuffles;
    int nsh = r.Below(3);
    for (int s = 0; s < nsh; ++s) {
      LookupRec rec;
      int w = 1 + r.Below(2);
      for (int i = 0; i < w; ++i) {
        rec.in.push_back(Gen(r, lsh, r.Below(3)));
        rec.tab.push_back(Gen(r, lsh, r.Below(3)));
        note(rec.in[i], note);
        note(rec.tab[i], note);
        label += " S:" + Str(rec.in[i]) + "~" + Str(rec.tab[i]);
      }
      size_t at = cs.Shuffle("s", [&](pl::VirtualCells<F>& cells) {
        zk::shuffle::Pairs<ExprP> p;
        for (int i = 0; i < w; ++i) {
          ExprP a = through_cells(cells, rec.in[i], through_cells);
          p.emplace_back(std::move(a), through_cells(cells, rec.tab[i], through_cells));
        }
        return p;
      });
      ctx.CheckF(at == size_t(s), "shuffle_index", show);
      shuffles.push_back(rec);
      peek();
    }
    // equality and constants
    std::vector<std::pair<char, int>> perm;
    auto enable = [&](char t, int c) {
      if (std::find(perm.begin(), perm.end(), std::make_pair(t, c)) == perm.end()) perm.push_back({t, c});
      queried.insert({t, c, 0});
    };
    for (int e = r.Below(5); e > 0; --e) {
      int which = r.Below(4);
      if (which == 0) {
        int c = r.Below(sh.adv);
        cs.EnableEquality(pl::AdviceColumnKey(c, pl::Phase(phase[c])));
        enable('a', c);
      } else if (which == 1 && sh.inst) {
        int c = r.Below(sh.inst);
        cs.EnableEquality(pl::InstanceColumnKey(c));
        enable('i', c);
      } else if (which == 2) {
        int c = r.Below(sh.fix);
        cs.EnableEquality(pl::FixedColumnKey(c));
        enable('f', c);
      } else {
        int c = r.Below(sh.fix);
        size_t before = cs.constants().size();
        bool had = false;
        for (auto& k : cs.constants()) had = had || k.index() == size_t(c);
        cs.EnableConstant(pl::FixedColumnKey(c));
        enable('f', c);
        ctx.CheckF(cs.constants().size() == before + !had, "constants_once", show);
      }
      peek();
    }
    if (r.Chance(1, 4)) {
      size_t d = 1 + r.Below(10);
      cs.set_minimum_degree(d);
      max_degree_set = std::max(max_degree_set, d);
      if (r.Bool()) {
        d = 1 + r.Below(10);
        cs.set_minimum_degree(d);
        max_degree_set = std::max(max_degree_set, d);
      }
      label += " min=" + std::to_string(max_degree_set);
    }
    ctx.Case(label);
    ctx.Distinct(vh::HashStr(label));
    ctx.Sample(label.substr(0, 300));

    // --- permutation columns
    {
      bool ok = cs.permutation().columns().size() == perm.size();
      for (size_t i = 0; ok && i < perm.size(); ++i) {
        const pl::AnyColumnKey& k = cs.permutation().columns()[i];
        char t = k.type() == pl::ColumnType::kFixed ? 'f' : k.type() == pl::ColumnType::kAdvice ? 'a' : 'i';
        ok = t == perm[i].first && k.index() == size_t(perm[i].second);
      }
      ctx.CheckF(ok, "equality_columns_in_order_once", show);
    }
    // --- queries: exactly the referenced cells, once each
    {
      std::set<std::tuple<char, int, int>> got;
      std::vector<size_t> per(sh.adv, 0);
      bool ok = true;
      size_t total = 0;
      for (size_t i = 0; i < cs.fixed_queries().size(); ++i, ++total) {
        auto& q = cs.fixed_queries()[i];
        got.insert({'f', (int)q.column().index(), q.rotation().value()});
        ok = ok && cs.GetFixedQueryIndex(q.column(), q.rotation()) == i;
      }
      for (size_t i = 0; i < cs.advice_queries().size(); ++i, ++total) {
        auto& q = cs.advice_queries()[i];
        got.insert({'a', (int)q.column().index(), q.rotation().value()});
        ++per[q.column().index()];
        ok = ok && cs.GetAdviceQueryIndex(q.column(), q.rotation()) == i;
      }
      for (size_t i = 0; i < cs.instance_queries().size(); ++i, ++total) {
        auto& q = cs.instance_queries()[i];
        got.insert({'i', (int)q.column().index(), q.rotation().value()});
        ok = ok && cs.GetInstanceQueryIndex(q.column(), q.rotation()) == i;
      }
      ctx.CheckF(ok && total == got.size(), "queries_distinct_and_findable", show);
      ctx.CheckF(got == queried, "queries_are_the_referenced_cells", show);
      bool cnt = cs.num_advice_queries().size() == per.size();
      for (size_t i = 0; cnt && i < per.size(); ++i) cnt = cs.num_advice_queries()[i] == per[i];
      ctx.CheckF(cnt, "advice_query_counts", show);
      size_t mx = 3;
      for (size_t c : per) mx = std::max(mx, c);
      ctx.CheckF(cs.ComputeBlindingFactors() == mx + 2, "blinding_factors", show);
      ctx.CheckF(cs.ComputeMinimumRows() == mx + 5, "minimum_rows", show);
      ctx.CheckF(cs.ComputeLastRow() == -static_cast<int>(mx + 3), "last_row", show);
    }
    // --- every query in a gate expression points at its own cell
    auto check_idx = [&](const Expr* e, auto&& self) -> bool {
      switch (e->type()) {
        case zk::ExpressionType::kFixed: {
          auto& q = e->ToFixed()->query();
          return q.HasIndex() && cs.fixed_queries()[q.GetIndex()] == pl::FixedQueryData(q.rotation(), q.column());
        }
        case zk::ExpressionType::kAdvice: {
          auto& q = e->ToAdvice()->query();
          return q.HasIndex() && cs.advice_queries()[q.GetIndex()].rotation() == q.rotation() &&
                 cs.advice_queries()[q.GetIndex()].column().index() == q.column().index();
        }
        case zk::ExpressionType::kInstance: {
          auto& q = e->ToInstance()->query();
          return q.HasIndex() && cs.instance_queries()[q.GetIndex()] == pl::InstanceQueryData(q.rotation(), q.column());
        }
        case zk::ExpressionType::kNegated: return self(e->ToNegated()->expr(), self);
        case zk::ExpressionType::kScaled: return self(e->ToScaled()->expr(), self);
        case zk::ExpressionType::kSum: return self(e->ToSum()->left(), self) && self(e->ToSum()->right(), self);
        case zk::ExpressionType::kProduct: return self(e->ToProduct()->left(), self) && self(e->ToProduct()->right(), self);
        default: return true;
      }
    };
    auto check_all_idx = [&](const char* m) {
      bool ok = true;
      for (auto& g : cs.gates())
        for (auto& e : g.polys()) ok = ok && check_idx(e.get(), check_idx);
      for (auto& l : cs.lookups()) {
        for (auto& v : l.inputs_expressions())
          for (auto& e : v) ok = ok && check_idx(e.get(), check_idx);
        for (auto& e : l.table_expressions()) ok = ok && check_idx(e.get(), check_idx);
      }
      for (auto& l : cs.shuffles()) {
        for (auto& e : l.input_expressions()) ok = ok && check_idx(e.get(), check_idx);
        for (auto& e : l.shuffle_expressions()) ok = ok && check_idx(e.get(), check_idx);
      }
      ctx.CheckF(ok, m, show);
    };
    check_all_idx("expression_query_indices");
    // --- phases
    {
      ctx.CheckF(cs.ComputeMaxPhase() == pl::Phase(top) && cs.GetPhases().size() == size_t(top + 1), "phases", show);
    }
    // --- simple selector queries
    for (size_t g = 0; g < gates.size(); ++g)
      for (size_t p = 0; p < gates[g].polys.size(); ++p) {
        const Node& n = gates[g].polys[p];
        const Expr* e = cs.gates()[g].polys()[p].get();
        ctx.CheckF(pl::ContainsSimpleSelector(e) == HasSimple(n), "contains_simple_selector", show);
        std::optional<pl::Selector> s = pl::ExtractSimpleSelector(e);
        ctx.CheckF(s.has_value() == (SimpleOf(n) >= 0) && (!s || (s->is_simple() && s->index() == size_t(SimpleOf(n)))),
                   "extract_simple_selector", show);
      }

    // --- lookups are chunked by table
    auto shuffle_degree = [&]() {
      size_t d = 0;
      for (auto& s : shuffles) d = std::max(d, 2 + std::max(mdeg(s.in, 1), mdeg(s.tab, 1)));
      return d;
    };
    size_t want_degree = std::max<size_t>({3, gate_degree, shuffle_degree(), max_degree_set});
    if (logd) {
      size_t req = gate_degree;
      for (auto& l : lookups)
        req = std::max(req, std::max<size_t>(3, mdeg(l.tab, 0) + 2) + mdeg(l.in, 0));
      cs.ChunkLookups();
      if (!lookups.empty()) {
        size_t p2 = 1;
        while (p2 < req) p2 *= 2;
        max_degree_set = std::max(max_degree_set, p2 + 1);
        want_degree = std::max(want_degree, max_degree_set);
        ctx.CheckF(cs.minimum_degree() && *cs.minimum_degree() == max_degree_set, "chunking_sets_minimum_degree", show);
      }
    } else {
      for (auto& l : lookups)
        want_degree = std::max(want_degree, std::max<size_t>(4, 2 + mdeg(l.in, 1) + mdeg(l.tab, 1)));
    }
    size_t nargs = cs.lookups().size();
    if (!logd) ctx.CheckF(nargs == lookups.size(), "one_lookup_argument_each", show);

    ctx.Eq(cs.ComputeDegree(), want_degree, "circuit_degree", show);
    for (uint32_t k = 1; k < 12; k += 1 + r.Below(4)) {
      uint32_t e = k;
      while ((size_t{1} << e) < (size_t{1} << k) * (want_degree - 1)) ++e;
      ctx.Eq(cs.ComputeExtendedK(k), e, "extended_k", show);
    }
    ctx.CheckF(cs.ComputePermutationChunkLen() == want_degree - 2, "permutation_chunk", show);
    ctx.CheckF(cs.ComputePermutationProductNums() == (perm.size() + want_degree - 3) / (want_degree - 2),
               "permutation_products", show);

    // --- selectors become columns
    int n = 1 << (2 + r.Below(4));
    Table t = MakeTable(r, sh, n);
    for (int s = 0; s < nsel; ++s) {
      std::vector<bool> v(n);
      int how = r.Below(6);
      for (int i = 0; i < n; ++i)
        v[i] = how == 0 ? false : how == 1 ? true : how == 2 ? i % std::max(nsel, 1) == s : r.Chance(1, 2 + nsel);
      t.sel.push_back(v);
    }
    std::vector<std::vector<F>> combos = cs.CompressSelectors(t.sel);
    size_t fixed_before = sh.fix;
    ctx.CheckF(cs.num_fixed_columns() == fixed_before + combos.size(), "selector_columns_allocated", show);
    ctx.CheckF(cs.selector_map().size() == size_t(nsel), "selector_map_complete", show);
    Table t2 = t;
    bool sized = true;
    for (auto& c : combos) {
      sized = sized && c.size() == size_t(n);
      t2.fix.push_back(c);
    }
    ctx.CheckF(sized, "selector_columns_full_height", show);
    if (!sized) continue;
    EvalTable et(t2);
    check_all_idx("expression_query_indices_after");
    size_t newdeg = 3;
    for (size_t g = 0; g < gates.size(); ++g)
      for (size_t p = 0; p < gates[g].polys.size(); ++p) {
        const Node& nd = gates[g].polys[p];
        const Expr* e = cs.gates()[g].polys()[p].get();
        std::vector<F> got = Rows(e, et, n);
        newdeg = std::max(newdeg, e->Degree());
        bool zero_same = true, exact = true, simple = HasSimple(nd);
        for (int i = 0; i < n; ++i) {
          F w = Eval(nd, t, i);
          zero_same = zero_same && (w.IsZero() == got[i].IsZero());
          exact = exact && w == got[i];
        }
        if (simple) ctx.CheckF(zero_same, "gate_active_on_the_same_rows", show);
        else ctx.CheckF(exact, "gate_unchanged_by_selector_replacement", show);
      }
    // the selectors themselves, through their columns
    for (int s = 0; s < nsel; ++s) {
      size_t col = cs.selector_map()[s].index();
      bool ok = col >= fixed_before && col < t2.fix.size();
      for (int i = 0; ok && i < n; ++i)
        if (t.sel[s][i]) ok = !t2.fix[col][i].IsZero();
      ctx.CheckF(ok, "selector_map_column_set_where_active", show);
    }
    // a set of rows for each lookup input / table
    auto rows_of = [&](const std::vector<Node>& v) {
      std::vector<std::vector<F>> out;
      for (auto& nd : v) {
        std::vector<F> c;
        for (int i = 0; i < n; ++i) c.push_back(Eval(nd, t, i));
        out.push_back(c);
      }
      return out;
    };
    auto rows_of_e = [&](const std::vector<ExprP>& v) {
      std::vector<std::vector<F>> out;
      for (auto& e : v) out.push_back(Rows(e.get(), et, n));
      return out;
    };
    using Cols = std::vector<std::vector<F>>;
    std::vector<std::pair<Cols, Cols>> want, got;
    for (auto& l : lookups) want.push_back({rows_of(l.in), rows_of(l.tab)});
    size_t arg_deg = 0;
    for (auto& a : cs.lookups()) {
      Cols tab = rows_of_e(a.table_expressions());
      for (auto& in : a.inputs_expressions()) got.push_back({rows_of_e(in), tab});
      arg_deg = std::max(arg_deg, a.RequiredDegree());
    }
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    ctx.CheckF(want == got, "each_lookup_input_meets_its_own_table", show);
    ctx.CheckF(arg_deg <= want_degree, "lookup_degree_within_bound", show);
    ctx.CheckF(newdeg <= want_degree, "replacement_keeps_the_degree", show);
    bool sok = cs.shuffles().size() == shuffles.size();
    for (size_t s = 0; sok && s < shuffles.size(); ++s)
      sok = rows_of(shuffles[s].in) == rows_of_e(cs.shuffles()[s].input_expressions()) &&
            rows_of(shuffles[s].tab) == rows_of_e(cs.shuffles()[s].shuffle_expressions());
    ctx.CheckF(sok, "shuffles_unchanged", show);
    if (!logd) {
      bool ord = true;
      for (size_t i = 0; i < lookups.size() && i < cs.lookups().size(); ++i)
        ord = ord && rows_of(lookups[i].in) == rows_of_e(cs.lookups()[i].input_expressions());
      ctx.CheckF(ord, "lookups_in_order", show);
    }
  }
}

// the compressor alone: many selectors, tight degrees
void Selectors(vh::Ctx& ctx) {
  for (int rep = 0; rep < (int)ctx.N(500); ++rep) {
    vh::Rng& r = ctx.rng;
    int n = 1 + r.Below(24), k = r.Below(10);
    size_t maxd = 1 + r.Below(9);
    std::vector<std::vector<bool>> act;
    std::vector<size_t> deg;
    int how = r.Below(4);
    for (int s = 0; s < k; ++s) {
      std::vector<bool> v(n);
      for (int i = 0; i < n; ++i)
        v[i] = how == 0 ? (i % k) == s : how == 1 ? r.Bool() : how == 2 ? r.Chance(1, 8) : (i / 2 % k) == s;
      act.push_back(v);
      deg.push_back(r.Chance(1, 5) ? 0 : 1 + r.Below(r.Bool() ? maxd : std::min<size_t>(maxd, 3)));
    }
    std::string label = "n=" + std::to_string(n) + " k=" + std::to_string(k) + " max=" + std::to_string(maxd) + " how=" + std::to_string(how) + " deg";
    for (size_t d : deg) label += " " + std::to_string(d);
    auto show = [&]() { return label; };
    ctx.Case(label);
    ctx.Distinct(vh::HashStr(label));
    int cols = 0;
    pl::SelectorCompressor<F> c;
    c.Process(act, deg, maxd, [&cols]() {
      int i = cols++;
      return EF::Fixed(pl::FixedQuery(i, zk::Rotation::Cur(), pl::FixedColumnKey(i)));
    });
    ctx.CheckF(c.selector_assignments().size() == size_t(k), "every_selector_assigned_once", show);
    ctx.CheckF(c.combination_assignments().size() == size_t(cols), "one_column_per_combination", show);
    std::set<size_t> seen;
    Table t;
    t.n = n;
    bool sized = true;
    for (auto& v : c.combination_assignments()) {
      t.fix.push_back(v);
      sized = sized && v.size() == size_t(n);
    }
    ctx.CheckF(sized, "selector_columns_full_height", show);
    if (!sized) continue;
    EvalTable et(t);
    for (auto& a : c.selector_assignments()) {
      size_t s = a.selector_index();
      bool in = s < size_t(k) && a.combination_index() < size_t(cols) && seen.insert(s).second;
      ctx.CheckF(in, "every_selector_assigned_once", show);
      if (!in) continue;
      std::vector<F> got = Rows(a.expression(), et, n);
      bool ok = true, exact = true;
      for (int i = 0; i < n; ++i) {
        ok = ok && got[i].IsZero() == !act[s][i];
        exact = exact && got[i] == (act[s][i] ? F::One() : F::Zero());
      }
      ctx.CheckF(ok, "replacement_nonzero_exactly_where_active", show);
      if (deg[s] == 0) ctx.CheckF(exact, "complex_selector_is_boolean", show);
      else ctx.CheckF(a.expression()->Degree() + deg[s] - 1 <= maxd, "combination_within_degree", [&]() { return label + " sel " + std::to_string(s) + " " + a.expression()->ToString().substr(0, 600) + " degree " + std::to_string(a.expression()->Degree()); });
    }
    // non-trivial sharing happens
    if (cols < k) ctx.Count("shared_selector_columns", k - cols);
  }
}

void Values(vh::Ctx& ctx) {
  using V = zk::Value<F>;
  for (int rep = 0; rep < (int)ctx.N(400); ++rep) {
    vh::Rng& r = ctx.rng;
    F a = Rf(r), b = Rf(r);
    bool ka = r.Chance(3, 4), kb = r.Chance(3, 4);
    V x = ka ? V::Known(a) : V::Unknown(), y = kb ? V::Known(b) : V::Unknown();
    std::string label = (ka ? a.ToString() : "?") + "," + (kb ? b.ToString() : "?");
    auto show = [&]() { return label; };
    ctx.Case(label);
    ctx.Distinct(vh::HashStr(label));
    auto is = [&](const V& v, bool known, const F& w, const char* m) {
      ctx.CheckF(known ? (!v.IsNone() && v.value() == w) : v.IsNone(), m, show);
    };
    is(x + y, ka && kb, a + b, "value_add");
    is(x - y, ka && kb, a - b, "value_sub");
    is(x * y, ka && kb, a * b, "value_mul");
    is(x + b, ka, a + b, "value_add");
    is(x - b, ka, a - b, "value_sub");
    is(x * b, ka, a * b, "value_mul");
    is(-x, ka, -a, "value_neg");
    is(x.Double(), ka, a + a, "value_double");
    is(x.Square(), ka, a * a, "value_square");
    V z = x;
    z = x;
    z.NegateInPlace();
    is(z, ka, -a, "value_neg");
    z = x;
    z.DoubleInPlace();
    is(z, ka, a + a, "value_double");
    z = x;
    z.SquareInPlace();
    is(z, ka, a * a, "value_square");
    ctx.CheckF(x == x && !(x != x), "value_eq", show);
    ctx.CheckF((x == y) == (ka == kb && (!ka || a == b)), "value_eq", show);
    ctx.CheckF((x != y) == !(x == y), "value_eq", show);
    ctx.CheckF(x.IsZero() == (ka && a.IsZero()) && x.IsOne() == (ka && a.IsOne()) && x.IsMinusOne() == (ka && a == F(2013265920u)), "value_tests", show);
    if (!ka || !a.IsZero()) {
      std::optional<V> inv = x.Inverse();
      ctx.CheckF(inv && (ka ? !inv->IsNone() && (inv->value() * a).IsOne() : inv->IsNone()), "value_inverse", show);
      z = x;
      ctx.CheckF(z.InverseInPlace().has_value() && z == *inv, "value_inverse", show);
    } else {
      ctx.CheckF(!x.Inverse().has_value(), "value_inverse_of_zero_refused", show);
    }
    auto q = x.ToRationalFieldValue();
    ctx.CheckF(q.IsNone() == !ka && (!ka || q.value() == math::RationalField<F>(a)), "value_rational", show);
    // rotations
    int n = 1 << r.Below(8), sc = 1 << r.Below(4), rot = r.Range(-40, 40), idx = r.Below(n);
    int64_t w = (int64_t{idx} + int64_t{rot} * sc) % n;
    if (w < 0) w += n;
    ctx.CheckF(zk::Rotation(rot).GetIndex(idx, sc, n) == zk::RowIndex(w), "rotation_index",
               [&]() { return "n=" + std::to_string(n) + " rot=" + std::to_string(rot); });
    std::unique_ptr<Domain> d = Domain::Create(n);
    F p = Rf(r), o = d->group_gen(), e = p;
    for (int i = 0; i < ((rot % n) + n) % n; ++i) e *= o;
    ctx.CheckF(zk::Rotation(rot).RotateOmega(d.get(), p) == e, "rotation_omega",
               [&]() { return "n=" + std::to_string(n) + " rot=" + std::to_string(rot); });
  }
}

void vh_main(vh::Ctx& ctx) {
  F::Init();
  FLAGS_minloglevel = 3;
  if (ctx.Section("evaluators")) Evaluators(ctx);
  if (ctx.Section("identity")) Identity(ctx);
  if (ctx.Section("system")) System(ctx);
  g_phase = nullptr;
  if (ctx.Section("selectors")) Selectors(ctx);
  if (ctx.Section("values")) Values(ctx);
  ctx.Require("evaluation_graph", 1000);
  ctx.Require("identifier_names_one_function", 100);
  ctx.Require("each_lookup_input_meets_its_own_table", 50);
  ctx.Require("shared_selector_columns", 50);
}
