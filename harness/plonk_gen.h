// Random PLONKish circuits for the halo2 properties (P19, P20, P21, P23, P32).
//
// A Spec is a random constraint system plus a random list of regions; a
// Witness gives the values of one circuit instance. The circuit class below
// hands them to the library through its public circuit API; everything used
// to *judge* (expression evaluation, satisfaction) works on the Spec's own
// syntax trees and on what a recording Assignment observed.
#ifndef VH_PLONK_GEN_H_
#define VH_PLONK_GEN_H_

#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "tachyon/zk/plonk/constraint_system/circuit.h"
#include "tachyon/zk/plonk/constraint_system/constraint_system.h"
#include "tachyon/zk/plonk/layout/floor_planner/simple_floor_planner.h"
#include "tachyon/zk/plonk/layout/floor_planner/v1/v1_floor_planner.h"
#include "vh.h"

namespace vhp {

namespace zk = tachyon::zk;
namespace pl = tachyon::zk::plonk;
namespace lk = tachyon::zk::lookup;
using tachyon::zk::RowIndex;

// ---------------------------------------------------------------- trees
enum class K { kConst, kAdv, kFix, kInst, kChal, kSel, kNeg, kSum, kProd, kScale };

template <typename F>
struct Tree {
  K k = K::kConst;
  F c = F::Zero();
  int idx = 0, rot = 0;
  std::vector<Tree> ch;

  static Tree Const(const F& c) { Tree t; t.c = c; return t; }
  static Tree Leaf(K k, int idx, int rot = 0) {
    Tree t; t.k = k; t.idx = idx; t.rot = rot; return t;
  }
  static Tree Neg(Tree a) { Tree t; t.k = K::kNeg; t.ch.push_back(std::move(a)); return t; }
  static Tree Scale(Tree a, const F& c) {
    Tree t; t.k = K::kScale; t.c = c; t.ch.push_back(std::move(a)); return t;
  }
  static Tree Bin(K k, Tree a, Tree b) {
    Tree t; t.k = k; t.ch.push_back(std::move(a)); t.ch.push_back(std::move(b)); return t;
  }
  static Tree Sum(Tree a, Tree b) { return Bin(K::kSum, std::move(a), std::move(b)); }
  static Tree Prod(Tree a, Tree b) { return Bin(K::kProd, std::move(a), std::move(b)); }
  static Tree Sub(Tree a, Tree b) { return Sum(std::move(a), Neg(std::move(b))); }

  int Degree() const {
    switch (k) {
      case K::kConst: case K::kChal: return 0;
      case K::kAdv: case K::kFix: case K::kInst: case K::kSel: return 1;
      case K::kNeg: case K::kScale: return ch[0].Degree();
      case K::kSum: return std::max(ch[0].Degree(), ch[1].Degree());
      case K::kProd: return ch[0].Degree() + ch[1].Degree();
    }
    return 0;
  }
  size_t Size() const {
    size_t s = 1;
    for (const Tree& t : ch) s += t.Size();
    return s;
  }
  // leaf(kind, index, rotation) -> F
  template <typename Fn>
  F Eval(const Fn& leaf) const {
    switch (k) {
      case K::kConst: return c;
      case K::kNeg: return F::Zero() - ch[0].Eval(leaf);
      case K::kScale: return ch[0].Eval(leaf) * c;
      case K::kSum: return ch[0].Eval(leaf) + ch[1].Eval(leaf);
      case K::kProd: return ch[0].Eval(leaf) * ch[1].Eval(leaf);
      default: return leaf(k, idx, rot);
    }
  }
  std::string ToString() const {
    std::string r = rot ? "@" + std::to_string(rot) : "";
    switch (k) {
      case K::kConst: return c == F::One() ? "1" : c.IsZero() ? "0" : "c";
      case K::kAdv: return "a" + std::to_string(idx) + r;
      case K::kFix: return "f" + std::to_string(idx) + r;
      case K::kInst: return "i" + std::to_string(idx) + r;
      case K::kChal: return "x" + std::to_string(idx);
      case K::kSel: return "s" + std::to_string(idx);
      case K::kNeg: return "-(" + ch[0].ToString() + ")";
      case K::kScale: return "c*(" + ch[0].ToString() + ")";
      case K::kSum: return "(" + ch[0].ToString() + "+" + ch[1].ToString() + ")";
      case K::kProd: return ch[0].ToString() + "*" + ch[1].ToString();
    }
    return "?";
  }
};

// ---------------------------------------------------------------- spec
template <typename F>
struct Gate {
  // enabler (selector / fixed multiplier / none) times (out - body), or an
  // identity (enab kNone)
  enum { kSimple, kComplex, kFixed, kNone } enab = kNone;
  int sel = -1;        // selector or fixed column
  int out_col = -1;    // advice column written by the gate, -1: identity
  int out_rot = 0;
  Tree<F> body;
  int form = 0;        // how the polynomial is spelled
  int group = 0;       // CreateGate call it belongs to
  Tree<F> poly;        // the final polynomial
};

template <typename F>
struct Lookup {
  int table = 0;          // index into tables
  int sel = -1;           // complex selector; -1: none (always on)
  std::vector<int> cols;  // advice columns of the inputs
  int rot = 0;
  std::vector<F> mul, add;  // input_j = mul*advice + add
  std::vector<Tree<F>> input;
};
template <typename F>
struct Table {
  enum { kTableColumn, kFixedAny, kAdviceAny, kInstanceAny } kind = kTableColumn;
  std::vector<int> cols;  // fixed / advice / instance columns
  std::vector<std::vector<F>> rows;  // content (kTableColumn, kFixedAny, kAdviceAny)
  std::vector<Tree<F>> expr;
  int sel = -1;
  std::vector<F> def;  // what an unselected input row looks up
};
template <typename F>
struct Shuffle {
  int s_in = -1, s_sh = -1;
  std::vector<int> a, b;
  std::vector<Tree<F>> in, sh;
};

struct Src {  // where an input cell's value comes from
  enum { kRandom, kSmall, kCopy, kConst, kInst } kind = kRandom;
  int region = 0, col = 0, off = 0;  // kCopy
  int row = 0;                       // kInst
  int how = 0;                       // API used
};
template <typename F>
struct CellW {
  bool fixed = false;
  int col = 0, off = 0;
  Src src;
  F c = F::Zero();  // constants, fixed values
  int gate = -1;    // computed by this gate (at offset goff)
  int goff = 0;
  int lookup = -1, lrow = 0, lj = 0;  // lookup input value
};
template <typename F>
struct Region {
  std::vector<CellW<F>> cells;                 // in assignment order
  std::vector<std::pair<int, int>> enables;    // (selector, offset)
  std::vector<std::array<int, 4>> equals;      // (col, off, col2, off2) inside
  std::vector<std::array<int, 3>> expose;      // (col, off, output row)
  bool ns = false;
};

template <typename F>
struct Spec {
  int n = 32;
  bool v1 = false;
  bool logd = false;
  bool fixed_first = false;
  int num_fixed = 0, num_inst = 0, num_sel = 0, num_chal = 0;
  std::vector<int> phase;          // per advice column
  std::vector<bool> sel_simple;
  std::vector<bool> table_col;     // per fixed column
  std::set<int> eq_adv, eq_inst, eq_fix;
  int const_col = -1;
  int min_degree = 0;
  std::vector<Gate<F>> gates;
  std::vector<Lookup<F>> lookups;
  std::vector<Table<F>> tables;
  std::vector<Shuffle<F>> shuffles;
  std::vector<Region<F>> regions;
  int in_rows = 0, out_rows = 0;   // instance lengths

  std::string ToString() const {
    std::string s = "n=" + std::to_string(n) + (v1 ? " v1" : " simple") +
                    (logd ? " logderiv" : " halo2") + " adv=";
    for (int p : phase) s += std::to_string(p);
    s += " fix=" + std::to_string(num_fixed) + " inst=" + std::to_string(in_rows) + "/" +
         std::to_string(out_rows) + " sel=";
    for (bool b : sel_simple) s += b ? 's' : 'c';
    s += " chal=" + std::to_string(num_chal) + " gates:";
    for (auto& g : gates) s += " [" + g.poly.ToString() + "]";
    for (auto& l : lookups) {
      s += " lookup(";
      for (auto& t : l.input) s += t.ToString() + ",";
      s += " in T" + std::to_string(l.table) + "kind" + std::to_string(tables[l.table].kind) + ")";
    }
    for (auto& h : shuffles) s += " shuffle" + std::to_string(h.a.size());
    s += " regions=" + std::to_string(regions.size());
    return s;
  }
};

template <typename F>
struct Witness {
  uint64_t seed = 0;
  std::vector<std::vector<F>> inst;               // instance columns
  std::map<std::array<int, 3>, F> over;           // (region, col, off) -> delta
  std::vector<int> start;                         // placement of the regions
};

// value of every advice cell; unknown ones (missing challenge) absent
template <typename F>
std::map<std::array<int, 3>, F> Compute(const Spec<F>& sp, const Witness<F>& w,
                                        const std::vector<std::optional<F>>& chal) {
  std::map<std::array<int, 3>, F> v;
  std::map<std::array<int, 3>, F> fx;
  // fixed values are part of the spec
  for (size_t r = 0; r < sp.regions.size(); ++r)
    for (auto& c : sp.regions[r].cells)
      if (c.fixed) fx[{(int)r, c.col, c.off}] = c.c;
  for (size_t r = 0; r < sp.regions.size(); ++r) {
    for (size_t i = 0; i < sp.regions[r].cells.size(); ++i) {
      auto& c = sp.regions[r].cells[i];
      if (c.fixed) continue;
      std::array<int, 3> key{(int)r, c.col, c.off};
      vh::Rng rng(vh::Mix(w.seed ^ vh::Mix(r * 1000003 + i)));
      std::optional<F> x;
      if (c.gate >= 0) {
        bool missing = false;
        F y = sp.gates[c.gate].body.Eval([&](K k, int idx, int rot) {
          if (k == K::kChal) {
            if (!chal[idx]) { missing = true; return F::Zero(); }
            return *chal[idx];
          }
          if (k == K::kInst) {
            long row = (long)w.start[r] + c.goff + rot;
            long n = sp.n;
            row = ((row % n) + n) % n;
            return row < (long)w.inst[idx].size() ? w.inst[idx][row] : F::Zero();
          }
          auto& m = k == K::kFix ? fx : v;
          auto it = m.find({(int)r, idx, c.goff + rot});
          if (it == m.end()) {
            if (k == K::kAdv) missing = true;
            return F::Zero();
          }
          return it->second;
        });
        if (!missing) x = y;
      } else if (c.lookup >= 0) {
        auto& l = sp.lookups[c.lookup];
        auto& t = sp.tables[l.table];
        // all columns of one lookup row use the same table row
        vh::Rng rr(vh::Mix(w.seed ^ vh::Mix(7777777 + r * 131 + c.lrow)));
        F target = F::Zero();
        if (t.kind == Table<F>::kInstanceAny) {
          auto& col = w.inst[t.cols[c.lj]];
          target = col[rr.Below(col.size())];
        } else {
          target = t.rows[rr.Below(t.rows.size())][c.lj];
        }
        x = (target - l.add[c.lj]) * *l.mul[c.lj].Inverse();
      } else {
        switch (c.src.kind) {
          case Src::kRandom: {
            F a = F(rng.U64() >> 1), b = F(rng.U64() >> 1);
            x = a * b;
            break;
          }
          case Src::kSmall: x = F(rng.Below(3)); break;
          case Src::kCopy: {
            auto it = v.find({c.src.region, c.src.col, c.src.off});
            if (it != v.end()) x = it->second;
            break;
          }
          case Src::kConst: x = c.c; break;
          case Src::kInst: x = w.inst[0][c.src.row]; break;
        }
      }
      if (!x) continue;
      auto o = w.over.find(key);
      if (o != w.over.end()) *x += o->second;
      v[key] = *x;
    }
  }
  return v;
}

// ---------------------------------------------------------------- circuit
template <typename F>
struct Config {
  using Field = F;
  const Spec<F>* spec = nullptr;
  std::vector<pl::AdviceColumnKey> adv;
  std::vector<pl::FixedColumnKey> fix;
  std::vector<pl::InstanceColumnKey> inst;
  std::vector<pl::Selector> sel;
  std::vector<pl::Challenge> chal;
  std::map<int, pl::LookupTableColumn> tab;
  Config Clone() const { return *this; }
};

template <typename F>
std::unique_ptr<zk::Expression<F>> ToExpr(const Tree<F>& t, pl::VirtualCells<F>& m,
                                          const Config<F>& c) {
  using E = pl::ExpressionFactory<F>;
  zk::Rotation rot(t.rot);
  switch (t.k) {
    case K::kConst: return E::Constant(t.c);
    case K::kAdv: return m.QueryAdvice(c.adv[t.idx], rot);
    case K::kFix: return m.QueryFixed(c.fix[t.idx], rot);
    case K::kInst: return m.QueryInstance(c.inst[t.idx], rot);
    case K::kChal: return m.QueryChallenge(c.chal[t.idx]);
    case K::kSel: return m.QuerySelector(c.sel[t.idx]);
    case K::kNeg: return E::Negated(ToExpr(t.ch[0], m, c));
    case K::kScale: return E::Scaled(ToExpr(t.ch[0], m, c), t.c);
    case K::kSum: {
      auto a = ToExpr(t.ch[0], m, c);
      auto b = ToExpr(t.ch[1], m, c);
      return E::Sum(std::move(a), std::move(b));
    }
    case K::kProd: {
      auto a = ToExpr(t.ch[0], m, c);
      auto b = ToExpr(t.ch[1], m, c);
      return E::Product(std::move(a), std::move(b));
    }
  }
  return nullptr;
}

// Config's lookup callbacks are OnceCallbacks, so a name tag is enough.
template <typename F>
class RandomCircuit;

template <typename F>
const Spec<F>*& CurrentSpec() {
  static const Spec<F>* spec = nullptr;
  return spec;
}
// challenges seen by the most recent synthesis
template <typename F>
std::vector<std::optional<F>>& SeenChallenges() {
  static std::vector<std::optional<F>> v;
  return v;
}

template <typename C>
class AnyPlanner : public pl::FloorPlanner<C> {
 public:
  using F = typename C::Field;
  void Synthesize(pl::Assignment<F>* assignment, const C& circuit, typename C::Config&& config,
                  const std::vector<pl::FixedColumnKey>& constants) override {
    if (CurrentSpec<F>()->v1) {
      pl::V1FloorPlanner<C> p;
      p.Synthesize(assignment, circuit, std::move(config), constants);
    } else {
      pl::SimpleFloorPlanner<C> p;
      p.Synthesize(assignment, circuit, std::move(config), constants);
    }
  }
};

template <typename F>
class RandomCircuit : public pl::Circuit<Config<F>> {
 public:
  using FloorPlanner = AnyPlanner<RandomCircuit<F>>;
  RandomCircuit() = default;
  explicit RandomCircuit(const Witness<F>* w) : w_(w) {}

  std::unique_ptr<pl::Circuit<Config<F>>> WithoutWitness() const override {
    return std::make_unique<RandomCircuit>();
  }

  static Config<F> Configure(pl::ConstraintSystem<F>& meta) {
    const Spec<F>& sp = *CurrentSpec<F>();
    Config<F> c;
    c.spec = &sp;
    auto mkfix = [&] {
      for (int i = 0; i < sp.num_fixed; ++i) {
        if (sp.table_col[i]) {
          pl::LookupTableColumn t = meta.CreateLookupTableColumn();
          c.tab[i] = t;
          c.fix.push_back(t.column());
        } else {
          c.fix.push_back(meta.CreateFixedColumn());
        }
      }
    };
    if (sp.fixed_first) mkfix();
    int chal = 0;
    // phases are non-decreasing over the advice columns by construction
    for (size_t i = 0; i < sp.phase.size(); ++i) {
      c.adv.push_back(sp.phase[i] == 0 && i % 2 == 0
                          ? meta.CreateAdviceColumn()
                          : meta.CreateAdviceColumn(pl::Phase(sp.phase[i])));
      if (i + 1 == sp.phase.size() || sp.phase[i + 1] == 1) {
        while (chal < sp.num_chal) {
          c.chal.push_back(meta.CreateChallengeUsableAfter(pl::Phase(0)));
          ++chal;
        }
      }
    }
    for (int i = 0; i < sp.num_inst; ++i) c.inst.push_back(meta.CreateInstanceColumn());
    if (!sp.fixed_first) mkfix();
    for (bool simple : sp.sel_simple)
      c.sel.push_back(simple ? meta.CreateSimpleSelector() : meta.CreateComplexSelector());
    for (int i : sp.eq_adv) meta.EnableEquality(c.adv[i]);
    for (int i : sp.eq_inst) meta.EnableEquality(c.inst[i]);
    for (int i : sp.eq_fix) meta.EnableEquality(c.fix[i]);
    if (sp.const_col >= 0) meta.EnableConstant(c.fix[sp.const_col]);
    if (sp.min_degree > 0) meta.set_minimum_degree(sp.min_degree);

    int groups = 0;
    for (auto& g : sp.gates) groups = std::max(groups, g.group + 1);
    for (int grp = 0; grp < groups; ++grp) {
      meta.CreateGate("g" + std::to_string(grp), [&](pl::VirtualCells<F>& m) {
        std::vector<pl::Constraint<F>> out;
        for (auto& g : sp.gates)
          if (g.group == grp) out.emplace_back(ToExpr(g.poly, m, c));
        return out;
      });
    }
    for (size_t i = 0; i < sp.lookups.size(); ++i) {
      auto& l = sp.lookups[i];
      auto& t = sp.tables[l.table];
      std::string name = "l" + std::to_string(i);
      if (t.kind == Table<F>::kTableColumn) {
        meta.Lookup(name, [&](pl::VirtualCells<F>& m) {
          lk::Pairs<std::unique_ptr<zk::Expression<F>>, pl::LookupTableColumn> pairs;
          for (size_t j = 0; j < l.input.size(); ++j)
            pairs.emplace_back(ToExpr(l.input[j], m, c), c.tab.at(t.cols[j]));
          return pairs;
        });
      } else {
        meta.LookupAny(name, [&](pl::VirtualCells<F>& m) {
          lk::Pairs<std::unique_ptr<zk::Expression<F>>> pairs;
          for (size_t j = 0; j < l.input.size(); ++j) {
            auto in = ToExpr(l.input[j], m, c);
            auto tb = ToExpr(t.expr[j], m, c);
            pairs.emplace_back(std::move(in), std::move(tb));
          }
          return pairs;
        });
      }
    }
    for (size_t i = 0; i < sp.shuffles.size(); ++i) {
      auto& s = sp.shuffles[i];
      meta.Shuffle("sh" + std::to_string(i), [&](pl::VirtualCells<F>& m) {
        zk::shuffle::Pairs<std::unique_ptr<zk::Expression<F>>> pairs;
        for (size_t j = 0; j < s.in.size(); ++j) {
          auto a = ToExpr(s.in[j], m, c);
          auto b = ToExpr(s.sh[j], m, c);
          pairs.emplace_back(std::move(a), std::move(b));
        }
        return pairs;
      });
    }
    return c;
  }

  void Synthesize(Config<F>&& cfg, pl::Layouter<F>* layouter) const override {
    const Spec<F>& sp = *cfg.spec;
    std::vector<std::optional<F>> chal(sp.num_chal);
    for (int i = 0; i < sp.num_chal; ++i) {
      zk::Value<F> v = layouter->GetChallenge(cfg.chal[i]);
      if (!v.IsNone()) chal[i] = v.value();
    }
    if (w_) SeenChallenges<F>() = chal;
    std::map<std::array<int, 3>, F> vals;
    if (w_) vals = Compute(sp, *w_, chal);

    // lookup tables first or last, as real circuits do either
    auto tables = [&] {
      for (size_t i = 0; i < sp.tables.size(); ++i) {
        auto& t = sp.tables[i];
        if (t.kind != Table<F>::kTableColumn) continue;
        layouter->AssignLookupTable("t" + std::to_string(i), [&](pl::LookupTable<F>& tab) {
          for (size_t r = 0; r < t.rows.size(); ++r)
            for (size_t j = 0; j < t.cols.size(); ++j)
              CHECK(tab.AssignCell("t", cfg.tab.at(t.cols[j]), r, [&] {
                return zk::Value<F>::Known(t.rows[r][j]);
              }));
        });
      }
    };
    if (sp.fixed_first) tables();
    std::map<std::array<int, 3>, pl::AssignedCell<F>> cells;
    std::unique_ptr<pl::NamespacedLayouter<F>> ns;
    for (size_t r = 0; r < sp.regions.size(); ++r) {
      auto& reg = sp.regions[r];
      pl::Layouter<F>* lay = layouter;
      if (reg.ns) {
        ns = layouter->Namespace("ns");
        lay = ns.get();
      }
      lay->AssignRegion("r" + std::to_string(r), [&](pl::Region<F>& region) {
        for (auto& [s, off] : reg.enables) cfg.sel[s].Enable(region, off);
        for (auto& c : reg.cells) {
          std::array<int, 3> key{(int)r, c.col, c.off};
          std::string name = (c.fixed ? "f" : "a") + std::to_string(r) + ":" + std::to_string(c.off);
          if (c.fixed) {
            F value = c.c;
            region.AssignFixed(name, cfg.fix[c.col], c.off,
                               [value] { return zk::Value<F>::Known(value); });
            continue;
          }
          std::optional<F> v;
          auto it = vals.find(key);
          if (it != vals.end()) v = it->second;
          auto assign = [v] {
            return v ? zk::Value<F>::Known(*v) : zk::Value<F>::Unknown();
          };
          bool over = w_ && w_->over.count(key);
          auto& col = cfg.adv[c.col];
          if (c.gate < 0 && c.lookup < 0 && c.src.kind == Src::kCopy) {
            const pl::AssignedCell<F>& from =
                cells.at({c.src.region, c.src.col, c.src.off});
            if (c.src.how == 0 && !over) {
              cells[key] = from.CopyAdvice(name, region, col, c.off);
            } else {
              cells[key] = region.AssignAdvice(name, col, c.off, assign);
              if (c.src.how == 1)
                region.ConstrainEqual(from.cell(), cells[key].cell());
              else
                region.ConstrainEqual(cells[key].cell(), from.cell());
            }
          } else if (c.gate < 0 && c.lookup < 0 && c.src.kind == Src::kConst &&
                     c.src.how != 9) {
            if (c.src.how == 0 && !over) {
              cells[key] = region.AssignAdviceFromConstant(name, col, c.off, c.c);
            } else {
              cells[key] = region.AssignAdvice(name, col, c.off, assign);
              region.ConstrainConstant(cells[key].cell(),
                                       tachyon::math::RationalField<F>(c.c));
            }
          } else if (c.gate < 0 && c.lookup < 0 && c.src.kind == Src::kInst && !over) {
            cells[key] = region.AssignAdviceFromInstance(name, cfg.inst[0], c.src.row, col, c.off);
          } else {
            cells[key] = region.AssignAdvice(name, col, c.off, assign);
          }
        }
        for (auto& e : reg.equals)
          region.ConstrainEqual(cells.at({(int)r, e[0], e[1]}).cell(),
                                cells.at({(int)r, e[2], e[3]}).cell());
      });
      // an overridden instance cell still has to equal the instance
      for (auto& c : reg.cells) {
        std::array<int, 3> key{(int)r, c.col, c.off};
        if (!c.fixed && c.gate < 0 && c.lookup < 0 && c.src.kind == Src::kInst &&
            w_ && w_->over.count(key))
          lay->ConstrainInstance(cells.at(key).cell(), cfg.inst[0], c.src.row);
      }
      for (auto& e : reg.expose)
        lay->ConstrainInstance(cells.at({(int)r, e[0], e[1]}).cell(), cfg.inst[1], e[2]);
      ns.reset();
    }
    if (!sp.fixed_first) tables();
  }

 private:
  const Witness<F>* w_ = nullptr;
};

// ---------------------------------------------------------------- recorder
template <typename F>
class Recorder : public pl::Assignment<F> {
 public:
  using AssignCallback = typename pl::Assignment<F>::AssignCallback;
  Recorder(const Spec<F>& sp, int usable, const std::vector<std::vector<F>>* inst,
           const std::vector<std::optional<F>>& chal)
      : sp_(sp), usable_(usable), inst_(inst), chal_(chal),
        adv(sp.phase.size(), std::vector<F>(sp.n, F::Zero())),
        fix(sp.num_fixed, std::vector<F>(sp.n, F::Zero())),
        sel(sp.num_sel, std::vector<bool>(sp.n, false)) {}

  void EnterRegion(std::string_view) override { if (depth_++) Bad("EnterRegion nested"); }
  void ExitRegion() override { if (--depth_) Bad("ExitRegion unbalanced"); }
  void EnableSelector(std::string_view, pl::Selector s, RowIndex row) override {
    if ((int)row >= usable_ || (int)s.index() >= sp_.num_sel) return Bad("selector row");
    sel[s.index()][row] = true;
  }
  zk::Value<F> QueryInstance(const pl::InstanceColumnKey& c, RowIndex row) override {
    if (!inst_) return zk::Value<F>::Unknown();
    auto& col = (*inst_)[c.index()];
    return zk::Value<F>::Known(row < col.size() ? col[row] : F::Zero());
  }
  void AssignAdvice(std::string_view name, const pl::AdviceColumnKey& c, RowIndex row,
                    AssignCallback assign) override {
    if ((int)row >= usable_ || c.index() >= adv.size()) return Bad("advice row");
    if ((int)c.phase().value() != sp_.phase[c.index()]) Bad("advice phase");
    Note(name, 'a', c.index(), row);
    if (inst_) adv[c.index()][row] = Get(std::move(assign));
  }
  void AssignFixed(std::string_view name, const pl::FixedColumnKey& c, RowIndex row,
                   AssignCallback assign) override {
    if ((int)row >= usable_ || c.index() >= fix.size()) return Bad("fixed row");
    Note(name, 'f', c.index(), row);
    F v = Get(std::move(assign));
    fix[c.index()][row] = v;
  }
  void Copy(const pl::AnyColumnKey& a, RowIndex ar, const pl::AnyColumnKey& b,
            RowIndex br) override {
    if ((int)ar >= usable_ || (int)br >= usable_) return Bad("copy row");
    copies.push_back({a, (int)ar, b, (int)br});
  }
  void FillFromRow(const pl::FixedColumnKey& c, RowIndex row,
                   const tachyon::math::RationalField<F>& v) override {
    F x = Rat(v);
    if ((int)row >= usable_) return Bad("fill row");
    for (int i = row; i < usable_; ++i) fix[c.index()][i] = x;
    ++fills;
  }
  zk::Value<F> GetChallenge(pl::Challenge c) override {
    if (c.index() < chal_.size() && chal_[c.index()]) return zk::Value<F>::Known(*chal_[c.index()]);
    return zk::Value<F>::Unknown();
  }

  struct CopyC { pl::AnyColumnKey a; int ar; pl::AnyColumnKey b; int br; };
  std::vector<std::string> bad;
  std::vector<CopyC> copies;
  size_t fills = 0, unnamed = 0;
  // placement: (kind, column, row) -> (region, offset)
  std::map<std::tuple<char, int, int>, std::pair<int, int>> owner;
  std::map<int, int> start;  // region -> first row

  F Rat(const tachyon::math::RationalField<F>& v) {
    if (v.denominator().IsZero()) return F::Zero();
    return v.numerator() * *v.denominator().Inverse();
  }

 private:
  F Get(AssignCallback assign) {
    auto v = std::move(assign).Run();
    if (v.IsNone()) return F::Zero();
    return Rat(v.value());
  }
  void Bad(const std::string& s) { if (bad.size() < 8) bad.push_back(s); }
  void Note(std::string_view name, char kind, int col, int row) {
    size_t p = name.find(':');
    if (name.empty() || name[0] != kind || p == std::string_view::npos) { ++unnamed; return; }
    int region = atoi(std::string(name.substr(1, p - 1)).c_str());
    int off = atoi(std::string(name.substr(p + 1)).c_str());
    auto [it, ins] = owner.insert({{kind, col, row}, {region, off}});
    if (!ins && it->second != std::make_pair(region, off))
      Bad("two cells share column " + std::to_string(col) + " row " + std::to_string(row));
    auto [st, fresh] = start.insert({region, row - off});
    if (!fresh && st->second != row - off) Bad("region split");
    if (row - off < 0) Bad("region starts before row 0");
  }
  const Spec<F>& sp_;
  int usable_;
  const std::vector<std::vector<F>>* inst_;
  std::vector<std::optional<F>> chal_;
  int depth_ = 0;

 public:
  std::vector<std::vector<F>> adv, fix;
  std::vector<std::vector<bool>> sel;
};

// ------------------------------------------------------------ satisfaction
enum { kGateBad = 1, kCopyBad = 2, kLookupBad = 4, kShuffleBad = 8 };

template <typename F>
int Judge(const Spec<F>& sp, const Recorder<F>& rec, const std::vector<std::vector<F>>& inst,
          const std::vector<std::optional<F>>& chal, int usable) {
  int bad = 0;
  int n = sp.n;
  auto adv = rec.adv;
  for (auto& col : adv) col[n - 1] = F::One();  // what the synthesizer does
  auto at = [&](int row) {
    return [&, row](K k, int idx, int rot) -> F {
      int r = ((row + rot) % n + n) % n;
      switch (k) {
        case K::kAdv: return adv[idx][r];
        case K::kFix: return rec.fix[idx][r];
        case K::kInst: return r < (int)inst[idx].size() ? inst[idx][r] : F::Zero();
        case K::kChal: return *chal[idx];
        case K::kSel: return rec.sel[idx][row] ? F::One() : F::Zero();
        default: return F::Zero();
      }
    };
  };
  for (auto& g : sp.gates)
    for (int row = 0; row < n; ++row)
      if (!g.poly.Eval(at(row)).IsZero()) bad |= kGateBad;
  auto cell = [&](const pl::AnyColumnKey& c, int row) -> F {
    switch (c.type()) {
      case pl::ColumnType::kAdvice: return adv[c.index()][row];
      case pl::ColumnType::kFixed: return rec.fix[c.index()][row];
      default:
        return row < (int)inst[c.index()].size() ? inst[c.index()][row] : F::Zero();
    }
  };
  for (auto& c : rec.copies)
    if (cell(c.a, c.ar) != cell(c.b, c.br)) bad |= kCopyBad;
  using Tup = std::vector<std::string>;
  auto tup = [&](const std::vector<Tree<F>>& e, int row) {
    Tup t;
    for (auto& x : e) t.push_back(x.Eval(at(row)).ToHexString());
    return t;
  };
  for (auto& l : sp.lookups) {
    std::set<Tup> tab;
    for (int row = 0; row < usable; ++row) tab.insert(tup(sp.tables[l.table].expr, row));
    for (int row = 0; row < usable; ++row)
      if (!tab.count(tup(l.input, row))) bad |= kLookupBad;
  }
  for (auto& s : sp.shuffles) {
    std::multiset<Tup> a, b;
    for (int row = 0; row < usable; ++row) {
      a.insert(tup(s.in, row));
      b.insert(tup(s.sh, row));
    }
    if (a != b) bad |= kShuffleBad;
  }
  return bad;
}

// ---------------------------------------------------------------- generator
template <typename F>
F RandF(vh::Rng& rng) {
  switch (rng.Below(5)) {
    case 0: return F(rng.Below(3));
    case 1: return F::Zero() - F(1 + rng.Below(3));
    default: return F(rng.U64() >> 1) * F(rng.U64() >> 1);
  }
}

template <typename F>
class Gen {
 public:
  explicit Gen(vh::Rng& rng) : r(rng) {}
  vh::Rng& r;
  Spec<F> sp;
  std::vector<int> in_cols, late_cols;  // phase-0 / phase-1 input columns
  std::vector<int> plain_fix;
  int maxrot = 1;

  int Adv(int phase) {
    sp.phase.push_back(phase);
    return (int)sp.phase.size() - 1;
  }
  int Fix(bool table) {
    sp.table_col.push_back(table);
    return sp.num_fixed++;
  }
  int Sel(bool simple) {
    sp.sel_simple.push_back(simple);
    return sp.num_sel++;
  }

  Tree<F> Leaf(bool late) {
    int rot = r.Chance(1, 2) ? 0 : (int)r.Range(-maxrot, maxrot);
    for (;;) {
      switch (r.Below(10)) {
        case 0: return Tree<F>::Const(RandF<F>(r));
        case 1:
          if (plain_fix.empty()) continue;
          return Tree<F>::Leaf(K::kFix, r.Pick(plain_fix), rot);
        case 2:
          if (!sp.num_inst) continue;
          return Tree<F>::Leaf(K::kInst, 0, rot);
        case 3:
          if (!late || !sp.num_chal) continue;
          return Tree<F>::Leaf(K::kChal, r.Below(sp.num_chal));
        case 4:
          if (!late || late_cols.empty()) continue;
          return Tree<F>::Leaf(K::kAdv, r.Pick(late_cols), rot);
        default:
          return Tree<F>::Leaf(K::kAdv, r.Pick(in_cols), rot);
      }
    }
  }
  Tree<F> Expr(int depth, int deg, bool late) {
    if (depth == 0 || r.Chance(1, 6)) {
      Tree<F> t = Leaf(late);
      if (t.Degree() > deg) return Tree<F>::Const(RandF<F>(r));
      return t;
    }
    switch (r.Below(6)) {
      case 0: return Tree<F>::Neg(Expr(depth - 1, deg, late));
      case 1: return Tree<F>::Scale(Expr(depth - 1, deg, late), RandF<F>(r));
      case 2: case 3:
        return Tree<F>::Sum(Expr(depth - 1, deg, late), Expr(depth - 1, deg, late));
      default: {
        if (deg < 2) return Tree<F>::Sum(Expr(depth - 1, deg, late), Expr(depth - 1, deg, late));
        int d1 = 1 + r.Below(deg - 1);
        Tree<F> a = Expr(depth - 1, d1, late);
        Tree<F> b = r.Chance(1, 4) && 2 * a.Degree() <= deg ? a : Expr(depth - 1, deg - a.Degree(), late);
        return Tree<F>::Prod(std::move(a), std::move(b));
      }
    }
  }

  Spec<F> Make(bool logd, int n, int features) {
    // features: bit0 lookups, bit1 shuffles, bit2 challenges, bit3 copies, bit4 instance
    sp = Spec<F>();
    sp.n = n;
    sp.logd = logd;
    sp.v1 = r.Bool();
    sp.fixed_first = r.Bool();
    maxrot = r.Chance(1, 4) ? 3 : r.Chance(1, 3) ? 2 : 1;
    bool chal = features & 4;
    sp.num_chal = chal ? 1 + r.Below(2) : 0;
    if (features & 16) {
      sp.num_inst = 1 + r.Below(2);
      sp.in_rows = 1 + r.Below(6);
    }
    int nin = 1 + r.Below(3);
    for (int i = 0; i < nin; ++i) in_cols.push_back(Adv(0));
    for (int i = r.Below(3); i > 0; --i) plain_fix.push_back(Fix(false));
    // phase-0 columns of lookups, shuffles and tables come before phase 1
    int budget = n - 10;  // rows available to regions, roughly
    (void)budget;
    if (features & 1) MakeLookups();
    if (features & 2) MakeShuffles();
    int ngates = r.Chance(1, 8) ? 0 : 1 + r.Below(3);
    std::vector<Gate<F>> early, late;
    int maxdeg = 2 + r.Below(4);
    for (int i = 0; i < ngates; ++i) {
      bool is_late = chal && r.Bool();
      Gate<F> g;
      g.group = i;
      if (r.Chance(1, 8)) {
        g.enab = Gate<F>::kNone;  // an identity: (a+b)(a-b) - (aa - bb)
        Tree<F> a = Expr(1, 1, false), b = Expr(1, 1, false);
        g.poly = Tree<F>::Sub(
            Tree<F>::Prod(Tree<F>::Sum(a, b), Tree<F>::Sub(a, b)),
            Tree<F>::Sub(Tree<F>::Prod(a, a), Tree<F>::Prod(b, b)));
      } else {
        int e = r.Below(5);
        g.enab = e < 2 ? Gate<F>::kSimple : e < 4 ? Gate<F>::kComplex : Gate<F>::kFixed;
        g.out_rot = r.Chance(1, 2) ? 0 : (int)r.Range(-maxrot, maxrot);
        g.form = r.Below(4);
      }
      (is_late && g.enab != Gate<F>::kNone ? late : early).push_back(g);
    }
    if (chal && late.empty()) {
      Gate<F> g;
      g.enab = Gate<F>::kComplex;
      g.group = ngates++;
      late.push_back(g);
    }
    for (auto& g : early)
      if (g.enab != Gate<F>::kNone) g.out_col = Adv(0);
    if (chal) {
      if (r.Bool()) late_cols.push_back(Adv(1));
      for (auto& g : late) g.out_col = Adv(1);
    }
    for (auto* v : {&early, &late})
      for (auto& g : *v) {
        if (g.enab != Gate<F>::kNone) {
          bool is_late = v == &late;
          g.body = Expr(1 + r.Below(3), maxdeg - 1, is_late);
          g.sel = g.enab == Gate<F>::kFixed ? Fix(false)
                                            : Sel(g.enab == Gate<F>::kSimple);
          Tree<F> q = g.enab == Gate<F>::kFixed ? Tree<F>::Leaf(K::kFix, g.sel)
                                                : Tree<F>::Leaf(K::kSel, g.sel);
          Tree<F> out = Tree<F>::Leaf(K::kAdv, g.out_col, g.out_rot);
          switch (g.form) {
            case 0: g.poly = Tree<F>::Prod(q, Tree<F>::Sub(out, g.body)); break;
            case 1: g.poly = Tree<F>::Prod(Tree<F>::Sub(g.body, out), q); break;
            case 2:
              g.poly = Tree<F>::Prod(q, Tree<F>::Scale(Tree<F>::Sub(g.body, out), RandNZ()));
              break;
            default:
              g.poly = g.enab == Gate<F>::kSimple
                           ? Tree<F>::Prod(q, Tree<F>::Sum(Tree<F>::Neg(g.body), out))
                           : Tree<F>::Sub(Tree<F>::Prod(q, out), Tree<F>::Prod(g.body, q));
          }
        }
        sp.gates.push_back(g);
      }
    // several polynomials in one CreateGate
    if (sp.gates.size() > 1 && r.Chance(1, 3)) sp.gates[1].group = sp.gates[0].group;
    Compact();
    MakeRegions(features);
    if (r.Chance(1, 10)) sp.min_degree = 3 + r.Below(5);
    return sp;
  }

  F RandNZ() {
    F f = RandF<F>(r);
    return f.IsZero() ? F::One() : f;
  }

  void Compact() {
    std::map<int, int> m;
    for (auto& g : sp.gates)
      if (!m.count(g.group)) { int k = m.size(); m[g.group] = k; }
    for (auto& g : sp.gates) g.group = m[g.group];
  }

  void MakeLookups() {
    int nt = 1 + r.Below(2);
    for (int i = 0; i < nt; ++i) {
      Table<F> t;
      int w = 1 + r.Below(2);
      int kind = r.Below(4);
      if (kind == Table<F>::kInstanceAny && (!sp.num_inst || w > 1)) kind = 0;
      t.kind = static_cast<decltype(t.kind)>(kind);
      int rows = 1 + r.Below(5);
      for (int k = 0; k < rows; ++k) {
        std::vector<F> row;
        for (int j = 0; j < w; ++j) row.push_back(RandF<F>(r));
        t.rows.push_back(row);
      }
      for (int j = 0; j < w; ++j) {
        switch (t.kind) {
          case Table<F>::kTableColumn: case Table<F>::kFixedAny:
            t.cols.push_back(Fix(t.kind == Table<F>::kTableColumn));
            t.expr.push_back(Tree<F>::Leaf(K::kFix, t.cols.back()));
            break;
          case Table<F>::kAdviceAny:
            t.cols.push_back(Adv(0));
            t.expr.push_back(Tree<F>::Leaf(K::kAdv, t.cols.back()));
            break;
          default:
            t.cols.push_back(0);
            t.expr.push_back(Tree<F>::Leaf(K::kInst, 0));
        }
      }
      // what unselected rows look up: a table row, or the zeros that the
      // unassigned rows of the table hold
      if (t.kind == Table<F>::kTableColumn) {
        t.def = r.Pick(t.rows);
      } else {
        t.def.assign(w, F::Zero());
        if (t.kind != Table<F>::kInstanceAny && r.Chance(1, 3)) t.def = r.Pick(t.rows);
      }
      sp.tables.push_back(t);
    }
    int nl = 1 + r.Below(3);
    for (int i = 0; i < nl; ++i) {
      Lookup<F> l;
      l.table = r.Below(sp.tables.size());
      auto& t = sp.tables[l.table];
      l.sel = Sel(false);
      l.rot = r.Chance(1, 3) ? (int)r.Range(-maxrot, maxrot) : 0;
      for (size_t j = 0; j < t.cols.size(); ++j) {
        l.cols.push_back(Adv(0));
        l.mul.push_back(r.Bool() ? F::One() : RandNZ());
        l.add.push_back(r.Bool() ? F::Zero() : RandF<F>(r));
        Tree<F> s = Tree<F>::Leaf(K::kSel, l.sel);
        Tree<F> a = Tree<F>::Leaf(K::kAdv, l.cols[j], l.rot);
        if (l.mul[j] != F::One()) a = Tree<F>::Scale(a, l.mul[j]);
        if (!l.add[j].IsZero()) a = Tree<F>::Sum(a, Tree<F>::Const(l.add[j]));
        Tree<F> in = Tree<F>::Prod(s, a);
        if (!t.def[j].IsZero())
          in = Tree<F>::Sum(in, Tree<F>::Scale(Tree<F>::Sub(Tree<F>::Const(F::One()), s), t.def[j]));
        l.input.push_back(in);
      }
      sp.lookups.push_back(l);
    }
  }

  void MakeShuffles() {
    int ns = 1 + r.Below(2);
    for (int i = 0; i < ns; ++i) {
      Shuffle<F> s;
      s.s_in = Sel(false);
      s.s_sh = Sel(false);
      int w = 1 + r.Below(2);
      for (int j = 0; j < w; ++j) {
        s.a.push_back(Adv(0));
        s.b.push_back(Adv(0));
        s.in.push_back(Tree<F>::Prod(Tree<F>::Leaf(K::kSel, s.s_in), Tree<F>::Leaf(K::kAdv, s.a[j])));
        s.sh.push_back(Tree<F>::Prod(Tree<F>::Leaf(K::kSel, s.s_sh), Tree<F>::Leaf(K::kAdv, s.b[j])));
      }
      sp.shuffles.push_back(s);
    }
  }

  void MakeRegions(int features) {
    bool copies = features & 8;
    std::vector<std::array<int, 3>> sources[2];  // copyable cells by phase
    if (copies) {
      for (size_t c = 0; c < sp.phase.size(); ++c) sp.eq_adv.insert(c);
      if (sp.num_inst) sp.eq_inst.insert(0);
      if (r.Chance(2, 3)) sp.const_col = Fix(false);
    }
    int rows_left = sp.n - 6 - 2 * maxrot - 3;
    int row_cost = 0;
    int nreg = 1 + r.Below(4);
    for (int q = 0; q < nreg; ++q) {
      Region<F> reg;
      reg.ns = r.Chance(1, 4);
      int h = 2 * maxrot + 1 + r.Below(3);
      if (row_cost + h > rows_left) break;
      row_cost += h;
      int R = sp.regions.size();
      // gates used by this region
      std::vector<std::pair<int, int>> use;  // gate, offset
      std::set<std::pair<int, int>> outs;
      for (size_t g = 0; g < sp.gates.size(); ++g) {
        if (sp.gates[g].enab == Gate<F>::kNone || r.Chance(1, 4)) continue;
        for (int off = maxrot; off < h - maxrot; ++off)
          if (r.Chance(2, 3)) use.push_back({(int)g, off});
      }
      auto input = [&](int col, int phase) {
        for (int off = 0; off < h; ++off) {
          CellW<F> c;
          c.col = col;
          c.off = off;
          int k = r.Below(10);
          if (copies && k < 3 && !(sources[0].empty() && (phase == 0 || sources[1].empty()))) {
            std::vector<std::array<int, 3>> cand = sources[0];
            if (phase == 1) cand.insert(cand.end(), sources[1].begin(), sources[1].end());
            auto s = r.Pick(cand);
            c.src.kind = Src::kCopy;
            c.src.region = s[0]; c.src.col = s[1]; c.src.off = s[2];
            c.src.how = r.Below(3);
          } else if (copies && k == 3 && sp.const_col >= 0) {
            c.src.kind = Src::kConst;
            c.src.how = r.Below(2);
            c.c = RandF<F>(r);
          } else if (copies && k == 4 && sp.num_inst) {
            c.src.kind = Src::kInst;
            c.src.row = r.Below(sp.in_rows);
          } else if (k == 5) {
            c.src.kind = Src::kSmall;
          }
          reg.cells.push_back(c);
          sources[phase].push_back({R, col, off});
        }
      };
      for (int c : in_cols) input(c, 0);
      for (int c : plain_fix)
        for (int off = 0; off < h; ++off) {
          CellW<F> f;
          f.fixed = true; f.col = c; f.off = off; f.c = RandF<F>(r);
          reg.cells.push_back(f);
        }
      for (int c : late_cols) input(c, 1);
      for (auto& [g, off] : use) {
        auto& gt = sp.gates[g];
        CellW<F> c;
        c.col = gt.out_col; c.off = off + gt.out_rot; c.gate = g; c.goff = off;
        reg.cells.push_back(c);
        int ph = sp.phase[gt.out_col];
        sources[ph].push_back({R, c.col, c.off});
        if (gt.enab == Gate<F>::kFixed) {
          CellW<F> f;
          f.fixed = true; f.col = gt.sel; f.off = off; f.c = RandNZ();
          reg.cells.push_back(f);
        } else {
          reg.enables.push_back({gt.sel, off});
        }
        if (copies && ph == 0 && sp.num_inst == 2 && r.Chance(1, 4)) {
          reg.expose.push_back({c.col, c.off, sp.out_rows++});
          sp.eq_inst.insert(1);
        }
      }
      // an in-region equality between a copied cell and its twin
      if (copies) {
        for (size_t i = 0; i < reg.cells.size(); ++i)
          for (size_t j = i + 1; j < reg.cells.size(); ++j) {
            auto &a = reg.cells[i], &b = reg.cells[j];
            if (a.fixed || b.fixed || a.gate >= 0 || b.gate >= 0) continue;
            if (a.src.kind == Src::kCopy && b.src.kind == Src::kCopy &&
                a.src.region == b.src.region && a.src.col == b.src.col &&
                a.src.off == b.src.off && r.Chance(1, 2))
              reg.equals.push_back({a.col, a.off, b.col, b.off});
          }
      }
      sp.regions.push_back(reg);
    }
    if (sp.num_inst == 2 && sp.out_rows == 0) sp.out_rows = 1;
    // tables held in ordinary columns
    for (auto& t : sp.tables) {
      if (t.kind != Table<F>::kFixedAny && t.kind != Table<F>::kAdviceAny) continue;
      Region<F> reg;
      for (size_t k = 0; k < t.rows.size(); ++k)
        for (size_t j = 0; j < t.cols.size(); ++j) {
          CellW<F> c;
          c.fixed = t.kind == Table<F>::kFixedAny;
          c.col = t.cols[j]; c.off = k; c.c = t.rows[k][j];
          if (!c.fixed) {
            // the table is part of the witness but the same in all circuits;
            // a constant without a copy constraint
            c.src.kind = Src::kConst;
            c.src.how = 9;
          }
          reg.cells.push_back(c);
        }
      Insert(reg);
    }
    for (size_t i = 0; i < sp.lookups.size(); ++i) {
      auto& l = sp.lookups[i];
      Region<F> reg;
      int k = 1 + r.Below(4);
      int base = l.rot < 0 ? -l.rot : 0;
      for (int q = 0; q < k; ++q) {
        reg.enables.push_back({l.sel, base + q});
        for (size_t j = 0; j < l.cols.size(); ++j) {
          CellW<F> c;
          c.col = l.cols[j]; c.off = base + q + l.rot;
          c.lookup = i; c.lrow = q; c.lj = j;
          reg.cells.push_back(c);
        }
      }
      Insert(reg);
    }
    for (auto& s : sp.shuffles) {
      Region<F> reg;
      int k = 1 + r.Below(5);
      std::vector<int> perm(k);
      for (int q = 0; q < k; ++q) perm[q] = q;
      for (int q = k - 1; q > 0; --q) std::swap(perm[q], perm[r.Below(q + 1)]);
      for (int q = 0; q < k; ++q) {
        reg.enables.push_back({s.s_in, q});
        reg.enables.push_back({s.s_sh, q});
        for (size_t j = 0; j < s.a.size(); ++j) {
          CellW<F> a;
          a.col = s.a[j]; a.off = q; a.src.kind = Src::kConst; a.src.how = 9;
          a.c = RandF<F>(r);
          reg.cells.push_back(a);
        }
      }
      for (int q = 0; q < k; ++q)
        for (size_t j = 0; j < s.a.size(); ++j) {
          CellW<F> b;
          b.col = s.b[j]; b.off = q; b.src.kind = Src::kConst; b.src.how = 9;
          b.c = reg.cells[perm[q] * s.a.size() + j].c;
          reg.cells.push_back(b);
        }
      Insert(reg);
    }
  }
  // regions are appended: copies refer to regions by index
  void Insert(const Region<F>& reg) { sp.regions.push_back(reg); }
};

}  // namespace vhp

#endif  // VH_PLONK_GEN_H_
