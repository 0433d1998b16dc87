// P23: floor planners never let regions collide.
//
// A script of random regions is laid out through the public circuit API by
// each floor planner; a recording Assignment sees every call the planner
// makes, and the monitor compares the recording with the script.
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <map>
#include <set>

#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"
#include "tachyon/zk/plonk/constraint_system/circuit.h"
#include "tachyon/zk/plonk/constraint_system/constraint_system.h"
#include "tachyon/zk/plonk/halo2/witness_collection.h"
#include "tachyon/zk/plonk/keys/assembly.h"
#include "tachyon/zk/plonk/layout/floor_planner/simple_floor_planner.h"
#include "tachyon/zk/plonk/layout/floor_planner/v1/v1_floor_planner.h"
#include "vh.h"

namespace zk = tachyon::zk;
namespace pl = tachyon::zk::plonk;
namespace math = tachyon::math;
using tachyon::zk::RowIndex;
using F = math::BabyBear;
using Rat = math::RationalField<F>;

struct Op {
  enum Kind { kAdv, kFix, kSel, kAdvConst, kAdvInst, kCopyFrom, kConstrainConst, kEqual } kind;
  int col = 0, off = 0;
  uint32_t val = 0;
  int cell = -1;       // the cell this op creates
  int a = -1, b = -1;  // cells it refers to
  int row = 0;
};
struct Reg {
  std::vector<Op> ops;
  bool ns = false;
  int expose_cell = -1, expose_row = 0;  // ConstrainInstance after the region
  int len = 0;
  std::set<std::pair<char, int>> cols;
};
struct Cell {
  int region = 0;
  char type = 'a';
  int col = 0, off = 0;
};
struct Tab {
  std::vector<int> cols;  // lookup table columns
  std::vector<std::vector<uint32_t>> rows;
  int before = 0;  // assigned before this region
  bool transposed = false;
};
struct Script {
  int adv = 1, fix = 1, inst = 1, sel = 1, tabs = 0;
  std::vector<int> consts;  // fixed columns enabled for constants
  std::vector<Reg> regions;
  std::vector<Cell> cells;
  std::vector<Tab> tables;
  std::string ToString() const {
    std::string s = "adv=" + std::to_string(adv) + " fix=" + std::to_string(fix) +
                    " sel=" + std::to_string(sel) + " consts=" + std::to_string(consts.size());
    for (auto& r : regions) {
      s += " {";
      for (auto& [t, c] : r.cols) s += std::string(1, t) + std::to_string(c) + " ";
      s += "len " + std::to_string(r.len) + "}";
    }
    for (auto& t : tables)
      s += " table(" + std::to_string(t.cols.size()) + "x" + std::to_string(t.rows.size()) + ")";
    return s.substr(0, 900);
  }
};
Script* g_sp = nullptr;
constexpr int kRows = 1 << 20;  // the recorder has no height of its own

uint32_t InstVal(int row) { return 1000003u * (row + 1) % 2013265921u; }

struct Config {
  using Field = F;
  std::vector<pl::AdviceColumnKey> adv;
  std::vector<pl::FixedColumnKey> fix;
  std::vector<pl::InstanceColumnKey> inst;
  std::vector<pl::Selector> sel;
  std::vector<pl::LookupTableColumn> tab;
  Config Clone() const { return *this; }
};

class C : public pl::Circuit<Config> {
 public:
  explicit C(bool known = true) : known_(known) {}
  std::unique_ptr<pl::Circuit<Config>> WithoutWitness() const override {
    return std::make_unique<C>(false);
  }
  static Config Configure(pl::ConstraintSystem<F>& m) {
    Config c;
    for (int i = 0; i < g_sp->adv; ++i) c.adv.push_back(m.CreateAdviceColumn());
    for (int i = 0; i < g_sp->fix; ++i) c.fix.push_back(m.CreateFixedColumn());
    for (int i = 0; i < g_sp->inst; ++i) c.inst.push_back(m.CreateInstanceColumn());
    for (int i = 0; i < g_sp->sel; ++i)
      c.sel.push_back(i % 2 ? m.CreateComplexSelector() : m.CreateSimpleSelector());
    for (int i = 0; i < g_sp->tabs; ++i) c.tab.push_back(m.CreateLookupTableColumn());
    for (auto& a : c.adv) m.EnableEquality(a);
    for (auto& a : c.inst) m.EnableEquality(a);
    for (int i : g_sp->consts) m.EnableConstant(c.fix[i]);
    return c;
  }
  void Synthesize(Config&& cfg, pl::Layouter<F>* layouter) const override {
    std::vector<pl::AssignedCell<F>> cells(g_sp->cells.size());
    auto tables = [&](int at) {
      for (auto& t : g_sp->tables) {
        if (t.before != at) continue;
        layouter->AssignLookupTable("tab", [&](pl::LookupTable<F>& tab) {
          auto one = [&](size_t r, size_t j) {
            CHECK(tab.AssignCell("T", cfg.tab[t.cols[j]], r,
                                 [&] { return zk::Value<F>::Known(F(t.rows[r][j])); }));
          };
          if (t.transposed)
            for (size_t j = 0; j < t.cols.size(); ++j)
              for (size_t r = t.rows.size(); r-- > 0;) one(r, j);
          else
            for (size_t r = 0; r < t.rows.size(); ++r)
              for (size_t j = 0; j < t.cols.size(); ++j) one(r, j);
        });
      }
    };
    std::unique_ptr<pl::NamespacedLayouter<F>> ns;
    for (size_t r = 0; r < g_sp->regions.size(); ++r) {
      tables(r);
      const Reg& reg = g_sp->regions[r];
      pl::Layouter<F>* lay = layouter;
      if (reg.ns) {
        ns = layouter->Namespace("ns");
        lay = ns.get();
      }
      lay->AssignRegion("r" + std::to_string(r), [&](pl::Region<F>& region) {
        for (auto& o : reg.ops) {
          std::string name = std::to_string(r) + ":" + std::to_string(o.off);
          auto assign = [&] {
            return known_ ? zk::Value<F>::Known(F(o.val)) : zk::Value<F>::Unknown();
          };
          switch (o.kind) {
            case Op::kAdv: cells[o.cell] = region.AssignAdvice(name, cfg.adv[o.col], o.off, assign); break;
            case Op::kFix:
              cells[o.cell] = region.AssignFixed(name, cfg.fix[o.col], o.off,
                                                 [&] { return zk::Value<F>::Known(F(o.val)); });
              break;
            case Op::kSel: region.EnableSelector(name, cfg.sel[o.col], o.off); break;
            case Op::kAdvConst:
              cells[o.cell] = region.AssignAdviceFromConstant(name, cfg.adv[o.col], o.off, F(o.val));
              break;
            case Op::kAdvInst:
              cells[o.cell] = region.AssignAdviceFromInstance(name, cfg.inst[o.b], o.row, cfg.adv[o.col], o.off);
              break;
            case Op::kCopyFrom: cells[o.cell] = cells[o.a].CopyAdvice(name, region, cfg.adv[o.col], o.off); break;
            case Op::kConstrainConst: region.ConstrainConstant(cells[o.a].cell(), Rat(F(o.val))); break;
            case Op::kEqual: region.ConstrainEqual(cells[o.a].cell(), cells[o.b].cell()); break;
          }
        }
      });
      if (reg.expose_cell >= 0)
        lay->ConstrainInstance(cells[reg.expose_cell].cell(), cfg.inst[0], reg.expose_row);
      ns.reset();
    }
    tables(g_sp->regions.size());
  }

 private:
  bool known_;
};

using Pos = std::tuple<char, int, int>;  // column type, index, row
char TypeOf(const pl::AnyColumnKey& c) {
  return c.type() == pl::ColumnType::kAdvice ? 'a' : c.type() == pl::ColumnType::kFixed ? 'f'
         : c.type() == pl::ColumnType::kInstance ? 'i' : '?';
}
class Rec : public pl::Assignment<F> {
 public:
  using CB = typename pl::Assignment<F>::AssignCallback;
  explicit Rec(bool known) : known_(known) {}
  void EnterRegion(std::string_view) override { ++enters; if (depth++) bad.push_back("EnterRegion nested"); }
  void ExitRegion() override { if (--depth) bad.push_back("ExitRegion unbalanced"); }
  void PushNamespace(std::string_view) override { ++ns; }
  void PopNamespace(const std::optional<std::string>&) override { if (--ns < 0) bad.push_back("PopNamespace"); }
  void EnableSelector(std::string_view name, pl::Selector s, RowIndex row) override {
    Note(name, row);
    sel.insert({s.index(), row});
  }
  zk::Value<F> QueryInstance(const pl::InstanceColumnKey& c, RowIndex row) override {
    return known_ ? zk::Value<F>::Known(F(InstVal(row + 100 * c.index()))) : zk::Value<F>::Unknown();
  }
  void AssignAdvice(std::string_view name, const pl::AdviceColumnKey& c, RowIndex row, CB cb) override {
    Note(name, row);
    Put({'a', c.index(), row}, std::move(cb));
  }
  void AssignFixed(std::string_view name, const pl::FixedColumnKey& c, RowIndex row, CB cb) override {
    if (name.substr(0, 8) == "Constant") consts.push_back({'f', c.index(), row});
    else if (name == "T") table_cells.insert({c.index(), row});
    else Note(name, row);
    Put({'f', c.index(), row}, std::move(cb));
  }
  void Copy(const pl::AnyColumnKey& a, RowIndex ar, const pl::AnyColumnKey& b, RowIndex br) override {
    Pos x{TypeOf(a), a.index(), ar}, y{TypeOf(b), b.index(), br};
    copies.insert({std::min(x, y), std::max(x, y)});
  }
  void FillFromRow(const pl::FixedColumnKey& c, RowIndex row, const Rat& v) override {
    fills.push_back({c.index(), row, v.numerator() * *v.denominator().Inverse()});
  }
  zk::Value<F> GetChallenge(pl::Challenge) override { return zk::Value<F>::Unknown(); }

  std::vector<std::string> bad;
  int depth = 0, ns = 0, enters = 0;
  std::map<Pos, F> values;
  std::vector<Pos> twice;
  std::vector<Pos> consts;
  std::set<std::pair<size_t, RowIndex>> sel;
  std::set<std::pair<size_t, RowIndex>> table_cells;
  std::multiset<std::pair<Pos, Pos>> copies;
  struct Fill { size_t col; RowIndex row; F v; };
  std::vector<Fill> fills;
  std::map<int, int> start;

 private:
  void Note(std::string_view name, RowIndex row) {
    size_t p = name.find(':');
    if (p == std::string_view::npos) return;  // EnableSelector's annotation
    int r = atoi(std::string(name.substr(0, p)).c_str());
    int off = atoi(std::string(name.substr(p + 1)).c_str());
    auto [it, fresh] = start.insert({r, (int)row - off});
    if (!fresh && it->second != (int)row - off)
      bad.push_back("region " + std::to_string(r) + " starts at " + std::to_string(it->second) +
                    " and at " + std::to_string((int)row - off));
    if ((int)row - off < 0) bad.push_back("negative start");
  }
  void Put(const Pos& p, CB cb) {
    auto v = std::move(cb).Run();
    F x = F::Zero();
    if (!v.IsNone()) x = v.value().numerator() * *v.value().denominator().Inverse();
    else if (known_) bad.push_back("unknown value");
    if (!values.insert({p, x}).second) twice.push_back(p);
  }
  bool known_;
};

std::string Show(const Pos& p) {
  return std::string(1, std::get<0>(p)) + std::to_string(std::get<1>(p)) + "@" + std::to_string(std::get<2>(p));
}

Script MakeScript(vh::Rng& r, bool v1) {
  Script s;
  s.adv = 1 + r.Below(6);
  s.fix = 1 + r.Below(4);
  s.inst = 1 + r.Below(2);
  s.sel = 1 + r.Below(4);
  bool consts = r.Chance(2, 3);
  if (consts) {
    s.consts.push_back(r.Below(s.fix));
    if (r.Bool() && s.fix > 1) {
      int other = r.Below(s.fix);
      if (other != s.consts[0]) s.consts.push_back(other);
    }
  }
  int n = r.Chance(1, 12) ? 0 : 1 + r.Below(r.Chance(1, 4) ? 24 : 8);
  int style = r.Below(3);
  size_t nconst = 0;
  for (int i = 0; i < n; ++i) {
    Reg g;
    g.ns = r.Chance(1, 5);
    int height = style == 0 ? 1 + r.Below(3) : style == 1 ? 1 + r.Below(8) : (r.Chance(1, 5) ? 20 + r.Below(30) : 1 + r.Below(4));
    int nops = r.Chance(1, 20) ? 0 : 1 + r.Below(2 * height + 4);
    std::set<std::tuple<char, int, int>> used;
    // a region uses few of the columns, so that others can sit beside it
    std::vector<int> ac, fc, sc;
    for (int k = 0; k < s.adv; ++k) if (r.Bool()) ac.push_back(k);
    for (int k = 0; k < s.fix; ++k) if (r.Chance(1, 3)) fc.push_back(k);
    for (int k = 0; k < s.sel; ++k) if (r.Chance(1, 3)) sc.push_back(k);
    if (ac.empty() && r.Chance(3, 4)) ac.push_back(r.Below(s.adv));
    for (int k = 0; k < nops; ++k) {
      Op o;
      o.off = r.Below(height);
      o.val = 1 + r.Below(1000000);
      int w = r.Below(16);
      auto adv = [&]() -> bool {
        if (ac.empty()) return false;
        o.col = r.Pick(ac);
        if (!used.insert({'a', o.col, o.off}).second) return false;
        g.cols.insert({'a', o.col});
        o.cell = s.cells.size();
        s.cells.push_back({i, 'a', o.col, o.off});
        return true;
      };
      std::vector<int> acells;
      for (size_t q = 0; q < s.cells.size(); ++q) if (s.cells[q].type == 'a') acells.push_back(q);
      if (w < 6) {
        o.kind = Op::kAdv;
        if (!adv()) continue;
      } else if (w < 8) {
        if (fc.empty()) continue;
        o.kind = Op::kFix;
        o.col = r.Pick(fc);
        if (!used.insert({'f', o.col, o.off}).second) continue;
        g.cols.insert({'f', o.col});
        o.cell = s.cells.size();
        s.cells.push_back({i, 'f', o.col, o.off});
      } else if (w < 10) {
        if (sc.empty()) continue;
        o.kind = Op::kSel;
        o.col = r.Pick(sc);
        if (!used.insert({'s', o.col, o.off}).second) continue;
        g.cols.insert({'s', o.col});
      } else if (w == 10) {
        if (!consts) continue;
        o.kind = Op::kAdvConst;
        if (!adv()) continue;
        ++nconst;
      } else if (w == 11) {
        o.kind = Op::kAdvInst;
        o.row = r.Below(40);
        o.b = r.Below(s.inst);
        if (!adv()) continue;
      } else if (w == 12) {
        if (acells.empty()) continue;
        o.kind = Op::kCopyFrom;
        o.a = r.Pick(acells);
        if (!adv()) continue;
      } else if (w == 13) {
        if (!consts || acells.empty()) continue;
        o.kind = Op::kConstrainConst;
        o.a = r.Pick(acells);
        ++nconst;
        g.ops.push_back(o);
        continue;
      } else {
        if (acells.size() < 2) continue;
        o.kind = Op::kEqual;
        o.a = r.Pick(acells);
        o.b = r.Pick(acells);
        g.ops.push_back(o);
        continue;
      }
      g.len = std::max(g.len, o.off + 1);
      g.ops.push_back(o);
    }
    if (r.Chance(1, 5)) {
      for (size_t q = 0; q < s.cells.size(); ++q)
        if (s.cells[q].type == 'a' && r.Bool()) g.expose_cell = q;
      g.expose_row = r.Below(40);
    }
    s.regions.push_back(std::move(g));
  }
  if (v1 && nconst) {
    // V1 places constants beside the regions only: make one region tall and
    // give it no fixed column, so that they always fit.
    Reg g;
    Op o;
    o.kind = Op::kAdv;
    o.off = nconst + r.Below(3);
    for (auto& x : s.regions) o.off += x.len;
    o.val = 77;
    o.cell = s.cells.size();
    s.cells.push_back({(int)s.regions.size(), 'a', 0, o.off});
    g.cols.insert({'a', 0});
    g.len = o.off + 1;
    g.ops.push_back(o);
    s.regions.push_back(g);
  }
  int nt = r.Below(3);
  for (int i = 0; i < nt; ++i) {
    Tab t;
    int k = 1 + r.Below(3);
    for (int j = 0; j < k; ++j) t.cols.push_back(s.tabs++);
    if (r.Bool()) std::swap(t.cols[0], t.cols.back());
    int rows = 1 + r.Below(12);
    for (int a = 0; a < rows; ++a) {
      t.rows.emplace_back();
      for (int j = 0; j < k; ++j) t.rows.back().push_back(1 + r.Below(100000));
    }
    t.before = r.Below(s.regions.size() + 1);
    t.transposed = r.Bool();
    s.tables.push_back(t);
  }
  return s;
}

template <typename Planner>
std::unique_ptr<Rec> Run(bool known) {
  pl::ConstraintSystem<F> cs;
  Config cfg = C::Configure(cs);
  auto rec = std::make_unique<Rec>(known);
  C c(known);
  Planner p;
  p.Synthesize(rec.get(), c, std::move(cfg), cs.constants());
  return rec;
}

template <typename Planner>
void CheckOne(vh::Ctx& ctx, const Script& s, const char* planner) {
  auto rec = Run<Planner>(true);
  std::string why;
  auto show = [&] { return std::string(planner) + " " + why + " | " + s.ToString(); };
  auto fail = [&](const std::string& w) { if (why.empty()) why = w; };

  for (auto& b : rec->bad) fail(b);
  ctx.CheckF(rec->bad.empty() && rec->depth == 0 && rec->ns == 0, "well_formed_calls", show);
  ctx.CheckF(rec->enters == int(s.regions.size() + s.tables.size()), "one_entry_per_region", show);

  // no two regions occupy the same column and row
  why.clear();
  auto start = rec->start;
  for (size_t i = 0; i < s.regions.size(); ++i)
    for (size_t j = i + 1; j < s.regions.size(); ++j) {
      if (!start.count(i) || !start.count(j)) continue;
      int a = start[i], b = start[j];
      if (a + s.regions[i].len <= b || b + s.regions[j].len <= a) continue;
      for (auto& c : s.regions[i].cols)
        if (s.regions[j].cols.count(c))
          fail("regions " + std::to_string(i) + " at " + std::to_string(a) + " and " +
               std::to_string(j) + " at " + std::to_string(b) + " share " + c.first + std::to_string(c.second));
    }
  ctx.CheckF(why.empty(), "regions_disjoint", show);

  // exactly the cells the script names, with its values
  why.clear();
  std::map<Pos, F> want;
  std::multiset<std::pair<Pos, Pos>> copies;
  std::set<std::pair<size_t, RowIndex>> sel;
  std::vector<std::pair<F, Pos>> constants;
  std::map<int, F> val;  // cell -> value
  auto at = [&](int cell) -> Pos {
    auto& c = s.cells[cell];
    return {c.type, c.col, RowIndex(start[c.region] + c.off)};
  };
  auto pair = [](Pos a, Pos b) { return std::make_pair(std::min(a, b), std::max(a, b)); };
  for (size_t r = 0; r < s.regions.size(); ++r) {
    auto& reg = s.regions[r];
    for (auto& o : reg.ops) {
      RowIndex row = start[r] + o.off;
      switch (o.kind) {
        case Op::kAdv: val[o.cell] = F(o.val); break;
        case Op::kFix: val[o.cell] = F(o.val); break;
        case Op::kSel: sel.insert({o.col, row}); break;
        case Op::kAdvConst:
          val[o.cell] = F(o.val);
          constants.push_back({F(o.val), at(o.cell)});
          break;
        case Op::kAdvInst:
          val[o.cell] = F(InstVal(o.row + 100 * o.b));
          copies.insert(pair(at(o.cell), {'i', o.b, RowIndex(o.row)}));
          break;
        case Op::kCopyFrom:
          val[o.cell] = val[o.a];
          copies.insert(pair(at(o.cell), at(o.a)));
          break;
        case Op::kConstrainConst: constants.push_back({F(o.val), at(o.a)}); break;
        case Op::kEqual: copies.insert(pair(at(o.a), at(o.b))); break;
      }
      if (o.cell >= 0) want[at(o.cell)] = val[o.cell];
    }
    if (reg.expose_cell >= 0)
      copies.insert(pair(at(reg.expose_cell), {'i', 0, RowIndex(reg.expose_row)}));
  }
  // constants: each in a constants column, in a cell of its own, outside every
  // region that uses that column, holding the value, copied to its cell
  std::set<Pos> const_cells;
  for (auto& p : rec->consts) {
    if (!const_cells.insert(p).second) fail("constant cell used twice " + Show(p));
    bool allowed = false;
    for (int c : s.consts) allowed |= c == std::get<1>(p);
    if (!allowed) fail("constant outside the constants columns " + Show(p));
    for (size_t r = 0; r < s.regions.size(); ++r)
      if (s.regions[r].cols.count({'f', std::get<1>(p)}) && start.count(r) &&
          (int)std::get<2>(p) >= start[r] && (int)std::get<2>(p) < start[r] + s.regions[r].len)
        fail("constant inside region " + std::to_string(r) + " " + Show(p));
  }
  ctx.CheckF(why.empty(), "constants_have_their_own_cells", show);
  why.clear();
  auto rest = rec->copies;
  std::multiset<std::pair<std::string, Pos>> got_const, want_const;
  for (auto& [v, p] : constants) want_const.insert({v.ToString(), p});
  for (auto it = rest.begin(); it != rest.end();) {
    Pos c = it->second, o = it->first;
    bool is = const_cells.count(c) || const_cells.count(o);
    if (is) {
      if (const_cells.count(o)) std::swap(c, o);
      got_const.insert({rec->values[c].ToString(), o});
      it = rest.erase(it);
    } else {
      ++it;
    }
  }
  ctx.CheckF(got_const == want_const, "constants_reach_their_cells", show);
  if (rest != copies) fail(std::to_string(rest.size()) + " copies, wanted " + std::to_string(copies.size()));
  ctx.CheckF(rest == copies, "copies_connect_named_cells", show);

  why.clear();
  for (size_t i = 0; i < s.tables.size(); ++i)
    for (size_t r = 0; r < s.tables[i].rows.size(); ++r)
      for (size_t j = 0; j < s.tables[i].cols.size(); ++j)
        want[{'f', s.fix + s.tables[i].cols[j], RowIndex(r)}] = F(s.tables[i].rows[r][j]);
  for (auto& p : rec->twice) fail("assigned twice " + Show(p));
  for (auto& [p, v] : rec->values) {
    if (const_cells.count(p)) continue;
    auto it = want.find(p);
    if (it == want.end()) fail("unrequested " + Show(p));
    else if (it->second != v) fail("wrong value at " + Show(p));
  }
  for (auto& [p, v] : want)
    if (!rec->values.count(p)) fail("missing " + Show(p));
  ctx.CheckF(why.empty(), "cells_land_at_start_plus_offset", show);
  ctx.CheckF(rec->sel == sel, "selectors_land_at_start_plus_offset", show);

  // lookup tables are filled to the end with their first row
  why.clear();
  std::map<size_t, std::pair<RowIndex, F>> fills;
  for (auto& f : rec->fills)
    if (!fills.insert({f.col, {f.row, f.v}}).second) fail("column filled twice");
  size_t ncols = 0;
  for (auto& t : s.tables)
    for (size_t j = 0; j < t.cols.size(); ++j) {
      ++ncols;
      auto it = fills.find(s.fix + t.cols[j]);
      if (it == fills.end()) fail("column never filled");
      else if (it->second.first != t.rows.size()) fail("filled from the wrong row");
      else if (it->second.second != F(t.rows[0][j])) fail("filled with the wrong value");
    }
  ctx.CheckF(why.empty() && fills.size() == ncols, "tables_filled_completely", show);

  // the layout doesn't depend on the witness
  why.clear();
  auto blank = Run<Planner>(false);
  ctx.CheckF(blank->start == rec->start && blank->copies == rec->copies && blank->sel == rec->sel &&
                 blank->consts == rec->consts,
             "layout_independent_of_witness", show);
  ctx.Count("regions", s.regions.size());
  ctx.Count("cells", want.size());
  ctx.Count("constants", constants.size());
  ctx.Count("copies", copies.size());
  ctx.Count("table_columns", ncols);
}

void Planners(vh::Ctx& ctx) {
  if (!ctx.Section("planners")) return;
  size_t total = ctx.N(2500, 40000);
  for (size_t i = 0; i < total && ctx.TimeLeft(); ++i) {
    bool v1 = i & 1;
    Script s = MakeScript(ctx.rng, v1);
    g_sp = &s;
    ctx.Case(std::string(v1 ? "v1 " : "simple ") + s.ToString());
    if (v1) CheckOne<pl::V1FloorPlanner<C>>(ctx, s, "v1");
    else CheckOne<pl::SimpleFloorPlanner<C>>(ctx, s, "simple");
    ctx.Distinct(vh::HashStr(s.ToString()));
    ctx.Count(v1 ? "v1" : "simple");
  }
  ctx.Require("constants", 100);
  ctx.Require("copies", 100);
  ctx.Require("table_columns", 100);
}

// The strategy by itself, on shapes no circuit of the size above reaches.
void FirstFit(vh::Ctx& ctx) {
  if (!ctx.Section("first_fit")) return;
  size_t total = ctx.N(1500, 20000);
  for (size_t i = 0; i < total && ctx.TimeLeft(); ++i) {
    int cols = 1 + ctx.rng.Below(5), n = 1 + ctx.rng.Below(30);
    std::vector<pl::RegionShape<F>> shapes;
    std::vector<std::set<int>> used;
    std::vector<int> len;
    std::string desc;
    for (int r = 0; r < n; ++r) {
      pl::RegionShape<F> sh(r);
      std::set<int> u;
      int h = ctx.rng.Chance(1, 6) ? 1 + ctx.rng.Below(1000) : 1 + ctx.rng.Below(6);
      for (int c = 0; c < cols; ++c)
        if (ctx.rng.Bool()) {
          u.insert(c);
          sh.AssignAdvice("", pl::AdviceColumnKey(c), ctx.rng.Below(h), {});
        }
      if (!u.empty()) sh.AssignAdvice("", pl::AdviceColumnKey(*u.begin()), h - 1, {});
      else h = 0;
      desc += std::to_string(u.size()) + "x" + std::to_string(h) + " ";
      shapes.push_back(sh);
      used.push_back(u);
      len.push_back(h);
    }
    ctx.Case(desc);
    auto res = pl::SlotInBiggestAdviceFirst(shapes);
    bool ok = res.region_starts.size() == (size_t)n;
    std::string why = ok ? "" : "number of starts";
    int total_len = 0;
    for (int l : len) total_len += l;
    for (int a = 0; a < n && ok; ++a) {
      if (used[a].empty()) continue;
      if ((int)res.region_starts[a] + len[a] > total_len) { ok = false; why = "taller than all regions stacked"; }
      for (int b = a + 1; b < n && ok; ++b) {
        bool share = false;
        for (int c : used[a]) share |= used[b].count(c) > 0;
        if (!share) continue;
        int x = res.region_starts[a], y = res.region_starts[b];
        if (x < y + len[b] && y < x + len[a]) { ok = false; why = std::to_string(a) + "/" + std::to_string(b); }
      }
    }
    ctx.CheckF(ok, "slots_disjoint", [&] { return why + " | " + desc; });
    // the allocations reported are the regions
    for (int c = 0; c < cols && ok; ++c) {
      auto it = res.column_allocations.find(pl::RegionColumn(pl::AnyColumnKey(pl::AdviceColumnKey(c))));
      std::multiset<std::pair<int, int>> want, got;
      for (int a = 0; a < n; ++a)
        if (used[a].count(c)) want.insert({res.region_starts[a], len[a]});
      if (it != res.column_allocations.end()) {
        for (auto& al : it->second.allocations()) got.insert({al.start(), al.length()});
        int end = 0;
        for (auto& [s, l] : want) end = std::max(end, s + l);
        ctx.CheckF((int)it->second.UnboundedIntervalStart() == end, "unbounded_start", [&] { return desc; });
        // free space is what no region covers
        int lo = ctx.rng.Below(end + 2), hi = lo + 1 + ctx.rng.Below(end + 2);
        std::vector<bool> freev(hi - lo, false);
        bool inside = true;
        for (auto& sp : it->second.FreeIntervals(lo, RowIndex(hi)))
          for (RowIndex q = sp.start(); q < (sp.end() ? *sp.end() : hi); ++q) {
            // an interval may reach past |hi| into the gap it intersects
            if ((int)q < lo) inside = false;
            else if ((int)q < hi) freev[q - lo] = true;
          }
        std::vector<bool> ref(hi - lo, true);
        for (auto& [s, l] : want)
          for (int q = s; q < s + l; ++q)
            if (q >= lo && q < hi) ref[q - lo] = false;
        ctx.CheckF(inside && freev == ref, "free_intervals", [&] { return desc; });
      }
      ctx.CheckF(want == got, "allocations_are_the_regions", [&] { return desc; });
    }
    ctx.Distinct(vh::HashStr(desc));
  }
}

// Rows beyond the usable ones are refused by the assignments of the key
// generator and the prover (they abort; each attempt runs in a child).
void Overflow(vh::Ctx& ctx) {
  if (!ctx.Section("overflow")) return;
  constexpr size_t kMax = 63;
  using Domain = math::UnivariateEvaluationDomain<F, kMax>;
  using Evals = math::UnivariateEvaluations<F, kMax>;
  using RatEvals = math::UnivariateEvaluations<Rat, kMax>;
  size_t total = ctx.N(48, 400);
  for (size_t i = 0; i < total && ctx.TimeLeft(); ++i) {
    int n = 8 << ctx.rng.Below(3);
    auto domain = math::Radix2EvaluationDomain<F, kMax>::Create(n);
    int usable = n - 3 - ctx.rng.Below(3);
    int row = i % 4 == 0 ? usable : i % 4 == 1 ? usable - 1 : i % 4 == 2 ? n - 1 : ctx.rng.Below(n + 4);
    int what = ctx.rng.Below(5);
    auto val = [] { return zk::Value<Rat>::Known(Rat(F(3))); };
    ctx.Case("op " + std::to_string(what) + " row " + std::to_string(row) + " usable " + std::to_string(usable));
    int rc = vh::InChild([&] {
      pl::AdviceColumnKey a(0);
      pl::FixedColumnKey f(0);
      if (what == 0) {
        absl::btree_map<size_t, F> ch;
        pl::halo2::WitnessCollection<Evals, RatEvals> w(domain.get(), 1, usable, pl::Phase(0), ch, {});
        w.AssignAdvice("", a, row, val);
        return;
      }
      std::vector<pl::AnyColumnKey> cols{a, f};
      pl::Assembly<RatEvals> as(std::vector<RatEvals>(1, domain->template Zero<RatEvals>()),
                                pl::PermutationAssembly(pl::PermutationArgument(std::move(cols)), n),
                                std::vector<std::vector<bool>>(1, std::vector<bool>(n, false)),
                                tachyon::base::Range<RowIndex>::Until(usable));
      if (what == 1) as.AssignFixed("", f, row, val);
      if (what == 2) {
        pl::ConstraintSystem<F> cs;
        as.EnableSelector("", cs.CreateSimpleSelector(), row);
      }
      if (what == 3) as.Copy(a, 0, f, row);
      if (what == 4) as.FillFromRow(f, row, Rat(F(5)));
    });
    ctx.CheckF((rc == 0) == (row < usable), row < usable ? "usable_row_accepted" : "unusable_row_refused",
               [&] { return "op " + std::to_string(what) + " row " + std::to_string(row) + " of " +
                            std::to_string(usable) + "/" + std::to_string(n) + " rc=" + std::to_string(rc); });
    ctx.Count(row < usable ? "accepted" : "refused");
  }
}

void vh_main(vh::Ctx& ctx) {
  F::Init();
  Planners(ctx);
  FirstFit(ctx);
  Overflow(ctx);
}
