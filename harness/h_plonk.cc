// halo2 PLONK: completeness (mode p19), soundness (mode p20) and thread-count
// independence (mode p32) on random circuits.
#include "plonk_gen.h"

#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/random/xor_shift/xor_shift_rng.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/bn/bn254/halo2/bn254.h"
#include "tachyon/zk/base/commitments/gwc_extension.h"
#include "tachyon/zk/base/commitments/shplonk_extension.h"
#include "tachyon/zk/plonk/halo2/blake2b_transcript.h"
#include "tachyon/zk/plonk/halo2/constants.h"
#include "tachyon/zk/plonk/halo2/prover.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/plonk/halo2/pinned_constraint_system.h"
#include "tachyon/zk/plonk/halo2/pinned_verifying_key.h"
#include "tachyon/zk/plonk/halo2/proving_scheme.h"
#include "tachyon/zk/plonk/halo2/verifier.h"
#include "tachyon/zk/plonk/keys/proving_key.h"
#ifdef _OPENMP
#include <omp.h>
#endif

using namespace vhp;
namespace h2 = tachyon::zk::plonk::halo2;
namespace math = tachyon::math;
using Curve = math::bn254::BN254Curve;
using G1 = math::bn254::G1AffinePoint;
constexpr size_t kMaxDeg = (1 << 7) - 1, kMaxExt = (1 << 11) - 1;

#if VH_SET == 1
#define SHP 1
constexpr auto kVendor = h2::Vendor::kScroll;
constexpr auto kLookup = lk::Type::kHalo2;
#elif VH_SET == 2
#define SHP 0
constexpr auto kVendor = h2::Vendor::kScroll;
constexpr auto kLookup = lk::Type::kLogDerivativeHalo2;
#elif VH_SET == 3
#define SHP 0
constexpr auto kVendor = h2::Vendor::kPSE;
constexpr auto kLookup = lk::Type::kHalo2;
#else
#define SHP 1
constexpr auto kVendor = h2::Vendor::kPSE;
constexpr auto kLookup = lk::Type::kLogDerivativeHalo2;
#endif
#if SHP
using PCS = zk::SHPlonkExtension<Curve, kMaxDeg, kMaxExt, G1>;
#else
using PCS = zk::GWCExtension<Curve, kMaxDeg, kMaxExt, G1>;
#endif
using PS = h2::ProvingScheme<kVendor, kLookup, PCS>;
using F = PCS::Field;
using Evals = PCS::Evals;
using Domain = PCS::Domain;
using VKey = pl::VerifyingKey<F, G1>;
using Circ = RandomCircuit<F>;
constexpr bool kLogD = kLookup == lk::Type::kLogDerivativeHalo2;

class RecWriter : public h2::Blake2bWriter<G1> {
 public:
  RecWriter(tachyon::base::Uint8VectorBuffer b, std::vector<std::pair<bool, size_t>>* items)
      : h2::Blake2bWriter<G1>(std::move(b)), items_(items) {}

 private:
  bool DoWriteToProof(const G1& p) override {
    items_->push_back({true, this->buffer_.buffer_offset()});
    return h2::ProofSerializer<G1>::WriteToProof(p, this->buffer_);
  }
  bool DoWriteToProof(const F& s) override {
    items_->push_back({false, this->buffer_.buffer_offset()});
    return h2::ProofSerializer<F>::WriteToProof(s, this->buffer_);
  }
  std::vector<std::pair<bool, size_t>>* items_;
};

F g_tau(2);

PCS MakePcs(size_t n) {
  PCS pcs;
  CHECK(pcs.UnsafeSetup(n, g_tau));
  return pcs;
}

struct Proved {
  std::vector<uint8_t> proof;
  std::vector<std::pair<bool, size_t>> items;
  std::string vkey_repr;
  std::vector<std::optional<F>> chal;
};

std::vector<std::vector<Evals>> ToEvals(const std::vector<std::vector<std::vector<F>>>& insts) {
  std::vector<std::vector<Evals>> out;
  for (auto& cols : insts) {
    std::vector<Evals> v;
    for (auto& c : cols) v.push_back(Evals(std::vector<F>(c)));
    out.push_back(std::move(v));
  }
  return out;
}

Proved Prove(const Spec<F>& sp, const std::vector<Witness<F>>& ws) {
  Proved out;
  CurrentSpec<F>() = &sp;
  auto writer = std::make_unique<RecWriter>(tachyon::base::Uint8VectorBuffer(), &out.items);
  auto rng = std::make_unique<tachyon::crypto::XORShiftRNG>();
  CHECK(rng->SetSeed(h2::kXORShiftSeed));
  auto prover = h2::Prover<PS>::Create(MakePcs(sp.n), std::move(writer), std::move(rng), 0);
  prover.set_domain(Domain::Create(sp.n));
  std::vector<Circ> circuits;
  std::vector<std::vector<std::vector<F>>> insts;
  for (auto& w : ws) {
    circuits.push_back(Circ(&w));
    insts.push_back(w.inst);
  }
  pl::ProvingKey<PS> pkey;
  CHECK(pkey.Load(&prover, circuits[0]));
  out.vkey_repr = pkey.verifying_key().transcript_repr().ToHexString();
  prover.CreateProof(pkey, ToEvals(insts), circuits);
  out.chal = SeenChallenges<F>();
  out.proof = prover.GetWriter()->buffer().owned_buffer();
  out.proof.resize(prover.GetWriter()->buffer().buffer_offset());
  return out;
}

struct V {
  std::unique_ptr<h2::Verifier<PS>> verifier;
  VKey vkey;
};
// `sp` decides the verifying key
bool Verify(const Spec<F>& sp, const std::vector<uint8_t>& proof,
            const std::vector<std::vector<std::vector<F>>>& insts, std::string* repr = nullptr) {
  CurrentSpec<F>() = &sp;
  std::vector<uint8_t> copy = proof;
  auto reader = std::make_unique<h2::Blake2bReader<G1>>(
      tachyon::base::ReadOnlyBuffer(copy.data(), copy.size()));
  h2::Verifier<PS> verifier(MakePcs(sp.n), std::move(reader));
  verifier.set_domain(Domain::Create(sp.n));
  VKey vkey;
  Circ circuit;
  CHECK(vkey.Load(&verifier, circuit, kLookup));
  if (repr) *repr = vkey.transcript_repr().ToHexString();
  return verifier.VerifyProof(vkey, ToEvals(insts));
}

struct Case {
  Spec<F> sp;
  int usable = 0;
  std::map<int, int> start;
  std::vector<Witness<F>> ws;
  std::vector<std::vector<std::vector<F>>> Insts() const {
    std::vector<std::vector<std::vector<F>>> v;
    for (auto& w : ws) v.push_back(w.inst);
    return v;
  }
};

int Usable(const Spec<F>& sp) {
  CurrentSpec<F>() = &sp;
  pl::ConstraintSystem<F> cs;
  cs.set_lookup_type(kLookup);
  Circ::Configure(cs);
  if (kLogD) cs.ChunkLookups();
  return sp.n - (int)cs.ComputeBlindingFactors() - 1;
}

// Without a single advice query nothing in the proof depends on the prover's
// secrets or on the challenges: a commitment nobody opens may be anything.
bool QueriesAdvice(const Spec<F>& sp) {
  CurrentSpec<F>() = &sp;
  pl::ConstraintSystem<F> cs;
  cs.set_lookup_type(kLookup);
  Circ::Configure(cs);
  return !cs.advice_queries().empty();
}

std::unique_ptr<Recorder<F>> Record(const Spec<F>& sp, int usable, const Witness<F>* w,
                                    const std::vector<std::optional<F>>& chal) {
  CurrentSpec<F>() = &sp;
  pl::ConstraintSystem<F> cs;
  cs.set_lookup_type(kLookup);
  auto cfg = Circ::Configure(cs);
  auto rec = std::make_unique<Recorder<F>>(sp, usable, w ? &w->inst : nullptr, chal);
  Circ circuit = w ? Circ(w) : Circ();
  Circ::FloorPlanner planner;
  planner.Synthesize(rec.get(), circuit, std::move(cfg), cs.constants());
  return rec;
}

Witness<F> MakeWitness(vh::Rng& rng, const Case& c) {
  Witness<F> w;
  w.seed = rng.U64();
  for (auto& [r, s] : c.start) {
    if ((int)w.start.size() <= r) w.start.resize(r + 1, 0);
    w.start[r] = s;
  }
  w.start.resize(c.sp.regions.size(), 0);
  if (c.sp.num_inst) {
    std::vector<F> in;
    for (int i = 0; i < c.sp.in_rows; ++i) in.push_back(RandF<F>(rng));
    w.inst.push_back(in);
    if (c.sp.num_inst == 2) {
      w.inst.push_back(std::vector<F>(c.sp.out_rows, F::Zero()));
      auto vals = Compute(c.sp, w, std::vector<std::optional<F>>(c.sp.num_chal));
      for (size_t r = 0; r < c.sp.regions.size(); ++r)
        for (auto& e : c.sp.regions[r].expose) w.inst[1][e[2]] = vals.at({(int)r, e[0], e[1]});
    }
  }
  return w;
}

int JudgeAll(const Case& c, const std::vector<std::optional<F>>& chal) {
  int bad = 0;
  for (auto& w : c.ws) {
    auto rec = Record(c.sp, c.usable, &w, chal);
    bad |= Judge(c.sp, *rec, w.inst, chal, c.usable);
  }
  return bad;
}

std::vector<std::optional<F>> RandChal(vh::Rng& rng, int k) {
  std::vector<std::optional<F>> v;
  for (int i = 0; i < k; ++i) v.push_back(F(rng.U64() >> 1) * F(rng.U64() >> 1));
  return v;
}

// a random case with a witness that satisfies it
bool MakeCase(vh::Ctx& ctx, vh::Rng& rng, int features, Case* out) {
  for (int attempt = 0; attempt < 20; ++attempt) {
    Case c;
    uint64_t s = rng.U64();
    bool fit = false;
    for (int n : {16, 32, 64, 128}) {
      vh::Rng g(s);
      Gen<F> gen(g);
      c.sp = gen.Make(kLogD, n, features);
      c.usable = Usable(c.sp);
      if (c.usable < 1 || c.usable < c.sp.in_rows || c.usable < c.sp.out_rows) continue;
      auto rec = Record(c.sp, c.usable, nullptr, {});
      if (rec->bad.empty()) {
        c.start = rec->start;
        fit = true;
        break;
      }
    }
    if (!fit) continue;
    size_t k = rng.Chance(1, 2) ? 1 : 1 + rng.Below(3);
    for (size_t i = 0; i < k; ++i) c.ws.push_back(MakeWitness(rng, c));
    int bad = JudgeAll(c, RandChal(rng, c.sp.num_chal));
    if (bad) {
      ctx.Count(bad & kLookupBad ? "discarded_lookup" : "discarded_other");
      continue;
    }
    *out = std::move(c);
    return true;
  }
  return false;
}

const char* Feat(int f) {
  return f & 1 ? (f & 2 ? "lookup+shuffle" : "lookup") : f & 2 ? "shuffle" : "gates";
}

int Features(vh::Rng& rng, size_t i) {
  static const int fixed[] = {8 | 16, 1, 2, 4, 31, 1 | 8, 0, 16};
  if (i < 8) return fixed[i];
  return rng.Below(32);
}

void Completeness(vh::Ctx& ctx) {
  if (!ctx.Section("complete")) return;
  size_t total = ctx.N(24, 400);
  for (size_t i = 0; i < total && ctx.TimeLeft(); ++i) {
    int feat = Features(ctx.rng, i);
    Case c;
    if (!MakeCase(ctx, ctx.rng, feat, &c)) { ctx.Count("no_case"); continue; }
    ctx.Case(std::to_string(i) + " " + c.sp.ToString());
    auto show = [&] { return c.sp.ToString() + " circuits=" + std::to_string(c.ws.size()); };
    Proved p = Prove(c.sp, c.ws);
    // challenges the prover used
    ctx.CheckF(JudgeAll(c, p.chal) == 0, "reference_agrees", show);
    std::string repr;
    bool ok = Verify(c.sp, p.proof, c.Insts(), &repr);
    ctx.CheckF(ok, "satisfying_verifies", show);
    ctx.CheckF(repr == p.vkey_repr, "witness_independent_key", show);
    if (i % 4 == 0) {
      Proved p2 = Prove(c.sp, c.ws);
      ctx.CheckF(p2.proof == p.proof, "proof_reproducible", show);
    }
    ctx.Distinct(vh::HashStr(c.sp.ToString()));
    ctx.Count(std::string("proved_") + Feat(feat));
    ctx.Count(c.sp.v1 ? "planner_v1" : "planner_simple");
    if (c.sp.num_chal) ctx.Count("two_phase");
    if (c.ws.size() > 1) ctx.Count("multi_circuit");
    ctx.Sample("n=" + std::to_string(c.sp.n));
  }
  ctx.Require("proved_lookup", 1);
  ctx.Require("proved_shuffle", 1);
  ctx.Require("two_phase", 1);
  ctx.Require("multi_circuit", 1);
}

void Soundness(vh::Ctx& ctx) {
  if (ctx.Section("witness")) {
    size_t total = ctx.N(20, 300);
    for (size_t i = 0; i < total && ctx.TimeLeft(); ++i) {
      int feat = Features(ctx.rng, i);
      Case c;
      if (!MakeCase(ctx, ctx.rng, feat, &c)) { ctx.Count("no_case"); continue; }
      // change cells of one circuit
      Case m;
      int bad = 0;
      for (int attempt = 0; attempt < 12; ++attempt) {
        m = c;
        Witness<F>& w = m.ws[ctx.rng.Below(m.ws.size())];
        std::vector<std::array<int, 3>> keys;
        for (size_t r = 0; r < m.sp.regions.size(); ++r)
          for (auto& cell : m.sp.regions[r].cells)
            if (!cell.fixed) keys.push_back({(int)r, cell.col, cell.off});
        if (keys.empty()) break;
        if (m.sp.num_inst && ctx.rng.Chance(1, 4)) {
          auto& col = w.inst[ctx.rng.Below(m.sp.num_inst)];
          // the public input itself: the cells copied from it follow, what is
          // computed from it follows, the exposed outputs don't
          col[ctx.rng.Below(col.size())] += F::One();
        } else {
          for (int k = 1 + ctx.rng.Below(2); k > 0; --k)
            w.over[ctx.rng.Pick(keys)] = ctx.rng.Bool() ? F::One() : RandF<F>(ctx.rng) + F(7);
        }
        bad = JudgeAll(m, RandChal(ctx.rng, m.sp.num_chal));
        if (bad & kLookupBad) continue;  // the prover refuses (CHECK) by design
        if (bad) break;
      }
      if (bad & kLookupBad) { ctx.Count("only_lookup_mutants"); continue; }
      ctx.Case(std::to_string(i) + " " + m.sp.ToString());
      auto show = [&] {
        std::string s = m.sp.ToString() + " bad=" + std::to_string(bad);
        for (auto& w : m.ws)
          for (auto& [k, d] : w.over)
            s += " over(" + std::to_string(k[0]) + "," + std::to_string(k[1]) + "," + std::to_string(k[2]) + ")";
        return s;
      };
      Proved p = Prove(m.sp, m.ws);
      bad = JudgeAll(m, p.chal);
      bool ok = Verify(m.sp, p.proof, m.Insts());
      ctx.CheckF(ok == (bad == 0), bad ? "violating_rejected" : "still_satisfying_verifies", show);
      if (bad & kGateBad) ctx.Count("bad_gate");
      if (bad == kCopyBad) ctx.Count("bad_copy_only");
      if (bad == kShuffleBad) ctx.Count("bad_shuffle_only");
      if (!bad) ctx.Count("unconstrained");
      ctx.Distinct(vh::HashStr(show()));
    }
    ctx.Require("bad_gate", 1);
    ctx.Require("bad_copy_only", 1);
    ctx.Require("bad_shuffle_only", 1);
  }
  if (ctx.Section("tamper")) {
    size_t total = ctx.N(7, 60);
    for (size_t i = 0; i < total && ctx.TimeLeft(); ++i) {
      int feat = Features(ctx.rng, i + 3);
      Case c;
      if (!MakeCase(ctx, ctx.rng, feat, &c)) { ctx.Count("no_case"); continue; }
      if (!QueriesAdvice(c.sp)) { ctx.Count("nothing_queried"); continue; }
      ctx.Case(std::to_string(i) + " " + c.sp.ToString());
      Proved p = Prove(c.sp, c.ws);
      bool ok = Verify(c.sp, p.proof, c.Insts());
      ctx.CheckF(ok, "honest_verifies", [&] { return c.sp.ToString(); });
      if (!ok) continue;
      ctx.CheckF(p.items.size() * 32 == p.proof.size(), "items_cover_proof",
                 [&] { return c.sp.ToString(); });
      // every kind of item, first and last always among them
      std::vector<size_t> which;
      for (size_t k = 0; k < p.items.size(); ++k) which.push_back(k);
      for (size_t k = which.size(); k > 1; --k) std::swap(which[k - 1], which[ctx.rng.Below(k)]);
      size_t cap = ctx.thorough ? which.size() : std::min<size_t>(which.size(), 10);
      which.resize(cap);
      which.push_back(p.items.size() - 1);
      which.push_back(p.items.size() - 2);
      for (size_t k : which) {
        const bool point = p.items[k].first;
        const size_t off = p.items[k].second;
        std::vector<uint8_t> q = p.proof;
        size_t other = p.items.size();
        int how = ctx.rng.Below(3);
        tachyon::base::Uint8VectorBuffer buf;
        if (how == 0) {
          // another item of the same kind
          for (int t = 0; t < 8; ++t) {
            size_t o = ctx.rng.Below(p.items.size());
            if (p.items[o].first == point &&
                memcmp(&q[p.items[o].second], &q[off], 32) != 0) { other = o; break; }
          }
        }
        if (other < p.items.size()) {
          memcpy(&q[off], &p.proof[p.items[other].second], 32);
        } else if (point) {
          G1 g;
          if (how == 1) {
            tachyon::base::ReadOnlyBuffer rb(&p.proof[off], 32);
            CHECK(h2::ProofSerializer<G1>::ReadFromProof(rb, &g));
            g = g.IsZero() ? G1::Generator() : -g;
          } else {
            g = (G1::Generator() * F(1 + ctx.rng.Below(1u << 30))).ToAffine();
          }
          CHECK(h2::ProofSerializer<G1>::WriteToProof(g, buf));
          memcpy(&q[off], buf.buffer(), 32);
        } else {
          F s;
          tachyon::base::ReadOnlyBuffer rb(&p.proof[off], 32);
          CHECK(h2::ProofSerializer<F>::ReadFromProof(rb, &s));
          s += how == 1 ? F::One() : RandF<F>(ctx.rng);
          CHECK(h2::ProofSerializer<F>::WriteToProof(s, buf));
          memcpy(&q[off], buf.buffer(), 32);
        }
        if (q == p.proof) { ctx.Count("same_value"); continue; }
        bool acc = Verify(c.sp, q, c.Insts());
        ctx.CheckF(!acc, "tampered_proof_rejected", [&] {
          return "item " + std::to_string(k) + "/" + std::to_string(p.items.size()) +
                 (point ? " point" : " scalar") + " how=" + std::to_string(how) + " " + c.sp.ToString();
        });
        ctx.Count(point ? "tampered_points" : "tampered_scalars");
      }
      // any bit of any byte
      for (size_t t = ctx.thorough ? 60 : 12; t > 0; --t) {
        std::vector<uint8_t> q = p.proof;
        size_t bit = ctx.rng.Below(q.size() * 8);
        if (t % 3 == 0) bit |= 0xf8;  // the last byte of an item: flags, carries
        bit = std::min(bit, q.size() * 8 - 1);
        q[bit / 8] ^= 1 << (bit % 8);
        ctx.CheckF(!Verify(c.sp, q, c.Insts()), "flipped_bit_rejected",
                   [&] { return "bit " + std::to_string(bit) + " " + c.sp.ToString(); });
      }
      // the same scalar written as value + modulus
      for (size_t k = 0, done = 0; k < p.items.size() && done < 2; ++k) {
        auto [point, off] = p.items[p.items.size() - 1 - k];
        if (point) continue;
        using Big = F::BigIntTy;
        Big v;
        memcpy(v.limbs, &p.proof[off], 32);
        uint64_t carry = 0;
        v.AddInPlace(F::Config::kModulus, carry);
        if (carry) continue;
        std::vector<uint8_t> q = p.proof;
        memcpy(&q[off], v.limbs, 32);
        ctx.CheckF(!Verify(c.sp, q, c.Insts()), "non_canonical_scalar_rejected",
                   [&] { return "item " + std::to_string(k) + " " + c.sp.ToString(); });
        ++done;
      }
      for (size_t t = 0; t < 6; ++t) {
        std::vector<uint8_t> q = p.proof;
        q.resize(t == 0 ? 0 : t == 1 ? q.size() - 1 : t == 2 ? q.size() - 32 : ctx.rng.Below(q.size()));
        ctx.CheckF(!Verify(c.sp, q, c.Insts()), "truncated_proof_rejected",
                   [&] { return std::to_string(q.size()) + " bytes " + c.sp.ToString(); });
      }
      {
        auto more = c.Insts();
        more.push_back(more[0]);
        ctx.CheckF(!Verify(c.sp, p.proof, more), "more_instances_rejected", [&] { return c.sp.ToString(); });
        auto fewer = c.Insts();
        fewer.pop_back();
        if (!fewer.empty())
          ctx.CheckF(!Verify(c.sp, p.proof, fewer), "fewer_instances_rejected", [&] { return c.sp.ToString(); });
      }
      // other public inputs
      auto insts = c.Insts();
      for (size_t a = 0; a < insts.size(); ++a)
        for (size_t b = 0; b < insts[a].size(); ++b) {
          if (insts[a][b].empty()) continue;
          auto t = insts;
          t[a][b][ctx.rng.Below(t[a][b].size())] += F::One();
          bool acc = Verify(c.sp, p.proof, t);
          ctx.CheckF(!acc, "other_instance_rejected", [&] { return c.sp.ToString(); });
        }
      if (insts.size() > 1 && insts[0] != insts[1]) {
        auto t = insts;
        std::swap(t[0], t[1]);
        ctx.CheckF(!Verify(c.sp, p.proof, t), "swapped_instances_rejected",
                   [&] { return c.sp.ToString(); });
      }
      if (!insts.empty() && !insts[0].empty()) {
        auto t = insts;
        t[0].pop_back();
        ctx.CheckF(!Verify(c.sp, p.proof, t), "missing_instance_column_rejected",
                   [&] { return c.sp.ToString(); });
      }
      // another circuit's key: one fixed value / selector / copy differs
      Spec<F> o = c.sp;
      bool changed = false;
      for (auto& reg : o.regions) {
        for (auto& cell : reg.cells)
          if (!changed && cell.fixed) { cell.c += F::One(); changed = true; }
        if (!changed && !reg.enables.empty()) { reg.enables.pop_back(); changed = true; }
      }
      if (changed) {
        std::string repr;
        bool acc = Verify(o, p.proof, c.Insts(), &repr);
        ctx.CheckF(!acc, "other_key_rejected", [&] { return c.sp.ToString(); });
        ctx.CheckF(repr != p.vkey_repr, "other_circuit_other_key", [&] { return c.sp.ToString(); });
      }
    }
    ctx.Require("tampered_points", 4);
    ctx.Require("tampered_scalars", 4);
  }
}

void Threads(vh::Ctx& ctx) {
#ifdef _OPENMP
  if (!ctx.Section("threads")) return;
  size_t total = ctx.N(5, 40);
  for (size_t i = 0; i < total && ctx.TimeLeft(); ++i) {
    int feat = Features(ctx.rng, i == 0 ? 4 : i + 4);
    Case c;
    if (!MakeCase(ctx, ctx.rng, feat, &c)) { ctx.Count("no_case"); continue; }
    ctx.Case(std::to_string(i) + " " + c.sp.ToString());
    std::vector<uint8_t> first;
    for (int t : {1, 2, 3, 5, 8}) {
      omp_set_num_threads(t);
      Proved p = Prove(c.sp, c.ws);
      bool ok = Verify(c.sp, p.proof, c.Insts());
      ctx.CheckF(ok, "verifies_at_any_thread_count",
                 [&] { return std::to_string(t) + " threads: " + c.sp.ToString(); });
      if (t == 1) first = p.proof;
      ctx.CheckF(p.proof == first, "same_proof_at_any_thread_count",
                 [&] { return std::to_string(t) + " threads: " + c.sp.ToString(); });
    }
    ctx.Distinct(vh::HashStr(c.sp.ToString()));
  }
#else
  (void)ctx;
#endif
}

void vh_main(vh::Ctx& ctx) {
  Curve::Init();
  math::halo2::OverrideSubgroupGenerator();
  if (ctx.mode == "p20") Soundness(ctx);
  else if (ctx.mode == "p32") Threads(ctx);
  else Completeness(ctx);
}
