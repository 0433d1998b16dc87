// P16: Merkle commitments. Roots equal a recursive reference, every index opens
// to the committed rows, and no modified opening verifies.
#include <array>
#include <memory>
#include <vector>

#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/simple_binary_merkle_tree_storage.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/extension_field_merkle_tree_mmcs.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h"
#include "tachyon/crypto/hashes/sponge/padding_free_sponge.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_koala_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_params.h"
#include "tachyon/crypto/hashes/sponge/truncated_permutation.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/packed_baby_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h"
#include "vh/exts.h"
#include "vh/vh.h"

using namespace tachyon;
using vh::Ctx;
using vh::Mix;

namespace {

struct U64Hasher : crypto::BinaryMerkleHasher<uint64_t, uint64_t> {
  uint64_t ComputeLeafHash(const uint64_t& l) const override { return Mix(l ^ 0xabcdef); }
  uint64_t ComputeParentHash(const uint64_t& a, const uint64_t& b) const override {
    return Mix(Mix(a) * 3 + b);
  }
};

// storage that refuses accesses outside what was allocated
struct Storage : crypto::BinaryMerkleTreeStorage<uint64_t> {
  mutable std::vector<uint64_t> h;
  mutable std::vector<uint8_t> set;
  mutable size_t bad = 0;
  void Allocate(size_t n) override { h.assign(n, 0); set.assign(n, 0); }
  size_t GetSize() const override { return h.size(); }
  const uint64_t& GetHash(size_t i) const override {
    static uint64_t zero = 0;
    if (i >= h.size() || !set[i]) { ++bad; return zero; }
    return h[i];
  }
  void SetHash(size_t i, const uint64_t& v) override {
    if (i >= h.size()) { ++bad; return; }
    h[i] = v;
    set[i] = 1;
  }
};

void Binary(Ctx& c) {
  if (!c.Section("binary")) return;
  using Tree = crypto::BinaryMerkleTree<uint64_t, uint64_t, 4096>;
  U64Hasher hasher;
  for (size_t k = 0; k < c.N(160, 3000) && c.TimeLeft(); ++k) {
    size_t lg = k < 26 ? k / 2 : c.rng.Below(c.rng.Chance(1, 6) ? 13 : 8);
    size_t n = size_t{1} << lg;
    size_t par = size_t{1} << c.rng.Below(lg + 2);
    std::vector<uint64_t> leaves(n);
    bool dup = c.rng.Chance(1, 4);
    for (auto& l : leaves) l = dup ? c.rng.Below(3) : c.rng.U64();
    std::string d = "leaves " + std::to_string(n) + " par " + std::to_string(par) + (dup ? " dup" : "");
    c.Case(d);
    Storage st;
    Tree tree(&st, &hasher);
    if (k & 1) tree.set_leaves_size_for_parallelization(par);
    uint64_t root = 0;
    bool ok = tree.Commit(leaves, &root);
    std::vector<std::vector<uint64_t>> ref(1);
    for (auto l : leaves) ref[0].push_back(hasher.ComputeLeafHash(l));
    while (ref.back().size() > 1) {
      std::vector<uint64_t> nx;
      for (size_t i = 0; i < ref.back().size(); i += 2)
        nx.push_back(hasher.ComputeParentHash(ref.back()[i], ref.back()[i + 1]));
      ref.push_back(nx);
    }
    c.CheckF(ok && root == ref.back()[0], "binary_root", [&] { return d; });
    bool nodes = st.h.size() == 2 * n - 1;
    for (size_t i = 0; nodes && i < ref.size(); ++i)
      for (size_t j = 0; nodes && j < ref[i].size(); ++j)
        nodes = st.h[(ref[i].size() - 1) + j] == ref[i][j];
    c.CheckF(nodes, "binary_nodes", [&] { return d; });
    c.CheckF(st.bad == 0, "binary_storage_bounds", [&] { return d; });
    c.Distinct(vh::HashStr(d) ^ root);
    for (size_t q = 0; q < 6; ++q) {
      size_t idx = q == 0 ? 0 : q == 1 ? n - 1 : c.rng.Below(n);
      crypto::BinaryMerkleProof<uint64_t> proof;
      ok = tree.CreateOpeningProof(idx, &proof);
      bool same = ok && proof.paths.size() == lg;
      for (size_t i = 0; same && i < lg; ++i) {
        size_t v = idx >> i;
        same = proof.paths[i].hash == ref[i][v ^ 1] && proof.paths[i].left == bool(v & 1);
      }
      c.CheckF(same && st.bad == 0, "binary_proof", [&] { return d + " index " + std::to_string(idx); });
      uint64_t r = root, leaf = ref[0][idx];
      c.CheckF(tree.VerifyOpeningProof(r, leaf, proof), "binary_accepts", [&] { return d; });
      // every change is refused
      for (int m = 0; m < 6; ++m) {
        auto p2 = proof;
        uint64_t r2 = root, l2 = leaf;
        if (m == 0) l2 ^= uint64_t{1} << c.rng.Below(64);
        if (m == 1) r2 ^= uint64_t{1} << c.rng.Below(64);
        if (m >= 2 && lg == 0) continue;
        size_t at = c.rng.Below(lg ? lg : 1);
        if (m == 2) p2.paths[at].hash ^= uint64_t{1} << c.rng.Below(64);
        if (m == 3) {
          // equal children: the side does not matter
          uint64_t me = ref[at][idx >> at];
          if (me == p2.paths[at].hash) continue;
          p2.paths[at].left ^= true;
        }
        if (m == 4) p2.paths.pop_back();
        if (m == 5) p2.paths.push_back({c.rng.Bool(), c.rng.U64()});
        c.CheckF(!tree.VerifyOpeningProof(r2, l2, p2), "binary_rejects", [&] {
          return d + " index " + std::to_string(idx) + " mutation " + std::to_string(m);
        });
      }
    }
    c.Sample(d);
  }
  // refused sizes
  for (size_t n : {size_t{0}, size_t{3}, size_t{6}, size_t{1000}, size_t{8192}}) {
    Storage st;
    Tree tree(&st, &hasher);
    uint64_t root;
    std::vector<uint64_t> leaves(n, 7);
    c.Case("refused size " + std::to_string(n));
    c.CheckF(!tree.Commit(leaves, &root), "binary_refuses_size", [&] { return std::to_string(n); });
  }
}

template <typename F, typename EF, typename PF>
struct Types {
  static constexpr auto K = crypto::Poseidon2Vendor::kPlonky3;
  using P1 = crypto::Poseidon2Params<K, K, F, 15, 7>;
  using P2 = crypto::Poseidon2Params<K, K, PF, 15, 7>;
  using S1 = crypto::Poseidon2Sponge<P1>;
  using S2 = crypto::Poseidon2Sponge<P2>;
  using H1 = crypto::PaddingFreeSponge<S1, 8, 8>;
  using H2 = crypto::PaddingFreeSponge<S2, 8, 8>;
  using C1 = crypto::TruncatedPermutation<S1, 8, 2>;
  using C2 = crypto::TruncatedPermutation<S2, 8, 2>;
  using Base = crypto::FieldMerkleTreeMMCS<F, H1, H2, C1, C2, 8>;
  using Inner = crypto::FieldMerkleTreeMMCS<EF, H1, H2, C1, C2, 8>;
  using Ext = crypto::ExtensionFieldMerkleTreeMMCS<EF, Inner>;
};


template <typename T, typename F, typename Mmcs>
void Run(Ctx& c, const std::string& name, Mmcs& mmcs, size_t scale) {
  using H1 = typename T::H1;
  using C1 = typename T::C1;
  using ProverData = typename Mmcs::ProverData;
  using Digest = typename Mmcs::Commitment;
  using P = typename Digest::value_type;
  if (!c.Section(name)) return;
  H1 hasher;
  C1 comp;
  auto flat = [](const F& f, std::vector<P>& o) {
    if constexpr (std::is_same_v<F, P>) o.push_back(f);
    else for (size_t i = 0; i < 4; ++i) o.push_back(f[i]);
  };
  auto rnd = [&] {
    auto one = [&] {
      unsigned h = c.rng.Below(8);
      return h == 0 ? P::Zero() : h == 1 ? P(P::Config::kModulus - 1) : P((uint32_t)c.rng.Below(P::Config::kModulus));
    };
    if constexpr (std::is_same_v<F, P>) return one();
    else return F(one(), one(), one(), one());
  };
  for (size_t k = 0; k < c.N(scale, scale * 12) && c.TimeLeft(); ++k) {
    // heights: one per class of equal bit_ceil (what the tree asks for);
    // powers of two as in every prover, or any height of the class
    std::vector<math::RowMajorMatrix<F>> ms;
    size_t nm = 1 + c.rng.Below(5);
    size_t maxlg = c.rng.Below(7);
    bool ragged = c.rng.Chance(1, 2);
    std::vector<size_t> hs(maxlg + 1);
    for (size_t i = 0; i <= maxlg; ++i) {
      hs[i] = size_t{1} << i;
      if (ragged && i > 1) hs[i] -= c.rng.Below(hs[i] / 2);
    }
    std::string d;
    for (size_t i = 0; i < nm; ++i) {
      size_t h = hs[c.rng.Below(maxlg + 1)];
      size_t w = 1 + c.rng.Below(c.rng.Chance(1, 4) ? 20 : 5);
      math::RowMajorMatrix<F> m(h, w);
      for (size_t a = 0; a < h; ++a)
        for (size_t b = 0; b < w; ++b) m(a, b) = rnd();
      d += " " + std::to_string(h) + "x" + std::to_string(w);
      ms.push_back(m);
    }
    c.Case(name + d);
    size_t maxh = 0;
    for (auto& m : ms) maxh = std::max<size_t>(maxh, m.rows());
    std::vector<math::Dimensions> dims;
    for (auto& m : ms) dims.push_back({(size_t)m.cols(), (size_t)m.rows()});
    // reference
    auto ceil2 = [](size_t n) { size_t p = 1; while (p < n) p *= 2; return p; };
    std::vector<std::vector<Digest>> ref;
    auto rowhash = [&](size_t layer, size_t r, bool* any) {
      std::vector<P> in;
      *any = false;
      for (auto& m : ms)
        if (ceil2(m.rows()) == layer) {
          *any = true;
          if (r < (size_t)m.rows())
            for (Eigen::Index j = 0; j < m.cols(); ++j) flat(m(r, j), in);
        }
      Digest z;
      z.fill(P::Zero());
      return in.empty() ? z : hasher.Hash(in);
    };
    for (size_t layer = ceil2(maxh); layer >= 1; layer /= 2) {
      std::vector<Digest> cur;
      for (size_t r = 0; r < layer; ++r) {
        bool any;
        Digest in = rowhash(layer, r, &any);
        if (ref.empty()) {
          cur.push_back(in);
          continue;
        }
        Digest pr[2] = {ref.back()[2 * r], ref.back()[2 * r + 1]};
        Digest h = comp.Compress(pr);
        if (any) {
          Digest p2[2] = {h, in};
          h = comp.Compress(p2);
        }
        cur.push_back(h);
      }
      ref.push_back(cur);
    }
    Digest root;
    ProverData pd;
    bool ok;
    if (k % 2 == 0) {
      auto copy = ms;
      ok = mmcs.CommitOwned(std::move(copy), &root, &pd);
    } else {
      std::vector<Eigen::Map<const math::RowMajorMatrix<F>>> maps;
      for (auto& m : ms) maps.emplace_back(m.data(), m.rows(), m.cols());
      ok = mmcs.Commit(std::move(maps), &root, &pd);
    }
    c.CheckF(ok && root == ref.back()[0] && pd.GetRoot() == root, "mmcs_root", [&] { return name + d; });
    c.CheckF(pd.digest_layers() == ref, "mmcs_layers", [&] { return name + d; });
    c.Eq(mmcs.GetMaxRowSize(pd), maxh, "mmcs_max_rows", [&] { return name + d; });
    bool leaves = mmcs.GetMatrices(pd).size() == ms.size();
    for (size_t i = 0; leaves && i < ms.size(); ++i) leaves = mmcs.GetMatrices(pd)[i] == ms[i];
    c.CheckF(leaves, "mmcs_matrices", [&] { return name + d; });
    c.Distinct(vh::HashStr(d) ^ vh::HashBytes(&root, sizeof(root)));
    c.Sample(name + d);
    size_t lg = ref.size() - 1;
    for (size_t q = 0; q < 4; ++q) {
      size_t idx = q == 0 ? 0 : q == 1 ? maxh - 1 : c.rng.Below(maxh);
      // rows that every matrix has (a padding row can't be opened)
      auto has = [&] {
        for (auto& m : ms)
          if ((idx >> (lg - __builtin_ctzll(ceil2(m.rows())))) >= (size_t)m.rows()) return false;
        return true;
      };
      while (!has()) --idx;
      std::vector<std::vector<F>> op;
      std::vector<Digest> proof;
      ok = mmcs.CreateOpeningProof(idx, pd, &op, &proof);
      bool rows = ok && op.size() == ms.size();
      for (size_t i = 0; rows && i < ms.size(); ++i) {
        size_t r = idx >> (lg - __builtin_ctzll(ceil2(ms[i].rows())));
        rows = op[i].size() == (size_t)ms[i].cols();
        for (size_t j = 0; rows && j < op[i].size(); ++j) rows = op[i][j] == ms[i](r, j);
      }
      c.CheckF(rows, "mmcs_opens_rows", [&] { return name + d + " index " + std::to_string(idx); });
      bool sib = proof.size() == lg;
      for (size_t i = 0; sib && i < lg; ++i) sib = proof[i] == ref[i][(idx >> i) ^ 1];
      c.CheckF(sib, "mmcs_siblings", [&] { return name + d + " index " + std::to_string(idx); });
      c.CheckF(mmcs.VerifyOpeningProof(root, dims, idx, op, proof), "mmcs_accepts", [&] {
        return name + d + " index " + std::to_string(idx);
      });
      for (int m = 0; m < 14; ++m) {
        auto d2 = dims;
        auto o2 = op;
        auto p2 = proof;
        auto r2 = root;
        size_t i2 = idx;
        size_t a = c.rng.Below(nm), b = c.rng.Below(op[a].size());
        switch (m) {
          case 0: o2[a][b] += F::One(); break;
          case 1: {
            size_t e = c.rng.Below(op[a].size());
            if (op[a][b] == op[a][e]) continue;
            std::swap(o2[a][b], o2[a][e]);
            break;
          }
          case 2:  // same values, other row boundaries
            if (a + 1 >= nm || op[a].size() < 2) continue;
            o2[a + 1].insert(o2[a + 1].begin(), o2[a].back());
            o2[a].pop_back();
            break;
          case 3: o2[a].push_back(F::Zero()); break;
          case 4: o2[a].pop_back(); break;
          case 5:
            if (!lg) continue;
            i2 ^= size_t{1} << c.rng.Below(lg);
            // both subtrees may be equal
            {
              bool eq = true;
              for (size_t i = 0; i < lg; ++i)
                if (((i2 >> i) & 1) != ((idx >> i) & 1)) eq = eq && ref[i][idx >> i] == ref[i][(idx >> i) ^ 1];
              if (eq) continue;
            }
            break;
          case 6: i2 += size_t{1} << (lg + c.rng.Below(3)); break;
          case 7:
            if (!lg) continue;
            p2[c.rng.Below(lg)][c.rng.Below(8)] += P::One();
            break;
          case 8:
            if (!lg) continue;
            p2.pop_back();
            break;
          case 9: p2.push_back(root); break;
          case 10:
            if (std::all_of(o2[a].begin(), o2[a].end(), [](const F& x) { return x.IsZero(); })) continue;
            d2[a].height *= 2;
            break;
          case 11: d2[a].width += 1 + c.rng.Below(3); break;
          case 12: r2[c.rng.Below(8)] += P::One(); break;
          case 13:
            if (nm < 2) continue;
            // the padding-free sponge can't tell trailing zeros from absence
            if (std::all_of(o2[a].begin(), o2[a].end(), [](const F& x) { return x.IsZero(); })) continue;
            o2.erase(o2.begin() + a);
            d2.erase(d2.begin() + a);
            break;
        }
        c.CheckF(!mmcs.VerifyOpeningProof(r2, d2, i2, o2, p2), "mmcs_rejects", [&] {
          return name + d + " index " + std::to_string(idx) + " mutation " + std::to_string(m);
        });
        c.Count("openings altered");
      }
    }
  }
}

}  // namespace

void vh_main(Ctx& c) {
  math::BabyBear::Init();
  math::BabyBear4::Init();
  math::PackedBabyBear::Init();
  math::PackedBabyBear4::Init();
  math::KoalaBear::Init();
  math::KoalaBear4::Init();
  math::PackedKoalaBear::Init();
  math::PackedKoalaBear4::Init();
  Binary(c);
  using B = Types<math::BabyBear, math::BabyBear4, math::PackedBabyBear>;
  using K = Types<math::KoalaBear, math::KoalaBear4, math::PackedKoalaBear>;
  {
    typename B::Base m;
    Run<B, math::BabyBear>(c, "babybear", m, 90);
  }
  {
    typename B::Ext m{typename B::Inner()};
    Run<B, math::BabyBear4>(c, "babybear4", m, 50);
  }
  {
    typename K::Base m;
    Run<K, math::KoalaBear>(c, "koalabear", m, 50);
  }
  {
    typename K::Ext m{typename K::Inner()};
    Run<K, math::KoalaBear4>(c, "koalabear4", m, 25);
  }
}
