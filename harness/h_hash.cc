// P14: Poseidon / Poseidon2 permutations, sponges, hashers and compressors
// against textbook definitions evaluated over integers.
#include <array>
#include <memory>
#include <vector>

#include "absl/container/inlined_vector.h"
#include "tachyon/base/strings/string_util.h"
#include "tachyon/crypto/hashes/prime_field_serializable.h"
#include "tachyon/crypto/hashes/sponge/padding_free_sponge.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon_params.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_params.h"
#include "tachyon/crypto/hashes/sponge/truncated_permutation.h"
#if VH_SET == 1
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_koala_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_mersenne31.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/baby_bear/internal/packed_baby_bear.h"
#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/internal/packed_mersenne31.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#else
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bn254.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_goldilocks.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_pallas.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_vesta.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#endif
#include "vh/hashes.h"

using namespace tachyon;
using namespace tachyon::crypto;
using vh::Ctx;
using vh::FV;
using vh::Mod;
using vh::Rng;
using vh::Det;
using vh::Lane;
using vh::Ref1;
using vh::Ref2;
using vh::RefSponge;
using vh::SZ;
using vh::Z;
using vh::ZV;

#if VH_SET == 1
// the repository only lists parameters for a capacity of one
namespace tachyon::crypto {
template <>
struct Poseidon2ParamsTraits<math::BabyBear, 14, 7> {
  constexpr static std::array<math::BabyBear, 16>
  GetPoseidon2InternalDiagonalArray() {
    return Poseidon2ParamsTraits<math::BabyBear, 15, 7>::
        GetPoseidon2InternalDiagonalArray();
  }
};
}  // namespace tachyon::crypto
#endif

namespace {

template <typename Sponge, typename Ref>
void Run(Ctx& c, const std::string& name, const Sponge& sponge, const Ref& ref,
         size_t scale) {
  using Params = typename Sponge::Params;
  using F = typename Params::Field;
  using L = Lane<F>;
  using PF = typename L::PF;
  constexpr size_t W = Params::kWidth;
  constexpr size_t R = Params::kRate;

  auto lanes = [](const SpongeState<Params>& s, size_t l) {
    ZV v;
    for (size_t i = 0; i < W; ++i) v.push_back(L::Get(s[i], l));
    return v;
  };
  auto check_state = [&](const SpongeState<Params>& s, const ZV& want, size_t l,
                         const char* mon, const std::string& in) {
    ZV got = lanes(s, l);
    c.CheckF(got == want, mon, [&] {
      return name + " lane " + std::to_string(l) + " input " + in + " got " +
             SZ(got) + " want " + SZ(want);
    });
    for (size_t i = 0; i < W; ++i)
      c.CheckF(L::Canonical(s[i]), "canonical", [&] { return name + in; });
  };

  if (c.Section(name + "/permute")) {
    size_t n = c.N(scale, scale * 20);
    for (size_t k = 0; k < n && c.TimeLeft(); ++k) {
      SpongeState<Params> st;
      unsigned kind = c.rng.Below(5);
      for (size_t i = 0; i < W; ++i) {
        st[i] = kind == 0 ? L::Make([](size_t) { return PF::Zero(); })
                : kind == 1
                    ? L::Make([&](size_t) { return FV<PF>::From(-1); })
                : kind == 2
                    ? L::Make([&](size_t) { return FV<PF>::From((unsigned long)i); })
                    : L::Any(c.rng);
        if (kind == 3) st[i] = i == k % W ? L::Any(c.rng) : st[i];
      }
      std::vector<ZV> in;
      for (size_t l = 0; l < L::kN; ++l) in.push_back(lanes(st, l));
      c.Case("permute " + SZ(in[0]).substr(0, 300));
      SpongeState<Params> st2 = st;
      sponge.Permute(st);
      sponge.Permute(st2);
      c.CheckF(st == st2, "permute_deterministic", [&] { return name; });
      for (size_t l = 0; l < L::kN; ++l) {
        ZV want = in[l];
        ref.Permute(want);
        check_state(st, want, l, "permute", SZ(in[l]));
        c.Distinct(vh::HashStr(SZ(in[l])));
      }
    }
  }

  if (c.Section(name + "/sponge")) {
    size_t n = c.N(scale / 2 + 2, scale * 10);
    for (size_t k = 0; k < n && c.TimeLeft(); ++k) {
      SpongeState<Params> st;
      std::vector<RefSponge<Ref>> rs(L::kN, RefSponge<Ref>(ref, R, W - R));
      size_t ops = 2 + c.rng.Below(6);
      std::string hist;
      for (size_t o = 0; o < ops; ++o) {
        size_t len = 1;
        switch (c.rng.Below(5)) {
          case 0: len = 1; break;
          case 1: len = R; break;
          case 2: len = 1 + c.rng.Below(R); break;
          case 3: len = R + 1; break;
          case 4: len = 1 + c.rng.Below(3 * R); break;
        }
        if (c.rng.Bool()) {
          hist += " A" + std::to_string(len);
          std::vector<F> v;
          for (size_t i = 0; i < len; ++i) v.push_back(L::Any(c.rng));
          c.Case(name + hist);
          unsigned how = c.rng.Below(2);
          if (how == 0) {
            c.Check(sponge.Absorb(st, absl::MakeConstSpan(v)), "absorb_ok", hist);
          } else {
            c.Check(sponge.Absorb(st, v), "absorb_ok", hist);
          }
          for (size_t l = 0; l < L::kN; ++l)
            for (const F& f : v) rs[l].Absorb(L::Get(f, l));
        } else {
          hist += " S" + std::to_string(len);
          c.Case(name + hist);
          std::vector<F> v = sponge.SqueezeNativeFieldElements(st, len);
          c.Eq(v.size(), len, "squeeze_len", [&] { return name + hist; });
          for (size_t l = 0; l < L::kN; ++l) {
            ZV got, want;
            for (const F& f : v) got.push_back(L::Get(f, l));
            for (size_t i = 0; i < len; ++i) want.push_back(rs[l].Squeeze());
            c.CheckF(got == want, "squeeze", [&] {
              return name + " history" + hist + " got " + SZ(got) + " want " +
                     SZ(want);
            });
          }
        }
        check_state(st, rs[0].s, 0, "sponge_state", hist);
        c.Eq(st.mode.type == DuplexSpongeMode::Type::kSqueezing, rs[0].squeezing,
             "sponge_mode", [&] { return name + hist; });
        c.Eq(st.mode.next_index, rs[0].pos, "sponge_index",
             [&] { return name + hist; });
      }
      c.Distinct(vh::HashStr(hist + SZ(rs[0].s)));
    }
  }

  if constexpr (!L::kPacked) {
    if (c.Section(name + "/bytes_bits")) {
      size_t n = c.N(scale / 2 + 2, scale * 10);
      size_t nb = (mpz_sizeinbase(ref.p.get_mpz_t(), 2) - 1) / 8;
      size_t nbits = mpz_sizeinbase(ref.p.get_mpz_t(), 2) - 1;
      for (size_t k = 0; k < n && c.TimeLeft(); ++k) {
        SpongeState<Params> st;
        std::vector<F> v;
        size_t len = 1 + c.rng.Below(2 * R);
        for (size_t i = 0; i < len; ++i) v.push_back(L::Any(c.rng));
        sponge.Absorb(st, v);
        SpongeState<Params> st2 = st, st3 = st;
        size_t want_n = c.rng.Below(nb * R * 2);
        c.Case("bytes " + std::to_string(want_n));
        auto bytes = sponge.SqueezeBytes(st2, want_n);
        auto els = sponge.SqueezeNativeFieldElements(st, (want_n + nb - 1) / nb);
        std::vector<uint8_t> want;
        for (const F& f : els)
          for (size_t b = 0; b < nb; ++b)
            want.push_back(
                mpz_class(mpz_class(FV<PF>::Z(f) >> (8 * b)) & 255).get_ui());
        want.resize(want_n);
        c.CheckF(std::vector<uint8_t>(bytes.begin(), bytes.end()) == want,
                 "squeeze_bytes", [&] {
                   return name + " n=" + std::to_string(want_n) + " got " +
                          std::to_string(bytes.size());
                 });
        size_t want_b = c.rng.Below(nbits * R * 2);
        c.Case("bits " + std::to_string(want_b));
        auto bits = sponge.SqueezeBits(st3, want_b);
        SpongeState<Params> st4;
        sponge.Absorb(st4, v);
        auto els2 =
            sponge.SqueezeNativeFieldElements(st4, (want_b + nbits - 1) / nbits);
        std::vector<bool> wb;
        for (const F& f : els2)
          for (size_t b = 0; b < nbits; ++b)
            wb.push_back(mpz_tstbit(FV<PF>::Z(f).get_mpz_t(), b));
        wb.resize(want_b);
        c.CheckF(bits == wb, "squeeze_bits", [&] {
          return name + " n=" + std::to_string(want_b);
        });
        c.Distinct(want_n * 131071 + want_b);
      }
    }
  }

  if constexpr (W >= 16) {
    if (c.Section(name + "/hasher")) {
      size_t n = c.N(scale / 2 + 2, scale * 10);
      PaddingFreeSponge<Sponge, 8, 8> h(sponge);
      PaddingFreeSponge<Sponge, 5, 3> h2(sponge);
      TruncatedPermutation<Sponge, 8, 2> tp(sponge);
      TruncatedPermutation<Sponge, 4, 3> tp2(sponge);
      for (size_t k = 0; k < n && c.TimeLeft(); ++k) {
        size_t len = c.rng.Chance(1, 8) ? 0 : c.rng.Below(30);
        std::vector<F> v;
        for (size_t i = 0; i < len; ++i) v.push_back(L::Any(c.rng));
        c.Case("hash len " + std::to_string(len));
        auto got = h.Hash(v);
        auto got_span = h.Hash(absl::MakeConstSpan(v));
        auto got2 = h2.Hash(v);
        c.CheckF(got == got_span, "hash_span", [&] { return name; });
        for (size_t l = 0; l < L::kN; ++l) {
          auto ref_hash = [&](size_t rate) {
            ZV s(W, 0);
            for (size_t i = 0; i < len; i += rate) {
              for (size_t j = 0; j < rate && i + j < len; ++j)
                s[j] = L::Get(v[i + j], l);
              ref.Permute(s);
            }
            return s;
          };
          ZV a = ref_hash(8), b = ref_hash(5);
          bool ok = true;
          for (size_t i = 0; i < 8; ++i) ok &= L::Get(got[i], l) == a[i];
          for (size_t i = 0; i < 3; ++i) ok &= L::Get(got2[i], l) == b[i];
          c.CheckF(ok, "hash", [&] {
            return name + " len " + std::to_string(len);
          });
        }
        std::array<std::array<F, 8>, 2> in;
        std::array<std::array<F, 4>, 3> in2;
        for (auto& x : in)
          for (auto& y : x) y = L::Any(c.rng);
        for (auto& x : in2)
          for (auto& y : x) y = L::Any(c.rng);
        c.Case("compress");
        auto ct = tp.Compress(in);
        auto ct2 = tp2.Compress(in2);
        for (size_t l = 0; l < L::kN; ++l) {
          ZV s(W, 0), s2(W, 0);
          for (size_t i = 0; i < 16; ++i) s[i] = L::Get(in[i / 8][i % 8], l);
          for (size_t i = 0; i < 12; ++i) s2[i] = L::Get(in2[i / 4][i % 4], l);
          ref.Permute(s);
          ref.Permute(s2);
          bool ok = ct.size() == 8 && ct2.size() == 4;
          for (size_t i = 0; i < 8; ++i) ok &= L::Get(ct[i], l) == s[i];
          for (size_t i = 0; i < 4; ++i) ok &= L::Get(ct2[i], l) == s2[i];
          c.CheckF(ok, "compress", [&] { return name; });
        }
        c.Distinct(len * 7919 + vh::HashStr(L::Get(in[0][0], 0).get_str()));
      }
    }
  }
}

template <typename Params>
void Poseidon1(Ctx& c, const std::string& name, size_t scale) {
  using F = typename Params::Field;
  for (size_t skip : {size_t{0}, size_t{1}}) {
    std::string nm = name + (skip ? "/skip1" : "");
    if (skip && Params::kWidth > 9) continue;
    c.Section(nm + "/config");
    auto config = PoseidonConfig<Params>::Create(skip);
    auto config2 = PoseidonConfig<Params>::Create(skip);
    c.CheckF(config.IsValid(), "config_valid", [&] { return nm; });
    c.CheckF(config == config2, "config_deterministic", [&] { return nm; });
    Ref1<Params> ref(skip);
    if constexpr (!Lane<F>::kPacked) {
      // MDS: every entry and invertible
      bool ok = true;
      for (size_t i = 0; i < Params::kWidth; ++i)
        for (size_t j = 0; j < Params::kWidth; ++j)
          ok &= FV<F>::Z(config.mds(i, j)) == ref.mds[i][j];
      c.CheckF(ok, "mds", [&] { return nm; });
      c.CheckF(Det(ref.mds, ref.p) != 0, "mds_invertible", [&] { return nm; });
      // sparse factors: Apply is the matrix Construct() returns
      for (size_t i = 0; i < config.sparse_mds_matrices.size(); i += 7) {
        math::Vector<F> v(Params::kWidth);
        for (F& f : v) f = FV<F>::Any(c.rng);
        ZV zv;
        for (F& f : v) zv.push_back(FV<F>::Z(f));
        auto m = config.sparse_mds_matrices[i].Construct();
        config.sparse_mds_matrices[i].Apply(v);
        bool eq = true;
        for (size_t a = 0; a < Params::kWidth; ++a) {
          Z s = 0;
          for (size_t b = 0; b < Params::kWidth; ++b)
            s += FV<F>::Z(m(a, b)) * zv[b];
          eq &= Mod(s, ref.p) == FV<F>::Z(v[a]);
        }
        c.CheckF(eq, "sparse_apply", [&] { return nm; });
      }
    }
    PoseidonSponge<Params> sponge(config);
    Run(c, nm, sponge, ref, scale);
  }
}

template <typename Params>
void P2(Ctx& c, const std::string& name, size_t scale) {
  using F = typename Params::Field;
  using PF = math::MaybeUnpack<F>;
  c.Section(name + "/config");
  Poseidon2Sponge<Params> sponge;
  Poseidon2Sponge<Params> sponge2(Poseidon2Config<Params>::CreateDefault());
  c.CheckF(sponge.config.IsValid(), "config_valid", [&] { return name; });
  c.CheckF(sponge == sponge2, "config_deterministic", [&] { return name; });
  Ref2<Params> ref;
  {
    // The linear layers are read back from the running code, by applying them
    // to unit vectors; both have to be invertible.
    constexpr size_t W = Params::kWidth;
    std::vector<ZV> e(W, ZV(W)), in(W, ZV(W));
    for (size_t j = 0; j < W; ++j) {
      math::Vector<F> v(W);
      for (size_t i = 0; i < W; ++i)
        v[i] = Lane<F>::Make([&](size_t) { return i == j ? PF::One() : PF::Zero(); });
      math::Vector<F> u = v;
      if constexpr (Params::kExternalMatrixVendor == Poseidon2Vendor::kHorizen) {
        Poseidon2ExternalMatrix<Poseidon2HorizenExternalMatrix<F>>::template Apply<W>(v);
      } else {
        Poseidon2ExternalMatrix<Poseidon2Plonky3ExternalMatrix<F>>::template Apply<W>(v);
      }
      if constexpr (PF::Config::kModulusBits <= 32 &&
                    Params::kInternalMatrixVendor == Poseidon2Vendor::kPlonky3) {
        if constexpr (Lane<F>::kPacked)
          Poseidon2Plonky3InternalMatrix<F>::Apply(u, sponge.config.internal_diagonal_minus_one);
        else
          Poseidon2Plonky3InternalMatrix<F>::Apply(u, sponge.config.internal_shifts);
      } else {
        Poseidon2HorizenInternalMatrix<F>::Apply(u, sponge.config.internal_diagonal_minus_one);
      }
      for (size_t i = 0; i < W; ++i) {
        e[i][j] = Lane<F>::Get(v[i], 0);
        in[i][j] = Lane<F>::Get(u[i], 0);
      }
    }
    c.CheckF(e == ref.ext, "external_matrix", [&] { return name; });
    c.CheckF(in == ref.in, "internal_matrix", [&] { return name; });
    c.CheckF(Det(e, ref.p) != 0, "external_invertible", [&] { return name; });
    c.CheckF(Det(in, ref.p) != 0, "internal_invertible", [&] {
      return name + ": two different states permute to the same state";
    });
    if constexpr (!Lane<F>::kPacked) {
      math::Matrix<F> m;
      if constexpr (Params::kExternalMatrixVendor == Poseidon2Vendor::kHorizen) {
        m = Poseidon2ExternalMatrix<Poseidon2HorizenExternalMatrix<F>>::template Construct<W>(W);
      } else {
        m = Poseidon2ExternalMatrix<Poseidon2Plonky3ExternalMatrix<F>>::template Construct<W>(W);
      }
      bool ok = (size_t)m.rows() == W && (size_t)m.cols() == W;
      for (size_t i = 0; ok && i < W; ++i)
        for (size_t j = 0; j < W; ++j) ok &= FV<PF>::Z(m(i, j)) == ref.ext[i][j];
      c.CheckF(ok, "external_construct", [&] { return name; });
    }
    c.Distinct(vh::HashStr(name));
  }
  Run(c, name, sponge, ref, scale);
}

template <typename PF, typename T>
void Serial(Ctx& c, const char* tname) {
  const Z p = FV<PF>::P();
  std::vector<T> vals = {0, 1, 2, 5, std::numeric_limits<T>::max(),
                         std::numeric_limits<T>::min()};
  for (int d = -2; d <= 2; ++d) {
    Z x = p + d;
    if (x >= 0 && x <= Z(std::to_string(std::numeric_limits<T>::max())))
      vals.push_back((T)x.get_ui());
    if (std::is_signed_v<T>) vals.push_back((T)d);
  }
  for (size_t i = 0; i < c.N(30, 1000); ++i)
    vals.push_back((T)(c.rng.U64() >> c.rng.Below(64)));
  for (T v : vals) {
    Z zv(std::to_string(v));
    bool in = zv >= 0 && zv < p;
    std::string s = std::string(tname) + " " + zv.get_str();
    c.Case(s);
    std::vector<PF> out = {PF::One()};
    bool ok = SerializeToFieldElements(v, &out);
    c.Eq(ok, in, "serialize_range", [&] { return s; });
    if (ok && in)
      c.CheckF(out.size() == 2 && FV<PF>::Z(out[1]) == zv && out[0].IsOne(),
               "serialize_value", [&] { return s; });
    c.Distinct(vh::HashStr(s));
  }
  std::vector<T> arr;
  for (size_t i = 0; i < 5; ++i) arr.push_back((T)c.rng.Below(6));
  std::vector<PF> a, b, d, e;
  absl::InlinedVector<T, 4> iv(arr.begin(), arr.end());
  std::array<T, 5> ar = {arr[0], arr[1], arr[2], arr[3], arr[4]};
  bool ok = SerializeToFieldElements(arr, &a) && SerializeToFieldElements(iv, &b) &&
            SerializeToFieldElements(ar, &d) &&
            SerializeBatchToFieldElements(absl::MakeConstSpan(arr), &e);
  ok = ok && a == b && a == d && a == e && a.size() == 5;
  for (size_t i = 0; ok && i < 5; ++i) ok = FV<PF>::Z(a[i]) == (unsigned long)arr[i];
  c.CheckF(ok, "serialize_containers", [&] { return std::string(tname); });
}

template <typename PF>
void SerialAll(Ctx& c, const std::string& name) {
  if (!c.Section(name + "/serialize")) return;
  Serial<PF, uint8_t>(c, "uint8");
  Serial<PF, int8_t>(c, "int8");
  Serial<PF, uint16_t>(c, "uint16");
  Serial<PF, int16_t>(c, "int16");
  Serial<PF, uint32_t>(c, "uint32");
  Serial<PF, int32_t>(c, "int32");
  Serial<PF, uint64_t>(c, "uint64");
  Serial<PF, int64_t>(c, "int64");
}

// Absorbing integers is absorbing the elements they denote.
template <typename Params>
void AbsorbInts(Ctx& c, const std::string& name) {
  using F = typename Params::Field;
  if (!c.Section(name + "/absorb_ints")) return;
  Poseidon2Sponge<Params> sponge;
  for (size_t k = 0; k < c.N(20); ++k) {
    SpongeState<Params> a, b;
    std::vector<uint8_t> bytes;
    std::vector<F> els;
    size_t len = 1 + c.rng.Below(3 * Params::kRate);
    for (size_t i = 0; i < len; ++i) {
      bytes.push_back(c.rng.Below(256));
      els.push_back(FV<F>::From((unsigned long)bytes.back()));
    }
    c.Check(sponge.Absorb(a, bytes), "absorb_ok", name);
    c.Check(sponge.Absorb(b, els), "absorb_ok", name);
    c.CheckF(a == b, "absorb_ints", [&] { return name; });
    auto s1 = sponge.SqueezeFieldElements(a, len);
    auto s2 = sponge.SqueezeNativeFieldElements(b, len);
    c.CheckF(s1 == s2, "squeeze_alias", [&] { return name; });
    c.Distinct(len * 977 + bytes[0]);
  }
}

constexpr auto H = Poseidon2Vendor::kHorizen;
constexpr auto K = Poseidon2Vendor::kPlonky3;

}  // namespace

void vh_main(Ctx& c) {
#if VH_SET == 1
  using math::BabyBear;
  using math::KoalaBear;
  using math::Mersenne31;
  BabyBear::Init();
  KoalaBear::Init();
  Mersenne31::Init();
  math::PackedBabyBear::Init();
  math::PackedKoalaBear::Init();
  math::PackedMersenne31::Init();
  P2<Poseidon2Params<H, H, BabyBear, 15, 7>>(c, "p2 babybear16 HH", 20);
  P2<Poseidon2Params<H, K, BabyBear, 15, 7>>(c, "p2 babybear16 HK", 20);
  P2<Poseidon2Params<K, K, BabyBear, 15, 7>>(c, "p2 babybear16 KK", 30);
  P2<Poseidon2Params<K, H, BabyBear, 15, 7>>(c, "p2 babybear16 KH", 20);
  P2<Poseidon2Params<H, H, BabyBear, 23, 7>>(c, "p2 babybear24 HH", 20);
  P2<Poseidon2Params<K, K, BabyBear, 23, 7>>(c, "p2 babybear24 KK", 20);
  P2<Poseidon2Params<K, K, KoalaBear, 15, 7>>(c, "p2 koalabear16 KK", 20);
  P2<Poseidon2Params<H, K, KoalaBear, 23, 7>>(c, "p2 koalabear24 HK", 20);
  P2<Poseidon2Params<K, K, Mersenne31, 15, 7>>(c, "p2 mersenne16 KK", 20);
  P2<Poseidon2Params<H, K, Mersenne31, 23, 7>>(c, "p2 mersenne24 HK", 20);
  P2<Poseidon2Params<K, K, math::PackedBabyBear, 15, 7>>(c, "p2 packed babybear16 KK", 6);
  P2<Poseidon2Params<H, H, math::PackedBabyBear, 15, 7>>(c, "p2 packed babybear16 HH", 4);
  P2<Poseidon2Params<H, K, math::PackedKoalaBear, 15, 7>>(c, "p2 packed koalabear16 HK", 4);
  P2<Poseidon2Params<K, K, math::PackedMersenne31, 15, 7>>(c, "p2 packed mersenne16 KK", 4);
  P2<Poseidon2Params<K, K, math::PackedMersenne31, 23, 7>>(c, "p2 packed mersenne24 KK", 4);
  P2<Poseidon2Params<H, H, BabyBear, 14, 7, 2>>(c, "p2 babybear16 capacity 2", 10);
  Poseidon1<BabyBearPoseidonParams16>(c, "p1 babybear16", 6);
  Poseidon1<BabyBearPoseidonParams24>(c, "p1 babybear24", 4);
  Poseidon1<PoseidonParams<BabyBear, 3, 7, 8, 22>>(c, "p1 babybear4", 20);
  Poseidon1<PoseidonParams<BabyBear, 3, 7, 8, 22, 2>>(c, "p1 babybear5 capacity 2", 10);
  Poseidon1<PoseidonParams<KoalaBear, 4, 3, 8, 20>>(c, "p1 koalabear5", 20);
  Poseidon1<PoseidonParams<Mersenne31, 7, 5, 8, 13>>(c, "p1 mersenne8", 10);
  Poseidon1<PoseidonParams<math::PackedBabyBear, 2, 17, 8, 31>>(c, "p1 packed babybear3", 6);
  AbsorbInts<Poseidon2Params<K, K, BabyBear, 15, 7>>(c, "p2 babybear16");
  SerialAll<BabyBear>(c, "babybear");
  SerialAll<Mersenne31>(c, "mersenne31");
#else
  using math::Goldilocks;
  using BnFr = math::bn254::Fr;
  using BlsFr = math::bls12_381::Fr;
  Goldilocks::Init();
  BnFr::Init();
  BlsFr::Init();
  math::pallas::Fr::Init();
  math::vesta::Fr::Init();
  math::GF7::Init();
  P2<Poseidon2Params<H, H, Goldilocks, 7, 7>>(c, "p2 goldilocks8 HH", 30);
  P2<Poseidon2Params<K, H, Goldilocks, 11, 7, 1, 8, 22>>(c, "p2 goldilocks12 KH", 20);
  P2<Poseidon2Params<H, K, Goldilocks, 15, 7>>(c, "p2 goldilocks16 HK", 20);
  P2<Poseidon2Params<H, H, Goldilocks, 19, 7, 1, 8, 22>>(c, "p2 goldilocks20 HH", 20);
  P2<Poseidon2Params<H, H, BnFr, 2, 5>>(c, "p2 bn254 3", 40);
  P2<Poseidon2Params<H, H, BlsFr, 1, 5>>(c, "p2 bls12_381 2", 40);
  P2<Poseidon2Params<H, H, BlsFr, 2, 5>>(c, "p2 bls12_381 3", 40);
  P2<Poseidon2Params<H, H, BlsFr, 3, 5>>(c, "p2 bls12_381 4", 40);
  P2<Poseidon2Params<K, H, BlsFr, 3, 5>>(c, "p2 bls12_381 4 K", 20);
  P2<Poseidon2Params<H, H, BlsFr, 7, 5>>(c, "p2 bls12_381 8", 20);
  P2<Poseidon2Params<H, H, math::pallas::Fr, 2, 5>>(c, "p2 pallas 3", 30);
  P2<Poseidon2Params<H, H, math::pallas::Fr, 3, 5>>(c, "p2 pallas 4", 30);
  P2<Poseidon2Params<H, H, math::pallas::Fr, 7, 5>>(c, "p2 pallas 8", 30);
  P2<Poseidon2Params<H, H, math::vesta::Fr, 2, 5>>(c, "p2 vesta 3", 30);
  if (c.Section("p2 bn254 3/known_answer")) {
    // reference vector of the Poseidon2 authors (HorizenLabs/poseidon2)
    Poseidon2Sponge<Poseidon2Params<H, H, BnFr, 2, 5>> sponge;
    SpongeState<Poseidon2Params<H, H, BnFr, 2, 5>> st;
    for (size_t i = 0; i < 3; ++i) st[i] = BnFr(i);
    sponge.Permute(st);
    const char* kWant[] = {
        "0bb61d24daca55eebcb1929a82650f328134334da98ea4f847f760054f4a3033",
        "303b6f7c86d043bfcbcc80214f26a30277a15d3f74ca654992defe7ff8d03570",
        "1ed25194542b12eef8617361c3ba7c52e660b145994427cc86296242cf766ec8"};
    for (size_t i = 0; i < 3; ++i)
      c.CheckF(FV<BnFr>::Z(st[i]) == Z(kWant[i], 16), "known_answer",
               [&] { return FV<BnFr>::S(st[i]); });
  }
  Poseidon1<BN254PoseidonParams5>(c, "p1 bn254 5", 10);
  Poseidon1<BN254PoseidonParams9>(c, "p1 bn254 9", 6);
  Poseidon1<PoseidonParams<BlsFr, 2, 17, 8, 31>>(c, "p1 bls12_381 3", 20);
  Poseidon1<PoseidonParams<Goldilocks, 7, 7, 8, 22>>(c, "p1 goldilocks8", 10);
  AbsorbInts<Poseidon2Params<H, H, BnFr, 2, 5>>(c, "p2 bn254 3");
  SerialAll<Goldilocks>(c, "goldilocks");
  SerialAll<BnFr>(c, "bn254");
  SerialAll<math::GF7>(c, "gf7");
#endif
  c.Require("permute");
  c.Require("squeeze");
}
