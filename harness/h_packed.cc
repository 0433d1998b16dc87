// P06: packed (SIMD) prime fields and their quartic extensions, lane by lane
// against integer arithmetic.
#include <array>
#include <memory>
#include <vector>

#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/internal/packed_baby_bear.h"
#include "tachyon/math/finite_fields/baby_bear/internal/packed_baby_bear_avx2.h"
#include "tachyon/math/finite_fields/baby_bear/packed_baby_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear.h"
#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear_avx2.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h"
#include "tachyon/math/finite_fields/mersenne31/internal/packed_mersenne31.h"
#include "tachyon/math/finite_fields/mersenne31/internal/packed_mersenne31_avx2.h"
#if defined(TACHYON_HAS_AVX512)
#include "tachyon/math/finite_fields/baby_bear/internal/packed_baby_bear_avx512.h"
#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear_avx512.h"
#include "tachyon/math/finite_fields/mersenne31/internal/packed_mersenne31_avx512.h"
#endif
#include "tachyon/math/matrix/matrix_utils.h"
#include "vh/vh.h"

using namespace tachyon::math;
using vh::Ctx;
using vh::Rng;

namespace {

template <typename F>
uint64_t P() { return F::Config::kModulus; }
template <typename F>
uint64_t V(const F& f) { return f.ToBigInt()[0]; }

// integer values that sit on boundaries both of the value and of its
// Montgomery image
template <typename F>
std::vector<uint32_t> Bounds() {
  std::vector<uint32_t> v;
  uint64_t p = P<F>();
  for (uint64_t d = 0; d < 4; ++d) {
    v.push_back(d);
    v.push_back(p - 1 - d);
    v.push_back(p / 2 + d);
    v.push_back(p / 2 - d);
  }
  for (int k = 0; k < 31; ++k)
    for (int d = -1; d <= 1; ++d) {
      uint64_t x = (uint64_t{1} << k) + d;
      if (x < p) v.push_back(x);
    }
  // raw (stored) boundaries: values whose stored form is 0..3 or p-1..p-4
  size_t n = v.size();
  for (size_t i = 0; i < n; ++i) {
    F f = F::Zero();
    uint32_t raw = v[i];
    static_assert(sizeof(F) == 4);
    memcpy(&f, &raw, 4);
    v.push_back(V(f));
  }
  return v;
}

template <typename F>
uint32_t Gen(Rng& r, const std::vector<uint32_t>& b) {
  return r.Chance(1, 2) ? r.Pick(b) : r.Below(P<F>());
}

template <typename PF>
struct Lanes {
  using F = typename PackedFieldTraits<PF>::Field;
  static constexpr size_t N = PF::N;
  std::array<uint64_t, N> v;
  static Lanes Of(Rng& r, const std::vector<uint32_t>& b) {
    Lanes l;
    uint32_t all = Gen<F>(r, b);
    bool same = r.Chance(1, 8);
    for (auto& x : l.v) x = same ? all : Gen<F>(r, b);
    return l;
  }
  PF Pack() const {
    PF p;
    for (size_t i = 0; i < N; ++i) p[i] = F(v[i]);
    return p;
  }
  uint64_t Hash() const { return vh::HashBytes(v.data(), sizeof v); }
  std::string Str() const {
    std::string s = "[";
    for (auto x : v) s += std::to_string(x) + " ";
    return s + "]";
  }
};

template <typename F>
uint64_t MulM(uint64_t a, uint64_t b) { return a * b % P<F>(); }
template <typename F>
uint64_t PowM(uint64_t a, uint64_t e) {
  uint64_t r = 1 % P<F>();
  for (; e; e >>= 1, a = MulM<F>(a, a))
    if (e & 1) r = MulM<F>(r, a);
  return r;
}

template <typename PF, typename = void>
struct HasExp : std::false_type {};
template <typename PF>
struct HasExp<PF, std::void_t<decltype(std::declval<PF>().Exp7())>>
    : std::true_type {};

template <typename PF, typename Fn, typename In>
void Same(Ctx& c, const PF& got, Fn&& want, const char* m, In&& in) {
  using F = typename PackedFieldTraits<PF>::Field;
  bool ok = true;
  for (size_t i = 0; i < PF::N; ++i)
    ok &= got[i].value() < P<F>() && V(got[i]) == want(i);
  c.CheckF(ok, m, [&] {
    std::string s = in() + " got [";
    for (size_t i = 0; i < PF::N; ++i)
      s += std::to_string(V(got[i])) +
           (got[i].value() < P<F>() ? " " : "(raw value not canonical) ");
    s += "] want [";
    for (size_t i = 0; i < PF::N; ++i) s += std::to_string(want(i)) + " ";
    return s + "]";
  });
}

template <typename PF>
void Ops(Ctx& c, const Lanes<PF>& A, const Lanes<PF>& B, uint64_t sc) {
  using L = Lanes<PF>;
  using F = typename L::F;
  const uint64_t p = P<F>();
  PF a = A.Pack(), b = B.Pack();
  auto in = [&] { return A.Str() + " , " + B.Str() + " s=" + std::to_string(sc); };
  auto add = [&](size_t i) { return (A.v[i] + B.v[i]) % p; };
  auto sub = [&](size_t i) { return (A.v[i] + p - B.v[i]) % p; };
  auto mul = [&](size_t i) { return MulM<F>(A.v[i], B.v[i]); };
  Same(c, a + b, add, "add", in);
  Same(c, a - b, sub, "sub", in);
  Same(c, a * b, mul, "mul", in);
  PF z = a;
  z += b;
  Same(c, z, add, "add in place", in);
  z = a;
  z -= b;
  Same(c, z, sub, "sub in place", in);
  z = a;
  z *= b;
  Same(c, z, mul, "mul in place", in);
  z = a;
  z *= z;
  Same(c, z, [&](size_t i) { return MulM<F>(A.v[i], A.v[i]); }, "x *= x", in);
  z = a;
  z -= z;
  Same(c, z, [&](size_t) { return uint64_t{0}; }, "x -= x", in);
  z = a;
  z += z;
  Same(c, z, [&](size_t i) { return 2 * A.v[i] % p; }, "x += x", in);
  auto neg = [&](size_t i) { return (p - A.v[i]) % p; };
  Same(c, -a, neg, "negate", in);
  z = a;
  z.NegateInPlace();
  Same(c, z, neg, "negate in place", in);
  Same(c, a.Double(), [&](size_t i) { return 2 * A.v[i] % p; }, "double", in);
  z = a;
  z.DoubleInPlace();
  Same(c, z, [&](size_t i) { return 2 * A.v[i] % p; }, "double in place", in);
  Same(c, a.Square(), [&](size_t i) { return MulM<F>(A.v[i], A.v[i]); }, "square", in);
  z = a;
  z.SquareInPlace();
  Same(c, z, [&](size_t i) { return MulM<F>(A.v[i], A.v[i]); }, "square in place", in);
  for (uint64_t e : {uint64_t{0}, uint64_t{1}, uint64_t{3}, uint64_t{5}, uint64_t{7}, sc})
    Same(c, a.Pow(e), [&](size_t i) { return PowM<F>(A.v[i], e); }, "power", in);
  if constexpr (HasExp<PF>::value) {
    Same(c, a.Exp3(), [&](size_t i) { return PowM<F>(A.v[i], 3); }, "Exp3", in);
    Same(c, a.Exp5(), [&](size_t i) { return PowM<F>(A.v[i], 5); }, "Exp5", in);
    Same(c, a.Exp7(), [&](size_t i) { return PowM<F>(A.v[i], 7); }, "Exp7", in);
  }
  PF s = PF::Broadcast(F(sc));
  Same(c, s, [&](size_t) { return sc; }, "broadcast", in);
  Same(c, PF(static_cast<uint32_t>(sc)), [&](size_t) { return sc; }, "from integer", in);
  Same(c, a * s, [&](size_t i) { return MulM<F>(A.v[i], sc); }, "mul by broadcast", in);
  // equality and order depend on every lane
  bool eq = A.v == B.v;
  c.CheckF((a == b) == eq && (a != b) == !eq, "equality", in);
  bool lt = false;
  for (size_t i = 0; i < PF::N; ++i)
    if (A.v[i] != B.v[i]) {
      lt = a[i] < b[i];
      break;
    }
  c.CheckF((a < b) == lt && (a >= b) == !lt && (a > b) == (!eq && !lt) &&
               (a <= b) == (eq || lt),
           "order", in);
  for (size_t i = 0; i < PF::N; ++i) {
    PF d = a;
    d[i] += F::One();
    c.CheckF(d != a && !(d == a), "one-lane difference is seen", in);
    PF d0 = PF::Zero(), d1 = PF::One(), d2 = PF::MinusOne();
    d0[i] = F(5);
    d1[i] = F(5);
    d2[i] = F(5);
    c.CheckF(!d0.IsZero() && !d1.IsOne() && !d2.IsMinusOne(),
             "IsZero/IsOne/IsMinusOne look at every lane", in);
  }
  // inverse, lanes without zero
  bool nz = true;
  for (auto x : A.v) nz &= x != 0;
  if (nz) {
    auto inv = [&](size_t i) { return PowM<F>(A.v[i], p - 2); };
    auto q = a.Inverse();
    if (c.CheckF(!!q, "inverse exists", in)) Same(c, *q, inv, "inverse", in);
    z = a;
    if (c.CheckF(!!z.InverseInPlace(), "inverse in place exists", in))
      Same(c, z, inv, "inverse in place", in);
    auto d = b / a;
    if (c.CheckF(!!d, "division has a result", in))
      Same(c, *d, [&](size_t i) { return MulM<F>(B.v[i], inv(i)); }, "division", in);
  }
}

template <typename PF>
void Run(Ctx& c, const char* name) {
  using L = Lanes<PF>;
  using F = typename L::F;
  PF::Init();
  Rng& r = c.rng;
  auto b = Bounds<F>();
  if (c.Section(std::string(name) + " ops")) {
    auto none = [] { return std::string(); };
    Same(c, PF::Zero(), [](size_t) { return uint64_t{0}; }, "zero", none);
    Same(c, PF::One(), [](size_t) { return uint64_t{1}; }, "one", none);
    Same(c, PF::MinusOne(), [](size_t) { return P<F>() - 1; }, "minus one", none);
    Same(c, PF::TwoInv(), [](size_t) { return (P<F>() + 1) / 2; }, "half", none);
    c.CheckF(PF::Zero().IsZero() && PF::One().IsOne() && PF::MinusOne().IsMinusOne(),
             "constants recognised", none);
    size_t n = c.N(3000);
    for (size_t i = 0; i < n && c.TimeLeft(); ++i) {
      L A = L::Of(r, b), B = L::Of(r, b);
      if (r.Chance(1, 16)) B = A;
      if (r.Chance(1, 16)) {  // equal but for one lane
        B = A;
        B.v[r.Below(PF::N)] = Gen<F>(r, b);
      }
      if (r.Chance(1, 16))
        for (size_t k = 0; k < PF::N; ++k) B.v[k] = (P<F>() - A.v[k]) % P<F>();
      c.Distinct(vh::Mix(A.Hash()) ^ B.Hash());
      if (i < 2) c.Sample(A.Str() + " , " + B.Str());
      Ops<PF>(c, A, B, Gen<F>(r, b));
    }
  }
  // all pairs of boundary values, for every lane position: the value goes
  // through each lane with unrelated neighbours
  if (c.Section(std::string(name) + " boundary pairs")) {
    size_t lane = 0;
    std::sort(b.begin(), b.end());
    b.erase(std::unique(b.begin(), b.end()), b.end());
    for (uint32_t x : b) {
      size_t j = 0;
      while (j < b.size()) {
        L A = L::Of(r, b), B = L::Of(r, b);
        for (size_t k = 0; k < PF::N && j < b.size(); ++k, ++j) {
          A.v[(lane + k) % PF::N] = x;
          B.v[(lane + k) % PF::N] = b[j];
        }
        ++lane;
        PF pa = A.Pack(), pb = B.Pack();
        auto in = [&] { return A.Str() + " , " + B.Str(); };
        const uint64_t p = P<F>();
        Same(c, pa + pb, [&](size_t i) { return (A.v[i] + B.v[i]) % p; }, "add", in);
        Same(c, pa - pb, [&](size_t i) { return (A.v[i] + p - B.v[i]) % p; }, "sub", in);
        Same(c, pa * pb, [&](size_t i) { return MulM<F>(A.v[i], B.v[i]); }, "mul", in);
        c.Count("boundary pairs", PF::N);
      }
    }
  }
  if (c.Section(std::string(name) + " helpers")) {
    size_t n = c.N(100);
    for (size_t it = 0; it < n && c.TimeLeft(); ++it) {
      L A = L::Of(r, b);
      PF a = A.Pack();
      auto in = [&] { return A.Str(); };
      Same(c, PF::From([&](size_t i) { return F(A.v[i]); }),
           [&](size_t i) { return A.v[i]; }, "From(generator)", in);
      size_t len = r.Below(6);
      auto pw = PF::GetSuccessivePowers(len, a);
      c.CheckF(pw.size() == len, "successive powers size", in);
      for (size_t k = 0; k < pw.size(); ++k)
        Same(c, pw[k], [&](size_t i) { return PowM<F>(A.v[i], k); }, "successive powers", in);
      PF rnd = PF::Random();
      Same(c, rnd, [&](size_t i) { return V(rnd[i]); }, "random lanes canonical", in);
      // sums of products
      std::vector<L> X, Y;
      std::vector<PF> x, y;
      for (size_t k = 0; k < len + 1; ++k) {
        X.push_back(L::Of(r, b));
        Y.push_back(L::Of(r, b));
        x.push_back(X[k].Pack());
        y.push_back(Y[k].Pack());
      }
      Same(c, PF::SumOfProducts(x, y), [&](size_t i) {
        uint64_t s = 0;
        for (size_t k = 0; k <= len; ++k) s = (s + MulM<F>(X[k].v[i], Y[k].v[i])) % P<F>();
        return s;
      }, "sum of products", in);
    }
  }
}

// packed quartic extension vs scalar quartic extension, lane by lane
template <typename E, typename PE>
void RunExt(Ctx& c, const char* name) {
  using F = typename E::BaseField;
  using PF = typename PE::BaseField;
  constexpr size_t D = 4;
  E::Init();
  PF::Init();
  PE::Init();
  if (!c.Section(name)) return;
  Rng& r = c.rng;
  auto bd = Bounds<F>();
  auto gen = [&] {
    E e;
    bool base = r.Chance(1, 8), zero = r.Chance(1, 16);
    for (size_t d = 0; d < D; ++d)
      e[d] = zero || (base && d) ? F::Zero() : F(Gen<F>(r, bd));
    return e;
  };
  using LE = std::vector<E>;
  auto lanes = [&] {
    LE l;
    for (size_t i = 0; i < PF::N; ++i) l.push_back(gen());
    return l;
  };
  auto pack = [&](const LE& l) {
    PE p;
    for (size_t d = 0; d < D; ++d)
      for (size_t i = 0; i < PF::N; ++i) p[d][i] = l[i][d];
    return p;
  };
  auto same = [&](const PE& got, auto&& want, const char* m, auto&& in) {
    bool ok = true;
    for (size_t i = 0; i < PF::N; ++i) {
      E w = want(i);
      for (size_t d = 0; d < D; ++d)
        ok &= got[d][i].value() < P<F>() && V(got[d][i]) == V(w[d]);
    }
    c.CheckF(ok, m, [&] {
      std::string s = in() + " got " + got.ToString() + " want ";
      for (size_t i = 0; i < PF::N; ++i) s += want(i).ToString();
      return s;
    });
  };
  size_t n = c.N(600);
  for (size_t it = 0; it < n && c.TimeLeft(); ++it) {
    LE A = lanes(), B = lanes();
    if (r.Chance(1, 16)) B = A;
    PE a = pack(A), b = pack(B);
    c.Distinct(vh::HashBytes(A.data(), A.size() * sizeof(E)) ^
               vh::Mix(vh::HashBytes(B.data(), B.size() * sizeof(E))));
    auto in = [&] { return vh::Show(A) + " , " + vh::Show(B); };
    same(a + b, [&](size_t i) { return A[i] + B[i]; }, "ext add", in);
    same(a - b, [&](size_t i) { return A[i] - B[i]; }, "ext sub", in);
    same(a * b, [&](size_t i) { return A[i] * B[i]; }, "ext mul", in);
    same(-a, [&](size_t i) { return -A[i]; }, "ext negate", in);
    same(a.Square(), [&](size_t i) { return A[i] * A[i]; }, "ext square", in);
    same(a.Double(), [&](size_t i) { return A[i] + A[i]; }, "ext double", in);
    PE z = a;
    z += b;
    same(z, [&](size_t i) { return A[i] + B[i]; }, "ext add in place", in);
    z = a;
    z -= b;
    same(z, [&](size_t i) { return A[i] - B[i]; }, "ext sub in place", in);
    z = a;
    z *= b;
    same(z, [&](size_t i) { return A[i] * B[i]; }, "ext mul in place", in);
    z = a;
    z *= z;
    same(z, [&](size_t i) { return A[i] * A[i]; }, "ext x *= x", in);
    z = a;
    z.SquareInPlace();
    same(z, [&](size_t i) { return A[i] * A[i]; }, "ext square in place", in);
    PF s;
    std::array<F, PF::N> sv;
    for (size_t i = 0; i < PF::N; ++i) s[i] = sv[i] = F(Gen<F>(r, bd));
    same(a * s, [&](size_t i) { return A[i] * E(sv[i]); }, "ext mul by packed base", in);
    same(a.Pow(uint64_t{11}), [&](size_t i) { return A[i].Pow(uint64_t{11}); }, "ext power", in);
    E one = gen();
    PE bc = PE::One();
    {
      PE q;
      for (size_t d = 0; d < D; ++d) q[d] = PF::Broadcast(one[d]);
      bc = q;
    }
    same(a * bc, [&](size_t i) { return A[i] * one; }, "ext mul by broadcast", in);
    c.CheckF((a == b) == (A == B), "ext equality", in);
    same(PE::One(), [&](size_t) { return E::One(); }, "ext one", in);
    same(PE::Zero(), [&](size_t) { return E::Zero(); }, "ext zero", in);
    // powers laid out across lanes
    size_t len = r.Below(4);
    auto pw = E::GetExtendedPackedPowers(one, len);
    bool ok = pw.size() == len;
    E cur = E::One();
    for (size_t k = 0; ok && k < len; ++k)
      for (size_t i = 0; i < PF::N; ++i) {
        for (size_t d = 0; d < D; ++d) ok &= V(pw[k][d][i]) == V(cur[d]);
        cur = cur * one;
      }
    c.CheckF(ok, "GetExtendedPackedPowers",
             [&] { return one.ToString() + " len " + std::to_string(len); });
    // packing matrix rows
    Eigen::Index rows = 1 + r.Below(20), cols = 1 + r.Below(20);
    RowMajorMatrix<F> m(rows, cols);
    for (Eigen::Index i = 0; i < rows; ++i)
      for (Eigen::Index j = 0; j < cols; ++j) m(i, j) = F(Gen<F>(r, bd));
    Eigen::Index row = r.Below(rows);
    auto h = PackRowHorizontallyPadded(m.row(row));
    ok = h.size() == (cols + PF::N - 1) / PF::N;
    for (size_t k = 0; ok && k < h.size() * PF::N; ++k)
      ok = h[k / PF::N][k % PF::N] ==
           (k < (size_t)cols ? m(row, k) : F::Zero());
    c.CheckF(ok, "PackRowHorizontallyPadded",
             [&] { return std::to_string(rows) + "x" + std::to_string(cols); });
    auto v = PackRowVertically<PF>(m, row);
    ok = v.size() == (size_t)cols;
    for (size_t k = 0; ok && k < v.size(); ++k)
      for (size_t i = 0; i < PF::N; ++i) ok &= v[k][i] == m((row + i) % rows, k);
    c.CheckF(ok, "PackRowVertically",
             [&] { return std::to_string(rows) + "x" + std::to_string(cols); });
    RowMajorMatrix<E> me(rows, 3);
    for (Eigen::Index i = 0; i < rows; ++i)
      for (Eigen::Index j = 0; j < 3; ++j) me(i, j) = gen();
    auto ve = PackRowVertically<PF>(me, row);
    ok = ve.size() == 12;
    for (size_t k = 0; ok && k < ve.size(); ++k)
      for (size_t i = 0; i < PF::N; ++i)
        ok &= ve[k][i] == me((row + i) % rows, k / D)[k % D];
    c.CheckF(ok, "PackRowVertically of an extension",
             [&] { return std::to_string(rows); });
  }
}

}  // namespace

void vh_main(Ctx& c) {
  Run<PackedBabyBearAVX2>(c, "baby_bear avx2");
  Run<PackedKoalaBearAVX2>(c, "koala_bear avx2");
  Run<PackedMersenne31AVX2>(c, "mersenne31 avx2");
#if defined(TACHYON_HAS_AVX512)
  static_assert(PackedBabyBear::N == 16);
  Run<PackedBabyBearAVX512>(c, "baby_bear avx512");
  Run<PackedKoalaBearAVX512>(c, "koala_bear avx512");
  Run<PackedMersenne31AVX512>(c, "mersenne31 avx512");
#endif
  RunExt<BabyBear4, PackedBabyBear4>(c, "baby_bear4");
  RunExt<KoalaBear4, PackedKoalaBear4>(c, "koala_bear4");
  c.Require("boundary pairs", 1000);
  c.Require("ext mul", 10);
}
