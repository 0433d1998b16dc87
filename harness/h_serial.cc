// P25/P26: buffers, Copyable and JSON of the base and math types.
#include <cmath>
#include <limits>

#include "serial.h"
#include "tachyon/base/buffer/endian_auto_reset.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/geometry/dimensions.h"
#include "tachyon/math/geometry/point2.h"
#include "tachyon/math/geometry/point3.h"
#include "tachyon/math/geometry/point4.h"
#include "tachyon/math/matrix/matrix_types.h"
#include "tachyon/math/polynomials/multivariate/linear_combination_term.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"

using namespace tachyon;
using vh::Ctx;
using vh::Hex;

namespace {

bool g_hostile = false;
size_t g_n = 0;

enum class E8 : uint8_t { kA, kB = 255 };
enum class E64 : int64_t { kMin = INT64_MIN, kMax = INT64_MAX, kZ = 0 };

const auto kEq = [](const auto& a, const auto& b) { return a == b; };
const auto kNoUse = [](const auto&) {};

// both properties, one list of types
template <typename T, typename Gen, typename Same = decltype(kEq), typename Use = decltype(kNoUse)>
void Go(Ctx& ctx, const char* name, size_t n, Gen gen, Same same = kEq, Use use = kNoUse) {
  if (!ctx.Section(std::string(g_hostile ? "hostile/" : "buffer/") + name)) return;
  if (g_hostile) {
    vh::Truncated<T>(ctx, ctx.N(std::max<size_t>(n / 4, 2)), gen);
    for (size_t i = 0; i < ctx.N(n * 6); ++i) vh::HostileOnce<T>(ctx, gen, use);
  } else {
    vh::RoundTrip<T>(ctx, ctx.N(n), gen, same);
  }
}

template <typename T>
T AnyInt(Ctx& ctx) {
  switch (ctx.rng.Below(6)) {
    case 0: return std::numeric_limits<T>::max();
    case 1: return std::numeric_limits<T>::min();
    case 2: return static_cast<T>(ctx.rng.Below(4));
    case 3: return static_cast<T>(0x0102030405060708ull);
    default: return static_cast<T>(ctx.rng.U64());
  }
}
template <typename T>
T AnyFloat(Ctx& ctx) {
  switch (ctx.rng.Below(8)) {
    case 0: return std::numeric_limits<T>::max();
    case 1: return std::numeric_limits<T>::denorm_min();
    case 2: return std::numeric_limits<T>::infinity();
    case 3: return -std::numeric_limits<T>::infinity();
    case 4: return T(-0.0);
    case 5: return T(ctx.rng.Range(-1000, 1000)) / 7;
    case 6: return T(ctx.rng.U64());
    default: return std::numeric_limits<T>::lowest() / T(3);
  }
}
template <typename T>
bool SameBits(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
const auto kBits = [](const auto& a, const auto& b) { return SameBits(a, b); };

size_t Len(Ctx& ctx, size_t max) {
  switch (ctx.rng.Below(6)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return max;
    default: return ctx.rng.Below(max + 1);
  }
}
std::string AnyString(Ctx& ctx, size_t max = 40) {
  return ctx.rng.Bytes(Len(ctx, max));
}

template <typename F>
F AnyF(Ctx& ctx) {
  if constexpr (F::ExtensionDegree() > 1) {
    using B = typename F::BaseField;
    F r = F::Zero();
    if (ctx.rng.Chance(1, 8)) return r;
    if constexpr (F::ExtensionDegree() / B::ExtensionDegree() == 2) {
      return F(AnyF<B>(ctx), AnyF<B>(ctx));
    } else if constexpr (F::ExtensionDegree() / B::ExtensionDegree() == 3) {
      return F(AnyF<B>(ctx), AnyF<B>(ctx), AnyF<B>(ctx));
    } else {
      return F(AnyF<B>(ctx), AnyF<B>(ctx), AnyF<B>(ctx), AnyF<B>(ctx));
    }
  } else {
    switch (ctx.rng.Below(8)) {
      case 0: return F::Zero();
      case 1: return F::One();
      case 2: return -F::One();
      case 3: return F(static_cast<uint32_t>(ctx.rng.Below(std::min<uint64_t>(300, F::Config::kModulusBits < 10 ? 7 : 300))));
      default: {
        F r = F::Zero(), m = F(2);
        uint64_t bits[6];
        for (auto& b : bits) b = ctx.rng.U64();
        size_t nb = std::min<size_t>(F::Config::kModulusBits + 3, 380);
        for (size_t i = 0; i < nb; ++i) {
          r *= m;
          if (bits[i / 64] >> (i % 64) & 1) r += F::One();
        }
        return r;
      }
    }
  }
}
template <typename F>
std::vector<F> AnyFs(Ctx& ctx, size_t max) {
  std::vector<F> v(Len(ctx, max));
  for (F& f : v) f = AnyF<F>(ctx);
  return v;
}

// ------------------------------------------------------------------ layout
// The bytes of builtin values are what their endianness says.
template <typename T>
void Layout(Ctx& ctx, const char* name, T (*gen)(Ctx&)) {
  if (g_hostile || !ctx.Section(std::string("layout/") + name)) return;
  for (size_t i = 0; i < ctx.N(60); ++i) {
    T v = gen(ctx);
    uint8_t raw[sizeof(T)];
    memcpy(raw, &v, sizeof(T));  // this machine is little endian
    for (tb::Endian e : {tb::Endian::kNative, tb::Endian::kBig, tb::Endian::kLittle}) {
      std::vector<uint8_t> want(raw, raw + sizeof(T));
      if (e == tb::Endian::kBig) std::reverse(want.begin(), want.end());
      std::vector<uint8_t> got = vh::Encode(v, e);
      ctx.CheckF(got == want, "byte_layout", [&]() {
        return std::string(vh::EndianName(e)) + " got " + Hex(got) + " want " + Hex(want);
      });
    }
  }
}

void BuiltinTypes(Ctx& ctx) {
#define INT(T)                                                       \
  Layout<T>(ctx, #T, &AnyInt<T>);                                    \
  Go<T>(ctx, #T, 40, [&]() { return AnyInt<T>(ctx); });
  INT(int8_t) INT(uint8_t) INT(char) INT(int16_t) INT(uint16_t) INT(int32_t) INT(uint32_t)
  INT(int64_t) INT(uint64_t) INT(char16_t) INT(char32_t) INT(wchar_t) INT(long long)
#undef INT
  Layout<float>(ctx, "float", &AnyFloat<float>);
  Layout<double>(ctx, "double", &AnyFloat<double>);
  Go<float>(ctx, "float", 60, [&]() { return AnyFloat<float>(ctx); }, kBits);
  Go<double>(ctx, "double", 60, [&]() { return AnyFloat<double>(ctx); }, kBits);
  if (!g_hostile) Go<bool>(ctx, "bool", 10, [&]() { return ctx.rng.Bool(); });
  Go<E8>(ctx, "enum8", 20, [&]() { return ctx.rng.Bool() ? E8::kA : E8::kB; });
  Go<E64>(ctx, "enum64", 20, [&]() { return static_cast<E64>(AnyInt<int64_t>(ctx)); });

  Go<std::string>(ctx, "string", 60, [&]() { return AnyString(ctx); });
#define WIDE(T)                                          \
  Go<std::basic_string<T>>(ctx, "string_" #T, 40, [&]() { \
    std::basic_string<T> s(Len(ctx, 20), T());           \
    for (T& c : s) c = AnyInt<T>(ctx);                   \
    return s;                                            \
  });
  WIDE(char16_t) WIDE(char32_t) WIDE(wchar_t)
#undef WIDE
  Go<std::vector<uint64_t>>(ctx, "vector_u64", 40, [&]() {
    std::vector<uint64_t> v(Len(ctx, 12));
    for (auto& x : v) x = AnyInt<uint64_t>(ctx);
    return v;
  });
  Go<std::vector<uint8_t>>(ctx, "vector_u8", 40, [&]() {
    std::vector<uint8_t> v(Len(ctx, 30));
    for (auto& x : v) x = AnyInt<uint8_t>(ctx);
    return v;
  });
  Go<std::vector<std::vector<std::string>>>(ctx, "vector_vector_string", 40, [&]() {
    std::vector<std::vector<std::string>> v(Len(ctx, 5));
    for (auto& x : v) {
      x.resize(Len(ctx, 4));
      for (auto& s : x) s = AnyString(ctx, 9);
    }
    return v;
  });
  Go<std::vector<double>>(ctx, "vector_double", 30, [&]() {
    std::vector<double> v(Len(ctx, 6));
    for (auto& x : v) x = AnyFloat<double>(ctx);
    return v;
  });
  Go<std::array<uint32_t, 5>>(ctx, "array_u32", 30, [&]() {
    std::array<uint32_t, 5> v;
    for (auto& x : v) x = AnyInt<uint32_t>(ctx);
    return v;
  });
  Go<std::array<std::string, 3>>(ctx, "array_string", 30, [&]() {
    return std::array<std::string, 3>{AnyString(ctx), AnyString(ctx), AnyString(ctx)};
  });
  Go<std::vector<std::array<int16_t, 2>>>(ctx, "vector_array", 30, [&]() {
    std::vector<std::array<int16_t, 2>> v(Len(ctx, 6));
    for (auto& x : v) x = {AnyInt<int16_t>(ctx), AnyInt<int16_t>(ctx)};
    return v;
  });
}

// Things written in one type and read back in another that promises the same
// encoding; the many-value and at-offset forms; the raw accessors.
template <typename CharTy>
void Views(Ctx& ctx, tb::Endian e) {
  std::basic_string<CharTy> s(Len(ctx, 12), CharTy());
  for (auto& c : s) c = static_cast<CharTy>(1 + ctx.rng.Below(120));
  std::vector<uint8_t> a = vh::Encode(s, e);
  auto show = [&]() { return Hex(a); };
  tb::Uint8VectorBuffer w;
  w.set_endian(e);
  bool ok = w.Write(std::basic_string_view<CharTy>(s));
  ctx.CheckF(ok && std::vector<uint8_t>(w.owned_buffer()) == a, "string_view_encodes_like_string", show);
  ctx.Eq(tb::EstimateSize(std::basic_string_view<CharTy>(s)), a.size(), "string_view_estimate", show);
  tb::Uint8VectorBuffer w2;
  w2.set_endian(e);
  const CharTy* p = s.c_str();
  ok = w2.Write(p);
  ctx.CheckF(ok && std::vector<uint8_t>(w2.owned_buffer()) == a, "char_pointer_encodes_like_string", show);
  ctx.Eq(tb::EstimateSize(p), a.size(), "char_pointer_estimate", show);
}

template <typename BufferTy>
void MoveBuffers(Ctx& ctx, const char* name) {
  if (!ctx.Section(std::string("move/") + name)) return;
  for (size_t i = 0; i < ctx.N(60); ++i) {
    std::vector<uint64_t> v(Len(ctx, 9));
    for (auto& x : v) x = ctx.rng.U64();
    uint8_t tail = ctx.rng.U32();
    size_t small = ctx.rng.Below(3);
    auto a = std::make_unique<BufferTy>();
    tb::Endian e = ctx.rng.Bool() ? tb::Endian::kBig : tb::Endian::kNative;
    a->set_endian(e);
    bool ok = small == 0 ? a->Write(v) : small == 1 ? a->Write(uint8_t{7}) : true;
    size_t off = a->buffer_offset();
    ctx.Case("size " + std::to_string(off));
    BufferTy b(std::move(*a));
    a.reset();
    ok = ok && b.endian() == e && b.buffer_offset() == off && b.Write(tail);
    BufferTy c;
    ok = ok && c.Write(uint32_t{1});
    c = std::move(b);
    ok = ok && c.endian() == e;
    b = BufferTy();
    c.set_buffer_offset(0);
    uint8_t t = 0;
    if (small == 0) {
      std::vector<uint64_t> back;
      ok = ok && c.Read(&back) && back == v;
    } else if (small == 1) {
      uint8_t x = 0;
      ok = ok && c.Read(&x) && x == 7;
    }
    ok = ok && c.Read(&t) && t == tail && c.Done();
    ok = ok && c.owned_buffer().size() == off + 1 && c.buffer() == c.owned_buffer().data();
    ctx.CheckF(ok, "moved_buffer_keeps_its_contents", [&]() { return std::to_string(off); });
  }
}

void BufferForms(Ctx& ctx) {
  if (g_hostile) return;
  if (ctx.Section("buffer_forms")) {
    for (size_t i = 0; i < ctx.N(80); ++i) {
      tb::Endian e = ctx.rng.Pick(std::vector<tb::Endian>{tb::Endian::kNative, tb::Endian::kBig, tb::Endian::kLittle});
      Views<char>(ctx, e);
      Views<wchar_t>(ctx, e);
      Views<char16_t>(ctx, e);
      Views<char32_t>(ctx, e);
      // many values at an offset follow each other
      uint64_t a = ctx.rng.U64();
      uint16_t b = ctx.rng.U32();
      std::string s = AnyString(ctx, 10);
      size_t off = ctx.rng.Below(9);
      tb::Uint8VectorBuffer w;
      w.set_endian(e);
      std::vector<uint8_t> z(off, 0);
      bool ok = w.Write(z.data(), off) && w.WriteManyAt(off, a, b, s);
      uint64_t a2 = 0;
      uint16_t b2 = 0;
      std::string s2;
      w.set_buffer_offset(off);
      ok = ok && w.ReadMany(&a2, &b2, &s2);
      ctx.CheckF(ok && a2 == a && b2 == b && s2 == s && w.Done(), "write_many_at", [&]() { return Hex(w.owned_buffer()); });
      a2 = b2 = 0;
      s2.clear();
      w.set_buffer_offset(0);
      tb::Uint8VectorBuffer w3;
      w3.set_endian(e);
      ok = w3.Write(z.data(), off) && w3.WriteMany(a, b, s);
      ok = ok && w3.ReadManyAt(off, &a2, &b2, &s2);
      ctx.CheckF(ok && a2 == a && b2 == b && s2 == s && w3.Done(), "read_many_at", [&]() { return Hex(w3.owned_buffer()); });
      // span
      std::vector<uint32_t> v(Len(ctx, 6));
      for (auto& x : v) x = ctx.rng.U32();
      std::vector<uint8_t> enc = vh::Encode(v, e);
      tb::Uint8VectorBuffer w4;
      w4.set_endian(e);
      absl::Span<const uint32_t> sp(v);
      ok = w4.Write(sp);
      ctx.CheckF(ok && w4.owned_buffer() == enc && tb::EstimateSize(sp) == enc.size(), "span_encodes_like_vector", [&]() { return Hex(enc); });
      // C arrays
      uint16_t arr[3] = {AnyInt<uint16_t>(ctx), AnyInt<uint16_t>(ctx), AnyInt<uint16_t>(ctx)};
      tb::Uint8VectorBuffer w5;
      w5.set_endian(e);
      ok = w5.Write(arr);
      uint16_t arr2[3] = {0, 0, 0};
      w5.set_buffer_offset(0);
      ok = ok && w5.Read(arr2) && memcmp(arr, arr2, sizeof arr) == 0 && w5.Done() && tb::EstimateSize(arr) == 6;
      ctx.CheckF(ok, "c_array_round_trip", [&]() { return Hex(w5.owned_buffer()); });
      // fixed-width accessors, and the endian guard
      tb::Uint8VectorBuffer w6;
      w6.set_endian(e);
      uint64_t q = ctx.rng.U64();
      ok = w6.Write16BE(q) && w6.Write16LE(q) && w6.Write32BE(q) && w6.Write32LE(q) && w6.Write64BE(q) && w6.Write64LE(q);
      std::vector<uint8_t> want;
      for (int bytes : {2, 4, 8})
        for (int big : {1, 0})
          for (int k = 0; k < bytes; ++k)
            want.push_back(q >> 8 * (big ? bytes - 1 - k : k));
      ctx.CheckF(ok && w6.owned_buffer() == want, "fixed_width_layout", [&]() { return Hex(want); });
      uint16_t r16[2];
      uint32_t r32[2];
      uint64_t r64[2];
      w6.set_buffer_offset(0);
      ok = w6.Read16BE(&r16[0]) && w6.Read16LE(&r16[1]) && w6.Read32BE(&r32[0]) && w6.Read32LE(&r32[1]) && w6.Read64BE(&r64[0]) && w6.Read64LE(&r64[1]) && w6.Done();
      ctx.CheckF(ok && r16[0] == uint16_t(q) && r16[1] == r16[0] && r32[0] == uint32_t(q) && r32[1] == r32[0] && r64[0] == q && r64[1] == q, "fixed_width_round_trip", [&]() { return Hex(want); });
      {
        tb::EndianAutoReset g(w6, tb::Endian::kBig);
        ok = w6.endian() == tb::Endian::kBig;
      }
      ctx.CheckF(ok && w6.endian() == e, "endian_guard", [&]() { return ""; });
      // a view into the buffer
      const uint8_t* ptr = nullptr;
      w6.set_buffer_offset(0);
      size_t k = ctx.rng.Below(29 + 1);
      ok = w6.ReadPtr(&ptr, k) == (k <= 28);
      ctx.CheckF(ok && (k > 28 || (ptr == w6.owned_buffer().data() && w6.buffer_offset() == k)), "read_ptr", [&]() { return std::to_string(k); });
    }
  }
  MoveBuffers<tb::Uint8VectorBuffer>(ctx, "uint8_vector_buffer");
  MoveBuffers<tb::CharVectorBuffer>(ctx, "char_vector_buffer");
  MoveBuffers<tb::StringBuffer>(ctx, "string_buffer");
}

// Offsets and sizes from anywhere never reach outside the buffer.
void BufferBounds(Ctx& ctx) {
  if (!g_hostile || !ctx.Section("buffer_bounds")) return;
  for (size_t i = 0; i < ctx.N(2000); ++i) {
    size_t n = ctx.rng.Below(40);
    std::vector<uint8_t> v(n, 1);
    vh::Exact m(v);
    tb::Buffer b(m.p.get(), n);
    auto wild = [&]() -> size_t {
      switch (ctx.rng.Below(5)) {
        case 0: return ~size_t{0} - ctx.rng.Below(20);
        case 1: return size_t{1} << (59 + ctx.rng.Below(5));
        case 2: return ctx.rng.U64();
        default: return ctx.rng.Below(50);
      }
    };
    size_t off = wild(), sz = wild();
    b.set_endian(ctx.rng.Pick(std::vector<tb::Endian>{tb::Endian::kNative, tb::Endian::kBig, tb::Endian::kLittle}));
    ctx.Case("len " + std::to_string(n) + " off " + std::to_string(off) + " size " + std::to_string(sz));
    auto fits = [&](size_t bytes) { return off <= n && bytes <= n - off; };
    auto show = [&]() { return "len " + std::to_string(n) + " off " + std::to_string(off) + " size " + std::to_string(sz); };
    uint8_t dst[64];
    if (sz <= 64) {
      ctx.Eq(b.ReadAt(off, dst, sz), fits(sz), "raw_read_in_bounds_only", show);
      memset(dst, 1, sizeof dst);
      ctx.Eq(b.WriteAt(off, dst, sz), fits(sz), "raw_write_in_bounds_only", show);
    } else {
      ctx.Eq(b.ReadAt(off, dst, sz), false, "raw_read_in_bounds_only", show);
    }
    uint64_t x64;
    uint32_t x32;
    uint16_t x16;
    uint8_t x8;
    ctx.Eq(b.ReadAt(off, &x64), fits(8), "read64_in_bounds_only", show);
    ctx.Eq(b.ReadAt(off, &x32), fits(4), "read32_in_bounds_only", show);
    ctx.Eq(b.ReadAt(off, &x16), fits(2), "read16_in_bounds_only", show);
    ctx.Eq(b.ReadAt(off, &x8), fits(1), "read8_in_bounds_only", show);
    ctx.Eq(b.WriteAt(off, uint64_t{1}), fits(8), "write64_in_bounds_only", show);
    ctx.Eq(b.WriteAt(off, uint32_t{1}), fits(4), "write32_in_bounds_only", show);
    ctx.Eq(b.WriteAt(off, uint16_t{1}), fits(2), "write16_in_bounds_only", show);
    ctx.Eq(b.WriteAt(off, uint8_t{1}), fits(1), "write8_in_bounds_only", show);
    uint64_t* ptr = nullptr;
    bool want = off <= n && sz <= (n - off) / 8;
    ctx.Eq(b.ReadPtrAt(off, &ptr, sz), want, "read_ptr_in_bounds_only", show);
    std::string s;
    b.set_buffer_offset(off);
    (void)b.Read(&s);
    ctx.CheckF(s.size() <= 1u << 20, "string_in_proportion", show);
    ctx.Distinct(vh::Mix(n ^ vh::Mix(off) ^ vh::Mix(sz + 1)));
  }
}

// ------------------------------------------------------------------ fields
template <typename F>
void FieldTypes(Ctx& ctx, const std::string& name, size_t n = 20) {
  if constexpr (F::ExtensionDegree() == 1) F::Init();
  Go<F>(ctx, name.c_str(), n, [&]() { return AnyF<F>(ctx); });
  Go<std::vector<F>>(ctx, (name + "/vector").c_str(), n / 2, [&]() { return AnyFs<F>(ctx, 6); });
}
// A prime field decodes exactly the canonical encodings.
template <typename F>
void Canonical(Ctx& ctx, const std::string& name) {
  if (!ctx.Section("canonical/" + name)) return;
  using V = typename F::value_type;
  for (size_t i = 0; i < ctx.N(60); ++i) {
    V v{};
    if constexpr (F::Config::kModulusBits <= 32) {
      uint64_t m = F::Config::kModulus;
      static const int64_t kD[] = {-2, -1, 0, 1, 2};
      v = static_cast<V>(ctx.rng.Bool() ? ctx.rng.U32() : m + kD[ctx.rng.Below(5)]);
    } else {
      v = F::Config::kModulus;
      switch (ctx.rng.Below(5)) {
        case 0: break;
        case 1: v -= V(1); break;
        case 2: v += V(1); break;
        case 3: for (size_t k = 0; k < V::kLimbNums; ++k) v[k] = ~uint64_t{0}; break;
        default: for (size_t k = 0; k < V::kLimbNums; ++k) v[k] = ctx.rng.U64();
      }
    }
    bool less = v < F::Config::kModulus;
    std::vector<uint8_t> enc = vh::Encode(v, tb::Endian::kNative);
    tb::ReadOnlyBuffer r(enc.data(), enc.size());
    F f = F::Zero();
    bool ok = r.Read(&f);
    ctx.Distinct(vh::HashBytes(enc.data(), enc.size()));
    ctx.Eq(ok, less, "decodes_exactly_values_below_modulus", [&]() { return Hex(enc); });
    if (ok && less) {
      ctx.CheckF(vh::Encode(f, tb::Endian::kNative) == enc, "decoded_value_is_the_number", [&]() { return Hex(enc) + " " + f.ToString(); });
      if constexpr (F::Config::kModulusBits <= 32) {
        ctx.CheckF(f == F(v), "decoded_value_is_the_number2", [&]() { return Hex(enc); });
      } else {
        ctx.CheckF(f.ToBigInt() == v, "decoded_value_is_the_number2", [&]() { return Hex(enc); });
      }
    }
  }
}
template <typename F>
void Montgomery(Ctx& ctx, const std::string& name) {
  if (g_hostile) return;
  if constexpr (F::Config::kUseMontgomery) {
    tb::Copyable<F>::s_is_in_montgomery = true;
    Go<F>(ctx, (name + "/montgomery").c_str(), 20, [&]() { return AnyF<F>(ctx); });
    if (ctx.Section("montgomery/" + name)) {
      for (size_t i = 0; i < ctx.N(20); ++i) {
        F f = AnyF<F>(ctx);
        std::vector<uint8_t> enc = vh::Encode(f, tb::Endian::kNative);
        typename F::value_type raw = f.value();
        ctx.CheckF(enc.size() == sizeof(raw) && memcmp(enc.data(), &raw, enc.size()) == 0,
                   "montgomery_bytes", [&]() { return f.ToString() + " " + Hex(enc); });
      }
    }
    tb::Copyable<F>::s_is_in_montgomery = false;
    tb::RapidJsonValueConverter<F>::s_is_in_montgomery = true;
    if (ctx.Section("json/" + name + "/montgomery"))
      for (size_t i = 0; i < ctx.N(10); ++i)
        vh::JsonRoundTrip(ctx, math::Point2<F>(AnyF<F>(ctx), AnyF<F>(ctx)), kEq);
    tb::RapidJsonValueConverter<F>::s_is_in_montgomery = false;
  }
}
template <typename F>
void Primes(Ctx& ctx, const std::string& name) {
  FieldTypes<F>(ctx, name);
  Canonical<F>(ctx, name);
  Montgomery<F>(ctx, name);
}

template <typename P>
P AnyPoint(Ctx& ctx) {
  if (ctx.rng.Chance(1, 6)) return P::Zero();
  if (ctx.rng.Chance(1, 6)) return P::Generator();
  return P::Random();
}
template <typename Curve>
void Points(Ctx& ctx, const std::string& name) {
  using A = math::AffinePoint<Curve>;
  using P = math::ProjectivePoint<Curve>;
  using J = math::JacobianPoint<Curve>;
  using X = math::PointXYZZ<Curve>;
  Go<A>(ctx, (name + "/affine").c_str(), 6, [&]() { return AnyPoint<A>(ctx); });
  Go<P>(ctx, (name + "/projective").c_str(), 6, [&]() { return AnyPoint<P>(ctx); });
  Go<J>(ctx, (name + "/jacobian").c_str(), 6, [&]() { return AnyPoint<J>(ctx); });
  Go<X>(ctx, (name + "/xyzz").c_str(), 6, [&]() { return AnyPoint<X>(ctx); });
  Go<std::vector<A>>(ctx, (name + "/affine_vector").c_str(), 3, [&]() {
    std::vector<A> v(Len(ctx, 4));
    for (A& a : v) a = AnyPoint<A>(ctx);
    return v;
  });
}

// ------------------------------------------------------------------ geometry, matrices, polynomials
template <typename M>
M AnyMatrix(Ctx& ctx, long rows, long cols) {
  using F = typename M::Scalar;
  M m(rows, cols);
  for (long i = 0; i < m.size(); ++i) m.data()[i] = AnyF<F>(ctx);
  return m;
}
template <typename M>
bool SameMatrix(const M& a, const M& b) {
  return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || a == b);
}
const auto kMatEq = [](const auto& a, const auto& b) { return SameMatrix(a, b); };

void Composite(Ctx& ctx) {
  using F = math::BabyBear;
  using Fr = math::bn254::Fr;
  Go<math::Point2<F>>(ctx, "point2", 20, [&]() { return math::Point2<F>(AnyF<F>(ctx), AnyF<F>(ctx)); });
  Go<math::Point3<F>>(ctx, "point3", 20, [&]() { return math::Point3<F>(AnyF<F>(ctx), AnyF<F>(ctx), AnyF<F>(ctx)); });
  Go<math::Point4<Fr>>(ctx, "point4", 20, [&]() { return math::Point4<Fr>(AnyF<Fr>(ctx), AnyF<Fr>(ctx), AnyF<Fr>(ctx), AnyF<Fr>(ctx)); });
  Go<math::Dimensions>(ctx, "dimensions", 20, [&]() { return math::Dimensions{AnyInt<size_t>(ctx), AnyInt<size_t>(ctx)}; });
#define BIG(N)                                                            \
  Go<math::BigInt<N>>(ctx, "bigint" #N, 20, [&]() {                       \
    math::BigInt<N> b(0);                                                 \
    for (size_t k = 0; k < N; ++k) b[k] = AnyInt<uint64_t>(ctx);          \
    return b;                                                             \
  });
  BIG(1) BIG(2) BIG(4) BIG(6) BIG(9)
#undef BIG
  using DM = math::Matrix<F>;
  using RM = math::RowMajorMatrix<F>;
  Go<DM>(ctx, "matrix", 20, [&]() { return AnyMatrix<DM>(ctx, Len(ctx, 5), Len(ctx, 5)); }, kMatEq);
  Go<RM>(ctx, "row_major_matrix", 20, [&]() { return AnyMatrix<RM>(ctx, Len(ctx, 5), Len(ctx, 5)); }, kMatEq);
  using FM = math::Matrix<F, 2, 3>;
  Go<FM>(ctx, "fixed_matrix", 20, [&]() { return AnyMatrix<FM>(ctx, 2, 3); }, kMatEq);
  using HM = math::Matrix<F, Eigen::Dynamic, 3>;
  Go<HM>(ctx, "fixed_columns", 20, [&]() { return AnyMatrix<HM>(ctx, Len(ctx, 5), 3); }, kMatEq);
  using HR = math::Matrix<F, 2, Eigen::Dynamic>;
  Go<HR>(ctx, "fixed_rows", 20, [&]() { return AnyMatrix<HR>(ctx, 2, Len(ctx, 5)); }, kMatEq);
  using V = math::Vector<Fr>;
  Go<V>(ctx, "vector_matrix", 20, [&]() { return AnyMatrix<V>(ctx, Len(ctx, 5), 1); }, kMatEq);
  using EM = math::Matrix<math::BabyBear4>;
  Go<EM>(ctx, "extension_matrix", 10, [&]() { return AnyMatrix<EM>(ctx, Len(ctx, 3), Len(ctx, 3)); }, kMatEq);
  using Diag = math::DiagonalMatrix<F>;
  Go<Diag>(ctx, "diagonal_matrix", 20,
           [&]() { return Diag(AnyMatrix<math::Vector<F>>(ctx, Len(ctx, 5), 1)); },
           [](const Diag& a, const Diag& b) { return SameMatrix<math::Vector<F>>(a.diagonal(), b.diagonal()); });
  if (!g_hostile && ctx.Section("matrix_map")) {
    for (size_t i = 0; i < ctx.N(20); ++i) {
      RM m = AnyMatrix<RM>(ctx, 1 + Len(ctx, 4), 1 + Len(ctx, 4));
      Eigen::Map<const RM> map(m.data(), m.rows(), m.cols());
      tb::Uint8VectorBuffer w;
      ctx.CheckF(w.Write(map) && w.owned_buffer() == vh::Encode(m, tb::Endian::kNative) && tb::EstimateSize(map) == w.owned_buffer().size(),
                 "map_encodes_like_matrix", [&]() { return Hex(w.owned_buffer()); });
    }
  }

  constexpr size_t kMax = 7;
  using Dense = math::UnivariateDensePolynomial<F, kMax>;
  using DCo = math::UnivariateDenseCoefficients<F, kMax>;
  using Sparse = math::UnivariateSparsePolynomial<F, 1000>;
  using SCo = math::UnivariateSparseCoefficients<F, 1000>;
  using Term = math::UnivariateTerm<F>;
  using Ev = math::UnivariateEvaluations<F, kMax>;
  auto sparse = [&]() {
    std::vector<Term> t;
    size_t d = ctx.rng.Below(3);
    for (size_t i = Len(ctx, 6); i > 0; --i, d += 1 + ctx.rng.Below(50)) {
      F c = AnyF<F>(ctx);
      t.push_back({d, c.IsZero() ? F::One() : c});
    }
    return SCo(std::move(t));
  };
  auto use_dense = [&](const Dense& p) { (void)p.Evaluate(F(3)); (void)p.Degree(); };
  auto use_sparse = [&](const Sparse& p) { (void)p.Evaluate(F(3)); (void)p.Degree(); };
  Go<DCo>(ctx, "dense_coefficients", 20, [&]() { return DCo(AnyFs<F>(ctx, kMax + 1)); });
#ifndef NDEBUG
  // Debug builds insist (DCHECK) on a canonical form that bytes may lack.
  const bool unclean_ok = false;
#else
  const bool unclean_ok = true;
#endif
  if (unclean_ok || !g_hostile)
    Go<Dense>(ctx, "dense_polynomial", 20, [&]() { return Dense(DCo(AnyFs<F>(ctx, kMax + 1), !unclean_ok)); }, kEq, use_dense);
  Go<Term>(ctx, "term", 20, [&]() { return Term{AnyInt<size_t>(ctx), AnyF<F>(ctx)}; });
  Go<SCo>(ctx, "sparse_coefficients", 20, sparse);
  if (unclean_ok || !g_hostile)
    Go<Sparse>(ctx, "sparse_polynomial", 20, [&]() { return Sparse(sparse()); }, kEq, use_sparse);
  Go<Ev>(ctx, "evaluations", 20, [&]() { return Ev(AnyFs<F>(ctx, kMax + 1)); });
  using MEv = math::MultilinearDenseEvaluations<F, 4>;
  using MLE = math::MultilinearExtension<MEv>;
  auto mev = [&]() {
    std::vector<F> v(size_t{1} << ctx.rng.Below(5));
    for (F& f : v) f = AnyF<F>(ctx);
    return MEv(std::move(v));
  };
  Go<MEv>(ctx, "multilinear_evaluations", 20, mev);
  Go<MLE>(ctx, "multilinear_extension", 20, [&]() { return MLE(mev()); });
  using LT = math::LinearCombinationTerm<F>;
  Go<LT>(ctx, "linear_combination_term", 20, [&]() {
    std::vector<size_t> v(Len(ctx, 5));
    for (auto& x : v) x = AnyInt<size_t>(ctx);
    return LT{AnyF<F>(ctx), v};
  });

  // JSON
  if (g_hostile) return;
  if (ctx.Section("json/math")) {
    for (size_t i = 0; i < ctx.N(20); ++i) {
      vh::JsonRoundTrip(ctx, math::Point2<F>(AnyF<F>(ctx), AnyF<F>(ctx)), kEq);
      vh::JsonRoundTrip(ctx, math::Point3<Fr>(AnyF<Fr>(ctx), AnyF<Fr>(ctx), AnyF<Fr>(ctx)), kEq);
      vh::JsonRoundTrip(ctx, math::Point4<math::Goldilocks>(AnyF<math::Goldilocks>(ctx), AnyF<math::Goldilocks>(ctx), AnyF<math::Goldilocks>(ctx), AnyF<math::Goldilocks>(ctx)), kEq);
      vh::JsonRoundTrip(ctx, math::Point2<math::Mersenne31>(AnyF<math::Mersenne31>(ctx), AnyF<math::Mersenne31>(ctx)), kEq);
      vh::JsonRoundTrip(ctx, math::Dimensions{AnyInt<size_t>(ctx), AnyInt<size_t>(ctx)}, kEq);
      vh::JsonRoundTrip(ctx, AnyF<math::bn254::Fq2>(ctx), kEq);
      vh::JsonRoundTrip(ctx, AnyF<math::bn254::Fq6>(ctx), kEq);
      vh::JsonRoundTrip(ctx, AnyF<math::bn254::Fq12>(ctx), kEq);
      vh::JsonRoundTrip(ctx, AnyF<math::BabyBear4>(ctx), kEq);
      vh::JsonRoundTrip(ctx, DCo(AnyFs<F>(ctx, kMax + 1)), kEq);
      vh::JsonRoundTrip(ctx, Dense(DCo(AnyFs<F>(ctx, kMax + 1), /*cleanup=*/true)), kEq);
      vh::JsonRoundTrip(ctx, sparse(), kEq);
      vh::JsonRoundTrip(ctx, Sparse(sparse()), kEq);
      vh::JsonRoundTrip(ctx, Ev(AnyFs<F>(ctx, kMax + 1)), kEq);
      if (i % 4 == 0) {
        using G1 = math::bn254::G1Curve;
        vh::JsonRoundTrip(ctx, AnyPoint<math::AffinePoint<G1>>(ctx), kEq);
        vh::JsonRoundTrip(ctx, AnyPoint<math::ProjectivePoint<G1>>(ctx), kEq);
        vh::JsonRoundTrip(ctx, AnyPoint<math::JacobianPoint<G1>>(ctx), kEq);
        vh::JsonRoundTrip(ctx, AnyPoint<math::PointXYZZ<G1>>(ctx), kEq);
        vh::JsonRoundTrip(ctx, AnyPoint<math::AffinePoint<math::bn254::G2Curve>>(ctx), kEq);
      }
    }
  }
}

}  // namespace

template <typename T>
struct Num {
  T x{};
};
namespace tachyon::base {
template <typename T>
class RapidJsonValueConverter<Num<T>> {
 public:
  static bool To(const rapidjson::Value& j, std::string_view key, Num<T>* v, std::string* error) {
    return ParseJsonElement(j, "x", &v->x, error);
  }
};
}  // namespace tachyon::base

// A struct with one member of every builtin JSON type.
struct All {
  bool b = false;
  int8_t i8 = 0;
  uint8_t u8 = 0;
  int16_t i16 = 0;
  uint16_t u16 = 0;
  int32_t i32 = 0;
  uint32_t u32 = 0;
  int64_t i64 = 0;
  uint64_t u64 = 0;
  double d = 0;
  float f = 0;
  std::string s;
  E8 e = E8::kA;
  std::vector<std::string> vs;
  std::vector<std::vector<int>> vv;
  std::array<uint16_t, 3> a{};
  std::optional<int64_t> o;
  std::vector<std::optional<std::string>> vo;
  bool operator==(const All& x) const {
    return b == x.b && i8 == x.i8 && u8 == x.u8 && i16 == x.i16 && u16 == x.u16 && i32 == x.i32 && u32 == x.u32 &&
           i64 == x.i64 && u64 == x.u64 && SameBits(d, x.d) && SameBits(f, x.f) && s == x.s && e == x.e && vs == x.vs &&
           vv == x.vv && a == x.a && o == x.o && vo == x.vo;
  }
};
namespace tachyon::base {
template <>
class RapidJsonValueConverter<All> {
 public:
  template <typename A>
  static rapidjson::Value From(const All& v, A& al) {
    rapidjson::Value o(rapidjson::kObjectType);
#define M(n) AddJsonElement(o, #n, v.n, al);
#define ALL M(b) M(i8) M(u8) M(i16) M(u16) M(i32) M(u32) M(i64) M(u64) M(d) M(f) M(s) M(e) M(vs) M(vv) M(a) M(o) M(vo)
    ALL
#undef M
    return o;
  }
  static bool To(const rapidjson::Value& j, std::string_view key, All* v, std::string* error) {
#define M(n) if (!ParseJsonElement(j, #n, &v->n, error)) return false;
    ALL
#undef M
    return true;
  }
};
}  // namespace tachyon::base

namespace {

std::string Ascii(Ctx& ctx, size_t max) {
  std::string s(Len(ctx, max), 0);
  for (char& c : s) c = ctx.rng.Chance(1, 6) ? ctx.rng.Below(32) : 32 + ctx.rng.Below(95);
  return s;
}
All AnyAll(Ctx& ctx) {
  All v;
  v.b = ctx.rng.Bool();
  v.i8 = AnyInt<int8_t>(ctx);
  v.u8 = AnyInt<uint8_t>(ctx);
  v.i16 = AnyInt<int16_t>(ctx);
  v.u16 = AnyInt<uint16_t>(ctx);
  v.i32 = AnyInt<int32_t>(ctx);
  v.u32 = AnyInt<uint32_t>(ctx);
  v.i64 = AnyInt<int64_t>(ctx);
  v.u64 = AnyInt<uint64_t>(ctx);
  do v.d = AnyFloat<double>(ctx); while (std::isinf(v.d));
  do v.f = AnyFloat<float>(ctx); while (std::isinf(v.f));
  v.s = Ascii(ctx, 20);
  v.e = ctx.rng.Bool() ? E8::kA : E8::kB;
  v.vs.resize(Len(ctx, 4));
  for (auto& s : v.vs) s = Ascii(ctx, 6);
  v.vv.resize(Len(ctx, 4));
  for (auto& x : v.vv) {
    x.resize(Len(ctx, 3));
    for (auto& y : x) y = AnyInt<int>(ctx);
  }
  for (auto& x : v.a) x = AnyInt<uint16_t>(ctx);
  if (ctx.rng.Bool()) v.o = AnyInt<int64_t>(ctx);
  v.vo.resize(Len(ctx, 3));
  for (auto& x : v.vo)
    if (ctx.rng.Bool()) x = Ascii(ctx, 5);
  return v;
}

void JsonBase(Ctx& ctx) {
  if (!g_hostile) {
    if (ctx.Section("json/all"))
      for (size_t i = 0; i < ctx.N(200); ++i) vh::JsonRoundTrip(ctx, AnyAll(ctx), kEq);
    if (ctx.Section("json/top_level"))
      for (size_t i = 0; i < ctx.N(60); ++i) {
        vh::JsonRoundTrip(ctx, AnyInt<int64_t>(ctx), kEq, "json_top_level");
        vh::JsonRoundTrip(ctx, AnyAll(ctx).vs, kEq, "json_top_level");
        vh::JsonRoundTrip(ctx, AnyAll(ctx).vv, kEq, "json_top_level");
        vh::JsonRoundTrip(ctx, Ascii(ctx, 20), kEq, "json_top_level");
        vh::JsonRoundTrip(ctx, AnyF<math::bn254::Fr>(ctx), kEq, "json_top_level");
        vh::JsonRoundTrip(ctx, AnyFs<math::BabyBear>(ctx, 5), kEq, "json_top_level");
        vh::JsonRoundTrip(ctx, std::optional<int>(), kEq, "json_top_level");
      }
    // Range limits of every width: the number decodes exactly if it fits.
    if (ctx.Section("json/ranges")) {
      for (size_t i = 0; i < ctx.N(400); ++i) {
        __int128 n = 0;
        static const __int128 kB[] = {0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648ll, 4294967295ll, 4294967296ll,
                                      INT64_MAX, (__int128)INT64_MAX + 1, (__int128)UINT64_MAX, (__int128)UINT64_MAX + 1};
        n = kB[ctx.rng.Below(17)] + ctx.rng.Range(-2, 2);
        if (ctx.rng.Bool()) n = -n;
        auto dec = [](__int128 v) {
          bool neg = v < 0;
          std::string s;
          unsigned __int128 u = neg ? -(unsigned __int128)v : v;
          do s.insert(s.begin(), '0' + int(u % 10)), u /= 10; while (u);
          return (neg ? "-" : "") + s;
        };
        std::string s = "{\"x\": " + dec(n) + ", \"y\": 1}";
        ctx.Distinct(vh::HashStr(s));
        auto one = [&](auto zero) {
          using T = decltype(zero);
          Num<T> p;
          std::string err;
          bool fits = n >= (__int128)std::numeric_limits<T>::min() && n <= (__int128)std::numeric_limits<T>::max();
          bool ok = tb::ParseJson(s, &p, &err);
          ctx.CheckF(ok == fits && (!ok || (__int128)p.x == n), "json_number_accepted_iff_it_fits",
                     [&]() { return s + " as " + std::to_string(sizeof(T) * 8) + (std::is_signed_v<T> ? "s" : "u"); });
          if (!ok) ctx.CheckF(!err.empty(), "json_error_text", [&]() { return s; });
        };
        one(int8_t{}); one(uint8_t{}); one(int16_t{}); one(uint16_t{}); one(int32_t{}); one(uint32_t{}); one(int64_t{}); one(uint64_t{});
        math::Point2<math::BabyBear> p;
        std::string err;
        bool ok = tb::ParseJson(s, &p, &err);
        ctx.CheckF(ok == (n >= 0 && n < math::BabyBear::Config::kModulus), "json_field_below_modulus_only", [&]() { return s; });
      }
    }
    return;
  }
  if (!ctx.Section("hostile/json")) return;
  std::vector<std::string> seeds;
  for (size_t i = 0; i < ctx.N(400); ++i) {
    std::string s;
    switch (ctx.rng.Below(9)) {
      case 0: s = AnyString(ctx, 60); break;
      case 1: s = ctx.rng.Pick(std::vector<std::string>{"", "1", "[]", "null", "true", "\"x\"", "[1,2]", "{}", "[{}]", "1.5", "-", "{\"x\"}", "{\"x\":", "1e999", "-1e999", "nan", "[[[", "{\"x\":{\"x\":{}}}", "\xef\xbb\xbf{}", "{}{}", "{} 1"}); break;
      case 2: {  // wrong type for a member
        static const char* kV[] = {"1", "-1", "\"\"", "[]", "{}", "null", "true", "1e400", "1.5", "\"0x\"", "\"0xzz\"", "\"0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff\"", "18446744073709551616", "[[[]]]", "\"\\u0000\"", "[1,[2]]"};
        s = std::string("{\"x\": ") + kV[ctx.rng.Below(16)] + ", \"y\": " + kV[ctx.rng.Below(16)] + ", \"c0\": " + kV[ctx.rng.Below(16)] + ", \"c1\": " + kV[ctx.rng.Below(16)] +
            ", \"terms\": " + kV[ctx.rng.Below(16)] + ", \"coefficients\": " + kV[ctx.rng.Below(16)] + ", \"evaluations\": " + kV[ctx.rng.Below(16)] + "}";
        break;
      }
      case 3: {
        size_t depth = ctx.rng.Bool() ? 10 + ctx.rng.Below(100) : 300000;
        bool arr = ctx.rng.Bool();
        for (size_t k = 0; k < depth; ++k) s += arr ? "[" : "{\"x\":";
        if (ctx.rng.Bool())
          for (size_t k = 0; k < depth; ++k) s += arr ? "]" : "}";
        break;
      }
      default: {
        std::string base = ctx.rng.Bool() ? tb::WriteToJson(AnyAll(ctx))
                                          : tb::WriteToJson(math::Point2<math::bn254::Fr>(AnyF<math::bn254::Fr>(ctx), AnyF<math::bn254::Fr>(ctx)));
        std::vector<uint8_t> m = vh::Mutate(ctx, std::vector<uint8_t>(base.begin(), base.end()));
        s.assign(m.begin(), m.end());
      }
    }
    ctx.Case("json " + std::to_string(s.size()) + " bytes: " + s.substr(0, 400));
    ctx.Distinct(vh::HashStr(s));
    std::string err;
    vh::Exact ex(reinterpret_cast<const uint8_t*>(s.data()), s.size());
    std::string_view sv(reinterpret_cast<const char*>(ex.p.get()), ex.n);
    auto one = [&](auto v) {
      bool ok = tb::ParseJson(sv, &v, &err);
      ctx.Count(ok ? "json_accepted" : "json_refused");
      ctx.Check(true, "hostile_json_survived", "");
      // near misses of what this type's own document looks like
      std::string own = tb::WriteToJson(v);
      std::vector<uint8_t> m(own.begin(), own.end());
      size_t edits = ctx.rng.Below(3);
      for (size_t k = 0; k < edits && !m.empty(); ++k) {
        size_t at = ctx.rng.Below(m.size());
        switch (ctx.rng.Below(4)) {
          case 0: m[at] = '0' + ctx.rng.Below(10); break;
          case 1: m.erase(m.begin() + at); break;
          case 2: m.insert(m.begin() + at, "0123456789[]{},:\"-.e\\ntf"[ctx.rng.Below(24)]); break;
          default: m[at] ^= 1 << ctx.rng.Below(7);
        }
      }
      ctx.Case("own json " + std::string(m.begin(), m.end()).substr(0, 400));
      vh::Exact ex2(m.data(), m.size());
      auto w = v;
      err.clear();
      ok = tb::ParseJson(std::string_view(reinterpret_cast<const char*>(ex2.p.get()), ex2.n), &w, &err);
      ctx.Count(ok ? "own_json_accepted" : "own_json_refused");
      if (edits == 0) ctx.CheckF(ok, "own_json_is_accepted", [&]() { return own; });
    };
    one(All());
    one(math::Point2<math::bn254::Fr>(AnyF<math::bn254::Fr>(ctx), AnyF<math::bn254::Fr>(ctx)));
    one(math::Point2<math::BabyBear>());
    one(math::bn254::Fq2::Zero());
    one(math::bn254::G1AffinePoint());
#ifdef NDEBUG
    one(math::UnivariateDensePolynomial<math::BabyBear, 3>(math::UnivariateDenseCoefficients<math::BabyBear, 3>(AnyFs<math::BabyBear>(ctx, 4), true)));
    one(math::UnivariateSparsePolynomial<math::BabyBear, 30>());
#endif
    one(math::UnivariateEvaluations<math::BabyBear, 3>());
    one(std::vector<int>());
    one(uint8_t{});
  }
}

// Numbers written as text: accepted exactly when they are what they should be.
void NumberText(Ctx& ctx) {
  if (!g_hostile || !ctx.Section("hostile/number_text")) return;
  for (size_t i = 0; i < ctx.N(800); ++i) {
    std::string s;
    switch (ctx.rng.Below(6)) {
      case 0: s = AnyString(ctx, 20); break;
      case 1: s = Ascii(ctx, 100); break;
      case 2: s = std::string(ctx.rng.Below(300), "0123456789abcdefABCDEFx"[ctx.rng.Below(23)]); break;
      case 3:
        s = ctx.rng.Bool() ? "0x" : "";
        for (size_t k = ctx.rng.Below(120); k > 0; --k) s += "0123456789abcdef"[ctx.rng.Below(16)];
        break;
      case 4: s = ctx.rng.Pick(std::vector<std::string>{"", "-", "+", "0x", "x", "-0x", " 1", "1 ", "--1", "0x-1", "1e5", "٣", "0b1", "00", "-0", "1\n", "1_0"}); break;
      default:
        for (size_t k = ctx.rng.Below(100); k > 0; --k) s += '0' + ctx.rng.Below(10);
    }
    ctx.Case("number " + s);
    ctx.Distinct(vh::HashStr(s));
    auto ex = std::make_unique<char[]>(s.size() + 1);
    memcpy(ex.get(), s.data(), s.size());
    std::unique_ptr<char[]> tight(new char[s.size() ? s.size() : 1]);
    memcpy(tight.get(), s.data(), s.size());
    std::string_view sv(tight.get(), s.size());
    bool dec = !s.empty(), hex = s.size() > 0;
    for (char c : s) dec = dec && c >= '0' && c <= '9';
    std::string h = s;
    if (h.size() >= 2 && h[0] == '0' && (h[1] == 'x' || h[1] == 'X')) h = h.substr(2);
    for (char c : h) hex = hex && isxdigit(static_cast<unsigned char>(c));
    hex = hex && !h.empty();
    auto show = [&]() { return "\"" + s + "\""; };
    auto b = math::BigInt<4>::FromDecString(sv);
    ctx.Count(b ? "text_accepted" : "text_refused");
    if (!dec && s.find_first_of(" \t\n\v\f\r-") == std::string::npos)
      ctx.CheckF(!b.has_value(), "not_a_decimal_number_refused", show);
    if (dec && s.size() <= 70) ctx.CheckF(b.has_value(), "decimal_number_accepted", show);
    if (dec && s.size() > 120 && s[0] != '0') ctx.CheckF(!b.has_value(), "too_large_refused", show);
    auto x = math::BigInt<4>::FromHexString(sv);
    if (!hex && s.find_first_of(" \t\n\v\f\r-") == std::string::npos)
      ctx.CheckF(!x.has_value(), "not_a_hex_number_refused", show);
    if (hex && h.size() <= 64) ctx.CheckF(x.has_value(), "hex_number_accepted", show);
    (void)math::bn254::Fr::FromDecString(sv);
    (void)math::bn254::Fr::FromHexString(sv);
    (void)math::BabyBear::FromDecString(sv);
    (void)math::BabyBear::FromHexString(sv);
    (void)math::Goldilocks::FromHexString(sv);
    (void)math::BigInt<1>::FromDecString(sv);
    ctx.Check(true, "hostile_text_survived", "");
  }
}

}  // namespace

void vh_main(Ctx& ctx) {
  g_hostile = ctx.mode == "p26";
  math::bn254::BN254Curve::Init();
  math::bls12_381::G1Curve::Init();
  BuiltinTypes(ctx);
  BufferForms(ctx);
  BufferBounds(ctx);
  Primes<math::bn254::Fq>(ctx, "bn254_fq");
  Primes<math::bn254::Fr>(ctx, "bn254_fr");
  Primes<math::bls12_381::Fq>(ctx, "bls12_381_fq");
  Primes<math::Goldilocks>(ctx, "goldilocks");
  Primes<math::BabyBear>(ctx, "baby_bear");
  Primes<math::KoalaBear>(ctx, "koala_bear");
  Primes<math::Mersenne31>(ctx, "mersenne31");
  Primes<math::GF7>(ctx, "gf7");
  FieldTypes<math::bn254::Fq2>(ctx, "bn254_fq2", 10);
  FieldTypes<math::bn254::Fq6>(ctx, "bn254_fq6", 5);
  FieldTypes<math::bn254::Fq12>(ctx, "bn254_fq12", 5);
  FieldTypes<math::BabyBear4>(ctx, "baby_bear4", 10);
  Points<math::bn254::G1Curve>(ctx, "bn254_g1");
  Points<math::bn254::G2Curve>(ctx, "bn254_g2");
  Points<math::bls12_381::G1Curve>(ctx, "bls12_381_g1");
  Composite(ctx);
  JsonBase(ctx);
  NumberText(ctx);
  if (g_hostile) {
    for (const char* m : {"truncated_refused", "hostile_bytes_survived", "hostile_json_survived", "hostile_text_survived", "own_json_accepted", "own_json_refused", "accepted", "refused"}) ctx.Require(m);
  } else {
    for (const char* m : {"read_back_equal", "byte_layout", "json_round_trip", "estimated_size_is_written_size", "moved_buffer_keeps_its_contents", "write_many_at", "json_number_accepted_iff_it_fits"}) ctx.Require(m);
  }
}
