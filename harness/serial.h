// Round-trip and hostile-input monitors shared by h_serial*.cc (P25, P26).
#ifndef VH_SERIAL_H_
#define VH_SERIAL_H_

#include <sys/resource.h>

#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "tachyon/base/buffer/copyable.h"
#include "tachyon/base/buffer/string_buffer.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/base/json/json.h"
#include "vh.h"

namespace tb = tachyon::base;

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
// No input here is larger than a few megabytes; decoding one must not ask for
// memory out of all proportion.
extern "C" inline __attribute__((used, visibility("default"))) const char* __asan_default_options() {
  return "max_allocation_size_mb=256";
}
#endif
#endif

namespace vh {

inline std::string Hex(const uint8_t* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n && i < 200; ++i) {
    s += d[p[i] >> 4];
    s += d[p[i] & 15];
  }
  return s + (n > 200 ? "..." : "");
}
inline std::string Hex(const std::vector<uint8_t>& v) { return Hex(v.data(), v.size()); }
inline std::string Hex(const std::string& v) {
  return Hex(reinterpret_cast<const uint8_t*>(v.data()), v.size());
}

// heap copy of exactly n bytes, so that an access one past the end is seen
struct Exact {
  std::unique_ptr<uint8_t[]> p;
  size_t n;
  Exact(const uint8_t* d, size_t n) : p(new uint8_t[n ? n : 1]), n(n) {
    if (n) memcpy(p.get(), d, n);
  }
  explicit Exact(const std::vector<uint8_t>& v) : Exact(v.data(), v.size()) {}
};

inline const char* EndianName(tb::Endian e) {
  return e == tb::Endian::kNative ? "native"
                                  : e == tb::Endian::kBig ? "big" : "little";
}

template <typename T>
std::vector<uint8_t> Encode(const T& v, tb::Endian e) {
  tb::Uint8VectorBuffer w;
  w.set_endian(e);
  if (!w.Write(v)) return {};
  return std::vector<uint8_t>(w.owned_buffer().begin(),
                              w.owned_buffer().begin() + w.buffer_offset());
}

// |gen|() makes a value, |same|(a, b) compares.
template <typename T, typename Gen, typename Same>
void RoundTrip(Ctx& ctx, size_t n, Gen gen, Same same) {
  static const tb::Endian kEndians[] = {tb::Endian::kNative, tb::Endian::kBig,
                                        tb::Endian::kLittle};
  for (size_t it = 0; it < n; ++it) {
    T v = gen();
    for (tb::Endian e : kEndians) {
      std::vector<uint8_t> enc = Encode(v, e);
      auto show = [&]() { return std::string(EndianName(e)) + " " + Hex(enc); };
      ctx.Case(show());
      size_t est = tb::EstimateSize(v);
      ctx.Distinct(HashBytes(enc.data(), enc.size()));
      ctx.Eq(est, enc.size(), "estimated_size_is_written_size", show);
      // an exactly sized fixed buffer takes it, and gets the same bytes
      {
        Exact m(enc);
        if (m.n) memset(m.p.get(), 0xa5, m.n);
        tb::Buffer f(m.p.get(), m.n);
        f.set_endian(e);
        bool ok = f.Write(v);
        ctx.CheckF(ok && f.Done() && f.buffer_offset() == enc.size() &&
                       memcmp(m.p.get(), enc.data(), m.n) == 0,
                   "fixed_buffer_of_the_estimated_size", show);
      }
      // one that is too small refuses
      if (!enc.empty()) {
        size_t k = ctx.rng.Chance(1, 2) ? enc.size() - 1 : ctx.rng.Below(enc.size());
        Exact m(enc.data(), k);
        tb::Buffer f(m.p.get(), k);
        f.set_endian(e);
        ctx.CheckF(!f.Write(v), "short_fixed_buffer_refused", show);
      }
      // reading gives it back, into a fresh and into a used object
      for (int used = 0; used < 2; ++used) {
        Exact m(enc);
        tb::ReadOnlyBuffer r(m.p.get(), m.n);
        r.set_endian(e);
        T back = used ? gen() : T();
        bool ok = r.Read(&back);
        ctx.CheckF(ok, "read_back_succeeds", show);
        if (!ok) continue;
        ctx.CheckF(r.Done(), "read_consumes_exactly_what_was_written", [&]() {
          return show() + " offset " + std::to_string(r.buffer_offset());
        });
        ctx.CheckF(same(v, back), "read_back_equal", show);
        ctx.CheckF(Encode(back, e) == enc, "reencoding_identical", show);
      }
      // inside a stream: junk, v, marker, v2, marker
      {
        T v2 = gen();
        uint64_t m1 = ctx.rng.U64(), m2 = ctx.rng.U64();
        std::vector<uint8_t> junk(ctx.rng.Below(20), 0x5a);
        tb::Uint8VectorBuffer w;
        w.set_endian(e);
        bool ok = w.Write(junk.data(), junk.size());
        ok = ok && w.WriteMany(v, m1, v2, m2);
        T a = T(), b = T();
        uint64_t x1 = 0, x2 = 0;
        w.set_buffer_offset(junk.size());
        ok = ok && w.ReadMany(&a, &x1, &b, &x2);
        ctx.CheckF(ok && x1 == m1 && x2 == m2 && same(a, v) && same(b, v2) && w.Done(),
                   "stream_of_values", show);
        // at an absolute offset
        w.set_buffer_offset(0);
        T c = T();
        ok = w.ReadAt(junk.size(), &c);
        ctx.CheckF(ok && same(c, v) &&
                       w.buffer_offset() == junk.size() + enc.size(),
                   "read_at_offset", show);
        // overwrite in the middle leaves the rest
        ok = w.WriteAt(junk.size(), v) && w.Read(&x1) && x1 == m1 && w.Read(&b) &&
             same(b, v2);
        ctx.CheckF(ok, "write_at_offset", show);
      }
    }
  }
}

// A strict prefix of an encoding never decodes.
template <typename T, typename Gen>
void Truncated(Ctx& ctx, size_t n, Gen gen) {
  for (size_t it = 0; it < n; ++it) {
    std::vector<uint8_t> enc = Encode(gen(), tb::Endian::kNative);
    size_t tries = enc.size() <= 64 ? enc.size() : 16;
    for (size_t t = 0; t < tries; ++t) {
      size_t k = enc.size() <= 64 ? t : t < 4 ? enc.size() - 1 - t : ctx.rng.Below(enc.size());
      Exact m(enc.data(), k);
      tb::ReadOnlyBuffer r(m.p.get(), k);
      T back = T();
      ctx.CheckF(!r.Read(&back), "truncated_refused", [&]() {
        return std::to_string(k) + " of " + Hex(enc);
      });
    }
  }
}

inline std::vector<uint8_t> Mutate(Ctx& ctx, std::vector<uint8_t> b) {
  size_t edits = 1 + ctx.rng.Below(4);
  for (size_t i = 0; i < edits; ++i) {
    switch (ctx.rng.Below(7)) {
      case 0:
        if (!b.empty()) b[ctx.rng.Below(b.size())] ^= 1 << ctx.rng.Below(8);
        break;
      case 1:  // a length-like word
        if (b.size() >= 8) {
          static const uint64_t kW[] = {0, 1, 2, 3, 0x7f, 0xff, 0x100, 0xffff, 1ull << 20, 1ull << 28,
                                        1ull << 31, 1ull << 32, 1ull << 40, 1ull << 58, (1ull << 59) + 1,
                                        1ull << 60, 1ull << 61, 1ull << 62, 1ull << 63, ~0ull, ~0ull - 7, ~0ull / 8, ~0ull / 32};
          uint64_t w = kW[ctx.rng.Below(sizeof kW / sizeof *kW)];
          size_t at = ctx.rng.Bool() ? ctx.rng.Below(b.size() / 8) * 8 : ctx.rng.Below(b.size() - 7);
          memcpy(&b[at], &w, 8);
        }
        break;
      case 2:
        b.resize(ctx.rng.Below(b.size() + 1));
        break;
      case 3: {
        size_t k = ctx.rng.Below(24);
        for (size_t j = 0; j < k; ++j) b.push_back(ctx.rng.U32());
        break;
      }
      case 4:
        if (b.size() > 4) {
          size_t a = ctx.rng.Below(b.size()), l = ctx.rng.Below(b.size() - a);
          b.erase(b.begin() + a, b.begin() + a + l);
        }
        break;
      case 5:
        if (!b.empty()) {
          size_t a = ctx.rng.Below(b.size());
          size_t l = 1 + ctx.rng.Below(std::min<size_t>(b.size() - a, 40));
          for (size_t j = a; j < a + l; ++j) b[j] = ctx.rng.Bool() ? 0xff : ctx.rng.U32();
        }
        break;
      case 6:
        if (b.size() > 8) {
          size_t a = ctx.rng.Below(b.size() - 8), c = ctx.rng.Below(b.size() - 8);
          memmove(&b[a], &b[c], 8);
        }
    }
  }
  return b;
}

// Arbitrary bytes either decode or are refused. Called where the address space
// is limited, so an allocation out of proportion ends the process.
template <typename T, typename Gen, typename Use>
void HostileOnce(Ctx& ctx, Gen gen, Use use) {
  std::vector<uint8_t> b;
  if (ctx.rng.Chance(1, 6)) {
    b.resize(ctx.rng.Below(100));
    for (uint8_t& c : b) c = ctx.rng.U32();
  } else {
    b = Mutate(ctx, Encode(gen(), tb::Endian::kNative));
  }
  ctx.Case("bytes " + Hex(b));
  ctx.Distinct(HashBytes(b.data(), b.size()));
  Exact m(b);
  tb::ReadOnlyBuffer r(m.p.get(), m.n);
  T v = T();
  bool ok = r.Read(&v);
  ctx.Count(ok ? "accepted" : "refused");
  if (ok) {
    ctx.CheckF(r.buffer_offset() <= m.n, "offset_inside", [&]() { return Hex(b); });
    use(v);
  }
  ctx.Check(true, "hostile_bytes_survived", "");
}

template <typename T, typename Same>
void JsonRoundTrip(Ctx& ctx, const T& v, Same same, const char* mon = "json_round_trip") {
  std::string s = tb::WriteToJson(v), err;
  ctx.Case("json " + s.substr(0, 300));
  ctx.Distinct(HashStr(s));
  T back = T();
  bool ok = tb::ParseJson(s, &back, &err);
  ctx.CheckF(ok && same(v, back), mon, [&]() { return s.substr(0, 600) + " error " + err; });
  if (ok) ctx.CheckF(tb::WriteToJson(back) == s, "json_stable", [&]() { return s.substr(0, 600); });
}

}  // namespace vh

#endif  // VH_SERIAL_H_
