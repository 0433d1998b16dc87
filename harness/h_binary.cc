// P05: binary tower fields against the recursive tower definition.
#include <memory>

#include "tachyon/math/finite_fields/binary_fields/binary_fields.h"
#include "vh/vh.h"

using namespace tachyon::math;
using vh::Ctx;
using vh::Rng;
typedef unsigned __int128 u128;

namespace {

// F_2[X_0]/(X_0^2 + X_0 + 1), F_{2^(2n)} = F_{2^n}[X]/(X^2 + X*X_prev + 1).
// Bits: low half = constant coefficient.
u128 RefMulRaw(u128 a, u128 b, unsigned bits);
uint8_t g_tab[256][256];
bool g_tab_ready = false;

u128 Alpha(unsigned bits) {  // the generator of the field with this many bits
  return bits == 1 ? u128{1} : u128{1} << (bits / 2);
}

u128 RefMulRaw(u128 a, u128 b, unsigned bits) {
  if (bits == 1) return a & b & 1;
  if (bits == 8 && g_tab_ready) return g_tab[(uint8_t)a][(uint8_t)b];
  if (!a || !b) return 0;
  unsigned h = bits / 2;
  u128 m = (u128{1} << h) - 1;
  u128 a0 = a & m, a1 = a >> h, b0 = b & m, b1 = b >> h;
  u128 hh = RefMulRaw(a1, b1, h);
  u128 lo = RefMulRaw(a0, b0, h) ^ hh;
  u128 hi = RefMulRaw(a0, b1, h) ^ RefMulRaw(a1, b0, h) ^
            RefMulRaw(hh, Alpha(h), h);
  return lo | (hi << h);
}

void InitTab() {
  for (int i = 0; i < 256; ++i)
    for (int j = 0; j < 256; ++j) g_tab[i][j] = (uint8_t)RefMulRaw(i, j, 8);
  g_tab_ready = true;
}

template <typename F>
u128 V(const F& f) {
  if constexpr (F::kBits <= 64)
    return f.value();
  else
    return u128{f.value()[0]} | (u128{f.value()[1]} << 64);
}
template <typename F>
F Mk(u128 v) {
  if constexpr (F::kBits <= 64)
    return F(static_cast<typename F::value_type>(v));
  else
    return F(BigInt<2>({(uint64_t)v, (uint64_t)(v >> 64)}));
}
std::string Hx(u128 v) {
  char b[40];
  snprintf(b, sizeof b, "%llx:%016llx", (unsigned long long)(v >> 64),
           (unsigned long long)v);
  return b;
}
std::string Dec(u128 v) {
  if (!v) return "0";
  std::string s;
  for (; v; v /= 10) s.insert(s.begin(), '0' + (int)(v % 10));
  return s;
}
template <typename F>
u128 Mask() {
  return F::kBits == 128 ? ~u128{0} : (u128{1} << (F::kBits % 128)) - 1;
}

template <typename F>
u128 Gen(Rng& r) {
  u128 m = Mask<F>();
  u128 v = (u128{r.U64()} << 64) | r.U64();
  switch (r.Below(6)) {
    case 0: v = u128{1} << r.Below(F::kBits); break;
    case 1: v = r.Below(4); break;
    case 2: v = ~u128{0} ^ r.Below(4); break;
    case 3: v &= (u128{1} << (F::kBits / 2)) - 1; break;  // subfield
    case 4: v &= ~((u128{1} << (F::kBits / 2)) - 1); break;
  }
  return v & m;
}

template <typename F>
void Pair(Ctx& c, u128 a, u128 b) {
  constexpr unsigned B = F::kBits;
  F x = Mk<F>(a), y = Mk<F>(b);
  auto in = [&] { return Hx(a) + " , " + Hx(b); };
  auto T = [&](const F& got, u128 want, const char* m) {
    c.CheckF(V(got) == want, m, [&] {
      return "input " + in() + " got " + Hx(V(got)) + " want " + Hx(want);
    });
  };
  u128 ab = RefMulRaw(a, b, B);
  T(x + y, a ^ b, "add");
  T(x - y, a ^ b, "sub");
  T(x * y, ab, "mul");
  F z = x;
  z += y;
  T(z, a ^ b, "add in place");
  z = x;
  z -= y;
  T(z, a ^ b, "sub in place");
  z = x;
  z *= y;
  T(z, ab, "mul in place");
  z = x;
  z *= z;
  T(z, RefMulRaw(a, a, B), "x *= x");
  z = x;
  z += z;
  T(z, 0, "x += x");
  z = x;
  z -= z;
  T(z, 0, "x -= x");
  c.CheckF((x == y) == (a == b) && (x != y) == (a != b) &&
               (x < y) == (a < b) && (x <= y) == (a <= b) &&
               (x > y) == (a > b) && (x >= y) == (a >= b),
           "comparison", in);
  auto q = x / y;
  if (b == 0) {
    c.CheckF(!q, "division by zero reported", in);
    z = x;
    c.CheckF(!(z /= y), "in-place division by zero reported", in);
  } else if (c.CheckF(!!q, "division has a result", in)) {
    c.CheckF(RefMulRaw(V(*q), b, B) == a, "(a/b)*b == a",
             [&] { return "input " + in() + " got " + Hx(V(*q)); });
    z = x;
    c.CheckF(!!(z /= y), "in-place division has a result", in);
    T(z, V(*q), "div in place");
  }
}

template <typename F>
void One(Ctx& c, u128 a) {
  constexpr unsigned B = F::kBits;
  F x = Mk<F>(a);
  auto in = [&] { return Hx(a); };
  auto T = [&](const F& got, u128 want, const char* m) {
    c.CheckF(V(got) == want, m, [&] {
      return "input " + in() + " got " + Hx(V(got)) + " want " + Hx(want);
    });
  };
  u128 sq = RefMulRaw(a, a, B);
  c.Distinct(vh::Mix((uint64_t)a) ^ (uint64_t)(a >> 64));
  T(x.Square(), sq, "square");
  F z = x;
  z.SquareInPlace();
  T(z, sq, "square in place");
  T(x.Double(), 0, "double");
  z = x;
  z.DoubleInPlace();
  T(z, 0, "double in place");
  T(-x, a, "negate");
  z = x;
  z.NegateInPlace();
  T(z, a, "negate in place");
  T(BinaryTowerOperations<F>::MulByAlpha(x), RefMulRaw(a, Alpha(B), B),
    "mul by the tower generator");
  auto inv = x.Inverse();
  z = x;
  auto inv2 = z.InverseInPlace();
  if (a == 0) {
    c.CheckF(!inv && !inv2, "inverse of zero reported", in);
    c.CheckF(x.IsZero() && !x.IsOne(), "IsZero", in);
  } else if (c.CheckF(inv && inv2, "inverse exists", in)) {
    c.CheckF(RefMulRaw(V(*inv), a, B) == 1, "x * inverse == 1",
             [&] { return "input " + in() + " got " + Hx(V(*inv)); });
    T(z, V(*inv), "inverse in place");
    c.CheckF(!x.IsZero() && x.IsOne() == (a == 1) && x.IsMinusOne() == (a == 1),
             "IsOne", in);
  }
  // x^(2^bits) == x
  u128 e = a;
  F w = x;
  for (unsigned i = 0; i < B; ++i) {
    w = w.Square();
    if (i < 8) {
      e = RefMulRaw(e, e, B);
      T(w, e, "repeated square");
    }
  }
  T(w, a, "x^(2^bits) == x");
  // text
  c.CheckF(x.ToString() == Dec(a), "decimal text",
           [&] { return in() + " got " + x.ToString(); });
  auto back = F::FromDecString(x.ToString());
  c.CheckF(back && V(*back) == a, "decimal round trip", in);
  for (bool pad : {false, true}) {
    auto hb = F::FromHexString(x.ToHexString(pad));
    c.CheckF(hb && V(*hb) == a, "hex round trip",
             [&] { return in() + " text " + x.ToHexString(pad); });
  }
  auto bi = x.ToBigInt();
  c.CheckF(bi[0] == (uint64_t)a, "ToBigInt", in);
  T(F::FromBigInt(bi), a, "FromBigInt");
  if constexpr (B >= 16) {
    auto [lo, hi] = x.Decompose();
    unsigned h = B / 2;
    u128 m = (u128{1} << h) - 1;
    c.CheckF(V(lo) == (a & m) && V(hi) == (a >> h), "decompose", in);
    T(F::Compose(lo, hi), a, "compose(decompose)");
    // the subfield embeds
    using S = typename F::SubField;
    F elo = F::Compose(lo, S::Zero()), ehi = F::Compose(hi, S::Zero());
    T(elo * ehi, V(lo * hi), "embedding is multiplicative");
    T(x * elo, V(F::Compose(lo * lo, hi * lo)), "mul by a subfield element");
    auto se = elo.Inverse();
    auto si = lo.Inverse();
    c.CheckF(!!se == !!si && (!se || V(*se) == V(*si)),
             "subfield inverse embeds", in);
  }
}

template <typename F>
void Derived(Ctx& c) {
  constexpr unsigned B = F::kBits;
  Rng& r = c.rng;
  size_t n = c.N(40);
  for (size_t it = 0; it < n && c.TimeLeft(); ++it) {
    // powers, big exponents
    u128 a = Gen<F>(r);
    F x = Mk<F>(a);
    BigInt<2> ex({r.U64() >> r.Below(64), r.Bool() ? 0 : r.U64() >> r.Below(64)});
    u128 want = 1;
    for (int i = 127; i >= 0; --i) {
      want = RefMulRaw(want, want, B);
      if ((ex[i / 64] >> (i % 64)) & 1) want = RefMulRaw(want, a, B);
    }
    auto in = [&] { return Hx(a) + "^" + ex.ToHexString(); };
    F p = x.Pow(ex);
    c.CheckF(V(p) == want, "power", [&] { return in() + " got " + Hx(V(p)); });
    F lp = x.Pow(uint64_t{7});
    u128 w7 = a;
    for (int i = 0; i < 6; ++i) w7 = RefMulRaw(w7, a, B);
    c.CheckF(V(lp) == w7, "power 7", in);
    size_t len = r.Below(12);
    auto pw = F::GetSuccessivePowers(len, x);
    bool ok = pw.size() == len;
    u128 cur = 1;
    for (size_t i = 0; ok && i < len; ++i) {
      ok = V(pw[i]) == cur;
      cur = RefMulRaw(cur, a, B);
    }
    c.CheckF(ok, "successive powers", in);
    // batch inverse with zeros
    std::vector<F> v;
    for (size_t i = 0; i < len; ++i)
      v.push_back(r.Chance(1, 4) ? F::Zero() : Mk<F>(Gen<F>(r)));
    std::vector<F> o(len, F::One());
    ok = F::BatchInverse(v, &o);
    for (size_t i = 0; ok && i < len; ++i)
      ok = v[i].IsZero() ? o[i].IsZero()
                         : RefMulRaw(V(v[i]), V(o[i]), B) == 1;
    c.CheckF(ok, "batch inverse", [&] { return vh::Show(v); });
    ok = F::BatchInverseInPlace(v);
    c.CheckF(ok && v == o, "batch inverse in place",
             [&] { return vh::Show(v); });
    // sums of products
    std::vector<F> s, t;
    u128 acc = 0;
    for (size_t i = 0; i < len + 1; ++i) {
      s.push_back(Mk<F>(Gen<F>(r)));
      t.push_back(Mk<F>(Gen<F>(r)));
      acc ^= RefMulRaw(V(s[i]), V(t[i]), B);
    }
    c.CheckF(V(F::SumOfProducts(s, t)) == acc, "sum of products",
             [&] { return vh::Show(s) + " . " + vh::Show(t); });
    F rnd = F::Random();
    c.CheckF(V(rnd) <= Mask<F>(), "random in range",
             [&] { return Hx(V(rnd)); });
  }
  // out-of-range and malformed text is rejected
  auto rej = [&](const std::string& s, bool hex) {
    auto g = hex ? F::FromHexString(s) : F::FromDecString(s);
    c.CheckF(!g, "bad text rejected", [&] {
      return (hex ? "hex '" : "dec '") + s + "' got " + Hx(V(*g));
    });
  };
  for (bool hex : {false, true}) {
    rej("", hex);
    rej("xyz", hex);
    rej("-1", hex);
    rej("1 2z", hex);
  }
  if (B < 128) {
    rej(Dec(u128{1} << (B % 128)), false);
    rej(Dec((u128{1} << (B % 128)) + 1), false);
    std::string h = "0x1";
    if (B < 4)
      h = "0x" + std::to_string(1 << (B % 128));
    else
      h += std::string(B / 4, '0');
    rej(h, true);
  } else {
    rej("340282366920938463463374607431768211456", false);
    rej("0x100000000000000000000000000000000", true);
  }
  rej("0x" + std::string(40, 'f'), true);
  rej(std::string(60, '9'), false);
  c.CheckF(F::Zero().IsZero() && F::One().IsOne() && V(F::One()) == 1 &&
               V(F::MinusOne()) == 1,
           "constants", [] { return ""; });
}

template <typename F>
void Run(Ctx& c, const char* name) {
  F::Init();
  if (c.Section(std::string(name) + " pairs")) {
    if constexpr (F::kBits <= 8) {
      for (u128 a = 0; a <= Mask<F>(); ++a)
        for (u128 b = 0; b <= Mask<F>(); ++b) Pair<F>(c, a, b);
    } else {
      size_t n = c.N(F::kBits <= 64 ? 4000 : 2500);
      for (size_t i = 0; i < n && c.TimeLeft(); ++i) {
        u128 a = Gen<F>(c.rng), b = Gen<F>(c.rng);
        if (c.rng.Chance(1, 16)) b = a;
        if (i < 2) c.Sample(Hx(a) + " , " + Hx(b));
        c.Distinct(vh::Mix((uint64_t)a) ^ (uint64_t)(a >> 64) ^
                   vh::Mix((uint64_t)b + 77) ^ vh::Mix((uint64_t)(b >> 64)));
        Pair<F>(c, a, b);
      }
      // every pair of monomials: pins down the whole bilinear map
      for (unsigned i = 0; i < F::kBits; ++i)
        for (unsigned j = 0; j < F::kBits; ++j) {
          u128 a = u128{1} << i, b = u128{1} << j;
          F g = Mk<F>(a) * Mk<F>(b);
          u128 want = RefMulRaw(a, b, F::kBits);
          c.CheckF(V(g) == want, "monomial product", [&] {
            return Hx(a) + " , " + Hx(b) + " got " + Hx(V(g)) + " want " +
                   Hx(want);
          });
        }
    }
  }
  if (c.Section(std::string(name) + " single")) {
    if constexpr (F::kBits <= 16) {
      for (u128 a = 0; a <= Mask<F>(); a += (F::kBits == 16 && !c.thorough ? 3 : 1))
        One<F>(c, a);
    } else {
      for (unsigned i = 0; i < F::kBits; ++i) One<F>(c, u128{1} << i);
      size_t n = c.N(1500);
      for (size_t i = 0; i < n && c.TimeLeft(); ++i) One<F>(c, Gen<F>(c.rng));
    }
  }
  if (c.Section(std::string(name) + " derived")) Derived<F>(c);
}

}  // namespace

void vh_main(Ctx& c) {
  InitTab();
  Run<BinaryField1>(c, "b1");
  Run<BinaryField2>(c, "b2");
  Run<BinaryField4>(c, "b4");
  Run<BinaryField8>(c, "b8");
  Run<BinaryField16>(c, "b16");
  Run<BinaryField32>(c, "b32");
  Run<BinaryField64>(c, "b64");
  Run<BinaryField128>(c, "b128");
  c.Require("monomial product", 10000);
}
