// P03: fixed-width big integers against GMP.
#include <bitset>
#include <sstream>

#include "tachyon/math/base/arithmetics.h"
#include "tachyon/math/base/big_int.h"
#include "tachyon/math/base/bit_iterator.h"
#include "tachyon/math/base/egcd.h"
#include "tachyon/math/base/gmp/bit_traits.h"
#include "tachyon/math/base/gmp/gmp_util.h"
#include "tachyon/math/base/gmp/signed_value.h"
#include "vh/fields.h"
#include "vh/vh.h"

using namespace tachyon::math;
using vh::BigToZ;
using vh::Ctx;
using vh::Rng;
using vh::ZToBig;

namespace {

mpz_class U64Z(uint64_t v) { return mpz_class((unsigned long)v); }
uint64_t ZU64(const mpz_class& z) { return z.get_ui(); }

template <size_t N>
BigInt<N> Gen(Rng& r) {
  static const uint64_t w[] = {0, 0, 1, 2, ~0ull, ~0ull, ~0ull - 1, 1ull << 63,
                               (1ull << 63) - 1, 0xffffffffull,
                               0xffffffff00000000ull, 0x100000000ull};
  BigInt<N> b(0);
  size_t kind = r.Below(7);
  if (kind == 0) {
    b[0] = r.Below(20);
  } else if (kind == 1) {  // 2^k + d
    mpz_class z = mpz_class(1) << r.Below(64 * N);
    z += r.Range(-2, 2);
    if (z < 0) z = 0;
    return ZToBig<N>(z);
  } else if (kind == 2) {  // max - small
    for (size_t i = 0; i < N; ++i) b[i] = ~0ull;
    b[0] -= r.Below(5);
  } else if (kind == 3) {  // any bit length
    for (size_t i = 0; i < N; ++i) b[i] = r.U64();
    mpz_class z = BigToZ(b) >> r.Below(64 * N);
    return ZToBig<N>(z);
  } else if (kind == 4) {
    for (size_t i = 0; i < N; ++i) b[i] = r.U64();
  } else {
    for (size_t i = 0; i < N; ++i)
      b[i] = r.Chance(1, 4) ? r.U64() : w[r.Below(12)];
  }
  return b;
}

template <size_t N>
std::string H(const BigInt<N>& b) {
  return "0x" + BigToZ(b).get_str(16);
}

template <size_t N>
void Arith(Ctx& c) {
  if (!c.Section("arith" + std::to_string(N))) return;
  using B = BigInt<N>;
  using B2 = BigInt<2 * N>;
  Rng& r = c.rng;
  const mpz_class W = mpz_class(1) << (64 * N);
  size_t n = c.N(1500);
  for (size_t it = 0; it < n && c.TimeLeft(); ++it) {
    B a = Gen<N>(r), b = Gen<N>(r);
    if (r.Chance(1, 10)) b = a;
    if (r.Chance(1, 12)) b = ZToBig<N>(W - 1 - BigToZ(a));        // a+b = max
    if (r.Chance(1, 12)) b = ZToBig<N>(vh::Mod(W - BigToZ(a), W));  // a+b = W
    if (r.Chance(1, 16)) b = ZToBig<N>(vh::Mod(BigToZ(a) + r.Range(-1, 1), W));
    mpz_class A = BigToZ(a), Bz = BigToZ(b);
    auto in = [&] { return H(a) + " , " + H(b); };
    c.Distinct(vh::HashBytes(b.limbs, 8 * N, vh::HashBytes(a.limbs, 8 * N)));
    if (it < 2) c.Sample(in());
    auto T = [&](const B& got, const mpz_class& want, const char* m) {
      c.CheckF(BigToZ(got) == vh::Mod(want, W), m, [&] {
        return in() + " got " + H(got) + " want " + vh::Mod(want, W).get_str(16);
      });
    };
    auto TB = [&](bool got, bool want, const char* m) {
      c.CheckF(got == want, m, in);
    };
    T(a + b, A + Bz, "add");
    T(a.Add(b), A + Bz, "add");
    T(a - b, A - Bz, "sub");
    T(a.Sub(b), A - Bz, "sub");
    {
      uint64_t cy = 0;
      T(a.Add(b, cy), A + Bz, "add_carry");
      TB(cy == (A + Bz >= W ? 1u : 0u), true, "add_carry_out");
      B x = a;
      cy = 0;
      x.AddInPlace(b, cy);
      T(x, A + Bz, "add_in_place");
      TB(cy == (A + Bz >= W ? 1u : 0u), true, "add_carry_out");
      uint64_t bo = 0;
      T(a.Sub(b, bo), A - Bz, "sub_borrow");
      TB(bo == (A < Bz ? 1u : 0u), true, "sub_borrow_out");
      x = a;
      bo = 0;
      x.SubInPlace(b, bo);
      T(x, A - Bz, "sub_in_place");
      TB(bo == (A < Bz ? 1u : 0u), true, "sub_borrow_out");
      x = a;
      T(x += b, A + Bz, "add_assign");
      x = a;
      T(x -= b, A - Bz, "sub_assign");
      x = a;
      x += x;
      T(x, A + A, "add_alias");
      x = a;
      x -= x;
      T(x, 0, "sub_alias");
      cy = 0;
      T(a.MulBy2(cy), A * 2, "mulby2");
      TB(cy == (A * 2 >= W ? 1u : 0u), true, "mulby2_carry");
      x = a;
      cy = 0;
      x.MulBy2InPlace(cy);
      T(x, A * 2, "mulby2");
      TB(cy == (A * 2 >= W ? 1u : 0u), true, "mulby2_carry");
      T(a.MulBy2(), A * 2, "mulby2");
      x = a;
      T(x.DivBy2InPlace(), A >> 1, "divby2");
      x = a;
      x.AddInPlace(b);
      T(x, A + Bz, "add_in_place");
      x.SubInPlace(b);
      T(x, A, "sub_in_place");
    }
    T(a * b, A * Bz, "mul");
    T(a.Mul(b), A * Bz, "mul");
    {
      B x = a;
      x *= b;
      T(x, A * Bz, "mul_assign");
      x = a;
      x *= x;
      T(x, A * A, "mul_alias");
      B2 e = a.MulExtend(b);
      c.CheckF(BigToZ(e) == A * Bz, "mul_extend", [&] { return in() + H(e); });
      auto mr = a.Multiply(b);
      T(mr.lo, A * Bz, "multiply_lo");
      T(mr.hi, (A * Bz) >> (64 * N), "multiply_hi");
    }
    if (Bz != 0) {
      mpz_class q = A / Bz, m = A % Bz;
      auto d = a / b;
      TB(d.has_value(), true, "div_ok");
      if (d) T(*d, q, "div");
      T(a % b, m, "mod");
      T(a.Mod(b), m, "mod");
      DivResult<B> dr;
      TB(a.Divide(b, dr), true, "div_ok");
      T(dr.quotient, q, "div");
      T(dr.remainder, m, "mod");
      B x = a;
      x %= b;
      T(x, m, "mod_assign");
      x = a;
      auto rr = x /= b;
      TB(rr.has_value() && *rr == &x, true, "div_ok");
      T(x, q, "div_assign");
      if (A != 0) {
        x = a;
        x %= x;
        T(x, 0, "mod_alias");
      }
    } else {
      TB((a / b).has_value(), false, "div_zero");
      DivResult<B> dr;
      TB(a.Divide(b, dr), false, "div_zero");
      B x = a;
      TB((x /= b).has_value(), false, "div_zero");
      T(x, A, "div_zero_unchanged");
    }
    T(a & b, A & Bz, "and");
    T(a | b, A | Bz, "or");
    T(a ^ b, A ^ Bz, "xor");
    {
      B x = a;
      T(x &= b, A & Bz, "and");
      x = a;
      T(x |= b, A | Bz, "or");
      x = a;
      T(x ^= b, A ^ Bz, "xor");
    }
    {
      static const uint32_t sp[] = {0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129};
      uint32_t s = r.Bool() ? sp[r.Below(11)] : r.Below(64 * N + 70);
      if (r.Chance(1, 20)) s = 64 * N + r.Range(-1, 1);
      if (r.Chance(1, 60)) s = 0xffffffffu;
      mpz_class l = s >= 64 * N ? mpz_class(0) : mpz_class(A << s);
      mpz_class rr = s >= 64 * N ? mpz_class(0) : mpz_class(A >> s);
      auto ins = [&] { return H(a) + " by " + std::to_string(s); };
      B x = a;
      c.CheckF(BigToZ(a << s) == vh::Mod(l, W), "shl", ins);
      c.CheckF(BigToZ(a >> s) == rr, "shr", ins);
      x <<= s;
      c.CheckF(BigToZ(x) == vh::Mod(l, W), "shl", ins);
      x = a;
      x >>= s;
      c.CheckF(BigToZ(x) == rr, "shr", ins);
      x = a;
      x.MulBy2ExpInPlace(s);
      c.CheckF(BigToZ(x) == vh::Mod(l, W), "shl", ins);
      x = a;
      x.DivBy2ExpInPlace(s);
      c.CheckF(BigToZ(x) == rr, "shr", ins);
    }
    TB(a == b, A == Bz, "eq");
    TB(a != b, A != Bz, "ne");
    TB(a < b, A < Bz, "lt");
    TB(a > b, A > Bz, "gt");
    TB(a <= b, A <= Bz, "le");
    TB(a >= b, A >= Bz, "ge");
    TB(a.IsZero(), A == 0, "is_zero");
    TB(a.IsOne(), A == 1, "is_one");
    TB(a.IsEven(), mpz_even_p(A.get_mpz_t()), "is_even");
    TB(a.IsOdd(), mpz_odd_p(A.get_mpz_t()), "is_odd");
    TB(a.biggest_limb() == ZU64(A >> (64 * (N - 1))), true, "biggest_limb");
    TB(a.smallest_limb() == ZU64(vh::Mod(A, mpz_class(1) << 64)), true,
       "smallest_limb");
    {  // bit extraction
      size_t off = r.Below(64 * N), cnt = r.Below(65);
      mpz_class m = (mpz_class(1) << cnt) - 1;
      mpz_class sh = A >> off;
      auto ine = [&] {
        return H(a) + " off " + std::to_string(off) + " cnt " + std::to_string(cnt);
      };
      c.CheckF(a.ExtractBits64(off, cnt) == ZU64(sh & m), "extract64", ine);
      cnt = r.Below(33);
      m = (mpz_class(1) << cnt) - 1;
      c.CheckF(a.ExtractBits32(off, cnt) == ZU64(sh & m), "extract32", ine);
    }
    {  // extend / shrink
      auto e = a.template Extend<N + 1>();
      TB(BigToZ(e) == A, true, "extend");
      auto e3 = a.template Extend<N + 3>();
      TB(BigToZ(e3) == A, true, "extend");
      TB(e.template Shrink<N>() == a, true, "shrink");
      if constexpr (N > 1)
        TB(BigToZ(a.template Shrink<N - 1>()) ==
               vh::Mod(A, mpz_class(1) << (64 * (N - 1))),
           true, "shrink");
    }
    if (Bz != 0) {  // clamp
      B x = a;
      B::template Clamp<true>(b, &x);
      T(x, A >= Bz ? mpz_class(A - Bz) : A, "clamp");
      x = a;
      bool cy = r.Bool();
      B::template Clamp<false>(b, &x, cy);
      T(x, (cy || A >= Bz) ? mpz_class(A - Bz) : A, "clamp_carry");
    }
    c.Count("arith_operand_pairs");
  }
  // extremes
  c.Check(BigToZ(B::Max()) == W - 1, "max", "");
  c.Check(BigToZ(B::Zero()) == 0 && BigToZ(B::One()) == 1, "zero_one", "");
}

// Random odd modulus m; Montgomery reductions and inverse.
template <size_t N>
void Mont(Ctx& c) {
  if (!c.Section("montgomery" + std::to_string(N))) return;
  using B = BigInt<N>;
  Rng& r = c.rng;
  const mpz_class W = mpz_class(1) << (64 * N);
  size_t n = c.N(60);
  for (size_t it = 0; it < n && c.TimeLeft(); ++it) {
    bool spare = r.Bool();
    B mb = Gen<N>(r);
    mb[0] |= 1;
    if (spare) mb.biggest_limb() &= ~(1ull << 63);
    else mb.biggest_limb() |= 1ull << 63;
    mpz_class m = BigToZ(mb);
    if (m < 3) continue;
    uint64_t inv64 = ZU64(vh::Mod(-vh::InvM(m, mpz_class(1) << 64),
                                  mpz_class(1) << 64));
    uint32_t inv32 = static_cast<uint32_t>(inv64);
    mpz_class rinv = vh::InvM(W, m);
    for (int k = 0; k < 25; ++k) {
      mpz_class A = vh::Mod(BigToZ(Gen<N>(r)), m), C = vh::Mod(BigToZ(Gen<N>(r)), m);
      if (r.Chance(1, 8)) A = m - 1;
      if (r.Chance(1, 8)) C = m - 1;
      auto in = [&] {
        return "mod " + m.get_str(16) + " a " + A.get_str(16) + " b " + C.get_str(16);
      };
      c.Distinct(vh::HashStr(in()));
      mpz_class want = vh::Mod(A * C * rinv, m);
      auto run = [&](auto tag, bool is32) {
        constexpr bool kSpare = decltype(tag)::value;
        BigInt<2 * N> t = ZToBig<2 * N>(mpz_class(A * C));
        B out(0);
        if (is32) B::template MontgomeryReduce32<kSpare>(t, mb, inv32, &out);
        else B::template MontgomeryReduce64<kSpare>(t, mb, inv64, &out);
        c.CheckF(BigToZ(out) == want, is32 ? "mont_reduce32" : "mont_reduce64",
                 [&] { return in() + " got " + H(out); });
      };
      for (bool is32 : {false, true}) {
        if (spare) run(std::true_type{}, is32);
        run(std::false_type{}, is32);
      }
      mpz_class fm = vh::Mod(A * rinv, m);
      c.CheckF(vh::Mod(BigToZ(B::FromMontgomery64(ZToBig<N>(A), mb, inv64)), m) == fm,
               "from_mont64", in);
      c.CheckF(vh::Mod(BigToZ(B::FromMontgomery32(ZToBig<N>(A), mb, inv32)), m) == fm,
               "from_mont32", in);
      // inverse: input x in Montgomery form -> x^-1 in Montgomery form,
      // i.e. out = R^2 / A (mod m), for invertible A
      mpz_class g;
      mpz_gcd(g.get_mpz_t(), A.get_mpz_t(), m.get_mpz_t());
      mpz_class r2 = vh::Mod(W * W, m);
      if (A == 0) {
        B out(0);
        bool ok = ZToBig<N>(A).template MontgomeryInverse<false>(mb, ZToBig<N>(r2), out);
        c.CheckF(!ok, "mont_inverse_zero", in);
      } else if (g == 1) {
        mpz_class w = vh::Mod(r2 * vh::InvM(A, m), m);
        B out(0);
        bool ok = ZToBig<N>(A).template MontgomeryInverse<false>(mb, ZToBig<N>(r2), out);
        c.CheckF(ok && BigToZ(out) == w, "mont_inverse",
                 [&] { return in() + " got " + H(out); });
        if (spare) {
          ok = ZToBig<N>(A).template MontgomeryInverse<true>(mb, ZToBig<N>(r2), out);
          c.CheckF(ok && BigToZ(out) == w, "mont_inverse", in);
        }
      }
    }
  }
}

template <size_t N, size_t Bits>
void BitsK(Ctx& c, const BigInt<N>& a) {
  using B = BigInt<N>;
  mpz_class A = BigToZ(a);
  mpz_class low = vh::Mod(A, mpz_class(1) << Bits);
  auto in = [&] { return H(a) + " bits " + std::to_string(Bits); };
  std::bitset<Bits> le = a.template ToBitsLE<Bits>();
  std::bitset<Bits> be = a.template ToBitsBE<Bits>();
  bool ok = true, okb = true;
  for (size_t i = 0; i < Bits; ++i) {
    bool want = mpz_tstbit(A.get_mpz_t(), i);
    ok &= le[i] == want;
    okb &= be[Bits - 1 - i] == want;
  }
  c.CheckF(ok, "to_bits_le", in);
  c.CheckF(okb, "to_bits_be", in);
  c.CheckF(BigToZ(B::template FromBitsLE<Bits>(le)) == low, "from_bits_le", in);
  c.CheckF(BigToZ(B::template FromBitsBE<Bits>(be)) == low, "from_bits_be", in);
}

template <size_t N>
void Conv(Ctx& c) {
  if (!c.Section("convert" + std::to_string(N))) return;
  using B = BigInt<N>;
  Rng& r = c.rng;
  const mpz_class W = mpz_class(1) << (64 * N);
  size_t n = c.N(700);
  for (size_t it = 0; it < n && c.TimeLeft(); ++it) {
    B a = Gen<N>(r);
    mpz_class A = BigToZ(a);
    auto in = [&] { return H(a); };
    c.Distinct(vh::HashBytes(a.limbs, 8 * N));
    if (it < 2) c.Sample(in());
    c.CheckF(a.ToString() == A.get_str(10), "to_dec", in);
    c.CheckF(a.ToHexString() == "0x" + A.get_str(16), "to_hex", in);
    std::string hex = A.get_str(16);
    c.CheckF(a.ToHexString(true) ==
                 "0x" + std::string(16 * N - hex.size(), '0') + hex,
             "to_hex_padded", in);
    auto d = B::FromDecString(A.get_str(10));
    c.CheckF(d && *d == a, "from_dec", in);
    // a view into a larger buffer
    std::string big = A.get_str(10) + "17";
    d = B::FromDecString(std::string_view(big).substr(0, big.size() - 2));
    c.CheckF(d && *d == a, "from_dec_view", in);
    {
      std::string t = A.get_str(10);
      std::vector<char> exact(t.begin(), t.end());  // ASan: no terminator
      d = B::FromDecString(std::string_view(exact.data(), exact.size()));
      c.CheckF(d && *d == a, "from_dec_unterminated", in);
      t = A.get_str(16);
      exact.assign(t.begin(), t.end());
      d = B::FromHexString(std::string_view(exact.data(), exact.size()));
      c.CheckF(d && *d == a, "from_hex_unterminated", in);
    }
    for (const std::string& s :
         {hex, "0x" + hex, a.ToHexString(), a.ToHexString(true), "00" + hex}) {
      d = B::FromHexString(s);
      c.CheckF(d && *d == a, "from_hex", [&] { return s; });
    }
    std::string up = hex;
    for (char& ch : up) ch = toupper(ch);
    d = B::FromHexString(up);
    c.CheckF(d && *d == a, "from_hex", [&] { return up; });
    // too large
    mpz_class over = W + (r.Bool() ? mpz_class(0) : A);
    if (r.Chance(1, 3)) over <<= r.Below(200);
    c.CheckF(!B::FromDecString(over.get_str(10)), "overflow_rejected",
             [&] { return over.get_str(10); });
    c.CheckF(!B::FromHexString(over.get_str(16)), "overflow_rejected",
             [&] { return over.get_str(16); });
    if (A != 0) {
      c.CheckF(!B::FromDecString("-" + A.get_str(10)), "negative_rejected", in);
      c.CheckF(!B::FromHexString("-" + A.get_str(16)), "negative_rejected", in);
    }
    // malformed
    {
      std::string s = A.get_str(10);
      static const char bad[] = "abcxyz.,;:-+_!g\x01\x7f/";
      s.insert(s.begin() + r.Below(s.size() + 1), bad[r.Below(sizeof(bad) - 1)]);
      if (s[0] != '-' || s.size() == 1 || A != 0)
        c.CheckF(!B::FromDecString(s), "malformed_rejected", [&] { return s; });
      std::string z = A.get_str(10);
      z.insert(z.begin() + r.Below(z.size() + 1), '\0');
      c.CheckF(!B::FromDecString(z), "malformed_nul_rejected", [&] { return z; });
      std::string h = hex;
      static const char badh[] = "ghxyz.,;:+_!\x01/";
      h.insert(h.begin() + 1 + r.Below(h.size()), badh[r.Below(sizeof(badh) - 1)]);
      if (!(h.size() > 1 && h[0] == '0' && (h[1] == 'x' || h[1] == 'X')))
        c.CheckF(!B::FromHexString(h), "malformed_rejected", [&] { return h; });
    }
    // bytes
    auto le = a.ToBytesLE();
    auto be = a.ToBytesBE();
    bool okl = true, okb = true;
    for (size_t i = 0; i < 8 * N; ++i) {
      uint8_t want = ZU64(mpz_class(A >> (8 * i)) & 0xff);
      okl &= le[i] == want;
      okb &= be[8 * N - 1 - i] == want;
    }
    c.CheckF(okl, "to_bytes_le", in);
    c.CheckF(okb, "to_bytes_be", in);
    c.CheckF(B::FromBytesLE(le) == a, "from_bytes_le", in);
    c.CheckF(B::FromBytesBE(be) == a, "from_bytes_be", in);
    {
      size_t k = r.Below(8 * N + 1);
      std::vector<uint8_t> v(le.begin(), le.begin() + k);
      c.CheckF(BigToZ(B::FromBytesLE(v)) == vh::Mod(A, mpz_class(1) << (8 * k)),
               "from_bytes_le_short", [&] { return H(a) + " " + std::to_string(k); });
      std::vector<uint8_t> vb(v.rbegin(), v.rend());
      c.CheckF(BigToZ(B::FromBytesBE(vb)) == vh::Mod(A, mpz_class(1) << (8 * k)),
               "from_bytes_be_short", [&] { return H(a) + " " + std::to_string(k); });
    }
    BitsK<N, 64 * N>(c, a);
    BitsK<N, 1>(c, a);
    BitsK<N, 63>(c, a);
    BitsK<N, 64 * N - 1>(c, a);
    BitsK<N, 64 * N - 13>(c, a);
    if constexpr (N > 1) BitsK<N, 65>(c, a);
    // BitTraits + iterators
    {
      bool ok = true;
      std::vector<bool> bits;
      for (size_t i = 0; i < 64 * N; ++i) {
        bool w = mpz_tstbit(A.get_mpz_t(), i);
        ok &= BitTraits<B>::TestBit(a, i) == w;
        bits.push_back(w);
      }
      ok &= !BitTraits<B>::TestBit(a, 64 * N);
      ok &= BitTraits<B>::GetNumBits(a) == 64 * N;
      c.CheckF(ok, "test_bit", in);
      size_t i = r.Below(64 * N);
      bool v = r.Bool();
      B x = a;
      BitTraits<B>::SetBit(x, i, v);
      mpz_class X = A;
      if (v) mpz_setbit(X.get_mpz_t(), i);
      else mpz_clrbit(X.get_mpz_t(), i);
      c.CheckF(BigToZ(x) == X, "set_bit", in);
      std::vector<bool> got;
      for (auto b = BitIteratorLE<B>::begin(&a), e = BitIteratorLE<B>::end(&a);
           b != e; ++b)
        got.push_back(*b);
      c.CheckF(got == bits, "bits_le", in);
      std::vector<bool> trimmed = bits;
      while (!trimmed.empty() && !trimmed.back()) trimmed.pop_back();
      got.clear();
      for (auto b = BitIteratorLE<B>::begin(&a),
                e = BitIteratorLE<B>::end(&a, true);
           b != e; ++b)
        got.push_back(*b);
      c.CheckF(got == trimmed, "bits_le_skip", in);
      got.clear();
      for (auto b = BitIteratorBE<B>::begin(&a), e = BitIteratorBE<B>::end(&a);
           b != e; ++b)
        got.push_back(*b);
      c.CheckF(std::equal(got.begin(), got.end(), bits.rbegin(), bits.rend()),
               "bits_be", in);
      got.clear();
      for (auto b = BitIteratorBE<B>::begin(&a, true),
                e = BitIteratorBE<B>::end(&a);
           b != e; b++)
        got.push_back(*b);
      c.CheckF(std::equal(got.begin(), got.end(), trimmed.rbegin(), trimmed.rend()),
               "bits_be_skip", in);
    }
    {  // NAF
      std::vector<int8_t> naf = a.ToNAF();
      mpz_class v = 0;
      bool ok = true;
      for (size_t i = naf.size(); i-- > 0;) {
        v = v * 2 + naf[i];
        ok &= naf[i] >= -1 && naf[i] <= 1;
        if (i + 1 < naf.size()) ok &= naf[i] == 0 || naf[i + 1] == 0;
      }
      if (!naf.empty()) ok &= naf.back() != 0;
      c.CheckF(ok && v == A, "naf", in);
    }
    // gmp
    {
      mpz_class z;
      gmp::WriteLimbs(a.limbs, N, &z);
      c.CheckF(z == A, "gmp_write_limbs", in);
      B x(0);
      gmp::CopyLimbs(A, x.limbs);
      c.CheckF(x == a, "gmp_copy_limbs", in);
      c.CheckF(gmp::GetLimbSize(A) == (mpz_sgn(A.get_mpz_t()) ? (mpz_sizeinbase(A.get_mpz_t(), 2) + 63) / 64 : 0),
               "gmp_limb_size", in);
      mpz_class neg = -A;
      c.CheckF(gmp::GetAbs(neg) == A && gmp::IsNegative(neg) == (A != 0) &&
                   gmp::IsZero(A) == (A == 0) && gmp::IsPositive(A) == (A != 0),
               "gmp_sign", in);
      SignedValue<mpz_class> sv(neg);
      c.CheckF(sv.ToValue() == neg && sv.abs_value == A, "gmp_signed", in);
      mpz_class p;
      std::string t = A.get_str(10);
      c.CheckF(gmp::ParseIntoMpz(t, 10, &p) && p == A, "gmp_parse", in);
      c.CheckF(gmp::FromDecString(t) == A && gmp::FromHexString(hex) == A,
               "gmp_parse", in);
      mpz_class bound = A + 1;
      mpz_class rr = gmp::Random(bound);
      c.CheckF(rr >= 0 && rr < bound, "gmp_random_in_range", in);
      size_t i = r.Below(64 * N);
      bool bv = r.Bool();
      mpz_class y = A;
      gmp::SetBit(y, i, bv);
      c.CheckF(gmp::TestBit(y, i) == bv &&
                   ((y ^ A) == 0 || (y ^ A) == (mpz_class(1) << i)),
               "gmp_set_bit", in);
      if (A != 0) {
        std::vector<bool> got;
        for (auto b = BitIteratorBE<mpz_class>::begin(&A, true),
                  e = BitIteratorBE<mpz_class>::end(&A);
             b != e; ++b)
          got.push_back(*b);
        c.CheckF(got.size() == mpz_sizeinbase(A.get_mpz_t(), 2), "gmp_bits", in);
      }
    }
    if (A != 0) {
      B x = B::Random(a);
      c.CheckF(x < a, "random_below", in);
    }
    // native integers
    {
      uint64_t u = r.U64() >> r.Below(64);
      c.CheckF(BigToZ(B(u)) == U64Z(u) && BigToZ(B((uint32_t)u)) == U64Z((uint32_t)u) &&
                   BigToZ(B((uint8_t)u)) == U64Z((uint8_t)u) &&
                   BigToZ(B((int64_t)(u >> 1))) == U64Z(u >> 1) &&
                   BigToZ(B((int)(u & 0x7fffffff))) == U64Z(u & 0x7fffffff),
               "from_native", [&] { return std::to_string(u); });
      c.CheckF(BigToZ(B(a.limbs)) == A, "from_limbs", in);
      if constexpr (N >= 2) {
        B l({u, u + 1});
        c.CheckF(BigToZ(l) == U64Z(u) + (U64Z(u + 1) << 64), "from_list",
                 [&] { return std::to_string(u); });
      }
    }
  }
  for (const char* s : {"", "0x", "x", "-", "+", "0b1", "1e3", "12.5", "abc", "--1"})
    c.Check(!B::FromDecString(s), "malformed_rejected", s);
  for (const char* s : {"", "0x", "x", "-", "g", "0xg", "0x0x1", "1h"})
    c.Check(!B::FromHexString(s), "malformed_rejected", s);
}

void Limb(Ctx& c) {
  if (!c.Section("limb")) return;
  Rng& r = c.rng;
  size_t n = c.N(20000);
  auto g = [&]() -> uint64_t {
    switch (r.Below(4)) {
      case 0: return r.Below(3);
      case 1: return ~0ull - r.Below(3);
      case 2: return (1ull << r.Below(64)) - r.Below(2);
      default: return r.U64();
    }
  };
  auto z = [](unsigned __int128 v) -> mpz_class {
    return U64Z((uint64_t)(v >> 64)) * (mpz_class(1) << 64) + U64Z((uint64_t)v);
  };
  for (size_t i = 0; i < n; ++i) {
    uint64_t a = g(), b = g(), d = g(), e = g();
    uint64_t cy = r.Below(2);
    auto in = [&] {
      std::ostringstream o;
      o << std::hex << a << " " << b << " " << d << " " << e << " " << cy;
      return o.str();
    };
    c.Distinct(vh::Mix(a ^ vh::Mix(b ^ vh::Mix(d ^ cy))));
    auto ar = internal::u64::AddWithCarry(a, b, cy);
    unsigned __int128 s = (unsigned __int128)a + b + cy;
    c.CheckF(ar.result == (uint64_t)s && ar.carry == (uint64_t)(s >> 64), "u64_add", in);
    auto sr = internal::u64::SubWithBorrow(a, b, cy);
    unsigned __int128 df = (unsigned __int128)a - b - cy;
    c.CheckF(sr.result == (uint64_t)df && sr.borrow == ((uint64_t)(df >> 64) ? 1 : 0),
             "u64_sub", in);
    auto mr = internal::u64::MulAddWithCarry(a, b, d, e);
    mpz_class w = U64Z(a) + U64Z(b) * U64Z(d) + U64Z(e);
    c.CheckF(z((unsigned __int128)mr.hi << 64 | mr.lo) == w, "u64_muladd", in);
    uint32_t a3 = a, b3 = b, d3 = d, e3 = e;
    auto ar3 = internal::u32::AddWithCarry(a3, b3, (uint32_t)cy);
    uint64_t s3 = (uint64_t)a3 + b3 + cy;
    c.CheckF(ar3.result == (uint32_t)s3 && ar3.carry == (uint32_t)(s3 >> 32), "u32_add", in);
    auto sr3 = internal::u32::SubWithBorrow(a3, b3, (uint32_t)cy);
    int64_t d64 = (int64_t)a3 - b3 - (int64_t)cy;
    c.CheckF(sr3.result == (uint32_t)d64 && sr3.borrow == (d64 < 0 ? 1u : 0u), "u32_sub", in);
    auto mr3 = internal::u32::MulAddWithCarry(a3, b3, d3, e3);
    c.CheckF(((uint64_t)mr3.hi << 32 | mr3.lo) ==
                 (uint64_t)a3 + (uint64_t)b3 * d3 + e3,
             "u32_muladd", in);
    int64_t x = (int64_t)(g() >> 2), y = (int64_t)(g() >> 2);
    auto eg = EGCD<int64_t>::Compute(x, y);
    mpz_class gg;
    mpz_class X = (long)x, Y = (long)y;
    mpz_gcd(gg.get_mpz_t(), X.get_mpz_t(), Y.get_mpz_t());
    c.CheckF(gg == (long)eg.r && X * (long)eg.s + Y * (long)eg.t == gg, "egcd",
             [&] { return std::to_string(x) + "," + std::to_string(y); });
  }
  c.Check(ToSign(1) == Sign::kPositive && ToSign(0) == Sign::kZero &&
              ToSign(-1) == Sign::kNegative,
          "sign", "");
}

template <size_t... Ns>
void All(Ctx& c, std::index_sequence<Ns...>) {
  (Arith<Ns + 1>(c), ...);
  (Conv<Ns + 1>(c), ...);
  (Mont<Ns + 1>(c), ...);
}

}  // namespace

void vh_main(Ctx& c) {
  Limb(c);
  All(c, std::make_index_sequence<9>());
  for (const char* m : {"add_carry_out", "div", "shl", "extract64", "from_dec",
                        "naf", "mont_reduce64", "mont_inverse"})
    c.Require(m, 50);
}
