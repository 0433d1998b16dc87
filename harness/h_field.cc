// P01 (mode arith): prime-field arithmetic against GMP.
// P02 (mode derived): derived operations against their definitions.

#include "absl/hash/hash.h"
#include "vh/fields.h"

#if VH_SET == 1
#include "tachyon/math/elliptic_curves/bn/bn254/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#elif VH_SET == 2
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#elif VH_SET == 3
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fr.h"
#elif VH_SET == 4
#include "tachyon/math/elliptic_curves/secp/secp256k1/fq.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fr.h"
#elif VH_SET == 5
#include "tachyon/math/elliptic_curves/pasta/pallas/fq.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/fr.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/fq.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/fr.h"
#elif VH_SET == 6
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#endif

using namespace tachyon;
using namespace tachyon::math;
using vh::BigToZ;
using vh::FV;
using vh::InvM;
using vh::Mod;
using vh::PowM;
using vh::ZToBig;

namespace {

template <typename F>
class Arith {
 public:
  using V = FV<F>;
  Arith(vh::Ctx& c, const char* name) : c_(c), p_(V::P()), name_(name) {}

  void Is(const F& got, const mpz_class& want, const char* mon, const F& a,
          const F& b) {
    c_.CheckF(V::Canonical(got) && V::Z(got) == Mod(want, p_), mon, [&]() {
      return std::string(name_) + " a=" + V::S(a) + " b=" + V::S(b) + " raw a=" +
             V::Raw(a).get_str(16) + " got raw " + V::Raw(got).get_str(16) +
             " = " + V::S(got) + " want 0x" + Mod(want, p_).get_str(16);
    });
  }
  void Bool(bool got, bool want, const char* mon, const F& a, const F& b) {
    c_.CheckF(got == want, mon, [&]() {
      return std::string(name_) + " a=" + V::S(a) + " b=" + V::S(b) + " got " +
             std::to_string(got);
    });
  }

  void Binary(const F& a, const F& b) {
    const mpz_class A = V::Z(a), B = V::Z(b);
    F t;
    Is(a + b, A + B, "add", a, b);
    t = a; t += b; Is(t, A + B, "add_in_place", a, b);
    Is(a - b, A - B, "sub", a, b);
    t = a; t -= b; Is(t, A - B, "sub_in_place", a, b);
    Is(a * b, A * B, "mul", a, b);
    t = a; t *= b; Is(t, A * B, "mul_in_place", a, b);
    // aliased right operand: t = b; a op= through a reference to itself
    t = a; t += t; Is(t, 2 * A, "add_in_place_self", a, a);
    t = a; t -= t; Is(t, 0, "sub_in_place_self", a, a);
    t = a; t *= t; Is(t, A * A, "mul_in_place_self", a, a);
    t = b; t = a - t; Is(t, A - B, "sub_assign_rhs", a, b);
    Bool(a == b, A == B, "eq", a, b);
    Bool(a != b, A != B, "ne", a, b);
    Bool(a < b, A < B, "lt", a, b);
    Bool(a > b, A > B, "gt", a, b);
    Bool(a <= b, A <= B, "le", a, b);
    Bool(a >= b, A >= B, "ge", a, b);
    if (A == B)
      Bool(absl::HashOf(a) == absl::HashOf(b), true, "hash_equal", a, b);
  }

  void Div(const F& a, const F& b) {
    const mpz_class A = V::Z(a), B = V::Z(b);
    std::optional<F> q = a / b;
    if (B == 0) {
      Bool(q.has_value(), false, "div_by_zero_reported", a, b);
      F t = a;
      std::optional<F*> r = (t /= b);
      Bool(r.has_value(), false, "div_in_place_by_zero_reported", a, b);
      Bool(b.Inverse().has_value(), false, "inverse_of_zero_reported", a, b);
      t = b;
      Bool(t.InverseInPlace().has_value(), false,
           "inverse_in_place_of_zero_reported", a, b);
      return;
    }
    mpz_class bi = InvM(B, p_);
    Bool(q.has_value(), true, "div_has_value", a, b);
    if (q) Is(*q, A * bi, "div", a, b);
    F t = a;
    std::optional<F*> r = (t /= b);
    Bool(r.has_value() && *r == &t, true, "div_in_place_returns_self", a, b);
    Is(t, A * bi, "div_in_place", a, b);
    std::optional<F> i = b.Inverse();
    Bool(i.has_value(), true, "inverse_has_value", a, b);
    if (i) Is(*i, bi, "inverse", b, b);
    t = b;
    std::optional<F*> r2 = t.InverseInPlace();
    Bool(r2.has_value() && *r2 == &t, true, "inverse_in_place_returns_self", a, b);
    Is(t, bi, "inverse_in_place", b, b);
    t = b;
    std::optional<F*> r3 = (t /= t);
    Bool(r3.has_value(), true, "div_in_place_self_has_value", b, b);
    Is(t, 1, "div_in_place_self", b, b);
  }

  void Unary(const F& a) {
    const mpz_class A = V::Z(a);
    F t;
    Is(-a, -A, "neg", a, a);
    t = a; t.NegateInPlace(); Is(t, -A, "neg_in_place", a, a);
    Is(a.Double(), 2 * A, "double", a, a);
    t = a; t.DoubleInPlace(); Is(t, 2 * A, "double_in_place", a, a);
    Is(a.Square(), A * A, "square", a, a);
    t = a; t.SquareInPlace(); Is(t, A * A, "square_in_place", a, a);
    Bool(a.IsZero(), A == 0, "is_zero", a, a);
    Bool(a.IsOne(), A == Mod(1, p_), "is_one", a, a);
    Bool(a.IsMinusOne(), A == p_ - 1, "is_minus_one", a, a);
  }

  void Convert(const F& a) {
    const mpz_class A = V::Z(a);
    constexpr size_t N = F::N;
    Bool(BigToZ(a.ToBigInt()) == A, true, "to_big_int", a, a);
    Is(F::FromBigInt(ZToBig<N>(A)), A, "from_big_int", a, a);
    Is(F(ZToBig<N>(A)), A, "construct_big_int", a, a);
    std::string d = a.ToString();
    c_.CheckF(d == A.get_str(10), "to_dec_string",
              [&]() { return V::S(a) + " got " + d; });
    std::string h = a.ToHexString();
    c_.CheckF(h == "0x" + A.get_str(16), "to_hex_string",
              [&]() { return V::S(a) + " got " + h; });
    std::string hp = a.ToHexString(true);
    size_t w = V::kSmall ? 8 : 16 * N;
    std::string want = A.get_str(16);
    if (want.size() < w) want = std::string(w - want.size(), '0') + want;
    c_.CheckF(hp == "0x" + want, "to_hex_string_padded",
              [&]() { return V::S(a) + " got " + hp; });
    auto fd = F::FromDecString(A.get_str(10));
    Bool(fd.has_value(), true, "from_dec_string_accepts", a, a);
    if (fd) Is(*fd, A, "from_dec_string", a, a);
    for (std::string s : {A.get_str(16), "0x" + A.get_str(16), hp}) {
      auto fh = F::FromHexString(s);
      Bool(fh.has_value(), true, "from_hex_string_accepts", a, a);
      if (fh) Is(*fh, A, "from_hex_string", a, a);
    }
    if constexpr (!V::kSmall) {
      Bool(a.ToMpzClass() == A, true, "to_mpz", a, a);
      Is(F::FromMpzClass(A), A, "from_mpz", a, a);
    }
    if constexpr (V::kMont) {
      if constexpr (V::kSmall) {
        Is(F::FromMontgomery(a.value()), A, "from_montgomery", a, a);
      } else {
        Is(F::FromMontgomery(a.value()), A, "from_montgomery", a, a);
      }
    }
  }

  void Reject() {
    vh::Rng& r = c_.rng;
    std::vector<mpz_class> over = {p_, p_ + 1, p_ + 2, 2 * p_, 2 * p_ - 1,
                                   V::R(), V::R() - 1, V::R() + 1,
                                   p_ + V::R(), V::R() * V::R(),
                                   (mpz_class(1) << 64) + 1, mpz_class(1) << 64,
                                   mpz_class(1) << 128, (mpz_class(1) << 512) + 3};
    for (int i = 0; i < 20; ++i) over.push_back(p_ + V::RandZ(r));
    for (const mpz_class& z : over) {
      if (z < p_) continue;
      c_.Case("reject " + z.get_str(16));
      c_.CheckF(!F::FromDecString(z.get_str(10)), "from_dec_string_rejects_large",
                [&]() { return std::string(name_) + " " + z.get_str(10); });
      c_.CheckF(!F::FromHexString(z.get_str(16)), "from_hex_string_rejects_large",
                [&]() { return std::string(name_) + " 0x" + z.get_str(16); });
      c_.CheckF(!F::FromHexString("0x" + z.get_str(16)),
                "from_hex_string_rejects_large",
                [&]() { return std::string(name_) + " 0x" + z.get_str(16); });
    }
    for (const char* s : {"", "x", "12a", "0x", "g", "--1", "-"}) {
      c_.CheckF(!F::FromDecString(s), "from_dec_string_rejects_malformed",
                [&]() { return std::string(name_) + " '" + s + "'"; });
    }
    for (const char* s : {"", "x", "12g", "0xx1", "g", "--1", "-"}) {
      c_.CheckF(!F::FromHexString(s), "from_hex_string_rejects_malformed",
                [&]() { return std::string(name_) + " '" + s + "'"; });
    }
  }

  void Run() {
    F::Init();
    vh::Rng& r = c_.rng;
    Is(F::Zero(), 0, "zero", F::Zero(), F::Zero());
    Is(F(), 0, "default", F::Zero(), F::Zero());
    Is(F::One(), 1, "one", F::Zero(), F::Zero());
    Is(F::MinusOne(), p_ - 1, "minus_one", F::Zero(), F::Zero());
    Is(F::TwoInv(), InvM(2, p_), "two_inv", F::Zero(), F::Zero());
    for (unsigned i = 0; i < 300; ++i) {
      unsigned v = i < 7 ? i : (p_ < 300 ? i % (unsigned)p_.get_ui() : i);
      if (mpz_class(v) >= p_) v = 0;
      Is(F(v), v, "from_small_int", F(v), F(v));
    }
    std::vector<F> bs;
    for (auto& z : V::Bounds()) {
      bs.push_back(V::From(z));
      bs.push_back(V::FromRaw(z));
    }
    c_.Case("unary");
    for (auto& a : bs) {
      Unary(a);
      Convert(a);
      c_.Distinct(vh::HashF(a));
    }
    // every pair of (a sample of) boundary values
    size_t lim = c_.N(3000, 200000);
    size_t total = bs.size() * bs.size();
    c_.Case("boundary pairs");
    for (size_t k = 0; k < lim && k < total; ++k) {
      size_t x = lim >= total ? k : r.Below(total);
      const F &a = bs[x / bs.size()], &b = bs[x % bs.size()];
      Binary(a, b);
      if (k % 8 == 0) Div(a, b);
      c_.Distinct(vh::Mix(vh::HashF(a)) ^ vh::HashF(b));
    }
    c_.Case("random pairs");
    for (size_t k = 0; k < c_.N(2500, 200000) && c_.TimeLeft(); ++k) {
      F a = V::Any(r), b = V::Any(r);
      mpz_class ra = V::Raw(a);
      switch (r.Below(8)) {
        case 0:  // sums at p-1, p, p+1
          b = V::FromRaw(Mod(p_ - ra + r.Range(-2, 2), p_));
          break;
        case 1:  // sums around the word size boundary
          b = V::FromRaw(Mod(V::R() - ra + r.Range(-2, 2), p_));
          break;
        case 2:  // products with a chosen small or large raw result
          if (!a.IsZero()) {
            mpz_class t = r.Bool() ? mpz_class((unsigned long)r.Below(5))
                                   : p_ - 1 - (unsigned long)r.Below(5);
            t = Mod(t, p_);
            b = V::From(Mod(V::Z(V::FromRaw(t)) * InvM(V::Z(a), p_), p_));
          }
          break;
        case 3:
          b = a;
          break;
        case 4:
          b = V::FromRaw(Mod(ra + r.Range(-1, 1), p_));
          break;
        default:
          break;
      }
      Binary(a, b);
      Unary(a);
      if (k % 5 == 0) Convert(a);
      if (k % 5 == 1) Div(a, b);
      if (k % 5 == 2) Div(a, F::Zero());
      c_.Distinct(vh::Mix(vh::HashF(a)) ^ vh::HashF(b));
      if (k == 0) c_.Sample("a=" + V::S(a) + " b=" + V::S(b));
    }
    Reject();
    c_.Case("long chains");
    // chains of dependent operations keep the representation canonical
    for (size_t k = 0; k < c_.N(20, 400); ++k) {
      F x = V::Any(r);
      mpz_class X = V::Z(x);
      for (int i = 0; i < 60; ++i) {
        F y = V::Any(r);
        mpz_class Y = V::Z(y);
        switch (r.Below(7)) {
          case 0: x += y; X += Y; break;
          case 1: x -= y; X -= Y; break;
          case 2: x *= y; X *= Y; break;
          case 3: x.SquareInPlace(); X *= X; break;
          case 4: x.DoubleInPlace(); X *= 2; break;
          case 5: x.NegateInPlace(); X = -X; break;
          default:
            if (!x.IsZero()) {
              if (!x.InverseInPlace()) X = -1;
              else X = InvM(X, p_);
            }
        }
        X = Mod(X, p_);
      }
      Is(x, X, "chain", x, x);
    }
    c_.Case("random");
    for (size_t k = 0; k < c_.N(200, 5000); ++k) {
      F x = F::Random();
      c_.CheckF(V::Canonical(x), "random_is_canonical",
                [&]() { return V::Raw(x).get_str(16); });
    }
    c_.Require("mul", 100);
    c_.Require("inverse", 20);
    c_.Require("chain", 2);
  }

 private:
  vh::Ctx& c_;
  const mpz_class& p_;
  const char* name_;
};

template <typename F>
class Derived {
 public:
  using V = FV<F>;
  Derived(vh::Ctx& c, const char* name) : c_(c), p_(V::P()), name_(name) {}

  void Is(const F& got, const mpz_class& want, const char* mon,
          const std::string& in) {
    c_.CheckF(V::Canonical(got) && V::Z(got) == Mod(want, p_), mon, [&]() {
      return std::string(name_) + " " + in + " got " + V::S(got) + " want 0x" +
             Mod(want, p_).get_str(16);
    });
  }
  void B(bool ok, const char* mon, const std::string& in) {
    c_.CheckF(ok, mon, [&]() { return std::string(name_) + " " + in; });
  }

  mpz_class RandExp() {
    vh::Rng& r = c_.rng;
    switch (r.Below(9)) {
      case 0: return mpz_class((unsigned long)r.Below(9));
      case 1: return p_ - 1;
      case 2: return p_ - 2;
      case 3: return p_;
      case 4: return (mpz_class(1) << r.Below(64 * F::N)) - 1;
      case 5: return mpz_class(1) << r.Below(64 * F::N);
      case 6: return mpz_class((unsigned long)r.U64());
      default: return V::RandZ(r);
    }
  }

  template <uint32_t E>
  void CP(const F& a, const mpz_class& A) {
    Is(a.template ConstPow<E>(), PowM(A, E, p_), "const_pow",
       "a=" + V::S(a) + " e=" + std::to_string(E));
    Is(a.template ConstScalarMul<E>(), A * E, "const_scalar_mul",
       "a=" + V::S(a) + " e=" + std::to_string(E));
  }

  void Powers(const F& a) {
    vh::Rng& r = c_.rng;
    mpz_class A = V::Z(a);
    mpz_class e = RandExp();
    std::string in = "a=" + V::S(a) + " e=" + e.get_str(16);
    c_.Case("pow " + in);
    Is(a.Pow(ZToBig<F::N>(e)), PowM(A, e, p_), "pow", in);
    Is(a.Pow(ZToBig<F::N + 1>(e << 64)), PowM(A, e << 64, p_), "pow_wide", in);
    uint64_t s = r.Bool() ? r.Below(70) : r.U64();
    mpz_class S;
    mpz_import(S.get_mpz_t(), 1, -1, 8, 0, 0, &s);
    Is(a.Pow(s), PowM(A, S, p_), "pow_u64", "a=" + V::S(a) + " e=" + std::to_string(s));
    Is(a.Pow(V::From(e)), PowM(A, Mod(e, p_), p_), "pow_field", in);
    Is(a.ScalarMul(ZToBig<F::N>(e)), A * e, "scalar_mul", in);
    Is(a.ScalarMul(s), A * S, "scalar_mul_u64", in);
    Is(a.ScalarMul(V::From(e)), A * Mod(e, p_), "scalar_mul_field", in);
    CP<0>(a, A); CP<1>(a, A); CP<2>(a, A); CP<3>(a, A); CP<4>(a, A);
    CP<5>(a, A); CP<6>(a, A); CP<7>(a, A); CP<8>(a, A); CP<11>(a, A);
    CP<255>(a, A); CP<65537>(a, A);
    uint32_t k = r.Below(70);
    Is(a.ExpPowOfTwo(k), PowM(A, mpz_class(1) << k, p_), "exp_pow_of_two",
       V::S(a) + " k=" + std::to_string(k));
    std::vector<F> table;
    F t = a;
    for (size_t i = 0; i < 64 * F::N; ++i) {
      table.push_back(t);
      t = t * t;
    }
    Is(F::PowWithTable(absl::MakeConstSpan(table), ZToBig<F::N>(e)), PowM(A, e, p_),
       "pow_with_table", in);
  }

  void Successive(size_t n) {
    vh::Rng& r = c_.rng;
    F g = V::Any(r), c = r.Chance(1, 3) ? F::One() : V::Any(r);
    std::string in = "n=" + std::to_string(n) + " g=" + V::S(g) + " c=" + V::S(c);
    c_.Case("successive " + in);
    std::vector<F> want(n);
    F t = c;
    for (size_t i = 0; i < n; ++i) { want[i] = t; t = t * g; }
    if (n > 0) {
      B(F::GetSuccessivePowers(n, g, c) == want, "successive_powers", in);
      std::vector<F> ws(n);
      F u = F::Zero();
      for (size_t i = 0; i < n; ++i) { ws[i] = u; u = u + g; }
      B(F::GetSuccessiveScalarMuls(n, g) == ws, "successive_scalar_muls", in);
    } else {
      B(F::GetSuccessivePowers(0, g, c).empty(), "successive_powers", in);
      B(F::GetSuccessiveScalarMuls(0, g).empty(), "successive_scalar_muls", in);
    }
    if (n && (n & (n - 1)) == 0) {
      std::vector<F> w2(n);
      unsigned lg = __builtin_ctzll(n);
      for (size_t i = 0; i < n; ++i) {
        size_t rv = 0;
        for (unsigned b = 0; b < lg; ++b) rv |= ((i >> b) & 1) << (lg - 1 - b);
        w2[rv] = want[i];
      }
      B(F::GetBitRevIndexSuccessivePowers(n, g, c) == w2,
        "bitrev_successive_powers", in);
      B(F::GetBitRevIndexSuccessivePowersSerial(n, g, c) == w2,
        "bitrev_successive_powers_serial", in);
    }
  }

  std::vector<F> Vec(size_t n, unsigned zero_mode) {
    vh::Rng& r = c_.rng;
    std::vector<F> v(n);
    for (size_t i = 0; i < n; ++i) {
      bool z = false;
      switch (zero_mode) {
        case 1: z = i == 0; break;
        case 2: z = i + 1 == n; break;
        case 3: z = true; break;
        case 4: z = r.Chance(1, 3); break;
        case 5: z = i == n / 2; break;
      }
      v[i] = z ? F::Zero() : V::NonZero(r);
    }
    return v;
  }

  void Batch(size_t n) {
    vh::Rng& r = c_.rng;
    unsigned zm = r.Below(6);
    std::vector<F> v = Vec(n, zm);
    F coeff = r.Bool() ? F::One() : V::Any(r);
    std::string in = "n=" + std::to_string(n) + " zeros=" + std::to_string(zm) +
                     " coeff=" + V::S(coeff);
    c_.Case("batch inverse " + in);
    std::vector<F> want(n);
    for (size_t i = 0; i < n; ++i)
      want[i] = v[i].IsZero()
                    ? F::Zero()
                    : V::From(V::Z(coeff) * InvM(V::Z(v[i]), p_));
    std::vector<F> out(n, V::Any(r));
    B(F::BatchInverse(v, &out, coeff) && out == want, "batch_inverse", in);
    out.assign(n, V::Any(r));
    B(F::BatchInverseSerial(v, &out, coeff) && out == want,
      "batch_inverse_serial", in);
    out = v;
    B(F::BatchInverseInPlace(out, coeff) && out == want, "batch_inverse_in_place", in);
    out = v;
    B(F::BatchInverseInPlaceSerial(out, coeff) && out == want,
      "batch_inverse_in_place_serial", in);
    out.resize(n + 1);
    B(!F::BatchInverse(v, &out, coeff), "batch_inverse_size_mismatch", in);
    B(!F::BatchInverseSerial(v, &out, coeff), "batch_inverse_size_mismatch", in);
    // sums of products, linear combinations
    std::vector<F> w = Vec(n, r.Below(6));
    mpz_class sum = 0;
    for (size_t i = 0; i < n; ++i) sum += V::Z(v[i]) * V::Z(w[i]);
    Is(F::SumOfProducts(v, w), sum, "sum_of_products", in);
    Is(F::SumOfProductsSerial(v, w), sum, "sum_of_products_serial", in);
    F q = V::Any(r);
    mpz_class fw = 0, bw = 0, Q = V::Z(q);
    for (size_t i = 0; i < n; ++i) {
      fw = Mod(fw * Q + V::Z(v[i]), p_);
      bw = Mod(bw * Q + V::Z(v[n - 1 - i]), p_);
    }
    Is(F::template LinearCombination<true>(v, q), fw, "linear_combination_forward", in);
    Is(F::template LinearCombination<false>(v, q), bw, "linear_combination_backward", in);
    if (n) {
      std::vector<F> x = v;
      Is(F::template LinearCombinationInPlace<true>(x, q), fw,
         "linear_combination_in_place_forward", in);
      x = v;
      Is(F::template LinearCombinationInPlace<false>(x, q), bw,
         "linear_combination_in_place_backward", in);
    }
    // multi scalar mul of field elements (empty input is refused)
    if (n == 0) return;
    std::vector<F> mo(n);
    B(F::MultiScalarMul(v, w, &mo), "multi_scalar_mul_ok", in);
    bool ok = true;
    for (size_t i = 0; i < n; ++i) ok &= mo[i] == v[i] * w[i];
    B(ok, "multi_scalar_mul_msmb", in);
    B(F::MultiScalarMul(v, q, &mo), "multi_scalar_mul_ok", in);
    ok = true;
    for (size_t i = 0; i < n; ++i) ok &= mo[i] == v[i] * q;
    B(ok, "multi_scalar_mul_mssb", in);
    B(F::MultiScalarMul(q, w, &mo), "multi_scalar_mul_ok", in);
    ok = true;
    for (size_t i = 0; i < n; ++i) ok &= mo[i] == w[i] * q;
    B(ok, "multi_scalar_mul_ssmb", in);
    uint64_t h = 7;
    for (auto& f : v) h = vh::Mix(h ^ vh::HashF(f));
    c_.Distinct(h);
  }

  void Roots() {
    vh::Rng& r = c_.rng;
    for (size_t k = 0; k < c_.N(60, 1500); ++k) {
      F a = V::Any(r);
      if (r.Chance(1, 3)) a = a * a;
      mpz_class A = V::Z(a);
      int l = mpz_legendre(A.get_mpz_t(), p_.get_mpz_t());
      c_.Case("sqrt " + V::S(a));
      LegendreSymbol got = a.Legendre();
      B((l == 0 && got == LegendreSymbol::kZero) ||
            (l == 1 && got == LegendreSymbol::kOne) ||
            (l == -1 && got == LegendreSymbol::kMinusOne),
        "legendre", V::S(a));
      F s;
      bool has = a.SquareRoot(&s);
      B(has == (l >= 0), "square_root_exists", V::S(a));
      if (has && l >= 0) {
        B(V::Canonical(s) && Mod(V::Z(s) * V::Z(s), p_) == A, "square_root",
          V::S(a) + " got " + V::S(s));
      }
      c_.Count(l > 0 ? "residues" : l < 0 ? "non_residues" : "zero_roots");
      c_.Distinct(vh::HashF(a));
    }
  }

  void RootsOfUnity() {
    if constexpr (F::Config::kHasTwoAdicRootOfUnity ||
                  F::Config::kHasLargeSubgroupRootOfUnity) {
      mpz_class m = p_ - 1;
      std::vector<uint64_t> ns;
      for (unsigned i = 0; i < 64; ++i) ns.push_back(uint64_t{1} << i);
      for (uint64_t n : {3ull, 5ull, 6ull, 7ull, 9ull, 12ull, 15ull, 48ull, 96ull, 1000ull,
                         (1ull << 20) * 3, (1ull << 33) + 1, (1ull << 62) + 1,
                         (1ull << 63) - 1})
        ns.push_back(n);
      if constexpr (F::Config::kHasLargeSubgroupRootOfUnity) {
        uint64_t q = F::Config::kSmallSubgroupBase, v = 1;
        for (unsigned i = 0; i <= F::Config::kSmallSubgroupAdicity + 1; ++i) {
          for (unsigned j = 0; j < 40; j += 1) ns.push_back(v << j);
          v *= q;
        }
      }
      for (uint64_t n : ns) {
        std::string in = "n=" + std::to_string(n);
        c_.Case("root of unity " + in);
        F w;
        bool ok = F::GetRootOfUnity(n, &w);
        mpz_class Z;
        mpz_import(Z.get_mpz_t(), 1, -1, 8, 0, 0, &n);
        bool divides = mpz_divisible_p(m.get_mpz_t(), Z.get_mpz_t());
        bool pow2 = (n & (n - 1)) == 0;
        if (ok) {
          B(PowM(V::Z(w), Z, p_) == 1, "root_of_unity_order", in);
          // primitive: w^(n/q) != 1 for every prime q | n
          uint64_t t = n;
          bool prim = true;
          for (uint64_t q = 2; q * q <= t && q < 100000; ++q)
            if (t % q == 0) {
              mpz_class e = Z / (unsigned long)q;
              if (PowM(V::Z(w), e, p_) == 1) prim = false;
              while (t % q == 0) t /= q;
            }
          if (t > 1) {
            mpz_class T;
            mpz_import(T.get_mpz_t(), 1, -1, 8, 0, 0, &t);
            if (PowM(V::Z(w), Z / T, p_) == 1) prim = false;
          }
          B(prim, "root_of_unity_primitive", in);
          c_.Count("roots_of_unity_found");
        }
        B(!ok || divides, "root_of_unity_only_if_order_divides", in);
        if (pow2) B(ok == divides, "root_of_unity_power_of_two", in);
        c_.Distinct(vh::Mix(n));
      }
    }
  }

  void Run() {
    F::Init();
    vh::Rng& r = c_.rng;
    for (size_t k = 0; k < c_.N(60, 1500) && c_.TimeLeft(); ++k) {
      F a = V::Any(r);
      Powers(a);
      c_.Distinct(vh::HashF(a));
    }
    for (size_t n = 0; n <= 40; ++n) {
      Successive(n);
      Batch(n);
      Batch(n);
    }
    for (size_t n : {63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2048}) {
      Successive(n);
      Batch(n);
    }
    for (size_t k = 0; k < c_.N(5, 300) && c_.TimeLeft(); ++k) {
      Successive(r.Below(600));
      Batch(r.Below(600));
    }
    Roots();
    RootsOfUnity();
    c_.Require("pow", 10);
    c_.Require("batch_inverse", 50);
    c_.Require("square_root", 5);
    c_.Require("successive_powers", 40);
  }

 private:
  vh::Ctx& c_;
  const mpz_class& p_;
  const char* name_;
};

template <typename F>
void Do(vh::Ctx& c, const char* name) {
  if (!c.Section(name)) return;
  if (c.mode == "derived")
    Derived<F>(c, name).Run();
  else
    Arith<F>(c, name).Run();
}

}  // namespace

void vh_main(vh::Ctx& c) {
#if VH_SET == 1
  Do<bn254::Fq>(c, "bn254.Fq");
  Do<bn254::Fr>(c, "bn254.Fr");
#elif VH_SET == 2
  Do<bls12_381::Fq>(c, "bls12_381.Fq");
  Do<bls12_381::Fr>(c, "bls12_381.Fr");
#elif VH_SET == 3
  Do<bn384_small_two_adicity::Fq>(c, "bn384.Fq");
  Do<bn384_small_two_adicity::Fr>(c, "bn384.Fr");
#elif VH_SET == 4
  Do<secp256k1::Fq>(c, "secp256k1.Fq");
  Do<secp256k1::Fr>(c, "secp256k1.Fr");
#elif VH_SET == 5
  Do<pallas::Fq>(c, "pallas.Fq");
  Do<pallas::Fr>(c, "pallas.Fr");
  Do<vesta::Fq>(c, "vesta.Fq");
  Do<vesta::Fr>(c, "vesta.Fr");
#elif VH_SET == 6
  Do<Goldilocks>(c, "goldilocks");
  Do<BabyBear>(c, "baby_bear");
  Do<KoalaBear>(c, "koala_bear");
  Do<Mersenne31>(c, "mersenne31");
  Do<GF7>(c, "gf7");
#endif
}
