// P13: matrices, sparse matrices, rational field elements, circle groups.
#include <algorithm>

#include "tachyon/base/openmp_util.h"
#include "tachyon/math/base/rational_field.h"
#include "tachyon/math/circle/m31/g1.h"
#include "tachyon/math/circle/m31/g4.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/packed_baby_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/matrix/matrix_operations.h"
#include "tachyon/math/matrix/matrix_types.h"
#include "tachyon/math/matrix/matrix_utils.h"
#include "tachyon/math/matrix/sparse/sparse_matrix.h"
#include "vh/fields.h"
#include "vh/vh.h"

using namespace tachyon::math;
using vh::Ctx;
using vh::Mod;
using vh::Rng;

namespace {

// rows of integers
struct ZM {
  size_t r = 0, c = 0;
  std::vector<mpz_class> v;
  ZM(size_t r, size_t c) : r(r), c(c), v(r * c) {}
  mpz_class& at(size_t i, size_t j) { return v[i * c + j]; }
  const mpz_class& at(size_t i, size_t j) const { return v[i * c + j]; }
  std::string S() const {
    std::string s = std::to_string(r) + "x" + std::to_string(c) + "[";
    for (size_t i = 0; i < v.size() && i < 20; ++i) s += (i ? "," : "") + v[i].get_str(16);
    return s + "]";
  }
};
ZM Prod(const ZM& a, const ZM& b, const mpz_class& p) {
  ZM m(a.r, b.c);
  for (size_t i = 0; i < a.r; ++i)
    for (size_t j = 0; j < b.c; ++j) {
      for (size_t k = 0; k < a.c; ++k) m.at(i, j) += a.at(i, k) * b.at(k, j);
      m.at(i, j) = Mod(m.at(i, j), p);
    }
  return m;
}
template <typename F>
struct Mats {
  using V = vh::FV<F>;
  Ctx& c;
  Rng& r;
  const mpz_class& p;
  std::string name;
  Mats(Ctx& ctx, const std::string& n) : c(ctx), r(ctx.rng), p(V::P()), name(n) {}
  ZM Rand(size_t rows, size_t cols) {
    ZM m(rows, cols);
    int kind = r.Below(4);
    for (auto& x : m.v)
      x = kind == 0 ? mpz_class(r.Below(3)) : kind == 1 && r.Chance(2, 3) ? mpz_class(0) : V::Z(V::Any(r));
    return m;
  }
  template <typename Mat>
  Mat To(const ZM& z) {
    Mat m(z.r, z.c);
    for (size_t i = 0; i < z.r; ++i)
      for (size_t j = 0; j < z.c; ++j) m(i, j) = V::From(z.at(i, j));
    return m;
  }
  template <typename Mat>
  void Is(const Mat& got, const ZM& want, const char* mon, const std::string& in) {
    bool ok = static_cast<size_t>(got.rows()) == want.r && static_cast<size_t>(got.cols()) == want.c;
    std::string why = ok ? "" : " shape " + std::to_string(got.rows()) + "x" + std::to_string(got.cols());
    for (size_t i = 0; ok && i < want.r; ++i)
      for (size_t j = 0; ok && j < want.c; ++j)
        if (V::Z(got(i, j)) != want.at(i, j)) {
          ok = false;
          why = " at " + std::to_string(i) + "," + std::to_string(j) + " got " + V::S(got(i, j));
        }
    c.CheckF(ok, mon, [&] { return in + why + " want " + want.S(); });
  }
  void Products(size_t n, size_t m, size_t k) {
    ZM a = Rand(n, m), b = Rand(m, k), x = Rand(m, 1);
    std::string in = name + " a=" + a.S() + " b=" + b.S();
    c.Case("product " + in);
    c.Distinct(vh::HashStr(in));
    ZM ab = Prod(a, b, p), ax = Prod(a, x, p);
    std::string in2 = name + " a=" + a.S() + " x=" + x.S();
    auto go = [&](auto tag) {
      using Mat = decltype(tag);
      Mat ea = To<Mat>(a), eb = To<Mat>(b);
      Vector<F> ex = To<Vector<F>>(x);
      Is(MulMatMat(ea, eb), ab, "mul_mat_mat", in);
      Is(MulMatMatSerial(ea, eb), ab, "mul_mat_mat_serial", in);
      Is(MulMatVec(ea, ex), ax, "mul_mat_vec", in2);
      Is(MulMatVecSerial(ea, ex), ax, "mul_mat_vec_serial", in2);
      Is((ea * eb).eval(), ab, "eigen_product", in);
      ZM t(m, n);
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < m; ++j) t.at(j, i) = a.at(i, j);
      Is(ea.transpose().eval(), t, "transpose", in);
    };
    go(Matrix<F>());
    go(RowMajorMatrix<F>());
    // diagonal operand given as an expression
    {
      ZM dg = Rand(m, 1);
      Vector<F> e = To<Vector<F>>(dg);
      ZM w(n, m);
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < m; ++j) w.at(i, j) = Mod(a.at(i, j) * dg.at(j, 0), p);
      Is((To<Matrix<F>>(a) * e.asDiagonal()).eval(), w, "diagonal", in);
    }
  }
  void Circulant(size_t n) {
    ZM x = Rand(n, 1);
    Vector<F> e = To<Vector<F>>(x);
    ZM w(n, n);
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j) w.at(i, j) = x.at((i + n - j) % n, 0);
    Matrix<F> got = MakeCirculant(e);
    Is(got, w, "circulant", name + " x=" + x.S());
  }
  void Reverse(unsigned logn, size_t cols) {
    size_t n = size_t{1} << logn;
    ZM a = Rand(n, cols), w(n, cols);
    for (size_t i = 0; i < n; ++i) {
      size_t k = 0;
      for (unsigned b = 0; b < logn; ++b) k |= ((i >> b) & 1) << (logn - 1 - b);
      for (size_t j = 0; j < cols; ++j) w.at(k, j) = a.at(i, j);
    }
    RowMajorMatrix<F> e = To<RowMajorMatrix<F>>(a);
    c.Case("reverse_rows " + name + " " + a.S());
    ReverseMatrixIndexBits(e);
    Is(e, w, "reverse_rows", name + " a=" + a.S());
    ReverseMatrixIndexBits(e);
    Is(e, a, "reverse_rows_twice", name + " a=" + a.S());
    auto m = Map(e);
    Is(m, a, "map", name);
  }
  void Split(size_t rows, size_t cols, size_t chunks) {
    ZM a = Rand(rows, cols);
    Matrix<F> e = To<Matrix<F>>(a);
    auto parts = SplitMat(chunks, e);
    bool ok = parts.size() == chunks;
    for (size_t i = 0; ok && i < parts.size(); ++i) {
      ZM w(rows - chunks + 1, cols);
      for (size_t k = 0; k < w.r; ++k)
        for (size_t j = 0; j < cols; ++j) w.at(k, j) = a.at(i + k, j);
      Is(parts[i], w, "split", name + " a=" + a.S() + " chunks=" + std::to_string(chunks));
    }
    c.CheckF(ok, "split_count", [&] { return name; });
  }
  // sparse formats: which entries are there, whatever the order they came in
  void Sparse(size_t rows, size_t cols) {
    ZM a(rows, cols);
    std::string pat;
    unsigned density = r.Below(5);
    for (auto& x : a.v)
      if (r.Chance(density, 5)) x = V::Z(V::NonZero(r));
    if (rows && r.Chance(1, 3)) {
      size_t i = r.Below(rows);
      for (size_t j = 0; j < cols; ++j) a.at(i, j) = 0;
    }
    std::string in = name + " a=" + a.S();
    c.Case("sparse " + in);
    c.Distinct(vh::HashStr("sparse" + in));
    using Ell = ELLSparseMatrix<F>;
    using Csr = CSRSparseMatrix<F>;
    std::vector<typename Ell::Elements> el(rows);
    typename Csr::Elements ce;
    std::vector<size_t> ptr{0};
    std::vector<std::vector<size_t>> idx(rows);
    std::vector<size_t> flat_idx;
    std::vector<std::vector<F>> data(rows);
    std::vector<F> flat;
    size_t nz = 0, maxc = 0;
    bool shuffled = false;
    for (size_t i = 0; i < rows; ++i) {
      std::vector<size_t> order;
      for (size_t j = 0; j < cols; ++j)
        if (a.at(i, j) != 0) order.push_back(j), ++nz, maxc = std::max(maxc, j + 1);
      idx[i] = order;
      for (size_t j : order) {
        flat_idx.push_back(j);
        data[i].push_back(V::From(a.at(i, j)));
        flat.push_back(data[i].back());
      }
      if (r.Bool())
        for (size_t k = order.size(); k > 1; --k) {
          size_t s = r.Below(k);
          if (s != k - 1) std::swap(order[k - 1], order[s]), shuffled = true;
        }
      for (size_t j : order) {
        el[i].push_back({j, V::From(a.at(i, j))});
        ce.push_back({j, V::From(a.at(i, j))});
      }
      ptr.push_back(ce.size());
    }
    auto I = [&] { return in; };
    Ell ell(el);
    Csr csr(ce, ptr);
    c.CheckF(ell.IsSorted() == !shuffled || !shuffled, "ell_is_sorted", I);
    c.CheckF(csr.IsSorted() == ell.IsSorted(), "csr_is_sorted", I);
    ell.Sort();
    csr.Sort();
    c.CheckF(ell.IsSorted() && csr.IsSorted(), "sorted", I);
    c.CheckF(ell.GetColumnIndices() == idx && ell.GetData() == data, "ell_content", I);
    c.CheckF(csr.GetColumnIndices() == flat_idx && csr.GetData() == flat && csr.row_ptrs() == ptr, "csr_content", I);
    c.CheckF(ell.NonZeros() == nz && csr.NonZeros() == nz, "non_zeros", I);
    c.CheckF(ell.MaxRows() == rows && csr.MaxRows() == rows, "max_rows", I);
    c.CheckF(ell.MaxCols() == maxc && csr.MaxCols() == maxc, "max_cols", I);
    c.CheckF(ell.ToCSR() == csr && Csr::FromELL(ell) == csr, "ell_to_csr", I);
    c.CheckF(csr.ToELL() == ell && Ell::FromCSR(csr) == ell, "csr_to_ell", I);
    auto dense = [&](const Eigen::SparseMatrix<F>& s) {
      ZM z(s.rows(), s.cols());
      for (int k = 0; k < s.outerSize(); ++k)
        for (typename Eigen::SparseMatrix<F>::InnerIterator it(s, k); it; ++it)
          z.at(it.row(), it.col()) += V::Z(it.value());
      return z;
    };
    ZM w(rows, maxc);
    for (size_t i = 0; i < rows; ++i)
      for (size_t j = 0; j < maxc; ++j) w.at(i, j) = a.at(i, j);
    Eigen::SparseMatrix<F> se = ell.ToEigenSparseMatrix(), sc = csr.ToEigenSparseMatrix();
    ZM ze = dense(se), zc = dense(sc);
    c.CheckF(ze.r == w.r && ze.c == w.c && ze.v == w.v, "ell_to_eigen", I);
    c.CheckF(zc.r == w.r && zc.c == w.c && zc.v == w.v, "csr_to_eigen", I);
    c.CheckF(Ell::FromEigenSparseMatrix(se) == ell, "ell_from_eigen", I);
    c.CheckF(Csr::FromEigenSparseMatrix(sc) == csr, "csr_from_eigen", I);
    Eigen::SparseMatrix<F, Eigen::RowMajor> rm = se;
    c.CheckF(Ell::FromEigenSparseMatrix(rm) == ell, "ell_from_eigen_rowmajor", I);
    if (nz) {
      auto el2 = ell;
      size_t i = r.Below(rows);
      while (data[i].empty()) i = r.Below(rows);
      el[i].back().value += F::One();
      Ell other(el);
      other.Sort();
      c.CheckF(other != ell && !(other == ell) && el2 == ell, "ell_differs", I);
      c.CheckF(other.ToCSR() != csr, "csr_differs", I);
    }
  }
  void Run() {
    c.Section("dense/" + name);
    for (size_t i = c.N(60); i > 0 && c.TimeLeft(); --i) {
      size_t n = 1 + r.Below(7), m = 1 + r.Below(7);
      if (r.Chance(1, 3)) m = n;
      Products(n, m, 1 + r.Below(7));
      Circulant(1 + r.Below(9));
      Reverse(r.Below(7), 1 + r.Below(6));
      size_t rows = 1 + r.Below(12);
      Split(rows, 1 + r.Below(4), 1 + r.Below(rows));
    }
    Products(1, 5, 1);
    Products(5, 1, 5);
    Products(40, 3, 17);
    Products(3, 40, 2);
    Reverse(0, 3);
    Reverse(10, 3);
    c.Section("sparse/" + name);
    for (size_t i = c.N(100); i > 0 && c.TimeLeft(); --i) Sparse(r.Below(7), 1 + r.Below(7));
    Sparse(0, 0);
    Sparse(20, 20);
  }
};

template <typename E>
void Packing(Ctx& c, const std::string& name) {
  using F = typename ExtensionFieldTraits<E>::BaseField;
  using PF = typename PackedFieldTraits<F>::PackedField;
  using V = vh::FV<F>;
  Rng& r = c.rng;
  c.Section("packing/" + name);
  constexpr size_t K = ExtensionFieldTraits<E>::kDegreeOverBasePrimeField;
  for (size_t it = c.N(60); it > 0 && c.TimeLeft(); --it) {
    size_t rows = 1 + r.Below(3 * PF::N), cols = 1 + r.Below(3 * PF::N);
    std::string in = name + " " + std::to_string(rows) + "x" + std::to_string(cols);
    c.Case("packing " + in);
    c.Distinct(vh::HashStr("pack" + in));
    RowMajorMatrix<F> m(rows, cols);
    RowMajorMatrix<E> me(rows, cols);
    for (size_t i = 0; i < rows; ++i)
      for (size_t j = 0; j < cols; ++j) {
        m(i, j) = V::Any(r);
        for (size_t k = 0; k < K; ++k) me(i, j)[k] = V::Any(r);
      }
    size_t row = r.Below(rows);
    auto I = [&] { return in + " row=" + std::to_string(row); };
    std::vector<PF> h = PackRowHorizontallyPadded(m.row(row));
    bool ok = h.size() == (cols + PF::N - 1) / PF::N;
    for (size_t j = 0; ok && j < h.size() * PF::N; ++j)
      ok = h[j / PF::N][j % PF::N] == (j < cols ? m(row, j) : F::Zero());
    c.CheckF(ok, "pack_horizontally", I);
    std::vector<PF> v = PackRowVertically<PF>(m, row);
    ok = v.size() == cols;
    for (size_t j = 0; ok && j < cols; ++j)
      for (size_t k = 0; ok && k < PF::N; ++k) ok = v[j][k] == m((row + k) % rows, j);
    c.CheckF(ok, "pack_vertically", I);
    v = PackRowVertically<PF>(me, row);
    ok = v.size() == cols * K;
    for (size_t j = 0; ok && j < cols * K; ++j)
      for (size_t k = 0; ok && k < PF::N; ++k) ok = v[j][k] == me((row + k) % rows, j / K)[j % K];
    c.CheckF(ok, "pack_vertically_ext", I);
    E base;
    for (size_t k = 0; k < K; ++k) base[k] = V::Any(r);
    std::vector<E> dots = DotExtPowers(m, base);
    ok = dots.size() == rows;
    for (size_t i = 0; ok && i < rows; ++i) {
      E s = E::Zero(), pw = E::One();
      for (size_t j = 0; j < cols; ++j) {
        s += pw * m(i, j);
        pw *= base;
      }
      ok = s == dots[i];
    }
    c.CheckF(ok, "dot_ext_powers", [&] { return in + " base=" + base.ToString(); });
  }
}

template <typename F>
struct Rat {
  using V = vh::FV<F>;
  using R = RationalField<F>;
  Ctx& c;
  Rng& r;
  const mpz_class& p;
  std::string name;
  Rat(Ctx& ctx, const std::string& n) : c(ctx), r(ctx.rng), p(V::P()), name(n) {}
  mpz_class Z(const R& x) { return Mod(V::Z(x.numerator()) * vh::InvM(V::Z(x.denominator()), p), p); }
  void Is(const R& x, const mpz_class& want, const char* mon, const std::string& in) {
    bool ok = !x.denominator().IsZero();
    c.CheckF(ok && Z(x) == want && V::Z(x.Evaluate()) == want, mon, [&] {
      return in + " got " + x.ToString() + " want " + want.get_str(16);
    });
  }
  R Any() {
    F n = V::Any(r), d = V::NonZero(r);
    switch (r.Below(8)) {
      case 0: return R(n);
      case 1: return R(d, d);
      case 2: return R(-d, d);
      case 3: return R(F::One(), d);
      case 4: return R(F::MinusOne(), d);
      case 5: return R(F::Zero(), d);
      default: return R(n, d);
    }
  }
  void Ops(const R& a, const R& b) {
    std::string in = name + " a=" + a.ToString() + " b=" + b.ToString();
    c.Case("rational " + in);
    c.Distinct(vh::HashStr("rat" + in));
    auto I = [&] { return in; };
    mpz_class x = Z(a), y = Z(b);
    Is(a, x, "evaluate", in);
    c.CheckF(a.IsZero() == (x == 0), "rational_is_zero", I);
    c.CheckF(a.IsOne() == (x == 1), "rational_is_one", I);
    c.CheckF(a.IsMinusOne() == (x == p - 1), "rational_is_minus_one", I);
    c.CheckF((a == b) == (x == y) && (a != b) == (x != y), "rational_eq", I);
    F k = V::NonZero(r);
    c.CheckF(a == R(a.numerator() * k, a.denominator() * k), "rational_scaled_eq", I);
    Is(a + b, Mod(x + y, p), "rational_add", in);
    Is(a - b, Mod(x - y, p), "rational_sub", in);
    Is(a * b, Mod(x * y, p), "rational_mul", in);
    Is(-a, Mod(-x, p), "rational_neg", in);
    Is(a.Double(), Mod(2 * x, p), "rational_double", in);
    Is(a.Square(), Mod(x * x, p), "rational_square", in);
    R t = a; t += b; Is(t, Mod(x + y, p), "rational_add_inplace", in);
    t = a; t -= b; Is(t, Mod(x - y, p), "rational_sub_inplace", in);
    t = a; t *= b; Is(t, Mod(x * y, p), "rational_mul_inplace", in);
    t = a; t.NegateInPlace(); Is(t, Mod(-x, p), "rational_neg_inplace", in);
    t = a; t.DoubleInPlace(); Is(t, Mod(2 * x, p), "rational_double_inplace", in);
    t = a; t.SquareInPlace(); Is(t, Mod(x * x, p), "rational_square_inplace", in);
    t = a; t += t; Is(t, Mod(2 * x, p), "rational_add_self", in);
    t = a; t -= t; Is(t, 0, "rational_sub_self", in);
    t = a; t *= t; Is(t, Mod(x * x, p), "rational_mul_self", in);
    uint64_t e = r.Below(20);
    Is(a.Pow(e), e == 0 ? mpz_class(1) : vh::PowM(x, e, p), "rational_pow", in);
    auto inv = a.Inverse();
    c.CheckF(inv.has_value() == (x != 0), "rational_inverse_defined", I);
    if (inv && x != 0) Is(*inv, vh::InvM(x, p), "rational_inverse", in);
    t = a;
    auto inv2 = t.InverseInPlace();
    c.CheckF(inv2.has_value() == (x != 0), "rational_inverse_inplace_defined", I);
    if (inv2 && x != 0) Is(t, vh::InvM(x, p), "rational_inverse_inplace", in);
    auto q = a / b;
    c.CheckF(q.has_value() == (y != 0), "rational_div_defined", I);
    if (q && y != 0) Is(*q, Mod(x * vh::InvM(y, p), p), "rational_div", in);
  }
  void Batch(size_t n) {
    std::vector<R> v;
    std::vector<mpz_class> want;
    F k = V::Any(r);
    bool scaled = r.Bool();
    for (size_t i = 0; i < n; ++i) {
      if (r.Chance(1, 6)) {
        // assigned but undefined cells evaluate to zero
        v.push_back(R(V::Any(r), F::Zero()));
        want.push_back(0);
      } else {
        v.push_back(Any());
        want.push_back(Mod(Z(v.back()) * (scaled ? V::Z(k) : mpz_class(1)), p));
      }
    }
    c.Case("batch_evaluate " + name + " n=" + std::to_string(n));
    std::vector<F> out(n, V::Any(r));
    bool ok = scaled ? R::BatchEvaluate(v, &out, k) : R::BatchEvaluate(v, &out);
    size_t bad = n;
    for (size_t i = 0; i < n && bad == n; ++i)
      if (V::Z(out[i]) != want[i]) bad = i;
    c.CheckF(ok && bad == n, scaled ? "batch_evaluate_scaled" : "batch_evaluate", [&] {
      return name + " n=" + std::to_string(n) + (bad < n ? " at " + std::to_string(bad) + ": " + v[bad].ToString() + " -> " + V::S(out[bad]) : "");
    });
    std::vector<F> wrong(n + 1);
    c.CheckF(!R::BatchEvaluate(v, &wrong), "batch_evaluate_size", [&] { return name; });
  }
  void Run() {
    c.Section("rational/" + name);
    for (size_t i = c.N(400); i > 0 && c.TimeLeft(); --i) {
      R a = Any(), b = Any();
      if (r.Chance(1, 6)) b = R(a.numerator().Double(), a.denominator().Double());
      Ops(a, b);
    }
    for (size_t i = c.N(60); i > 0 && c.TimeLeft(); --i) Batch(1 + r.Below(40));
    Batch(1000);
  }
};

template <typename P>
void CircleGroup(Ctx& c, const std::string& name) {
  using B = typename P::BaseField;
  using S = typename P::ScalarField;
  using C = typename P::Circle;
  C::Init();
  Rng& r = c.rng;
  c.Section("circle/" + name);
  // points are the norm-one elements x + iy
  struct Z {
    B x, y;
  };
  auto mul = [](const Z& a, const Z& b) { return Z{a.x * b.x - a.y * b.y, a.x * b.y + a.y * b.x}; };
  auto pow = [&](Z b, mpz_class e) {
    Z q{B::One(), B::Zero()};
    for (; e > 0; e >>= 1, b = mul(b, b))
      if (mpz_odd_p(e.get_mpz_t())) q = mul(q, b);
    return q;
  };
  mpz_class order = vh::FV<S>::P();
  Z g{P::Generator().x(), P::Generator().y()};
  auto same = [](const P& p, const Z& z) { return p.x() == z.x && p.y() == z.y; };
  c.CheckF(same(P::Zero(), Z{B::One(), B::Zero()}) && P::Zero().IsZero(), "circle_identity", [&] { return name; });
  c.CheckF((g.x * g.x + g.y * g.y).IsOne(), "circle_generator_on", [&] { return name; });
  c.CheckF(same(P::Zero(), pow(g, order)), "circle_order", [&] { return name; });
  for (size_t it = c.N(100); it > 0 && c.TimeLeft(); --it) {
    mpz_class k = vh::FV<S>::Z(vh::FV<S>::Any(r)), l = vh::FV<S>::Z(vh::FV<S>::Any(r));
    if (r.Chance(1, 8)) l = k;
    if (r.Chance(1, 8)) l = Mod(-k, order);
    std::string in = name + " k=" + k.get_str(16) + " l=" + l.get_str(16);
    c.Case("circle " + in);
    c.Distinct(vh::HashStr(in));
    auto I = [&] { return in; };
    Z za = pow(g, k), zb = pow(g, l);
    P a(za.x, za.y), b(zb.x, zb.y);
    c.CheckF(same(vh::FV<S>::From(k) * P::Generator(), za), "circle_scalar_mul", I);
    c.CheckF(same(P::Generator() * vh::FV<S>::From(k), za), "circle_mul_scalar", I);
    c.CheckF(a.IsOnCircle() && C::IsOnCircle(b), "circle_on", I);
    c.CheckF(!P(a.x() + B::One(), a.y() + B::One()).IsOnCircle() ||
                 ((a.x() + B::One()).Square() + (a.y() + B::One()).Square()).IsOne(), "circle_off", I);
    Z zi{zb.x, -zb.y};
    c.CheckF(same(a + b, mul(za, zb)), "circle_add", I);
    c.CheckF(same(a - b, mul(za, zi)), "circle_sub", I);
    c.CheckF(same(-b, zi), "circle_neg", I);
    c.CheckF(same(a.Double(), mul(za, za)), "circle_double", I);
    P t = a; t += b; c.CheckF(same(t, mul(za, zb)), "circle_add_inplace", I);
    t = a; t -= b; c.CheckF(same(t, mul(za, zi)), "circle_sub_inplace", I);
    t = b; t.NegateInPlace(); c.CheckF(same(t, zi), "circle_neg_inplace", I);
    t = a; t.DoubleInPlace(); c.CheckF(same(t, mul(za, za)), "circle_double_inplace", I);
    t = a; t += t; c.CheckF(same(t, mul(za, za)), "circle_add_self", I);
    t = a; t -= t; c.CheckF(t.IsZero(), "circle_sub_self", I);
    c.CheckF(same(a.Conjugate(), Z{za.x, -za.y}) && same(a.Antipode(), Z{-za.x, -za.y}), "circle_symmetries", I);
    c.CheckF((a == b) == (k == l) && (a != b) == (k != l), "circle_eq", I);
    c.CheckF(same(P::Random() + P::Zero(), Z{B::Zero(), B::Zero()}) == false, "circle_random", I);
  }
}

}  // namespace

void vh_main(Ctx& ctx) {
#if defined(TACHYON_HAS_OPENMP)
  ctx.Count("omp_threads", omp_get_max_threads());
#endif
  GF7::Init();
  BabyBear4::Init();
  KoalaBear4::Init();
  PackedBabyBear::Init();
  PackedKoalaBear::Init();
  PackedBabyBear4::Init();
  PackedKoalaBear4::Init();
  bn254::Fr::Init();
  Mats<GF7>(ctx, "gf7").Run();
  Mats<BabyBear>(ctx, "babybear").Run();
  Mats<bn254::Fr>(ctx, "bn254").Run();
  Packing<BabyBear4>(ctx, "babybear4");
  Packing<KoalaBear4>(ctx, "koalabear4");
  Rat<GF7>(ctx, "gf7").Run();
  Rat<BabyBear>(ctx, "babybear").Run();
  Rat<bn254::Fr>(ctx, "bn254").Run();
  CircleGroup<m31::G1AffinePoint>(ctx, "m31_g1");
  CircleGroup<m31::G4AffinePoint>(ctx, "m31_g4");
  ctx.Require("mul_mat_vec");
  ctx.Require("csr_to_ell");
  ctx.Require("dot_ext_powers");
  ctx.Require("batch_evaluate_scaled");
  ctx.Require("circle_add");
}
