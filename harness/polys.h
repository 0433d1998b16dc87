// Polynomial arithmetic over GMP: a polynomial is a trimmed list of integers in
// [0, p), lowest degree first.
#ifndef VH_POLYS_H_
#define VH_POLYS_H_

#include "vh/fields.h"

namespace vh {

using ZP = std::vector<mpz_class>;

inline ZP Trim(ZP a) {
  while (!a.empty() && a.back() == 0) a.pop_back();
  return a;
}
inline ZP ZPAdd(const ZP& a, const ZP& b, const mpz_class& p, int sign = 1) {
  ZP r(std::max(a.size(), b.size()));
  for (size_t i = 0; i < r.size(); ++i) {
    if (i < a.size()) r[i] = a[i];
    if (i < b.size()) r[i] += sign * b[i];
    r[i] = Mod(r[i], p);
  }
  return Trim(r);
}
inline ZP ZPMul(const ZP& a, const ZP& b, const mpz_class& p) {
  if (a.empty() || b.empty()) return {};
  ZP r(a.size() + b.size() - 1);
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i] == 0) continue;
    for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j];
  }
  for (auto& x : r) x = Mod(x, p);
  return Trim(r);
}
inline ZP ZPScale(const ZP& a, const mpz_class& k, const mpz_class& p) {
  ZP r = a;
  for (auto& x : r) x = Mod(x * k, p);
  return Trim(r);
}
// b != 0
inline void ZPDivMod(const ZP& a, const ZP& b, const mpz_class& p, ZP* q, ZP* r) {
  ZP rem = a;
  ZP quo(a.size() >= b.size() ? a.size() - b.size() + 1 : 0);
  mpz_class inv = InvM(b.back(), p);
  for (size_t k = quo.size(); k-- > 0;) {
    mpz_class c = Mod(rem[k + b.size() - 1] * inv, p);
    quo[k] = c;
    if (c == 0) continue;
    for (size_t j = 0; j < b.size(); ++j) rem[k + j] = Mod(rem[k + j] - c * b[j], p);
  }
  *q = Trim(quo);
  *r = Trim(rem);
}
inline mpz_class ZPEval(const ZP& a, const mpz_class& x, const mpz_class& p) {
  mpz_class r = 0;
  for (size_t i = a.size(); i-- > 0;) {
    r *= x;
    r += a[i];
    mpz_tdiv_r(r.get_mpz_t(), r.get_mpz_t(), p.get_mpz_t());
  }
  return r;
}
inline std::string ShowZP(const ZP& a) {
  std::string s = "[";
  for (size_t i = 0; i < a.size() && i < 24; ++i) s += (i ? "," : "") + a[i].get_str();
  return s + (a.size() > 24 ? ",...]#" : "]#") + std::to_string(a.size());
}
template <typename F>
ZP ZPFrom(const std::vector<F>& v) {
  ZP r(v.size());
  for (size_t i = 0; i < v.size(); ++i) r[i] = FV<F>::Z(v[i]);
  return r;
}
template <typename F>
std::vector<F> ZPTo(const ZP& v) {
  std::vector<F> r(v.size());
  for (size_t i = 0; i < v.size(); ++i) r[i] = FV<F>::From(v[i]);
  return r;
}

}  // namespace vh
#endif
