// P15: transcripts and challengers. The challenges are a function of exactly
// the observed history (same for prover and verifier, different for any other
// history), and equal to the published constructions.
#include <array>
#include <memory>
#include <optional>
#include <vector>

#include "openssl/blake2.h"
#include "openssl/sha.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/challenger/duplex_challenger.h"
#include "tachyon/crypto/challenger/hash_challenger.h"
#include "tachyon/crypto/challenger/multi_field32_challenger.h"
#include "tachyon/crypto/hashes/sponge/padding_free_sponge.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bn254.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/transcripts/simple_transcript.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/curve.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/curve.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#include "tachyon/zk/plonk/halo2/blake2b_transcript.h"
#include "tachyon/zk/plonk/halo2/poseidon_transcript.h"
#include "tachyon/zk/plonk/halo2/sha256_transcript.h"
#include "tachyon/zk/plonk/halo2/snark_verifier_poseidon_transcript.h"
#include "vh/hashes.h"

using namespace tachyon;
using vh::Ctx;
using vh::FV;
using vh::Mod;
using vh::Rng;
using vh::Z;
using vh::ZV;
namespace h2 = tachyon::zk::plonk::halo2;
namespace crypto = tachyon::crypto;

namespace {

std::string LE(const Z& z, size_t n) {
  std::string s(n, 0);
  for (size_t i = 0; i < n; ++i) s[i] = (char)Z((z >> (8 * i)) & 255).get_ui();
  return s;
}
std::string BE(const Z& z, size_t n) {
  std::string s = LE(z, n);
  return std::string(s.rbegin(), s.rend());
}
Z FromLE(const uint8_t* p, size_t n) {
  Z z;
  mpz_import(z.get_mpz_t(), n, -1, 1, 0, 0, p);
  return z;
}

// one step of a history; points carry affine coordinates, (0, 0) = identity
struct Item {
  int kind;  // 0 common point 1 common scalar 2 point 3 scalar 4 challenge
  Z x, y;
  bool operator==(const Item& o) const {
    return kind == o.kind && x == o.x && y == o.y;
  }
};

// Reference transcripts: absorb items, squeeze.
struct RefT {
  virtual ~RefT() = default;
  virtual void Point(const Z& x, const Z& y) = 0;
  virtual void Scalar(const Z& s) = 0;
  virtual Z Squeeze() = 0;
};
struct RefBlake : RefT {
  Z p;
  std::string msg;
  explicit RefBlake(const Z& p_) : p(p_) {}
  void Point(const Z& x, const Z& y) override {
    msg += '\1';
    if (x == 0 && y == 0) {
      msg += LE(0, 32) + LE(5, 32);
    } else {
      msg += LE(x, 32) + LE(y, 32);
    }
  }
  void Scalar(const Z& s) override { msg += '\2' + LE(s, 32); }
  Z Squeeze() override {
    msg += '\0';
    uint8_t out[64];
    BLAKE2B_CTX ctx;
    BLAKE2B512_InitWithPersonal(&ctx, "Halo2-Transcript");
    BLAKE2B512_Update(&ctx, msg.data(), msg.size());
    BLAKE2B512_Final(out, &ctx);
    return Mod(FromLE(out, 64), p);
  }
};
struct RefSha : RefT {
  Z p;
  std::string msg;
  explicit RefSha(const Z& p_) : p(p_) {}
  void Point(const Z& x, const Z& y) override {
    msg += std::string(31, 0) + '\1' + BE(x, 32) + BE(y, 32);
  }
  void Scalar(const Z& s) override {
    msg += std::string(31, 0) + '\2' + BE(s, 32);
  }
  Z Squeeze() override {
    msg += '\0';
    uint8_t out[32];
    SHA256_CTX ctx;
    SHA256_Init(&ctx);
    SHA256_Update(&ctx, msg.data(), msg.size());
    SHA256_Final(out, &ctx);
    msg.assign((char*)out, 32);
    return Mod(FromLE(out, 32), p);
  }
};
// Poseidon in variable-length mode: state[0] = 2^64, blocks added to
// state[1..rate], a trailing 1 after the last element.
template <typename Params>
struct RefPos : RefT {
  static const vh::Ref1<Params>& Ref() {
    static vh::Ref1<Params> r(0);
    return r;
  }
  Z p;
  ZV st, buf;
  explicit RefPos(const Z& p_) : p(p_), st(Params::kWidth, 0) {
    st[0] = Z(1) << 64;
  }
  void Point(const Z& x, const Z& y) override {
    buf.push_back(Mod(x, p));
    buf.push_back(Mod(y, p));
  }
  void Scalar(const Z& s) override { buf.push_back(s); }
  Z Squeeze() override {
    buf.push_back(1);
    for (size_t i = 0; i < buf.size(); i += Params::kRate) {
      for (size_t j = 0; j < Params::kRate && i + j < buf.size(); ++j)
        st[1 + j] = Mod(st[1 + j] + buf[i + j], p);
      Ref().Permute(st);
    }
    buf.clear();
    return st[1];
  }
};

template <typename Point>
struct PV {
  using FQ = typename Point::BaseField;
  using FR = typename Point::ScalarField;
  static Point Make(const Item& i) {
    return Point(FV<FQ>::From(i.x), FV<FQ>::From(i.y));
  }
  static Item Rand(Rng& r, int kind) {
    Item it{kind, 0, 0};
    if (r.Chance(1, 12)) return it;
    Point p = (FV<FR>::Any(r) * Point::Generator()).ToAffine();
    it.x = FV<FQ>::Z(p.x());
    it.y = FV<FQ>::Z(p.y());
    return it;
  }
};

std::string Hist(const std::vector<Item>& h) {
  std::string s;
  for (const Item& i : h) {
    s += "PSpsC"[i.kind];
    if (i.kind < 4) s += i.x.get_str(16).substr(0, 8) + " ";
  }
  return s;
}

template <typename W, typename Point>
std::vector<Z> Replay(W& w, const std::vector<Item>& h, bool* ok) {
  using FR = typename Point::ScalarField;
  std::vector<Z> ch;
  for (const Item& i : h) {
    switch (i.kind) {
      case 0: *ok &= w.WriteToTranscript(PV<Point>::Make(i)); break;
      case 1: *ok &= w.WriteToTranscript(FV<FR>::From(i.x)); break;
      case 2: *ok &= w.WriteToProof(PV<Point>::Make(i)); break;
      case 3: *ok &= w.WriteToProof(FV<FR>::From(i.x)); break;
      default: ch.push_back(FV<FR>::Z(w.SqueezeChallenge()));
    }
  }
  return ch;
}

template <typename Point, typename Writer, typename Reader, typename Ref>
void Transcript(Ctx& c, const std::string& name, bool state_api_hash,
                size_t iters) {
  using FQ = typename Point::BaseField;
  using FR = typename Point::ScalarField;
  if (!c.Section(name)) return;
  for (size_t k = 0; k < c.N(iters, iters * 20) && c.TimeLeft(); ++k) {
    std::vector<Item> h;
    size_t n = c.rng.Below(c.rng.Chance(1, 4) ? 40 : 12) + 1;
    for (size_t i = 0; i < n; ++i) {
      int kind = c.rng.Below(6);
      if (kind >= 4) kind = 4;
      if (kind == 0 || kind == 2)
        h.push_back(PV<Point>::Rand(c.rng, kind));
      else if (kind == 4)
        h.push_back({4, 0, 0});
      else
        h.push_back({kind, FV<FR>::Z(FV<FR>::Any(c.rng)), 0});
    }
    h.push_back({4, 0, 0});
    std::string desc = name + " " + Hist(h);
    c.Case(desc);
    auto reference = [&](const std::vector<Item>& hh) {
      Ref ref(FV<FR>::P());
      std::vector<Z> r;
      for (const Item& i : hh) {
        if (i.kind == 4) r.push_back(ref.Squeeze());
        else if (i.kind & 1) ref.Scalar(i.x);
        else ref.Point(i.x, i.y);
      }
      return r;
    };
    std::vector<Z> want = reference(h);
    // prover
    Writer w((base::Uint8VectorBuffer()));
    bool ok = true;
    std::vector<Z> got = Replay<Writer, Point>(w, h, &ok);
    c.CheckF(ok, "write_ok", [&] { return desc; });
    c.CheckF(got == want, "challenges_are_the_construction", [&] {
      return desc + " got " + vh::SZ(got) + " want " + vh::SZ(want);
    });
    // verifier
    std::vector<uint8_t> proof = w.buffer().owned_buffer();
    Reader r(base::ReadOnlyBuffer(proof.data(), proof.size()));
    std::vector<Z> got2;
    bool read_ok = true, same = true;
    for (const Item& i : h) {
      if (i.kind == 0) {
        read_ok &= r.WriteToTranscript(PV<Point>::Make(i));
      } else if (i.kind == 1) {
        read_ok &= r.WriteToTranscript(FV<FR>::From(i.x));
      } else if (i.kind == 2) {
        Point p = Point::Generator();
        read_ok &= r.ReadFromProof(&p);
        same &= FV<FQ>::Z(p.x()) == i.x && FV<FQ>::Z(p.y()) == i.y;
      } else if (i.kind == 3) {
        FR f;
        read_ok &= r.ReadFromProof(&f);
        same &= FV<FR>::Z(f) == i.x && FV<FR>::Canonical(f);
      } else {
        got2.push_back(FV<FR>::Z(r.SqueezeChallenge()));
      }
      if (!read_ok) break;
    }
    c.CheckF(read_ok, "verifier_reads_the_proof", [&] { return desc; });
    c.CheckF(same, "verifier_reads_what_was_written", [&] { return desc; });
    c.CheckF(got2 == got, "prover_verifier_agree", [&] { return desc; });
    c.CheckF(r.buffer().buffer_offset() == proof.size(), "proof_consumed",
             [&] { return desc; });
    {
      // nothing may be read past the end of the proof
      FR f;
      Point p;
      c.CheckF(!r.ReadFromProof(&f), "no_read_past_end", [&] { return desc; });
      c.CheckF(!r.ReadFromProof(&p), "no_read_past_end", [&] { return desc; });
    }
    if (!proof.empty() && read_ok) {
      size_t cut = c.rng.Below(proof.size());
      Reader tr(base::ReadOnlyBuffer(proof.data(), cut));
      bool all = true;
      for (const Item& i : h) {
        if (i.kind == 2) {
          Point p;
          all &= tr.ReadFromProof(&p);
        } else if (i.kind == 3) {
          FR f;
          all &= tr.ReadFromProof(&f);
        }
        if (!all) break;
      }
      c.CheckF(!all, "truncated_proof_is_refused", [&] {
        return desc + " cut " + std::to_string(cut) + "/" +
               std::to_string(proof.size());
      });
    }
    // any other history gives other challenges
    {
      std::vector<Item> m = h;
      size_t i = c.rng.Below(m.size() - 1);
      unsigned how = c.rng.Below(4);
      if (how == 0 || m.size() < 3) {
        if (m[i].kind == 1 || m[i].kind == 3) m[i].x = Mod(m[i].x + 1, FV<FR>::P());
        else if (m[i].kind == 4) m[i] = {1, 3, 0};
        else if (m[i].y != 0) m[i].y = FV<FQ>::P() - m[i].y;
        else m[i] = PV<Point>::Rand(c.rng, m[i].kind);
      } else if (how == 1) {
        m.erase(m.begin() + i);
      } else if (how == 2) {
        m.insert(m.begin() + i, Item{1, FV<FR>::Z(FV<FR>::Any(c.rng)), 0});
      } else {
        if (i + 2 < m.size()) std::swap(m[i], m[i + 1]);
      }
      // a common input and the same item in the proof are the same history
      auto key = [](std::vector<Item> v) {
        for (Item& x : v)
          if (x.kind == 2 || x.kind == 3) x.kind -= 2;
        return v;
      };
      if (!(key(m) == key(h))) {
        Writer w2((base::Uint8VectorBuffer()));
        bool ok2 = true;
        std::vector<Z> other = Replay<Writer, Point>(w2, m, &ok2);
        c.CheckF(ok2 && other.back() != got.back(),
                 "other_history_other_challenge",
                 [&] { return desc + " vs " + Hist(m); });
        c.Count("mutated histories");
      }
    }
    // the state can be carried over to another writer
    if constexpr (!std::is_same_v<Ref, void>) {
      size_t cut = c.rng.Below(h.size());
      std::vector<Item> a(h.begin(), h.begin() + cut), b(h.begin() + cut, h.end());
      Writer w1((base::Uint8VectorBuffer())), w2((base::Uint8VectorBuffer()));
      bool ok1 = true;
      std::vector<Z> c1 = Replay<Writer, Point>(w1, a, &ok1);
      auto state = w1.GetState();
      if (state_api_hash)
        c.Eq(state.size(), w1.GetStateLen(), "state_len", [&] { return desc; });
      w2.SetState(state);
      std::vector<Z> c2 = Replay<Writer, Point>(w2, b, &ok1);
      c1.insert(c1.end(), c2.begin(), c2.end());
      c.CheckF(ok1 && c1 == want, "state_transfer", [&] {
        return desc + " at " + std::to_string(cut);
      });
    }
    c.Distinct(vh::HashStr(desc));
    c.Sample(desc);
  }
}

// hostile proof bytes: whatever is accepted is a point of the curve with
// canonical coordinates
template <typename Point, typename Reader>
void Hostile(Ctx& c, const std::string& name, bool uncompressed) {
  using FQ = typename Point::BaseField;
  using FR = typename Point::ScalarField;
  if (!c.Section(name + "/hostile")) return;
  const Z p = FV<FQ>::P();
  for (size_t k = 0; k < c.N(300, 6000) && c.TimeLeft(); ++k) {
    std::string b;
    Item it = PV<Point>::Rand(c.rng, 2);
    unsigned how = c.rng.Below(5);
    if (uncompressed) {
      Z x = it.x, y = it.y;
      if (how == 0) y = Mod(y + 1, p);
      if (how == 1) x = Mod(x + 1, p);
      if (how == 2) std::swap(x, y);
      if (how == 3) x += p;
      if (how == 4) y += p;
      b = LE(x, 32) + LE(y, 32);
    } else {
      Z x = how == 0 ? Mod(it.x + 1, p) : how == 1 ? it.x + p : FV<FQ>::RandZ(c.rng);
      b = LE(x, 32);
      if (c.rng.Bool()) b[31] |= 0x80;
      if (c.rng.Chance(1, 4)) b[31] |= 0x40;
      if (how == 4) b = c.rng.Bytes(32);
    }
    c.Case(name + " point");
    Reader r(base::ReadOnlyBuffer(b.data(), b.size()));
    Point q;
    bool ok = r.ReadFromProof(&q);
    c.Count(ok ? "hostile points accepted" : "hostile points refused");
    if (ok) {
      Z x = FV<FQ>::Z(q.x()), y = FV<FQ>::Z(q.y());
      bool canon = FV<FQ>::Canonical(q.x()) && FV<FQ>::Canonical(q.y());
      Z a = FV<FQ>::Z(Point::Curve::Config::kA), bb = FV<FQ>::Z(Point::Curve::Config::kB);
      bool on = (x == 0 && y == 0) || Mod(y * y - x * x * x - a * x - bb, p) == 0;
      c.CheckF(canon && on, "accepted_point_is_on_the_curve", [&] {
        return name + " x " + x.get_str(16) + " y " + y.get_str(16);
      });
      if (x != 0 || y != 0) {
        // one encoding per point: the bytes spell the coordinates
        auto le = [&](size_t at, size_t clear) {
          Z z = 0;
          for (size_t i = 32; i-- > 0;) {
            unsigned v = (unsigned char)b[at + i];
            if (i == 31) v &= 0xff >> clear;
            z = z * 256 + v;
          }
          return z;
        };
        bool same = uncompressed ? le(0, 0) == x && le(32, 0) == y : le(0, 1) == x || le(0, 2) == x;
        c.CheckF(same, "accepted_point_spells_its_coordinates", [&] {
          return name + " x " + x.get_str(16) + " y " + y.get_str(16);
        });
      }
    }
    c.Distinct(vh::HashStr(b));
    // scalars
    Z s = c.rng.Bool() ? Z(FV<FR>::P() + (unsigned long)c.rng.Below(5))
                       : Z(FV<FR>::P() - 1 - (unsigned long)c.rng.Below(5));
    if (c.rng.Chance(1, 5)) s = (Z(1) << 256) - 1 - (unsigned long)c.rng.Below(5);
    std::string sb = LE(s, 32);
    Reader rs(base::ReadOnlyBuffer(sb.data(), sb.size()));
    FR f;
    c.Case(name + " scalar " + s.get_str(16));
    ok = rs.ReadFromProof(&f);
    if (s < FV<FR>::P())
      c.CheckF(ok && FV<FR>::Z(f) == s, "scalar_read", [&] { return s.get_str(16); });
    else
      c.CheckF(!ok, "noncanonical_scalar_refused", [&] { return s.get_str(16); });
  }
}

template <typename F>
void Wide(Ctx& c, const std::string& name) {
  if (!c.Section(name + "/wide")) return;
  const Z p = FV<F>::P();
  for (size_t k = 0; k < c.N(2000, 100000) && c.TimeLeft(); ++k) {
    uint64_t l[8];
    Z z = 0;
    for (size_t i = 0; i < 8; ++i) {
      l[i] = c.rng.Chance(1, 3) ? ~uint64_t{0} : c.rng.Chance(1, 4) ? 0 : c.rng.U64();
      if (c.rng.Chance(1, 6) && i < 4) l[i] = F::Config::kModulus[i];
      if (k < 2) l[i] = k ? ~uint64_t{0} : 0;
    }
    uint8_t bytes[64];
    memcpy(bytes, l, 64);
    z = FromLE(bytes, 64);
    c.Case(name + z.get_str(16));
    F a = h2::FromUint512<F>(l), b = h2::FromUint512<F>(bytes);
    c.CheckF(FV<F>::Z(a) == Mod(z, p) && FV<F>::Canonical(a), "from_uint512",
             [&] { return name + " " + z.get_str(16) + " got " + FV<F>::S(a); });
    c.CheckF(a == b, "from_bytes512", [&] { return z.get_str(16); });
    F d = h2::FromUint128<F>(absl::MakeUint128(l[1], l[0]));
    c.CheckF(FV<F>::Z(d) == FromLE(bytes, 16), "from_uint128",
             [&] { return z.get_str(16); });
    c.Distinct(vh::HashStr(z.get_str(16)));
  }
}

template <typename F>
void SimpleField(Ctx& c, const std::string& name) {
  if (!c.Section(name + "/simple")) return;
  for (size_t k = 0; k < c.N(50); ++k) {
    crypto::SimpleTranscriptWriter<F> w((base::Uint8VectorBuffer()));
    std::vector<std::pair<int, F>> h;
    Z st = 0;
    std::vector<F> ch;
    for (size_t i = 0; i < 10; ++i) {
      int kind = c.rng.Below(3);
      F f = FV<F>::Any(c.rng);
      h.push_back({kind, f});
      bool ok = true;
      if (kind == 0) ok = w.WriteToTranscript(f);
      if (kind == 1) ok = w.WriteToProof(f);
      if (kind < 2) st = Mod(st + FV<F>::Z(f), FV<F>::P());
      if (kind == 2) {
        st = Mod(st * 2, FV<F>::P());
        ch.push_back(w.SqueezeChallenge());
        c.CheckF(FV<F>::Z(ch.back()) == st, "simple_challenge", [&] { return name; });
      }
      c.CheckF(ok, "write_ok", [&] { return name; });
    }
    std::vector<uint8_t> proof = w.buffer().owned_buffer();
    base::Buffer rb(proof.data(), proof.size());
    crypto::SimpleTranscriptReader<F> r(std::move(rb));
    size_t ci = 0;
    for (auto& [kind, f] : h) {
      F g;
      if (kind == 0) c.Check(r.WriteToTranscript(f), "write_ok", name);
      if (kind == 1) c.CheckF(r.ReadFromProof(&g) && g == f, "verifier_reads_what_was_written", [&] { return name; });
      if (kind == 2) c.CheckF(r.SqueezeChallenge() == ch[ci++], "prover_verifier_agree", [&] { return name; });
    }
    c.Distinct(vh::HashStr(name) + k);
  }
}

// ---------------------------------------------------------------- challengers

struct RefDuplex {
  std::function<void(ZV&)> perm;
  size_t rate;
  ZV st, in, out;
  void Observe(const Z& v) {
    out.clear();
    in.push_back(v);
    if (in.size() == rate) Duplex();
  }
  Z Sample() {
    if (!in.empty() || out.empty()) Duplex();
    Z r = out.back();
    out.pop_back();
    return r;
  }
  std::function<void(ZV&, const ZV&)> load = [](ZV& st, const ZV& in) {
    for (size_t i = 0; i < in.size(); ++i) st[i] = in[i];
  };
  std::function<ZV(const ZV&)> unload = [](const ZV& st) { return st; };
  void Duplex() {
    load(st, in);
    in.clear();
    perm(st);
    out = unload(st);
  }
};

template <typename Ch, typename F>
void Challenger(Ctx& c, const std::string& name,
                const std::function<Ch()>& make,
                const std::function<RefDuplex()>& make_ref, size_t iters) {
  if (!c.Section(name)) return;
  for (size_t k = 0; k < c.N(iters, iters * 20) && c.TimeLeft(); ++k) {
    Ch ch = make();
    RefDuplex ref = make_ref();
    std::string h;
    for (size_t o = 0; o < 3 + c.rng.Below(10); ++o) {
      unsigned op = c.rng.Below(9);
      c.Case(name + h);
      if (op < 2) {
        h += "o";
        F f = FV<F>::Any(c.rng);
        ch.Observe(f);
        ref.Observe(FV<F>::Z(f));
      } else if (op == 2) {
        std::vector<F> v;
        size_t n = c.rng.Below(30);
        h += "O" + std::to_string(n);
        for (size_t i = 0; i < n; ++i) v.push_back(FV<F>::Any(c.rng));
        ch.ObserveContainer(v);
        for (const F& f : v) ref.Observe(FV<F>::Z(f));
      } else if (op == 3) {
        std::vector<std::vector<F>> v(c.rng.Below(4));
        h += "2";
        for (auto& x : v)
          for (size_t i = c.rng.Below(6); i > 0; --i) x.push_back(FV<F>::Any(c.rng));
        ch.ObserveContainer2D(v);
        for (auto& x : v)
          for (const F& f : x) ref.Observe(FV<F>::Z(f));
      } else if (op == 4) {
        size_t n = 1 + c.rng.Below(20);
        h += "s" + std::to_string(n);
        for (size_t i = 0; i < n; ++i) {
          F f = ch.Sample();
          Z w = ref.Sample();
          c.CheckF(FV<F>::Z(f) == w && FV<F>::Canonical(f), "sample", [&] {
            return name + " " + h + " got " + FV<F>::S(f) + " want " + w.get_str(16);
          });
        }
      } else if (op == 5) {
        h += "a";
        auto a = ch.template SampleArray<3>();
        for (size_t i = 0; i < 3; ++i)
          c.CheckF(FV<F>::Z(a[i]) == ref.Sample(), "sample_array", [&] { return name + h; });
      } else if (op == 6) {
        uint32_t bits = c.rng.Below(31);
        if ((uint64_t{1} << bits) >= F::Config::kModulus) bits = 30;
        h += "b" + std::to_string(bits);
        uint32_t got = ch.SampleBits(bits);
        Z w = ref.Sample() % (Z(1) << bits);
        c.CheckF(w == (unsigned long)got, "sample_bits", [&] {
          return name + h + " got " + std::to_string(got) + " want " + w.get_str();
        });
      } else if (op == 7) {
        if constexpr (std::is_same_v<F, math::BabyBear>) {
          h += "x";
          auto e = ch.template SampleExtElement<math::BabyBear4>();
          std::vector<F> v = {e.c0(), e.c1(), e.c2(), e.c3()};
          for (size_t i = 0; i < 4; ++i)
            c.CheckF(FV<F>::Z(v[i]) == ref.Sample(), "sample_ext", [&] { return name + h; });
        }
      } else {
        // proof of work: the witness a prover finds convinces a verifier who
        // saw the same history, and both go on with the same challenges
        uint32_t bits = c.rng.Below(6);
        Ch verifier = ch;
        F w;
        if (c.rng.Bool()) {
          h += "g" + std::to_string(bits);
          w = ch.Grind(bits);
        } else {
          uint32_t from = c.rng.Below(1000);
          h += "G" + std::to_string(bits) + "," + std::to_string(from);
          w = ch.Grind(bits, base::Range<uint32_t>(from, from + 5000));
          c.CheckF(FV<F>::Z(w) >= from && FV<F>::Z(w) < from + 5000, "grind_in_range", [&] { return name + h; });
        }
        Ch liar = verifier;
        c.CheckF(verifier.CheckWitness(bits, w), "grind_witness", [&] { return name + h; });
        ref.Observe(FV<F>::Z(w));
        Z s = ref.Sample() % (Z(1) << bits);
        c.CheckF(s == 0, "grind_witness_ref", [&] { return name + h; });
        F other = w + F::One();
        bool ok = liar.CheckWitness(bits, other);
        c.Count(ok ? "other witness accepted" : "other witness refused");
        F a = ch.Sample(), b = verifier.Sample();
        Z d = ref.Sample();
        c.CheckF(a == b && FV<F>::Z(a) == d, "grind_state", [&] { return name + h; });
        c.Count("grinds");
      }
    }
    c.Distinct(vh::HashStr(h) + k);
    c.Sample(name + " " + h);
  }
}

}  // namespace

void vh_main(Ctx& c) {
  using Bn = math::bn254::G1AffinePoint;
  math::bn254::G1Curve::Init();
  math::pallas::Curve::Init();
  math::vesta::Curve::Init();
  math::BabyBear4::Init();
  math::KoalaBear::Init();
  math::Mersenne31::Init();
  using BnFq = math::bn254::Fq;
  using BnFr = math::bn254::Fr;
  using Pal = math::pallas::AffinePoint;
  Wide<BnFr>(c, "bn254.fr");
  Wide<BnFq>(c, "bn254.fq");
  Wide<math::pallas::Fr>(c, "pallas.fr");
  Wide<math::vesta::Fr>(c, "vesta.fr");
  for (int legacy = 0; legacy < 2; ++legacy) {
    h2::ProofSerializer<Bn>::s_use_legacy_serialization = legacy;
    std::string s = legacy ? "/legacy" : "";
    Transcript<Bn, h2::Blake2bWriter<Bn>, h2::Blake2bReader<Bn>, RefBlake>(c, "blake2b bn254" + s, true, 60);
    Hostile<Bn, h2::Blake2bReader<Bn>>(c, "blake2b bn254" + s, false);
  }
  h2::ProofSerializer<Pal>::s_use_legacy_serialization = true;
  Transcript<Pal, h2::Blake2bWriter<Pal>, h2::Blake2bReader<Pal>, RefBlake>(c, "blake2b pallas", true, 40);
  Transcript<Bn, h2::Sha256Writer<Bn>, h2::Sha256Reader<Bn>, RefSha>(c, "sha256 bn254", true, 60);
  Hostile<Bn, h2::Sha256Reader<Bn>>(c, "sha256 bn254", true);
  Transcript<Bn, h2::PoseidonWriter<Bn>, h2::PoseidonReader<Bn>, RefPos<crypto::BN254PoseidonParams9>>(c, "poseidon bn254", true, 12);
  Transcript<Bn, h2::SnarkVerifierPoseidonWriter<Bn>, h2::SnarkVerifierPoseidonReader<Bn>, RefPos<crypto::BN254PoseidonParams5>>(c, "snark_verifier_poseidon bn254", true, 15);
  SimpleField<BnFr>(c, "bn254.fr");
  SimpleField<math::BabyBear>(c, "babybear");

  using crypto::Poseidon2Params;
  constexpr auto H = crypto::Poseidon2Vendor::kHorizen;
  constexpr auto K = crypto::Poseidon2Vendor::kPlonky3;
  using BB = Poseidon2Params<K, K, math::BabyBear, 15, 7>;
  using Sponge = crypto::Poseidon2Sponge<BB>;
  static vh::Ref2<BB> ref;
  auto perm = [](ZV& v) { ref.Permute(v); };
  {
    using Ch = crypto::DuplexChallenger<Sponge, 8>;
    Challenger<Ch, math::BabyBear>(c, "duplex babybear", [] { return Ch(Sponge()); }, [&] {
      RefDuplex r{perm, 8, ZV(16, 0), {}, {}};
      return r;
    }, 60);
    using Ch2 = crypto::DuplexChallenger<Sponge, 16>;
    Challenger<Ch2, math::BabyBear>(c, "duplex babybear rate 16", [] { return Ch2(Sponge()); }, [&] {
      RefDuplex r{perm, 16, ZV(16, 0), {}, {}};
      return r;
    }, 30);
  }
  {
    using Hash = crypto::PaddingFreeSponge<Sponge, 8, 8>;
    using Ch = crypto::HashChallenger<Hash>;
    if (c.Section("hash challenger babybear")) {
      for (size_t k = 0; k < c.N(60, 2000) && c.TimeLeft(); ++k) {
        // the challenges are the digest of everything observed since the last
        // digest, chained
        Ch ch((Hash()));
        ZV in, out;
        std::string h;
        for (size_t o = 0; o < 20; ++o) {
          if (c.rng.Bool()) {
            h += "o";
            math::BabyBear f = FV<math::BabyBear>::Any(c.rng);
            ch.Observe(f);
            out.clear();
            in.push_back(FV<math::BabyBear>::Z(f));
          } else {
            h += "s";
            if (out.empty()) {
              ZV st(16, 0);
              for (size_t i = 0; i < in.size(); i += 8) {
                for (size_t j = 0; j < 8 && i + j < in.size(); ++j) st[j] = in[i + j];
                ref.Permute(st);
              }
              out.assign(st.begin(), st.begin() + 8);
              in = out;
            }
            math::BabyBear f = ch.Sample();
            c.CheckF(FV<math::BabyBear>::Z(f) == out.back(), "sample", [&] { return "hash challenger " + h; });
            out.pop_back();
          }
        }
        c.Distinct(vh::HashStr(h));
      }
    }
  }
  {
    using BP = Poseidon2Params<H, H, BnFr, 2, 5>;
    using S = crypto::Poseidon2Sponge<BP>;
    static vh::Ref2<BP> ref2;
    auto run = [&](auto tag, const char* name) {
      using F = decltype(tag);
      using Ch = crypto::MultiField32Challenger<F, S>;
      Challenger<Ch, F>(c, name, [] { return Ch(S()); }, [&] {
        RefDuplex r{[](ZV& v) { ref2.Permute(v); }, 9, ZV(3, 0), {}, {}};
        // three 32-bit values per element, base 2^32; three 64-bit digits back
        r.load = [](ZV& st, const ZV& in) {
          for (size_t i = 0; i * 3 < in.size(); ++i) {
            Z v = 0;
            for (size_t j = 0; j < 3 && i * 3 + j < in.size(); ++j)
              v += in[i * 3 + j] << (32 * j);
            st[i] = v;
          }
        };
        r.unload = [](const ZV& st) {
          ZV o;
          for (const Z& v : st)
            for (size_t j = 0; j < 3; ++j)
              o.push_back(Mod((v >> (64 * j)) % (Z(1) << 64), FV<F>::P()));
          return o;
        };
        return r;
      }, 40);
      if (c.Section(std::string(name) + "/conversions")) {
        for (size_t k = 0; k < c.N(500, 20000) && c.TimeLeft(); ++k) {
          std::vector<F> v;
          size_t n = c.rng.Below(8);
          Z want = 0;
          for (size_t i = 0; i < n; ++i) {
            v.push_back(FV<F>::Any(c.rng));
            want += FV<F>::Z(v.back()) << (32 * i);
          }
          c.Case("reduce");
          BnFr got = crypto::Reduce<BnFr>(absl::MakeConstSpan(v));
          c.CheckF(FV<BnFr>::Z(got) == Mod(want, FV<BnFr>::P()), "reduce", [&] { return std::string(name) + want.get_str(16); });
          BnFr b = FV<BnFr>::Any(c.rng);
          auto s = crypto::Split<F>(b);
          bool ok = s.size() == 3;
          for (size_t j = 0; j < 3; ++j)
            ok &= FV<F>::Z(s[j]) == Mod((FV<BnFr>::Z(b) >> (64 * j)) % (Z(1) << 64), FV<F>::P()) && FV<F>::Canonical(s[j]);
          c.CheckF(ok, "split", [&] { return std::string(name) + FV<BnFr>::S(b); });
          c.Distinct(vh::HashStr(want.get_str(16)));
        }
      }
    };
    run(math::BabyBear(), "multi_field32 babybear");
    run(math::KoalaBear(), "multi_field32 koalabear");
    run(math::Mersenne31(), "multi_field32 mersenne31");
  }
  c.Require("prover_verifier_agree");
  c.Require("sample");
  c.Require("grinds");
}
