// Runtime-monitoring harness support: seeded workload generation, monitors
// with per-monitor observation counters, violation reporting.
//
// Every harness binary is `vh_main(vh::Ctx&)`. The driver (tools/check.py)
// runs it under a sanitizer flavour with VH_* in the environment and reads the
// JSON report it writes; a crash / sanitizer report / hang leaves the last
// "case" in the VH_CASE file, so that it can be named.
#ifndef VH_VH_H_
#define VH_VH_H_

#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

class Rng {
 public:
  explicit Rng(uint64_t seed) : s_(seed) {}
  uint64_t U64() {
    s_ += 0x9e3779b97f4a7c15ULL;
    uint64_t x = s_;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
  }
  uint32_t U32() { return static_cast<uint32_t>(U64() >> 32); }
  // uniform in [0, n)
  uint64_t Below(uint64_t n) { return n == 0 ? 0 : U64() % n; }
  // uniform in [a, b]
  int64_t Range(int64_t a, int64_t b) {
    return a + static_cast<int64_t>(
                   Below(static_cast<uint64_t>(b - a) + 1));
  }
  bool Chance(unsigned num, unsigned den) { return Below(den) < num; }
  bool Bool() { return U64() & 1; }
  template <typename T>
  const T& Pick(const std::vector<T>& v) {
    return v[Below(v.size())];
  }
  std::string Bytes(size_t n) {
    std::string s(n, '\0');
    for (auto& c : s) c = static_cast<char>(U64() >> 33);
    return s;
  }

 private:
  uint64_t s_;
};

inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 0x1234567) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ULL;
  return Mix(h ^ n);
}
inline uint64_t HashStr(const std::string& s) {
  return HashBytes(s.data(), s.size());
}

template <typename T, typename = void>
struct HasToString : std::false_type {};
template <typename T>
struct HasToString<T, std::void_t<decltype(std::declval<const T&>().ToString())>>
    : std::true_type {};
template <typename T, typename = void>
struct HasStream : std::false_type {};
template <typename T>
struct HasStream<T, std::void_t<decltype(std::declval<std::ostream&>()
                                         << std::declval<const T&>())>>
    : std::true_type {};

template <typename T>
std::string Show(const T& v);
template <typename T>
std::string Show(const std::vector<T>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < 24; ++i)
    s += (i ? "," : "") + Show(v[i]);
  if (v.size() > 24) s += ",...";
  return s + "]#" + std::to_string(v.size());
}
template <typename T>
std::string Show(const T& v) {
  if constexpr (HasToString<T>::value) {
    return v.ToString();
  } else if constexpr (HasStream<T>::value) {
    std::ostringstream o;
    o << v;
    return o.str();
  } else {
    return "?";
  }
}

struct Violation {
  std::string key;
  std::string detail;
  std::string where;
  uint64_t count = 0;
};

// Runs |fn| in a child process (for calls that have to be refused by aborting)
// and returns its exit status, or 1000 + the signal that ended it.
template <typename Fn>
int InChild(Fn fn) {
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    dup2(fd, 2);
    fn();
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}

class Ctx {
 public:
  uint64_t seed = 1;
  bool thorough = false;
  double scale = 1.0;
  std::string mode;
  Rng rng{1};

  Ctx() {
    if (const char* s = getenv("VERIF_SEED")) seed = strtoull(s, nullptr, 10);
    if (const char* s = getenv("VERIF_TIER"))
      thorough = std::string(s) == "thorough";
    if (const char* s = getenv("VH_SCALE")) scale = atof(s);
    if (const char* s = getenv("VH_MODE")) mode = s;
    if (const char* s = getenv("VH_ONLY")) only_ = s;
    if (const char* s = getenv("VH_BUDGET_S")) budget_s_ = atof(s);
    rng = Rng(Mix(seed * 0x51ed27));
    if (const char* s = getenv("VH_CASE")) {
      int fd = open(s, O_RDWR | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0 && ftruncate(fd, kCase) == 0) {
        void* p = mmap(nullptr, kCase, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) case_ = static_cast<char*>(p);
      }
      if (fd >= 0) close(fd);
    }
    start_ = std::chrono::steady_clock::now();
  }

  // quick/thorough iteration count, scaled for the flavour
  size_t N(size_t quick, size_t thorough_n = 0) const {
    double n = thorough ? (thorough_n ? thorough_n : quick * 10) : quick;
    n *= scale;
    return n < 1 ? 1 : static_cast<size_t>(n);
  }

  // Starts a section of the workload with its own random stream (so sections
  // are independent of each other). Returns false when filtered out.
  bool Section(const std::string& name) {
    section_ = name;
    rng = Rng(Mix(seed * 0x9e3779b9ULL + HashStr(name)));
    if (!only_.empty() && name.find(only_) == std::string::npos) return false;
    Case(name);
    return true;
  }
  const std::string& section() const { return section_; }

  // A time budget exists for the thorough tier only; the quick tier is
  // count-bounded.
  bool TimeLeft() const {
    if (budget_s_ <= 0) return true;
    return Elapsed() < budget_s_;
  }
  double Elapsed() const {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() -
                                         start_)
        .count();
  }

  // names the case about to run (for crash reports)
  void Case(const std::string& label) {
    if (!case_) return;
    std::string s = section_ + " | " + label;
    size_t n = s.size() < kCase - 1 ? s.size() : kCase - 1;
    memcpy(case_, s.data(), n);
    case_[n] = 0;
  }

  // A monitor evaluated its predicate once.
  bool Check(bool ok, const std::string& monitor, const std::string& detail) {
    std::lock_guard<std::mutex> l(mu_);
    Counter& c = monitors_[monitor];
    ++c.n;
    ++evaluations_;
    if (!ok) Fail(monitor, detail);
    return ok;
  }
  template <typename Fn>
  bool CheckF(bool ok, const char* monitor, Fn&& detail) {
    if (ok) {
      std::lock_guard<std::mutex> l(mu_);
      ++monitors_[monitor].n;
      ++evaluations_;
      return true;
    }
    return Check(false, monitor, detail());
  }
  template <typename A, typename B, typename Fn>
  bool Eq(const A& got, const B& want, const char* monitor, Fn&& input) {
    return CheckF(got == want, monitor, [&]() {
      return std::string("input ") + input() + " got " + Show(got) + " want " +
             Show(want);
    });
  }

  // Records a distinct, non-trivial case (by content hash).
  void Distinct(uint64_t h) {
    std::lock_guard<std::mutex> l(mu_);
    if (distinct_.size() < 4000000) distinct_.insert(h ^ Mix(HashStr(section_)));
  }
  void Sample(const std::string& s) {
    std::lock_guard<std::mutex> l(mu_);
    auto& v = samples_[section_];
    if (v.size() < 2) v.push_back(s.substr(0, 400));
  }
  // free-form observation counters (events, interleavings, states seen)
  void Count(const std::string& name, uint64_t n = 1) {
    std::lock_guard<std::mutex> l(mu_);
    counts_[name] += n;
  }
  // The run is only believed if this monitor / counter observed something.
  void Require(const std::string& name, uint64_t min = 1) {
    required_[name] = min;
  }

  int Finish() {
    std::string miss;
    for (auto& kv : required_) {
      uint64_t n = monitors_.count(kv.first) ? monitors_[kv.first].n : 0;
      if (counts_.count(kv.first)) n += counts_[kv.first];
      if (n < kv.second && only_.empty()) miss += kv.first + " ";
    }
    const char* out = getenv("VH_OUT");
    FILE* f = out ? fopen(out, "w") : stdout;
    if (!f) return 3;
    fprintf(f, "{\"evaluations\": %llu, \"distinct\": %llu, \"missing\": %s, "
               "\"wall\": %.3f,\n",
            (unsigned long long)evaluations_,
            (unsigned long long)distinct_.size(), Js(miss).c_str(), Elapsed());
    fprintf(f, "\"monitors\": {");
    bool first = true;
    for (auto& kv : monitors_) {
      fprintf(f, "%s%s: %llu", first ? "" : ", ", Js(kv.first).c_str(),
              (unsigned long long)kv.second.n);
      first = false;
    }
    fprintf(f, "},\n\"counts\": {");
    first = true;
    for (auto& kv : counts_) {
      fprintf(f, "%s%s: %llu", first ? "" : ", ", Js(kv.first).c_str(),
              (unsigned long long)kv.second);
      first = false;
    }
    fprintf(f, "},\n\"samples\": [");
    first = true;
    for (auto& kv : samples_)
      for (auto& s : kv.second) {
        fprintf(f, "%s%s", first ? "" : ",\n ", Js(kv.first + ": " + s).c_str());
        first = false;
      }
    fprintf(f, "],\n\"violations\": [");
    first = true;
    for (auto& kv : viol_) {
      fprintf(f, "%s{\"key\": %s, \"where\": %s, \"count\": %llu, \"detail\": %s}",
              first ? "" : ",\n ", Js(kv.second.key).c_str(),
              Js(kv.second.where).c_str(), (unsigned long long)kv.second.count,
              Js(kv.second.detail).c_str());
      first = false;
    }
    fprintf(f, "], \"done\": true}\n");
    if (f != stdout) fclose(f);
    return viol_.empty() ? 0 : 1;
  }

 private:
  static constexpr size_t kCase = 4096;
  struct Counter {
    uint64_t n = 0;
  };
  static std::string Js(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') {
        r += '\\';
        r += static_cast<char>(c);
      } else if (c < 32 || c > 126) {
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", c);
        r += b;
      } else {
        r += static_cast<char>(c);
      }
    }
    return r + "\"";
  }
  void Fail(const std::string& monitor, const std::string& detail) {
    std::string key = section_ + "/" + monitor;
    Violation& v = viol_[key];
    if (v.count++ == 0) {
      v.key = key;
      v.detail = detail.substr(0, 3000);
      v.where = section_;
      fprintf(stderr, "vh: VIOLATED %s: %s\n", key.c_str(),
              v.detail.substr(0, 600).c_str());
    }
  }

  std::mutex mu_;
  std::string section_ = "main", only_;
  double budget_s_ = 0;
  char* case_ = nullptr;
  uint64_t evaluations_ = 0;
  std::unordered_set<uint64_t> distinct_;
  std::map<std::string, Counter> monitors_;
  std::map<std::string, uint64_t> counts_, required_;
  std::map<std::string, std::vector<std::string>> samples_;
  std::map<std::string, Violation> viol_;
  std::chrono::steady_clock::time_point start_;
};

}  // namespace vh

void vh_main(vh::Ctx& ctx);

#ifndef VH_NO_MAIN
int main(int argc, char** argv) {
  vh::Ctx ctx;
  vh_main(ctx);
  int rc = ctx.Finish();
  fflush(nullptr);
  return rc;
}
#endif

#endif
