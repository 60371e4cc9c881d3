// Common parts of the C++ harnesses: random numbers, reporting, case loop.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ULL;
  }
  return mix(h);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix(seed)) {}
  uint64_t u64() {
    s += 0x9e3779b97f4a7c15ULL;
    return mix(s);
  }
  // [0, n)
  size_t below(size_t n) { return n ? size_t(u64() % n) : 0; }
  int range(int lo, int hi) { return lo + int(below(size_t(hi - lo + 1))); }
  double unit() { return double(u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double lo, double hi) { return lo + (hi - lo) * unit(); }
  bool chance(double p) { return unit() < p; }
  double normal() {
    double u = unit() + 1e-300, v = unit();
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  template <class T> void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i)
      std::swap(v[i - 1], v[below(i)]);
  }
};

// A violation of the property. `key` identifies the kind of failure (matched
// against the known findings), `msg` says what was seen.
struct Violation {
  std::string key, msg;
};

struct Ctx {
  std::string prop;
  std::string tier;
  bool thorough = false;
  double slack = 1;          // factor on tolerances, for runs where long double is emulated
  uint64_t case_seed = 0;
  long case_index = 0;
  std::string scratch;       // directory for files of this worker
  std::string data_dir;      // /repo
  // measured coverage
  long evaluations = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, long> counters;
  std::vector<std::string> samples;
  // what the current case did, for the replay file
  std::string note;

  void count(const std::string &k, long n = 1) { counters[k] += n; }
  void maxi(const std::string &k, long n) {
    long &v = counters["max_" + k];
    if (n > v)
      v = n;
  }
  // marks the current case as a distinct non-trivial one
  void nontrivial(uint64_t h) { distinct.insert(h); }
  void sample(const std::string &s) {
    if (samples.size() < 3)
      samples.push_back(s.substr(0, 1500));
  }
  void log(const std::string &s) {
    if (note.size() < 400000)
      note += s + "\n";
  }
  [[noreturn]] void fail(const std::string &key, const std::string &msg) const {
    throw Violation{key, msg};
  }
  void check(bool ok, const std::string &key, const std::string &msg) const {
    if (!ok)
      fail(key, msg);
  }
};

struct Prop {
  std::string id;
  std::function<void(Ctx &)> run;     // one case
  std::string rule;
  // fixed cases, run once by worker 0
  std::vector<std::function<void(Ctx &)>> directed;
};
std::vector<Prop> &registry();
struct Register {
  Register(const std::string &id, std::function<void(Ctx &)> run, const std::string &rule,
           std::vector<std::function<void(Ctx &)>> directed = {}) {
    registry().push_back(Prop{id, run, rule, directed});
  }
};

template <class... A> std::string cat(const A &...a) {
  std::ostringstream o;
  o.imbue(std::locale::classic());
  o.precision(17);
  using expand = int[];
  (void)expand{0, ((void)(o << a), 0)...};
  return o.str();
}
std::string num(double d); // shortest exact decimal, independent of the locale

} // namespace vh
