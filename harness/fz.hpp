// Common parts of the libFuzzer targets.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <set>
#include <string>

namespace fz {
struct Stats {
  std::string rule, sample;
  long accepted = 0, rejected = 0;
  std::set<uint64_t> distinct;
};
inline Stats &stats() {
  static Stats *s = new Stats; // never freed, still needed at exit
  return *s;
}
inline void write() {
  const char *f = getenv("TINYFK_FUZZ_STATS");
  FILE *fp = f ? fopen(f, "w") : nullptr;
  if (!fp)
    return;
  Stats &s = stats();
  fprintf(fp, "{\"evaluations\": 0, \"rule\": \"%s\", \"counters\": {\"fuzz_accepted\": %ld, \"fuzz_rejected\": %ld}, \"samples\": [], \"distinct\": [", s.rule.c_str(), s.accepted, s.rejected);
  bool first = true;
  for (uint64_t h : s.distinct) {
    fprintf(fp, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h);
    first = false;
  }
  fputs("]}\n", fp);
  fclose(fp);
}
inline void init(const char *rule) {
  static bool done = false;
  if (!done) {
    done = true;
    stats().rule = rule;
    atexit(write);
  }
}
inline void accept(const std::string &t) {
  Stats &s = stats();
  ++s.accepted;
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : t)
    h = (h ^ c) * 1099511628211ULL;
  if (s.distinct.size() < 20000)
    s.distinct.insert(h);
}
[[noreturn]] inline void fail(const char *key, const std::string &msg) {
  fprintf(stderr, "FUZZFAIL %s %s\n", key, msg.c_str());
  fflush(stderr);
  abort();
}
} // namespace fz
