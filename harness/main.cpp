// Case loop of the C++ harnesses.
//   harness PROP --seed S --start I --count N --out stats.json --scratch DIR
//           [--tier quick|thorough] [--case-seed X (run that single case)] [--directed]
// Prints one line "FAIL\t<key>\t<case seed>\t<message>" per violation.
#include "vh.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace vh {
std::vector<Prop> &registry() {
  static std::vector<Prop> r;
  return r;
}
std::string num(double d) {
  char buf[64];
  for (int p = 15; p <= 17; ++p) {
    snprintf(buf, sizeof buf, "%.*g", p, d);
    for (char *c = buf; *c; ++c)
      if (*c == ',')
        *c = '.';
    std::istringstream i(buf);
    i.imbue(std::locale::classic());
    double e = 0;
    i >> e;
    if (e == d)
      break;
  }
  return buf;
}
} // namespace vh

using namespace vh;

static int g_cur_fd = -1;
static uint64_t g_cur_seed = 0;
static bool g_cur_directed = false;
static void on_hang(int) {
  static const char msg[] = "\nHANG: one case used up its CPU time\n";
  ssize_t r = write(2, msg, sizeof msg - 1);
  (void)r;
  _exit(98);
}
static void mark_current(uint64_t seed, bool directed) {
  g_cur_seed = seed;
  g_cur_directed = directed;
  if (g_cur_fd >= 0) {
    char buf[64];
    int n = snprintf(buf, sizeof buf, "%020llu %d\n", (unsigned long long)seed, int(directed));
    ssize_t r = pwrite(g_cur_fd, buf, n, 0);
    (void)r;
  }
}
static void arm(int sec) {
  struct itimerval t = {};
  t.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &t, nullptr);
}

static std::string json_str(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c < 0x20 || c >= 0x7f) {
      snprintf(b, sizeof b, "\\u%04x", c); // bytes as code points
      o += b;
    } else
      o += char(c);
  }
  return o + "\"";
}

int main(int argc, char **argv) {
  if (argc < 2)
    return 2;
  Ctx ctx;
  ctx.prop = argv[1];
  uint64_t seed = 1, one = 0;
  long start = 0, count = 1;
  bool single = false, directed_only = false, directed = false;
  std::string out;
  int limit = 60;
  long only = -1, deadline = 0;
  const time_t began = time(nullptr);
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") seed = strtoull(next().c_str(), 0, 10);
    else if (a == "--start") start = atol(next().c_str());
    else if (a == "--deadline") deadline = atol(next().c_str());
    else if (a == "--count") count = atol(next().c_str());
    else if (a == "--out") out = next();
    else if (a == "--scratch") ctx.scratch = next();
    else if (a == "--repo") ctx.data_dir = next();
    else if (a == "--slack") ctx.slack = atof(next().c_str());
    else if (a == "--tier") ctx.tier = next();
    else if (a == "--case-limit") limit = atoi(next().c_str());
    else if (a == "--directed") directed = true;
    else if (a == "--directed-only") { directed = directed_only = true; only = atol(next().c_str()); }
    else if (a == "--case-seed") { single = true; one = strtoull(next().c_str(), 0, 10); }
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
  }
  ctx.thorough = ctx.tier == "thorough";
  const Prop *prop = nullptr;
  for (auto &p : registry())
    if (p.id == ctx.prop)
      prop = &p;
  if (!prop) {
    fprintf(stderr, "unknown property %s\n", ctx.prop.c_str());
    return 2;
  }
  signal(SIGPROF, on_hang);
  if (!ctx.scratch.empty())
    g_cur_fd = open((ctx.scratch + "/current").c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600);

  int fails = 0;
  auto run_one = [&](const std::function<void(Ctx &)> &f, uint64_t cs, bool dir) {
    ctx.note.clear();
    ctx.case_seed = cs;
    mark_current(cs, dir);
    arm(limit);
    std::string key, msg;
    try {
      f(ctx);
    } catch (const Violation &v) {
      key = v.key;
      msg = v.msg;
    } catch (const std::exception &e) {
      key = "unexpected-exception";
      msg = std::string("unexpected exception: ") + e.what();
    }
    arm(0);
    if (!key.empty()) {
      ++fails;
      std::string flat = msg;
      for (char &c : flat)
        if (c == '\n' || c == '\t' || c == '\r')
          c = ' ';
      printf("FAIL\t%s\t%llu\t%d\t%s\n", key.c_str(), (unsigned long long)cs, int(dir), flat.c_str());
      fflush(stdout);
      if (!ctx.scratch.empty()) {
        std::string fn = ctx.scratch + "/note-" + std::to_string((unsigned long long)cs) + (dir ? "-directed.txt" : ".txt");
        if (FILE *fp = fopen(fn.c_str(), "w")) {
          fwrite(msg.data(), 1, msg.size(), fp);
          fputs("\n---- what the case did ----\n", fp);
          fwrite(ctx.note.data(), 1, ctx.note.size(), fp);
          fclose(fp);
        }
      }
    }
  };
  if (directed)
    for (size_t i = 0; i < prop->directed.size(); ++i)
      if (only < 0 || only == long(i))
        run_one(prop->directed[i], i, true);
  if (single) {
    run_one(prop->run, one, false);
    fputs(ctx.note.c_str(), stderr);
  } else if (!directed_only) {
    for (long i = start; i < start + count && fails < 5; ++i) {
      if (deadline && time(nullptr) - began > deadline) {
        ctx.count("stopped_at_deadline");
        break;
      }
      ctx.case_index = i;
      run_one(prop->run, mix(seed * 1000003ULL + 17) ^ mix(hash_str(ctx.prop) + uint64_t(i)), false);
    }
  }
  if (!out.empty()) {
    FILE *fp = fopen(out.c_str(), "w");
    if (!fp)
      return 2;
    fprintf(fp, "{\"evaluations\": %ld, \"rule\": %s, \"counters\": {", ctx.evaluations, json_str(prop->rule).c_str());
    bool first = true;
    for (auto &kv : ctx.counters) {
      fprintf(fp, "%s%s: %ld", first ? "" : ", ", json_str(kv.first).c_str(), kv.second);
      first = false;
    }
    fputs("}, \"samples\": [", fp);
    for (size_t i = 0; i < ctx.samples.size(); ++i)
      fprintf(fp, "%s%s", i ? ", " : "", json_str(ctx.samples[i]).c_str());
    fputs("], \"distinct\": [", fp);
    first = true;
    for (uint64_t h : ctx.distinct) {
      fprintf(fp, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h);
      first = false;
    }
    fputs("]}\n", fp);
    fclose(fp);
  }
  fprintf(stderr, "DONE %ld cases\n", ctx.evaluations);
  return fails ? 1 : 0;
}
