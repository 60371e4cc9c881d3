// R03: the scratch stack and the pose cache, on their own.
#include "sut.hpp"
using namespace sut;

struct Val {
  std::string s;
  std::shared_ptr<int> p;
};
static void r03(Ctx &c) {
  Rng g(c.case_seed);
  std::string trace;
  if (g.chance(0.5)) {
    size_t cap = g.chance(0.7) ? g.below(12) : g.below(70);
    const bool fill = g.chance(0.4); // mostly pushes
    struct Inst {
      tinyfk::SizedStack<Val> s;
      std::vector<int> ref;
      size_t cap;
    };
    std::vector<std::unique_ptr<Inst>> v;
    v.emplace_back(new Inst{tinyfk::SizedStack<Val>(cap), {}, cap});
    if (g.chance(0.1))
      v.emplace_back(new Inst{tinyfk::SizedStack<Val>(), {}, 0});
    int next = 1;
    trace = cat("stack of ", cap, ":");
    for (int n = 0; n < 60 + 3 * int(cap); ++n) {
      size_t k = g.below(v.size());
      Inst &i = *v[k];
      switch (fill && g.chance(0.8) ? 0 : g.below(9)) {
      case 0: case 1: case 2: case 3:
        if (i.ref.size() < i.cap) {
          i.s.push(Val{cat("value number ", next, " which is long enough to be on the heap"), std::make_shared<int>(next)});
          i.ref.push_back(next++);
          trace += cat(" ", k, ":push");
        }
        break;
      case 4: case 5:
        if (!i.ref.empty()) {
          i.s.pop();
          i.ref.pop_back();
          trace += cat(" ", k, ":pop");
        }
        break;
      case 6:
        if (g.chance(0.3)) {
          i.s.reset();
          i.ref.clear();
          trace += cat(" ", k, ":reset");
        }
        break;
      case 7:
        if (v.size() < 4) {
          v.emplace_back(new Inst(i));
          trace += cat(" copy ", k);
        } else {
          size_t o = g.below(v.size());
          *v[o] = i;
          trace += cat(" assign ", k, " to ", o);
        }
        break;
      default:
        if (v.size() > 1 && g.chance(0.3)) {
          v.erase(v.begin() + long(k));
          trace += cat(" destroy ", k);
        }
      }
      for (auto &x : v) {
        ++c.evaluations;
        c.check(x->s.size() == x->ref.size(), "stack-size", trace + cat(": size is ", x->s.size(), ", expected ", x->ref.size()));
        c.check(x->s.empty() == x->ref.empty(), "stack-empty", trace + ": emptiness");
        if (!x->ref.empty()) {
          const Val &t = x->s.top();
          c.check(t.p && *t.p == x->ref.back() && t.s == cat("value number ", x->ref.back(), " which is long enough to be on the heap"), "stack-top", trace + ": top is not the last value pushed");
          c.count("tops_compared");
        }
        c.maxi("stack_depth", long(x->ref.size()));
      }
    }
    // drain
    for (auto &x : v)
      while (!x->ref.empty()) {
        c.check(!x->s.empty() && x->s.top().p && *x->s.top().p == x->ref.back(), "stack-order", trace + ": wrong order when drained");
        x->s.pop();
        x->ref.pop_back();
        c.check(x->s.size() == x->ref.size(), "stack-size", trace + ": size when drained");
        c.count("drained");
      }
  } else {
    size_t cap = g.below(10);
    struct Inst {
      tinyfk::SizedCache<Val> s;
      std::vector<int> ref; // 0: nothing
    };
    std::vector<std::unique_ptr<Inst>> v;
    v.emplace_back(new Inst{tinyfk::SizedCache<Val>(cap), std::vector<int>(cap, 0)});
    if (g.chance(0.1))
      v.emplace_back(new Inst{tinyfk::SizedCache<Val>(), {}});
    int next = 1;
    trace = cat("cache of ", cap, ":");
    for (int n = 0; n < 60; ++n) {
      size_t k = g.below(v.size());
      Inst &i = *v[k];
      switch (g.below(9)) {
      case 0: case 1: case 2: case 3:
        if (!i.ref.empty()) {
          size_t id = g.below(i.ref.size());
          i.s.set_cache(id, Val{cat("value number ", next, " which is long enough to be on the heap"), std::make_shared<int>(next)});
          i.ref[id] = next++;
          trace += cat(" ", k, ":set ", id);
        }
        break;
      case 4:
        if (g.chance(0.5)) {
          i.s.clear();
          std::fill(i.ref.begin(), i.ref.end(), 0);
          trace += cat(" ", k, ":clear");
        }
        break;
      case 6: // many clears in a row: no mark may come round again
        if (g.chance(0.02)) {
          long m = g.chance(0.95) ? g.range(253, 259) : g.range(65533, 65539);
          for (long z = 0; z < m; ++z)
            i.s.clear();
          std::fill(i.ref.begin(), i.ref.end(), 0);
          trace += cat(" ", k, ":clear ", m, " times");
          c.count("bursts_of_clears");
        }
        break;
      case 5:
        if (g.chance(0.002)) {
          int m = g.range(253, 300);
          for (int z = 0; z < m; ++z)
            i.s.extend();
          std::fill(i.ref.begin(), i.ref.end(), 0);
          i.ref.resize(i.ref.size() + size_t(m), 0);
          trace += cat(" ", k, ":extend ", m, " times");
        } else if (g.chance(0.5)) {
          i.s.extend();
          std::fill(i.ref.begin(), i.ref.end(), 0);
          i.ref.push_back(0);
          trace += cat(" ", k, ":extend");
        }
        break;
      case 7:
        if (v.size() < 4) {
          v.emplace_back(new Inst(i));
          trace += cat(" copy ", k);
        } else {
          size_t o = g.below(v.size());
          *v[o] = i;
          trace += cat(" assign ", k, " to ", o);
        }
        break;
      case 8:
        if (v.size() > 1 && g.chance(0.3)) {
          v.erase(v.begin() + long(k));
          trace += cat(" destroy ", k);
        }
        break;
      default:;
      }
      for (auto &x : v)
        for (size_t id = 0; id < x->ref.size(); ++id) {
          ++c.evaluations;
          const Val *p = x->s.get_cache(id);
          if (!x->ref[id])
            c.check(p == nullptr, "cache-stale", trace + cat(": slot ", id, " returns a value that was not set since the last clear"));
          else {
            c.check(p && p->p && *p->p == x->ref[id] && p->s == cat("value number ", x->ref[id], " which is long enough to be on the heap"), "cache-value", trace + cat(": slot ", id, " does not return the value set"));
            c.count("hits_compared");
          }
          c.count("slots_compared");
        }
      c.maxi("cache_slots", long(v[0]->ref.size()));
    }
  }
  c.log(trace);
  c.sample(trace);
  c.nontrivial(vh::hash_str(trace));
}

static vh::Register a03("R03", r03, "random operation sequences (with copies, assignments and destructions) on the stack and the cache, holding values that own heap memory, compared after every step with a simple model; one evaluation is one instance or slot compared");
