// R01: any valid use of models, copies and assignments, under sanitizers.
#include "sut.hpp"
using namespace sut;

struct World {
  ref::Robot rob;
  std::string text;
};
static void queries(Ctx &c, Rng &g, Pair &p, bool mass, const char *when) {
  for (int n = 0; n < 3; ++n) {
    int i = g.chance(0.3) ? int(p.m.links.size()) - 1 : int(g.below(p.m.links.size()));
    p.check_pose(i, when);
    ++c.evaluations;
  }
  int i = g.chance(0.3) ? int(p.m.links.size()) - 1 : int(g.below(p.m.links.size()));
  if (p.check_jacobian(i, p.random_joints(g, true), RotationType(int(g.below(3))), g.chance(0.5), when))
    ++c.evaluations;
  if (mass && g.chance(0.4)) {
    p.check_com(when);
    p.check_inertia(when);
    p.check_com_jacobian(p.random_joints(g, false), g.chance(0.5), when);
    ++c.evaluations;
  }
  auto names = p.k->get_link_names();
  c.check(names.size() == p.m.links.size(), "names", cat(when, ": ", names.size(), " link names, expected ", p.m.links.size()));
  for (auto &l : p.m.links)
    c.check(names[p.lid(l.name)] == l.name, "names", cat(when, ": id of ", l.name));
  auto a = p.k->get_joint_angles(p.jids(p.movable));
  for (size_t k = 0; k < a.size(); ++k)
    c.check(a[k] == double(p.m.q[p.movable[k]]), "angles", cat(when, ": joint ", p.movable[k], " reads ", a[k]));
}
static void r01(Ctx &c) {
  Rng g(c.case_seed);
  gen::Opts o;
  o.max_links = 8;
  o.details = g.chance(0.3);
  int nr = g.range(1, 2);
  std::vector<std::unique_ptr<World>> worlds;
  for (int i = 0; i < nr; ++i) {
    std::unique_ptr<World> w(new World);
    w->rob = gen::robot(g, o);
    w->text = gen::urdf(w->rob);
    worlds.push_back(std::move(w));
  }
  std::vector<std::unique_ptr<Pair>> pool;
  std::string sigs;
  int steps = g.range(10, 40);
  for (int s = 0; s < steps; ++s) {
    size_t op = pool.empty() ? 0 : g.below(12);
    size_t k = pool.empty() ? 0 : g.below(pool.size());
    switch (op) {
    case 0:
      if (pool.size() < 6) {
        World &w = *g.pick(std::vector<World *>{worlds.front().get(), worlds.back().get()});
        pool.emplace_back(new Pair(c, w.rob, w.text));
        c.log(cat("model ", pool.size() - 1, " loaded"));
        c.count("loads");
      }
      break;
    case 1: case 2: // copy
      if (pool.size() < 7) {
        std::unique_ptr<Pair> n(new Pair(*pool[k]));
        n->fresh += 100;
        n->k = std::make_shared<KinematicModel>(*pool[k]->k);
        pool.push_back(std::move(n));
        c.log(cat("model ", pool.size() - 1, " copied from ", k));
        c.count("copies");
      }
      break;
    case 3: { // assign
      size_t t = g.below(pool.size());
      auto kk = pool[t]->k;
      int fr = pool[t]->fresh;
      *kk = *pool[k]->k;
      std::unique_ptr<Pair> n(new Pair(*pool[k]));
      n->k = kk;
      n->fresh = fr + 1000;
      pool[t] = std::move(n);
      c.log(cat("model ", k, " assigned to ", t));
      c.count("assignments");
      break;
    }
    case 4: // move
      if (g.chance(0.5)) {
        auto kk = std::make_shared<KinematicModel>(std::move(*pool[k]->k));
        pool[k]->k = kk; // the moved-from one is destroyed
        c.log(cat("model ", k, " moved"));
        c.count("moves");
      }
      break;
    case 5: // destroy
      if (g.chance(0.6)) {
        pool.erase(pool.begin() + long(k));
        c.log(cat("model ", k, " destroyed"));
        c.count("destructions");
      }
      break;
    case 6: case 7:
      c.log(cat("on model ", k));
      if (g.chance(0.06)) { // a whole bunch on one
        int par = int(g.below(pool[k]->m.links.size()));
        for (int i = g.range(4, 20); i > 0; --i)
          pool[k]->add_link(g, par);
        c.count("bunches_added");
      } else
        pool[k]->add_link(g);
      c.count("links_added");
      break;
    case 8: case 9:
      c.log(cat("on model ", k));
      pool[k]->random_change(g);
      break;
    default: {
      bool mass = pool[k]->m.mass() > 0;
      c.log(cat("queries on model ", k));
      if (mass)
        pool[k]->random_query(g);
      queries(c, g, *pool[k], mass, "in the history");
    }
    }
  }
  for (size_t k = 0; k < pool.size(); ++k) {
    c.log(cat("final queries on model ", k));
    queries(c, g, *pool[k], pool[k]->m.mass() > 0, "at the end");
    for (size_t i = 0; i < pool[k]->m.links.size(); ++i)
      pool[k]->check_pose(int(i), "at the end");
  }
  g.shuffle(pool);
  while (!pool.empty())
    pool.pop_back();
  c.nontrivial(vh::hash_str(c.note, vh::hash_str(worlds[0]->text)));
  c.sample(worlds[0]->text.substr(0, 500) + "\n" + c.note.substr(0, 900));
  c.log(worlds[0]->text + worlds.back()->text);
}
// the parser's model and its export, alone
static void r01_parse(Ctx &c) {
  Rng g(c.case_seed);
  gen::Opts o;
  o.details = true;
  o.max_links = 12;
  ref::Robot r = gen::robot(g, o);
  std::string text = gen::urdf(r);
  auto m = urdf::parseURDF(text);
  c.check(m != nullptr, "rejected", "a valid description was rejected");
  std::unique_ptr<TiXmlDocument> d(urdf::exportURDF(*m));
  TiXmlPrinter pr;
  d->Accept(&pr);
  if (g.chance(0.5))
    m.reset();
  d.reset();
  ++c.evaluations;
  c.count("exports");
}
static void r01_any(Ctx &c) {
  if (c.case_seed % 5 == 0)
    r01_parse(c);
  else
    r01(c);
}
static vh::Register m01("R01", r01_any, "histories over a pool of models of one or two random robots: loads, copies, assignments, moves, destructions in any order, link additions, state changes and queries; every instance is compared with its own reference, so that any leak of state between copies shows; one evaluation is one query compared or one export");
