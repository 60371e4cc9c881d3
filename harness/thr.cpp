// R02: threads that use their own models.
#include "gen.hpp"
#include "sut.hpp"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
using namespace sut;

// Everything one thread does, as a function of its seed; returns all results.
static std::vector<double> script(const std::string &text, const std::vector<std::string> &joints, uint64_t seed, std::atomic<int> *gate, std::atomic<long> *ticks, std::vector<long> *order) {
  if (gate) { // start together
    gate->fetch_sub(1);
    while (gate->load() > 0)
      std::this_thread::yield();
  }
  Rng g(seed);
  std::vector<double> out;
  auto put = [&](const Transform &t) {
    for (double d : {t.position.x, t.position.y, t.position.z, t.rotation.x, t.rotation.y, t.rotation.z, t.rotation.w})
      out.push_back(d);
  };
  auto putm = [&](const Eigen::MatrixXd &m) {
    for (long i = 0; i < m.size(); ++i)
      out.push_back(m.data()[i]);
  };
  for (int rep = 0; rep < 2; ++rep) {
    std::unique_ptr<KinematicModel> k(new KinematicModel(text));
    std::unique_ptr<KinematicModel> other;
    for (int n = 0; n < 12; ++n) {
      if (ticks)
        order->push_back(ticks->fetch_add(1)); // how the threads interleave
      if (g.chance(0.2))
        std::this_thread::yield();
      auto id = k->get_joint_ids(joints);
      auto names = k->get_link_names();
      std::vector<double> q;
      for (size_t i = 0; i < id.size(); ++i)
        q.push_back(g.uni(-3, 3));
      k->set_joint_angles(id, q);
      k->set_base_pose(make_pose(g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1)));
      for (int l = 0; l < 4; ++l) {
        Transform t;
        size_t li = g.below(names.size());
        k->get_link_pose(li, t);
        put(t);
        putm(k->get_jacobian(li, id, RotationType(int(g.below(3))), g.chance(0.5)));
      }
      auto c = k->get_com();
      out.push_back(c.x), out.push_back(c.y), out.push_back(c.z);
      putm(k->get_com_jacobian(id, true));
      putm(k->get_total_inertia_matrix());
      for (auto &b : k->get_joint_position_limits(id))
        out.push_back(b.first), out.push_back(b.second);
      for (double d : k->get_joint_angles(id))
        out.push_back(d);
      if (g.chance(0.3))
        k->add_new_link(cat("new", n), g.below(names.size()), make_pose(1, 0, 0, g.uni(-1, 1), 0, 0));
      if (g.chance(0.2))
        k->set_init_angles();
      if (g.chance(0.2)) { // a copy of its own
        other.reset(new KinematicModel(*k));
        if (g.chance(0.5))
          std::swap(k, other);
      }
      if (g.chance(0.15)) {
        try {
          k->get_link_ids({"no such link"});
        } catch (const std::exception &e) {
          out.push_back(double(std::string(e.what()).size()));
        }
      }
    }
    if (g.chance(0.5)) { // parse, export, print
      auto m = urdf::parseURDF(text);
      std::unique_ptr<TiXmlDocument> d(urdf::exportURDF(*m));
      TiXmlPrinter pr;
      d->Accept(&pr);
      std::string s = pr.Str();
      out.push_back(double(vh::hash_str(s) >> 12));
      auto m2 = urdf::parseURDF(s);
      out.push_back(m2 ? double(m2->links_.size()) : -1);
    }
    try {
      KinematicModel bad(text.substr(0, g.below(text.size())));
      out.push_back(1);
    } catch (const std::exception &) {
      out.push_back(0);
    }
  }
  return out;
}
static void r02(Ctx &c) {
  Rng g(c.case_seed);
  gen::Opts o;
  o.need_mass = true;
  o.details = true;
  o.max_links = 8;
  int nt = g.range(2, 6);
  bool same = g.chance(0.5);
  std::vector<ref::Robot> robs;
  std::vector<std::string> texts;
  std::vector<std::vector<std::string>> joints;
  std::vector<uint64_t> seeds;
  for (int t = 0; t < nt; ++t) {
    if (t && same) {
      robs.push_back(robs[0]);
      texts.push_back(texts[0]);
    } else {
      robs.push_back(gen::robot(g, o));
      gen::Style st;
      Rng sg(g.u64());
      st.g = &sg;
      st.refs = st.spaces = st.noise = st.prolog = g.chance(0.5);
      texts.push_back(gen::text(gen::robot_el(robs.back()), st));
    }
    std::vector<std::string> j;
    for (auto &x : robs.back().joints)
      if (x.movable())
        j.push_back(x.name);
    joints.push_back(j);
    seeds.push_back(same && g.chance(0.3) ? c.case_seed : g.u64());
  }
  // the threads run first, so that anything initialised on first use is initialised by them
  std::vector<std::vector<double>> par(nt), alone(nt);
  std::vector<std::vector<long>> order(nt);
  std::vector<std::string> errors(nt);
  std::atomic<int> gate(nt);
  std::atomic<long> ticks(0);
  {
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t)
      th.emplace_back([&, t] {
        try {
          par[t] = script(texts[t], joints[t], seeds[t], &gate, &ticks, &order[t]);
        } catch (const std::exception &e) {
          errors[t] = e.what();
        }
      });
    for (auto &x : th)
      x.join();
  }
  for (int t = 0; t < nt; ++t) {
    c.check(errors[t].empty(), "exception", cat("thread ", t, " got an exception: ", errors[t]));
    alone[t] = script(texts[t], joints[t], seeds[t], nullptr, nullptr, nullptr);
    c.check(par[t].size() == alone[t].size(), "result-count", cat("thread ", t, " got ", par[t].size(), " results, alone ", alone[t].size()));
    for (size_t i = 0; i < par[t].size(); ++i)
      c.check(par[t][i] == alone[t][i] || (par[t][i] != par[t][i] && alone[t][i] != alone[t][i]), "result", cat("thread ", t, " result ", i, " is ", par[t][i], ", alone ", alone[t][i]));
    c.count("results_compared", long(par[t].size()));
    ++c.evaluations;
  }
  c.count("threads", nt);
  // the interleaving seen, as which thread took which tick
  std::vector<int> who(size_t(ticks.load()), -1);
  long switches = 0;
  for (int t = 0; t < nt; ++t)
    for (long x : order[t])
      who[size_t(x)] = t;
  std::string w;
  for (size_t i = 0; i < who.size(); ++i) {
    w += char('a' + who[i]);
    switches += i && who[i] != who[i - 1];
  }
  c.count("context_switches_seen", switches);
  if (switches > nt)
    c.nontrivial(vh::hash_str(w));
  c.sample(cat(nt, " threads, ", same ? "same" : "different", " descriptions, interleaving of steps: ", w));
  c.log(cat(nt, " threads; order of steps ", w));
}
static vh::Register t02("R02", r02, "2 to 6 threads start together, each loading, changing, querying, copying, exporting and destroying its own models (same or different descriptions, also malformed ones), results compared bit by bit with the same script run alone; one evaluation is one thread; a case is non-trivial if the threads' steps really interleaved, distinct by the order of steps seen");
