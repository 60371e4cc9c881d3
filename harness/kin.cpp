// K01..K11: kinematics of the model against the reference.
#include "sut.hpp"
#include <limits>
using namespace sut;
using gen::Opts;

static std::string sample_of(const std::string &text, Ctx &c) {
  return "robot description:\n" + text.substr(0, 700) + "\noperations:\n" + c.note.substr(0, 600);
}
static uint64_t sig(const std::string &text, Ctx &c) { return vh::hash_str(c.note, vh::hash_str(text)); }

// ------------------------------------------------------------------ K01
static void k01(Ctx &c) {
  Rng g(c.case_seed);
  Opts o;
  o.max_links = c.case_index % 10 == 9 ? 60 : 14;
  o.p_deep = c.case_index % 250 == 7 ? 1 : 0;
  ref::Robot r = gen::robot(g, o);
  std::string text = gen::urdf(r);
  c.log(text);
  Pair p(c, r, text);
  c.note.clear();
  int rounds = 4;
  for (int s = 0; s < rounds; ++s) {
    if (s > 0 || g.chance(0.5)) {
      p.set_angles(g, p.random_joints(g, true));
      if (g.chance(0.7))
        p.set_base(g);
      if (g.chance(0.3))
        p.set_one(g);
    }
    std::vector<int> idx;
    for (size_t i = 0; i < p.m.links.size(); ++i)
      idx.push_back(int(i));
    g.shuffle(idx);
    for (int i : idx) {
      p.check_pose(i, "state");
      ++c.evaluations;
    }
    c.count("states_observed");
  }
  c.maxi("links", long(p.m.links.size()));
  size_t h = sig(text, c);
  if (!p.movable.empty())
    c.nontrivial(h);
  c.sample(sample_of(text, c));
  c.log(text);
}

// ------------------------------------------------------------------ K02
// Many state changes with no query in between: whatever marks the stored poses as out of
// date (counters included) must not mark them as current again.
static void burst(Pair &p, Rng &g, long n) {
  for (size_t i = 0; i < p.m.links.size(); ++i)
    if (i == 0 || g.chance(0.8)) {
      Transform t;
      p.k->get_link_pose(p.lid(p.m.links[i].name), t);
    }
  int kind = p.movable.empty() ? 1 + int(g.below(2)) : int(g.below(4));
  std::vector<size_t> ids = p.jids(p.movable);
  std::vector<double> a(ids.size());
  for (long i = 0; i < n; ++i)
    switch (kind) {
    case 0: {
      size_t j = size_t(i) % ids.size();
      double v = 0.3 + 1e-6 * double(i);
      p.k->set_joint_angle(ids[j], v);
      p.m.q[p.movable[j]] = v;
      break;
    }
    case 1: {
      double v = 0.2 + 1e-6 * double(i);
      p.k->set_base_pose(make_pose(v, 2, 3, v, 0, 0));
      p.m.base.p = {v, 2, 3};
      p.m.base.r = ref::rpy(v, 0, 0);
      break;
    }
    case 2: p.k->clear_cache(); break;
    default:
      for (size_t j = 0; j < ids.size(); ++j)
        p.m.q[p.movable[j]] = a[j] = 0.1 * double(j + 1) + 1e-6 * double(i);
      p.k->set_joint_angles(ids, a);
    }
  p.ctx->log(cat(n, " changes in a row of kind ", kind));
  p.ctx->count("changes_in_bursts", n);
}
static void k02_bursts(Ctx &c) {
  Rng g(c.case_seed);
  for (long n : {254, 255, 256, 257, 511, 512, 1024, 4096, 32768, 65533, 65534, 65535, 65536, 65537, 131070, 131072}) {
    Opts o;
    o.max_links = 5;
    ref::Robot r = gen::robot(g, o);
    Pair p(c, r, gen::urdf(r));
    for (int again = 0; again < (n < 5000 ? 8 : 2); ++again) {
      if (n > 5000 && !p.movable.empty()) // a single one that certainly changes something
        p.set_one(g);
      burst(p, g, n);
      for (size_t i = 0; i < p.m.links.size(); ++i)
        p.check_pose(int(i), "after many changes in a row", 1e-8);
      c.count("bursts");
    }
  }
}
// Many queries in a row, and many changes each followed by a query: what a query leaves
// behind must not add up.
static void k02_query_bursts(Ctx &c) {
  Rng g(c.case_seed);
  struct Kind {
    const char *name;
    long n;
  };
  for (Kind k : {Kind{"link poses", 140000}, Kind{"changes and poses", 70000}, Kind{"jacobians", 9000}, Kind{"com jacobians", 5000}, Kind{"centers of mass", 70000},
                 Kind{"inertias", 9000}, Kind{"lookups", 20000}, Kind{"additions", 700}}) {
    Opts o;
    o.max_links = 6;
    o.need_mass = true;
    ref::Robot r = gen::robot(g, o);
    Pair p(c, r, gen::urdf(r));
    std::string what = k.name;
    auto ids = p.jids(p.movable);
    std::vector<size_t> lids;
    for (auto &l : p.m.links)
      lids.push_back(p.lid(l.name));
    p.set_angles(g, p.movable);
    for (long i = 0; i < k.n; ++i) {
      size_t l = lids[size_t(i) % lids.size()];
      Transform t;
      if (what == "link poses")
        p.k->get_link_pose(l, t);
      else if (what == "changes and poses") {
        if (!ids.empty()) {
          size_t j = size_t(i) % ids.size();
          p.k->set_joint_angle(ids[j], 0.1 + 1e-6 * double(i));
          p.m.q[p.movable[j]] = 0.1 + 1e-6 * double(i);
        }
        p.k->get_link_pose(l, t);
      } else if (what == "jacobians")
        p.k->get_jacobian(l, ids, RotationType(int(i % 3)), i % 2);
      else if (what == "com jacobians")
        p.k->get_com_jacobian(ids, i % 2);
      else if (what == "centers of mass")
        p.k->get_com();
      else if (what == "inertias")
        p.k->get_total_inertia_matrix();
      else if (what == "lookups") {
        p.k->get_link_ids(p.k->get_link_names());
        p.k->get_joint_ids(p.k->get_joint_names());
        p.k->get_joint_angles(ids);
      } else
        p.add_link(g);
    }
    c.log(cat(k.n, " in a row: ", k.name));
    c.count("queries_in_bursts", k.n);
    for (int again = 0; again < 2; ++again) {
      for (size_t i = 0; i < p.m.links.size(); ++i)
        p.check_pose(int(i), "after many queries in a row", 1e-8);
      p.check_com("after many queries in a row");
      for (int q = 0; q < 6; ++q)
        p.check_jacobian(int(g.below(p.m.links.size())), p.random_joints(g, true), RotationType(int(g.below(3))), g.chance(0.5), "after many queries in a row");
      p.set_angles(g, p.movable);
    }
    c.count("bursts");
  }
}
static void k02(Ctx &c) {
  Rng g(c.case_seed);
  Opts o;
  o.max_links = 9;
  o.need_mass = true;
  ref::Robot r = gen::robot(g, o);
  std::string text = gen::urdf(r);
  Pair p(c, r, text);
  struct Added {
    std::string name;
    int parent;
    ref::Pose off;
  };
  int steps = c.case_index % 400 == 31 ? 500 : g.range(5, 25);
  for (int s = 0; s < steps; ++s) {
    if (g.chance(0.12))
      p.add_link(g);
    else if (g.chance(0.004))
      burst(p, g, g.range(253, 259));
    else if (g.chance(0.45))
      p.random_change(g);
    else
      p.random_query(g);
    c.count("history_steps");
  }
  if (g.chance(0.5)) { // from one state that is queried in full to another
    if (g.chance(0.5))
      p.set_angles(g, p.movable);
    int kind = int(g.below(5));
    if (kind == 4 && g.chance(0.8)) {
      Transform t = make_pose(g.chance(0.3) ? 0 : g.uni(-500, 500), g.uni(-500, 500), g.uni(10, 1000), 0, 0, g.uni(-3, 3));
      p.set_base(t, to_ref(t));
    }
    for (size_t i = 0; i < p.m.links.size(); ++i) {
      Transform t;
      p.k->get_link_pose(p.lid(p.m.links[i].name), t);
    }
    if (g.chance(0.3))
      p.random_query(g);
    switch (kind) {
    case 4: p.nudge(g); break;
    case 0:
    case 1: p.reset(); break;
    case 2: p.set_angles(g, p.movable); break;
    default: p.random_change(g);
    }
    c.count("changes_right_after_queries");
  }
  // the state as it is reported: queries must not have changed it
  std::vector<double> now = p.k->get_joint_angles(p.jids(p.movable));
  for (size_t i = 0; i < p.movable.size(); ++i)
    c.check(now[i] == double(p.m.q[p.movable[i]]), "state-changed", cat("joint ", p.movable[i], " reads ", now[i], ", last set to ", double(p.m.q[p.movable[i]])));
  // a fresh model brought to the same state
  KinematicModel f(text);
  for (size_t i = p.original; i < p.m.links.size(); ++i) {
    Transform t;
    ref::Q q = ref::to_quat(p.m.links[i].offset.r);
    t.position = tinyfk::Vector3(double(p.m.links[i].offset.p.x), double(p.m.links[i].offset.p.y), double(p.m.links[i].offset.p.z));
    t.rotation.setFromQuaternion(double(q.x), double(q.y), double(q.z), double(q.w));
    f.add_new_link(p.m.links[i].name, f.get_link_ids({p.m.links[p.m.links[i].parent].name})[0], t);
    }
  f.set_joint_angles(f.get_joint_ids(p.movable), now);
  Transform rootp;
  p.k->get_link_pose(p.lid(r.links[0].name), rootp);
  {
    Transform b;
    ref::Q q = ref::to_quat(p.m.base.r);
    // same sign of the quaternion, so that quaternion Jacobians can be compared
    R sgn = q.x * rootp.rotation.x + q.y * rootp.rotation.y + q.z * rootp.rotation.z + q.w * rootp.rotation.w < 0 ? -1 : 1;
    b.position = tinyfk::Vector3(double(p.m.base.p.x), double(p.m.base.p.y), double(p.m.base.p.z));
    b.rotation.setFromQuaternion(double(sgn * q.x), double(sgn * q.y), double(sgn * q.z), double(sgn * q.w));
    f.set_base_pose(b);
  }
  auto close = [&](double a, double b, R tol) { return fabsl(R(a) - R(b)) <= tol; };
  auto cmp_pose = [&](int i, const char *when) {
    Transform a, b;
    p.k->get_link_pose(p.lid(p.m.links[i].name), a);
    f.get_link_pose(f.get_link_ids({p.m.links[i].name})[0], b);
    ref::Pose ra = to_ref(a), rb = to_ref(b);
    ++c.evaluations;
    c.count("poses_compared");
    c.check(ref::norm(ra.p - rb.p) <= 1e-9L * p.scale(i) && ref::mat_dist(ra.r, rb.r) <= 1e-9L, "pose-depends-on-history",
            cat(when, ": pose of ", p.m.links[i].name, " is ", show(a), " but ", show(b), " on a fresh model in the same state"));
  };
  std::vector<int> idx;
  for (size_t i = 0; i < p.m.links.size(); ++i)
    idx.push_back(int(i));
  g.shuffle(idx);
  // some aggregate first, half of the time
  auto aggregates = [&]() {
    auto a = p.k->get_com(), b = f.get_com();
    R s = 1e-9L * (1 + p.m.com_scale());
    c.check(close(a.x, b.x, s) && close(a.y, b.y, s) && close(a.z, b.z, s), "com-depends-on-history",
            cat("center of mass ", a.x, " ", a.y, " ", a.z, " but ", b.x, " ", b.y, " ", b.z, " on a fresh model"));
    Eigen::Matrix3d I = p.k->get_total_inertia_matrix(), K = f.get_total_inertia_matrix();
    c.check((I - K).norm() <= 1e-9 * (1 + K.norm()), "inertia-depends-on-history", "total inertia differs from a fresh model");
    auto n1 = p.random_joints(g, true);
    bool wb = g.chance(0.5);
    Eigen::MatrixXd J = p.k->get_com_jacobian(p.jids(n1), wb), L = f.get_com_jacobian(f.get_joint_ids(n1), wb);
    c.check(J.rows() == L.rows() && J.cols() == L.cols() && (J - L).norm() <= 1e-8 * (1 + double(p.m.com_scale())) * (1 + double(J.cols())), "com-jacobian-depends-on-history",
            "COM Jacobian differs from a fresh model");
    ++c.evaluations;
    c.count("aggregates_compared");
  };
  if (g.chance(0.5))
    aggregates();
  for (int i : idx) {
    cmp_pose(i, "after the history");
    if (g.chance(0.4)) {
      auto n1 = p.random_joints(g, true);
      bool wb = g.chance(0.5);
      RotationType rt = RotationType(int(g.below(3)));
      ref::Pose e = p.m.fk(i);
      bool singular = (rt == RotationType::RPY && ref::pitch_cos(e.r) < 0.05) || (wb && ref::pitch_cos(p.m.base.r) < 0.05);
      if (!singular) {
        size_t id = p.lid(p.m.links[i].name), fid = f.get_link_ids({p.m.links[i].name})[0];
        Eigen::MatrixXd J = p.k->get_jacobian(id, p.jids(n1), rt, wb), L = f.get_jacobian(fid, f.get_joint_ids(n1), rt, wb);
        if (rt == RotationType::XYZW) { // sign of the quaternion is free
          Transform a, b;
          p.k->get_link_pose(id, a), f.get_link_pose(fid, b);
          double d = a.rotation.x * b.rotation.x + a.rotation.y * b.rotation.y + a.rotation.z * b.rotation.z + a.rotation.w * b.rotation.w;
          if (d < 0)
            L.bottomRows(4) *= -1;
        }
        double tol = 1e-8 * double(p.scale(i)) * (rt == RotationType::RPY ? 10000 : 1);
        c.check(J.rows() == L.rows() && J.cols() == L.cols() && (J.size() == 0 || (J - L).cwiseAbs().maxCoeff() <= tol), "jacobian-depends-on-history",
                cat("Jacobian of ", p.m.links[i].name, " differs from a fresh model"));
        ++c.evaluations;
        c.count("jacobians_compared");
        Eigen::MatrixXd J2 = p.k->get_jacobian(id, p.jids(n1), rt, wb);
        c.check(J2.rows() == J.rows() && J2.cols() == J.cols() && (J.size() == 0 || (J - J2).cwiseAbs().maxCoeff() <= 1e-12 * (1 + J.cwiseAbs().maxCoeff())), "repeat-differs", "repeating a Jacobian query gives another result");
      }
    }
  }
  aggregates();
  // repeated queries, in another order, give the same again
  std::vector<Transform> first(idx.size());
  for (int i : idx)
    p.k->get_link_pose(p.lid(p.m.links[i].name), first[i]);
  for (int n = 0; n < 3; ++n)
    p.random_query(g);
  g.shuffle(idx);
  for (int i : idx) {
    Transform t;
    p.k->get_link_pose(p.lid(p.m.links[i].name), t);
    ref::Pose a = to_ref(t), b = to_ref(first[i]);
    c.check(ref::norm(a.p - b.p) <= 1e-12L * p.scale(i) && ref::mat_dist(a.r, b.r) <= 1e-12L, "repeat-differs",
            cat("repeated query of ", p.m.links[i].name, " gives ", show(t), " after ", show(first[i])));
    c.count("repeats_compared");
  }
  std::vector<double> again = p.k->get_joint_angles(p.jids(p.movable));
  c.check(again == now, "state-changed", "queries changed the joint angles");
  if (!p.movable.empty())
    c.nontrivial(sig(text, c));
  c.sample(sample_of(text, c));
  c.log(text);
}

// ------------------------------------------------------------------ K03, K04
static void k03(Ctx &c) {
  Rng g(c.case_seed);
  Opts o;
  o.max_links = c.case_index % 20 == 19 ? 30 : 10;
  o.p_deep = c.case_index % 1500 == 77 ? 1 : 0;
  ref::Robot r = gen::robot(g, o);
  std::string text = gen::urdf(r);
  Pair p(c, r, text);
  if (g.chance(0.3))
    p.add_link(g);
  bool any = false;
  for (int s = 0; s < 3; ++s) {
    p.set_angles(g, p.random_joints(g, false));
    if (g.chance(0.6))
      p.set_base(g);
    for (int q = 0; q < 6; ++q) {
      int i = int(g.below(p.m.links.size()));
      auto names = p.random_joints(g, true);
      RotationType rt = RotationType(int(g.below(3)));
      if (g.chance(0.2))
        p.random_query(g);
      if (p.check_jacobian(i, names, rt, false, "state")) {
        ++c.evaluations;
        c.count(cat("jacobians_rotation_type_", int(rt)));
        any = any || !names.empty();
      } else
        c.count("skipped_singular");
    }
  }
  if (any)
    c.nontrivial(sig(text, c));
  c.sample(sample_of(text, c));
  c.log(text);
}
static void k04(Ctx &c) {
  Rng g(c.case_seed);
  Opts o;
  o.max_links = 8;
  ref::Robot r = gen::robot(g, o);
  std::string text = gen::urdf(r);
  Pair p(c, r, text);
  if (g.chance(0.2))
    p.add_link(g);
  bool any = false;
  for (int s = 0; s < 4; ++s) {
    p.set_angles(g, p.random_joints(g, false));
    if (s > 0 || g.chance(0.8))
      p.set_base(g);
    for (int q = 0; q < 4; ++q) {
      int i = g.chance(0.1) ? 0 : int(g.below(p.m.links.size()));
      auto names = p.random_joints(g, true);
      RotationType rt = RotationType(int(g.below(3)));
      if (p.check_jacobian(i, names, rt, true, "state")) {
        ++c.evaluations;
        any = true;
        c.count(cat("jacobians_rotation_type_", int(rt)));
      } else
        c.count("skipped_singular");
    }
  }
  if (any)
    c.nontrivial(sig(text, c));
  c.sample(sample_of(text, c));
  c.log(text);
}

// ------------------------------------------------------------------ K05, K06, K07
static void mass_case(Ctx &c, int which) {
  Rng g(c.case_seed);
  Opts o;
  o.need_mass = true;
  o.max_links = c.case_index % 20 == 19 ? 30 : 10;
  o.p_deep = c.case_index % (which == 6 ? 1500 : 500) == 77 ? 1 : 0;
  if (which == 6)
    o.deep_links = 130;
  ref::Robot r = gen::robot(g, o);
  std::string text = gen::urdf(r);
  Pair p(c, r, text);
  int n_inert = 0;
  for (auto &l : r.links)
    n_inert += l.has_inertial;
  c.maxi("links_with_inertial", n_inert);
  double m = p.m.mass();
  auto mass_ok = [&]() { c.check(std::fabs(p.k->total_mass_ - m) <= 1e-12 * m, "total-mass", cat("total mass is ", p.k->total_mass_, ", expected ", m)); };
  mass_ok();
  bool any = false;
  for (int s = 0; s < 4; ++s) {
    if (s > 0 || g.chance(0.5)) {
      p.set_angles(g, p.random_joints(g, true));
      if (g.chance(0.6))
        p.set_base(g);
    }
    if (g.chance(0.25))
      p.add_link(g); // must not contribute
    if (g.chance(0.4))
      p.random_query(g);
    if (which == 5) {
      p.check_com("state");
      mass_ok();
      any = true;
      ++c.evaluations;
      // rigid motion of the base
      if (g.chance(0.5)) {
        ref::V3 a = p.m.com();
        ref::V3 local = ref::mul(ref::transpose(p.m.base.r), a - p.m.base.p);
        p.set_base(g);
        auto b = p.k->get_com();
        ref::V3 e = ref::mul(p.m.base.r, local) + p.m.base.p;
        c.check(ref::norm(e - ref::V3{b.x, b.y, b.z}) <= 1e-8L * (1 + p.m.com_scale() + ref::norm(a)), "com-base-motion", "center of mass does not move rigidly with the base");
        c.count("base_motions");
        ++c.evaluations;
      }
    } else if (which == 6) {
      for (int q = 0; q < 2; ++q) {
        bool wb = g.chance(0.5);
        if (p.check_com_jacobian(p.random_joints(g, true), wb, "state")) {
          ++c.evaluations;
          c.count(wb ? "with_base" : "without_base");
          any = true;
        } else
          c.count("skipped_singular");
      }
    } else {
      p.check_inertia("state");
      ++c.evaluations;
      any = true;
      Eigen::Matrix3d I = p.k->get_total_inertia_matrix();
      c.check((I - I.transpose()).norm() <= 1e-9 * I.norm(), "inertia-asymmetric", "total inertia is not symmetric");
      if (g.chance(0.5)) { // under base motion: R I R^T
        ref::M3 r0 = p.m.base.r;
        R s0 = 1 + p.m.com_scale();
        p.set_base(g);
        ref::M3 d = ref::mul(p.m.base.r, ref::transpose(r0));
        ref::M3 i0;
        for (int a = 0; a < 3; ++a)
          for (int b = 0; b < 3; ++b)
            i0.a[a][b] = I(a, b);
        ref::M3 e = ref::mul(d, ref::mul(i0, ref::transpose(d)));
        Eigen::Matrix3d K = p.k->get_total_inertia_matrix();
        R s1 = 1 + p.m.com_scale();
        for (int a = 0; a < 3; ++a)
          for (int b = 0; b < 3; ++b)
            c.check(fabsl(K(a, b) - e.a[a][b]) <= 1e-8L * I.norm() + 1e-12L * m * (s0 * s0 + s1 * s1), "inertia-base-motion", "total inertia does not transform with the base");
        c.count("base_motions");
        ++c.evaluations;
      }
    }
  }
  if (any)
    c.nontrivial(sig(text, c));
  c.sample(sample_of(text, c));
  c.log(text);
}

// ------------------------------------------------------------------ K08
static void k08(Ctx &c) {
  Rng g(c.case_seed);
  Opts o;
  o.max_links = 7;
  o.need_mass = g.chance(0.7);
  ref::Robot r = gen::robot(g, o);
  std::string text = gen::urdf(r);
  Pair p(c, r, text);
  bool mass = p.m.mass() > 0;
  double mass0 = p.k->total_mass_;
  std::map<std::string, size_t> ids;
  for (auto &l : p.m.links)
    ids[l.name] = p.lid(l.name);
  int adds = c.case_index % 400 == 39 ? 320 : g.chance(0.15) ? 40 : g.range(1, 8);
  bool chain = g.chance(0.4);
  int depth = 0;
  for (int n = 0; n < adds; ++n) {
    if (g.chance(0.5))
      p.random_change(g);
    if (g.chance(0.5))
      p.random_query(g);
    std::string name;
    if (chain && n > 0) {
      name = p.add_link(g, int(p.m.links.size()) - 1);
      ++depth;
    } else
      name = p.add_link(g);
    c.count("links_added");
    // a fresh id, found under its name
    size_t id = p.lid(name);
    auto names = p.k->get_link_names();
    c.check(names.size() == p.m.links.size(), "link-count", cat("there are ", names.size(), " link names, expected ", p.m.links.size()));
    c.check(id < names.size() && names[id] == name, "new-link-id", "the new link's id does not name it");
    for (auto &kv : ids)
      c.check(kv.second != id, "new-link-id", cat("the new link shares its id with ", kv.first));
    for (auto &kv : ids)
      c.check(p.lid(kv.first) == kv.second, "link-id-changed", cat("id of ", kv.first, " changed"));
    ids[name] = id;
    // duplicate names are rejected without effect
    if (g.chance(0.5)) {
      std::string dup = p.m.links[g.below(p.m.links.size())].name;
      size_t par = p.lid(p.m.links[g.below(p.m.links.size())].name);
      std::array<double, 3> z{{1, 2, 3}};
      bool threw = false;
      try {
        if (g.chance(0.5))
          p.k->add_new_link(dup, par, z, z);
        else
          p.k->add_new_link(dup, par, make_pose(1, 2, 3, 0, 0, 0));
      } catch (const std::exception &) {
        threw = true;
      }
      c.log("add_new_link again " + dup);
      c.check(threw, "duplicate-accepted", cat("adding a second link named ", dup, " was accepted"));
      c.check(p.k->get_link_names() == names, "duplicate-changed-model", "a rejected addition changed the link names");
      c.count("duplicates_rejected");
    }
    if (n + 1 == adds || g.chance(adds > 100 ? 0.01 : 0.4)) {
      int states = 2;
      for (int s = 0; s < states; ++s) {
        for (size_t i = 0; i < p.m.links.size(); ++i) {
          p.check_pose(int(i), "after additions");
          ++c.evaluations;
        }
        for (int q = 0; q < 4; ++q) {
          int i = q < 2 ? int(p.m.links.size()) - 1 - int(g.below(size_t(n) + 1)) : int(g.below(p.m.links.size()));
          if (p.check_jacobian(i, p.random_joints(g, true), RotationType(int(g.below(3))), g.chance(0.5), "after additions"))
            ++c.evaluations;
        }
        c.check(p.k->total_mass_ == mass0, "mass-changed", "adding a link changed the total mass");
        if (mass) {
          p.check_com("after additions");
          p.check_inertia("after additions");
          p.check_com_jacobian(p.random_joints(g, false), g.chance(0.5), "after additions");
          ++c.evaluations;
        }
        p.random_change(g);
      }
    }
  }
  c.maxi("chain_depth", depth);
  c.nontrivial(sig(text, c));
  c.sample(sample_of(text, c));
  c.log(text);
}

// ------------------------------------------------------------------ K09
static void k09(Ctx &c) {
  Rng g(c.case_seed);
  Opts o;
  o.max_links = 25;
  o.p_deep = c.case_index % 1000 == 77 ? 1 : 0;
  ref::Robot r = gen::robot(g, o);
  std::string text = gen::urdf(r);
  Pair p(c, r, text);
  int adds = int(g.below(4));
  for (int round = 0; round <= adds; ++round) {
    if (round)
      p.add_link(g);
    std::multiset<std::string> want, got;
    for (auto &l : p.m.links)
      want.insert(l.name);
    auto ln = p.k->get_link_names();
    got.insert(ln.begin(), ln.end());
    c.check(want == got, "link-names", cat("link names are not those of the description: ", ln.size(), " instead of ", want.size()));
    std::multiset<std::string> jw(p.movable.begin(), p.movable.end());
    auto jn = p.k->get_joint_names();
    std::multiset<std::string> jg(jn.begin(), jn.end());
    c.check(jw == jg, "joint-names", "joint names are not the movable joints of the description");
    // lookups of any list, with repeats
    for (int q = 0; q < 6; ++q) {
      std::vector<std::string> ask;
      int n = g.chance(0.03) ? g.range(30, 300) : g.range(0, 6);
      for (int i = 0; i < n; ++i)
        ask.push_back(g.pick(ln));
      auto id = p.k->get_link_ids(ask);
      c.check(id.size() == ask.size(), "link-lookup", "wrong number of link ids");
      for (size_t i = 0; i < ask.size(); ++i)
        c.check(id[i] < ln.size() && ln[id[i]] == ask[i], "link-lookup", cat("looking up ", ask[i], " gives id ", id[i]));
      ask.clear();
      for (int i = 0; i < n && !jn.empty(); ++i)
        ask.push_back(g.pick(jn));
      id = p.k->get_joint_ids(ask);
      c.check(id.size() == ask.size(), "joint-lookup", "wrong number of joint ids");
      for (size_t i = 0; i < ask.size(); ++i)
        c.check(id[i] < jn.size() && jn[id[i]] == ask[i], "joint-lookup", cat("looking up ", ask[i], " gives id ", id[i]));
      ++c.evaluations;
      c.count("lookups_checked", long(2 * ask.size()));
      // unknown names: similar ones, fixed joints, the other kind, at any place
      std::vector<std::string> bad{"", "nosuchname", g.pick(ln) + " ", g.pick(ln).substr(1), g.pick(ln) + "_", "_com"};
      { // spellings of a known name that another part of the world might take for the same
        std::string n0 = g.pick(g.chance(0.5) && !jn.empty() ? jn : ln);
        for (std::string w : {"/", " ", "\t", "./", "~", "\n", "_", ":", "-", "tf/", "robot/", "::", "//", "0", "#"}) {
          bad.push_back(w + n0);
          bad.push_back(n0 + w);
        }
        bad.push_back(n0 + std::string(1, '\0'));
        bad.push_back(n0 + n0);
        bad.push_back(n0.substr(0, n0.size() - 1));
        bad.push_back(n0 + "_com");
        if (n0.size() > 4)
          bad.push_back(n0.substr(0, n0.size() - 4));
        std::string u = n0, l = n0, f = n0;
        for (char &ch : u)
          ch = char(toupper((unsigned char)ch));
        for (char &ch : l)
          ch = char(tolower((unsigned char)ch));
        f[0] = char(f[0] ^ 0x20);
        bad.push_back(u), bad.push_back(l), bad.push_back(f);
        for (char &ch : f)
          if (ch == '_')
            ch = '-';
        bad.push_back(f);
      }
      for (auto &j : r.joints)
        if (!j.movable())
          bad.push_back(j.name);
      std::string b = g.pick(bad);
      for (int kind = 0; kind < 2; ++kind) {
        const auto &names = kind ? jn : ln;
        if (std::find(names.begin(), names.end(), b) != names.end())
          continue;
        ask.clear();
        for (int i = 0; i < n && !names.empty(); ++i)
          ask.push_back(g.pick(names));
        ask.insert(ask.begin() + long(g.below(ask.size() + 1)), b);
        bool threw = false;
        try {
          if (kind)
            p.k->get_joint_ids(ask);
          else
            p.k->get_link_ids(ask);
        } catch (const std::exception &) {
          threw = true;
        }
        c.check(threw, "unknown-name-accepted", cat("unknown ", kind ? "joint" : "link", " name \"", b, "\" was accepted"));
        c.count("unknown_names_rejected");
        ++c.evaluations;
      }
      c.check(p.k->get_link_names() == ln && p.k->get_joint_names() == jn, "names-changed", "looking up names changed the names");
    }
    // ids address the right thing: the pose of the id is that of the name
    for (size_t i = 0; i < p.m.links.size(); ++i)
      p.check_pose(int(i), "by id");
    p.set_angles(g, p.random_joints(g, false));
  }
  c.maxi("links", long(p.m.links.size()));
  c.nontrivial(sig(text, c));
  c.sample(sample_of(text, c));
  c.log(text);
}
// Known finding: a link called <other>_com next to a link <other> with inertial data.
static void k09_com_collision(Ctx &c) {
  std::string text = "<robot name=\"r\"><link name=\"a\"><inertial><mass value=\"1\"/><inertia ixx=\"1\" ixy=\"0\" ixz=\"0\" iyy=\"1\" iyz=\"0\" izz=\"1\"/></inertial></link>"
                     "<link name=\"a_com\"/><joint name=\"j\" type=\"fixed\"><parent link=\"a\"/><child link=\"a_com\"/></joint></robot>";
  ++c.evaluations;
  try {
    KinematicModel k(text);
  } catch (const std::exception &e) {
    c.fail("com-name-collision", cat("a valid description with links a (with inertial data) and a_com cannot be loaded: ", e.what()));
  }
}

// ------------------------------------------------------------------ K10
static void k10(Ctx &c) {
  Rng g(c.case_seed);
  Opts o;
  o.max_links = 16;
  o.fancy_numbers = g.chance(0.5);
  ref::Robot r = gen::robot(g, o);
  std::string text = gen::urdf(r);
  Pair p(c, r, text);
  const double inf = std::numeric_limits<double>::infinity();
  std::map<std::string, const ref::Joint *> by;
  for (auto &j : r.joints)
    by[j.name] = &j;
  for (int q = 0; q < 5; ++q) {
    auto names = p.random_joints(g, true);
    if (!names.empty() && g.chance(0.02))
      for (int n = g.range(20, 300); n > 0; --n)
        names.push_back(g.pick(p.movable));
    auto id = p.jids(names);
    auto pos = p.k->get_joint_position_limits(id);
    auto vel = p.k->get_joint_velocity_limits(id);
    auto eff = p.k->get_joint_effort_limits(id);
    c.check(pos.size() == id.size() && vel.size() == id.size() && eff.size() == id.size(), "limit-count", "wrong number of limits");
    for (size_t i = 0; i < names.size(); ++i) {
      const ref::Joint &j = *by[names[i]];
      double lo = -inf, hi = inf;
      if (j.type != ref::CONTINUOUS) {
        lo = j.lower.has ? j.lower.v : 0;
        hi = j.upper.has ? j.upper.v : 0;
      }
      c.check(pos[i].first == lo && pos[i].second == hi, "position-limits",
              cat("joint ", names[i], " (", ref::type_name(j.type), ") reports [", pos[i].first, ", ", pos[i].second, "], description says [", lo, ", ", hi, "]"));
      double v = j.has_limit ? j.velocity : inf, e = j.has_limit ? j.effort : inf;
      c.check(vel[i] == v, "velocity-limit", cat("joint ", names[i], " reports velocity limit ", vel[i], ", expected ", v));
      c.check(eff[i] == e, "effort-limit", cat("joint ", names[i], " reports effort limit ", eff[i], ", expected ", e));
      c.count(cat("limits_", ref::type_name(j.type), j.has_limit ? "" : "_without_limit"));
      ++c.evaluations;
    }
    if (g.chance(0.5)) {
      p.random_change(g); // must not matter
      if (g.chance(0.3))
        p.add_link(g);
    }
  }
  if (!p.movable.empty())
    c.nontrivial(sig(text, c));
  c.sample(sample_of(text, c));
  c.log(text);
}

// ------------------------------------------------------------------ K11
static void k11(Ctx &c) {
  Rng g(c.case_seed);
  Opts o;
  o.max_links = 12;
  o.need_mass = true;
  ref::Robot r = gen::robot(g, o);
  std::string text = gen::urdf(r);
  Pair p(c, r, text);
  std::map<std::string, double> q;
  for (auto &n : p.movable)
    q[n] = 0;
  Transform base;
  auto verify = [&](const char *when) {
    for (int t = 0; t < 2; ++t) {
      auto names = t ? p.movable : p.random_joints(g, true);
      auto a = p.k->get_joint_angles(p.jids(names));
      c.check(a.size() == names.size(), "angle-count", "wrong number of angles");
      for (size_t i = 0; i < names.size(); ++i)
        c.check(a[i] == q[names[i]], "angle", cat(when, ": joint ", names[i], " reads ", a[i], ", expected ", q[names[i]]));
      c.count("angles_compared", long(names.size()));
    }
    Transform b;
    p.k->get_link_pose(p.lid(r.links[0].name), b);
    bool same = b.position.x == base.position.x && b.position.y == base.position.y && b.position.z == base.position.z && b.rotation.x == base.rotation.x &&
                b.rotation.y == base.rotation.y && b.rotation.z == base.rotation.z && b.rotation.w == base.rotation.w;
    c.check(same, "base-pose", cat(when, ": root link reports ", show(b), ", base pose was set to ", show(base)));
    ++c.evaluations;
  };
  verify("new model");
  int steps = c.case_index % 300 == 29 ? 600 : g.range(4, 14);
  for (int s = 0; s < steps; ++s) {
    switch (g.below(7)) {
    case 0:
      p.k->set_init_angles();
      c.log("set_init_angles");
      for (auto &kv : q)
        kv.second = 0;
      break;
    case 1: {
      base = make_pose(gen::number(g, true) * 1e-3, gen::length(g), gen::length(g), g.uni(-4, 4), g.uni(-4, 4), g.uni(-4, 4));
      c.log("set_base_pose " + show(base));
      p.k->set_base_pose(base);
      break;
    }
    case 2: {
      if (p.movable.empty())
        break;
      std::string n = g.pick(p.movable);
      double v = gen::number(g, true);
      c.log(cat("set_joint_angle ", n, " ", v));
      p.k->set_joint_angle(p.jids({n})[0], v);
      q[n] = v;
      break;
    }
    case 3:
      p.random_query(g);
      break;
    case 4:
      if (g.chance(0.3))
        p.add_link(g);
      break;
    default: {
      auto names = p.random_joints(g, true);
      std::vector<double> v;
      std::string l = "set_joint_angles";
      for (auto &n : names) {
        v.push_back(g.chance(0.3) ? gen::number(g, true) : gen::angle(g));
        if (g.chance(0.02))
          v.back() = -0.0;
        q[n] = v.back();
        l += cat(" ", n, "=", v.back());
      }
      c.log(l);
      p.k->set_joint_angles(p.jids(names), v);
    }
    }
    if (g.chance(0.7) || s + 1 == steps)
      verify("after the operations");
  }
  if (!p.movable.empty())
    c.nontrivial(sig(text, c));
  c.sample(sample_of(text, c));
  c.log(text);
}

#define TREES "random kinematic trees (chains, stars, binary and random trees; revolute, continuous, prismatic and fixed joints; missing and special origins and axes; with and without inertial data; random names) written as URDF and loaded by the real model, compared with a separate long double model; "
static vh::Register r01("K01", k01, TREES "one evaluation is one link pose compared; a case is non-trivial if the robot has a movable joint, distinct by description and operations");
static vh::Register r02("K02", k02, TREES "after a random history of state changes, additions and queries every query is compared with a fresh model in the same state (bursts of up to 131072 changes without a query included); non-trivial: has a movable joint", {k02_bursts, k02_query_bursts});
static vh::Register r03("K03", k03, TREES "one evaluation is one Jacobian compared column by column with numerical derivatives of the reference; non-trivial: at least one joint column compared");
static vh::Register r04("K04", k04, TREES "one evaluation is one Jacobian with base columns compared with numerical derivatives of the reference; non-trivial: at least one base orientation away from the singularity");
static vh::Register r05("K05", [](Ctx &c) { mass_case(c, 5); }, TREES "one evaluation is one center of mass compared; every case has positive mass");
static vh::Register r06("K06", [](Ctx &c) { mass_case(c, 6); }, TREES "one evaluation is one COM Jacobian compared with numerical derivatives of the reference");
static vh::Register r07("K07", [](Ctx &c) { mass_case(c, 7); }, TREES "one evaluation is one inertia matrix compared with the reference, or with the rotated matrix after a base motion");
static vh::Register r08("K08", k08, TREES "links are added at random places and in chains, between state changes and queries; one evaluation is one pose, Jacobian or aggregate compared after an addition");
static vh::Register r09("K09", k09, TREES "one evaluation is one list of names looked up, known or with an unknown name", {k09_com_collision});
static vh::Register r10("K10", k10, TREES "one evaluation is one joint's limits compared with the description; non-trivial: has a movable joint");
static vh::Register r11("K11", k11, TREES "random sequences of set, reset, read calls, all angles and the root pose compared bit by bit; non-trivial: has a movable joint");
