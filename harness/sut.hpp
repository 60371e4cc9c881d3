// The code under test next to its reference model.
#pragma once
#include "gen.hpp"
#include "tinyfk.hpp"
#include <memory>

namespace sut {
using tinyfk::KinematicModel;
using tinyfk::RotationType;
using tinyfk::Transform;
using vh::cat;
using vh::Ctx;
using vh::Rng;
typedef ref::R R;

inline ref::Pose to_ref(const Transform &t) {
  return {ref::from_quat(t.rotation.x, t.rotation.y, t.rotation.z, t.rotation.w),
          {t.position.x, t.position.y, t.position.z}};
}
inline std::string show(const Transform &t) {
  return cat("p=(", t.position.x, " ", t.position.y, " ", t.position.z, ") q=(", t.rotation.x, " ", t.rotation.y, " ",
             t.rotation.z, " ", t.rotation.w, ")");
}
inline std::string show(const ref::Pose &p) {
  ref::Q q = ref::to_quat(p.r);
  return cat("p=(", double(p.p.x), " ", double(p.p.y), " ", double(p.p.z), ") q=(", double(q.x), " ", double(q.y), " ",
             double(q.z), " ", double(q.w), ")");
}
inline Transform make_pose(double x, double y, double z, double r, double p, double yw) {
  Transform t;
  t.position.x = x, t.position.y = y, t.position.z = z;
  t.rotation.setFromRPY(r, p, yw);
  return t;
}

// A model under test, its reference, and the same operations on both.
struct Pair {
  Ctx *ctx;
  const ref::Robot *rob;
  ref::Model m;
  std::shared_ptr<KinematicModel> k;
  std::vector<std::string> movable; // names of movable joints
  int fresh = 0;
  size_t original; // links of the description
  Transform base_now; // as it was last set

  Pair(Ctx &c, const ref::Robot &r, const std::string &text) : ctx(&c), rob(&r), m(r) {
    k = std::make_shared<KinematicModel>(text);
    for (auto &j : r.joints)
      if (j.movable())
        movable.push_back(j.name);
    original = m.links.size();
  }
  size_t lid(const std::string &n) const { return k->get_link_ids({n})[0]; }
  std::vector<size_t> jids(const std::vector<std::string> &n) const { return k->get_joint_ids(n); }

  std::vector<std::string> random_joints(Rng &g, bool repeats) {
    std::vector<std::string> v;
    if (movable.empty())
      return v;
    switch (g.below(4)) {
    case 0: v = movable; break;
    case 1: v = movable; g.shuffle(v); break;
    default: {
      v = movable;
      g.shuffle(v);
      v.resize(g.below(v.size() + 1));
    }
    }
    if (repeats && !v.empty() && g.chance(0.3))
      v.push_back(g.pick(v));
    return v;
  }
  // --- state changes
  void set_angles(Rng &g, const std::vector<std::string> &names, bool tame = false) {
    std::vector<double> val;
    std::string s = "set_joint_angles";
    int alike = g.chance(0.15) ? 1 + int(g.below(4)) : 0;
    size_t only = g.chance(0.15) && !names.empty() ? g.below(names.size()) : size_t(-1); // the others stay as they are
    for (auto &n : names) {
      double a = tame ? g.uni(-3, 3) : gen::angle(g);
      if (only < names.size() && val.size() != only)
        a = double(m.q[n]);
      if (alike && !val.empty() && only == size_t(-1)) // equal, cancelling or swapped values
        switch (alike) {
        case 1: a = val.back(); break;
        case 2: a = val.size() % 2 ? -val.back() : g.range(-8, 8) * 0.25; break;
        case 3: a = g.range(-1, 1) * val[0]; break;
        default: a = double(m.q[names[val.size() - 1]]);
        }
      val.push_back(a);
      m.q[n] = a;
      s += cat(" ", n, "=", a);
    }
    ctx->log(s);
    k->set_joint_angles(jids(names), val);
  }
  void set_one(Rng &g) {
    if (movable.empty())
      return;
    std::string n = g.pick(movable);
    double a = gen::angle(g);
    if (g.chance(0.3)) { // little different from the present one
      double now = double(m.q[n]);
      double d[] = {-now, now, now + 1e-6, now - 1e-4, now + 2 * gen::PI, now - gen::PI, now + g.uni(-0.01, 0.01)};
      a = d[g.below(7)];
    }
    ctx->log(cat("set_joint_angle ", n, "=", a));
    k->set_joint_angle(jids({n})[0], a);
    m.q[n] = a;
  }
  void reset() {
    ctx->log("set_init_angles");
    k->set_init_angles();
    for (auto &kv : m.q)
      kv.second = 0;
  }
  // A base pose that differs from the present one in very little.
  void vary_base(Rng &g) {
    Transform t = base_now;
    double *pos[3] = {&t.position.x, &t.position.y, &t.position.z};
    double *rot[4] = {&t.rotation.x, &t.rotation.y, &t.rotation.z, &t.rotation.w};
    switch (g.below(8)) {
    case 7: { // hardly at all, far out
      int i = int(g.below(3));
      if (std::fabs(*pos[i]) < 10)
        *pos[i] = g.uni(10, 1000);
      else
        *pos[i] *= 1 + g.uni(-5e-8, 5e-8);
      break;
    }
    case 0: *rot[3] *= -1; break; // the inverse rotation
    case 1: *rot[g.below(4)] *= -1; break;
    case 2: *pos[g.below(3)] += g.chance(0.5) ? g.uni(-1e-3, 1e-3) : g.uni(-2, 2); break;
    case 3: *pos[g.below(3)] *= -1; break;
    case 4: std::swap(*rot[g.below(4)], *rot[g.below(4)]); break;
    case 5: std::swap(*pos[g.below(3)], *pos[g.below(3)]); break;
    default: { // a small rotation
      double d = g.chance(0.5) ? 1e-3 : 1e-6;
      for (double *x : rot)
        *x += g.uni(-d, d);
      R n = sqrtl(R(*rot[0]) * *rot[0] + R(*rot[1]) * *rot[1] + R(*rot[2]) * *rot[2] + R(*rot[3]) * *rot[3]);
      for (double *x : rot)
        *x = double(*x / n);
    }
    }
    ref::Pose p = to_ref(t);
    ctx->count("small_base_changes");
    set_base(t, p);
  }
  // Changes the state by so little that only double precision shows it.
  void nudge(Rng &g) {
    ctx->count("nudges");
    if (g.chance(0.4) && !movable.empty()) {
      std::string n = g.pick(movable);
      double a = double(m.q[n]);
      a = std::fabs(a) > 0.5 ? a * (1 + (g.chance(0.5) ? 1 : -1) * g.uni(1e-8, 6e-8)) : a + (g.chance(0.5) ? 1 : -1) * g.uni(1e-8, 1e-7);
      ctx->log(cat("set to almost the same: ", n, "=", a));
      if (g.chance(0.5))
        k->set_joint_angle(jids({n})[0], a);
      else
        k->set_joint_angles(jids({n}), {a});
      m.q[n] = a;
      return;
    }
    Transform t = base_now;
    double *pos[3] = {&t.position.x, &t.position.y, &t.position.z};
    double *rot[4] = {&t.rotation.x, &t.rotation.y, &t.rotation.z, &t.rotation.w};
    if (g.chance(0.7))
      *pos[g.below(3)] *= 1 + (g.chance(0.5) ? 1 : -1) * g.uni(1e-8, 4e-8);
    else {
      for (double *x : rot)
        *x += g.uni(-2e-8, 2e-8);
      R n = sqrtl(R(*rot[0]) * *rot[0] + R(*rot[1]) * *rot[1] + R(*rot[2]) * *rot[2] + R(*rot[3]) * *rot[3]);
      for (double *x : rot)
        *x = double(*x / n);
    }
    set_base(t, to_ref(t));
  }
  void set_base(Rng &g) {
    if (g.chance(0.25))
      return vary_base(g);
    Transform t;
    ref::Pose p;
    if (g.chance(0.1)) {
    } else if (g.chance(0.12)) { // a quaternion with components that are exactly zero (or equal)
      static const double Q[][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0.6, 0.8, 0, 0}, {0, 0.6, -0.8, 0}, {0.8, 0, 0.6, 0}, {0.5, 0.5, 0.5, 0.5}, {0, 0, 0.6, 0.8}, {-0.5, 0.5, 0.5, -0.5}};
      const double *q = Q[g.below(9)];
      double s = g.chance(0.3) ? -1 : 1;
      t.rotation.x = s * q[0], t.rotation.y = s * q[1], t.rotation.z = s * q[2], t.rotation.w = s * q[3];
      if (g.chance(0.5))
        t.position.x = gen::length(g), t.position.y = gen::length(g), t.position.z = gen::length(g);
      p = to_ref(t);
      ctx->count("exact_base_quaternions");
    } else {
      double v[6];
      for (int i = 0; i < 3; ++i)
        v[i] = g.chance(0.3) ? 0 : gen::length(g);
      for (int i = 3; i < 6; ++i)
        v[i] = g.chance(0.25) ? 0 : (g.chance(0.2) ? gen::angle(g) : g.uni(-gen::PI, gen::PI));
      for (int i = 3; i < 6; ++i)
        if (std::fabs(v[i]) > 10)
          v[i] = g.uni(-7, 7);
      t = make_pose(v[0], v[1], v[2], v[3], v[4], v[5]);
      if (g.chance(0.2)) { // the other quaternion of the same rotation
        t.rotation.x *= -1, t.rotation.y *= -1, t.rotation.z *= -1, t.rotation.w *= -1;
      }
      p.p = {v[0], v[1], v[2]};
      p.r = ref::rpy(v[3], v[4], v[5]);
    }
    set_base(t, p);
  }
  void set_base(const Transform &t, const ref::Pose &p) {
    ctx->log("set_base_pose " + show(t));
    k->set_base_pose(t);
    m.base = p;
    base_now = t;
  }
  std::string fresh_link_name(Rng &g) {
    switch (g.below(12)) {
    case 0: // joints have names of their own
    case 1:
      if (!rob->joints.empty() && g.chance(0.7))
        return g.pick(rob->joints).name;
      return g.chance(0.5) ? rob->name : gen::simple_name(g, "link");
    case 2: return gen::fancy_name(g);
    case 3: return g.pick(m.links).name + (g.chance(0.5) ? "2" : g.chance(0.5) ? " " : "_") + std::to_string(g.below(3));
    case 4:
      if (g.chance(0.2))
        return gen::long_name(g, "added");
    default: return cat("added", g.chance(0.5) ? "_" : "", g.below(1000), "#", fresh++);
    }
  }
  std::string add_link(Rng &g) {
    int par = int(g.below(m.links.size()));
    if (g.chance(0.4))
      par = int(m.links.size()) - 1; // make chains
    return add_link(g, par);
  }
  std::string add_link(Rng &g, int par) {
    std::string n;
    do
      n = fresh_link_name(g);
    while (m.by_name.count(n) || gen::ends_with_com(n));
    std::array<double, 3> p, r;
    for (int i = 0; i < 3; ++i) {
      p[i] = gen::length(g);
      r[i] = g.chance(0.4) ? 0 : g.uni(-4, 4);
    }
    ref::Pose off;
    off.p = {p[0], p[1], p[2]};
    off.r = ref::rpy(r[0], r[1], r[2]);
    ctx->log(cat("add_new_link ", n, " on ", m.links[par].name, " xyz ", p[0], " ", p[1], " ", p[2], " rpy ", r[0], " ", r[1], " ", r[2]));
    size_t pid = lid(m.links[par].name);
    if (g.chance(0.5))
      k->add_new_link(n, pid, p, r);
    else
      k->add_new_link(n, pid, make_pose(p[0], p[1], p[2], r[0], r[1], r[2]));
    m.add(n, par, off);
    return n;
  }
  void random_change(Rng &g) {
    switch (g.below(8)) {
    case 0: set_one(g); break;
    case 1: set_base(g); break;
    case 2:
      if (g.chance(0.4)) {
        reset();
        break;
      } // fall through
    case 3: k->clear_cache(); ctx->log("clear_cache"); break;
    default: set_angles(g, random_joints(g, true));
    }
  }
  // --- queries that are only there to disturb
  void random_query(Rng &g) {
    size_t l = lid(m.links[g.below(m.links.size())].name);
    Transform t;
    switch (g.below(5)) {
    case 0:
      k->get_jacobian(l, jids(random_joints(g, true)), RotationType(int(g.below(3))), g.chance(0.5));
      ctx->log("get_jacobian");
      break;
    case 1:
      k->get_com();
      ctx->log("get_com");
      break;
    case 2:
      k->get_com_jacobian(jids(random_joints(g, false)), g.chance(0.5));
      ctx->log("get_com_jacobian");
      break;
    case 3:
      k->get_total_inertia_matrix();
      ctx->log("get_total_inertia_matrix");
      break;
    default:
      k->get_link_pose(l, t);
      ctx->log(cat("get_link_pose of ", l));
    }
  }
  // --- comparisons
  R scale(int i) const { return 1 + ref::norm(m.base.p) + m.reach(i); }
  void check_pose(int i, const char *when, double tol = 1e-9) {
    Transform t;
    // garbage in the output argument must not matter
    t.position.x = 1e9, t.rotation.w = 5;
    k->get_link_pose(lid(m.links[i].name), t);
    check_pose_value(i, t, when, tol);
  }
  void check_pose_value(int i, const Transform &t, const char *when, double tol = 1e-9) {
    ref::Pose e = m.fk(i), a = to_ref(t);
    R n2 = R(t.rotation.x) * t.rotation.x + R(t.rotation.y) * t.rotation.y + R(t.rotation.z) * t.rotation.z + R(t.rotation.w) * t.rotation.w;
    R dp = ref::norm(e.p - a.p), dr = ref::mat_dist(e.r, a.r);
    ctx->count("poses_compared");
    if (!(dp <= ctx->slack * tol * scale(i)) || !(dr <= ctx->slack * tol) || !(fabsl(n2 - 1) < ctx->slack * 1e-8))
      ctx->fail("link-pose", cat(when, ": pose of link ", m.links[i].name, " is ", show(t), ", expected ", show(e)));
  }
  // reference coordinates of link i (position and rotation coordinates)
  std::vector<R> coords(const ref::Pose &p, RotationType rt, const ref::Q *like, const ref::V3 *rpy_like) const {
    std::vector<R> c{p.p.x, p.p.y, p.p.z};
    if (rt == RotationType::RPY) {
      ref::V3 v = ref::to_rpy(p.r);
      c.push_back(rpy_like->x + ref::wrap(v.x - rpy_like->x));
      c.push_back(rpy_like->y + ref::wrap(v.y - rpy_like->y));
      c.push_back(rpy_like->z + ref::wrap(v.z - rpy_like->z));
    } else if (rt == RotationType::XYZW) {
      ref::Q q = ref::to_quat(p.r);
      R s = q.x * like->x + q.y * like->y + q.z * like->z + q.w * like->w < 0 ? -1 : 1;
      c.push_back(s * q.x), c.push_back(s * q.y), c.push_back(s * q.z), c.push_back(s * q.w);
    }
    return c;
  }
  // Checks the Jacobian of link i. Returns false if the rotation coordinates are singular there.
  bool check_jacobian(int i, const std::vector<std::string> &names, RotationType rt, bool base, const char *when) {
    ref::Pose p0 = m.fk(i);
    if (rt == RotationType::RPY && ref::pitch_cos(p0.r) < 0.05)
      return false;
    ref::V3 brpy = ref::to_rpy(m.base.r);
    if (base && ref::pitch_cos(m.base.r) < 0.05)
      return false;
    Transform t;
    size_t id = lid(m.links[i].name);
    Eigen::MatrixXd J;
    if (ctx->case_seed & 1) {
      k->get_link_pose(id, t);
      J = k->get_jacobian(id, jids(names), rt, base);
    } else {
      J = k->get_jacobian(id, jids(names), rt, base);
      k->get_link_pose(id, t);
    }
    size_t dim = rt == RotationType::IGNORE ? 3 : rt == RotationType::RPY ? 6 : 7;
    size_t cols = names.size() + (base ? 6 : 0);
    if (size_t(J.rows()) != dim || size_t(J.cols()) != cols)
      ctx->fail("jacobian-shape", cat(when, ": Jacobian of link ", m.links[i].name, " is ", J.rows(), "x", J.cols(), ", expected ", dim, "x", cols));
    ref::Q like{t.rotation.x, t.rotation.y, t.rotation.z, t.rotation.w};
    ref::V3 rl = ref::to_rpy(p0.r);
    R amp = rt == RotationType::RPY ? 1 / ref::pitch_cos(p0.r) : 1;
    for (size_t c = 0; c < cols; ++c) {
      std::vector<R> d;
      std::string what;
      if (c < names.size()) {
        what = "joint " + names[c];
        if (!m.on_path(i, names[c]))
          d.assign(dim, 0);
        else {
          R q0 = m.q[names[c]];
          d = ref::derivative(
              [&](R h) {
                m.q[names[c]] = q0 + h;
                return coords(m.fk(i), rt, &like, &rl);
              },
              1e-4L);
          m.q[names[c]] = q0;
        }
        ctx->count("joint_columns_compared");
      } else {
        int b = int(c - names.size());
        what = cat("base coordinate ", b);
        d = ref::derivative(
            [&](R h) {
              R v[6] = {m.base.p.x, m.base.p.y, m.base.p.z, brpy.x, brpy.y, brpy.z};
              v[b] += h;
              ref::Pose bp{ref::rpy(v[3], v[4], v[5]), {v[0], v[1], v[2]}};
              return coords(m.fk_from(i, bp), rt, &like, &rl);
            },
            1e-4L);
        ctx->count("base_columns_compared");
      }
      for (size_t r = 0; r < dim; ++r) {
        R tol = ctx->slack * 1e-9L * (r < 3 ? scale(i) : amp * amp * amp);
        if (!(fabsl(d[r] - J(long(r), long(c))) <= tol))
          ctx->fail(c < names.size() ? "jacobian-joint-column" : "jacobian-base-column",
                    cat(when, ": Jacobian of link ", m.links[i].name, " (rotation type ", int(rt), ") row ", r, " for ", what, " is ",
                        J(long(r), long(c)), ", expected ", double(d[r])));
      }
      if (c < names.size() && !m.on_path(i, names[c])) {
        ctx->count("zero_columns_checked");
        for (size_t r = 0; r < dim; ++r)
          if (J(long(r), long(c)) != 0)
            ctx->fail("jacobian-zero-column", cat(when, ": Jacobian of link ", m.links[i].name, " is not zero for joint ", names[c], " that does not move it"));
      }
    }
    return true;
  }
  void check_com(const char *when) {
    tinyfk::Vector3 c = k->get_com();
    ref::V3 e = m.com();
    ctx->count("com_compared");
    if (!(ref::norm(e - ref::V3{c.x, c.y, c.z}) <= ctx->slack * 1e-9L * (1 + m.com_scale())))
      ctx->fail("com", cat(when, ": center of mass is ", c.x, " ", c.y, " ", c.z, ", expected ", double(e.x), " ", double(e.y), " ", double(e.z)));
  }
  bool check_com_jacobian(const std::vector<std::string> &names, bool base, const char *when) {
    if (base && ref::pitch_cos(m.base.r) < 0.05)
      return false;
    Eigen::MatrixXd J = k->get_com_jacobian(jids(names), base);
    size_t cols = names.size() + (base ? 6 : 0);
    if (size_t(J.rows()) != 3 || size_t(J.cols()) != cols)
      ctx->fail("com-jacobian-shape", cat(when, ": COM Jacobian is ", J.rows(), "x", J.cols(), ", expected 3x", cols));
    ref::V3 brpy = ref::to_rpy(m.base.r);
    auto vec = [&]() {
      ref::V3 c = m.com();
      return std::vector<R>{c.x, c.y, c.z};
    };
    ref::Pose b0 = m.base;
    for (size_t c = 0; c < cols; ++c) {
      std::vector<R> d;
      if (c < names.size()) {
        R q0 = m.q[names[c]];
        d = ref::derivative(
            [&](R h) {
              m.q[names[c]] = q0 + h;
              return vec();
            },
            1e-4L);
        m.q[names[c]] = q0;
      } else {
        int b = int(c - names.size());
        d = ref::derivative(
            [&](R h) {
              R v[6] = {b0.p.x, b0.p.y, b0.p.z, brpy.x, brpy.y, brpy.z};
              v[b] += h;
              m.base = ref::Pose{ref::rpy(v[3], v[4], v[5]), {v[0], v[1], v[2]}};
              return vec();
            },
            1e-4L);
        m.base = b0;
      }
      ctx->count("com_columns_compared");
      for (size_t r = 0; r < 3; ++r)
        if (!(fabsl(d[r] - J(long(r), long(c))) <= ctx->slack * 1e-8L * (1 + m.com_scale())))
          ctx->fail("com-jacobian", cat(when, ": COM Jacobian row ", r, " column ", c, " of ", cols, " is ", J(long(r), long(c)), ", expected ", double(d[r])));
    }
    return true;
  }
  void check_inertia(const char *when) {
    Eigen::Matrix3d I = k->get_total_inertia_matrix();
    ref::M3 e = m.inertia();
    R s = 1 + m.com_scale(), big = 0;
    for (auto &row : e.a)
      for (R v : row)
        big = std::max(big, fabsl(v));
    ctx->count("inertia_compared");
    for (int r = 0; r < 3; ++r)
      for (int c = 0; c < 3; ++c)
        if (!(fabsl(e.a[r][c] - I(r, c)) <= ctx->slack * 1e-9L * (big + m.mass() * s * s * 1e-3L)))
          ctx->fail("inertia", cat(when, ": total inertia (", r, ",", c, ") is ", I(r, c), ", expected ", double(e.a[r][c])));
  }
};

inline uint64_t robot_hash(const std::string &text) { return vh::hash_str(text); }
} // namespace sut
