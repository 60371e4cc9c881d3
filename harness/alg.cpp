// K12 (rigid motion algebra), K13 (joint motion).
#include "sut.hpp"
using namespace sut;
using urdf::Pose;
using urdf::Rotation;
using urdf::Vector3;

static ref::Q rand_quat(Rng &g) {
  if (g.chance(0.15)) { // simple ones
    static const double s = 0.70710678118654752440;
    static const double t[][4] = {{0, 0, 0, 1}, {1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {s, 0, 0, s}, {0, s, 0, s}, {0, 0, s, s}, {0, -s, 0, s}, {.5, .5, .5, .5}, {.5, -.5, .5, -.5}};
    auto &q = t[g.below(10)];
    return {q[0], q[1], q[2], q[3]};
  }
  for (;;) {
    R x = g.normal(), y = g.normal(), z = g.normal(), w = g.normal();
    if (g.chance(0.1))
      w = g.uni(-1e-5, 1e-5);
    if (g.chance(0.1))
      x = y = 0;
    R n = sqrtl(x * x + y * y + z * z + w * w);
    if (n > 1e-3)
      return {x / n, y / n, z / n, w / n};
  }
}
static Rotation rot_of(ref::Q q) { return Rotation(double(q.x), double(q.y), double(q.z), double(q.w)); }
static Pose rand_pose(Rng &g) {
  Pose p;
  p.position = Vector3(gen::length(g), gen::length(g), gen::length(g));
  p.rotation = rot_of(rand_quat(g));
  return p;
}
static ref::V3 rv(const Vector3 &v) { return {v.x, v.y, v.z}; }
static ref::M3 rm(const Rotation &q) { return ref::from_quat(q.x, q.y, q.z, q.w); }
static std::string sq(const Rotation &q) { return cat("(", q.x, " ", q.y, " ", q.z, " ", q.w, ")"); }
static R qn(const Rotation &q) { return sqrtl(R(q.x) * q.x + R(q.y) * q.y + R(q.z) * q.z + R(q.w) * q.w); }

static void same_pose(Ctx &c, const Pose &a, const ref::Pose &e, R scale, const char *key, const std::string &msg) {
  ref::Pose r = to_ref(a);
  c.count("poses_compared");
  ++c.evaluations;
  c.check(ref::norm(r.p - e.p) <= 1e-11L * scale && ref::mat_dist(r.r, e.r) <= 1e-11L && fabsl(qn(a.rotation) - 1) < 1e-11L, key,
          msg + ": got " + show(a) + ", expected " + show(e));
}

static void k12(Ctx &c) {
  Rng g(c.case_seed);
  for (int round = 0; round < 20; ++round) {
    Pose a = rand_pose(g), b = rand_pose(g), d = rand_pose(g);
    ref::Pose ra = to_ref(a), rb = to_ref(b), rd = to_ref(d);
    R sc = 10 + 4 * (ref::norm(ra.p) + ref::norm(rb.p) + ref::norm(rd.p));
    c.nontrivial(vh::hash_str(show(a) + show(b)));
    std::string who = "a = " + show(a) + ", b = " + show(b);
    if (round == 0)
      c.sample(who);
    // composition, associativity
    Pose ab = urdf::pose_transform(a, b);
    same_pose(c, ab, ref::mul(ra, rb), sc, "compose", who);
    same_pose(c, urdf::pose_transform(ab, d), ref::mul(ra, ref::mul(rb, rd)), sc, "associative", who);
    same_pose(c, urdf::pose_transform(a, urdf::pose_transform(b, d)), ref::mul(ref::mul(ra, rb), rd), sc, "associative", who);
    // on points
    Vector3 v(gen::length(g), gen::length(g), gen::length(g));
    auto apply = [](const Pose &p, const Vector3 &x) { return p.rotation * x + p.position; };
    ref::V3 two = rv(apply(a, apply(b, v))), one = rv(apply(ab, v));
    c.check(ref::norm(two - one) <= 1e-11L * (sc + ref::norm(rv(v))), "apply", who + ": composition disagrees with applying the motions in turn");
    // inverse, both forms, both sides
    Pose inv = a.inverse(), inv2 = a;
    inv2.inverse_inplace();
    ref::Pose id;
    same_pose(c, inv, ref::inv(ra), sc, "inverse", who);
    same_pose(c, inv2, ref::inv(ra), sc, "inverse-inplace", who);
    same_pose(c, urdf::pose_transform(a, inv), id, sc, "inverse-right", who);
    same_pose(c, urdf::pose_transform(inv, a), id, sc, "inverse-left", who);
    same_pose(c, urdf::pose_transform(a, inv2), id, sc, "inverse-right", who);
    same_pose(c, urdf::pose_transform(inv2, a), id, sc, "inverse-left", who);
    // rotations
    Rotation q = a.rotation;
    ref::M3 m = rm(q);
    Vector3 w = q * v;
    c.check(fabsl(ref::norm(rv(w)) - ref::norm(rv(v))) <= 1e-12L * (1 + ref::norm(rv(v))), "length", who + ": rotating a vector changed its length");
    c.check(ref::norm(rv(w) - ref::mul(m, rv(v))) <= 1e-12L * (1 + ref::norm(rv(v))), "rotate-vector", who + cat(": rotating ", v.x, " ", v.y, " ", v.z, " gives ", w.x, " ", w.y, " ", w.z));
    Rotation qq = q * b.rotation;
    c.check(ref::mat_dist(rm(qq), ref::mul(m, rm(b.rotation))) <= 1e-12L, "rotation-product", who + ": product of rotations");
    Rotation i1 = q.inverse(), i2 = q.GetInverse(), i3 = q;
    i3.inverse_inplace();
    for (const Rotation &i : {i1, i2, i3}) {
      c.check(ref::mat_dist(rm(i), ref::transpose(m)) <= 1e-12L && fabsl(qn(i) - 1) < 1e-12L, "rotation-inverse", who + ": inverse rotation is " + sq(i));
      c.count("inverses_compared");
    }
    { // of rotations stated by quaternions of any size
      double k = (g.chance(0.5) ? 1 : -1) * (g.chance(0.3) ? g.uni(0.1, 10) : std::pow(10.0, g.uni(-70, 70)));
      Rotation big(q.x * k, q.y * k, q.z * k, q.w * k);
      Rotation j1 = big.inverse(), j2 = big.GetInverse(), j3 = big;
      j3.inverse_inplace();
      for (const Rotation &i : {j1, j2, j3}) {
        // the product with it is the identity
        R x = R(big.w) * i.x + R(big.x) * i.w + R(big.y) * i.z - R(big.z) * i.y, y = R(big.w) * i.y - R(big.x) * i.z + R(big.y) * i.w + R(big.z) * i.x;
        R z = R(big.w) * i.z + R(big.x) * i.y - R(big.y) * i.x + R(big.z) * i.w, w1 = R(big.w) * i.w - R(big.x) * i.x - R(big.y) * i.y - R(big.z) * i.z;
        c.check(fabsl(x) + fabsl(y) + fabsl(z) <= 1e-12L && fabsl(w1 - 1) <= 1e-12L, "quaternion-inverse", "inverse of the quaternion " + sq(big) + " is " + sq(i));
        c.count("inverses_compared");
      }
    }
    { // poses whose rotation is stated by such a quaternion: a translated inverse still undoes them
      double k = (g.chance(0.5) ? 1 : -1) * g.uni(0.1, 10);
      Pose b1 = a;
      b1.rotation = Rotation(q.x * k, q.y * k, q.z * k, q.w * k);
      Pose u1 = b1.inverse(), u2 = b1;
      u2.inverse_inplace();
      same_pose(c, urdf::pose_transform(b1, u1), id, sc, "inverse-right", "unnormalised " + show(b1));
      same_pose(c, urdf::pose_transform(u1, b1), id, sc, "inverse-left", "unnormalised " + show(b1));
      same_pose(c, urdf::pose_transform(b1, u2), id, sc, "inverse-right", "unnormalised " + show(b1));
      same_pose(c, urdf::pose_transform(u2, b1), id, sc, "inverse-left", "unnormalised " + show(b1));
      c.count("unnormalised_poses");
    }
    // roll, pitch, yaw
    double r3[3];
    for (double &x : r3)
      x = gen::angle(g);
    int special = int(g.below(6));
    if (special == 0)
      r3[1] = (g.chance(0.5) ? 1 : -1) * (gen::PI / 2 + g.uni(-0.02, 0.02) * std::pow(10.0, g.range(-8, 0)));
    if (special == 1)
      r3[1] = (g.chance(0.5) ? 1 : -1) * gen::PI / 2;
    Rotation s;
    s.x = 7, s.y = 7, s.z = 7, s.w = 7;
    s.setFromRPY(r3[0], r3[1], r3[2]);
    std::string rs = cat("rpy ", r3[0], " ", r3[1], " ", r3[2]);
    ref::M3 rm3 = ref::rpy(r3[0], r3[1], r3[2]);
    c.check(ref::mat_dist(rm(s), rm3) <= 1e-11L && fabsl(qn(s) - 1) < 1e-12L, "from-rpy", rs + " gives " + sq(s));
    for (const Rotation &t : {s, q, Rotation(-s.x, -s.y, -s.z, -s.w)}) {
      ref::M3 tm = rm(t);
      Vector3 e = t.getRPY();
      double x, y, z;
      t.getRPY(x, y, z);
      c.check(x == e.x && y == e.y && z == e.z, "rpy-forms", sq(t) + ": the two forms of getRPY disagree");
      R cp = ref::pitch_cos(tm);
      R tol = cp < 0.01 ? 1e-6L : 1e-9L / (cp * cp);
      c.check(ref::mat_dist(ref::rpy(e.x, e.y, e.z), tm) <= tol, "to-rpy", sq(t) + cat(" gives rpy ", e.x, " ", e.y, " ", e.z));
      Rotation back;
      back.setFromRPY(e.x, e.y, e.z);
      c.check(ref::mat_dist(rm(back), tm) <= tol, "rpy-round-trip", sq(t) + " becomes " + sq(back));
      const double pi = gen::PI + 1e-12;
      c.check(std::fabs(e.y) <= pi / 2 && (cp < 0.01 || (std::fabs(e.x) <= pi && std::fabs(e.z) <= pi)), "rpy-range", sq(t) + cat(" gives rpy ", e.x, " ", e.y, " ", e.z));
      c.count(cp < 0.01 ? "rpy_near_singular" : "rpy_regular");
      ++c.evaluations;
    }
    // from quaternions of any size
    ref::Q u = rand_quat(g);
    double k = std::pow(10.0, g.uni(-100, 100)) * (g.chance(0.5) ? 1 : -1);
    if (g.chance(0.5))
      k = g.uni(0.1, 10);
    Rotation n;
    n.setFromQuaternion(double(u.x) * k, double(u.y) * k, double(u.z) * k, double(u.w) * k);
    R sg = k < 0 ? -1 : 1;
    c.check(fabsl(n.x - sg * u.x) + fabsl(n.y - sg * u.y) + fabsl(n.z - sg * u.z) + fabsl(n.w - sg * u.w) <= 1e-13L, "normalise", cat("quaternion scaled by ", k, " becomes ", sq(n)));
    double gx, gy, gz, gw;
    n.getQuaternion(gx, gy, gz, gw);
    c.check(gx == n.x && gy == n.y && gz == n.z && gw == n.w, "get-quaternion", "getQuaternion disagrees with the rotation");
    // vectors
    Vector3 p1 = a.position, p2 = b.position, cr, sum = p1 + p2, dif = p1 - p2, quo = p1 / 4.0;
    urdf::cross_product(p1, p2, cr);
    ref::V3 x1 = rv(p1), x2 = rv(p2);
    ref::V3 ec{x1.y * x2.z - x1.z * x2.y, x1.z * x2.x - x1.x * x2.z, x1.x * x2.y - x1.y * x2.x};
    c.check(ref::norm(rv(cr) - ec) <= 1e-14L * (1 + ref::norm(x1) * ref::norm(x2)), "cross", "cross product");
    c.check(ref::norm(rv(sum) - (x1 + x2)) <= 1e-14L * sc && ref::norm(rv(dif) - (x1 - x2)) <= 1e-14L * sc && ref::norm(rv(quo) - 0.25L * x1) <= 1e-14L * sc, "vector-ops", "sum, difference or quotient");
  }
}

// ------------------------------------------------------------------ K13: what a joint does
static void k13(Ctx &c) {
  Rng g(c.case_seed);
  for (int round = 0; round < 20; ++round) {
    urdf::Joint j;
    ref::V3 ax{};
    for (;;) { // a unit axis
      ax = {g.normal(), g.normal(), g.normal()};
      if (g.chance(0.3))
        ax = {R(g.range(-1, 1)), R(g.range(-1, 1)), R(g.range(-1, 1))};
      R n = ref::norm(ax);
      if (n > 1e-3) {
        ax = (1 / n) * ax;
        break;
      }
    }
    j.axis = Vector3(double(ax.x), double(ax.y), double(ax.z));
    ax = rv(j.axis);
    j.parent_to_joint_origin_transform = rand_pose(g); // no part of its motion
    auto type = g.pick(std::vector<decltype(j.type)>{urdf::Joint::REVOLUTE, urdf::Joint::CONTINUOUS, urdf::Joint::PRISMATIC, urdf::Joint::FIXED, urdf::Joint::PLANAR, urdf::Joint::FLOATING, urdf::Joint::UNKNOWN});
    j.type = type;
    // nothing else in a joint has to do with its motion
    auto some = [&](double &x) { if (g.chance(0.8)) x = g.chance(0.1) ? std::numeric_limits<double>::quiet_NaN() : g.uni(-3, 3); };
    if (g.chance(0.5)) {
      j.limits.reset(new urdf::JointLimits());
      some(j.limits->lower), some(j.limits->upper), some(j.limits->effort), some(j.limits->velocity);
    }
    if (g.chance(0.3)) {
      j.mimic.reset(new urdf::JointMimic());
      some(j.mimic->multiplier), some(j.mimic->offset);
      j.mimic->joint_name = g.chance(0.5) ? "other" : "joint";
    }
    if (g.chance(0.3)) {
      j.dynamics.reset(new urdf::JointDynamics());
      some(j.dynamics->damping), some(j.dynamics->friction);
    }
    if (g.chance(0.3)) {
      j.safety.reset(new urdf::JointSafety());
      some(j.safety->soft_lower_limit), some(j.safety->soft_upper_limit), some(j.safety->k_position), some(j.safety->k_velocity);
    }
    if (g.chance(0.3)) {
      j.calibration.reset(new urdf::JointCalibration());
      some(j.calibration->reference_position);
      if (g.chance(0.5))
        j.calibration->rising.reset(new double(g.uni(-1, 1)));
      if (g.chance(0.5))
        j.calibration->falling.reset(new double(g.uni(-1, 1)));
    }
    if (g.chance(0.5))
      j.name = "joint", j.parent_link_name = "a", j.child_link_name = g.chance(0.2) ? "a" : "b";
    if (g.chance(0.5))
      j.id = (unsigned int)g.below(100000);
    double a = gen::angle(g), b = gen::angle(g);
    if (g.chance(0.1))
      a = g.chance(0.5) ? 0.0 : gen::PI * g.range(-4, 4);
    if (g.chance(0.1)) // far away
      a = (g.chance(0.5) ? 1 : -1) * std::pow(10.0, g.uni(0, 8));
    if (g.chance(0.05))
      b = (g.chance(0.5) ? 1 : -1) * std::pow(10.0, g.uni(0, 8));
    std::string who = cat("joint of type ", int(type), " axis ", j.axis.x, " ", j.axis.y, " ", j.axis.z, " angle ", a);
    c.nontrivial(vh::hash_str(who));
    if (round == 0)
      c.sample(who);
    ++c.evaluations;
    if (type == urdf::Joint::PLANAR || type == urdf::Joint::FLOATING || type == urdf::Joint::UNKNOWN) {
      bool threw = false;
      try {
        j.transform(a);
      } catch (const std::exception &) {
        threw = true;
      }
      c.check(threw, "unsupported-joint", who + ": a motion is made up for it");
      c.count("unsupported_rejected");
      continue;
    }
    R sc = 1 + fabsl(R(a)) + fabsl(R(b));
    auto motion = [&](R x) {
      ref::Pose e;
      if (type == urdf::Joint::REVOLUTE || type == urdf::Joint::CONTINUOUS) {
        R h = R(x) / 2, sn = sinl(h);
        e.r = ref::from_quat(sn * ax.x, sn * ax.y, sn * ax.z, cosl(h));
      } else if (type == urdf::Joint::PRISMATIC)
        e.p = R(x) * ax;
      return e;
    };
    same_pose(c, j.transform(a), motion(a), sc, "joint-motion", who);
    same_pose(c, urdf::pose_transform(j.transform(a), j.transform(b)), motion(R(a) + R(b)), 100 * sc, "joint-motion-sum", who + cat(" and ", b));
    same_pose(c, urdf::pose_transform(j.transform(a), j.transform(-a)), ref::Pose(), sc, "joint-motion-back", who);
    same_pose(c, j.transform(0.0), ref::Pose(), 1, "joint-motion-zero", who);
    if (type == urdf::Joint::REVOLUTE || type == urdf::Joint::CONTINUOUS) {
      // the derivative of the quaternion
      Rotation d = j.joint_quaternion_derivative(a), q = j.transform(a).rotation;
      R h = R(a) / 2, k = cosl(h) / 2;
      Rotation e(double(k * ax.x), double(k * ax.y), double(k * ax.z), double(-sinl(h) / 2));
      c.check(fabsl(R(d.x) - e.x) + fabsl(R(d.y) - e.y) + fabsl(R(d.z) - e.z) + fabsl(R(d.w) - e.w) <= 1e-13L * sc, "quaternion-derivative", who + ": " + sq(d) + " expected " + sq(e));
      // it is tangent: the quaternion keeps its length
      c.check(fabsl(R(d.x) * q.x + R(d.y) * q.y + R(d.z) * q.z + R(d.w) * q.w) <= 1e-13L * sc, "quaternion-derivative", who + ": not tangent");
      c.count("derivatives_compared");
    }
    c.count(type == urdf::Joint::PRISMATIC ? "prismatic" : type == urdf::Joint::FIXED ? "fixed" : "rotary");
  }
}

static vh::Register a12("K12", k12, "random and special poses, rotations (quaternions of either sign, near and at the pitch singularity, roll-pitch-yaw up to 1000 rad), vectors and scaled quaternions; every result compared with rotation matrices in long double; one evaluation is one pose compared or one RPY conversion");
static vh::Register a13("K13", k13, "joints of all types with random unit axes and positions; their motion, sums and inverses of motions and the quaternion derivative compared with long double; one evaluation is one pose compared");
