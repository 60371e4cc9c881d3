// Reference model of a robot: plain rotation matrices in long double, written
// from the URDF specification. Shares nothing with the code under test.
#pragma once
#include "vh.hpp"
#include <algorithm>
#include <array>

namespace ref {
typedef long double R;
struct V3 {
  R x = 0, y = 0, z = 0;
};
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(R s, V3 a) { return {s * a.x, s * a.y, s * a.z}; }
inline R dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline R norm(V3 a) { return sqrtl(dot(a, a)); }

struct M3 {
  R a[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
};
inline M3 mul(const M3 &p, const M3 &q) {
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      r.a[i][j] = 0;
      for (int k = 0; k < 3; ++k)
        r.a[i][j] += p.a[i][k] * q.a[k][j];
    }
  return r;
}
inline V3 mul(const M3 &m, V3 v) {
  return {m.a[0][0] * v.x + m.a[0][1] * v.y + m.a[0][2] * v.z, m.a[1][0] * v.x + m.a[1][1] * v.y + m.a[1][2] * v.z,
          m.a[2][0] * v.x + m.a[2][1] * v.y + m.a[2][2] * v.z};
}
inline M3 transpose(const M3 &m) {
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      r.a[i][j] = m.a[j][i];
  return r;
}
inline M3 zero3() {
  M3 m;
  for (auto &row : m.a)
    for (R &v : row)
      v = 0;
  return m;
}
inline M3 rotx(R t) {
  M3 m;
  m.a[1][1] = cosl(t), m.a[1][2] = -sinl(t), m.a[2][1] = sinl(t), m.a[2][2] = cosl(t);
  return m;
}
inline M3 roty(R t) {
  M3 m;
  m.a[0][0] = cosl(t), m.a[0][2] = sinl(t), m.a[2][0] = -sinl(t), m.a[2][2] = cosl(t);
  return m;
}
inline M3 rotz(R t) {
  M3 m;
  m.a[0][0] = cosl(t), m.a[0][1] = -sinl(t), m.a[1][0] = sinl(t), m.a[1][1] = cosl(t);
  return m;
}
// roll about x, then pitch about y, then yaw about z, of the fixed frame
inline M3 rpy(R r, R p, R y) { return mul(rotz(y), mul(roty(p), rotx(r))); }
// Rodrigues
inline M3 axis_angle(V3 u, R t) {
  R n = norm(u);
  u = (1 / n) * u;
  R c = cosl(t), s = sinl(t), k = 1 - c;
  M3 m;
  m.a[0][0] = c + u.x * u.x * k, m.a[0][1] = u.x * u.y * k - u.z * s, m.a[0][2] = u.x * u.z * k + u.y * s;
  m.a[1][0] = u.y * u.x * k + u.z * s, m.a[1][1] = c + u.y * u.y * k, m.a[1][2] = u.y * u.z * k - u.x * s;
  m.a[2][0] = u.z * u.x * k - u.y * s, m.a[2][1] = u.z * u.y * k + u.x * s, m.a[2][2] = c + u.z * u.z * k;
  return m;
}
// columns are the images of the axes: v -> q v q*
inline M3 from_quat(R x, R y, R z, R w) {
  R n = sqrtl(x * x + y * y + z * z + w * w);
  x /= n, y /= n, z /= n, w /= n;
  M3 m;
  m.a[0][0] = w * w + x * x - y * y - z * z, m.a[0][1] = 2 * (x * y - w * z), m.a[0][2] = 2 * (x * z + w * y);
  m.a[1][0] = 2 * (x * y + w * z), m.a[1][1] = w * w - x * x + y * y - z * z, m.a[1][2] = 2 * (y * z - w * x);
  m.a[2][0] = 2 * (x * z - w * y), m.a[2][1] = 2 * (y * z + w * x), m.a[2][2] = w * w - x * x - y * y + z * z;
  return m;
}
struct Q {
  R x, y, z, w;
};
// unit quaternion of a rotation matrix, of either sign
inline Q to_quat(const M3 &m) {
  R t[4] = {1 + m.a[0][0] - m.a[1][1] - m.a[2][2], 1 - m.a[0][0] + m.a[1][1] - m.a[2][2],
            1 - m.a[0][0] - m.a[1][1] + m.a[2][2], 1 + m.a[0][0] + m.a[1][1] + m.a[2][2]};
  int b = int(std::max_element(t, t + 4) - t);
  R s = sqrtl(t[b]) * 2;
  Q q;
  if (b == 3)
    q = {(m.a[2][1] - m.a[1][2]) / s, (m.a[0][2] - m.a[2][0]) / s, (m.a[1][0] - m.a[0][1]) / s, s / 4};
  else if (b == 0)
    q = {s / 4, (m.a[0][1] + m.a[1][0]) / s, (m.a[0][2] + m.a[2][0]) / s, (m.a[2][1] - m.a[1][2]) / s};
  else if (b == 1)
    q = {(m.a[0][1] + m.a[1][0]) / s, s / 4, (m.a[1][2] + m.a[2][1]) / s, (m.a[0][2] - m.a[2][0]) / s};
  else
    q = {(m.a[0][2] + m.a[2][0]) / s, (m.a[1][2] + m.a[2][1]) / s, s / 4, (m.a[1][0] - m.a[0][1]) / s};
  return q;
}
inline R pitch_cos(const M3 &m) { return hypotl(m.a[0][0], m.a[1][0]); }
inline V3 to_rpy(const M3 &m) { return {atan2l(m.a[2][1], m.a[2][2]), atan2l(-m.a[2][0], pitch_cos(m)), atan2l(m.a[1][0], m.a[0][0])}; }
inline R mat_dist(const M3 &p, const M3 &q) {
  R d = 0;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      d = std::max(d, fabsl(p.a[i][j] - q.a[i][j]));
  return d;
}
inline R wrap(R a) { return remainderl(a, 2 * acosl(-1.0L)); }

struct Pose {
  M3 r;
  V3 p;
};
inline Pose mul(const Pose &a, const Pose &b) { return {mul(a.r, b.r), mul(a.r, b.p) + a.p}; }
inline Pose inv(const Pose &a) {
  M3 t = transpose(a.r);
  return {t, R(-1) * mul(t, a.p)};
}
// the numbers of an <origin> element
struct Origin {
  std::array<double, 3> xyz{{0, 0, 0}}, rpy{{0, 0, 0}};
  bool has_xyz = true, has_rpy = true, present = true;
  Pose pose() const {
    Pose q;
    if (present && has_xyz)
      q.p = {xyz[0], xyz[1], xyz[2]};
    if (present && has_rpy)
      q.r = ref::rpy(rpy[0], rpy[1], rpy[2]);
    return q;
  }
};

enum JType { REVOLUTE, CONTINUOUS, PRISMATIC, FIXED, PLANAR, FLOATING };
inline const char *type_name(JType t) {
  static const char *n[] = {"revolute", "continuous", "prismatic", "fixed", "planar", "floating"};
  return n[t];
}
struct Opt { // optional number
  bool has = false;
  double v = 0;
};
struct Geometry {
  int kind = 0; // sphere box cylinder mesh
  std::array<double, 3> dim{{0, 0, 0}};
  double radius = 0, length = 0;
  std::string file;
  bool has_scale = false;
  std::array<double, 3> scale{{1, 1, 1}};
};
struct Material {
  std::string name;
  bool has_color = false;
  std::array<double, 4> rgba{{0, 0, 0, 1}};
  bool has_alpha = true;
  bool has_texture = false;
  std::string texture;
};
struct Shape {
  std::string name;
  bool has_name = false;
  Origin origin;
  Geometry geo;
  bool has_material = false;
  Material mat; // name always set when has_material
};
struct Inertial {
  Origin origin;
  double mass = 0;
  double i[6] = {0, 0, 0, 0, 0, 0}; // xx xy xz yy yz zz
};
struct Joint {
  std::string name, parent, child;
  JType type = FIXED;
  Origin origin;
  bool has_axis = false;
  std::array<double, 3> axis{{1, 0, 0}};
  bool has_limit = false;
  Opt lower, upper;
  double effort = 0, velocity = 0;
  bool has_dynamics = false;
  Opt damping, friction;
  bool has_safety = false;
  Opt soft_lower, soft_upper, k_position;
  double k_velocity = 0;
  bool has_calibration = false;
  Opt rising, falling;
  bool has_mimic = false;
  std::string mimic_joint;
  Opt multiplier, offset;
  bool movable() const { return type == REVOLUTE || type == CONTINUOUS || type == PRISMATIC; }
};
struct Link {
  std::string name;
  bool has_inertial = false;
  Inertial inertial;
  std::vector<Shape> visuals, collisions;
};
struct Robot {
  std::string name;
  std::vector<Material> materials;
  std::vector<Link> links;   // links[0] is the root
  std::vector<Joint> joints; // joints[i] has child links[i + 1]
};

// The kinematic state of a robot with links added at run time.
struct Model {
  const Robot *rob;
  struct L {
    std::string name;
    int parent;        // index into links, -1 for the root
    int joint;         // index into rob->joints, or -1
    Pose offset;       // joint origin, or offset of an added link
    int com_of = -1;   // link whose mass center this is
  };
  std::vector<L> links;            // by reference index
  std::map<std::string, int> by_name;
  std::map<std::string, R> q; // by joint name
  Pose base;

  explicit Model(const Robot &r) : rob(&r) {
    for (auto &l : r.links) {
      by_name[l.name] = int(links.size());
      links.push_back({l.name, -1, -1, Pose(), -1});
    }
    for (size_t j = 0; j < r.joints.size(); ++j) {
      L &c = links[by_name.at(r.joints[j].child)];
      c.parent = by_name.at(r.joints[j].parent);
      c.joint = int(j);
      c.offset = r.joints[j].origin.pose();
      if (r.joints[j].movable())
        q[r.joints[j].name] = 0;
    }
    for (size_t i = 0; i < r.links.size(); ++i)
      if (r.links[i].has_inertial) {
        add(r.links[i].name + "_com", int(i), r.links[i].inertial.origin.pose());
        links.back().com_of = int(i);
      }
  }
  int add(const std::string &name, int parent, const Pose &off) {
    by_name[name] = int(links.size());
    links.push_back({name, parent, -1, off, -1});
    return int(links.size()) - 1;
  }
  Pose fk(int i) const { return fk_from(i, base); }
  Pose fk_from(int i, const Pose &b) const {
    Pose acc; // of link i relative to the link reached so far
    while (links[i].parent >= 0) {
      Pose t = links[i].offset;
      if (links[i].joint >= 0) {
        const Joint &j = rob->joints[links[i].joint];
        Pose m;
        V3 a{j.has_axis ? j.axis[0] : 1.0, j.has_axis ? j.axis[1] : 0.0, j.has_axis ? j.axis[2] : 0.0};
        if (j.type == REVOLUTE || j.type == CONTINUOUS)
          m.r = axis_angle(a, q.at(j.name));
        else if (j.type == PRISMATIC)
          m.p = q.at(j.name) * a;
        t = mul(t, m);
      }
      acc = mul(t, acc);
      i = links[i].parent;
    }
    return mul(b, acc);
  }
  // upper bound of the distance of link i from the base
  R reach(int i) const {
    R s = 0;
    while (links[i].parent >= 0) {
      s += norm(links[i].offset.p);
      if (links[i].joint >= 0 && rob->joints[links[i].joint].type == PRISMATIC) {
        const Joint &j = rob->joints[links[i].joint];
        R n = j.has_axis ? norm(V3{j.axis[0], j.axis[1], j.axis[2]}) : 1;
        s += fabsl(q.at(j.name)) * (n > 1 ? n : 1);
      }
      i = links[i].parent;
    }
    return s;
  }
  bool on_path(int i, const std::string &jname) const {
    while (links[i].parent >= 0) {
      if (links[i].joint >= 0 && rob->joints[links[i].joint].name == jname)
        return true;
      i = links[i].parent;
    }
    return false;
  }
  double mass() const {
    R m = 0;
    for (auto &l : rob->links)
      if (l.has_inertial)
        m += l.inertial.mass;
    return double(m);
  }
  V3 com() const {
    V3 c;
    R m = 0;
    for (size_t i = 0; i < rob->links.size(); ++i)
      if (rob->links[i].has_inertial) {
        Pose t = mul(fk(int(i)), rob->links[i].inertial.origin.pose());
        c = c + R(rob->links[i].inertial.mass) * t.p;
        m += rob->links[i].inertial.mass;
      }
    return (1 / m) * c;
  }
  R com_scale() const {
    R s = norm(base.p);
    R m = 0;
    for (size_t i = 0; i < links.size(); ++i)
      if (links[i].com_of >= 0)
        m = std::max(m, reach(int(i)));
    return s + m;
  }
  M3 inertia() const {
    V3 c = com();
    M3 tot = zero3();
    for (size_t i = 0; i < rob->links.size(); ++i)
      if (rob->links[i].has_inertial) {
        const Inertial &n = rob->links[i].inertial;
        Pose t = mul(fk(int(i)), n.origin.pose());
        M3 I;
        I.a[0][0] = n.i[0], I.a[0][1] = I.a[1][0] = n.i[1], I.a[0][2] = I.a[2][0] = n.i[2];
        I.a[1][1] = n.i[3], I.a[1][2] = I.a[2][1] = n.i[4], I.a[2][2] = n.i[5];
        M3 w = mul(t.r, mul(I, transpose(t.r)));
        V3 d = t.p - c;
        R dd = dot(d, d);
        R dv[3] = {d.x, d.y, d.z};
        for (int a = 0; a < 3; ++a)
          for (int b = 0; b < 3; ++b)
            tot.a[a][b] += w.a[a][b] + R(n.mass) * ((a == b ? dd : R(0)) - dv[a] * dv[b]);
      }
    return tot;
  }
};

// Central difference of fourth order, in long double.
template <class F> auto derivative(F f, R h) -> decltype(f(R(0))) {
  auto p1 = f(h), m1 = f(-h), p2 = f(2 * h), m2 = f(-2 * h);
  auto r = p1;
  for (size_t i = 0; i < r.size(); ++i)
    r[i] = (8 * (p1[i] - m1[i]) - (p2[i] - m2[i])) / (12 * h);
  return r;
}
} // namespace ref
