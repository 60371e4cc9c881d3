// Random robots and random spellings of their descriptions.
#pragma once
#include "ref.hpp"

namespace gen {
using vh::Rng;
const double PI = 3.14159265358979323846;

struct Opts {
  int max_links = 14;
  bool details = false;    // visuals, collisions, materials, dynamics, ...
  bool fancy_names = true; // names with spaces, markup characters, UTF-8
  bool need_mass = false;
  bool fancy_numbers = false; // unusual magnitudes
  bool limits_optional = true;
  double p_big = 0.02; // many links
  double p_deep = 0;   // very long chains
  int deep_links = 400;
};

inline std::string simple_name(Rng &g, const char *stem) {
  static const char *parts[] = {"arm", "leg", "wheel", "torso", "head", "x", "Z", "b", "l_gripper", "_q", "A1", "zz", "0", "mid"};
  std::string s = g.chance(0.5) ? stem : "";
  int n = g.range(1, 2);
  for (int i = 0; i < n; ++i)
    s += parts[g.below(sizeof parts / sizeof *parts)];
  if (g.chance(0.7))
    s += std::to_string(g.below(40));
  return s;
}
inline std::string fancy_name(Rng &g) {
  static const char *cp[] = {"a", "B", "7", " ", "-", ".", "/", "<", ">", "&", "\"", "'", "\xc3\xa9", "\xe6\x97\xa5", "\xf0\x9f\xa4\x96", ":", "%", "&amp;", "#", "="};
  std::string s;
  int n = g.range(1, 8);
  for (int i = 0; i < n; ++i)
    s += cp[g.below(sizeof cp / sizeof *cp)];
  // white space at the ends or repeated is left to the XML checks
  std::string t;
  for (char c : s)
    if (!(c == ' ' && (t.empty() || t.back() == ' ')))
      t += c;
  while (!t.empty() && t.back() == ' ')
    t.pop_back();
  return t.empty() ? "n" : t;
}
// Long names that have their beginning in common.
inline std::string long_name(Rng &g, const char *stem) {
  static const int lens[] = {31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4096};
  int n = g.chance(0.5) ? lens[g.below(sizeof lens / sizeof *lens)] : g.range(40, 600);
  std::string s = stem;
  while (int(s.size()) < n)
    s += "_of_the_upper_left_arm";
  s.resize(size_t(n));
  return s + std::to_string(g.below(40));
}
inline bool ends_with_com(const std::string &s) { return s.size() >= 4 && s.compare(s.size() - 4, 4, "_com") == 0; }
inline std::string fresh_name(Rng &g, std::set<std::string> &used, bool fancy, const char *stem) {
  for (;;) {
    std::string s = fancy && g.chance(0.15) ? fancy_name(g) : fancy && g.chance(0.012) ? long_name(g, stem) : simple_name(g, stem);
    if (used.count(s) || ends_with_com(s))
      continue;
    used.insert(s);
    return s;
  }
}
inline double angle(Rng &g) {
  switch (g.below(10)) {
  case 0: return 0;
  case 1: return PI / 2 * g.range(-4, 4);
  case 2: return PI * (g.chance(0.5) ? 1 : -1) + g.uni(-1e-6, 1e-6);
  case 3: return g.uni(-1e-7, 1e-7);
  case 4: return g.uni(-1000, 1000);
  default: return g.uni(-PI, PI);
  }
}
inline double length(Rng &g) {
  switch (g.below(8)) {
  case 0: return 0;
  case 1: return g.range(-3, 3);
  case 2: return g.uni(-1e-6, 1e-6);
  case 3: return g.chance(0.7) ? g.uni(-100, 100) : g.uni(-1, 1) * std::pow(10.0, g.range(-12, 4));
  default: return g.uni(-1, 1);
  }
}
inline double number(Rng &g, bool fancy) {
  if (!fancy)
    return length(g);
  switch (g.below(8)) {
  case 0: return 0;
  case 1: return g.range(-1000, 1000);
  case 2: return g.normal() * std::pow(10.0, g.range(-300, 300));
  case 3: return g.normal() * std::pow(10.0, g.range(-12, 12));
  case 4: return double(int64_t(g.u64())) ;
  default: return g.normal();
  }
}
inline std::array<double, 3> unit_axis(Rng &g) {
  if (g.chance(0.4)) {
    std::array<double, 3> a{{0, 0, 0}};
    a[g.below(3)] = g.chance(0.5) ? 1 : -1;
    return a;
  }
  double x, y, z, n;
  do {
    x = g.normal(), y = g.normal(), z = g.normal();
    if (g.chance(0.3))
      (g.chance(0.4) ? z : g.chance(0.5) ? x : y) = 0;
    if (g.chance(0.05))
      y = x, z = g.chance(0.5) ? x : -x;
    n = std::sqrt(x * x + y * y + z * z);
  } while (n < 1e-3);
  return {{x / n, y / n, z / n}};
}
inline ref::Origin origin(Rng &g, bool exact = false) {
  ref::Origin o;
  o.present = !g.chance(0.1);
  o.has_xyz = !g.chance(0.1);
  o.has_rpy = !g.chance(0.25);
  for (int i = 0; i < 3; ++i) {
    o.xyz[i] = length(g);
    o.rpy[i] = exact ? g.uni(-1.5, 1.5) : angle(g);
    if (std::fabs(o.rpy[i]) > 10)
      o.rpy[i] = g.uni(-7, 7);
  }
  if (g.chance(0.06)) { // equal components
    o.xyz[1] = g.chance(0.5) ? o.xyz[0] : -o.xyz[0];
    o.xyz[2] = o.xyz[0];
    if (g.chance(0.5))
      o.rpy[1] = o.rpy[2] = o.rpy[0];
  }
  if (g.chance(0.04))
    o.xyz = {{0, 0, 0}};
  if (g.chance(0.2)) { // only one angle
    int k = int(g.below(3));
    for (int i = 0; i < 3; ++i)
      if (i != k)
        o.rpy[i] = 0;
  }
  return o;
}
inline ref::Inertial inertial(Rng &g, double unit = 1) {
  ref::Inertial n;
  n.origin = origin(g);
  n.mass = g.chance(0.1) ? 0 : (g.chance(0.1) ? g.uni(10, 500) : g.uni(0.01, 5));
  // a physical tensor in a random frame
  double a = g.uni(0.01, 2), b = g.uni(0.01, 2), c = g.uni(0.01, 2);
  bool turned = !g.chance(0.2);
  if (g.chance(0.3)) { // symmetric bodies, thin ones, point masses
    switch (g.below(6)) {
    case 0: b = a; break;
    case 1: c = a; break;
    case 2: c = b; break;
    case 3: b = c = a; break;
    case 4: (g.chance(0.5) ? a : c) = 0; break;
    default: a = b = c = g.chance(0.5) ? 0 : 1;
    }
    turned = g.chance(0.3);
  }
  ref::M3 I = ref::zero3();
  I.a[0][0] = b + c, I.a[1][1] = a + c, I.a[2][2] = a + b;
  if (turned) {
    ref::M3 r = ref::rpy(g.uni(-3, 3), g.uni(-1.5, 1.5), g.uni(-3, 3));
    I = ref::mul(r, ref::mul(I, ref::transpose(r)));
  }
  n.i[0] = double(I.a[0][0]), n.i[1] = double(I.a[0][1]), n.i[2] = double(I.a[0][2]);
  n.i[3] = double(I.a[1][1]), n.i[4] = double(I.a[1][2]), n.i[5] = double(I.a[2][2]);
  if (g.chance(0.1)) // a light link
    unit *= std::pow(10.0, g.uni(-6, -2));
  n.mass *= unit;
  for (double &v : n.i)
    v *= unit;
  return n;
}
inline ref::Opt opt(Rng &g, double p, bool fancy) {
  ref::Opt o;
  o.has = g.chance(p);
  o.v = number(g, fancy);
  return o;
}
inline ref::Shape shape(Rng &g, std::vector<std::string> &mat_names, bool fancy, std::set<std::string> &inline_used) {
  ref::Shape s;
  s.has_name = g.chance(0.5);
  s.name = g.chance(0.05) ? fancy_name(g) : g.chance(0.05) ? long_name(g, "shape") : simple_name(g, "shape");
  s.origin = origin(g);
  ref::Geometry &q = s.geo;
  q.kind = int(g.below(4));
  for (int i = 0; i < 3; ++i) {
    q.dim[i] = std::fabs(number(g, fancy)), q.scale[i] = number(g, fancy);
  }
  q.radius = std::fabs(number(g, fancy)), q.length = std::fabs(number(g, fancy));
  q.file = g.chance(0.3) ? "package://x/" + fancy_name(g) : "package://r/m" + std::to_string(g.below(99)) + ".stl";
  if (g.chance(0.03))
    q.file = long_name(g, "package://r/") + ".dae";
  q.has_scale = g.chance(0.5);
  s.has_material = g.chance(0.5);
  if (s.has_material) {
    if (!mat_names.empty() && g.chance(0.6))
      s.mat.name = g.pick(mat_names);
    else {
      do
        s.mat.name = (g.chance(0.6) ? "inline" : g.chance(0.5) ? "i" : "a material that is stated where it is used ") + std::to_string(g.below(100000));
      while (inline_used.count(s.mat.name));
      inline_used.insert(s.mat.name);
      s.mat.has_color = true; // defined in place
      for (double &c : s.mat.rgba)
        c = g.chance(0.8) ? g.range(0, 100) / 100.0 : g.uni(0, 1);
      s.mat.has_texture = g.chance(0.3);
      s.mat.texture = (g.chance(0.03) ? long_name(g, "tex") : "tex") + std::to_string(g.below(9)) + ".png";
    }
  }
  return s;
}

inline void alike(Rng &g, ref::Shape &s, const ref::Shape &o) {
  bool m = s.has_material;
  switch (g.below(4)) {
  case 0: s = o; break;
  case 1: s.has_name = o.has_name, s.name = o.name; break;
  case 2: s.geo = o.geo; break;
  default: s.origin = o.origin;
  }
  if (g.chance(0.5))
    s.has_material = m && s.mat.name.size();
}

// Random kinematic tree. links[i + 1] is the child of joints[i].
inline ref::Robot robot(Rng &g, const Opts &o) {
  ref::Robot r;
  std::set<std::string> ln, jn, inl;
  r.name = o.fancy_names && g.chance(0.1) ? fancy_name(g) : simple_name(g, "robot");
  std::vector<std::string> mats;
  if (o.details) {
    int nm = g.chance(0.04) ? g.range(8, 70) : int(g.below(4));
    std::set<std::string> mn;
    for (int i = 0; i < nm; ++i) {
      ref::Material m;
      m.name = fresh_name(g, mn, o.fancy_names, "mat");
      m.has_color = g.chance(0.8);
      for (double &c : m.rgba)
        c = g.chance(0.2) ? double(g.below(2)) : g.chance(0.7) ? g.range(0, 1000) / 1000.0 : g.chance(0.5) ? g.uni(0, 1) : g.uni(0, 1) * std::pow(10.0, g.range(-20, 0));
      m.has_texture = !m.has_color || g.chance(0.3);
      m.texture = "tex/" + simple_name(g, "t") + ".png";
      mats.push_back(m.name);
      r.materials.push_back(m);
    }
  }
  int n = g.chance(0.05) ? 1 : g.range(2, o.max_links);
  if (g.chance(o.p_big))
    n = g.range(std::max(o.max_links, 24), 80);
  bool deep = g.chance(o.p_deep);
  if (deep)
    n = g.chance(0.7) ? g.range(o.deep_links / 4, o.deep_links) : g.range(o.deep_links, 2 * o.deep_links);
  // robots from micrograms to kilotonnes
  double unit = g.chance(0.2) ? std::pow(10.0, g.uni(-12, 6)) : 1;
  int shape_kind = int(g.below(4)); // random, chain, star, binary
  double p_inert = g.chance(0.12) ? 0 : g.uni(0.3, 1);
  double p_fixed = g.chance(0.1) ? 0.9 : (g.chance(0.3) ? 0 : 0.25);
  std::vector<ref::JType> mov;
  switch (g.below(5)) {
  case 0: mov = {ref::REVOLUTE}; break;
  case 1: mov = {ref::CONTINUOUS, ref::PRISMATIC}; break;
  default: mov = {ref::REVOLUTE, ref::CONTINUOUS, ref::PRISMATIC};
  }
  for (int i = 0; i < n; ++i) {
    ref::Link l;
    l.name = fresh_name(g, ln, o.fancy_names, "link");
    l.has_inertial = g.chance(p_inert);
    if (l.has_inertial)
      l.inertial = g.chance(0.06) && i && r.links.back().has_inertial ? r.links.back().inertial : inertial(g, unit);
    if (o.details) {
      int nv = int(g.below(3)), nc = int(g.below(3));
      if (g.chance(0.12))
        nv = g.chance(0.05) ? g.range(8, 70) : g.range(3, 7);
      if (g.chance(0.12))
        nc = g.chance(0.05) ? g.range(8, 70) : g.range(3, 7);
      for (int k = 0; k < nv; ++k)
        l.visuals.push_back(shape(g, mats, o.fancy_numbers, inl));
      for (int k = 0; k < nc; ++k) {
        l.collisions.push_back(shape(g, mats, o.fancy_numbers, inl));
        l.collisions.back().has_material = false;
      }
      // shapes that have much in common
      for (size_t k = 1; k < l.visuals.size(); ++k)
        if (g.chance(0.1))
          alike(g, l.visuals[k], l.visuals[g.below(k)]);
      for (size_t k = 1; k < l.collisions.size(); ++k)
        if (g.chance(0.1))
          alike(g, l.collisions[k], l.collisions[g.below(k)]);
      if (nv && nc && g.chance(0.1)) {
        alike(g, l.collisions[0], l.visuals[0]);
        l.collisions[0].has_material = false;
      }
      // the same material, stated in full a second time
      if (nv && !r.links.empty() && !r.links.back().visuals.empty() && g.chance(0.1)) {
        l.visuals.back().has_material = r.links.back().visuals[0].has_material;
        l.visuals.back().mat = r.links.back().visuals[0].mat;
      }
    }
    r.links.push_back(l);
    if (i == 0)
      continue;
    ref::Joint j;
    j.name = g.chance(0.1) && !jn.count(l.name) ? l.name : fresh_name(g, jn, o.fancy_names, "joint");
    jn.insert(j.name);
    int par = 0;
    switch (shape_kind) {
    case 0: par = int(g.below(i)); break;
    case 1: par = g.chance(0.9) ? i - 1 : int(g.below(i)); break;
    case 2: par = g.chance(0.7) ? 0 : int(g.below(i)); break;
    case 3: par = (i - 1) / 2; break;
    }
    if (deep && !g.chance(0.02))
      par = i - 1;
    j.parent = r.links[par].name;
    j.child = l.name;
    j.type = g.chance(p_fixed) ? ref::FIXED : g.pick(mov);
    j.origin = origin(g);
    j.has_axis = j.type == ref::FIXED ? g.chance(0.2) : !g.chance(0.1);
    j.axis = unit_axis(g);
    if (j.type == ref::PRISMATIC && g.chance(0.15)) { // the motion is along it by its length
      double s = g.chance(0.5) ? (g.chance(0.5) ? 0.5 : 2) : g.uni(0.1, 4);
      for (double &a : j.axis)
        a *= s;
    }
    j.has_limit = j.type == ref::REVOLUTE || j.type == ref::PRISMATIC || (o.limits_optional && g.chance(j.type == ref::FIXED ? 0.1 : 0.5));
    j.lower = opt(g, 0.85, o.fancy_numbers);
    j.upper = opt(g, 0.85, o.fancy_numbers);
    j.effort = std::fabs(number(g, o.fancy_numbers));
    j.velocity = std::fabs(number(g, o.fancy_numbers));
    if (g.chance(0.1)) {
      j.upper = j.lower;
      if (g.chance(0.3))
        j.velocity = j.effort;
    }
    if (g.chance(0.05) && !r.joints.empty()) // just like another one
      j.origin = g.pick(r.joints).origin;
    if (o.details) {
      j.has_dynamics = g.chance(0.3);
      j.damping = opt(g, 0.6, o.fancy_numbers);
      j.friction = opt(g, 0.6, o.fancy_numbers);
      if (!j.damping.has && !j.friction.has)
        j.damping.has = true;
      j.has_safety = g.chance(0.3);
      j.soft_lower = opt(g, 0.6, o.fancy_numbers);
      j.soft_upper = opt(g, 0.6, o.fancy_numbers);
      j.k_position = opt(g, 0.6, o.fancy_numbers);
      j.k_velocity = number(g, o.fancy_numbers);
      j.has_calibration = g.chance(0.3);
      j.rising = opt(g, 0.6, o.fancy_numbers);
      j.falling = opt(g, 0.6, o.fancy_numbers);
      j.has_mimic = g.chance(0.2) && !r.joints.empty();
      if (j.has_mimic)
        j.mimic_joint = g.pick(r.joints).name;
      j.multiplier = opt(g, 0.6, o.fancy_numbers);
      j.offset = opt(g, 0.6, o.fancy_numbers);
    }
    r.joints.push_back(j);
  }
  if (g.chance(0.15)) // masses that are round numbers, many of them equal
    for (auto &l : r.links)
      if (l.has_inertial && l.inertial.mass > 0)
        l.inertial.mass = (g.chance(0.8) ? g.range(1, 3) : 0.25 * g.range(1, 8)) * unit;
  if (o.need_mass) {
    double m = 0;
    for (auto &l : r.links)
      if (l.has_inertial)
        m += l.inertial.mass;
    if (m <= 0) {
      ref::Link &l = r.links[g.below(r.links.size())];
      l.has_inertial = true;
      l.inertial = inertial(g);
      l.inertial.mass = g.uni(0.5, 3) * unit;
    }
  }
  return r;
}

// ---------------------------------------------------------------- XML text
struct El {
  std::string name;
  std::vector<std::pair<std::string, std::string>> attrs; // decoded values
  std::vector<El> kids;
  El(const std::string &n) : name(n) {}
  El &attr(const std::string &k, const std::string &v) {
    attrs.push_back({k, v});
    return *this;
  }
  El &attr(const std::string &k, double v) { return attr(k, vh::num(v)); }
  El &add(const El &e) {
    kids.push_back(e);
    return kids.back();
  }
};

template <class A> std::string vec(const A &a, size_t n) {
  std::string s;
  for (size_t i = 0; i < n; ++i)
    s += (i ? " " : "") + vh::num(a[i]);
  return s;
}
inline void add_origin(El &e, const ref::Origin &o) {
  if (!o.present)
    return;
  El x("origin");
  if (o.has_xyz)
    x.attr("xyz", vec(o.xyz, 3));
  if (o.has_rpy)
    x.attr("rpy", vec(o.rpy, 3));
  e.add(x);
}
inline El material_el(const ref::Material &m) {
  El e("material");
  e.attr("name", m.name);
  if (m.has_color)
    e.add(El("color").attr("rgba", vec(m.rgba, 4)));
  if (m.has_texture)
    e.add(El("texture").attr("filename", m.texture));
  return e;
}
inline El shape_el(const ref::Shape &s, const char *tag) {
  El e(tag);
  if (s.has_name)
    e.attr("name", s.name);
  add_origin(e, s.origin);
  El q("geometry");
  switch (s.geo.kind) {
  case 0: q.add(El("sphere").attr("radius", s.geo.radius)); break;
  case 1: q.add(El("box").attr("size", vec(s.geo.dim, 3))); break;
  case 2: q.add(El("cylinder").attr("radius", s.geo.radius).attr("length", s.geo.length)); break;
  default: {
    El m("mesh");
    m.attr("filename", s.geo.file);
    if (s.geo.has_scale)
      m.attr("scale", vec(s.geo.scale, 3));
    q.add(m);
  }
  }
  e.add(q);
  if (s.has_material)
    e.add(material_el(s.mat));
  return e;
}
inline El link_el(const ref::Link &l) {
  El e("link");
  e.attr("name", l.name);
  if (l.has_inertial) {
    El n("inertial");
    add_origin(n, l.inertial.origin);
    n.add(El("mass").attr("value", l.inertial.mass));
    static const char *k[] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
    El in("inertia");
    for (int i = 0; i < 6; ++i)
      in.attr(k[i], l.inertial.i[i]);
    n.add(in);
    e.add(n);
  }
  for (auto &s : l.visuals)
    e.add(shape_el(s, "visual"));
  for (auto &s : l.collisions)
    e.add(shape_el(s, "collision"));
  return e;
}
inline El joint_el(const ref::Joint &j) {
  El e("joint");
  e.attr("name", j.name).attr("type", ref::type_name(j.type));
  e.add(El("parent").attr("link", j.parent));
  e.add(El("child").attr("link", j.child));
  add_origin(e, j.origin);
  if (j.has_axis)
    e.add(El("axis").attr("xyz", vec(j.axis, 3)));
  auto put = [](El &x, const char *k, const ref::Opt &o) {
    if (o.has)
      x.attr(k, o.v);
  };
  if (j.has_limit) {
    El x("limit");
    put(x, "lower", j.lower);
    put(x, "upper", j.upper);
    x.attr("effort", j.effort).attr("velocity", j.velocity);
    e.add(x);
  }
  if (j.has_dynamics) {
    El x("dynamics");
    put(x, "damping", j.damping);
    put(x, "friction", j.friction);
    e.add(x);
  }
  if (j.has_safety) {
    El x("safety_controller");
    put(x, "soft_lower_limit", j.soft_lower);
    put(x, "soft_upper_limit", j.soft_upper);
    put(x, "k_position", j.k_position);
    x.attr("k_velocity", j.k_velocity);
    e.add(x);
  }
  if (j.has_calibration) {
    El x("calibration");
    put(x, "rising", j.rising);
    put(x, "falling", j.falling);
    e.add(x);
  }
  if (j.has_mimic) {
    El x("mimic");
    x.attr("joint", j.mimic_joint);
    put(x, "multiplier", j.multiplier);
    put(x, "offset", j.offset);
    e.add(x);
  }
  return e;
}
inline El robot_el(const ref::Robot &r) {
  El e("robot");
  e.attr("name", r.name);
  for (auto &m : r.materials)
    e.add(material_el(m));
  for (auto &l : r.links)
    e.add(link_el(l));
  for (auto &j : r.joints)
    e.add(joint_el(j));
  return e;
}

// How to spell a tree of elements.
struct Style {
  Rng *g = nullptr;       // no generator: the plain spelling
  bool reorder = false;   // order of elements and attributes
  bool spaces = false;    // quotes, white space, line ends, empty-element form
  bool refs = false;      // character references
  bool noise = false;     // comments, unknown elements and attributes
  bool prolog = false;    // declaration, byte-order mark, doctype-free
  const char *nl = "\n";
};
inline std::string escape(const std::string &s, char quote, const Style &st) {
  std::string o;
  for (unsigned char c : s) {
    if (st.g && st.refs && c < 0x80 && c > 0x20 && st.g->chance(0.15)) {
      char b[16];
      if (st.g->chance(0.5))
        snprintf(b, sizeof b, "&#%u;", unsigned(c));
      else
        snprintf(b, sizeof b, st.g->chance(0.5) ? "&#x%x;" : "&#x%02X;", unsigned(c));
      o += b;
      continue;
    }
    switch (c) {
    case '&': o += "&amp;"; break;
    case '<': o += "&lt;"; break;
    case '>': o += st.g && st.g->chance(0.5) ? ">" : "&gt;"; break;
    case '"': o += quote == '"' ? "&quot;" : "\""; break;
    case '\'': o += quote == '\'' ? "&apos;" : "'"; break;
    default: o += char(c);
    }
  }
  return o;
}
inline std::string ws(const Style &st, bool at_least_one) {
  if (!st.g || !st.spaces)
    return at_least_one ? " " : "";
  std::string s;
  int n = int(st.g->below(3)) + (at_least_one ? 1 : 0);
  for (int i = 0; i < n; ++i)
    s += st.g->chance(0.6) ? std::string(" ") : (st.g->chance(0.5) ? std::string("\t") : std::string(st.nl));
  return s;
}
// Lines of a comment, or of other text that means nothing.
inline std::string idle_lines(const Style &st, bool comment) {
  static const char *l[] = {"//", "// a remark", "#", "# a remark", ";", "%", "", "", " ", "\t", "*/", "/* x", "!", "\\", "---", "]]>", "<", "</robot>", "<robot name='x'>", "<!--", "&#xD;", "&bad;", "\"'", "<link name='ghost'/>", "?>", "<?xml version='1.0'?>", "=====", "[x]", "{", "$(arg x)", "plain words"};
  static const char *p[] = {"", " ", "words", "// x", "\t#", ";", "1 2 3", "*"};
  std::string s;
  int n = 1 + int(st.g->below(4));
  for (int i = 0; i < n; ++i) {
    std::string x = comment ? l[st.g->below(sizeof l / sizeof *l)] : p[st.g->below(sizeof p / sizeof *p)];
    if (comment && x.find("--") != std::string::npos)
      x = "=="; // not allowed there
    s += st.nl + x;
    if (st.g->chance(0.03))
      s += std::string(st.g->below(9000), 'x');
  }
  return st.g->chance(0.5) ? s : s + st.nl;
}
inline void noise(std::string &out, const Style &st, int depth, bool comments_only = false) {
  if (!st.g || !st.noise || !st.g->chance(0.2))
    return;
  switch (st.g->below(depth == 0 || comments_only ? 1 : 4)) {
  case 0:
    if (st.g->chance(0.4))
      out += "<!--" + idle_lines(st, true) + "-->";
    else
      out += st.g->chance(0.5) ? "<!-- <link name=\"ghost\"/> & -->" : "<!---->";
    break;
  case 1: out += "<gazebo reference='x'><link name='ghost'/><joint name=\"g\" type=\"bogus\"/></gazebo>"; break;
  case 2: out += "<transmission name=\"t\"/>"; break;
  case 3: out += depth > 1 ? (st.g->chance(0.4) ? idle_lines(st, false) : std::string("some text")) : "<xacro:extra a=\"1\">text &lt; </xacro:extra>"; break;
  }
}
inline void write(std::string &out, const El &e0, const Style &st, int depth) {
  El e = e0;
  if (st.g && st.reorder) {
    st.g->shuffle(e.attrs);
    // the order of visuals and collisions carries meaning, everything else does not
    std::vector<El> vis, col;
    std::vector<size_t> idx;
    for (size_t i = 0; i < e.kids.size(); ++i)
      idx.push_back(i);
    st.g->shuffle(idx);
    std::vector<El> shuffled;
    for (size_t i : idx)
      shuffled.push_back(e.kids[i]);
    size_t nv = 0, nc = 0;
    for (auto &k : e.kids) {
      if (k.name == "visual") vis.push_back(k);
      if (k.name == "collision") col.push_back(k);
    }
    for (auto &k : shuffled) {
      if (k.name == "visual") k = vis[nv++];
      else if (k.name == "collision") k = col[nc++];
    }
    e.kids = shuffled;
  }
  if (st.g && st.noise && depth > 0 && st.g->chance(0.1)) {
    static const char *extra[] = {"group", "xmlns:x", "id", "data-1"};
    e.attrs.insert(e.attrs.begin() + long(st.g->below(e.attrs.size() + 1)), {extra[st.g->below(4)], "whatever"});
  }
  out += "<" + e.name;
  for (auto &a : e.attrs) {
    char q = st.g && st.spaces && st.g->chance(0.4) ? '\'' : '"';
    out += ws(st, true) + a.first + ws(st, false) + "=" + ws(st, false) + q + escape(a.second, q, st) + q;
  }
  bool empty_form = e.kids.empty() && !(st.g && st.spaces && st.g->chance(0.3));
  out += ws(st, false);
  if (empty_form) {
    out += "/>";
    return;
  }
  out += ">";
  for (auto &k : e.kids) {
    out += st.g && st.spaces && st.g->chance(0.3) ? "" : st.nl;
    noise(out, st, depth + 1, e.name == "geometry");
    write(out, k, st, depth + 1);
    noise(out, st, depth + 1, e.name == "geometry");
  }
  if (!e.kids.empty() || (st.g && st.noise && st.g->chance(0.3)))
    out += st.nl;
  out += "</" + e.name + (st.g && st.spaces && st.g->chance(0.3) ? " " : "") + ">";
}
inline std::string text(const El &e, Style st = Style()) {
  std::string out;
  if (st.g && st.spaces && st.g->chance(0.3))
    st.nl = "\r\n";
  if (st.g && st.prolog) {
    if (st.g->chance(0.3))
      out += "\xef\xbb\xbf";
    if (st.g->chance(0.7)) {
      static const char *d[] = {"<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml version='1.0' encoding='utf-8' standalone='yes' ?>"};
      out += d[st.g->below(3)];
    }
    out += st.nl;
    if (st.g->chance(0.3))
      out += std::string("<!-- robot -->") + st.nl;
  }
  noise(out, st, 0);
  write(out, e, st, 0);
  out += st.nl;
  noise(out, st, 0);
  if (st.g && st.prolog && st.g->chance(0.2))
    out += "\n<!-- end -->\n";
  return out;
}
inline std::string urdf(const ref::Robot &r) { return text(robot_el(r)); }
} // namespace gen
