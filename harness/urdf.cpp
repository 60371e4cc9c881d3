// U01-U06: loading, rejecting, exporting descriptions.
#include "udump.hpp"
#include <clocale>
#include <fstream>
#include <functional>
#include <locale>
#include <sanitizer/lsan_interface.h>
#include <unistd.h>
using namespace sut;
using gen::El;
using udump::List;

static std::string slurp(const std::string &f) {
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
static void spit(const std::string &f, const std::string &s) {
  std::ofstream o(f, std::ios::binary);
  o << s;
}
static gen::Style random_style(Rng &g, Rng &sg) {
  gen::Style st;
  st.g = &sg;
  st.reorder = g.chance(0.6);
  st.spaces = g.chance(0.6);
  st.refs = g.chance(0.5);
  st.noise = g.chance(0.5);
  st.prolog = g.chance(0.6);
  return st;
}
// ------------------------------------------------------------------ numbers
// Another spelling of the same decimal value, or of one that rounds to the same double.
static std::string respell(Rng &g, double d) {
  char b[512];
  std::string s;
  switch (g.below(5)) {
  case 0: snprintf(b, sizeof b, "%.*e", g.range(17, 40), d); break;
  case 1:
    if (std::fabs(d) < 1e20)
      snprintf(b, sizeof b, "%.*f", g.range(20, 60), d);
    else
      snprintf(b, sizeof b, "%.*g", 17, d);
    break;
  case 2: { // just inside the rounding interval
    long double h = std::nextafter(d, d + 1) - (long double)d;
    snprintf(b, sizeof b, "%.*Le", 30, (long double)d + h * (long double)g.uni(-0.2, 0.45));
    break;
  }
  default: snprintf(b, sizeof b, "%s", vh::num(d).c_str());
  }
  s = b;
  if (std::strtod(s.c_str(), nullptr) != d || std::signbit(std::strtod(s.c_str(), nullptr)) != std::signbit(d) || s.find_first_not_of("0123456789+-.eE") != std::string::npos)
    s = vh::num(d);
  bool neg = s[0] == '-';
  if (neg)
    s = s.substr(1);
  size_t e = s.find_first_of("eE");
  std::string ex = e == std::string::npos ? "" : s.substr(e), man = s.substr(0, e);
  if (g.chance(0.2))
    man = std::string(size_t(g.range(1, 3)), '0') + man;
  if (g.chance(0.2))
    man += man.find('.') == std::string::npos ? (g.chance(0.5) ? "." : ".0") : "000";
  if (man.size() > 2 && man[0] == '0' && man[1] == '.' && g.chance(0.3))
    man = man.substr(1); // .5
  if (!ex.empty() && g.chance(0.5))
    ex[0] = ex[0] == 'e' ? 'E' : 'e';
  if (ex.empty() && g.chance(0.1))
    ex = g.chance(0.5) ? "e0" : "E+00";
  s = man + ex;
  if (neg)
    s = "-" + s;
  else if (g.chance(0.1))
    s = "+" + s;
  return s;
}
static const std::set<std::string> &numeric_attrs() {
  static const std::set<std::string> k = {"xyz", "rpy", "value", "ixx", "ixy", "ixz", "iyy", "iyz", "izz", "rgba", "radius", "length", "size", "scale", "lower", "upper", "effort", "velocity", "damping", "friction", "soft_lower_limit", "soft_upper_limit", "k_position", "k_velocity", "rising", "falling", "multiplier", "offset"};
  return k;
}
static void respell(Rng &g, El &e) {
  for (auto &a : e.attrs)
    if (numeric_attrs().count(a.first)) {
      bool vec = a.first == "xyz" || a.first == "rpy" || a.first == "size" || a.first == "scale" || a.first == "rgba";
      std::istringstream i(a.second);
      i.imbue(std::locale::classic());
      std::string piece, o;
      while (i >> piece) {
        if (!o.empty())
          o += g.chance(0.8) ? " " : "   ";
        o += respell(g, std::strtod(piece.c_str(), nullptr));
      }
      if (vec && g.chance(0.1))
        o = "  " + o + " ";
      a.second = o;
    }
  for (auto &k : e.kids)
    respell(g, k);
}

// ------------------------------------------------------------------ U02: expected contents
struct Expect {
  Ctx &c;
  std::string where;
  void eq(const char *what, double a, double e) {
    c.count("numbers_compared");
    if (!(a == e) || std::signbit(a) != std::signbit(e))
      c.fail("parsed-number", cat(where, ": ", what, " is ", a, ", stated ", e));
  }
  void eq(const char *what, const std::string &a, const std::string &e) {
    c.count("names_compared");
    if (a != e)
      c.fail("parsed-name", cat(where, ": ", what, " is '", a, "', stated '", e, "'"));
  }
  void is(const char *what, bool ok) {
    if (!ok)
      c.fail("parsed-structure", cat(where, ": ", what));
  }
  void pose(const char *what, const urdf::Pose &p, const ref::Origin &o) {
    bool x = o.present && o.has_xyz;
    eq(what, p.position.x, x ? o.xyz[0] : 0.0);
    eq(what, p.position.y, x ? o.xyz[1] : 0.0);
    eq(what, p.position.z, x ? o.xyz[2] : 0.0);
    R n = R(p.rotation.x) * p.rotation.x + R(p.rotation.y) * p.rotation.y + R(p.rotation.z) * p.rotation.z + R(p.rotation.w) * p.rotation.w;
    ref::M3 r = ref::from_quat(p.rotation.x, p.rotation.y, p.rotation.z, p.rotation.w);
    c.count("rotations_compared");
    if (!(fabsl(n - 1) < 1e-12L) || !(ref::mat_dist(r, o.pose().r) < 1e-11L))
      c.fail("parsed-rotation", cat(where, ": ", what, " rotation is ", p.rotation.x, " ", p.rotation.y, " ", p.rotation.z, " ", p.rotation.w));
  }
  void material(const char *what, const urdf::Material &m, const ref::Material &e) {
    eq(what, m.name, e.name);
    eq(what, m.texture_filename, e.has_texture ? e.texture : "");
    static const double black[4] = {0, 0, 0, 1};
    const double *v = e.has_color ? e.rgba.data() : black;
    eq(what, double(m.color.r), double(float(v[0])));
    eq(what, double(m.color.g), double(float(v[1])));
    eq(what, double(m.color.b), double(float(v[2])));
    eq(what, double(m.color.a), double(float(v[3])));
  }
  void geometry(const urdf::GeometrySharedPtr &q, const ref::Geometry &e) {
    is("no geometry", q != nullptr);
    switch (e.kind) {
    case 0: {
      auto s = std::dynamic_pointer_cast<urdf::Sphere>(q);
      is("geometry is no sphere", s && s->type == urdf::Geometry::SPHERE);
      eq("radius", s->radius, e.radius);
      break;
    }
    case 1: {
      auto s = std::dynamic_pointer_cast<urdf::Box>(q);
      is("geometry is no box", s && s->type == urdf::Geometry::BOX);
      eq("size", s->dim.x, e.dim[0]), eq("size", s->dim.y, e.dim[1]), eq("size", s->dim.z, e.dim[2]);
      break;
    }
    case 2: {
      auto s = std::dynamic_pointer_cast<urdf::Cylinder>(q);
      is("geometry is no cylinder", s && s->type == urdf::Geometry::CYLINDER);
      eq("radius", s->radius, e.radius), eq("length", s->length, e.length);
      break;
    }
    default: {
      auto s = std::dynamic_pointer_cast<urdf::Mesh>(q);
      is("geometry is no mesh", s && s->type == urdf::Geometry::MESH);
      eq("mesh file", s->filename, e.file);
      for (int i = 0; i < 3; ++i)
        eq("mesh scale", s->scale[size_t(i)], e.has_scale ? e.scale[size_t(i)] : 1.0);
    }
    }
  }
};
static const ref::Material *find_material(const ref::Robot &r, const std::string &name) {
  for (auto &m : r.materials)
    if (m.name == name)
      return &m;
  for (auto &l : r.links)
    for (auto &v : l.visuals)
      if (v.has_material && v.mat.name == name)
        return &v.mat;
  return nullptr;
}
static void check_contents(Ctx &c, const urdf::ModelInterface &m, const ref::Robot &r) {
  Expect x{c, "robot"};
  x.eq("name", m.getName(), r.name);
  x.is("wrong number of links", m.links_.size() == r.links.size());
  x.is("wrong number of joints", m.joints_.size() == r.joints.size());
  x.is("no root", m.getRoot() != nullptr);
  x.eq("root", m.getRoot()->name, r.links[0].name);
  std::set<std::string> mats;
  for (auto &q : r.materials)
    mats.insert(q.name);
  for (auto &l : r.links)
    for (auto &v : l.visuals)
      if (v.has_material)
        mats.insert(v.mat.name);
  x.is("wrong number of materials", m.materials_.size() == mats.size());
  for (auto &n : mats) {
    auto q = m.getMaterial(n);
    x.where = "material " + n;
    x.is("missing", q != nullptr);
    x.material("material", *q, *find_material(r, n));
  }
  for (auto &l : r.links) {
    x.where = "link " + l.name;
    auto p = m.getLink(l.name);
    x.is("missing", p != nullptr);
    x.eq("name", p->name, l.name);
    x.is("inertial data", (p->inertial != nullptr) == l.has_inertial);
    if (l.has_inertial) {
      x.pose("inertial origin", p->inertial->origin, l.inertial.origin);
      x.eq("mass", p->inertial->mass, l.inertial.mass);
      double v[6] = {p->inertial->ixx, p->inertial->ixy, p->inertial->ixz, p->inertial->iyy, p->inertial->iyz, p->inertial->izz};
      for (int i = 0; i < 6; ++i)
        x.eq("inertia", v[i], l.inertial.i[i]);
    }
    x.is("number of visuals", p->visual_array.size() == l.visuals.size());
    x.is("first visual", l.visuals.empty() ? p->visual == nullptr : p->visual == p->visual_array[0]);
    for (size_t i = 0; i < l.visuals.size(); ++i) {
      x.where = cat("link ", l.name, " visual ", i);
      auto &v = *p->visual_array[i];
      auto &e = l.visuals[i];
      x.eq("name", v.name, e.has_name ? e.name : "");
      x.pose("origin", v.origin, e.origin);
      x.geometry(v.geometry, e.geo);
      x.eq("material name", v.material_name, e.has_material ? e.mat.name : "");
      x.is("material", (v.material != nullptr) == e.has_material);
      if (e.has_material)
        x.material("material", *v.material, *find_material(r, e.mat.name));
      c.count("visuals_compared");
    }
    x.is("number of collisions", p->collision_array.size() == l.collisions.size());
    x.is("first collision", l.collisions.empty() ? p->collision == nullptr : p->collision == p->collision_array[0]);
    for (size_t i = 0; i < l.collisions.size(); ++i) {
      x.where = cat("link ", l.name, " collision ", i);
      auto &v = *p->collision_array[i];
      auto &e = l.collisions[i];
      x.eq("name", v.name, e.has_name ? e.name : "");
      x.pose("origin", v.origin, e.origin);
      x.geometry(v.geometry, e.geo);
      c.count("collisions_compared");
    }
    // the tree around it
    x.where = "link " + l.name;
    std::set<std::string> kids_e, kids_a, kl_e, kl_a;
    std::string parent = "(none)", pj = "(none)";
    for (auto &j : r.joints) {
      if (j.parent == l.name)
        kids_e.insert(j.name), kl_e.insert(j.child);
      if (j.child == l.name)
        parent = j.parent, pj = j.name;
    }
    for (auto &j : p->child_joints)
      kids_a.insert(j->name);
    for (auto &k : p->child_links)
      kl_a.insert(k->name);
    x.is("child joints", kids_a == kids_e && p->child_joints.size() == kids_e.size());
    x.is("child links", kl_a == kl_e && p->child_links.size() == kl_e.size());
    auto pl = p->getParent();
    x.eq("parent", pl ? pl->name : "(none)", parent);
    x.eq("parent joint", p->parent_joint ? p->parent_joint->name : "(none)", pj);
    ++c.evaluations;
  }
  static const int types[] = {urdf::Joint::REVOLUTE, urdf::Joint::CONTINUOUS, urdf::Joint::PRISMATIC, urdf::Joint::FIXED, urdf::Joint::PLANAR, urdf::Joint::FLOATING};
  for (auto &j : r.joints) {
    x.where = "joint " + j.name;
    auto p = m.getJoint(j.name);
    x.is("missing", p != nullptr);
    x.eq("name", p->name, j.name);
    x.is("type", int(p->type) == types[j.type]);
    x.eq("parent", p->parent_link_name, j.parent);
    x.eq("child", p->child_link_name, j.child);
    x.pose("origin", p->parent_to_joint_origin_transform, j.origin);
    if (j.movable()) {
      x.eq("axis", p->axis.x, j.has_axis ? j.axis[0] : 1.0);
      x.eq("axis", p->axis.y, j.has_axis ? j.axis[1] : 0.0);
      x.eq("axis", p->axis.z, j.has_axis ? j.axis[2] : 0.0);
    }
    auto opt = [](const ref::Opt &o, double d = 0) { return o.has ? o.v : d; };
    x.is("limits", (p->limits != nullptr) == j.has_limit);
    if (j.has_limit) {
      x.eq("lower", p->limits->lower, opt(j.lower)), x.eq("upper", p->limits->upper, opt(j.upper));
      x.eq("effort", p->limits->effort, j.effort), x.eq("velocity", p->limits->velocity, j.velocity);
    }
    x.is("dynamics", (p->dynamics != nullptr) == j.has_dynamics);
    if (j.has_dynamics)
      x.eq("damping", p->dynamics->damping, opt(j.damping)), x.eq("friction", p->dynamics->friction, opt(j.friction));
    x.is("safety", (p->safety != nullptr) == j.has_safety);
    if (j.has_safety) {
      x.eq("soft lower", p->safety->soft_lower_limit, opt(j.soft_lower)), x.eq("soft upper", p->safety->soft_upper_limit, opt(j.soft_upper));
      x.eq("k_position", p->safety->k_position, opt(j.k_position)), x.eq("k_velocity", p->safety->k_velocity, j.k_velocity);
    }
    x.is("calibration", (p->calibration != nullptr) == j.has_calibration);
    if (j.has_calibration) {
      x.is("rising", (p->calibration->rising != nullptr) == j.rising.has);
      if (j.rising.has)
        x.eq("rising", *p->calibration->rising, j.rising.v);
      x.is("falling", (p->calibration->falling != nullptr) == j.falling.has);
      if (j.falling.has)
        x.eq("falling", *p->calibration->falling, j.falling.v);
    }
    x.is("mimic", (p->mimic != nullptr) == j.has_mimic);
    if (j.has_mimic) {
      x.eq("mimic joint", p->mimic->joint_name, j.mimic_joint);
      x.eq("multiplier", p->mimic->multiplier, opt(j.multiplier, 1)), x.eq("offset", p->mimic->offset, opt(j.offset));
    }
    ++c.evaluations;
  }
}
// A name of a length around the sizes buffers have.
static std::string long_name(Rng &g, const std::string &n) {
  size_t k = (size_t(1) << g.range(5, g.chance(0.9) ? 12 : 17)) + size_t(g.range(-2, 2));
  return n.size() < k ? n + std::string(k - n.size(), 'n') : n;
}
static void long_names(Rng &g, ref::Robot &r) {
  auto rename_link = [&](ref::Link &l) {
    std::string n = long_name(g, l.name);
    for (auto &j : r.joints) {
      if (j.parent == l.name)
        j.parent = n;
      if (j.child == l.name)
        j.child = n;
    }
    l.name = n;
  };
  for (int k = 0; k < 3; ++k)
    switch (g.below(6)) {
    case 0: r.name = long_name(g, r.name); break;
    case 1: rename_link(r.links[g.below(r.links.size())]); break;
    case 2:
      if (!r.joints.empty()) {
        ref::Joint &j = r.joints[g.below(r.joints.size())];
        std::string n = long_name(g, j.name);
        for (auto &o : r.joints)
          if (o.has_mimic && o.mimic_joint == j.name)
            o.mimic_joint = n;
        j.name = n;
      }
      break;
    case 3:
      for (auto &l : r.links)
        for (auto &v : l.visuals)
          if (v.geo.kind == 3 && g.chance(0.5))
            v.geo.file = long_name(g, v.geo.file);
      break;
    case 4: {
      std::set<std::string> all;
      for (auto &m : r.materials)
        all.insert(m.name);
      for (auto &l : r.links)
        for (auto &v : l.visuals)
          if (v.has_material)
            all.insert(v.mat.name);
      if (all.empty())
        break;
      std::string o = g.pick(std::vector<std::string>(all.begin(), all.end())), n = long_name(g, o);
      if (all.count(n))
        break;
      for (auto &m : r.materials)
        if (m.name == o)
          m.name = n;
      for (auto &l : r.links)
        for (auto &v : l.visuals)
          if (v.has_material && v.mat.name == o)
            v.mat.name = n;
      break;
    }
    default:
      for (auto &m : r.materials)
        if (m.has_texture)
          m.texture = long_name(g, m.texture);
    }
}
static ref::Robot detailed(Rng &g, int max_links = 10) {
  gen::Opts o;
  o.details = true;
  o.max_links = max_links;
  o.fancy_numbers = g.chance(0.5);
  ref::Robot r = gen::robot(g, o);
  if (g.chance(0.15) && !r.joints.empty()) { // kinds of joint that only the parser knows
    ref::Joint &j = g.pick(std::vector<ref::Joint *>{&r.joints.front(), &r.joints.back()})[0];
    j.type = g.chance(0.5) ? ref::PLANAR : ref::FLOATING;
  }
  if (g.chance(0.04))
    long_names(g, r);
  return r;
}
static void u02(Ctx &c) {
  Rng g(c.case_seed), sg(c.case_seed + 1);
  ref::Robot r = detailed(g, 12);
  El e = gen::robot_el(r);
  respell(g, e);
  if (g.chance(0.2))
    e.attr("version", "1.0");
  gen::Style st = random_style(g, sg);
  std::string text = gen::text(e, st);
  c.log(text);
  auto m = urdf::parseURDF(text);
  c.check(m != nullptr, "rejected", "a valid description was rejected");
  check_contents(c, *m, r);
  c.nontrivial(vh::hash_str(text));
  c.sample(text);
}
// ------------------------------------------------------------------ U04
static std::string print(TiXmlDocument &d, Rng &g, Ctx &c) {
  switch (g.below(4)) {
  case 0: {
    TiXmlPrinter p;
    d.Accept(&p);
    return p.Str();
  }
  case 1: {
    TiXmlPrinter p;
    p.SetStreamPrinting();
    d.Accept(&p);
    return p.Str();
  }
  case 2: {
    std::string f = c.scratch + "/exported.urdf";
    c.check(d.SaveFile(f), "save", "SaveFile failed");
    std::string s = slurp(f);
    unlink(f.c_str());
    return s;
  }
  default: {
    std::ostringstream o;
    o << d;
    return o.str();
  }
  }
}
static void special_rotations(Rng &g, ref::Robot &r) {
  auto mod = [&](ref::Origin &o) {
    if (g.chance(0.15)) { // next to the singularity
      static const double near[] = {1.5707963267948966, 1.57, 1.5708, 1.570796, 1.5707};
      o.rpy[1] = (g.chance(0.5) ? 1 : -1) * (g.chance(0.5) ? near[g.below(5)] : gen::PI / 2 + g.uni(-1, 1) * std::pow(10.0, g.range(-9, -1)));
    }
  };
  for (auto &j : r.joints)
    mod(j.origin);
  for (auto &l : r.links) {
    mod(l.inertial.origin);
    for (auto &v : l.visuals)
      mod(v.origin);
    for (auto &v : l.collisions)
      mod(v.origin);
  }
}
static void u04(Ctx &c) {
  Rng g(c.case_seed), sg(c.case_seed + 1);
  ref::Robot r = detailed(g);
  special_rotations(g, r);
  std::string text = gen::text(gen::robot_el(r), random_style(g, sg));
  c.log(text);
  auto m = urdf::parseURDF(text);
  c.check(m != nullptr, "rejected", "a valid description was rejected");
  List before = udump::dump(*m, true);
  std::unique_ptr<TiXmlDocument> d(g.chance(0.5) ? urdf::exportURDF(*m) : urdf::exportURDF(m));
  std::string out = print(*d, g, c);
  c.log("---- exported ----\n" + out);
  std::string same = udump::exact_diff(before, udump::dump(*m, true));
  c.check(same.empty(), "export-changes-model", "exporting changed the model: " + same);
  auto m2 = urdf::parseURDF(out);
  c.check(m2 != nullptr, "export-rejected", "the exported description is rejected by the parser");
  std::string diff = udump::close_diff(before, udump::dump(*m2, true));
  c.check(diff.empty(), "export-differs", "the exported description differs: " + diff);
  c.evaluations += long(before.size());
  c.count("items_compared", long(before.size()));
  // once more: the fixed point
  std::unique_ptr<TiXmlDocument> d2(urdf::exportURDF(*m2));
  auto m3 = urdf::parseURDF(print(*d2, g, c));
  c.check(m3 != nullptr, "export-rejected", "the second export is rejected by the parser");
  diff = udump::close_diff(before, udump::dump(*m3, true));
  c.check(diff.empty(), "export-differs", "the second export differs: " + diff);
  bool movable = true;
  for (auto &j : r.joints)
    movable &= j.type != ref::PLANAR && j.type != ref::FLOATING;
  if (movable) {
    KinematicModel a(text), b(out);
    c.check(a.get_link_names() == b.get_link_names() && a.get_joint_names() == b.get_joint_names(), "export-names", "the exported robot has other names");
    auto ids = a.get_joint_ids(a.get_joint_names());
    std::vector<double> q;
    for (size_t i = 0; i < ids.size(); ++i)
      q.push_back(g.uni(-3, 3));
    a.set_joint_angles(ids, q), b.set_joint_angles(ids, q);
    for (size_t i = 0; i < a.get_link_names().size(); ++i) {
      Transform x, y;
      a.get_link_pose(i, x), b.get_link_pose(i, y);
      R s = 1 + fabsl(x.position.x) + fabsl(x.position.y) + fabsl(x.position.z);
      ref::Pose p = to_ref(x), t = to_ref(y);
      for (auto &j : r.joints)
        s += fabsl(j.origin.xyz[0]) + fabsl(j.origin.xyz[1]) + fabsl(j.origin.xyz[2]) + 3;
      for (auto &l : r.links)
        s += fabsl(l.inertial.origin.xyz[0]) + fabsl(l.inertial.origin.xyz[1]) + fabsl(l.inertial.origin.xyz[2]);
      c.check(ref::norm(p.p - t.p) <= 1e-5L * s && ref::mat_dist(p.r, t.r) <= 1e-5L, "export-fk", cat("pose of ", a.get_link_names()[i], " is ", show(x), " and ", show(y), " after the export"));
      c.count("poses_compared");
      ++c.evaluations;
    }
  }
  c.nontrivial(vh::hash_str(text));
  c.sample(out);
}
// ------------------------------------------------------------------ U05
struct Punct : std::numpunct<char> {
  char point, sep;
  std::string grp;
  Punct(char p, char s, const std::string &g) : point(p), sep(s), grp(g) {}
  char do_decimal_point() const override { return point; }
  char do_thousands_sep() const override { return sep; }
  std::string do_grouping() const override { return grp; }
  std::string do_truename() const override { return "1.5"; }
};
static List kinematic(const std::string &text) {
  udump::Dumper d;
  d.exportable = false;
  KinematicModel k(text);
  auto ids = k.get_joint_ids(k.get_joint_names());
  Rng g(7);
  std::vector<double> q;
  for (size_t i = 0; i < ids.size(); ++i)
    q.push_back(g.uni(-3, 3));
  k.set_joint_angles(ids, q);
  for (auto &n : k.get_link_names())
    d.text("link name", n);
  for (auto &n : k.get_joint_names())
    d.text("joint name", n);
  for (size_t i = 0; i < k.get_link_names().size(); ++i) {
    Transform t;
    k.get_link_pose(i, t);
    d.pose("pose", t);
    if (i % 3)
      continue;
    Eigen::MatrixXd J = k.get_jacobian(i, ids, RotationType(i / 3 % 3), true);
    for (long n = 0; n < J.size(); ++n)
      d.num("jacobian", J.data()[n]);
  }
  for (auto &b : k.get_joint_position_limits(ids))
    d.num("lower", b.first), d.num("upper", b.second);
  for (double v : k.get_joint_velocity_limits(ids))
    d.num("velocity", v);
  for (double v : k.get_joint_effort_limits(ids))
    d.num("effort", v);
  d.num("mass", k.total_mass_);
  if (k.total_mass_ > 0) {
    auto com = k.get_com();
    d.num("com", com.x), d.num("com", com.y), d.num("com", com.z);
    Eigen::Matrix3d I = k.get_total_inertia_matrix();
    for (long n = 0; n < 9; ++n)
      d.num("inertia", I.data()[n]);
  }
  return d.out;
}
static std::string export_text(const urdf::ModelInterface &m) {
  std::unique_ptr<TiXmlDocument> d(urdf::exportURDF(m));
  TiXmlPrinter p;
  d->Accept(&p);
  return p.Str();
}
static const char *c_locales[] = {"de_DE.UTF-8", "de_DE", "tr_TR.UTF-8", "fr_FR.UTF-8"};
static void u05(Ctx &c) {
  Rng g(c.case_seed), sg(c.case_seed + 1);
  gen::Opts o;
  o.details = true;
  o.fancy_numbers = g.chance(0.7);
  ref::Robot r = gen::robot(g, o);
  El e = gen::robot_el(r);
  respell(g, e);
  std::string text = gen::text(e, random_style(g, sg));
  c.log(text);
  std::string file = c.scratch + "/locale.urdf";
  spit(file, text);
  auto m0 = urdf::parseURDF(text);
  c.check(m0 != nullptr, "rejected", "a valid description was rejected");
  List d0 = udump::dump(*m0), k0 = kinematic(text);
  std::string x0 = export_text(*m0);
  for (int n = 0; n < 3; ++n) {
    std::string what;
    const char *cl = g.chance(0.7) ? c_locales[g.below(4)] : nullptr;
    std::locale old;
    int cpp = int(g.below(4));
    List d1, d2, k1;
    std::string x1, x2;
    bool rejected = false;
    struct Restore {
      std::locale l;
      ~Restore() {
        std::locale::global(l);
        setlocale(LC_ALL, "C");
      }
    };
    {
      Restore back{std::locale::classic()};
      switch (cpp) {
      case 1: std::locale::global(std::locale(std::locale::classic(), new Punct(',', '.', "\3"))); what = "C++ locale with decimal comma and groups of 3"; break;
      case 2: std::locale::global(std::locale(std::locale::classic(), new Punct('.', ',', "\1\2"))); what = "C++ locale with uneven groups"; break;
      case 3: std::locale::global(std::locale(std::locale::classic(), new Punct('e', '-', "\1"))); what = "C++ locale with decimal 'e' and grouping by '-'"; break;
      default: what = "classic C++ locale";
      }
      if (cl) {
        if (g.chance(0.5) && cpp == 0) {
          try {
            static std::map<std::string, std::locale> named; // kept: the C library never frees some of their memory
            __lsan_disable();
            if (!named.count(cl))
              named.insert({cl, std::locale(cl)});
            __lsan_enable();
            std::locale::global(named.at(cl));
            what = cat("C and C++ locale ", cl);
            c.count("named_global_locales");
          } catch (const std::exception &) {
            c.count("named_locale_unavailable");
          }
        } else if (setlocale(LC_ALL, cl)) {
          what += cat(" and C locale ", cl);
          c.count(cat("c_locale_", cl));
          char b[16];
          snprintf(b, sizeof b, "%.1f", 0.5);
          if (b[1] == ',')
            c.count("runs_with_decimal_comma");
        } else
          c.count("c_locale_unavailable");
      }
      auto m1 = g.chance(0.5) ? urdf::parseURDF(text) : urdf::parseURDFFile(file);
      rejected = !m1;
      if (m1) {
        d1 = udump::dump(*m1);
        x1 = export_text(*m1);
        x2 = export_text(*m0); // parsed before
        auto m2 = urdf::parseURDF(x1);
        if (m2)
          d2 = udump::dump(*m2, true);
        k1 = kinematic(text);
      }
    }
    c.check(!rejected, "locale-rejected", "the description is rejected under " + what);
    std::string diff = udump::exact_diff(d0, d1);
    c.check(diff.empty(), "locale-parse", "parsed differently under " + what + ": " + diff);
    c.check(x1 == x0 && x2 == x0, "locale-export", "exported differently under " + what);
    diff = udump::exact_diff(k0, k1);
    c.check(diff.empty(), "locale-model", "the model differs under " + what + ": " + diff);
    diff = udump::close_diff(udump::dump(*m0, true), d2);
    c.check(diff.empty(), "locale-round-trip", "export and parsing under " + what + " lose something: " + diff);
    c.evaluations += long(d0.size() + k0.size());
    c.count("locale_settings");
    c.nontrivial(vh::hash_str(what, vh::hash_str(text)));
    c.log(what);
    c.sample(what + ":\n" + text.substr(0, 800));
  }
  unlink(file.c_str());
}
// ------------------------------------------------------------------ U06
static void u06(Ctx &c) {
  Rng g(c.case_seed), sg(c.case_seed + 1);
  gen::Opts o;
  o.details = g.chance(0.7);
  ref::Robot r = gen::robot(g, o);
  std::string text = gen::urdf(r);
  c.log(text);
  List d0, k0;
  {
    auto m = urdf::parseURDF(text);
    c.check(m != nullptr, "rejected", "a valid description was rejected");
    d0 = udump::dump(*m);
    k0 = kinematic(text);
  }
  for (int n = 0; n < 3; ++n) {
    gen::Style st = random_style(g, sg);
    st.reorder = g.chance(0.7);
    if (n == 0)
      st.reorder = st.spaces = st.refs = st.noise = st.prolog = true;
    std::string t2 = gen::text(gen::robot_el(r), st);
    std::string how = cat("reorder ", st.reorder, " spaces ", st.spaces, " references ", st.refs, " noise ", st.noise, " prolog ", st.prolog);
    const bool lengthy = g.chance(0.01);
    if (lengthy) { // long lines, long stretches without markup
      size_t k = (size_t(1) << g.range(10, 18)) + size_t(g.range(-3, 3)), at = t2.rfind("</");
      std::string fill;
      switch (g.below(4)) {
      case 0: fill = "<!--" + std::string(k, 'c') + "-->"; break;
      case 1: fill = std::string(k, g.pick(std::vector<char>{' ', '\t', '\n', '\r'})); break;
      case 2: fill = "<unknown a='" + std::string(k, 'v') + "'/>"; break;
      default:
        while (fill.size() < k)
          fill += g.chance(0.5) ? "<unknown/>" : "<!-- c -->";
      }
      if (g.chance(0.5)) { // in front of what counts
        size_t p = t2.find("<robot");
        p = p == std::string::npos ? p : t2.find_first_of("<", p + 1);
        if (p != std::string::npos)
          at = p;
      }
      if (at != std::string::npos)
        t2.insert(at, fill);
      how += " with a long stretch";
      c.count("long_stretches");
    }
    c.log("---- " + how + "\n" + t2);
    auto m = urdf::parseURDF(t2);
    c.check(m != nullptr, "spelling-rejected", "an equivalent spelling is rejected: " + how);
    std::string diff = udump::exact_diff(d0, udump::dump(*m));
    c.check(diff.empty(), "spelling-parse", "an equivalent spelling is parsed differently (" + how + "): " + diff);
    diff = udump::exact_diff(k0, kinematic(t2));
    c.check(diff.empty(), "spelling-model", "an equivalent spelling gives another model (" + how + "): " + diff);
    c.evaluations += long(d0.size() + k0.size());
    c.count("spellings");
    c.nontrivial(vh::hash_str(t2));
    if (n == 0)
      c.sample(t2);
    if (lengthy || g.chance(0.3)) {
      std::string f = c.scratch + "/spelling.urdf";
      spit(f, t2);
      auto mf = urdf::parseURDFFile(f);
      c.check(mf != nullptr, "file-rejected", "the description is rejected when read from a file (" + how + ")");
      diff = udump::exact_diff(d0, udump::dump(*mf));
      c.check(diff.empty(), "file-parse", "the description is parsed differently from a file (" + how + "): " + diff);
      diff = udump::exact_diff(k0, kinematic(tinyfk::load_urdf(f)));
      c.check(diff.empty(), "file-model", "the model loaded from a file differs (" + how + "): " + diff);
      c.count("files");
      unlink(f.c_str());
    }
  }
}
// numeric references to characters beyond ASCII
static void u06_refs(Ctx &c, const std::string &prolog, const char *key) {
  std::string lit = prolog + "<robot name='r'><link name='caf\xc3\xa9'/><link name='\xe6\x97\xa5'/><joint name='j' type='continuous'><parent link='caf\xc3\xa9'/><child link='\xe6\x97\xa5'/></joint></robot>";
  std::string ref = prolog + "<robot name='r'><link name='caf&#233;'/><link name='&#x65E5;'/><joint name='j' type='continuous'><parent link='caf\xc3\xa9'/><child link='\xe6\x97\xa5'/></joint></robot>";
  ++c.evaluations;
  List k0 = kinematic(lit), k1;
  try {
    k1 = kinematic(ref);
  } catch (const std::exception &e) {
    c.fail(key, cat("with '", prolog, "' a name written as a character reference is not the same name: ", e.what()));
  }
  std::string d = udump::exact_diff(k0, k1);
  c.check(d.empty(), key, "character references are not the characters: " + d);
}
static void u06_refs_plain(Ctx &c) { u06_refs(c, "", "character-reference-without-declaration"); }
static void u06_refs_declared(Ctx &c) {
  u06_refs(c, "<?xml version=\"1.0\"?>", "character-reference");
  u06_refs(c, "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "character-reference");
  u06_refs(c, "\xef\xbb\xbf", "character-reference");
}
// the bundled robots: file against text, and re-spelled white space
static void u06_data(Ctx &c) {
  for (const char *n : {"pr2", "fetch", "kuka"}) {
    std::string f = c.data_dir + "/data/" + n + ".urdf";
    std::string t = slurp(f);
    if (t.empty())
      continue;
    List k0 = kinematic(t), k1 = kinematic(tinyfk::load_urdf(f));
    std::string d = udump::exact_diff(k0, k1);
    c.check(d.empty(), "file-model", cat("the model of ", n, " differs when loaded from the file: ", d));
    std::string crlf;
    for (char ch : t)
      crlf += ch == '\n' ? "\r\n" : std::string(1, ch);
    d = udump::exact_diff(k0, kinematic(crlf));
    c.check(d.empty(), "spelling-model", cat("the model of ", n, " differs with CRLF line ends: ", d));
    c.count("bundled_robots");
    ++c.evaluations;
  }
}

// ------------------------------------------------------------------ U03
static void collect(El &e, std::vector<El *> &v) {
  v.push_back(&e);
  for (auto &k : e.kids)
    collect(k, v);
}
static bool load_fails(const std::string &text, std::string &why) {
  try {
    KinematicModel k(text);
  } catch (const std::exception &e) {
    why = e.what();
    return true;
  }
  return false;
}
static std::vector<El *> kids(El &e, const char *name) {
  std::vector<El *> v;
  for (auto &k : e.kids)
    if (k.name == name)
      v.push_back(&k);
  return v;
}
static void drop_attr(El &e, const std::string &a) {
  for (size_t i = 0; i < e.attrs.size(); ++i)
    if (e.attrs[i].first == a) {
      e.attrs.erase(e.attrs.begin() + long(i));
      return;
    }
}
static std::string *attr(El &e, const std::string &a) {
  for (auto &x : e.attrs)
    if (x.first == a)
      return &x.second;
  return nullptr;
}
static void drop_kid(El &e, const El *k) {
  for (size_t i = 0; i < e.kids.size(); ++i)
    if (&e.kids[i] == k) {
      e.kids.erase(e.kids.begin() + long(i));
      return;
    }
}
static const char *junk_number(Rng &g, bool vec) {
  static const char *j[] = {"abc", "1.0x", "x1", "0x1A", "1,5", "--3", "1e", "1e+", ".", "1.2.3", "-", "1_000", "1;", "(1)", "1.0f", "e5", "+-1", "1e5.5", "1..0"};
  static const char *s[] = {"", "1 2", "1 x", " "};
  if (!vec && g.chance(0.2))
    return s[g.below(4)];
  return j[g.below(sizeof j / sizeof *j)];
}
// One defect. Returns a description, or "" if there is no place for it.
static std::string spoil(Rng &g, ref::Robot &r, El &e, std::string &text, bool &parser_too, size_t &kind) {
  parser_too = true;
  std::vector<El *> joints = kids(e, "joint"), links = kids(e, "link"), mats = kids(e, "material");
  El *j = joints.empty() ? nullptr : g.pick(joints);
  auto render = [&]() {
    Rng sg(g.u64());
    text = gen::text(e, random_style(g, sg));
  };
  auto plain = [&]() {
    Rng sg(g.u64());
    gen::Style st = random_style(g, sg);
    st.noise = st.prolog = st.refs = false;
    text = gen::text(e, st);
  };
  switch (kind = g.below(24)) {
  case 0: {
    static const char *t[] = {"", " ", "\n\n", "\t \r\n", "<!-- nothing -->", "<?xml version=\"1.0\"?>", "robot", "<?xml version=\"1.0\"?>\n<!-- x -->\n"};
    text = t[g.below(8)];
    return "empty";
  }
  case 1: case 2: case 3: { // cut off
    if (g.chance(0.5))
      render();
    else
      plain();
    size_t a = text.find("<robot") + 1, b = text.rfind("</robot");
    if (b == std::string::npos)
      return "";
    b = text.find('>', b);
    size_t cut = a + g.below(b - a + 1);
    text = text.substr(0, cut);
    return cat("cut off at ", cut);
  }
  case 4: { // end tags
    plain();
    std::vector<size_t> at;
    for (size_t p = text.find("</"); p != std::string::npos; p = text.find("</", p + 1))
      at.push_back(p);
    if (at.empty())
      return "";
    size_t p = g.pick(at), q = text.find('>', p);
    switch (g.below(5)) {
    case 0: text.erase(p, q - p + 1); return cat("end tag removed at ", p);
    case 1: text.insert(p + 2, "x"); return cat("end tag of another element at ", p);
    case 2: text.erase(q, 1); return cat("end tag not closed at ", p);
    case 3: text.erase(p, 1); return cat("end tag without < at ", p);
    default: text.erase(p + 1, 1); return cat("end tag without / at ", p);
    }
  }
  case 5: { // start tags
    plain();
    struct At {
      size_t end; // of the tag
    };
    std::vector<At> at;
    for (size_t p = 0; p + 1 < text.size(); ++p)
      if (text[p] == '<' && !strchr("/!?", text[p + 1])) {
        bool attrs = false;
        size_t q = p + 1;
        for (; q < text.size() && text[q] != '>'; ++q)
          if (text[q] == '"' || text[q] == '\'') {
            attrs = true;
            q = text.find(text[q], q + 1);
            if (q == std::string::npos)
              return "";
          }
        if (q >= text.size())
          return "";
        if (attrs)
          at.push_back({q});
        p = q;
      }
    if (at.empty())
      return "";
    size_t end = g.pick(at).end;
    if (g.chance(0.5)) {
      text.erase(end, 1);
      return cat("tag not closed at ", end);
    }
    text[text[end - 1] == '/' ? end - 1 : end] = '<';
    return cat("tag not closed at ", end);
  }
  case 6: { // repeated attribute
    std::vector<El *> all;
    collect(e, all);
    El *x = g.pick(all);
    if (x->attrs.empty())
      return "";
    auto a = g.pick(x->attrs);
    if (g.chance(0.5))
      a.second = "other";
    x->attrs.insert(x->attrs.begin() + long(g.below(x->attrs.size() + 1)), a);
    render();
    return "attribute " + a.first + " repeated in " + x->name;
  }
  case 7:
    if (g.chance(0.5)) {
      drop_attr(e, "name");
      render();
      return "robot without name";
    } else {
      static const char *n[] = {"robots", "Robot", "sdf", "robo", "ROBOT", "_robot"};
      e.name = n[g.below(6)];
      render();
      return "root element is " + e.name;
    }
  case 8: {
    static const char *v[] = {"2.0", "1.1", "0.9", "1", "1.0.0", "", "abc", "-1.0", "1.x", "10.0", "1.", ".0", "0.0", "1.0a", "1,0", "4294967297.0", "1.4294967296", "99999999999999999999.0", "-4294967295.0", "1.-0x", "1.10", "01.01"};
    std::string s = v[g.below(sizeof v / sizeof *v)];
    if (g.chance(0.5)) { // 1.0, but for the size of the number
      static const int w[] = {8, 15, 16, 24, 31, 32, 33, 48, 62};
      unsigned long long k = (1ULL + g.below(3)) << w[g.below(9)];
      switch (g.below(4)) {
      case 0: s = cat(1 + k, ".0"); break;
      case 1: s = cat("1.", k); break;
      case 2: s = cat(g.range(2, 300), ".0"); break;
      default: s = cat("1.", g.range(1, 300));
      }
    }
    e.attr("version", s);
    render();
    return "version " + s;
  }
  case 9: {
    std::vector<El> keep;
    bool jj = g.chance(0.5);
    for (auto &k : e.kids)
      if (k.name != "link" && (jj || k.name != "joint"))
        keep.push_back(k);
    e.kids = keep;
    render();
    return "no link";
  }
  case 10: {
    El d = *g.pick(links);
    if (g.chance(0.5))
      d.kids.clear();
    e.kids.insert(e.kids.begin() + long(g.below(e.kids.size() + 1)), d);
    render();
    return "link " + *attr(d, "name") + " twice";
  }
  case 11: {
    if (!j)
      return "";
    El d = *j;
    if (g.chance(0.6)) { // would be fine under another name
      El l("link");
      l.attr("name", "one more link");
      e.add(l);
      for (auto &k : d.kids)
        if (k.name == "child")
          *attr(k, "link") = "one more link";
    }
    e.kids.insert(e.kids.begin() + long(g.below(e.kids.size() + 1)), d);
    render();
    return "joint " + *attr(d, "name") + " twice";
  }
  case 12: {
    if (mats.empty())
      return "";
    El d = *g.pick(mats);
    e.kids.insert(e.kids.begin() + long(g.below(e.kids.size() + 1)), d);
    render();
    return "material " + *attr(d, "name") + " twice";
  }
  case 13: {
    if (!j)
      return "";
    std::string n = *attr(*j, "name");
    switch (g.below(5)) {
    case 0: drop_attr(*j, "name"); render(); return "joint without name: " + n;
    case 1: drop_attr(*j, "type"); render(); return "joint without type: " + n;
    case 2: {
      static const char *t[] = {"Revolute", "hinge", "", "revolute ", "FIXED", "prismati", "continuous1", "unknown", "ball"};
      *attr(*j, "type") = t[g.below(9)];
      render();
      return "joint " + n + " of type '" + *attr(*j, "type") + "'";
    }
    default: {
      const char *w = g.chance(0.5) ? "parent" : "child";
      El *k = kids(*j, w)[0];
      if (g.chance(0.5))
        drop_kid(*j, k);
      else if (g.chance(0.5))
        drop_attr(*k, "link");
      else
        *attr(*k, "link") = "";
      render();
      return cat("joint without ", w, ": ", n);
    }
    }
  }
  case 14: case 15: case 16: { // malformed number in a joint
    if (!j)
      return "";
    std::vector<std::pair<El *, std::string *>> at;
    std::string type = *attr(*j, "type");
    for (auto &k : j->kids)
      for (auto &a : k.attrs)
        if (numeric_attrs().count(a.first) && !(k.name == "axis" && (type == "fixed" || type == "floating")))
          at.push_back({&k, &a.second});
    if (at.empty())
      return "";
    auto p = at[g.below(at.size())];
    bool vec = p.second->find(' ') != std::string::npos;
    std::string old = *p.second;
    if (!vec)
      *p.second = junk_number(g, false);
    else {
      std::vector<std::string> pc;
      std::istringstream i(old);
      std::string s;
      while (i >> s)
        pc.push_back(s);
      switch (g.below(4)) {
      case 0: pc.pop_back(); break;
      case 1: pc.push_back(pc[0]); break;
      case 2: pc[g.below(pc.size())] = junk_number(g, true); break;
      default: if (g.chance(0.3)) pc.clear(); else pc[g.below(pc.size())] = junk_number(g, true);
      }
      p.second->clear();
      for (auto &x : pc)
        *p.second += (p.second->empty() ? "" : " ") + x;
    }
    render();
    return "joint " + *attr(*j, "name") + " <" + p.first->name + "> has '" + *p.second + "' for '" + old + "'";
  }
  case 17: { // limits
    if (!j)
      return "";
    auto l = kids(*j, "limit");
    std::string type = *attr(*j, "type");
    if (g.chance(0.5)) { // what the other details cannot do without
      auto m = kids(*j, "mimic"), s = kids(*j, "safety_controller"), d = kids(*j, "dynamics");
      std::string what;
      if (!m.empty() && g.chance(0.5))
        drop_attr(*m[0], "joint"), what = "mimic without joint";
      else if (!s.empty() && g.chance(0.7))
        drop_attr(*s[0], "k_velocity"), what = "safety_controller without k_velocity";
      else if (!d.empty())
        drop_attr(*d[0], "damping"), drop_attr(*d[0], "friction"), what = "dynamics without damping and friction";
      if (!what.empty()) {
        render();
        return what + " in joint " + *attr(*j, "name");
      }
    }
    if (l.empty())
      return "";
    if ((type != "revolute" && type != "prismatic") || g.chance(0.6)) {
      drop_attr(*l[0], g.chance(0.5) ? "effort" : "velocity");
      render();
      return "limit without effort or velocity in " + *attr(*j, "name");
    }
    drop_kid(*j, l[0]);
    render();
    return type + " joint without limits: " + *attr(*j, "name");
  }
  case 18: {
    if (!j)
      return "";
    const char *w = g.chance(0.5) ? "parent" : "child";
    std::string &s = *attr(*kids(*j, w)[0], "link");
    std::string old = s;
    std::set<std::string> names;
    for (auto &l : r.links)
      names.insert(l.name);
    switch (g.below(4)) {
    case 0: s += "x"; break;
    case 1: s = "no such link"; break;
    case 2: s = old.substr(0, old.size() - 1); break;
    default: s[0] = char(s[0] ^ 0x20);
    }
    if (names.count(s) || s[0] == 0)
      return "";
    // a link that loses its only joint would be a second root anyway; keep it a tree otherwise
    render();
    return cat("undefined ", w, " link '", s, "'");
  }
  case 19: {
    El l("link");
    l.attr("name", "unattached link");
    e.kids.insert(e.kids.begin() + long(g.below(e.kids.size() + 1)), l);
    if (g.chance(0.3)) {
      El k("link");
      k.attr("name", "unattached child");
      e.add(k);
      El x("joint");
      x.attr("name", "unattached joint").attr("type", "fixed");
      x.add(El("parent").attr("link", "unattached link"));
      x.add(El("child").attr("link", "unattached child"));
      e.add(x);
    }
    render();
    return "two roots";
  }
  case 20: { // a loop
    if (!j)
      return "";
    // the parent of a joint becomes a link below it
    std::string child = *attr(*kids(*j, "child")[0], "link");
    std::vector<std::string> below{child};
    for (size_t n = 0; n < below.size(); ++n)
      for (auto &x : r.joints)
        if (x.parent == below[n])
          below.push_back(x.child);
    std::string to = g.pick(below);
    *attr(*kids(*j, "parent")[0], "link") = to;
    render();
    return "loop: the parent of " + child + " is " + to;
  }
  case 21: { // two parents, or the root below something
    if (r.links.size() < 2)
      return "";
    size_t a = g.below(r.links.size()), b = g.below(r.links.size());
    El x("joint");
    x.attr("name", "one joint too many").attr("type", g.chance(0.5) ? "fixed" : "continuous");
    x.add(El("parent").attr("link", r.links[a].name));
    x.add(El("child").attr("link", r.links[b].name));
    e.kids.insert(e.kids.begin() + long(g.below(e.kids.size() + 1)), x);
    render();
    return "joint too many from " + r.links[a].name + " to " + r.links[b].name;
  }
  case 22: { // a closed loop apart from the tree
    int n = g.range(1, 4);
    for (int i = 0; i < n; ++i) {
      El l("link");
      l.attr("name", cat("circle", i));
      e.add(l);
      El x("joint");
      x.attr("name", cat("circle joint ", i)).attr("type", "fixed");
      x.add(El("parent").attr("link", cat("circle", i)));
      x.add(El("child").attr("link", cat("circle", (i + 1) % n)));
      e.add(x);
    }
    render();
    return cat("closed loop of ", n, " links apart from the tree");
  }
  default: {
    if (!j)
      return "";
    *attr(*j, "type") = g.chance(0.5) ? "planar" : "floating";
    parser_too = false;
    render();
    return *attr(*j, "type") + " joint " + *attr(*j, "name");
  }
  }
}
static void u03(Ctx &c) {
  Rng g(c.case_seed);
  gen::Opts o;
  o.details = g.chance(0.6);
  o.max_links = 8;
  ref::Robot r = gen::robot(g, o);
  std::string text, what, why;
  bool parser_too;
  El e0 = gen::robot_el(r);
  c.check(!load_fails(gen::text(e0), why), "rejected", "a valid description was rejected: " + why);
  for (int n = 0; n < 6; ++n) {
    El e = e0;
    size_t kind;
    what = spoil(g, r, e, text, parser_too, kind);
    if (what.empty()) {
      c.count("no_place");
      continue;
    }
    c.note.clear();
    c.log(what + "\n" + text);
    ++c.evaluations;
    static const char *names[] = {"empty", "cut_off", "cut_off", "cut_off", "end_tag", "start_tag", "repeated_attribute", "root_element", "version", "no_link", "repeated_link", "repeated_joint", "repeated_material", "joint_incomplete", "malformed_number", "malformed_number", "malformed_number", "limits_missing", "undefined_link", "two_roots", "loop", "two_parents", "separate_loop", "planar_or_floating"};
    c.count(cat("defect_", names[kind]));
    if (parser_too)
      c.check(urdf::parseURDF(text) == nullptr, "accepted-by-parser", "parsed in spite of: " + what);
    c.check(load_fails(text, why), "accepted-by-model", "loaded in spite of: " + what);
    if (g.chance(0.2)) {
      std::string f = c.scratch + "/bad.urdf";
      spit(f, text);
      if (parser_too)
        c.check(urdf::parseURDFFile(f) == nullptr, "accepted-from-file", "parsed from a file in spite of: " + what);
      c.check(load_fails(tinyfk::load_urdf(f), why), "accepted-by-model", "loaded from a file in spite of: " + what);
      unlink(f.c_str());
    }
    c.nontrivial(vh::hash_str(text));
    c.sample(what + "\n" + text.substr(0, 900));
  }
}

// ------------------------------------------------------------------ U07
// A flaw in what a description need not state (inertial data, a visual, a collision, a
// colour) of one link stays in that place.
struct Flaw {
  std::string what, link, part, material;
  size_t index = 0; // of the visual or collision
  bool global = false;
};
static bool take_attr(El &e, const std::string &k) {
  for (size_t i = 0; i < e.attrs.size(); ++i)
    if (e.attrs[i].first == k) {
      e.attrs.erase(e.attrs.begin() + long(i));
      return true;
    }
  return false;
}
static std::string *attr_of(El &e, const std::string &k) {
  for (auto &a : e.attrs)
    if (a.first == k)
      return &a.second;
  return nullptr;
}
static void drop_kid(El &e, const std::string &n) {
  for (size_t i = e.kids.size(); i-- > 0;)
    if (e.kids[i].name == n)
      e.kids.erase(e.kids.begin() + long(i));
}
static std::string spoil_vector(Rng &g, std::string *v, int n) {
  std::vector<std::string> x;
  for (int i = 0; i < n; ++i)
    x.push_back(vh::num(g.range(0, 4) * 0.25));
  switch (g.below(4)) {
  case 0: x.pop_back(); break;
  case 1: x.push_back("0"); break;
  case 2: x.clear(); x.push_back(g.chance(0.5) ? "" : "1"); break;
  default: x[g.below(x.size())] = junk_number(g, true);
  }
  v->clear();
  for (auto &y : x)
    *v += (v->empty() ? "" : " ") + y;
  return *v;
}
static std::string spoil_origin(Rng &g, El &e) {
  if (kids(e, "origin").empty())
    e.kids.insert(e.kids.begin(), El("origin"));
  El &o = *kids(e, "origin")[0];
  std::string k = g.chance(0.5) ? "xyz" : "rpy";
  if (!attr_of(o, k))
    o.attr(k, "");
  return cat("origin ", k, " '", spoil_vector(g, attr_of(o, k), 3), "'");
}
static bool make_flaw(Rng &g, El &e, Flaw &f) {
  std::vector<El *> links = kids(e, "link");
  El &l = *g.pick(links);
  f = Flaw();
  f.link = *attr_of(l, "name");
  size_t kind = g.below(4);
  if (kind == 0) { // a colour
    struct C {
      El *mat, *col;
      std::string link;
      bool global;
    };
    std::vector<C> all;
    for (El *m : kids(e, "material"))
      for (El *c : kids(*m, "color"))
        all.push_back({m, c, "", true});
    for (El *k : links)
      for (El *v : kids(*k, "visual"))
        for (El *m : kids(*v, "material"))
          for (El *c : kids(*m, "color"))
            all.push_back({m, c, *attr_of(*k, "name"), false});
    if (all.empty())
      return false;
    const C &c = g.pick(all);
    f.part = "colour", f.material = *attr_of(*c.mat, "name"), f.link = c.link, f.global = c.global;
    std::string *v = attr_of(*c.col, "rgba");
    if (!v)
      return false;
    if (g.chance(0.5)) { // out of range
      static const char *bad[] = {"2", "-1", "1.0000001", "-0.0000001", "255", "-1e-300", "1e30", "1.5"};
      std::vector<std::string> x;
      for (int i = 0; i < 4; ++i)
        x.push_back(vh::num(g.range(0, 4) * 0.25));
      x[g.below(4)] = bad[g.below(8)];
      *v = x[0] + " " + x[1] + " " + x[2] + " " + x[3];
    } else
      spoil_vector(g, v, 4);
    f.what = cat("colour '", *v, "' of material ", f.material);
    return true;
  }
  if (kind == 1) {
    if (kids(l, "inertial").empty())
      return false;
    El &i = *kids(l, "inertial")[0];
    f.part = "inertial";
    El *mass = kids(i, "mass").empty() ? nullptr : kids(i, "mass")[0], *in = kids(i, "inertia").empty() ? nullptr : kids(i, "inertia")[0];
    static const char *comp[] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
    std::string k = comp[g.below(6)];
    switch (g.below(7)) {
    case 0: drop_kid(i, "mass"), f.what = "no mass"; break;
    case 1: if (!mass || !take_attr(*mass, "value")) return false; f.what = "mass without value"; break;
    case 2: if (!mass || !attr_of(*mass, "value")) return false; f.what = cat("mass '", *attr_of(*mass, "value") = junk_number(g, false), "'"); break;
    case 3: drop_kid(i, "inertia"), f.what = "no inertia"; break;
    case 4: if (!in || !take_attr(*in, k)) return false; f.what = "inertia without " + k; break;
    case 5: if (!in || !attr_of(*in, k)) return false; f.what = cat(k, " '", *attr_of(*in, k) = junk_number(g, false), "'"); break;
    default: f.what = spoil_origin(g, i);
    }
    f.what = "inertial of " + f.link + ": " + f.what;
    return true;
  }
  f.part = kind == 2 ? "visual" : "collision";
  std::vector<El *> sh = kids(l, f.part.c_str());
  if (sh.empty())
    return false;
  f.index = g.below(sh.size());
  El &s = *sh[f.index];
  std::vector<El *> geos = kids(s, "geometry");
  if (geos.empty() || geos[0]->kids.empty())
    return false;
  El &geo = *geos[0];
  // unknown elements may stand before the shape
  El *shape = nullptr;
  for (auto &k : geo.kids)
    if (k.name == "box" || k.name == "sphere" || k.name == "cylinder" || k.name == "mesh")
      shape = &k;
  if (!shape)
    return false;
  switch (g.below(6)) {
  case 0: drop_kid(s, "geometry"), f.what = "no geometry"; break;
  case 1: geo.kids.clear(), f.what = "empty geometry"; break;
  case 2: shape->name = g.chance(0.5) ? "pyramid" : g.chance(0.5) ? "Box" : "capsule", f.what = "shape " + shape->name; break;
  case 3: { // without an attribute it needs
    std::string k = shape->name == "box" ? "size" : shape->name == "mesh" ? "filename" : shape->name == "sphere" || g.chance(0.5) ? "radius" : "length", n = shape->name;
    if (!take_attr(*shape, k))
      return false;
    f.what = n + " without " + k;
    break;
  }
  case 4: {
    std::string n = shape->name;
    if (n == "box" || n == "mesh") {
      std::string k = n == "box" ? "size" : "scale";
      if (!attr_of(*shape, k))
        shape->attr(k, "");
      f.what = cat(n, " ", k, " '", spoil_vector(g, attr_of(*shape, k), 3), "'");
    } else {
      std::string k = n == "sphere" || g.chance(0.5) ? "radius" : "length";
      if (!attr_of(*shape, k))
        return false;
      f.what = cat(n, " ", k, " '", *attr_of(*shape, k) = junk_number(g, false), "'");
    }
    break;
  }
  default:
    if (f.part == "visual" && g.chance(0.3)) {
      std::vector<El *> m = kids(s, "material");
      if (m.empty() || !take_attr(*m[0], "name"))
        return false;
      f.what = "material without name";
    } else
      f.what = spoil_origin(g, s);
  }
  f.what = cat(f.part, " ", f.index, " of ", f.link, ": ", f.what);
  return true;
}
template <class S> static udump::List shape_list(const S &v) {
  udump::Dumper d;
  d.exportable = false;
  d.text("name", v.name), d.pose("origin", v.origin), d.geometry("geometry", v.geometry);
  return d.out;
}
// What is kept of a list of shapes are ones that are stated, in their order, without the flawed one.
template <class A> static void check_kept(Ctx &c, const A &got, const A &stated, size_t without, const std::string &what) {
  size_t at = 0;
  for (size_t i = 0; i < got.size(); ++i) {
    c.check(got[i] && got[i]->geometry, "shape-without-geometry", what + " leaves a shape without geometry");
    while (at < stated.size() && (at == without || !udump::exact_diff(shape_list(*stated[at]), shape_list(*got[i])).empty()))
      ++at;
    c.check(at < stated.size(), "shape-not-stated", cat(what, ": shape ", i, " of the link is none of those stated without flaw"));
    ++at;
    c.count("shapes_kept");
  }
}
static void u07(Ctx &c) {
  Rng g(c.case_seed);
  gen::Opts o;
  o.details = true;
  o.max_links = 7;
  o.fancy_numbers = g.chance(0.3);
  ref::Robot r = gen::robot(g, o);
  El e0 = gen::robot_el(r);
  respell(g, e0);
  std::string good = gen::text(e0);
  for (int n = 0; n < 5; ++n) {
    El e = e0;
    Flaw f;
    if (!make_flaw(g, e, f)) {
      c.count("no_place");
      continue;
    }
    Rng sg(g.u64());
    std::string text = gen::text(e, random_style(g, sg));
    c.note.clear();
    c.log(f.what + "\n" + text);
    auto b = urdf::parseURDF(good), m = urdf::parseURDF(text);
    c.check(b != nullptr, "rejected", "a valid description was rejected");
    c.check(m != nullptr, "flaw-rejected", "not loaded because of: " + f.what);
    ++c.evaluations;
    c.count("flaw_" + f.part);
    // colours
    auto in_range = [&](const urdf::Material &q) {
      for (float v : {q.color.r, q.color.g, q.color.b, q.color.a})
        c.check(v >= 0 && v <= 1, "colour-out-of-range", cat(f.what, ": material ", q.name, " has a colour component ", v));
      c.count("colours_checked");
    };
    for (auto &kv : m->materials_)
      in_range(*kv.second);
    for (auto &kv : m->links_)
      for (auto &v : kv.second->visual_array)
        if (v->material)
          in_range(*v->material);
    if (f.part == "colour" && f.global) {
      auto q = m->getMaterial(f.material), w = b->getMaterial(f.material);
      c.check(q != nullptr && w != nullptr, "material-lost", "material missing: " + f.what);
      c.check(q->color.r == 0 && q->color.g == 0 && q->color.b == 0 && q->color.a == 1, "flawed-colour-taken",
              cat(f.what, ": the colour is ", q->color.r, " ", q->color.g, " ", q->color.b, " ", q->color.a, ", not the default"));
      q->color = w->color;
      for (auto &kv : m->links_)
        for (auto &v : kv.second->visual_array)
          if (v->material && v->material_name == f.material)
            v->material->color = w->color;
    } else { // a definition of a material may be in what was not read
      for (auto *x : {&*m, &*b}) {
        x->materials_.clear();
        for (auto &kv : x->links_)
          for (auto &v : kv.second->visual_array)
            v->material.reset();
      }
    }
    // the place of the flaw
    if (f.part == "inertial" || f.part == "visual" || f.part == "collision") {
      auto lm = m->links_[f.link], lb = b->links_[f.link];
      c.check(lm && lb, "link-lost", "link missing: " + f.what);
      const size_t none = size_t(-1);
      check_kept(c, lm->visual_array, lb->visual_array, f.part == "visual" ? f.index : none, f.what);
      check_kept(c, lm->collision_array, lb->collision_array, f.part == "collision" ? f.index : none, f.what);
      c.check(!lm->visual || (!lm->visual_array.empty() && lm->visual == lm->visual_array[0]), "first-visual", f.what + ": the first visual is none of the list");
      c.check(!lm->collision || (!lm->collision_array.empty() && lm->collision == lm->collision_array[0]), "first-collision", f.what + ": the first collision is none of the list");
      for (auto *l : {&*lm, &*lb}) {
        l->visual_array.clear(), l->collision_array.clear();
        l->visual.reset(), l->collision.reset();
      }
      if (f.part == "inertial") {
        if (lm->inertial) {
          auto &x = *lm->inertial, &y = *lb->inertial;
          double v[7] = {x.mass, x.ixx, x.ixy, x.ixz, x.iyy, x.iyz, x.izz}, w[7] = {y.mass, y.ixx, y.ixy, y.ixz, y.iyy, y.iyz, y.izz};
          for (int i = 0; i < 7; ++i)
            c.check(v[i] == w[i] || v[i] == 0, "inertial-not-stated", cat(f.what, ": value ", i, " is ", v[i], ", stated ", w[i]));
          c.count("inertials_kept");
        }
        lm->inertial.reset(), lb->inertial.reset();
      }
    }
    std::string d = udump::exact_diff(udump::dump(*b), udump::dump(*m));
    c.check(d.empty(), "flaw-spreads", f.what + ": differs elsewhere: " + d);
    c.count("descriptions_compared");
    // and the kinematics
    std::unique_ptr<tinyfk::KinematicModel> kb(new tinyfk::KinematicModel(good)), km;
    try {
      km.reset(new tinyfk::KinematicModel(text));
    } catch (std::exception &x) {
      c.fail("flaw-rejected", cat("not loaded because of: ", f.what, " (", x.what(), ")"));
    }
    std::vector<std::string> names;
    std::vector<double> q;
    for (auto &j : r.joints)
      if (j.movable())
        names.push_back(j.name), q.push_back(gen::angle(g));
    kb->set_joint_angles(kb->get_joint_ids(names), q), km->set_joint_angles(km->get_joint_ids(names), q);
    for (auto &l : r.links) {
      Transform x, y;
      kb->get_link_pose(kb->get_link_ids({l.name})[0], x), km->get_link_pose(km->get_link_ids({l.name})[0], y);
      ref::Pose a = to_ref(x), z = to_ref(y);
      c.check(ref::norm(a.p - z.p) <= 1e-12L * (1 + ref::norm(a.p)) && ref::mat_dist(a.r, z.r) <= 1e-12L, "flaw-moves-link", cat(f.what, ": pose of ", l.name, " is ", show(y), ", without the flaw ", show(x)));
      c.count("poses_compared");
    }
    if (f.part != "inertial" && kb->total_mass_ > 0) {
      auto x = kb->get_com(), y = km->get_com();
      R s = 1e-12L * (1 + fabsl(R(x.x)) + fabsl(R(x.y)) + fabsl(R(x.z)));
      c.check(kb->total_mass_ == km->total_mass_ && fabsl(R(x.x) - y.x) <= s && fabsl(R(x.y) - y.y) <= s && fabsl(R(x.z) - y.z) <= s, "flaw-moves-com",
              cat(f.what, ": mass ", km->total_mass_, " and center of mass ", y.x, " ", y.y, " ", y.z, ", without the flaw ", kb->total_mass_, ", ", x.x, " ", x.y, " ", x.z));
      c.count("coms_compared");
    }
    c.nontrivial(vh::hash_str(text));
    c.sample(f.what + "\n" + text.substr(0, 900));
  }
}

// ------------------------------------------------------------------ U08: models that are put together by hand
// Objects come fresh or used: then they hold something else first and are cleared.
static void scribble(Rng &g, urdf::Vector3 &v) { v = urdf::Vector3(gen::number(g, true), gen::number(g, true), gen::number(g, true)); }
static void scribble(Rng &g, urdf::Rotation &r) { r.x = g.uni(1, 2), r.y = g.uni(1, 2), r.z = g.uni(1, 2), r.w = g.uni(2, 3); }
static void scribble(Rng &g, std::initializer_list<double *> v) {
  for (double *x : v)
    *x = gen::number(g, true);
}
static void scribble(Rng &g, urdf::Pose &p) { scribble(g, p.position), scribble(g, p.rotation); }
static void zero(Ctx &c, const char *what, std::initializer_list<double> v) {
  for (double x : v)
    c.check(x == 0, "default-value", cat("a new or cleared ", what, " holds ", x));
  c.count("defaults_checked");
}
static void is_default(Ctx &c, const urdf::Pose &p, const char *what) {
  zero(c, what, {p.position.x, p.position.y, p.position.z, p.rotation.x, p.rotation.y, p.rotation.z, p.rotation.w - 1});
}
static void is_default(Ctx &c, const urdf::Color &k) { zero(c, "colour", {k.r, k.g, k.b, k.a - 1}); }
static void check_defaults(Ctx &c, Rng &g) {
  for (int used = 0; used < 2; ++used) {
    {
      urdf::Pose p;
      if (used)
        scribble(g, p), p.clear();
      is_default(c, p, "pose");
      urdf::Vector3 v;
      urdf::Rotation r;
      if (used)
        scribble(g, v), v.clear(), scribble(g, r), r.clear();
      zero(c, "vector or rotation", {v.x, v.y, v.z, r.x, r.y, r.z, r.w - 1});
    }
    {
      urdf::Color k;
      if (used)
        k.r = float(g.uni(0, 1)), k.g = float(g.uni(0, 1)), k.b = float(g.uni(0, 1)), k.a = float(g.below(2)), k.clear();
      is_default(c, k);
      urdf::Material m;
      if (used)
        m.name = "m", m.texture_filename = "t", m.color.r = m.color.a = 0.3f, m.clear();
      is_default(c, m.color);
      c.check(m.name.empty() && m.texture_filename.empty(), "default-value", "a new or cleared material has a name or texture");
    }
    {
      urdf::JointDynamics d;
      if (used)
        scribble(g, {&d.damping, &d.friction}), d.clear();
      zero(c, "dynamics", {d.damping, d.friction});
      urdf::JointLimits l;
      if (used)
        scribble(g, {&l.lower, &l.upper, &l.effort, &l.velocity}), l.clear();
      zero(c, "limits", {l.lower, l.upper, l.effort, l.velocity});
      urdf::JointSafety s;
      if (used)
        scribble(g, {&s.soft_lower_limit, &s.soft_upper_limit, &s.k_position, &s.k_velocity}), s.clear();
      zero(c, "safety", {s.soft_lower_limit, s.soft_upper_limit, s.k_position, s.k_velocity});
      urdf::JointCalibration k;
      if (used)
        scribble(g, {&k.reference_position}), k.clear();
      zero(c, "calibration", {k.reference_position});
      urdf::JointMimic m;
      if (used)
        scribble(g, {&m.offset, &m.multiplier}), m.joint_name = "j", m.clear();
      zero(c, "mimic", {m.offset});
      c.check(m.joint_name.empty(), "default-value", "a new or cleared mimic has a joint name");
    }
    {
      urdf::Sphere s;
      urdf::Box b;
      urdf::Cylinder y;
      urdf::Mesh m;
      c.check(s.type == urdf::Geometry::SPHERE && b.type == urdf::Geometry::BOX && y.type == urdf::Geometry::CYLINDER && m.type == urdf::Geometry::MESH, "default-value", "kind of a new shape");
      if (used) {
        scribble(g, {&s.radius, &y.radius, &y.length}), scribble(g, b.dim), m.filename = "f", scribble(g, m.scale);
        s.clear(), b.clear(), y.clear(), m.clear();
      }
      zero(c, "shape", {s.radius, b.dim.x, b.dim.y, b.dim.z, y.radius, y.length, m.scale.x - 1, m.scale.y - 1, m.scale.z - 1});
      c.check(m.filename.empty(), "default-value", "a new or cleared mesh has a file");
    }
    {
      urdf::Inertial i;
      urdf::Visual v;
      urdf::Collision k;
      if (used) {
        scribble(g, {&i.mass, &i.ixx, &i.ixy, &i.ixz, &i.iyy, &i.iyz, &i.izz}), scribble(g, i.origin), i.clear();
        v.name = "v", v.material_name = "m", v.material = std::make_shared<urdf::Material>(), v.geometry = std::make_shared<urdf::Box>(), scribble(g, v.origin), v.clear();
        k.name = "k", k.geometry = std::make_shared<urdf::Box>(), scribble(g, k.origin), k.clear();
      }
      zero(c, "inertial", {i.mass, i.ixx, i.ixy, i.ixz, i.iyy, i.iyz, i.izz});
      is_default(c, i.origin, "inertial"), is_default(c, v.origin, "visual"), is_default(c, k.origin, "collision");
      c.check(v.name.empty() && v.material_name.empty() && !v.material && !v.geometry && k.name.empty() && !k.geometry, "default-value", "a new or cleared shape holds something");
    }
    {
      urdf::Joint j;
      if (used) {
        j.type = urdf::Joint::FIXED, scribble(g, j.axis), scribble(g, j.parent_to_joint_origin_transform), j.child_link_name = "a", j.parent_link_name = "b";
        j.limits = std::make_shared<urdf::JointLimits>(), j.dynamics = std::make_shared<urdf::JointDynamics>(), j.safety = std::make_shared<urdf::JointSafety>();
        j.calibration = std::make_shared<urdf::JointCalibration>(), j.mimic = std::make_shared<urdf::JointMimic>();
        j.clear();
      }
      zero(c, "joint", {j.axis.x, j.axis.y, j.axis.z});
      is_default(c, j.parent_to_joint_origin_transform, "joint");
      c.check(j.type == urdf::Joint::UNKNOWN && j.child_link_name.empty() && j.parent_link_name.empty() && !j.limits && !j.dynamics && !j.safety && !j.calibration && !j.mimic, "default-value", "a new or cleared joint holds something");
      urdf::Link l;
      if (used) {
        l.name = "l", l.inertial = std::make_shared<urdf::Inertial>(), l.visual = std::make_shared<urdf::Visual>(), l.collision = std::make_shared<urdf::Collision>();
        l.visual_array.push_back(l.visual), l.collision_array.push_back(l.collision), l.parent_joint = std::make_shared<urdf::Joint>();
        l.child_joints.push_back(l.parent_joint), l.child_links.push_back(std::make_shared<urdf::Link>());
        l.clear();
      }
      c.check(l.name.empty() && !l.inertial && !l.visual && !l.collision && l.visual_array.empty() && l.collision_array.empty() && !l.parent_joint && l.child_joints.empty() && l.child_links.empty(), "default-value",
              "a new or cleared link holds something");
    }
  }
}
// What the classes read from text themselves.
static std::string spaced(Rng &g, const std::vector<std::string> &v) {
  std::string s(g.chance(0.2) ? g.below(3) : 0, ' ');
  for (size_t i = 0; i < v.size(); ++i)
    s += (i ? std::string(g.chance(0.2) ? 2 : 1, ' ') : "") + v[i];
  return s + std::string(g.chance(0.2) ? 1 : 0, ' ');
}
static void check_init(Ctx &c, Rng &g) {
  for (int n = 0; n < 6; ++n) {
    std::vector<double> v;
    std::vector<std::string> t;
    for (int i = 0; i < 4; ++i)
      v.push_back(gen::number(g, true)), t.push_back(vh::num(v.back()));
    size_t len = g.chance(0.6) ? 3 : g.below(5);
    bool bad = len != 3;
    std::vector<std::string> w(t.begin(), t.begin() + long(len));
    if (len && g.chance(0.3))
      w[g.below(len)] = junk_number(g, true), bad = true;
    std::string s = spaced(g, w);
    urdf::Vector3 x;
    scribble(g, x);
    bool threw = false;
    try {
      x.init(s);
    } catch (const urdf::ParseError &) {
      threw = true;
    }
    ++c.evaluations;
    c.check(threw == bad, "vector-text", "the vector '" + s + (threw ? "' is rejected" : "' is accepted"));
    c.check(bad || (x.x == v[0] && x.y == v[1] && x.z == v[2]), "vector-text", cat("the vector '", s, "' is read as ", x.x, " ", x.y, " ", x.z));
    urdf::Rotation r;
    for (double &a : v)
      a = g.uni(-4, 4);
    for (int i = 0; i < 4; ++i)
      t[size_t(i)] = vh::num(v[size_t(i)]);
    w.assign(t.begin(), t.begin() + long(len));
    bad = len != 3;
    if (len && g.chance(0.3))
      w[g.below(len)] = junk_number(g, true), bad = true;
    s = spaced(g, w);
    scribble(g, r);
    threw = false;
    try {
      r.init(s);
    } catch (const urdf::ParseError &) {
      threw = true;
    }
    c.check(threw == bad, "rotation-text", "the rotation '" + s + (threw ? "' is rejected" : "' is accepted"));
    c.check(bad || ref::mat_dist(ref::from_quat(r.x, r.y, r.z, r.w), ref::rpy(v[0], v[1], v[2])) < 1e-11L, "rotation-text", "the rotation '" + s + "' is read wrongly");
    // colours: four components in [0, 1]
    urdf::Color k;
    k.r = k.g = k.b = k.a = 0.5f;
    len = g.chance(0.6) ? 4 : g.below(6);
    w.clear(), v.clear();
    bad = len != 4;
    for (size_t i = 0; i < len; ++i) {
      v.push_back(g.chance(0.2) ? double(g.below(2)) : g.uni(0, 1));
      if (g.chance(0.06))
        v.back() = g.chance(0.5) ? -g.uni(1e-6, 3) : 1 + g.uni(1e-6, 300), bad = true;
      w.push_back(vh::num(v.back()));
    }
    if (len && g.chance(0.2))
      w[g.below(len)] = junk_number(g, true), bad = true;
    s = spaced(g, w);
    bool ok = false;
    try {
      ok = k.init(s);
    } catch (const urdf::ParseError &) {
    }
    c.check(ok == !bad, "colour-text", "the colour '" + s + (ok ? "' is accepted" : "' is rejected"));
    if (bad)
      is_default(c, k);
    else
      c.check(k.r == float(v[0]) && k.g == float(v[1]) && k.b == float(v[2]) && k.a == float(v[3]), "colour-text", cat("the colour '", s, "' is read as ", k.r, " ", k.g, " ", k.b, " ", k.a));
    c.count(bad ? "bad_texts" : "good_texts");
  }
}
static void hand_pose(Rng &g, urdf::Pose &p, const ref::Origin &o) {
  const bool x = o.present && o.has_xyz, r = o.present && o.has_rpy;
  if (g.chance(0.3))
    scribble(g, p), p.clear();
  if (x)
    p.position = urdf::Vector3(o.xyz[0], o.xyz[1], o.xyz[2]);
  if (!r)
    return;
  if (g.chance(0.5))
    p.rotation.setFromRPY(o.rpy[0], o.rpy[1], o.rpy[2]);
  else {
    ref::Q q = ref::to_quat(o.pose().r);
    double k = g.chance(0.5) ? 1 : g.chance(0.5) ? -1 : g.uni(0.1, 10);
    p.rotation.setFromQuaternion(double(q.x * k), double(q.y * k), double(q.z * k), double(q.w * k));
  }
}
static urdf::GeometrySharedPtr hand_geometry(const ref::Geometry &e) {
  switch (e.kind) {
  case 0: {
    auto s = std::make_shared<urdf::Sphere>();
    s->radius = e.radius;
    return s;
  }
  case 1: {
    auto s = std::make_shared<urdf::Box>();
    s->dim = urdf::Vector3(e.dim[0], e.dim[1], e.dim[2]);
    return s;
  }
  case 2: {
    auto s = std::make_shared<urdf::Cylinder>();
    s->radius = e.radius, s->length = e.length;
    return s;
  }
  default: {
    auto s = std::make_shared<urdf::Mesh>();
    s->filename = e.file;
    if (e.has_scale)
      s->scale = urdf::Vector3(e.scale[0], e.scale[1], e.scale[2]);
    return s;
  }
  }
}
// Links, joints and materials, not yet connected.
static void hand_parts(Rng &g, urdf::ModelInterface &m, const ref::Robot &r) {
  m.name_ = r.name;
  auto material = [&](const std::string &n) {
    auto &q = m.materials_[n];
    if (!q) {
      const ref::Material &e = *find_material(r, n);
      q = std::make_shared<urdf::Material>();
      q->name = n;
      if (e.has_texture)
        q->texture_filename = e.texture;
      if (e.has_color)
        q->color.r = float(e.rgba[0]), q->color.g = float(e.rgba[1]), q->color.b = float(e.rgba[2]), q->color.a = float(e.rgba[3]);
    }
    return q;
  };
  for (auto &q : r.materials)
    material(q.name);
  std::vector<const ref::Link *> ls;
  for (auto &l : r.links)
    ls.push_back(&l);
  g.shuffle(ls);
  for (const ref::Link *e : ls) {
    auto l = std::make_shared<urdf::Link>();
    l->name = e->name;
    if (e->has_inertial) {
      auto i = l->inertial = std::make_shared<urdf::Inertial>();
      hand_pose(g, i->origin, e->inertial.origin);
      i->mass = e->inertial.mass;
      const double *v = e->inertial.i;
      i->ixx = v[0], i->ixy = v[1], i->ixz = v[2], i->iyy = v[3], i->iyz = v[4], i->izz = v[5];
    }
    for (auto &s : e->visuals) {
      auto v = std::make_shared<urdf::Visual>();
      if (s.has_name)
        v->name = s.name;
      hand_pose(g, v->origin, s.origin);
      v->geometry = hand_geometry(s.geo);
      if (s.has_material)
        v->material_name = s.mat.name, v->material = material(s.mat.name);
      l->visual_array.push_back(v);
    }
    for (auto &s : e->collisions) {
      auto v = std::make_shared<urdf::Collision>();
      if (s.has_name)
        v->name = s.name;
      hand_pose(g, v->origin, s.origin);
      v->geometry = hand_geometry(s.geo);
      l->collision_array.push_back(v);
    }
    if (!l->visual_array.empty())
      l->visual = l->visual_array[0];
    if (!l->collision_array.empty())
      l->collision = l->collision_array[0];
    m.links_[l->name] = l;
  }
  static const decltype(urdf::Joint::type) types[] = {urdf::Joint::REVOLUTE, urdf::Joint::CONTINUOUS, urdf::Joint::PRISMATIC, urdf::Joint::FIXED, urdf::Joint::PLANAR, urdf::Joint::FLOATING};
  auto opt = [](const ref::Opt &o, double d = 0) { return o.has ? o.v : d; };
  for (auto &e : r.joints) {
    auto j = std::make_shared<urdf::Joint>();
    if (g.chance(0.2)) {
      j->axis.z = 5, j->limits = std::make_shared<urdf::JointLimits>(), j->mimic = std::make_shared<urdf::JointMimic>();
      j->clear();
    }
    j->name = e.name, j->type = types[e.type], j->parent_link_name = e.parent, j->child_link_name = e.child;
    hand_pose(g, j->parent_to_joint_origin_transform, e.origin);
    if (e.type != ref::FIXED && e.type != ref::FLOATING)
      j->axis = e.has_axis ? urdf::Vector3(e.axis[0], e.axis[1], e.axis[2]) : urdf::Vector3(1, 0, 0);
    if (e.has_limit) {
      j->limits = std::make_shared<urdf::JointLimits>();
      j->limits->lower = opt(e.lower), j->limits->upper = opt(e.upper), j->limits->effort = e.effort, j->limits->velocity = e.velocity;
    }
    if (e.has_dynamics) {
      j->dynamics = std::make_shared<urdf::JointDynamics>();
      j->dynamics->damping = opt(e.damping), j->dynamics->friction = opt(e.friction);
    }
    if (e.has_safety) {
      j->safety = std::make_shared<urdf::JointSafety>();
      j->safety->soft_lower_limit = opt(e.soft_lower), j->safety->soft_upper_limit = opt(e.soft_upper), j->safety->k_position = opt(e.k_position), j->safety->k_velocity = e.k_velocity;
    }
    if (e.has_calibration) {
      j->calibration = std::make_shared<urdf::JointCalibration>();
      if (e.rising.has)
        j->calibration->rising = std::make_shared<double>(e.rising.v);
      if (e.falling.has)
        j->calibration->falling = std::make_shared<double>(e.falling.v);
    }
    if (e.has_mimic) {
      j->mimic = std::make_shared<urdf::JointMimic>();
      j->mimic->joint_name = e.mimic_joint, j->mimic->multiplier = opt(e.multiplier, 1), j->mimic->offset = opt(e.offset);
    }
    m.joints_[j->name] = j;
  }
}
static std::string connect(urdf::ModelInterface &m, std::map<std::string, std::string> &up) {
  try {
    m.initTree(up);
    m.initRoot(up);
  } catch (const urdf::ParseError &e) {
    return std::string("rejected: ") + e.what();
  }
  return "";
}
static void check_lookups(Ctx &c, Rng &g, const urdf::ModelInterface &m, const ref::Robot &r) {
  std::set<std::string> links, joints, mats;
  for (auto &l : r.links)
    links.insert(l.name);
  for (auto &j : r.joints)
    joints.insert(j.name);
  for (auto &kv : m.materials_)
    mats.insert(kv.first);
  std::vector<std::string> ask(links.begin(), links.end());
  ask.insert(ask.end(), joints.begin(), joints.end());
  ask.insert(ask.end(), mats.begin(), mats.end());
  for (size_t n = ask.size(), i = 0; i < n; ++i) {
    ask.push_back(ask[i] + "x"), ask.push_back(ask[i].substr(0, ask[i].size() - 1)), ask.push_back(" " + ask[i]);
    std::string s = ask[i];
    for (char &ch : s)
      ch = char(g.chance(0.5) ? toupper(ch) : tolower(ch));
    ask.push_back(s);
  }
  for (auto &n : ask) {
    auto l = m.getLink(n);
    urdf::LinkSharedPtr l2 = std::make_shared<urdf::Link>();
    m.getLink(n, l2);
    auto j = m.getJoint(n);
    auto q = m.getMaterial(n);
    c.check(bool(l) == bool(links.count(n)) && (!l || l->name == n), "lookup-link", "getLink of '" + n + "'");
    c.check(l2 == l, "lookup-link", "the two forms of getLink of '" + n + "' disagree");
    c.check(bool(j) == bool(joints.count(n)) && (!j || j->name == n), "lookup-joint", "getJoint of '" + n + "'");
    c.check(bool(q) == bool(mats.count(n)) && (!q || q->name == n), "lookup-material", "getMaterial of '" + n + "'");
    c.count("lookups");
  }
  std::vector<urdf::LinkSharedPtr> all;
  if (g.chance(0.5))
    all.resize(g.below(3));
  size_t had = all.size();
  m.getLinks(all);
  c.check(all.size() == had + links.size(), "list-of-links", cat("getLinks adds ", all.size() - had, " of ", links.size()));
  for (auto &n : links)
    c.check(all[had]->name == n, "list-of-links", "getLinks gives '" + all[had]->name + "' where '" + n + "' is due"), ++had;
}
static void u08(Ctx &c) {
  Rng g(c.case_seed);
  check_defaults(c, g);
  check_init(c, g);
  ref::Robot r = detailed(g, 7);
  special_rotations(g, r);
  std::string text = gen::text(gen::robot_el(r));
  c.log(text);
  auto m = std::make_shared<urdf::ModelInterface>();
  if (g.chance(0.3)) { // the model was another one before
    ref::Robot o = detailed(g, 5);
    hand_parts(g, *m, o);
    std::map<std::string, std::string> up;
    if (g.chance(0.7))
      c.check(connect(*m, up).empty(), "hand-made-rejected", "a model put together by hand is rejected");
    m->clear();
    c.check(m->getName().empty() && m->links_.empty() && m->joints_.empty() && m->materials_.empty() && !m->getRoot(), "not-cleared", "a cleared model holds something");
    c.count("models_cleared");
  }
  hand_parts(g, *m, r);
  std::map<std::string, std::string> up;
  std::string why = connect(*m, up);
  c.check(why.empty(), "hand-made-rejected", "a model put together by hand is " + why);
  c.check(up.size() == r.joints.size(), "parents", cat(up.size(), " links with a parent"));
  for (auto &j : r.joints)
    c.check(up.count(j.child) && up[j.child] == j.parent, "parents", "parent of " + j.child);
  check_contents(c, *m, r);
  check_lookups(c, g, *m, r);
  List made = udump::dump(*m, true);
  std::unique_ptr<TiXmlDocument> d(g.chance(0.5) ? urdf::exportURDF(*m) : urdf::exportURDF(m));
  std::string out = print(*d, g, c);
  c.log("---- exported ----\n" + out);
  auto back = urdf::parseURDF(out);
  c.check(back != nullptr, "export-rejected", "the export of a hand-made model is rejected by the parser");
  std::string diff = udump::close_diff(made, udump::dump(*back, true));
  c.check(diff.empty(), "export-differs", "the exported model differs: " + diff);
  ++c.evaluations;
  c.count("models_compared");
  // one that is no tree
  urdf::ModelInterface w;
  hand_parts(g, w, r);
  urdf::JointSharedPtr j;
  if (!r.joints.empty())
    j = w.joints_[g.pick(r.joints).name];
  std::string what;
  switch (g.below(8)) {
  case 0: what = "two roots", w.links_["\x01 one more"] = std::make_shared<urdf::Link>(), w.links_["\x01 one more"]->name = "\x01 one more"; break;
  case 1: what = "no link", w.links_.clear(), w.joints_.clear(); break;
  case 2:
    if (j)
      what = "unknown child", j->child_link_name += "?";
    break;
  case 3:
    if (j)
      what = "unknown parent", j->parent_link_name = "?" + j->parent_link_name;
    break;
  case 4:
    if (j)
      what = "no child", j->child_link_name.clear();
    break;
  case 5:
    if (j)
      what = "no parent", j->parent_link_name.clear();
    break;
  case 6:
    if (j) {
      what = "a joint less", w.joints_.erase(j->name);
    }
    break;
  default:
    if (j) { // a loop through the root, or next to it
      auto k = std::make_shared<urdf::Joint>();
      k->name = "\x01 one more", k->type = urdf::Joint::FIXED;
      k->parent_link_name = g.pick(r.links).name, k->child_link_name = g.chance(0.5) ? r.links[0].name : g.pick(r.links).name;
      w.joints_[k->name] = k;
      what = "one joint too many";
    }
  }
  if (!what.empty()) {
    c.log("then: " + what);
    std::map<std::string, std::string> u2;
    c.check(!connect(w, u2).empty(), "no-tree-accepted", "accepted: " + what);
    c.count("no_trees");
    ++c.evaluations;
  }
  c.nontrivial(vh::hash_str(text));
  c.sample(out);
}

// ------------------------------------------------------------------ U01
static std::string mutate_bytes(Rng &g, std::string s) {
  int n = g.chance(0.5) ? 1 : g.range(1, 12);
  static const char *tok[] = {"<", ">", "/>", "</", "\"", "'", "=", "&", "&#", "&#x", ";", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<!", "\xef\xbb\xbf", "\xc3", "\xe6\x97", "\xf0\x9f", "\xff", "\xef\xbf\xbe", "&lt;", "&#x110000;", "&#99999999999;", "&#xD800;", "<robot name='r'>", "</robot>", "<link name='a'/>", "name=", "xyz=\"0 0 0\"", "1e999", "-1e-400", "nan", " ", "\n", "\r", "\t", "<?xml version=\"1.0\" encoding=\"", "encoding=", "standalone", "<a", "a='"};
  for (int i = 0; i < n; ++i) {
    size_t p = g.below(s.size() + 1), q = std::min(s.size(), p + g.below(g.chance(0.7) ? 8 : 200));
    switch (g.below(8)) {
    case 0: s.erase(p, q - p); break;
    case 1: s.insert(p, tok[g.below(sizeof tok / sizeof *tok)]); break;
    case 2: if (p < s.size()) s[p] = char(g.u64()); break;
    case 3: if (p < s.size()) s[p] = "<>/\"'=&;!-?[] \n"[g.below(15)]; break;
    case 4: s.insert(g.below(s.size() + 1), s.substr(p, q - p)); break;
    case 5: s.resize(p); break;
    case 6: if (p < s.size()) s[p] = '\0'; break;
    default: s.replace(p, q - p, tok[g.below(sizeof tok / sizeof *tok)]);
    }
  }
  return s;
}
static void mutate_tree(Rng &g, El &e) {
  static const char *names[] = {"robot", "link", "joint", "parent", "child", "origin", "axis", "limit", "inertial", "mass", "inertia", "visual", "collision", "geometry", "box", "mesh", "sphere", "cylinder", "material", "color", "texture", "dynamics", "mimic", "calibration", "safety_controller", "x"};
  static const char *vals[] = {"", "0", "1 2 3", "1e308", "-1e308", "1e-320", "nan", "inf", "a", "0 0", "revolute", "continuous", "prismatic", "fixed", "planar", "floating", "1 1 1 1", "2 2 2 2", "1e400"};
  int n = g.range(1, 4);
  for (int i = 0; i < n; ++i) {
    std::vector<El *> all;
    collect(e, all);
    El *x = g.pick(all), *y = g.pick(all);
    switch (g.below(8)) {
    case 0: x->name = names[g.below(26)]; break;
    case 1:
      if (!x->attrs.empty())
        x->attrs.erase(x->attrs.begin() + long(g.below(x->attrs.size())));
      break;
    case 2:
      if (!x->attrs.empty())
        x->attrs[g.below(x->attrs.size())].second = vals[g.below(19)];
      break;
    case 3:
      if (!x->kids.empty())
        x->kids.erase(x->kids.begin() + long(g.below(x->kids.size())));
      break;
    case 4: {
      El copy = *y;
      x->kids.insert(x->kids.begin() + long(g.below(x->kids.size() + 1)), copy);
      break;
    }
    case 5:
      if (!x->attrs.empty() && !y->attrs.empty())
        std::swap(x->attrs[0].second, y->attrs[0].second);
      break;
    case 6: x->kids.clear(); break;
    default: {
      El copy = *x;
      if (x != &e)
        e.kids.push_back(copy);
    }
    }
  }
}
// Makes the values of some attributes long, everywhere they occur, so that the description
// stays what it was otherwise.
static void lengthen(Rng &g, El &e) {
  std::vector<El *> all;
  collect(e, all);
  const bool every = g.chance(0.2), names = g.chance(0.5);
  for (int n = every ? int(all.size()) : g.range(1, 6), i = 0; i < n; ++i) {
    El *x = every ? all[size_t(i)] : g.pick(all);
    if (x->attrs.empty() || (names && x->name != "link" && x->name != "joint" && x->name != "material"))
      continue;
    std::string o = x->attrs[g.below(x->attrs.size())].second, w;
    size_t k = (size_t(1) << g.range(5, g.chance(0.9) ? 12 : 17)) + size_t(g.range(-2, 2));
    const bool number = !o.empty() && o.find_first_not_of("0123456789.+-eE ") == std::string::npos;
    w = number ? (g.chance(0.5) ? std::string(k, '0') + o : o + std::string(k, ' ')) : o + std::string(k, g.chance(0.9) ? 'x' : '%');
    for (El *y : all)
      for (auto &a : y->attrs)
        if (a.second == o)
          a.second = w;
  }
}
static std::string huge(Rng &g) {
  std::string s;
  int n = g.chance(0.8) ? g.range(100, 3000) : g.range(3000, 20000);
  switch (g.below(9)) {
  case 0: // deep nesting
    for (int i = 0; i < n; ++i)
      s += g.chance(0.01) ? "<robot name='r'>" : "<a>";
    if (g.chance(0.5))
      for (int i = 0; i < n; ++i)
        s += "</a>";
    break;
  case 1: // many attributes
    s = "<robot name='r'";
    n = std::min(n, 3000);
    for (int i = 0; i < n; ++i)
      s += " a" + std::to_string(i) + "='x'";
    s += "><link name='l'/></robot>";
    break;
  case 2: { // long chain
    n = std::min(n, 400);
    s = "<robot name='r'><link name='l0'/>";
    for (int i = 1; i < n; ++i)
      s += cat("<link name='l", i, "'/><joint name='j", i, "' type='", g.chance(0.3) ? "fixed" : "continuous", "'><parent link='l", i - 1, "'/><child link='l", i, "'/></joint>");
    s += "</robot>";
    break;
  }
  case 3: s = "<robot name='" + std::string(size_t(n) * 10, 'x') + "'><link name='" + std::string(size_t(n), '&') + "'/></robot>"; break;
  case 4:
    s = "<robot name='r'><link name='l'/>";
    for (int i = 0; i < n; ++i)
      s += g.chance(0.5) ? "<!-- c -->" : "text &amp; <![CDATA[ x ]]>";
    s += "</robot>";
    break;
  case 5: // long loop
    n = std::min(n, 2000);
    s = "<robot name='r'>";
    for (int i = 0; i < n; ++i)
      s += cat("<link name='l", i, "'/><joint name='j", i, "' type='fixed'><parent link='l", i, "'/><child link='l", (i + 1) % n, "'/></joint>");
    s += "</robot>";
    break;
  case 6:
    s = std::string(size_t(n), "<>&'\"! \n\0-"[g.below(10)]);
    break;
  case 7: // numbers
    s = "<robot name='r'><link name='l'><inertial><mass value='" + std::string(size_t(n), '9') + "'/><inertia ixx='1e" + std::string(size_t(n), '1') + "' ixy='0' ixz='0' iyy='." + std::string(size_t(n), '0') + "1' iyz='0' izz='0'/><origin xyz='" + std::string(size_t(n), ' ') + "1 2 3'/></inertial></link></robot>";
    break;
  default:
    s = "<robot name='r'><link name='l'/>" + std::string(size_t(n), ' ') + "<" + std::string(size_t(n), 'a') + "/></robot>";
  }
  return s;
}
static void load_any(Ctx &c, const std::string &text) {
  ++c.evaluations;
  std::unique_ptr<KinematicModel> k;
  try {
    k.reset(new KinematicModel(text));
  } catch (const std::exception &) {
    c.count("rejected");
    return;
  } catch (...) {
    c.fail("foreign-exception", "an exception that is no std::exception");
  }
  c.count("accepted");
  auto jn = k->get_joint_names();
  auto ids = k->get_joint_ids(jn);
  size_t n = k->get_link_names().size();
  size_t step = n > 60 ? n / 60 + 1 : 1;
  for (size_t i = 0; i < n; i += step) {
    Transform t;
    k->get_link_pose(i, t);
    for (int rt = 0; rt < 3; ++rt)
      if (ids.size() < 60 || rt == 0)
        k->get_jacobian(i, ids, RotationType(rt), i % 2 == 0);
    c.count("queries");
  }
  k->get_joint_position_limits(ids), k->get_joint_velocity_limits(ids), k->get_joint_effort_limits(ids);
  KinematicModel copy(*k);
  k->set_joint_angles(ids, std::vector<double>(ids.size(), 0.5));
  Transform t;
  k->get_link_pose(n - 1, t);
  // what was parsed can also be exported
  auto m = urdf::parseURDF(text);
  c.check(m != nullptr, "parser-disagrees", "the model was loaded but the parser rejects the text");
  std::unique_ptr<TiXmlDocument> d(urdf::exportURDF(*m));
  TiXmlPrinter p;
  d->Accept(&p);
}
static void u01(Ctx &c) {
  Rng g(c.case_seed);
  std::string text;
  size_t kind = g.below(20);
  if (kind == 0)
    text = huge(g);
  else if (kind == 1) {
    size_t n = g.below(400);
    for (size_t i = 0; i < n; ++i)
      text += g.chance(0.5) ? char(g.u64()) : "<>/=\"' robotlinkjae!-&#;x?"[g.below(26)];
  } else {
    gen::Opts o;
    o.details = g.chance(0.5);
    o.max_links = 6;
    ref::Robot r = gen::robot(g, o);
    El e = gen::robot_el(r);
    Rng sg(g.u64());
    if (kind < 12)
      mutate_tree(g, e);
    if (g.chance(0.1)) { // materials that are defined nowhere
      std::vector<El *> all;
      collect(e, all);
      for (El *x : all)
        if (x->name == "material" && x->kids.empty() && !x->attrs.empty() && g.chance(0.5))
          x->attrs[0].second = "undefined" + std::to_string(g.below(3));
    }
    if (g.chance(0.1)) {
      lengthen(g, e);
      c.count("lengthened");
    }
    gen::Style st = random_style(g, sg);
    text = gen::text(e, st);
    if (kind >= 8)
      text = mutate_bytes(g, text);
  }
  c.log(text);
  load_any(c, text);
  c.nontrivial(vh::hash_str(text));
  c.sample(text.substr(0, 700));
}
// every attribute and every element of a full description left out, emptied, filled with
// nonsense, doubled
static void u01_each(Ctx &c) {
  Rng g(c.case_seed);
  gen::Opts o;
  o.details = true;
  o.max_links = 5;
  ref::Robot r;
  El e("robot");
  // one that has every kind of detail
  for (int t = 0; t < 400; ++t) {
    r = gen::robot(g, o);
    e = gen::robot_el(r);
    std::vector<El *> all;
    collect(e, all);
    std::set<std::string> kinds;
    for (El *x : all)
      kinds.insert(x->name);
    if (kinds.count("mimic") && kinds.count("safety_controller") && kinds.count("dynamics") && kinds.count("calibration") && kinds.count("collision") && kinds.count("color"))
      break;
  }
  auto feed = [&](const El &x) {
    std::string t = gen::text(x, gen::Style());
    c.log(t);
    load_any(c, t);
    c.count("swept");
  };
  std::vector<El *> all;
  collect(e, all);
  for (size_t i = 0; i < all.size(); ++i) {
    const size_t na = all[i]->attrs.size(), nk = all[i]->kids.size();
    auto changed = [&](const std::function<void(El &)> &f) {
      El d = e;
      std::vector<El *> v;
      collect(d, v);
      f(*v[i]);
      feed(d);
    };
    for (size_t a = 0; a < na; ++a) {
      changed([&](El &x) { x.attrs.erase(x.attrs.begin() + long(a)); });
      changed([&](El &x) { x.attrs[a].second = ""; });
      changed([&](El &x) { x.attrs[a].second = "x y"; });
      changed([&](El &x) { auto y = x.attrs[a]; x.attrs.clear(), x.attrs.push_back(y); }); // that one alone
    }
    for (size_t k = 0; k < nk; ++k) {
      changed([&](El &x) { x.kids.erase(x.kids.begin() + long(k)); });
      changed([&](El &x) { El y = x.kids[k]; x.kids.push_back(y); });
      changed([&](El &x) { El y = x.kids[k]; x.kids.clear(), x.kids.push_back(y); });
    }
    changed([&](El &x) { x.attrs.clear(); });
    changed([&](El &x) { x.kids.clear(); });
    changed([&](El &x) { x.attrs.clear(), x.kids.clear(); });
  }
}
static void u01_data(Ctx &c) { // cuts and byte changes of the bundled robots
  for (const char *n : {"kuka", "fetch", "pr2"}) {
    std::string t = slurp(c.data_dir + "/data/" + n + ".urdf");
    Rng g(c.case_seed + vh::hash_str(n));
    for (int i = 0; i < 12; ++i)
      load_any(c, i == 0 ? t : mutate_bytes(g, t));
  }
}
// a valid robot that is one very long chain, named from either end
static void u01_chain(Ctx &c) {
  const int n = 160000;
  for (int up = 0; up < 2; ++up) {
    std::string t = "<robot name='r'>";
    auto nm = [&](int i) { return "l" + std::to_string(1000000 + (up ? i : n - i)); };
    for (int i = 0; i < n; ++i) {
      t += "<link name='" + nm(i) + "'/>";
      if (i)
        t += "<joint name='j" + std::to_string(i) + "' type='fixed'><parent link='" + nm(i - 1) + "'/><child link='" + nm(i) + "'/></joint>";
    }
    t += "</robot>";
    ++c.evaluations;
    auto m = urdf::parseURDF(t);
    c.check(m && int(m->links_.size()) == n && m->getRoot()->name == nm(0), "long-chain", "a long chain is not loaded");
    m.reset();
    c.count("long_chains");
  }
}

static vh::Register a1("U01", u01, "descriptions of random robots mutated as trees (renamed, duplicated, removed elements and attributes, hostile values) and as bytes (truncation, insertion of markup fragments, broken UTF-8, null bytes), random bytes, and oversized inputs (deep nesting, long chains and loops, many attributes); an accepted model is queried, copied and exported; one evaluation is one input", {u01_data, u01_chain, u01_each});
static vh::Register a2("U02", u02, "random robots with every optional item, written in random spellings of numbers, names, white space, order and noise, compared item by item with what was stated; one evaluation is one link or joint compared");
static vh::Register a3("U03", u03, "one defect of a listed kind injected into a valid random description, in a random spelling; one evaluation is one defective description, distinct by text");
static vh::Register a4("U04", u04, "random robots with every optional item and orientations next to the pitch singularity, exported (four ways of printing), parsed, compared, and exported again; one evaluation is one item or pose compared");
static vh::Register a5("U05", u05, "random robots parsed and exported under the C locale and under combinations of C locales (decimal comma, Turkish) and global C++ locales (comma, digit groups), compared bit by bit; one evaluation is one item compared");
static vh::Register a8("U08", u08, "random robots with every optional item put together by hand through the classes, fresh and reused objects, compared item by item with what was put in, exported and parsed; then one flaw in the tree; text read by vectors, rotations and colours; one evaluation is one item, text or model");
static vh::Register a6("U06", u06, "random robots written in several spellings, also through files, compared bit by bit; one evaluation is one item compared", {u06_refs_plain, u06_refs_declared, u06_data});
static vh::Register a7("U07", u07, "random robots with one flaw in the inertial data, a visual, a collision or a colour, compared with the same robot without it; one evaluation is one flawed description");
