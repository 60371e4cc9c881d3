// A parsed description as a flat list of labelled values.
#pragma once
#include "sut.hpp"
#include "urdf_model/link.h"

namespace udump {
using vh::cat;
struct Item {
  std::string label, text; // text: a name or the exact digits of a number
  double num = 0;
  int kind = 0; // 0 text, 1 number, 2 start of a quaternion (x y z w follow)
};
typedef std::vector<Item> List;
inline std::string hex(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  std::string s(16, '0');
  for (int i = 15; i >= 0; --i, u >>= 4)
    s[size_t(i)] = "0123456789abcdef"[u & 15];
  return s;
}
struct Dumper {
  List out;
  bool exportable; // leave out what an export does not carry
  void text(const std::string &l, const std::string &s) { out.push_back({l, s, 0, 0}); }
  void num(const std::string &l, double d, int kind = 1) { out.push_back({l, hex(d), d, kind}); }
  void vec(const std::string &l, const urdf::Vector3 &v) {
    num(l + ".x", v.x), num(l + ".y", v.y), num(l + ".z", v.z);
  }
  void pose(const std::string &l, const urdf::Pose &p) {
    vec(l + ".position", p.position);
    num(l + ".rotation.x", p.rotation.x, 2), num(l + ".rotation.y", p.rotation.y, 3);
    num(l + ".rotation.z", p.rotation.z, 3), num(l + ".rotation.w", p.rotation.w, 3);
  }
  void material(const std::string &l, const urdf::Material &m) {
    text(l + ".name", m.name);
    text(l + ".texture", m.texture_filename);
    num(l + ".r", m.color.r), num(l + ".g", m.color.g), num(l + ".b", m.color.b), num(l + ".a", m.color.a);
  }
  void geometry(const std::string &l, const urdf::GeometrySharedPtr &g) {
    if (!g) {
      text(l, "none");
      return;
    }
    if (auto s = std::dynamic_pointer_cast<urdf::Sphere>(g)) {
      text(l, cat("sphere ", int(s->type)));
      num(l + ".radius", s->radius);
    } else if (auto b = std::dynamic_pointer_cast<urdf::Box>(g)) {
      text(l, cat("box ", int(b->type)));
      vec(l + ".size", b->dim);
    } else if (auto c = std::dynamic_pointer_cast<urdf::Cylinder>(g)) {
      text(l, cat("cylinder ", int(c->type)));
      num(l + ".radius", c->radius), num(l + ".length", c->length);
    } else if (auto m = std::dynamic_pointer_cast<urdf::Mesh>(g)) {
      text(l, cat("mesh ", int(m->type)));
      text(l + ".file", m->filename);
      vec(l + ".scale", m->scale);
    } else
      text(l, "unknown");
  }
  void link(const urdf::Link &k) {
    std::string l = "link " + k.name;
    text(l, k.name);
    auto par = k.getParent();
    text(l + ".parent", par ? par->name : "(none)");
    text(l + ".parent_joint", k.parent_joint ? k.parent_joint->name : "(none)");
    for (size_t i = 0; i < k.child_joints.size(); ++i)
      text(cat(l, ".child_joint ", i), k.child_joints[i]->name);
    for (size_t i = 0; i < k.child_links.size(); ++i)
      text(cat(l, ".child_link ", i), k.child_links[i]->name);
    text(l + ".inertial", k.inertial ? "yes" : "no");
    if (k.inertial) {
      pose(l + ".inertial.origin", k.inertial->origin);
      num(l + ".mass", k.inertial->mass);
      num(l + ".ixx", k.inertial->ixx), num(l + ".ixy", k.inertial->ixy), num(l + ".ixz", k.inertial->ixz);
      num(l + ".iyy", k.inertial->iyy), num(l + ".iyz", k.inertial->iyz), num(l + ".izz", k.inertial->izz);
    }
    text(l + ".visuals", cat(k.visual_array.size(), k.visual ? (!k.visual_array.empty() && k.visual == k.visual_array[0] ? " first" : " other") : " none"));
    for (size_t i = 0; i < k.visual_array.size(); ++i) {
      auto &v = *k.visual_array[i];
      std::string m = cat(l, ".visual ", i);
      if (!exportable)
        text(m + ".name", v.name), text(m + ".material_name", v.material_name);
      pose(m + ".origin", v.origin);
      geometry(m + ".geometry", v.geometry);
      text(m + ".material", v.material ? "yes" : "no");
      if (v.material)
        material(m + ".material", *v.material);
    }
    text(l + ".collisions", cat(k.collision_array.size(), k.collision ? (!k.collision_array.empty() && k.collision == k.collision_array[0] ? " first" : " other") : " none"));
    for (size_t i = 0; i < k.collision_array.size(); ++i) {
      auto &v = *k.collision_array[i];
      std::string m = cat(l, ".collision ", i);
      if (!exportable)
        text(m + ".name", v.name);
      pose(m + ".origin", v.origin);
      geometry(m + ".geometry", v.geometry);
    }
  }
  void joint(const urdf::Joint &j) {
    std::string l = "joint " + j.name;
    text(l, j.name);
    text(l + ".type", cat(int(j.type)));
    text(l + ".parent", j.parent_link_name);
    text(l + ".child", j.child_link_name);
    pose(l + ".origin", j.parent_to_joint_origin_transform);
    vec(l + ".axis", j.axis);
    text(l + ".limits", j.limits ? "yes" : "no");
    if (j.limits)
      num(l + ".lower", j.limits->lower), num(l + ".upper", j.limits->upper), num(l + ".effort", j.limits->effort), num(l + ".velocity", j.limits->velocity);
    text(l + ".dynamics", j.dynamics ? "yes" : "no");
    if (j.dynamics)
      num(l + ".damping", j.dynamics->damping), num(l + ".friction", j.dynamics->friction);
    text(l + ".safety", j.safety ? "yes" : "no");
    if (j.safety)
      num(l + ".soft_lower", j.safety->soft_lower_limit), num(l + ".soft_upper", j.safety->soft_upper_limit), num(l + ".k_position", j.safety->k_position), num(l + ".k_velocity", j.safety->k_velocity);
    // a calibration element without any value is the same as none
    bool cal = j.calibration && (j.calibration->rising || j.calibration->falling);
    text(l + ".calibration", cal ? "yes" : "no");
    if (cal) {
      text(l + ".rising", j.calibration->rising ? "yes" : "no");
      if (j.calibration->rising)
        num(l + ".rising", *j.calibration->rising);
      text(l + ".falling", j.calibration->falling ? "yes" : "no");
      if (j.calibration->falling)
        num(l + ".falling", *j.calibration->falling);
    }
    text(l + ".mimic", j.mimic ? "yes" : "no");
    if (j.mimic) {
      text(l + ".mimic.joint", j.mimic->joint_name);
      num(l + ".mimic.multiplier", j.mimic->multiplier), num(l + ".mimic.offset", j.mimic->offset);
    }
  }
};
inline List dump(const urdf::ModelInterface &m, bool exportable = false) {
  Dumper d;
  d.exportable = exportable;
  d.text("robot", m.name_);
  auto root = m.getRoot();
  d.text("root", root ? root->name : "(none)");
  for (auto &kv : m.materials_) {
    d.text("material key", kv.first);
    d.material("material " + kv.first, *kv.second);
  }
  for (auto &kv : m.links_) {
    d.text("link key", kv.first);
    d.link(*kv.second);
  }
  for (auto &kv : m.joints_) {
    d.text("joint key", kv.first);
    d.joint(*kv.second);
  }
  return d.out;
}
inline std::string show(const Item &i) { return i.label + " : " + (i.kind ? vh::num(i.num) + " (" + i.text + ")" : "'" + i.text + "'"); }
// bit-identical, or the first difference
inline std::string exact_diff(const List &a, const List &b) {
  for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
    if (i >= a.size() || i >= b.size())
      return i >= a.size() ? "additional item " + show(b[i]) : "missing item " + show(a[i]);
    if (a[i].label != b[i].label || a[i].text != b[i].text)
      return show(a[i]) + " against " + show(b[i]);
  }
  return "";
}
// equal up to rounding
inline std::string close_diff(const List &a, const List &b) {
  for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
    if (i >= a.size() || i >= b.size())
      return i >= a.size() ? "additional item " + show(b[i]) : "missing item " + show(a[i]);
    auto pair = [&]() { return show(a[i]) + " against " + show(b[i]); };
    if (a[i].label != b[i].label || a[i].kind != b[i].kind)
      return pair();
    if (a[i].kind == 0 && a[i].text != b[i].text)
      return pair();
    if (a[i].kind == 1) {
      double d = std::fabs(a[i].num - b[i].num), s = std::max(std::fabs(a[i].num), std::fabs(b[i].num));
      if (!(d <= 1e-14 * s + 1e-320))
        return pair();
    }
    if (a[i].kind == 2) {
      ref::M3 p = ref::from_quat(a[i].num, a[i + 1].num, a[i + 2].num, a[i + 3].num), q = ref::from_quat(b[i].num, b[i + 1].num, b[i + 2].num, b[i + 3].num);
      if (!(ref::mat_dist(p, q) <= (ref::pitch_cos(p) < 1e-2L ? 1e-6L : 1e-11L)))
        return pair() + " (rotation)";
    }
  }
  return "";
}
} // namespace udump
