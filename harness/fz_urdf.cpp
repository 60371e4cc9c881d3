// Coverage-guided part of U01: every input is loaded or rejected.
#include "fz.hpp"
#include "tinyfk.hpp"
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  fz::init("every executed input; distinct: inputs that were accepted as a robot");
  std::string text(reinterpret_cast<const char *>(data), size);
  std::unique_ptr<tinyfk::KinematicModel> k;
  try {
    k.reset(new tinyfk::KinematicModel(text));
  } catch (const std::exception &) {
    ++fz::stats().rejected;
    return 0;
  }
  fz::accept(text);
  auto ids = k->get_joint_ids(k->get_joint_names());
  size_t n = k->get_link_names().size();
  for (size_t i = 0; i < n && i < 20; ++i) {
    tinyfk::Transform t;
    k->get_link_pose(i, t);
    k->get_jacobian(i, ids, tinyfk::RotationType(i % 3), i % 2 == 0);
  }
  k->get_joint_position_limits(ids), k->get_joint_velocity_limits(ids), k->get_joint_effort_limits(ids);
  auto m = urdf::parseURDF(text);
  if (!m)
    fz::fail("parser-disagrees", "the model was loaded but the parser rejects the text");
  std::unique_ptr<TiXmlDocument> d(urdf::exportURDF(*m));
  TiXmlPrinter p;
  d->Accept(&p);
  return 0;
}
