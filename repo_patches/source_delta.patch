From d0ac2de404057cd9e3a92050201b404579f62ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:56 +0000
Subject: [PATCH 01/42] fix: throw instead of dereferencing null when the URDF
 cannot be parsed

---
 src/tinyfk.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 313ca8c..7363139 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -19,6 +19,9 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
   }
   urdf::ModelInterfaceSharedPtr robot_urdf_interface =
       urdf::parseURDF(xml_string);
+  if (robot_urdf_interface == nullptr) {
+    throw std::runtime_error("failed to parse urdf");
+  }
 
   // numbering link id
   std::vector<urdf::LinkSharedPtr> links;
-- 
2.43.0


From d0d2872dc848226d8bcd53c687e67116f357d670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:56 +0000
Subject: [PATCH 02/42] fix: build the relevance table also for robots without
 inertial data

---
 src/tinyfk.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 7363139..44ed8c1 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -113,6 +113,9 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
     this->com_dummy_links_ = com_dummy_links;
   }
 
+  // must be set even if no com dummy link has been added
+  this->update_rptable();
+
   this->set_base_pose(Transform()); // initial base pose
 }
 
-- 
2.43.0


From 7146697dd3c5b3fab2b1b1f7681e4fde9ca49315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:56 +0000
Subject: [PATCH 03/42] fix: take the rotation of the inertial frame into
 account in the total inertia matrix

---
 src/tinyfk.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 44ed8c1..11e01fb 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -98,15 +98,14 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
         continue;
       }
       const auto com_dummy_link_name = link->name + "_com";
-      Transform new_link_pose;
-      new_link_pose.position.x = link->inertial->origin.position.x;
-      new_link_pose.position.y = link->inertial->origin.position.y;
-      new_link_pose.position.z = link->inertial->origin.position.z;
+      // the inertia tensor is expressed in the inertial frame, so its rotation
+      // matters as well as its position
+      const Transform new_link_pose = link->inertial->origin;
       const auto new_link =
           this->add_new_link(com_dummy_link_name, link->id, new_link_pose);
       // set new link's inertial as the same as the parent
       // except its origin is zero
-      new_link->inertial = link->inertial;
+      new_link->inertial = std::make_shared<urdf::Inertial>(*link->inertial);
       new_link->inertial->origin = Transform();
       com_dummy_links.push_back(new_link);
     }
-- 
2.43.0


From 3452f6389709599745c3d05b2fb2a0e8e6d4b61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:56 +0000
Subject: [PATCH 04/42] fix: do not dereference missing limits of continuous
 joints

---
 src/tinyfk.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 11e01fb..2e5c404 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -189,7 +189,9 @@ std::vector<double> KinematicModel::get_joint_velocity_limits(
   std::vector<double> limits(n_joint);
   for (size_t i = 0; i < n_joint; i++) {
     const auto &joint = joints_[joint_ids[i]];
-    limits[i] = joint->limits->velocity;
+    // limits are optional for continuous joints
+    limits[i] = joint->limits ? joint->limits->velocity
+                              : std::numeric_limits<double>::infinity();
   }
   return limits;
 }
@@ -200,7 +202,9 @@ std::vector<double> KinematicModel::get_joint_effort_limits(
   std::vector<double> limits(n_joint);
   for (size_t i = 0; i < n_joint; i++) {
     const auto &joint = joints_[joint_ids[i]];
-    limits[i] = joint->limits->effort;
+    // limits are optional for continuous joints
+    limits[i] = joint->limits ? joint->limits->effort
+                              : std::numeric_limits<double>::infinity();
   }
   return limits;
 }
-- 
2.43.0


From 5ba9e2dc15b640d7e1105c094c91330f6bc9b7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:56 +0000
Subject: [PATCH 05/42] fix: clear the pose cache in set_joint_angle

---
 include/tinyfk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tinyfk.hpp b/include/tinyfk.hpp
index e71910f..63ad270 100644
--- a/include/tinyfk.hpp
+++ b/include/tinyfk.hpp
@@ -145,6 +145,7 @@ public: // functions
 
   void set_joint_angle(size_t joint_id, double angle) {
     joint_angles_[joint_id] = angle;
+    this->clear_cache();
   }
 
   urdf::LinkSharedPtr add_new_link(const std::string &link_name,
-- 
2.43.0


From 83cfdb8af7567e4c905d4028c86fa99905d166cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:56 +0000
Subject: [PATCH 06/42] fix: grow the transform stack when a link is added

---
 include/data_structure.hpp | 1 +
 src/tinyfk.cpp             | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/data_structure.hpp b/include/data_structure.hpp
index 69bb83a..4db05f5 100644
--- a/include/data_structure.hpp
+++ b/include/data_structure.hpp
@@ -46,6 +46,7 @@ public:
   inline size_t size() const { return current_idx_; }
   inline bool empty() const { return current_idx_ == 0; }
   inline void reset() { current_idx_ = 0; }
+  inline void extend() { data_.push_back(ElementT()); }
   inline void push(const ElementT &elem) {
     data_[current_idx_] = elem;
     current_idx_++;
diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 2e5c404..7a5dd16 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -260,6 +260,7 @@ urdf::LinkSharedPtr KinematicModel::add_new_link(const std::string &link_name,
   links_.push_back(new_link);
   links_[parent_id]->child_links.push_back(new_link);
   transform_cache_.extend();
+  transform_stack_.extend();
 
   this->update_rptable(); // set _rptable
 
-- 
2.43.0


From fdc37b3e8f4e5a19ad911f1e2141aad503cf34cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:37 +0000
Subject: [PATCH 07/42] fix: reject descriptions whose joints do not form a
 tree

---
 urdf_parser/include/urdf_model/model.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/urdf_parser/include/urdf_model/model.h b/urdf_parser/include/urdf_model/model.h
index 8b7ced8..be023b7 100644
--- a/urdf_parser/include/urdf_model/model.h
+++ b/urdf_parser/include/urdf_model/model.h
@@ -112,6 +112,28 @@ public:
   
   void initTree(std::map<std::string, std::string> &parent_link_tree)
   {
+    // the joints must form a forest: no link may have two parents, and
+    // following the parents of any link must come to an end
+    std::map<std::string, std::string> parents;
+    for (const auto &joint : this->joints_)
+    {
+      if (!parents.insert(std::make_pair(joint.second->child_link_name, joint.second->parent_link_name)).second)
+      {
+        throw ParseError("link [" + joint.second->child_link_name + "] is the child of more than one joint");
+      }
+    }
+    for (const auto &child_parent : parents)
+    {
+      std::size_t n_step = 0;
+      for (auto it = parents.find(child_parent.first); it != parents.end(); it = parents.find(it->second))
+      {
+        if (++n_step > parents.size())
+        {
+          throw ParseError("link [" + child_parent.first + "] is in, or below, a kinematic loop");
+        }
+      }
+    }
+
     // loop through all joints, for every link, assign children links and children joints
     for (std::map<std::string, JointSharedPtr>::iterator joint = this->joints_.begin();joint != this->joints_.end(); joint++)
     {
-- 
2.43.0


From 83a65377a4a1db3cfddc4c248fe3a1b8f57416eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:37 +0000
Subject: [PATCH 08/42] fix: export the joint origin also for joints of known
 type

---
 urdf_parser/src/joint.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/urdf_parser/src/joint.cpp b/urdf_parser/src/joint.cpp
index 82b43da..cad11d1 100644
--- a/urdf_parser/src/joint.cpp
+++ b/urdf_parser/src/joint.cpp
@@ -602,7 +602,9 @@ bool exportJoint(Joint &joint, TiXmlElement* xml)
   else if (joint.type == urdf::Joint::FIXED)
     joint_xml->SetAttribute("type", "fixed");
   else
+  {
     //CONSOLE_BRIDGE_logError("ERROR:  Joint [%s] type [%d] is not a defined type.\n",joint.name.c_str(), joint.type);
+  }
 
   // origin
   exportPose(joint.parent_to_joint_origin_transform, joint_xml);
-- 
2.43.0


From 12c9b1a32e5c63f1978e2a68c075fb00a32a9d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:37 +0000
Subject: [PATCH 09/42] fix: export numbers with full precision, in the classic
 locale

---
 urdf_parser/src/pose.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/urdf_parser/src/pose.cpp b/urdf_parser/src/pose.cpp
index 2b5961f..a7353fe 100644
--- a/urdf_parser/src/pose.cpp
+++ b/urdf_parser/src/pose.cpp
@@ -37,6 +37,8 @@
 
 #include <urdf_model/pose.h>
 #include <fstream>
+#include <limits>
+#include <locale>
 #include <sstream>
 #include <algorithm>
 //#include <console_bridge/console.h>
@@ -48,6 +50,8 @@ namespace urdf_export_helpers {
 std::string values2str(unsigned int count, const double *values, double (*conv)(double))
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
+    ss.precision(std::numeric_limits<double>::max_digits10);
     for (unsigned int i = 0 ; i < count ; i++)
     {
         if (i > 0)
-- 
2.43.0


From 16a144de3c30f78145fc383ea4ab5d59badd7a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 10/42] fix: compute base rotation columns of the Jacobian
 analytically

The finite difference jumped by 2/eps (or 2 pi/eps) whenever the quaternion
rebuilt from RPY came out with the opposite sign, or an angle wrapped around.
---
 src/kinematics.cpp | 57 ++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/src/kinematics.cpp b/src/kinematics.cpp
index d837d2d..1938147 100644
--- a/src/kinematics.cpp
+++ b/src/kinematics.cpp
@@ -179,13 +179,11 @@ KinematicModel::get_jacobian(size_t elink_id,
     }
   }
 
-  Transform tf_rlink_to_blink, tf_blink_to_rlink, tf_blink_to_elink;
+  Transform tf_rlink_to_blink;
   Vector3 rpy_rlink_to_blink;
   if (with_base) {
     this->get_link_pose(this->root_link_id_, tf_rlink_to_blink);
-    tf_blink_to_rlink = tf_rlink_to_blink.inverse();
     rpy_rlink_to_blink = tf_rlink_to_blink.rotation.getRPY();
-    tf_blink_to_elink = pose_transform(tf_blink_to_rlink, tf_rlink_to_elink);
   }
 
   if (with_base) {
@@ -195,39 +193,38 @@ KinematicModel::get_jacobian(size_t elink_id,
     jacobian(1, dim_dof + 1) = 1.0;
     jacobian(2, dim_dof + 2) = 1.0;
 
-    // we resort to numerical method to base pose jacobian (just because I don't
-    // have time)
-    // TODO(HiroIshida): compute using analytical method.
-    constexpr double eps = 1e-7;
+    // axes around which the base turns when its roll, pitch and yaw change
+    // (rotation is Rz(yaw) * Ry(pitch) * Rx(roll))
+    const double cp = cos(rpy_rlink_to_blink.y);
+    const double sp = sin(rpy_rlink_to_blink.y);
+    const double cy = cos(rpy_rlink_to_blink.z);
+    const double sy = sin(rpy_rlink_to_blink.z);
+    const std::array<Vector3, 3> world_axes = {
+        Vector3(cy * cp, sy * cp, -sp), Vector3(-sy, cy, 0.0),
+        Vector3(0.0, 0.0, 1.0)};
+    const Vector3 vec_blink_to_elink = epos - tf_rlink_to_blink.position;
+
     for (size_t rpy_idx = 0; rpy_idx < 3; rpy_idx++) {
       const size_t idx_col = dim_dof + 3 + rpy_idx;
+      const Vector3 &world_axis = world_axes[rpy_idx];
 
-      auto rpy_tweaked = rpy_rlink_to_blink;
-      rpy_tweaked[rpy_idx] += eps;
-
-      Transform tf_rlink_to_blink_tweaked = tf_rlink_to_blink;
-      tf_rlink_to_blink_tweaked.rotation.setFromRPY(
-          rpy_tweaked.x, rpy_tweaked.y, rpy_tweaked.z);
-      Transform tf_rlink_to_elink_tweaked =
-          pose_transform(tf_rlink_to_blink_tweaked, tf_blink_to_elink);
-      auto pose_out = tf_rlink_to_elink_tweaked;
-
-      const auto pos_diff = pose_out.position - tf_rlink_to_elink.position;
-      jacobian(0, idx_col) = pos_diff.x / eps;
-      jacobian(1, idx_col) = pos_diff.y / eps;
-      jacobian(2, idx_col) = pos_diff.z / eps;
+      Vector3 dpos;
+      cross_product(world_axis, vec_blink_to_elink, dpos);
+      jacobian(0, idx_col) = dpos.x;
+      jacobian(1, idx_col) = dpos.y;
+      jacobian(2, idx_col) = dpos.z;
       if (rot_type == RotationType::RPY) {
-        auto erpy_tweaked = pose_out.rotation.getRPY();
-        const auto erpy_diff = erpy_tweaked - erpy;
-        jacobian(3, idx_col) = erpy_diff.x / eps;
-        jacobian(4, idx_col) = erpy_diff.y / eps;
-        jacobian(5, idx_col) = erpy_diff.z / eps;
+        const Vector3 drpy_dt = rpy_derivative(erpy, world_axis);
+        jacobian(3, idx_col) = drpy_dt.x;
+        jacobian(4, idx_col) = drpy_dt.y;
+        jacobian(5, idx_col) = drpy_dt.z;
       }
       if (rot_type == RotationType::XYZW) {
-        jacobian(3, idx_col) = (pose_out.rotation.x - erot.x) / eps;
-        jacobian(4, idx_col) = (pose_out.rotation.y - erot.y) / eps;
-        jacobian(5, idx_col) = (pose_out.rotation.z - erot.z) / eps;
-        jacobian(6, idx_col) = (pose_out.rotation.w - erot.w) / eps;
+        const Rotation dq_dt = q_derivative(erot_inverse, world_axis);
+        jacobian(3, idx_col) = dq_dt.x;
+        jacobian(4, idx_col) = dq_dt.y;
+        jacobian(5, idx_col) = dq_dt.z;
+        jacobian(6, idx_col) = dq_dt.w;
       }
     }
   }
-- 
2.43.0


From 23dab59db07da2639d9b6622908d77b6b10ebb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 11/42] fix: keep a model usable after a link has been added to
 a copy of it

---
 src/tinyfk.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 7a5dd16..be90dd2 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -275,18 +275,16 @@ void KinematicModel::update_rptable() {
   int n_dof = joint_ids_.size();
   auto rptable = RelevancePredicateTable(n_link, n_dof);
 
-  for (urdf::JointSharedPtr joint : joints_) {
-    int joint_id = joint_ids_.at(joint->name);
-    urdf::LinkSharedPtr clink = joint->getChildLink();
-    std::stack<urdf::LinkSharedPtr> link_stack;
-    link_stack.push(clink);
-    while (!link_stack.empty()) {
-      auto here_link = link_stack.top();
-      link_stack.pop();
-      rptable.table_[here_link->id][joint_id] = true;
-      for (auto &link : here_link->child_links) {
-        link_stack.push(link);
+  // walk up from every link of this model instead of down from every joint,
+  // because child_links may contain links added to a copy of this model
+  for (const urdf::LinkSharedPtr &link : links_) {
+    urdf::LinkSharedPtr here_link = link;
+    while (urdf::LinkSharedPtr plink = here_link->getParent()) {
+      const urdf::JointSharedPtr &pjoint = here_link->parent_joint;
+      if (pjoint->type != urdf::Joint::FIXED) {
+        rptable.table_[link->id][pjoint->id] = true;
       }
+      here_link = plink;
     }
   }
   rptable_ = rptable;
-- 
2.43.0


From 9a3bd055af9720a2dca151fe5ccbcf69ebaf8d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 12/42] fix: do not step over the end of the input on a
 truncated UTF-8 sequence

---
 urdf_parser/tinyxml/tinyxml.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/urdf_parser/tinyxml/tinyxml.h b/urdf_parser/tinyxml/tinyxml.h
index 23694c6..77318d1 100644
--- a/urdf_parser/tinyxml/tinyxml.h
+++ b/urdf_parser/tinyxml/tinyxml.h
@@ -350,9 +350,11 @@ protected:
 		{
 			//strncpy( _value, p, *length );	// lots of compilers don't like this function (unsafe),
 												// and the null terminator isn't needed
-			for( int i=0; p[i] && i<*length; ++i ) {
+			int i=0;
+			for( ; p[i] && i<*length; ++i ) {
 				_value[i] = p[i];
 			}
+			*length = i;		// less than expected if the input ends inside the sequence
 			return p + (*length);
 		}
 		else
-- 
2.43.0


From ecac17c88980b1a9ec895fa7bcd8cbdbdb2f502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 13/42] fix: endless loop on an error next to a truncated UTF-8
 sequence (CVE-2021-42260)

---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index 81b7eae..0d853b1 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -274,6 +274,11 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
 						else
 							{ p +=3; ++col; }	// A normal character.
 					}
+					else
+					{
+						++p;	// A truncated one. Advance, or this loop would never end.
+						++col;
+					}
 				}
 				else
 				{
-- 
2.43.0


From 92dcd81c2d89f19bfb4f23672a61045d4de206b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 14/42] fix: reachable assertion on a truncated XML declaration
 (CVE-2023-34194)

---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index 0d853b1..8944d06 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -1605,6 +1605,10 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data, TiXm
 		}
 
 		p = SkipWhiteSpace( p, _encoding );
+		if ( !p || !*p )
+		{
+			break;
+		}
 		if ( StringEqual( p, "version", true, _encoding ) )
 		{
 			TiXmlAttribute attrib;
-- 
2.43.0


From a4835b7909be7d4db410ebd37d98f6d26e706163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 15/42] fix: report an error instead of overflowing the stack
 on deeply nested XML

---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index 8944d06..62d74d5 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -176,6 +176,10 @@ class TiXmlParsingData
 
 	const TiXmlCursor& Cursor() const	{ return cursor; }
 
+	// Elements may not be nested deeper than this: parsing and destruction are recursive.
+	enum { MAX_DEPTH = 1000 };
+	int depth;
+
   private:
 	// Only used by the document!
 	TiXmlParsingData( const char* start, int _tabsize, int row, int col )
@@ -185,6 +189,7 @@ class TiXmlParsingData
 		tabsize = _tabsize;
 		cursor.row = row;
 		cursor.col = col;
+		depth = 0;
 	}
 
 	TiXmlCursor		cursor;
@@ -1111,7 +1116,14 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 			// Read the value -- which can include other
 			// elements -- read the end tag, and return.
 			++p;
+			if ( data && data->depth >= TiXmlParsingData::MAX_DEPTH )
+			{
+				if ( document ) document->SetError( TIXML_ERROR_PARSING_ELEMENT, pErr, data, encoding );
+				return 0;
+			}
+			if ( data ) ++data->depth;
 			p = ReadValue( p, data, encoding );		// Note this is an Element method, and will set the error if one happens.
+			if ( data ) --data->depth;
 			if ( !p || !*p ) {
 				// We were looking for the end tag, but found nothing.
 				// Fix for [ 1663758 ] Failure to report error on bad XML
-- 
2.43.0


From 66c3c80a9b29624551f2b50d205a3e195d53384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 16/42] fix: look for loops in the joint tree in linear instead
 of quadratic time

---
 urdf_parser/include/urdf_model/model.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/urdf_parser/include/urdf_model/model.h b/urdf_parser/include/urdf_model/model.h
index be023b7..035ea20 100644
--- a/urdf_parser/include/urdf_model/model.h
+++ b/urdf_parser/include/urdf_model/model.h
@@ -39,6 +39,7 @@
 
 #include <string>
 #include <map>
+#include <set>
 #include <urdf_model/link.h>
 #include <urdf_model/types.h>
 #include <urdf_exception/exception.h>
@@ -122,16 +123,21 @@ public:
         throw ParseError("link [" + joint.second->child_link_name + "] is the child of more than one joint");
       }
     }
+    std::set<std::string> rooted; // links from which a root is reached
     for (const auto &child_parent : parents)
     {
-      std::size_t n_step = 0;
-      for (auto it = parents.find(child_parent.first); it != parents.end(); it = parents.find(it->second))
+      std::vector<std::string> path;
+      for (auto it = parents.find(child_parent.first);
+           it != parents.end() && rooted.find(it->first) == rooted.end();
+           it = parents.find(it->second))
       {
-        if (++n_step > parents.size())
+        path.push_back(it->first);
+        if (path.size() > parents.size())
         {
           throw ParseError("link [" + child_parent.first + "] is in, or below, a kinematic loop");
         }
       }
+      rooted.insert(path.begin(), path.end());
     }
 
     // loop through all joints, for every link, assign children links and children joints
-- 
2.43.0


From 4fa071af28e6eedc011b49db72ef87da8b0c655d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 17/42] fix: do not let a huge URDF version number wrap around
 to 1.0

---
 urdf_parser/include/urdf_parser/urdf_parser.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/urdf_parser/include/urdf_parser/urdf_parser.h b/urdf_parser/include/urdf_parser/urdf_parser.h
index 247f207..7082ab1 100644
--- a/urdf_parser/include/urdf_parser/urdf_parser.h
+++ b/urdf_parser/include/urdf_parser/urdf_parser.h
@@ -37,6 +37,8 @@
 #ifndef URDF_PARSER_URDF_PARSER_H
 #define URDF_PARSER_URDF_PARSER_H
 
+#include <cstdint>
+#include <limits>
 #include <stdexcept>
 #include <string>
 #include <vector>
@@ -127,6 +129,10 @@ private:
     {
       throw std::runtime_error("Version number must be positive");
     }
+    if (static_cast<unsigned long>(value) > std::numeric_limits<uint32_t>::max())
+    {
+      throw std::runtime_error("Version number is too large");
+    }
 
     return value;
   }
-- 
2.43.0


From 12565b4970dcaa1f83216cd005f0f5ef18d2a30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:57 +0000
Subject: [PATCH 18/42] fix: keep the accuracy of roll-pitch-yaw angles close
 to the pitch singularity

---
 urdf_parser/include/urdf_model/pose.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/urdf_parser/include/urdf_model/pose.h b/urdf_parser/include/urdf_model/pose.h
index 691a96e..9262254 100644
--- a/urdf_parser/include/urdf_model/pose.h
+++ b/urdf_parser/include/urdf_model/pose.h
@@ -142,11 +142,11 @@ public:
     // Cases derived from https://orbitalstation.wordpress.com/tag/quaternion/
     double sarg = -2 * (this->x*this->z - this->w*this->y);
     const double pi_2 = 1.57079632679489661923;
-    if (sarg <= -0.99999) {
+    if (sarg <= -0.99999999999999) {
       pitch = -pi_2;
       roll  = 0;
       yaw   = 2 * atan2(this->x, -this->y);
-    } else if (sarg >= 0.99999) {
+    } else if (sarg >= 0.99999999999999) {
       pitch = pi_2;
       roll  = 0;
       yaw   = 2 * atan2(-this->x, this->y);
@@ -175,11 +175,11 @@ public:
     const double pi_2 = 1.57079632679489661923;
 
     double roll, pitch, yaw;
-    if (sarg <= -0.99999) {
+    if (sarg <= -0.99999999999999) {
       pitch = -pi_2;
       roll  = 0;
       yaw   = 2 * atan2(this->x, -this->y);
-    } else if (sarg >= 0.99999) {
+    } else if (sarg >= 0.99999999999999) {
       pitch = pi_2;
       roll  = 0;
       yaw   = 2 * atan2(-this->x, this->y);
-- 
2.43.0


From e70c027bf82a3493c006c9b0570f70eef0cfc8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 19/42] fix: compare boolean attribute values as a whole, also
 empty ones

---
 urdf_parser/tinyxml/tinyxml.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/urdf_parser/tinyxml/tinyxml.cpp b/urdf_parser/tinyxml/tinyxml.cpp
index 9c161df..258f8d2 100644
--- a/urdf_parser/tinyxml/tinyxml.cpp
+++ b/urdf_parser/tinyxml/tinyxml.cpp
@@ -686,17 +686,18 @@ int TiXmlElement::QueryBoolAttribute( const char* name, bool* bval ) const
 	if ( !node )
 		return TIXML_NO_ATTRIBUTE;
 	
+	// The whole value has to match: "10" is not "1", and the value may be empty.
+	TIXML_STRING str;
+	for ( const char* p = node->Value(); *p; ++p )
+		str += (char) ToLower( (unsigned char) *p, TIXML_ENCODING_UTF8 );
+
 	int result = TIXML_WRONG_TYPE;
-	if (    StringEqual( node->Value(), "true", true, TIXML_ENCODING_UNKNOWN ) 
-		 || StringEqual( node->Value(), "yes", true, TIXML_ENCODING_UNKNOWN ) 
-		 || StringEqual( node->Value(), "1", true, TIXML_ENCODING_UNKNOWN ) ) 
+	if ( str == "true" || str == "yes" || str == "1" )
 	{
 		*bval = true;
 		result = TIXML_SUCCESS;
 	}
-	else if (    StringEqual( node->Value(), "false", true, TIXML_ENCODING_UNKNOWN ) 
-			  || StringEqual( node->Value(), "no", true, TIXML_ENCODING_UNKNOWN ) 
-			  || StringEqual( node->Value(), "0", true, TIXML_ENCODING_UNKNOWN ) ) 
+	else if ( str == "false" || str == "no" || str == "0" )
 	{
 		*bval = false;
 		result = TIXML_SUCCESS;
-- 
2.43.0


From e08cfe4bc061173e3f05112a24d4fdfaa961b68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 20/42] fix: do not empty XML elements and documents on
 self-assignment

---
 urdf_parser/tinyxml/tinyxml.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/urdf_parser/tinyxml/tinyxml.cpp b/urdf_parser/tinyxml/tinyxml.cpp
index 258f8d2..127c1c3 100644
--- a/urdf_parser/tinyxml/tinyxml.cpp
+++ b/urdf_parser/tinyxml/tinyxml.cpp
@@ -550,6 +550,8 @@ TiXmlElement::TiXmlElement( const TiXmlElement& copy)
 
 TiXmlElement& TiXmlElement::operator=( const TiXmlElement& base )
 {
+	if ( this == &base )
+		return *this;
 	ClearThis();
 	base.CopyTo( this );
 	return *this;
@@ -946,6 +948,8 @@ TiXmlDocument::TiXmlDocument( const TiXmlDocument& copy ) : TiXmlNode( TiXmlNode
 
 TiXmlDocument& TiXmlDocument::operator=( const TiXmlDocument& copy )
 {
+	if ( this == &copy )
+		return *this;
 	Clear();
 	copy.CopyTo( this );
 	return *this;
-- 
2.43.0


From f157699a63a4457f0955adfa9f11bcb27b39e040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:45 +0000
Subject: [PATCH 21/42] fix: report an error for a comment, declaration or
 other markup that is cut off

---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index 62d74d5..ac706bb 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -1313,14 +1313,13 @@ const char* TiXmlUnknown::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 		++p;
 	}
 
-	if ( !p )
+	if ( !p || *p != '>' )
 	{
 		if ( document )	
-			document->SetError( TIXML_ERROR_PARSING_UNKNOWN, 0, 0, encoding );
+			document->SetError( TIXML_ERROR_PARSING_UNKNOWN, p, data, encoding );
+		return 0;
 	}
-	if ( p && *p == '>' )
-		return p+1;
-	return p;
+	return p+1;
 }
 
 #ifdef TIXML_USE_STL
@@ -1399,8 +1398,13 @@ const char* TiXmlComment::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 		value.append( p, 1 );
 		++p;
 	}
-	if ( p && *p ) 
-		p += strlen( endTag );
+	if ( !p || !*p )
+	{
+		if ( document )
+			document->SetError( TIXML_ERROR_PARSING_COMMENT, p, data, encoding );
+		return 0;
+	}
+	p += strlen( endTag );
 
 	return p;
 }
@@ -1646,6 +1650,7 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data, TiXm
 				++p;
 		}
 	}
+	if ( document ) document->SetError( TIXML_ERROR_PARSING_DECLARATION, p, data, _encoding );
 	return 0;
 }
 
-- 
2.43.0


From 144a79785e87486364b83b953e6b7b7c87bc5965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:31 +0000
Subject: [PATCH 22/42] fix: compute the center of mass of a batch at each of
 its configurations

The pose cache was not cleared after the joint angles were set, so that all
rows of a batch (and the first one, after an earlier query) repeated the
poses of an earlier configuration.
---
 src/wrapper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 663678d..04fabd4 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -140,6 +140,8 @@ public:
         auto xyzrpy_begin = std::prev(qs[i].end(), 6);
         set_base_pose(xyzrpy_begin);
       }
+      // the poses kept are those of the previous configuration
+      this->clear_cache();
 
       const auto com = this->get_com();
       coms(0, i) = com.x;
-- 
2.43.0


From 9ae55dae162a5e1cea89132680db028515638bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:31 +0000
Subject: [PATCH 23/42] fix: compute the total inertia matrix at the
 configuration given

The pose cache of an earlier configuration was used.
---
 src/wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 04fabd4..34fe0a4 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -184,7 +184,7 @@ public:
   compute_total_inertia_matrix(const std::vector<double> &q,
                                const std::vector<size_t> &joint_ids) {
     // should we take vector of q as input...?
-    this->_set_joint_angles(joint_ids, q);
+    this->set_joint_angles(joint_ids, q);
     return this->get_total_inertia_matrix();
   }
 
-- 
2.43.0


From 47cedf031abb4284cbc3c74dc8d3191379d4836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:46 +0000
Subject: [PATCH 24/42] fix: reduce the Jacobian of solve_com_fk to the columns
 of a planar base

As solve_fk and compute_inter_link_sqdists do: it had six base columns for
the three base coordinates of the configuration.
---
 python/tinyfk/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 40376b7..780dd9c 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -193,6 +193,11 @@ class KinematicModel:
         P, J = self._robot.solve_com_forward_kinematics(
             qs, joint_ids, action_link_ids, action_forces, with_base, with_jacobian
         )
+        if base_type == BaseType.PLANER:
+            extrac_indices = np.hstack(
+                (np.arange(n_joint), np.array([n_joint, n_joint + 1, n_joint + 5]))
+            )
+            J = J[:, extrac_indices]
         return P, J
 
     def compute_total_inertia_matrix(self, q: np.ndarray, joint_ids: List[int]) -> np.ndarray:
-- 
2.43.0


From c20ae228a4df243d4228b0a561a65a91a271100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:46 +0000
Subject: [PATCH 25/42] fix: accept a single configuration in all batch queries

solve_com_fk failed for a one-dimensional array, solve_fk for a plain list,
and compute_inter_link_sqdists for both.
---
 python/tinyfk/__init__.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 780dd9c..e1ea2fa 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -95,6 +95,14 @@ class KinematicModel:
             assert len(q) == len(joint_ids), "{} != {}".format(len(q), len(joint_ids))
             self._robot.set_joint_angles(joint_ids, q)
 
+    @staticmethod
+    def _as_sequence(qs: Union[List[np.ndarray], np.ndarray]) -> np.ndarray:
+        # a single configuration is a sequence of one
+        qs = np.asarray(qs)
+        if qs.ndim == 1:
+            qs = np.expand_dims(qs, axis=0)
+        return qs
+
     def _modify_input_with_3dof_base(self, n_joint, joint_angles_sequence):
         n_seq, n_dof = joint_angles_sequence.shape
         joint_angles_sequence_modified = np.zeros((n_seq, n_dof + 3))
@@ -118,12 +126,7 @@ class KinematicModel:
         Setting use_cache=True is potentially dangeroud feature for developers who
         understand the caching mechanism of the tinyfk side.
         """
-        if isinstance(qs, np.ndarray):
-            if qs.ndim == 1:
-                qs = np.expand_dims(qs, axis=0)
-        else:
-            qs = np.array(qs)
-        assert isinstance(qs, np.ndarray)
+        qs = self._as_sequence(qs)
         n_seq, n_dof = qs.shape
 
         if isinstance(elink_ids, int):
@@ -168,11 +171,7 @@ class KinematicModel:
         with_jacobian: bool = False,
     ) -> Tuple[np.ndarray, np.ndarray]:
 
-        if not isinstance(qs, np.ndarray):
-            qs = np.array(qs)
-            if qs.ndim == 1:
-                qs = np.expand_dims(qs, axis=0)
-        assert isinstance(qs, np.ndarray)
+        qs = self._as_sequence(qs)
         n_seq, n_dof = qs.shape
 
         n_joint = len(joint_ids)
@@ -245,9 +244,8 @@ class KinematicModel:
         use_cache: bool = False,
     ) -> Tuple[np.ndarray, np.ndarray]:
 
+        qs = self._as_sequence(qs)
         if base_type == BaseType.PLANER:
-            if isinstance(qs, list):
-                qs = np.array(qs)
             qs = self._modify_input_with_3dof_base(len(joint_ids), qs)
 
         with_base = base_type != BaseType.FIXED
-- 
2.43.0


From 31c16ec133a317a8dd93096bbeddf184efc2035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:15 +0000
Subject: [PATCH 26/42] fix: raise for arguments of wrong length instead of
 reading out of bounds

Only solve_fk in Python checked every configuration; the others read past
the end of a configuration, force or link list that was too short, and
ignored the rest of a longer one.
---
 python/tinyfk/__init__.py |  2 ++
 src/wrapper.cpp           | 31 ++++++++++++++++++++++++++-----
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index e1ea2fa..8e8debf 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -188,6 +188,7 @@ class KinematicModel:
         with_base = base_type != BaseType.FIXED
         if action_link_ids is None:
             action_link_ids = []
+        if action_forces is None:
             action_forces = []
         P, J = self._robot.solve_com_forward_kinematics(
             qs, joint_ids, action_link_ids, action_forces, with_base, with_jacobian
@@ -246,6 +247,7 @@ class KinematicModel:
 
         qs = self._as_sequence(qs)
         if base_type == BaseType.PLANER:
+            assert qs.shape[1] == len(joint_ids) + 3
             qs = self._modify_input_with_3dof_base(len(joint_ids), qs)
 
         with_base = base_type != BaseType.FIXED
diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 34fe0a4..53c2400 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -22,6 +22,22 @@ class KinematicsModelPyWrapper : public KinematicModel {
 public:
   using KinematicModel::KinematicModel;
 
+  static void check_dof(const std::vector<std::vector<double>> &qs,
+                        size_t n_dof) {
+    for (const auto &q : qs) {
+      if (q.size() != n_dof) {
+        throw std::invalid_argument(
+            "dof mismatch!! Probably you forget base's (x, y, theta)");
+      }
+    }
+  }
+
+  void set_joint_angles(const std::vector<size_t> &joint_ids,
+                        const std::vector<double> &joint_angles) {
+    check_dof({joint_angles}, joint_ids.size());
+    KinematicModel::set_joint_angles(joint_ids, joint_angles);
+  }
+
   void set_base_pose(std::vector<double>::const_iterator begin) {
     auto pose = Transform();
     pose.position.x = *begin;
@@ -71,11 +87,7 @@ public:
     auto n_joints = joint_ids.size();
     auto n_dof = (with_base ? n_joints + 6 : n_joints);
 
-    if (with_base && (n_joints != joint_angles_sequence[0].size() - 6)) {
-      throw std::invalid_argument(
-          "dof mismatch!! Probably you forget base's (x, y, theta)");
-      // TODO this check try to prevent the potentionally buggy procedure below
-    }
+    check_dof(joint_angles_sequence, n_dof);
 
     Eigen::MatrixXd P = Eigen::MatrixXd::Zero(n_pose_dim, n_wp * n_link);
     Eigen::MatrixXd J =
@@ -131,6 +143,10 @@ public:
                                bool with_base, bool with_jacobian) {
     const size_t n_wp = qs.size();
     const size_t n_dof = joint_ids.size() + with_base * 6;
+    check_dof(qs, n_dof);
+    if (action_link_ids.size() != forces.size()) {
+      throw std::invalid_argument("one force per action link is required");
+    }
 
     Eigen::MatrixXd coms = Eigen::MatrixXd::Zero(3, n_wp);
     Eigen::MatrixXd J = Eigen::MatrixXd::Zero(3 * n_wp, n_dof);
@@ -184,6 +200,7 @@ public:
   compute_total_inertia_matrix(const std::vector<double> &q,
                                const std::vector<size_t> &joint_ids) {
     // should we take vector of q as input...?
+    check_dof({q}, joint_ids.size());
     this->set_joint_angles(joint_ids, q);
     return this->get_total_inertia_matrix();
   }
@@ -198,6 +215,10 @@ public:
     const size_t n_wp = qs.size();
     const size_t n_joint = joint_ids.size() + with_base * 6;
     const size_t n_check = link_ids1.size();
+    check_dof(qs, n_joint);
+    if (link_ids1.size() != link_ids2.size()) {
+      throw std::invalid_argument("the lists of link ids differ in length");
+    }
 
     Eigen::VectorXd sqdists = Eigen::VectorXd::Zero(n_check * n_wp);
     Eigen::MatrixXd grads = with_grads
-- 
2.43.0


From 80e6b9ebbf861c9d673e59b750405499dee22e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:15 +0000
Subject: [PATCH 27/42] fix: raise for ids that do not exist instead of reading
 out of bounds

In the Python module; an id of another model or a joint id used as link id
ended the interpreter.
---
 src/wrapper.cpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 53c2400..3569e43 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -32,8 +32,29 @@ public:
     }
   }
 
+  static void check_ids(const std::vector<size_t> &ids, size_t n_id) {
+    for (const size_t id : ids) {
+      if (id >= n_id) {
+        throw std::invalid_argument("no such id: " + std::to_string(id));
+      }
+    }
+  }
+
+  std::vector<double>
+  get_joint_angles(const std::vector<size_t> &joint_ids) const {
+    check_ids(joint_ids, joints_.size());
+    return KinematicModel::get_joint_angles(joint_ids);
+  }
+
+  std::vector<Bound>
+  get_joint_position_limits(const std::vector<size_t> &joint_ids) const {
+    check_ids(joint_ids, joints_.size());
+    return KinematicModel::get_joint_position_limits(joint_ids);
+  }
+
   void set_joint_angles(const std::vector<size_t> &joint_ids,
                         const std::vector<double> &joint_angles) {
+    check_ids(joint_ids, joints_.size());
     check_dof({joint_angles}, joint_ids.size());
     KinematicModel::set_joint_angles(joint_ids, joint_angles);
   }
@@ -87,6 +108,8 @@ public:
     auto n_joints = joint_ids.size();
     auto n_dof = (with_base ? n_joints + 6 : n_joints);
 
+    check_ids(elink_ids, links_.size());
+    check_ids(joint_ids, joints_.size());
     check_dof(joint_angles_sequence, n_dof);
 
     Eigen::MatrixXd P = Eigen::MatrixXd::Zero(n_pose_dim, n_wp * n_link);
@@ -143,6 +166,8 @@ public:
                                bool with_base, bool with_jacobian) {
     const size_t n_wp = qs.size();
     const size_t n_dof = joint_ids.size() + with_base * 6;
+    check_ids(action_link_ids, links_.size());
+    check_ids(joint_ids, joints_.size());
     check_dof(qs, n_dof);
     if (action_link_ids.size() != forces.size()) {
       throw std::invalid_argument("one force per action link is required");
@@ -200,7 +225,6 @@ public:
   compute_total_inertia_matrix(const std::vector<double> &q,
                                const std::vector<size_t> &joint_ids) {
     // should we take vector of q as input...?
-    check_dof({q}, joint_ids.size());
     this->set_joint_angles(joint_ids, q);
     return this->get_total_inertia_matrix();
   }
@@ -215,6 +239,9 @@ public:
     const size_t n_wp = qs.size();
     const size_t n_joint = joint_ids.size() + with_base * 6;
     const size_t n_check = link_ids1.size();
+    check_ids(link_ids1, links_.size());
+    check_ids(link_ids2, links_.size());
+    check_ids(joint_ids, joints_.size());
     check_dof(qs, n_joint);
     if (link_ids1.size() != link_ids2.size()) {
       throw std::invalid_argument("the lists of link ids differ in length");
@@ -262,6 +289,7 @@ public:
   void add_new_link(std::string link_name, size_t parent_id,
                     std::array<double, 3> position,
                     std::array<double, 3> rotation) {
+    check_ids({parent_id}, links_.size());
     KinematicModel::add_new_link(link_name, parent_id, position, rotation);
   }
 };
-- 
2.43.0


From 77a5438bd2d1c859626aa49c6a4c3c681058c712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:34 +0000
Subject: [PATCH 28/42] fix: keep the histories of unpickled and copied models

Unpickling emptied the histories, so that a second pickling lost the added
links and joint angles, and copy.copy added to the list of the original,
which could then not be copied any more.
---
 python/tinyfk/__init__.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 8e8debf..82191a0 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -286,10 +286,15 @@ class KinematicModel:
         self.__dict__.update(state)
         self._robot = _tinyfk.RobotModel(self._xml_text)
 
-        for arg in copy.deepcopy(self._add_new_link_history):
+        # replay the histories. This records them again, in lists of the new
+        # instance, so that it can be pickled or copied in turn
+        add_new_link_history = self._add_new_link_history
+        set_joint_angles_history = self._set_joint_angles_history
+        self._add_new_link_history = []
+        self._set_joint_angles_history = []
+
+        for arg in add_new_link_history:
             self.add_new_link(*arg)
 
-        for arg in copy.deepcopy(self._set_joint_angles_history):
+        for arg in set_joint_angles_history:
             self.set_q(*arg)
-        self._add_new_link_history = []
-        self._set_joint_angles_history = []
-- 
2.43.0


From 0f725271685e81b67e4b073192ec665a49dee211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:35 +0000
Subject: [PATCH 29/42] fix: record only successful calls, with their own
 copies of the arguments

A failed set_q or add_new_link made the model impossible to unpickle, and
arrays changed by the caller after the call changed the pickled model.
---
 python/tinyfk/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 82191a0..8e486a1 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -77,9 +77,6 @@ class KinematicModel:
     def set_q(
         self, joint_ids: List[int], q: np.ndarray, base_type: BaseType = BaseType.FIXED
     ) -> None:
-        args = [joint_ids, q, base_type]
-        self._set_joint_angles_history.append(args)
-
         if base_type == BaseType.PLANER:
             assert len(q) == len(joint_ids) + 3, "{} != {}".format(len(q), len(joint_ids) + 3)
             joint_angles, base_xytheta = q[:-3], q[-3:]
@@ -95,6 +92,10 @@ class KinematicModel:
             assert len(q) == len(joint_ids), "{} != {}".format(len(q), len(joint_ids))
             self._robot.set_joint_angles(joint_ids, q)
 
+        # record a copy, and only if it succeeded
+        args = [joint_ids, q, base_type]
+        self._set_joint_angles_history.append(copy.deepcopy(args))
+
     @staticmethod
     def _as_sequence(qs: Union[List[np.ndarray], np.ndarray]) -> np.ndarray:
         # a single configuration is a sequence of one
@@ -229,12 +230,14 @@ class KinematicModel:
         self, link_name: str, parent_id: int, position: np.ndarray, rpy: Optional[np.ndarray] = None
     ):
         args = [link_name, parent_id, position, rpy]
-        self._add_new_link_history.append(args)
 
         if rpy is None:
             rpy = np.zeros(3)
         self._robot.add_new_link(link_name, parent_id, position, rpy)
 
+        # record a copy, and only if it succeeded
+        self._add_new_link_history.append(copy.deepcopy(args))
+
     def compute_inter_link_sqdists(
         self,
         qs: Union[List[np.ndarray], np.ndarray],
-- 
2.43.0


From 08c64c6151f0a1f551fa143a0679f77672437397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:06 +0000
Subject: [PATCH 30/42] fix: destroy long chains of links without nested
 destructor calls

---
 urdf_parser/include/urdf_model/link.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/urdf_parser/include/urdf_model/link.h b/urdf_parser/include/urdf_model/link.h
index 18f2a3d..806367f 100644
--- a/urdf_parser/include/urdf_model/link.h
+++ b/urdf_parser/include/urdf_model/link.h
@@ -190,6 +190,24 @@ class Link
 public:
   Link() { this->clear(); };
 
+  /// destroys the links below one after another, because nested destructor
+  /// calls would exhaust the call stack if the chain of links is long
+  ~Link()
+  {
+    std::vector<LinkSharedPtr> pending;
+    pending.swap(child_links);
+    while (!pending.empty())
+    {
+      const LinkSharedPtr link = pending.back();
+      pending.pop_back();
+      if (link.use_count() == 1) // about to be destroyed
+      {
+        pending.insert(pending.end(), link->child_links.begin(), link->child_links.end());
+        link->child_links.clear();
+      }
+    }
+  };
+
   std::string name;
 
   unsigned int id;
-- 
2.43.0


From 1070ef08ac25e8bab96c84deab0b468223702adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 31/42] fix: endless loop on a null byte in the text of a
 streamed XML element

---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index ac706bb..724e7de 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -959,6 +959,15 @@ void TiXmlElement::StreamIn (std::istream * in, TIXML_STRING * tag)
 				TiXmlText text( "" );
 				text.StreamIn( in, tag );
 
+				if ( in->good() && in->peek() != '<' )
+				{
+					// A null byte, which nothing would ever read.
+					TiXmlDocument* document = GetDocument();
+					if ( document )
+						document->SetError( TIXML_ERROR_EMBEDDED_NULL, 0, 0, TIXML_ENCODING_UNKNOWN );
+					return;
+				}
+
 				// What follows text is a closing tag or another node.
 				// Go around again and figure it out.
 				continue;
-- 
2.43.0


From eb986250fd8e9b988d1755e336c4432551fb08a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 32/42] fix: reachable assertion on a malformed end tag of a
 streamed XML element

---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index 724e7de..8c2e784 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -1003,12 +1003,11 @@ void TiXmlElement::StreamIn (std::istream * in, TIXML_STRING * tag)
 				in->get();
 
 				// Early out if we find the CDATA id.
-				if ( c == '[' && tag->size() >= 9 )
+				if ( c == '[' && !closingTag && tag->size() >= 9 )
 				{
 					size_t len = tag->size();
 					const char* start = tag->c_str() + len - 9;
 					if ( strcmp( start, "<![CDATA[" ) == 0 ) {
-						assert( !closingTag );
 						break;
 					}
 				}
-- 
2.43.0


From 75495657bf2c86b1ca1e0690ec7f7cc2e552654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 33/42] fix: do not overflow the stack when deeply nested XML
 is streamed in

---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index 8c2e784..7fb46c8 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -1047,6 +1047,18 @@ void TiXmlElement::StreamIn (std::istream * in, TIXML_STRING * tag)
 				TiXmlNode* node = Identify( tagloc, TIXML_DEFAULT_ENCODING );
 				if ( !node )
 					return;
+				int depth = 0;
+				for ( const TiXmlNode* n = node->Parent(); n; n = n->Parent() )
+					++depth;
+				if ( depth > TiXmlParsingData::MAX_DEPTH )
+				{
+					// Streaming is recursive, as parsing is.
+					TiXmlDocument* document = GetDocument();
+					if ( document )
+						document->SetError( TIXML_ERROR_PARSING_ELEMENT, 0, 0, TIXML_ENCODING_UNKNOWN );
+					delete node;
+					return;
+				}
 				node->StreamIn( in, tag );
 				delete node;
 				node = 0;
-- 
2.43.0


From 26e86ac56640281c6b74299d9c013755632bd14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 34/42] fix: a '>' in an attribute value does not end the tag
 of a streamed XML element

---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 39 +++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index 7fb46c8..a6d1593 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -648,6 +648,37 @@ const char* TiXmlBase::ReadText(	const char* p,
 
 #ifdef TIXML_USE_STL
 
+// Follows the characters of a tag while it is streamed in, to tell the '>' that
+// ends an element's tag from one in an attribute value.
+class TiXmlTagScan
+{
+public:
+	TiXmlTagScan() : first( 0 ), quote( 0 ) {}
+
+	void Add( int c )
+	{
+		if ( quote )
+		{
+			if ( c == quote )
+				quote = 0;
+		}
+		else if ( !first )
+		{
+			if ( c != '<' && c != ' ' && c != '\t' && c != '\n' && c != '\r' )
+				first = c;
+		}
+		else if ( ( c == '"' || c == '\'' ) && first != '!' && first != '?' && first != '/' )
+		{
+			quote = c;
+		}
+	}
+	bool InValue() const	{ return quote != 0; }
+
+private:
+	int first;		// what follows the '<'
+	int quote;		// the quote of the attribute value we are in
+};
+
 void TiXmlDocument::StreamIn( std::istream * in, TIXML_STRING * tag )
 {
 	// The basic issue with a document is that we don't know what we're
@@ -666,9 +697,11 @@ void TiXmlDocument::StreamIn( std::istream * in, TIXML_STRING * tag )
 	while ( in->good() )
 	{
 		int tagIndex = (int) tag->length();
-		while ( in->good() && in->peek() != '>' )
+		TiXmlTagScan scan;
+		while ( in->good() && ( in->peek() != '>' || scan.InValue() ) )
 		{
 			int c = in->get();
+			scan.Add( c );
 			if ( c <= 0 )
 			{
 				SetError( TIXML_ERROR_EMBEDDED_NULL, 0, 0, TIXML_ENCODING_UNKNOWN );
@@ -981,6 +1014,7 @@ void TiXmlElement::StreamIn (std::istream * in, TIXML_STRING * tag)
 
 			bool closingTag = false;
 			bool firstCharFound = false;
+			TiXmlTagScan scan;
 
 			for( ;; )
 			{
@@ -996,9 +1030,10 @@ void TiXmlElement::StreamIn (std::istream * in, TIXML_STRING * tag)
 					return;
 				}
 				
-				if ( c == '>' )
+				if ( c == '>' && !scan.InValue() )
 					break;
 
+				scan.Add( c );
 				*tag += (char) c;
 				in->get();
 
-- 
2.43.0


From fe23b7d3362bb30bd998c977332a720adbf38b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 35/42] fix: a streamed XML comment may begin with '>'

---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index a6d1593..600d63d 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -1395,7 +1395,8 @@ void TiXmlComment::StreamIn( std::istream * in, TIXML_STRING * tag )
 
 		if ( c == '>' 
 			 && tag->at( tag->length() - 2 ) == '-'
-			 && tag->at( tag->length() - 3 ) == '-' )
+			 && tag->at( tag->length() - 3 ) == '-'
+			 && tag->length() >= tag->rfind( "<!--" ) + 7 )	// not the hyphens of the beginning
 		{
 			// All is well.
 			return;		
-- 
2.43.0


From a57ab753adb9e654ef65d5f90e62a8abcb262b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 36/42] fix: a '>' in an attribute value of an XML element that
 is streamed in on its own

---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index 600d63d..f9cb9e6 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -947,6 +947,7 @@ void TiXmlElement::StreamIn (std::istream * in, TIXML_STRING * tag)
 {
 	// We're called with some amount of pre-parsing. That is, some of "this"
 	// element is in "tag". Go ahead and stream to the closing ">"
+	TiXmlTagScan scan;
 	while( in->good() )
 	{
 		int c = in->get();
@@ -958,8 +959,9 @@ void TiXmlElement::StreamIn (std::istream * in, TIXML_STRING * tag)
 			return;
 		}
 		(*tag) += (char) c ;
+		scan.Add( c );
 		
-		if ( c == '>' )
+		if ( c == '>' && !scan.InValue() )
 			break;
 	}
 
-- 
2.43.0


From 652fc58f05c7d04fa41ae92d6c496f4cb193b6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:02 +0000
Subject: [PATCH 37/42] fix: the delimiters of a streamed XML comment may occur
 in its text

---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index f9cb9e6..8d47aa4 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -1382,6 +1382,10 @@ const char* TiXmlUnknown::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 #ifdef TIXML_USE_STL
 void TiXmlComment::StreamIn( std::istream * in, TIXML_STRING * tag )
 {
+	// The comment is the first markup after the last '>'.
+	size_t before = tag->rfind( '>' );
+	before = ( before == TIXML_STRING::npos ) ? 0 : before + 1;
+
 	while ( in->good() )
 	{
 		int c = in->get();	
@@ -1395,13 +1399,18 @@ void TiXmlComment::StreamIn( std::istream * in, TIXML_STRING * tag )
 
 		(*tag) += (char) c;
 
-		if ( c == '>' 
-			 && tag->at( tag->length() - 2 ) == '-'
-			 && tag->at( tag->length() - 3 ) == '-'
-			 && tag->length() >= tag->rfind( "<!--" ) + 7 )	// not the hyphens of the beginning
+		if ( c == '>' )
 		{
-			// All is well.
-			return;		
+			// The hyphens of the beginning are not those of the end.
+			size_t start = tag->find( "<!--", before );
+			if (    start != TIXML_STRING::npos
+				 && tag->length() >= start + 7
+				 && tag->at( tag->length() - 2 ) == '-'
+				 && tag->at( tag->length() - 3 ) == '-' )
+			{
+				// All is well.
+				return;		
+			}
 		}
 	}
 }
-- 
2.43.0


From 59e6fa0d10c66066cfb581a5a122d04ef968bb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:02 +0000
Subject: [PATCH 38/42] fix: reachable assertions when an XML node is read from
 nothing

---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index 8d47aa4..85e2ea4 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -1135,7 +1135,8 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 	// Read the name.
 	const char* pErr = p;
 
-    p = ReadName( p, &value, encoding );
+	if ( p )
+		p = ReadName( p, &value, encoding );
 	if ( !p || !*p )
 	{
 		if ( document )	document->SetError( TIXML_ERROR_FAILED_TO_READ_ELEMENT_NAME, pErr, data, encoding );
@@ -1432,7 +1433,7 @@ const char* TiXmlComment::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 	const char* startTag = "<!--";
 	const char* endTag   = "-->";
 
-	if ( !StringEqual( p, startTag, false, encoding ) )
+	if ( !p || !*p || !StringEqual( p, startTag, false, encoding ) )
 	{
 		if ( document )
 			document->SetError( TIXML_ERROR_PARSING_COMMENT, p, data, encoding );
@@ -1593,6 +1594,9 @@ const char* TiXmlText::Parse( const char* p, TiXmlParsingData* data, TiXmlEncodi
 		location = data->Cursor();
 	}
 
+	if ( !p || !*p )
+		return 0;
+
 	const char* const startTag = "<![CDATA[";
 	const char* const endTag   = "]]>";
 
-- 
2.43.0


From 0f585a428b850999e2a8800b1ce464256a640ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 39/42] fix: saving an XML file reported success when the data
 could not be written

---
 urdf_parser/tinyxml/tinyxml.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/urdf_parser/tinyxml/tinyxml.cpp b/urdf_parser/tinyxml/tinyxml.cpp
index 127c1c3..1f8900e 100644
--- a/urdf_parser/tinyxml/tinyxml.cpp
+++ b/urdf_parser/tinyxml/tinyxml.cpp
@@ -1093,7 +1093,8 @@ bool TiXmlDocument::SaveFile( const char * filename ) const
 	if ( fp )
 	{
 		bool result = SaveFile( fp );
-		fclose( fp );
+		if ( fclose( fp ) != 0 )
+			result = false;
 		return result;
 	}
 	return false;
@@ -1113,7 +1114,8 @@ bool TiXmlDocument::SaveFile( FILE* fp ) const
 		fputc( TIXML_UTF_LEAD_2, fp );
 	}
 	Print( fp, 0 );
-	return (ferror(fp) == 0);
+	// What is still buffered may not be writable either.
+	return fflush(fp) == 0 && ferror(fp) == 0;
 }
 
 
-- 
2.43.0


From 5bcfc89b31adae5059136dae845d6ec3a2b504d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:13 +0000
Subject: [PATCH 40/42] fix: loading a directory as an XML file overflowed and
 threw instead of failing

---
 urdf_parser/tinyxml/tinyxml.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/urdf_parser/tinyxml/tinyxml.cpp b/urdf_parser/tinyxml/tinyxml.cpp
index 1f8900e..2445d64 100644
--- a/urdf_parser/tinyxml/tinyxml.cpp
+++ b/urdf_parser/tinyxml/tinyxml.cpp
@@ -23,6 +23,7 @@ distribution.
 */
 
 #include <ctype.h>
+#include <limits.h>
 
 #ifdef TIXML_USE_STL
 #include <sstream>
@@ -1006,6 +1007,13 @@ bool TiXmlDocument::LoadFile( FILE* file, TiXmlEncoding encoding )
 	length = ftell( file );
 	fseek( file, 0, SEEK_SET );
 
+	// A directory can be opened, but has no size and cannot be read.
+	if ( length == LONG_MAX )
+	{
+		SetError( TIXML_ERROR_OPENING_FILE, 0, 0, TIXML_ENCODING_UNKNOWN );
+		return false;
+	}
+
 	// Strange case, but good to handle up front.
 	if ( length <= 0 )
 	{
-- 
2.43.0


From 79a60084f303dfb22e583cc63ec38094b9ac7674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:13 +0000
Subject: [PATCH 41/42] fix: loading a directory as a URDF file threw instead
 of returning null

---
 urdf_parser/src/model.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/urdf_parser/src/model.cpp b/urdf_parser/src/model.cpp
index e246e9e..30e2573 100644
--- a/urdf_parser/src/model.cpp
+++ b/urdf_parser/src/model.cpp
@@ -36,6 +36,7 @@
 
 #include <fstream>
 #include <map>
+#include <sstream>
 #include <stdexcept>
 #include <string>
 #include "urdf_parser/urdf_parser.h"
@@ -56,9 +57,10 @@ ModelInterfaceSharedPtr  parseURDFFile(const std::string &path)
       return ModelInterfaceSharedPtr();
     }
 
-    std::string xml_str((std::istreambuf_iterator<char>(stream)),
-	                     std::istreambuf_iterator<char>());
-    return urdf::parseURDF( xml_str );
+    // the stream buffer itself throws if it cannot be read (a directory, say)
+    std::stringstream xml_stream;
+    xml_stream << stream.rdbuf();
+    return urdf::parseURDF( xml_stream.str() );
 }
 
 bool assignMaterial(const VisualSharedPtr& visual, ModelInterfaceSharedPtr& model, const char* link_name)
-- 
2.43.0


From 25dd683c59ffdda9255112256a2f4522b89e8291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 42/42] fix: bundled robot files stay missing or incomplete
 after an interrupted or concurrent download

The download at import was skipped as soon as the cache directory existed. If
one failed, was killed or was still running in another process, all later
imports gave paths of missing or incomplete files; and two first imports at
once could fail with FileExistsError. Each file is now downloaded under another
name, moved into place when it is complete, and fetched when its path is asked
for if it is not there.
---
 python/tinyfk/__init__.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 8e486a1..c32c3f8 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -1,5 +1,6 @@
 import copy
 import os
+import uuid
 from enum import Enum
 from pathlib import Path
 from typing import Any, List, Optional, Tuple, Union
@@ -10,22 +11,40 @@ import numpy as np
 from . import _tinyfk  # type: ignore
 
 _cache_dir = Path("~/.tinyfk").expanduser()
-if not _cache_dir.exists():
-    _cache_dir.mkdir()
-    addr_pr2 = "https://raw.githubusercontent.com/HiroIshida/tinyfk/master/data/pr2.urdf"
-    addr_fetch = "https://raw.githubusercontent.com/HiroIshida/tinyfk/master/data/fetch.urdf"
-    urlretrieve(addr_pr2, os.path.join(_cache_dir, "pr2.urdf"))
-    urlretrieve(addr_fetch, os.path.join(_cache_dir, "fetch.urdf"))
+addr_pr2 = "https://raw.githubusercontent.com/HiroIshida/tinyfk/master/data/pr2.urdf"
+addr_fetch = "https://raw.githubusercontent.com/HiroIshida/tinyfk/master/data/fetch.urdf"
+
+
+def _download_if_missing(addr: str, path: str) -> None:
+    if os.path.exists(path):
+        return
+    _cache_dir.mkdir(parents=True, exist_ok=True)
+    # downloaded under another name first, so that neither an interrupted nor
+    # a concurrent download leaves an incomplete file
+    part = "{}.{}.part".format(path, uuid.uuid4().hex)
+    try:
+        urlretrieve(addr, part)
+        os.replace(part, path)
+    finally:
+        if os.path.exists(part):
+            os.remove(part)
 
 
 def pr2_urdfpath():
+    _download_if_missing(addr_pr2, os.path.join(_cache_dir, "pr2.urdf"))
     return os.path.join(_cache_dir, "pr2.urdf")
 
 
 def fetch_urdfpath():
+    _download_if_missing(addr_fetch, os.path.join(_cache_dir, "fetch.urdf"))
     return os.path.join(_cache_dir, "fetch.urdf")
 
 
+if not _cache_dir.exists():
+    pr2_urdfpath()
+    fetch_urdfpath()
+
+
 class BaseType(Enum):
     FIXED = 0
     PLANER = 1
-- 
2.43.0

