From 9e305d2c850a0396c4cd2f766aabb3badc9e6976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 01/73] fix: keep the 2D vector angle below 360 degrees

---
 src/base/vector.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/base/vector.cc b/src/base/vector.cc
index 98f1061..8f28b8a 100644
--- a/src/base/vector.cc
+++ b/src/base/vector.cc
@@ -77,6 +77,12 @@ double Vector2d::Angle(const bool& is_enabled_negative_angles) const {
     }
   }
 
+  // adjusts angle if it was rounded up to a full rotation
+  // ex: this occurs when the vector is just below the positive horizontal axis
+  if (360 <= angle) {
+    angle = 0;
+  }
+
   // adjusts angle if flag is true and angle is negative
   if (180 < angle && is_enabled_negative_angles == true) {
     angle = angle -360;
-- 
2.43.0


From 3cf9de08cf7f6d93d23cedd3cacf5ba88874b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 02/73] fix: order a string before the longer strings it starts

---
 src/base/helper.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base/helper.cc b/src/base/helper.cc
index 2b34627..acd9acb 100644
--- a/src/base/helper.cc
+++ b/src/base/helper.cc
@@ -22,6 +22,10 @@ int CompareStrings(const std::string& str1, const std::string& str2) {
   }
 
   // an end of a string is reached
+  if (str1.length() < str2.length()) {
+    return -1;
+  }
+
   return str1.length() > str2.length();
 }
 
-- 
2.43.0


From 6832ce9c2af5636c4441a8c982d7dcce38e9cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 03/73] fix: copy polynomials without sharing the owned
 derivative

---
 include/models/base/polynomial.h | 10 ++++++++++
 src/base/polynomial.cc           | 14 ++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/models/base/polynomial.h b/include/models/base/polynomial.h
index e98feae..7723e23 100644
--- a/include/models/base/polynomial.h
+++ b/include/models/base/polynomial.h
@@ -27,9 +27,19 @@ class Polynomial {
   ///   A list of coefficients.
   explicit Polynomial(const std::vector<double>* coefficients);
 
+  /// \brief Copy constructor.
+  /// \param[in] polynomial
+  ///   The polynomial.
+  Polynomial(const Polynomial& polynomial);
+
   /// \brief Destructor.
   ~Polynomial();
 
+  /// \brief Assignment operator.
+  /// \param[in] polynomial
+  ///   The polynomial.
+  Polynomial& operator=(const Polynomial& polynomial);
+
   /// \brief Gets the derivative of the polynomial.
   /// \return A polynomial with derivative coefficients.
   Polynomial Derivative() const;
diff --git a/src/base/polynomial.cc b/src/base/polynomial.cc
index 45aecaa..6f3fda7 100644
--- a/src/base/polynomial.cc
+++ b/src/base/polynomial.cc
@@ -18,10 +18,24 @@ Polynomial::Polynomial(const std::vector<double>* coefficients) {
   is_updated_derivative_ = false;
 }
 
+Polynomial::Polynomial(const Polynomial& polynomial) {
+  coefficients_ = polynomial.coefficients_;
+  derivative_ = nullptr;
+  is_updated_derivative_ = false;
+}
+
 Polynomial::~Polynomial() {
   delete derivative_;
 }
 
+Polynomial& Polynomial::operator=(const Polynomial& polynomial) {
+  // the derivative is owned by each polynomial, and is updated when needed
+  coefficients_ = polynomial.coefficients_;
+  is_updated_derivative_ = false;
+
+  return *this;
+}
+
 Polynomial Polynomial::Derivative() const {
   Polynomial derivative;
 
-- 
2.43.0


From fed98da365762d725b26dc9455296e1e36dc3597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:34 +0000
Subject: [PATCH 04/73] fix: stop the catenary solver when it lands on the
 target

The secant loops made no further progress when a trial point matched the
target (or an end of the interval) exactly, ran into the iteration limit and
reported attainable lengths, sags and tensions as unsolvable.
---
 src/transmissionline/catenary_solver.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/transmissionline/catenary_solver.cc b/src/transmissionline/catenary_solver.cc
index 1270204..3559eb8 100644
--- a/src/transmissionline/catenary_solver.cc
+++ b/src/transmissionline/catenary_solver.cc
@@ -254,6 +254,14 @@ bool CatenarySolver::SolveHorizontalTensionFromLength() const {
     // gets current point y value
     point_current.y = UpdateCatenaryLength(point_current.x);
 
+    // exits if the target is matched or if the solution has converged on one
+    // of the points
+    if ((point_current.y == target_solution)
+        || (std::abs(point_current.x - point_left.x) < 0.0001)
+        || (std::abs(point_current.x - point_right.x) < 0.0001)) {
+      break;
+    }
+
     // updates either left or right point based on current point
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
@@ -335,6 +343,14 @@ bool CatenarySolver::SolveHorizontalTensionFromSag() const {
     // gets current point y value
     point_current.y = UpdateCatenarySag(point_current.x, position_target_);
 
+    // exits if the target is matched or if the solution has converged on one
+    // of the points
+    if ((point_current.y == target_solution)
+        || (std::abs(point_current.x - point_left.x) < 0.0001)
+        || (std::abs(point_current.x - point_right.x) < 0.0001)) {
+      break;
+    }
+
     // updates either left or right point based on current point
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
@@ -417,6 +433,14 @@ bool CatenarySolver::SolveHorizontalTensionFromTension() const {
     // gets current point y value
     point_current.y = UpdateCatenaryTension(point_current.x, position_target_);
 
+    // exits if the target is matched or if the solution has converged on one
+    // of the points
+    if ((point_current.y == target_solution)
+        || (std::abs(point_current.x - point_left.x) < 0.0001)
+        || (std::abs(point_current.x - point_right.x) < 0.0001)) {
+      break;
+    }
+
     // updates either left or right point based on current point
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
-- 
2.43.0


From 7aa68429b1bf1c2ea1cd8d485519c4260a2f824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:34 +0000
Subject: [PATCH 05/73] fix: keep the catenary solver outdated after an invalid
 solution

The first request returned an error and every following one returned the
invalid catenary.
---
 src/transmissionline/catenary_solver.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transmissionline/catenary_solver.cc b/src/transmissionline/catenary_solver.cc
index 3559eb8..745148b 100644
--- a/src/transmissionline/catenary_solver.cc
+++ b/src/transmissionline/catenary_solver.cc
@@ -509,6 +509,7 @@ bool CatenarySolver::Update() const {
 
   // validates catenary to make sure that H/w is valid
   if (catenary_.Validate(false, nullptr) == false) {
+    is_updated_ = false;
     return false;
   }
 
-- 
2.43.0


From c72bb9135fed3ca49d33adfd3dbf8c6aad5e5319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:30 +0000
Subject: [PATCH 06/73] fix: don't solve an incomplete cable attachment while
 validating it

Validate reported the missing catenary and then used it.
---
 src/transmissionline/cable_attachment_equilibrium_solver.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/cable_attachment_equilibrium_solver.cc b/src/transmissionline/cable_attachment_equilibrium_solver.cc
index 73296df..ac528e5 100644
--- a/src/transmissionline/cable_attachment_equilibrium_solver.cc
+++ b/src/transmissionline/cable_attachment_equilibrium_solver.cc
@@ -98,6 +98,11 @@ bool CableAttachmentEquilibriumSolver::Validate(
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
-- 
2.43.0


From 09002229a7e4e8c03fb8b949eff95e9e913273d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 07/73] fix: refresh the line structure points after they are
 edited

IsUpdated accepted the cached points when only the alignment points were
current, so added, deleted or modified structures kept the old coordinates
(or had none).
---
 src/transmissionline/transmission_line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 9bda5d8..b57febe 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -619,7 +619,7 @@ void TransmissionLine::DeleteInvalidLineStructures() {
 
 bool TransmissionLine::IsUpdated() const {
   return (is_updated_points_xyz_alignment_ == true)
-      || (is_updated_points_xyz_structures_ == true);
+      && (is_updated_points_xyz_structures_ == true);
 }
 
 bool TransmissionLine::IsValidLineCableIndex(const int& index) const {
-- 
2.43.0


From f1f849f8e88f32b8c5f43f5d49c9bfb8af69c4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 08/73] fix: don't mark the points of a copied transmission
 line as current

The points themselves are not copied, so the copy of a line that had been
asked for coordinates reported none (or those of its own former contents).
---
 src/transmissionline/transmission_line.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index b57febe..13532d3 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -16,10 +16,8 @@ TransmissionLine::TransmissionLine(const TransmissionLine& that) {
 TransmissionLine& TransmissionLine::operator=(const TransmissionLine& that) {
   // transfers members as-is
   this->alignment_ = that.alignment_;
-  this->is_updated_points_xyz_alignment_ =
-      that.is_updated_points_xyz_alignment_;
-  this->is_updated_points_xyz_structures_ =
-      that.is_updated_points_xyz_structures_;
+  this->is_updated_points_xyz_alignment_ = false;
+  this->is_updated_points_xyz_structures_ = false;
   this->line_cables_ = that.line_cables_;
   this->line_structures_ = that.line_structures_;
   this->origin_ = that.origin_;
-- 
2.43.0


From 7a92e067f1a0b2c3acab222e3700bdde76902817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 09/73] fix: treat every station as invalid on an alignment
 without points

Adding a structure to an empty line, or deleting the last alignment point,
read the first point of an empty list.
---
 src/transmissionline/alignment.cc         | 5 +++++
 src/transmissionline/transmission_line.cc | 6 +-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/transmissionline/alignment.cc b/src/transmissionline/alignment.cc
index a712692..defbcfd 100644
--- a/src/transmissionline/alignment.cc
+++ b/src/transmissionline/alignment.cc
@@ -122,6 +122,11 @@ int Alignment::IndexSegment(const double& station) const {
 }
 
 bool Alignment::IsValidStation(const double& station) const {
+  // checks if there are any points
+  if (points_.empty() == true) {
+    return false;
+  }
+
   // gets the first and last alignment points
   const AlignmentPoint& point_front = points_.front();
   const AlignmentPoint& point_back = points_.back();
diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 13532d3..5c3e9a4 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -595,15 +595,11 @@ void TransmissionLine::DeleteInvalidLineCables() {
 }
 
 void TransmissionLine::DeleteInvalidLineStructures() {
-  const double station_min = alignment_.points()->front().station;
-  const double station_max = alignment_.points()->back().station;
-
   // clears line structures outside of alignment
   auto iter = line_structures_.cbegin();
   while (iter != line_structures_.cend()) {
     const LineStructure& line_structure = *iter;
-    const double station = line_structure.station();
-    if ((station < station_min) || (station_max < station)) {
+    if (alignment_.IsValidStation(line_structure.station()) == false) {
       // clears any references to the structure and deletes
       const int index = std::distance(line_structures_.cbegin(), iter);
       DeleteConnectionsFromStructure(index);
-- 
2.43.0


From 8172db500369a0550d5b1cac64558158ebecff93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:32 +0000
Subject: [PATCH 10/73] fix: locate structures on an alignment that has a
 single point

The point and segment ahead were accessed although neither exists.
---
 src/transmissionline/transmission_line.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 5c3e9a4..25a3bd0 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -634,19 +634,18 @@ Point3d<double> TransmissionLine::PointXyzAlignmentFromStation(
     return Point3d<double>();
   }
 
-  // gets the back and ahead xyz points
+  // gets the back xyz and alignment points
   const Point3d<double>& point_xyz_back =
       points_xyz_alignment_.at(index_segment);
-  const Point3d<double>& point_xyz_ahead =
-      points_xyz_alignment_.at(index_segment + 1);
-
-  // gets back and ahead alignment points
   const AlignmentPoint& point_align_back =
       *std::next(alignment_.points()->cbegin(), index_segment);
   if (station == point_align_back.station) {
     return point_xyz_back;
   }
 
+  // gets the ahead xyz and alignment points
+  const Point3d<double>& point_xyz_ahead =
+      points_xyz_alignment_.at(index_segment + 1);
   const AlignmentPoint& point_align_ahead =
       *std::next(alignment_.points()->cbegin(), index_segment + 1);
   if (station == point_align_ahead.station) {
@@ -793,6 +792,13 @@ Vector2d TransmissionLine::VectorXyAlignmentStructure(const int& index) const {
   const std::list<AlignmentPoint>* points = alignment_.points();
   const int index_segment = alignment_.IndexSegment(line_structure.station());
 
+  // checks if there isn't an alignment segment, uses the initial orientation
+  if (points->size() == 1) {
+    Vector2d vector_initial(1, 0);
+    vector_initial.Rotate(points->front().rotation);
+    return vector_initial;
+  }
+
   // checks if line structure station matches first or last alignment point
   // these are the only points where there isn't two alignment vectors to
   // average
-- 
2.43.0


From 48cd2e64fc0226da01cb9b41d898d413686c7d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 11/73] fix: keep modified line structures on the alignment

The first and last structures could be moved up to one unit off its ends.
---
 src/transmissionline/transmission_line.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 25a3bd0..83105a8 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -306,6 +306,11 @@ bool TransmissionLine::ModifyLineStructure(const int& index,
     return false;
   }
 
+  // checks if station is on the alignment
+  if (alignment_.IsValidStation(structure.station()) == false) {
+    return false;
+  }
+
   // gets station from back structure
   double station_back = alignment_.points()->front().station - 1;
   const LineStructure* structure_back = nullptr;
-- 
2.43.0


From 2b165e152271a96056ef32d98083b2e6d04e27d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 12/73] fix: sort line cables by starting structure and then
 attachment

---
 src/transmissionline/transmission_line.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 83105a8..25248b5 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -96,8 +96,9 @@ int TransmissionLine::AddLineCable(const LineCable& line_cable) {
     const int index_attachment_list = connection_list.index_attachment;
 
     // checks if list connection indexes are larger than new connection indexes
-    if ((index_structure <= index_structure_list)
-         && (index_attachment < index_attachment_list)) {
+    if ((index_structure < index_structure_list)
+         || ((index_structure == index_structure_list)
+             && (index_attachment < index_attachment_list))) {
       // position is found
       break;
     }
-- 
2.43.0


From f8277563c91f5d617fd8b7d2578946f90ed608ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 13/73] fix: reject line cable connections to attachments
 without hardware

Validating them dereferenced the missing hardware, or threw if the attachment
doesn't exist.
---
 src/transmissionline/line_cable.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/transmissionline/line_cable.cc b/src/transmissionline/line_cable.cc
index f971f74..b92256b 100644
--- a/src/transmissionline/line_cable.cc
+++ b/src/transmissionline/line_cable.cc
@@ -261,9 +261,22 @@ bool LineCable::ValidateConnections(const bool& /*is_included_warnings*/,
          iter++) {
       const LineCableConnection* connection = &(*iter);
       const LineStructure* structure = connection->line_structure;
-      const Hardware* hardware =
-          structure->hardwares()->at(connection->index_attachment);
-      if ((connection == &connections_.front())
+
+      // checks for hardware at the attachment
+      const int index_attachment = connection->index_attachment;
+      const int kSizeHardwares = structure->hardwares()->size();
+      const Hardware* hardware = nullptr;
+      if ((0 <= index_attachment) && (index_attachment < kSizeHardwares)) {
+        hardware = structure->hardwares()->at(index_attachment);
+      }
+
+      if (hardware == nullptr) {
+        is_valid = false;
+        message.description = "Line cable connection does not have hardware";
+        if (messages != nullptr) {
+          messages->push_back(message);
+        }
+      } else if ((connection == &connections_.front())
           || (connection == &connections_.back())) {
         // checks for dead-end hardware at start and end connections
         if (hardware->type != Hardware::HardwareType::kDeadEnd) {
-- 
2.43.0


From c84a685dd62668f07fa521e37c1d0484bbf6f866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:00 +0000
Subject: [PATCH 14/73] fix: count line cable connection errors in the
 validation verdict

Connections with the wrong hardware type were reported and then accepted.
---
 src/transmissionline/line_cable.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/line_cable.cc b/src/transmissionline/line_cable.cc
index b92256b..b0bdc80 100644
--- a/src/transmissionline/line_cable.cc
+++ b/src/transmissionline/line_cable.cc
@@ -235,7 +235,9 @@ bool LineCable::Validate(const bool& is_included_warnings,
   }
 
   // validates connections
-  ValidateConnections(is_included_warnings, messages);
+  if (ValidateConnections(is_included_warnings, messages) == false) {
+    is_valid = false;
+  }
 
   // returns validation status
   return is_valid;
@@ -280,6 +282,7 @@ bool LineCable::ValidateConnections(const bool& /*is_included_warnings*/,
           || (connection == &connections_.back())) {
         // checks for dead-end hardware at start and end connections
         if (hardware->type != Hardware::HardwareType::kDeadEnd) {
+          is_valid = false;
           message.description = "Terminal line cable connection does not have "
                                 "dead-end type hardware";
           if (messages != nullptr) {
@@ -289,6 +292,7 @@ bool LineCable::ValidateConnections(const bool& /*is_included_warnings*/,
       } else {
         // checks for suspension hardware at all middle connections
         if (hardware->type != Hardware::HardwareType::kSuspension) {
+          is_valid = false;
           message.description = "Interior line cable connection does not have "
                                 "suspension type hardware";
           if (messages != nullptr) {
-- 
2.43.0


From cd4f683b80438cbeb2ce468903afaa38cf506209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:00 +0000
Subject: [PATCH 15/73] fix: allow line structures without a base structure on
 a line

Modifying one, or asking for its attachment points, dereferenced the missing
structure.
---
 src/transmissionline/transmission_line.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 25248b5..85f6184 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -411,6 +411,11 @@ Point3d<double> TransmissionLine::PointXyzLineStructureAttachment(
   const LineStructure& line_structure = *std::next(line_structures_.cbegin(),
                                                    index_structure);
 
+  // checks if the base structure is missing
+  if (line_structure.structure() == nullptr) {
+    return Point3d<double>();
+  }
+
   // checks if attachment index is valid
   const int kSizeAttachments = line_structure.structure()->attachments.size();
   if ((index_attachment < 0) || (kSizeAttachments <= index_attachment)) {
@@ -559,7 +564,7 @@ void TransmissionLine::DeleteInvalidConnectionsFromStructure(
   // gets line structure and attachment count
   auto iter_structure = std::next(line_structures_.cbegin(), index_structure);
   const LineStructure* line_structure = &(*iter_structure);
-  const int kSizeAttachments = line_structure->structure()->attachments.size();
+  const int kSizeAttachments = line_structure->hardwares()->size();
 
   // searches line cables
   for (auto iter_cable = line_cables_.begin();
-- 
2.43.0


From 71cd8efa922ec8d8e73209bd9cb1c728b2da62a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 16/73] fix: check the structure index when looking for a
 connection

---
 src/transmissionline/transmission_line.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 85f6184..189ddca 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -201,6 +201,11 @@ bool TransmissionLine::DeleteLineStructure(const int& index) {
 
 bool TransmissionLine::HasConnection(const int& index_structure,
                                      const int& index_attachment) const {
+  // checks if structure index is valid
+  if (IsValidLineStructureIndex(index_structure) == false) {
+    return false;
+  }
+
   // gets line structure
   auto iter_structure = std::next(line_structures_.cbegin(), index_structure);
   const LineStructure* line_structure = &(*iter_structure);
-- 
2.43.0


From 4a4b0f9b7733a9d555bed7c7accb82426e15d70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 17/73] fix: count attachment errors in the structure verdict

---
 src/transmissionline/structure.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/structure.cc b/src/transmissionline/structure.cc
index c94a8d3..2978f08 100644
--- a/src/transmissionline/structure.cc
+++ b/src/transmissionline/structure.cc
@@ -59,7 +59,9 @@ bool Structure::Validate(
   } else {
     for (auto iter = attachments.cbegin(); iter != attachments.cend(); iter++) {
       const StructureAttachment& attachment = *iter;
-      attachment.Validate(is_included_warnings, messages);
+      if (attachment.Validate(is_included_warnings, messages) == false) {
+        is_valid = false;
+      }
     }
   }
 
-- 
2.43.0


From 0789c64a93fcf086bf2949cfd2650d08d6a2d6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:20 +0000
Subject: [PATCH 18/73] fix: reject the span index past the last span of a
 cable

---
 src/transmissionline/cable_position_locator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index 55d387b..69a306e 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -33,7 +33,7 @@ std::list<Point3d<double>> CablePositionLocator::PointsCable(
   }
 
   // determines if span index is valid
-  if ((index_span < 0) || (size_connections_ - 1 < index_span)) {
+  if ((index_span < 0) || (size_connections_ - 1 <= index_span)) {
     return points;
   }
 
-- 
2.43.0


From 5bcb8431fa66accb56290012425c61586ca4f07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 19/73] fix: don't locate a cable that isn't on the line

---
 src/transmissionline/cable_position_locator.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index 69a306e..cb8f0da 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -174,6 +174,11 @@ bool CablePositionLocator::Validate(const bool& is_included_warnings,
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
@@ -282,6 +287,11 @@ bool CablePositionLocator::InitializeConnectionData() const {
 bool CablePositionLocator::InitializeContainers() const {
   // gets the line cable
   const std::list<LineCable>* line_cables = line_->line_cables();
+  const int kSizeLineCables = line_cables->size();
+  if ((index_cable_ < 0) || (kSizeLineCables <= index_cable_)) {
+    return false;
+  }
+
   const LineCable& line_cable = *std::next(line_cables->cbegin(), index_cable_);
 
   // caches the number of connections
-- 
2.43.0


From f0a42926b6c90f180d5b4ab1114bf18d03589fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:41 +0000
Subject: [PATCH 20/73] fix: swing suspension hardware toward the pull of the
 cable on every line orientation

---
 .../cable_position_locator.cc                 | 34 ++++++++++++-------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index cb8f0da..be99c61 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -331,7 +331,8 @@ bool CablePositionLocator::InitializePointsHardware() const {
     const Point3d<double>& point_ahead = points_structure_[index + 1];
 
     // creates unit vectors from current point to back and ahead points
-    // adds the unit vectors together to get the bisect orientation
+    // the difference of the unit vectors follows the line, so the bisect
+    // orientation (toward the left side of the line) is perpendicular to it
     Vector2d vector_back;
     vector_back.set_x(point_back.x - point_current.x);
     vector_back.set_y(point_back.y - point_current.y);
@@ -343,8 +344,8 @@ bool CablePositionLocator::InitializePointsHardware() const {
     vector_ahead.Scale(1 / vector_ahead.Magnitude());
 
     Vector2d vector_combined;
-    vector_combined.set_x(vector_back.x() + vector_ahead.x());
-    vector_combined.set_y(vector_back.y() + vector_ahead.y());
+    vector_combined.set_x(vector_back.y() - vector_ahead.y());
+    vector_combined.set_y(vector_ahead.x() - vector_back.x());
 
     // gets the hardware assembly at the connection
     const Hardware* hardware = hardwares_[index];
@@ -496,7 +497,7 @@ double CablePositionLocator::UpdatePointsHardware() const {
     catenary_ahead.set_spacing_endpoints(spacing);
 
     // creates unit vectors from current point to back and ahead points
-    // finds the difference between the angles
+    // finds the angle between them, on the left side of the line
     Vector2d vector_back;
     vector_back.set_x(point_back.x - point_current.x);
     vector_back.set_y(point_back.y - point_current.y);
@@ -508,30 +509,39 @@ double CablePositionLocator::UpdatePointsHardware() const {
     vector_ahead.Scale(1 / vector_ahead.Magnitude());
     const double angle_ahead = vector_ahead.Angle();
 
-    const double angle_catenaries = std::abs(angle_ahead - angle_back);
+    double angle_catenaries = angle_back - angle_ahead;
+    if (angle_catenaries < 0) {
+      angle_catenaries += 360;
+    }
+
+    // gets the hardware point
+    SphericalPoint3d<double>& point_hardware = points_hardware_[index];
 
     // determines the direction of the line angle
+    // the hardware points are measured toward the left side of the line, but
+    // the equilibrium solver measures toward the direction of the line angle
     AxisDirectionType direction_line_angle;
-    vector_back.Rotate(180);
-    const double angle_diff_xy = std::abs(angle_ahead - angle_back);
-    if (angle_diff_xy <= 180) {
+    double angle_hardware = point_hardware.angle_z;
+    if (angle_catenaries <= 180) {
       direction_line_angle = AxisDirectionType::kPositive;
     } else {
       direction_line_angle = AxisDirectionType::kNegative;
+      angle_catenaries = 360 - angle_catenaries;
+      angle_hardware = 360 - angle_hardware;
     }
 
-    // gets the hardware point
-    SphericalPoint3d<double>& point_hardware = points_hardware_[index];
-
     // updates the equilibrium solver
     solver_equilibrium.set_angle_catenaries(angle_catenaries);
-    solver_equilibrium.set_angle_hardware(point_hardware.angle_z);
+    solver_equilibrium.set_angle_hardware(angle_hardware);
     solver_equilibrium.set_catenary_back(&catenary_back);
     solver_equilibrium.set_catenary_ahead(&catenary_ahead);
     solver_equilibrium.set_direction_catenaries(direction_line_angle);
 
     // updates the hardware point z-axis angle
     point_hardware.angle_z = solver_equilibrium.AngleEquilibrium();
+    if (direction_line_angle == AxisDirectionType::kNegative) {
+      point_hardware.angle_z = 360 - point_hardware.angle_z;
+    }
 
     // updates the max tension imbalance
     const double tension_imbalance = solver_equilibrium.TensionImbalance();
-- 
2.43.0


From d13a545680d6cc0457fc8cb4173b2083219b709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:40 +0000
Subject: [PATCH 21/73] fix: apply the load scale when solving the polynomial
 strain

---
 src/sagtension/cable_component_elongation_model.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index ab4ff25..8fd3234 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -521,8 +521,9 @@ double CableComponentElongationModel::StrainPolynomial(
     const double& strain_thermal,
     const double& load) const {
   // gets strain from polynomial
+  // applies scaling to convert load to polynomial load
   const double strain_polynomial = polynomial.X(
-      load,  // target value
+      load / *component_->scale_polynomial_y(),  // target value
       2,     // precision
       0.1);  // initial guess
 
-- 
2.43.0


From b1e5426911c16b5ad6b8384545d35e9727d811df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:43 +0000
Subject: [PATCH 22/73] fix: update the component stretch when the state
 changes

---
 src/sagtension/cable_component_elongation_model.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index 8fd3234..8274515 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -218,6 +218,7 @@ void CableComponentElongationModel::set_component_cable(
 void CableComponentElongationModel::set_state(const CableState* state) {
   state_ = state;
 
+  is_updated_stretch_ = false;
   is_updated_state_ = false;
 }
 
-- 
2.43.0


From ceaab159fed0d1cc3fd4cbcd2e7e302c81b51738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:44 +0000
Subject: [PATCH 23/73] fix: count the parent errors in the stretch state
 verdict

---
 src/sagtension/cable_state.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/cable_state.cc b/src/sagtension/cable_state.cc
index 5d274b3..faad420 100644
--- a/src/sagtension/cable_state.cc
+++ b/src/sagtension/cable_state.cc
@@ -54,7 +54,9 @@ bool CableStretchState::Validate(const bool& is_included_warnings,
   message.title = "CABLE STRETCH STATE";
 
   // validates parent struct
-  CableState::Validate(is_included_warnings, messages);
+  if (CableState::Validate(is_included_warnings, messages) == false) {
+    is_valid = false;
+  }
 
   // validates load
   if (load < 0) {
-- 
2.43.0


From 6bec5db0ad7a4153fd0f1a04418aeb504f9c5d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:56 +0000
Subject: [PATCH 24/73] fix: don't stretch a cable component by a compression
 load

---
 src/sagtension/cable_component_elongation_model.cc | 3 ++-
 src/sagtension/cable_elongation_model.cc           | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index 8274515..abf77d7 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -800,7 +800,8 @@ bool CableComponentElongationModel::UpdateStretch() const {
 
   // returns success status
   if (iter < iter_max) {
-    load_stretch_ = load_to;
+    // stretch is only defined by a tension load
+    load_stretch_ = (0 < load_to) ? load_to : 0;
     return true;
   } else {
     load_stretch_ = -999999;
diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index de4ba5d..038aec0 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -480,12 +480,14 @@ bool CableElongationModel::UpdateComponentsStretch() const {
 
   // updates component stretch loads
   if (cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == true) {
-    state_stretch_core_.load = LoadCore(point_stretch.x);
+    // a compressed component isn't stretched
+    state_stretch_core_.load = std::max(0.0, LoadCore(point_stretch.x));
     model_core_.set_state_stretch(&state_stretch_core_);
   }
 
   if (cable_->IsEnabled(SagTensionCable::ComponentType::kShell) == true) {
-    state_stretch_shell_.load = LoadShell(point_stretch.x);
+    // a compressed component isn't stretched
+    state_stretch_shell_.load = std::max(0.0, LoadShell(point_stretch.x));
     model_shell_.set_state_stretch(&state_stretch_shell_);
   }
 
-- 
2.43.0


From e159ddef20f7ed8c6e7e19a9ff576720ac565a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:36 +0000
Subject: [PATCH 25/73] fix: extrapolate the cable strain into compression

---
 src/sagtension/cable_elongation_model.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index 038aec0..18d4518 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -293,9 +293,12 @@ double CableElongationModel::StrainCombined(
   if (load <= point_regions_min.y) {
     // determines if core and/or shell can be compressed
     bool is_compressible_core =
-        cable_->component_core()->modulus_compression_elastic_area() == 0;
+        cable_->IsEnabled(SagTensionCable::ComponentType::kCore)
+        && (*cable_->component_core()->modulus_compression_elastic_area() != 0);
     bool is_compressible_shell =
-        cable_->component_shell()->modulus_compression_elastic_area() == 0;
+        cable_->IsEnabled(SagTensionCable::ComponentType::kShell)
+        && (*cable_->component_shell()->modulus_compression_elastic_area()
+            != 0);
 
     if ((is_compressible_core == false) && (is_compressible_shell == false)) {
       // cable has no compressive ability, returns minimum value
-- 
2.43.0


From 3ac71e400e54c381b02e2a2f4b5eb96cf17e4ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:49 +0000
Subject: [PATCH 26/73] fix: solve the cable strain on highly curved
 load-strain ranges

---
 src/sagtension/cable_elongation_model.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index 18d4518..e4b37ea 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -350,6 +350,12 @@ double CableElongationModel::StrainCombined(
                   / (point_right.x - point_left.x);
     point_current.x = point_left.x + ((load - point_left.y) / slope_line);
 
+    // bisects the bracketed range if the tangent line alone converges too slowly
+    if ((20 < iter) && (iter % 2 == 0)
+        && (point_left.y < load) && (load < point_right.y)) {
+      point_current.x = (point_left.x + point_right.x) / 2;
+    }
+
     // gets current point load
     point_current.y = LoadCombined(point_current.x);
 
-- 
2.43.0


From dc0002ab463787de3a46c62c10e9d77d4e9a2e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:51 +0000
Subject: [PATCH 27/73] fix: restore the component stretch after validating the
 unloaded strain

---
 src/sagtension/cable_elongation_model.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index e4b37ea..5db840a 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -622,7 +622,8 @@ bool CableElongationModel::ValidateComponentsStrainUnloaded(
 
   // determines if this check is necessary, both core and shell must be enabled
   if ((cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == false)
-      || (cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == false)) {
+      || (cable_->IsEnabled(SagTensionCable::ComponentType::kShell)
+          == false)) {
     return is_valid;
   }
 
@@ -668,10 +669,10 @@ bool CableElongationModel::ValidateComponentsStrainUnloaded(
 
   // restores component states
   model_core_.set_state(&state_);
-  model_core_.set_state_stretch(&state_stretch_);
+  model_core_.set_state_stretch(&state_stretch_core_);
 
   model_shell_.set_state(&state_);
-  model_shell_.set_state_stretch(&state_stretch_);
+  model_shell_.set_state_stretch(&state_stretch_shell_);
 
   return is_valid;
 }
-- 
2.43.0


From c562105b1abf63443825cbcc9bb103f70d2e096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:52 +0000
Subject: [PATCH 28/73] fix: copy cable elongation models without referencing
 the original states

---
 .../sagtension/cable_elongation_model.h       | 10 ++++++++++
 src/sagtension/cable_elongation_model.cc      | 20 +++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/include/models/sagtension/cable_elongation_model.h b/include/models/sagtension/cable_elongation_model.h
index 364af76..099fb62 100644
--- a/include/models/sagtension/cable_elongation_model.h
+++ b/include/models/sagtension/cable_elongation_model.h
@@ -73,9 +73,19 @@ class CableElongationModel {
   /// \brief Default constructor.
   CableElongationModel();
 
+  /// \brief Copy constructor.
+  /// \param[in] model
+  ///   The elongation model.
+  CableElongationModel(const CableElongationModel& model);
+
   /// \brief Destructor.
   ~CableElongationModel();
 
+  /// \brief Assignment operator.
+  /// \param[in] model
+  ///   The elongation model.
+  CableElongationModel& operator=(const CableElongationModel& model);
+
   /// \brief Gets the load.
   /// \param[in] type_component
   ///   The model component type.
diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index 5db840a..c0232eb 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -31,9 +31,29 @@ CableElongationModel::CableElongationModel() {
   is_updated_stretch_ = false;
 }
 
+CableElongationModel::CableElongationModel(const CableElongationModel& model) {
+  *this = model;
+}
+
 CableElongationModel::~CableElongationModel() {
 }
 
+CableElongationModel& CableElongationModel::operator=(
+    const CableElongationModel& model) {
+  cable_ = model.cable_;
+  model_core_ = model.model_core_;
+  model_shell_ = model.model_shell_;
+  state_ = model.state_;
+  state_stretch_ = model.state_stretch_;
+
+  // the component models reference the states that are owned by each elongation
+  // model, so the components need to be updated
+  is_updated_state_ = false;
+  is_updated_stretch_ = false;
+
+  return *this;
+}
+
 double CableElongationModel::Load(
     const CableElongationModel::ComponentType& type_component,
     const double& strain) const {
-- 
2.43.0


From 10b3fda708717e4f38c082b71e0dd4fbf8dcb657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:03 +0000
Subject: [PATCH 29/73] fix: accept a null catenary in the catenary cable
 unloader

---
 src/sagtension/catenary_cable_unloader.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/catenary_cable_unloader.cc b/src/sagtension/catenary_cable_unloader.cc
index 4a5b564..ae7142f 100644
--- a/src/sagtension/catenary_cable_unloader.cc
+++ b/src/sagtension/catenary_cable_unloader.cc
@@ -60,8 +60,13 @@ const CableElongationModel* CatenaryCableUnloader::model_unloaded() const {
 void CatenaryCableUnloader::set_catenary(const Catenary3d* catenary) {
   catenary_ = catenary;
 
-  strainer_.set_length_start(catenary_->Length());
-  strainer_.set_load_start(catenary_->TensionAverage());
+  if (catenary_ == nullptr) {
+    strainer_.set_length_start(-999999);
+    strainer_.set_load_start(-999999);
+  } else {
+    strainer_.set_length_start(catenary_->Length());
+    strainer_.set_load_start(catenary_->TensionAverage());
+  }
 }
 
 void CatenaryCableUnloader::set_model_reference(
-- 
2.43.0


From b306dc2fbd51ed5ec113e37050ff2af8ed2bc2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 30/73] fix: reject a cable strainer without elongation models

---
 src/sagtension/cable_strainer.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/sagtension/cable_strainer.cc b/src/sagtension/cable_strainer.cc
index e00f55b..74007d0 100644
--- a/src/sagtension/cable_strainer.cc
+++ b/src/sagtension/cable_strainer.cc
@@ -75,6 +75,23 @@ bool CableStrainer::Validate(const bool& is_included_warnings,
     }
   }
 
+  // validates elongation models
+  if (model_elongation_start_ == nullptr) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid start elongation model";
+      messages->push_back(message);
+    }
+  }
+
+  if (model_elongation_finish_ == nullptr) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid finish elongation model";
+      messages->push_back(message);
+    }
+  }
+
   // returns if errors are present
   if (is_valid == false) {
     return is_valid;
-- 
2.43.0


From 30b8f48b4770dbdbc2471a3c2e5ae72ad0e0edc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:53 +0000
Subject: [PATCH 31/73] fix: copy line cable loaders without referencing the
 original's cable

---
 .../models/sagtension/line_cable_loader_base.h  | 10 ++++++++++
 src/sagtension/line_cable_loader_base.cc        | 17 +++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/include/models/sagtension/line_cable_loader_base.h b/include/models/sagtension/line_cable_loader_base.h
index fb03abc..70f98a8 100644
--- a/include/models/sagtension/line_cable_loader_base.h
+++ b/include/models/sagtension/line_cable_loader_base.h
@@ -35,9 +35,19 @@ class LineCableLoaderBase {
   /// \brief Default constructor.
   LineCableLoaderBase();
 
+  /// \brief Copy constructor.
+  /// \param[in] loader
+  ///   The line cable loader.
+  LineCableLoaderBase(const LineCableLoaderBase& loader);
+
   /// \brief Destructor.
   ~LineCableLoaderBase();
 
+  /// \brief Assignment operator.
+  /// \param[in] loader
+  ///   The line cable loader.
+  LineCableLoaderBase& operator=(const LineCableLoaderBase& loader);
+
   /// \brief Gets the stretch state for the creep condition.
   /// \return The stretch state for the creep condition.
   CableStretchState StretchStateCreep() const;
diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index 27b718e..7df569f 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -15,9 +15,26 @@ LineCableLoaderBase::LineCableLoaderBase() {
   is_updated_stretch_ = false;
 }
 
+LineCableLoaderBase::LineCableLoaderBase(const LineCableLoaderBase& loader) {
+  *this = loader;
+}
+
 LineCableLoaderBase::~LineCableLoaderBase() {
 }
 
+LineCableLoaderBase& LineCableLoaderBase::operator=(
+    const LineCableLoaderBase& loader) {
+  cable_sagtension_ = loader.cable_sagtension_;
+  line_cable_ = loader.line_cable_;
+
+  // the cable models reference the sag-tension cable that is owned by each
+  // loader, so the constraint and stretch need to be updated
+  is_updated_catenary_constraint_ = false;
+  is_updated_stretch_ = false;
+
+  return *this;
+}
+
 CableStretchState LineCableLoaderBase::StretchStateCreep() const {
   // updates class if necessary
   if ((IsUpdated() == false) && (Update() == false)) {
-- 
2.43.0


From 887ade5e1b9f769945692f547273ebf04a3a6afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:00 +0000
Subject: [PATCH 32/73] fix: solve constraint stretch of cables with low
 polynomial limits

---
 src/sagtension/line_cable_loader_base.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index 7df569f..5426113 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -280,8 +280,11 @@ bool LineCableLoaderBase::UpdateConstraintCableModel() const {
                  - state_stretch.load;
 
   // initializes right point
+  // uses the reloaded tension of the unstretched cable, which is closer to the
+  // solution than the rated strength of the cable, and less likely to be past
+  // the limits of the component polynomials
   Point2d<double> point_right;
-  point_right.x = *cable_sagtension_.strength_rated();
+  point_right.x = point_left.y;
 
   state_stretch.load = point_right.x;
   model_constraint_.set_state_stretch(state_stretch);
-- 
2.43.0


From d676930fd9bf8bc999343bec344a39c097cd26e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:01 +0000
Subject: [PATCH 33/73] fix: validate a line cable reloader without a reloaded
 weathercase

---
 src/sagtension/line_cable_reloader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sagtension/line_cable_reloader.cc b/src/sagtension/line_cable_reloader.cc
index 3ca7d06..9f16af1 100644
--- a/src/sagtension/line_cable_reloader.cc
+++ b/src/sagtension/line_cable_reloader.cc
@@ -180,6 +180,11 @@ bool LineCableReloader::Update() const {
     }
   }
 
+  // the reloaded state isn't defined without a weathercase
+  if (weathercase_reloaded_ == nullptr) {
+    return false;
+  }
+
   // updates reloaded cable model
   if (is_updated_model_reloaded_ == false) {
     is_updated_model_reloaded_ = UpdateReloadedCableModel();
-- 
2.43.0


From 9cf5c7a20c2a126381a578506d4e1d680fb7289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:25 +0000
Subject: [PATCH 34/73] fix: validate a line cable sagger without design
 constraints

---
 src/sagtension/line_cable_sagger.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/sagtension/line_cable_sagger.cc b/src/sagtension/line_cable_sagger.cc
index 3d721ec..68150b9 100644
--- a/src/sagtension/line_cable_sagger.cc
+++ b/src/sagtension/line_cable_sagger.cc
@@ -96,11 +96,20 @@ bool LineCableSagger::Validate(const bool& is_included_warnings,
   message.title = "LINE CABLE SAGGER";
 
   // validates constraints-design
-  for (auto iter = constraints_design_->cbegin();
-       iter != constraints_design_->cend(); iter++) {
-    const CableConstraint& constraint = *iter;
-    if (constraint.Validate(is_included_warnings, messages) == false) {
-      is_valid = false;
+  if ((constraints_design_ == nullptr)
+      || (constraints_design_->empty() == true)) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid design constraints";
+      messages->push_back(message);
+    }
+  } else {
+    for (auto iter = constraints_design_->cbegin();
+         iter != constraints_design_->cend(); iter++) {
+      const CableConstraint& constraint = *iter;
+      if (constraint.Validate(is_included_warnings, messages) == false) {
+        is_valid = false;
+      }
     }
   }
 
-- 
2.43.0


From f762d4cc805a094a9291f261addbfeb25b3218c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:55 +0000
Subject: [PATCH 35/73] fix: don't solve constraint stretch more precisely than
 the reloaded tension

---
 src/sagtension/line_cable_loader_base.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index 5426113..d49bc61 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -298,8 +298,9 @@ bool LineCableLoaderBase::UpdateConstraintCableModel() const {
 
   // iterates until target solution is reached
   unsigned int iter = 1;
+  // the precision has to exceed that of the reloaded horizontal tension
   const int iter_max = 100;
-  const double precision = 0.01;
+  const double precision = 0.05;
   double slope_line = -999999;
 
   while ((precision < std::abs(point_current.y - target_solution))
-- 
2.43.0


From 42f7845dcccf3bfdfcd147825e4760565ab86e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:13 +0000
Subject: [PATCH 36/73] fix: solve constraint stretch when the load difference
 isn't descending

---
 src/sagtension/line_cable_loader_base.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index d49bc61..05ff07a 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -308,8 +308,13 @@ bool LineCableLoaderBase::UpdateConstraintCableModel() const {
     // solves for new stretch value is calculated for current point
     slope_line = (point_right.y - point_left.y)
                   / (point_right.x - point_left.x);
-    point_current.x = point_left.x
-        + ((target_solution - point_left.y) / slope_line);
+    if (slope_line < 0) {
+      point_current.x = point_left.x
+          + ((target_solution - point_left.y) / slope_line);
+    } else {
+      // line doesn't lead to the solution, uses the reloaded tension instead
+      point_current.x = point_right.x + point_right.y;
+    }
 
     // updates constraint model and reloader
     state_stretch.load = point_current.x;
-- 
2.43.0


From dcce715d891da4c8ce30f72613beca021502d824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 37/73] fix: reject a stopwatch sagger without units

---
 src/sagging/stopwatch_sagger.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sagging/stopwatch_sagger.cc b/src/sagging/stopwatch_sagger.cc
index 5db62e6..c907d93 100644
--- a/src/sagging/stopwatch_sagger.cc
+++ b/src/sagging/stopwatch_sagger.cc
@@ -39,6 +39,15 @@ bool StopwatchSagger::Validate(const bool& is_included_warnings,
     is_valid = false;
   }
 
+  // validates units
+  if (units_ == units::UnitSystem::kNull) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid units";
+      messages->push_back(message);
+    }
+  }
+
   return is_valid;
 }
 
-- 
2.43.0


From f2d9fd581413da234a8d70e0fb8953b1cfd986e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:02 +0000
Subject: [PATCH 38/73] fix: don't access an invalid low point in the transit
 sagger

---
 src/sagging/transit_sagger.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sagging/transit_sagger.cc b/src/sagging/transit_sagger.cc
index 620ce87..0f87a11 100644
--- a/src/sagging/transit_sagger.cc
+++ b/src/sagging/transit_sagger.cc
@@ -205,8 +205,9 @@ double TransitSagger::PositionCatenaryLowAngle(
   }
 
   // calculates the angle from horizontal and caches if needed
+  // defaults to the back position if there are no angles (invalid catenary)
   double angle_low = 999999;
-  int index_low = -9999;
+  int index_low = 0;
   for (int i = 0; i < num_points; i++) {
     const double angle = AngleVertical(point_transit_, points[i]);
     if (angle < angle_low) {
-- 
2.43.0


From cf45a5e2e3826ade889dcb884be9450709e172b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:41 +0000
Subject: [PATCH 39/73] fix: validate a sag position corrector without line
 cable or points

---
 src/sagging/cable_sag_position_corrector.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/sagging/cable_sag_position_corrector.cc b/src/sagging/cable_sag_position_corrector.cc
index 3c1894e..612aea3 100644
--- a/src/sagging/cable_sag_position_corrector.cc
+++ b/src/sagging/cable_sag_position_corrector.cc
@@ -126,16 +126,17 @@ bool CableSagPositionCorrector::Validate(
   }
 
   // validates points-attachment
-  if (points_attachment_ == nullptr) {
+  if ((points_attachment_ == nullptr) || (points_attachment_->size() <= 1)) {
     is_valid = false;
     if (messages != nullptr) {
-      message.description = "Invalid line cable";
+      message.description = "Invalid attachment points";
       messages->push_back(message);
     }
-  } else {
-    if (points_attachment_->size() <= 1) {
-      is_valid = false;
-    }
+  }
+
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
   }
 
   // validates update process
-- 
2.43.0


From 8dfcd2b759bd9f58aac7cadb8a51ae09fa95391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:05 +0000
Subject: [PATCH 40/73] fix: select the resistance points that bound the cable
 temperature

---
 src/thermalrating/thermal_rating_cable.cc | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/thermalrating/thermal_rating_cable.cc b/src/thermalrating/thermal_rating_cable.cc
index 980974b..af48624 100644
--- a/src/thermalrating/thermal_rating_cable.cc
+++ b/src/thermalrating/thermal_rating_cable.cc
@@ -84,15 +84,9 @@ double ThermalRatingCable::Resistance(const double& temperature) const {
   // searches list of points for the closest ones to target temp, starting
   // from the lowest
   while (true) {
-    // stops searching if resistance points bound the target temp
-    if ((point_low->temperature < temperature)
-         && (temperature < point_high->temperature)) {
-      break;
-    }
-
-    // stops searching if both resistance points are greater than target temp
-    if ((point_low->temperature < temperature)
-         && (point_high->temperature < temperature)) {
+    // stops searching if resistance points bound the target temp, or if both
+    // resistance points are greater than target temp
+    if (temperature <= point_high->temperature) {
       break;
     }
 
-- 
2.43.0


From 0cd599c5a56368b55efff75a0686cf75c8934d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:17 +0000
Subject: [PATCH 41/73] fix: solve convection of a cable that is colder than
 the air

---
 .../cable_heat_transfer_solver.cc             | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/thermalrating/cable_heat_transfer_solver.cc b/src/thermalrating/cable_heat_transfer_solver.cc
index a96ab1a..1085a7d 100644
--- a/src/thermalrating/cable_heat_transfer_solver.cc
+++ b/src/thermalrating/cable_heat_transfer_solver.cc
@@ -78,7 +78,7 @@ double CableHeatTransferSolver::HeatConvection(
 
   // determines which method of convection is highest and saves it
   // switches sign to indicate that heat is removed
-  if (heat_convection_natural < heat_convection_forced) {
+  if (std::abs(heat_convection_natural) < std::abs(heat_convection_forced)) {
     return -1 * heat_convection_forced;
   } else {
     return -1 * heat_convection_natural;
@@ -231,7 +231,8 @@ double CableHeatTransferSolver::HeatConvectionForced(
       * (temperature_cable - weather_->temperature_air);
 
   // returns the highest forced convection value
-  if (heat_convection_forced_1 <= heat_convection_forced_2) {
+  if (std::abs(heat_convection_forced_1)
+      <= std::abs(heat_convection_forced_2)) {
     return heat_convection_forced_2;
   } else {
     return heat_convection_forced_1;
@@ -251,8 +252,19 @@ double CableHeatTransferSolver::HeatConvectionNatural(
     return -999999;
   }
 
+  // calculates the temperature difference
+  // if the cable is colder than the air, heat is transferred to the cable
+  const double temperature_delta =
+      temperature_cable - weather_->temperature_air;
+
   // calculates
-  return k * std::pow(density_air, 0.5)
+  const double heat = k * std::pow(density_air, 0.5)
       * std::pow(*cable_->diameter(), 0.75)
-      * std::pow(temperature_cable - weather_->temperature_air, 1.25);
+      * std::pow(std::abs(temperature_delta), 1.25);
+
+  if (temperature_delta < 0) {
+    return -1 * heat;
+  } else {
+    return heat;
+  }
 }
-- 
2.43.0


From 6ad1ed87a295723837f6c065d111d745e0f83241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:38 +0000
Subject: [PATCH 42/73] fix: update steady state solvers when the units or
 weather change

---
 src/thermalrating/steady_cable_current_solver.cc     | 2 ++
 src/thermalrating/steady_cable_temperature_solver.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/thermalrating/steady_cable_current_solver.cc b/src/thermalrating/steady_cable_current_solver.cc
index a6fb3a2..85ef28b 100644
--- a/src/thermalrating/steady_cable_current_solver.cc
+++ b/src/thermalrating/steady_cable_current_solver.cc
@@ -124,11 +124,13 @@ void SteadyCableCurrentSolver::set_temperature_cable(
 
 void SteadyCableCurrentSolver::set_units(const units::UnitSystem& units) {
   units_ = units;
+  is_updated_ = false;
 }
 
 void SteadyCableCurrentSolver::set_weather(
     const ThermalRatingWeather* weather) {
   weather_ = weather;
+  is_updated_ = false;
 }
 
 double SteadyCableCurrentSolver::temperature_cable() const {
diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index 5ff38a7..5cff6ae 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -127,11 +127,13 @@ void SteadyCableTemperatureSolver::set_current(const double& current) {
 
 void SteadyCableTemperatureSolver::set_units(const units::UnitSystem& units) {
   units_ = units;
+  is_updated_ = false;
 }
 
 void SteadyCableTemperatureSolver::set_weather(
     const ThermalRatingWeather* weather) {
   weather_ = weather;
+  is_updated_ = false;
 }
 
 units::UnitSystem SteadyCableTemperatureSolver::units() const {
-- 
2.43.0


From 2ca014655d4683ae53bd96c46211e4d89313c09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:39 +0000
Subject: [PATCH 43/73] fix: solve the steady temperature when the target
 current is met exactly

---
 src/thermalrating/steady_cable_temperature_solver.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index 5cff6ae..5012cda 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -194,6 +194,12 @@ bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
     solver.set_temperature_cable(point_current.x);
     point_current.y = solver.Current();
 
+    // stops searching if the target is met exactly, as the points can't be
+    // moved any closer
+    if (point_current.y == target_solution) {
+      break;
+    }
+
     // updates either left or right point based on current point
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
-- 
2.43.0


From b15a3e5ae3ad30f1298349cb99e6d7429439b8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:40 +0000
Subject: [PATCH 44/73] fix: validate a steady temperature solver without
 weather

---
 src/thermalrating/steady_cable_temperature_solver.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index 5012cda..5eaf2d1 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -93,6 +93,11 @@ bool SteadyCableTemperatureSolver::Validate(
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
-- 
2.43.0


From f8b1dbc60425c3afd763ee5063e92c0c60d0653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:09 +0000
Subject: [PATCH 45/73] fix: solve the steady temperature when a starting point
 meets the target

---
 src/thermalrating/steady_cable_temperature_solver.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index 5eaf2d1..3cc28ff 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -199,9 +199,11 @@ bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
     solver.set_temperature_cable(point_current.x);
     point_current.y = solver.Current();
 
-    // stops searching if the target is met exactly, as the points can't be
-    // moved any closer
-    if (point_current.y == target_solution) {
+    // stops searching if the target is met exactly, or if the current point
+    // is one of the boundary points, as the points can't be moved any closer
+    if ((point_current.y == target_solution)
+        || (point_current.x == point_left.x)
+        || (point_current.x == point_right.x)) {
       break;
     }
 
-- 
2.43.0


From 96c66ea871f6dc410a244182baa2baebafe3b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:51 +0000
Subject: [PATCH 46/73] fix: reject a transient without a steady temperature to
 start from

---
 src/thermalrating/transient_cable_temperature_solver.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/thermalrating/transient_cable_temperature_solver.cc b/src/thermalrating/transient_cable_temperature_solver.cc
index 122d9de..264edfc 100644
--- a/src/thermalrating/transient_cable_temperature_solver.cc
+++ b/src/thermalrating/transient_cable_temperature_solver.cc
@@ -241,6 +241,9 @@ bool TransientCableTemperatureSolver::UpdateTemperaturePoints() const {
     if (time == 0) {
       // calculates steady-state temperature
       point.temperature = TemperatureSteady(current_steady_);
+      if (point.temperature == -999999) {
+        return false;
+      }
     } else {
       // solves for the heat transfer state
       CableHeatTransferState state = HeatTransferState(current_step_,
-- 
2.43.0


From f565507e28d61e9fea9d4e754ffd9456b531e57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:01 +0000
Subject: [PATCH 47/73] fix: no solar radiation when the sun is below the
 horizon

---
 src/thermalrating/solar_radiation_solver.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/thermalrating/solar_radiation_solver.cc b/src/thermalrating/solar_radiation_solver.cc
index 43dc20d..e79d2f7 100644
--- a/src/thermalrating/solar_radiation_solver.cc
+++ b/src/thermalrating/solar_radiation_solver.cc
@@ -349,6 +349,12 @@ bool SolarRadiationSolver::SolveRadiation() const {
   radiation_ = radiation_ * std::sin(angle_incidence_rad)
                * factor_elevation_correction;
 
+  // there isn't any radiation if the sun is below the horizon, and the
+  // polynomial isn't valid there or right above the horizon
+  if ((altitude_sun_ < 0) || (radiation_ < 0)) {
+    radiation_ = 0;
+  }
+
   return true;
 }
 
-- 
2.43.0


From 7ad08d036d417c9a05829c3adbcd7e5362e81920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 48/73] fix: solve the azimuth of a sun that is north at noon

---
 src/thermalrating/solar_radiation_solver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/thermalrating/solar_radiation_solver.cc b/src/thermalrating/solar_radiation_solver.cc
index e79d2f7..2da0699 100644
--- a/src/thermalrating/solar_radiation_solver.cc
+++ b/src/thermalrating/solar_radiation_solver.cc
@@ -311,7 +311,8 @@ bool SolarRadiationSolver::SolveAzimuthSolar(
       kC = 0;
     }
   } else if (0 <= angle_hour) {
-    if (chi < 0) {
+    // the sign of chi is lost at noon, so the denominator is checked instead
+    if ((term2 - term3) < 0) {
       kC = 360;
     } else {
       kC = 180;
-- 
2.43.0


From c7e55073ac178cf3ad9e572ad957e5608bd436ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:22 +0000
Subject: [PATCH 49/73] fix: solve radiation of a sun that is directly overhead

---
 src/thermalrating/solar_radiation_solver.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/thermalrating/solar_radiation_solver.cc b/src/thermalrating/solar_radiation_solver.cc
index 2da0699..f4b92b3 100644
--- a/src/thermalrating/solar_radiation_solver.cc
+++ b/src/thermalrating/solar_radiation_solver.cc
@@ -3,6 +3,7 @@
 
 #include "models/thermalrating/solar_radiation_solver.h"
 
+#include <algorithm>
 #include <cmath>
 
 #include "models/base/polynomial.h"
@@ -273,7 +274,7 @@ bool SolarRadiationSolver::SolveAltitudeSolar(
   const double term1 = std::cos(latitude_rad) * std::cos(declination_rad)
                        * std::cos(angle_hour_rad);
   const double term2 = std::sin(latitude_rad) * std::sin(declination_rad);
-  altitude_sun_ = std::asin(term1 + term2);
+  altitude_sun_ = std::asin(std::max(-1.0, std::min(1.0, term1 + term2)));
 
   altitude_sun_ =
       units::ConvertAngle(altitude_sun_,
@@ -300,7 +301,13 @@ bool SolarRadiationSolver::SolveAzimuthSolar(
   const double term1 = std::sin(angle_hour_rad);
   const double term2 = std::sin(latitude_rad) * std::cos(angle_hour_rad);
   const double term3 = std::cos(latitude_rad) * std::tan(declination_rad);
-  const double chi = term1 / (term2 - term3);
+
+  // any azimuth is correct if the sun is directly overhead, where both the
+  // numerator and denominator are zero
+  double chi = 0;
+  if ((term1 != 0) || (term2 != term3)) {
+    chi = term1 / (term2 - term3);
+  }
 
   // selects a constant
   double kC = -999999;;
-- 
2.43.0


From 799e730a5c8ef3814a0fa6914c276a9df3fed3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:53 +0000
Subject: [PATCH 50/73] fix: disable a sag-tension component without a base
 component

---
 src/sagtension/sag_tension_cable.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sagtension/sag_tension_cable.cc b/src/sagtension/sag_tension_cable.cc
index cbb84b0..92e3fe6 100644
--- a/src/sagtension/sag_tension_cable.cc
+++ b/src/sagtension/sag_tension_cable.cc
@@ -5,6 +5,7 @@
 
 SagTensionCableComponent::SagTensionCableComponent() {
   component_base_ = nullptr;
+  is_enabled_ = false;
 }
 
 SagTensionCableComponent::~SagTensionCableComponent() {
-- 
2.43.0


From dadcd518d54473a90f90d84b31f42a2c89a90310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:55 +0000
Subject: [PATCH 51/73] fix: check the shape of component polynomials along
 their whole range

---
 .../cable_component_elongation_model.cc          | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index abf77d7..fd52505 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -873,12 +873,14 @@ bool CableComponentElongationModel::ValidatePolynomialShape(
 
   // searches creep polynomial for validation errors
   strain_polynomial_min = StrainPolynomial(polynomial_creep_, 0, 0);
-  strain_polynomial_max = *component_->load_limit_polynomial(
-      SagTensionCableComponent::PolynomialType::kCreep);
+  strain_polynomial_max = StrainPolynomial(
+      polynomial_creep_, 0,
+      *component_->load_limit_polynomial(
+          SagTensionCableComponent::PolynomialType::kCreep));
 
   for (int iter = 0; iter < 50; iter++) {
     // calculates evenly spaced strain values from minimum to maximum values
-    const double strain = strain_polynomial_min + ((iter / 50)
+    const double strain = strain_polynomial_min + ((static_cast<double>(iter) / 50)
                           * (strain_polynomial_max - strain_polynomial_min));
 
     // calculates slope at strain point
@@ -911,12 +913,14 @@ bool CableComponentElongationModel::ValidatePolynomialShape(
 
   // searches load-strain polynomial for validation errors
   strain_polynomial_min = StrainPolynomial(polynomial_loadstrain_, 0, 0);
-  strain_polynomial_max = *component_->load_limit_polynomial(
-      SagTensionCableComponent::PolynomialType::kLoadStrain);
+  strain_polynomial_max = StrainPolynomial(
+      polynomial_loadstrain_, 0,
+      *component_->load_limit_polynomial(
+          SagTensionCableComponent::PolynomialType::kLoadStrain));
 
   for (int iter = 0; iter < 50; iter++) {
     // calculates evenly spaced strain values from minimum to maximum values
-    const double strain = strain_polynomial_min + ((iter / 50)
+    const double strain = strain_polynomial_min + ((static_cast<double>(iter) / 50)
                           * (strain_polynomial_max - strain_polynomial_min));
 
     // calculates slope at strain point
-- 
2.43.0


From 4cc0673e14be913c18d7d97cce870f7a0fd28beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:38 +0000
Subject: [PATCH 52/73] fix: reject reloaded tensions that don't fit the cable

---
 src/sagtension/catenary_cable_reloader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sagtension/catenary_cable_reloader.cc b/src/sagtension/catenary_cable_reloader.cc
index f90455f..7a2bece 100644
--- a/src/sagtension/catenary_cable_reloader.cc
+++ b/src/sagtension/catenary_cable_reloader.cc
@@ -317,7 +317,7 @@ bool CatenaryCableReloader::SolveReloadedCatenaryTension() const {
   // returns success status
   if (iter < iter_max) {
     // does one last sanity check to see if lengths match
-    return point_current.y < 0.1;
+    return (0 < point_current.x) && (std::abs(point_current.y) < 0.1);
   } else {
     return false;
   }
-- 
2.43.0


From 014f8ef701bb5d6420776d9337c7d0e9cee83d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:26 +0000
Subject: [PATCH 53/73] fix: correct sags of spans in any direction

---
 src/sagging/cable_sag_position_corrector.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sagging/cable_sag_position_corrector.cc b/src/sagging/cable_sag_position_corrector.cc
index 612aea3..1fbcae6 100644
--- a/src/sagging/cable_sag_position_corrector.cc
+++ b/src/sagging/cable_sag_position_corrector.cc
@@ -266,12 +266,17 @@ bool CableSagPositionCorrector::UpdateClippedState() const {
   const int kSizeCatenaries = catenaries_clipped_.size();
   for (int i = 0; i < kSizeCatenaries; i++) {
     // solves for attachment spacing
+    // the span can have any direction in the horizontal plane
     const Point3d<double>& point_back = (*points_attachment_)[i];
     const Point3d<double>& point_ahead = (*points_attachment_)[i + 1];
 
+    Vector2d spacing_horizontal;
+    spacing_horizontal.set_x(point_ahead.x - point_back.x);
+    spacing_horizontal.set_y(point_ahead.y - point_back.y);
+
     Vector3d spacing_endpoints;
-    spacing_endpoints.set_x(point_ahead.x - point_back.x);
-    spacing_endpoints.set_y(point_ahead.y - point_back.y);
+    spacing_endpoints.set_x(spacing_horizontal.Magnitude());
+    spacing_endpoints.set_y(0);
     spacing_endpoints.set_z(point_ahead.z - point_back.z);
 
     // updates catenary for span
-- 
2.43.0


From 96c717230db81cd12ab97551a2684c13d62ca4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:19 +0000
Subject: [PATCH 54/73] fix: keep a polynomial solution that is within
 tolerance

---
 src/base/polynomial.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/base/polynomial.cc b/src/base/polynomial.cc
index 6f3fda7..b1dbaf6 100644
--- a/src/base/polynomial.cc
+++ b/src/base/polynomial.cc
@@ -125,8 +125,17 @@ double Polynomial::X(const double& y, const int& decimal_precision_y,
 
     // calculates a new x value for shifted polynomial and derivative
     if (point_derivative.y != 0) {
-      point_function.x = point_function.x
-                           - (point_function.y / point_derivative.y);
+      const double x = point_function.x
+                       - (point_function.y / point_derivative.y);
+
+      // keeps a point that is within tolerance if the new point is worse
+      if ((std::abs(point_function.y) <= precision_y)
+          && (std::abs(point_function.y)
+              < std::abs(polynomial_shifted.Y(x)))) {
+        break;
+      }
+
+      point_function.x = x;
       point_derivative.x = point_function.x;
     }
     iter++;
-- 
2.43.0


From 20243e41400c8114baad1e40e149e4a4aa12c639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:54 +0000
Subject: [PATCH 55/73] fix: missing catenaries of an attachment no longer
 crash the equilibrium solver

---
 src/transmissionline/cable_attachment_equilibrium_solver.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/cable_attachment_equilibrium_solver.cc b/src/transmissionline/cable_attachment_equilibrium_solver.cc
index ac528e5..d351810 100644
--- a/src/transmissionline/cable_attachment_equilibrium_solver.cc
+++ b/src/transmissionline/cable_attachment_equilibrium_solver.cc
@@ -171,6 +171,11 @@ bool CableAttachmentEquilibriumSolver::IsUpdated() const {
 }
 
 bool CableAttachmentEquilibriumSolver::Update() const {
+  // checks catenaries
+  if ((catenary_ahead_ == nullptr) || (catenary_back_ == nullptr)) {
+    return false;
+  }
+
   // initializes
   Vector3d tension(0, 0, 0);
   tension_cable_ = Vector3d(0, 0, 0);
-- 
2.43.0


From 28084f672941c52127b74f2e07ef167be9970e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:56 +0000
Subject: [PATCH 56/73] fix: a cable component without a base no longer crashes
 the elongation model

---
 src/sagtension/cable_component_elongation_model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index fd52505..98597ae 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -194,7 +194,7 @@ void CableComponentElongationModel::set_component_cable(
   component_ = component_cable;
 
   // initializes polynomials
-  if (component_ != nullptr) {
+  if ((component_ != nullptr) && (component_->component_base() != nullptr)) {
     const std::vector<double>* coefficients = nullptr;
 
     // creep polynomial
-- 
2.43.0


From 1650c7d45a630dc219e58732c9102bc0674d8e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:37 +0000
Subject: [PATCH 57/73] fix: solve the stretch transfer when only one side of
 the bracket closes

---
 .../cable_component_elongation_model.cc       | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index 98597ae..ce87c73 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -749,6 +749,10 @@ bool CableComponentElongationModel::UpdateStretch() const {
   // initializes current point
   Point2d<double> point_current;
 
+  // initializes flags for the point that was replaced in the last iteration
+  bool is_replaced_left = false;
+  bool is_replaced_right = false;
+
   // iterates until intersection between elastic modulus and polynomial is found
   unsigned int iter = 0;
   const int iter_max = 100;
@@ -778,15 +782,29 @@ bool CableComponentElongationModel::UpdateStretch() const {
       point_right.y = point_left.y;
       point_left.x = point_current.x;
       point_left.y = point_current.y;
+      is_replaced_left = false;
+      is_replaced_right = false;
 
     } else if ((point_left.x < point_current.x)
         && (point_current.x < point_right.x)) {
+      // halves the difference of a point that is kept repeatedly, otherwise the
+      // bracket only closes from one side and might not reach the solution
       if (point_current.y < target_solution) {
         point_right.x = point_current.x;
         point_right.y = point_current.y;
+        if (is_replaced_right == true) {
+          point_left.y /= 2;
+        }
+        is_replaced_right = true;
+        is_replaced_left = false;
       } else if (target_solution < point_current.y) {
         point_left.x = point_current.x;
         point_left.y = point_current.y;
+        if (is_replaced_left == true) {
+          point_right.y /= 2;
+        }
+        is_replaced_left = true;
+        is_replaced_right = false;
       }
 
     } else if (point_right.x < point_current.x) {
@@ -794,6 +812,8 @@ bool CableComponentElongationModel::UpdateStretch() const {
       point_left.y = point_right.y;
       point_right.x = point_current.x;
       point_right.y = point_current.y;
+      is_replaced_left = false;
+      is_replaced_right = false;
     }
     iter++;
   }
-- 
2.43.0


From 316c4e8b841f1fa5dbdd0ab8b7cf09007986d737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:10 +0000
Subject: [PATCH 58/73] fix: reject an elongation model without components
 before updating it

---
 src/sagtension/cable_elongation_model.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index c0232eb..cd00a0b 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -150,22 +150,22 @@ bool CableElongationModel::Validate(
     return is_valid;
   }
 
-  // validates update process
-  if (Update() == false) {
+  // validates that at least one component exists
+  if (cable_->IsEnabled(SagTensionCable::ComponentType::kCombined) == false) {
     is_valid = false;
     if (messages != nullptr) {
-      message.description = "Error updating class";
+      message.description = "No valid components";
       messages->push_back(message);
     }
 
     return is_valid;
   }
 
-  // validates that at least one component exists
-  if (cable_->IsEnabled(SagTensionCable::ComponentType::kCombined) == false) {
+  // validates update process
+  if (Update() == false) {
     is_valid = false;
     if (messages != nullptr) {
-      message.description = "No valid components";
+      message.description = "Error updating class";
       messages->push_back(message);
     }
 
-- 
2.43.0


From 49c3316b85a110605be2021ed6bd217d885091c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:08 +0000
Subject: [PATCH 59/73] fix: solve the catenary when the first points are
 within tolerance

---
 src/transmissionline/catenary_solver.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/transmissionline/catenary_solver.cc b/src/transmissionline/catenary_solver.cc
index 745148b..50c1a3c 100644
--- a/src/transmissionline/catenary_solver.cc
+++ b/src/transmissionline/catenary_solver.cc
@@ -237,7 +237,7 @@ bool CatenarySolver::SolveHorizontalTensionFromLength() const {
   point_right.y = UpdateCatenaryLength(point_right.x);
 
   // declares and initializes current point
-  Point2d<double> point_current;
+  Point2d<double> point_current = point_left;
 
   // iterates
   unsigned int iter = 0;
@@ -326,7 +326,7 @@ bool CatenarySolver::SolveHorizontalTensionFromSag() const {
   point_right.y = UpdateCatenarySag(point_right.x, position_target_);
 
   // declares and initializes current point
-  Point2d<double> point_current;
+  Point2d<double> point_current = point_left;
 
   // iterates
   unsigned int iter = 0;
@@ -416,7 +416,7 @@ bool CatenarySolver::SolveHorizontalTensionFromTension() const {
   point_right.y = UpdateCatenaryTension(point_right.x, position_target_);
 
   // declares and initializes current point
-  Point2d<double> point_current;
+  Point2d<double> point_current = point_left;
 
   // iterates
   unsigned int iter = 0;
-- 
2.43.0


From 9d9858b4b6be5153a9d4c589274f0717aa79f6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:54 +0000
Subject: [PATCH 60/73] fix: keep the pulley tension positive in the search of
 the sag position corrector

A step to a negative tension ended the search at NaN, which was accepted as a solution
---
 src/sagging/cable_sag_position_corrector.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sagging/cable_sag_position_corrector.cc b/src/sagging/cable_sag_position_corrector.cc
index 1fbcae6..c30fe8d 100644
--- a/src/sagging/cable_sag_position_corrector.cc
+++ b/src/sagging/cable_sag_position_corrector.cc
@@ -3,6 +3,7 @@
 
 #include "models/sagging/cable_sag_position_corrector.h"
 
+#include <algorithm>
 #include <cmath>
 
 #include "models/transmissionline/catenary_solver.h"
@@ -339,6 +340,11 @@ bool CableSagPositionCorrector::UpdatePulleyState() const {
     point_current.x = point_left.x
                       + ((target_solution - point_left.y) / slope_line);
 
+    // keeps the tension positive if the line extrapolates too far
+    if (point_current.x <= 0) {
+      point_current.x = std::min(point_left.x, point_right.x) / 2;
+    }
+
     // gets current point y value
     if (SolvePulleyStateTensions(point_current.x) == false) {
       return false;
-- 
2.43.0


From 5890a17d5375c68a5b2883661b85e072275ffff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:36 +0000
Subject: [PATCH 61/73] fix: keep an imbalance that isn't a number from passing
 as balance in the position locator

---
 src/transmissionline/cable_position_locator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index be99c61..2f32b94 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -373,10 +373,11 @@ bool CablePositionLocator::SolveCablePosition() const {
   UpdatePointsCable();
 
   // iterates until the tension imbalance is within range
+  // an imbalance that isn't a number is never in range
   double tension_imbalance = -999999;
   int iter = 0;
   const double precision = 5;
-  while ((precision <= std::abs(tension_imbalance)) && (iter < 100)) {
+  while (!(std::abs(tension_imbalance) < precision) && (iter < 100)) {
     // updates hardware points
     // does a force balance at all points and gets the max tension imbalance
     tension_imbalance = UpdatePointsHardware();
@@ -545,7 +546,8 @@ double CablePositionLocator::UpdatePointsHardware() const {
 
     // updates the max tension imbalance
     const double tension_imbalance = solver_equilibrium.TensionImbalance();
-    if (tension_imbalance_max < tension_imbalance) {
+    if ((tension_imbalance_max < tension_imbalance)
+        || (std::isnan(tension_imbalance) == true)) {
       tension_imbalance_max = tension_imbalance;
     }
   }
-- 
2.43.0


From 1d797045128a3b06b05d0996a78826777a8016c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:29 +0000
Subject: [PATCH 62/73] fix: extrapolate the stretch of a component beyond its
 polynomial limit

A stretch load past the limit was placed on the polynomial where it no longer applies, so the stretched component didn't carry that load at that strain
---
 .../cable_component_elongation_model.cc          | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index ce87c73..61394ab 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -369,8 +369,20 @@ void CableComponentElongationModel::PointsRegions(
   // solves for the polynomial start point
   Point2d<double> point_polynomial_start;
   point_polynomial_start.y = load_stretch;
-  point_polynomial_start.x = StrainPolynomial(polynomial, strain_thermal,
-                                              point_polynomial_start.y);
+  if (load_stretch <= load_limit_polynomial) {
+    point_polynomial_start.x = StrainPolynomial(polynomial, strain_thermal,
+                                                point_polynomial_start.y);
+  } else {
+    // the component is stretched into the extrapolated region, so there is no
+    // polynomial region left
+    const double& modulus = (&polynomial == &polynomial_creep_)
+                            ? modulus_extrapolate_creep_
+                            : modulus_extrapolate_loadstrain_;
+    point_polynomial_start.x = StrainLinearExtension(point_polynomial_end,
+                                                     modulus,
+                                                     point_polynomial_start.y);
+    point_polynomial_end = point_polynomial_start;
+  }
 
   // solves for unloaded point
   Point2d<double> point_unloaded;
-- 
2.43.0


From c80830bd378a175fb195587a6bb3951d0954d96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:23 +0000
Subject: [PATCH 63/73] fix: report a transient temperature that diverges

With a cable that heats or cools by more than it can in a time step, the temperature
of the points oscillates with a growing amplitude until it isn't a number. The
solver still reported success, validated, and returned these points.
---
 src/thermalrating/transient_cable_temperature_solver.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/thermalrating/transient_cable_temperature_solver.cc b/src/thermalrating/transient_cable_temperature_solver.cc
index 264edfc..11904e0 100644
--- a/src/thermalrating/transient_cable_temperature_solver.cc
+++ b/src/thermalrating/transient_cable_temperature_solver.cc
@@ -3,6 +3,8 @@
 
 #include "models/thermalrating/transient_cable_temperature_solver.h"
 
+#include <cmath>
+
 #include "models/thermalrating/steady_cable_temperature_solver.h"
 
 TransientCableTemperatureSolver::TransientCableTemperatureSolver() {
@@ -251,6 +253,11 @@ bool TransientCableTemperatureSolver::UpdateTemperaturePoints() const {
 
       // calculates transient temperature
       point.temperature = TemperatureNew(point_prev->temperature, state, 1);
+
+      // exits if the time step is too long to follow the temperature
+      if (std::isfinite(point.temperature) == false) {
+        return false;
+      }
     }
 
     // adds to point list
-- 
2.43.0


From 9b5853ed78d512729ee901071708e77c207f5133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:32 +0000
Subject: [PATCH 64/73] fix: report a steady current that can't be solved

The resistance is extrapolated below the first temperature of a cable, where it
can become negative, and the current wasn't a number then. The solver still
reported success, and validated. The temperature solver iterated on this until
it ran out of iterations; it stops now.
---
 src/thermalrating/steady_cable_current_solver.cc     | 3 +++
 src/thermalrating/steady_cable_temperature_solver.cc | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/thermalrating/steady_cable_current_solver.cc b/src/thermalrating/steady_cable_current_solver.cc
index 85ef28b..c45bf33 100644
--- a/src/thermalrating/steady_cable_current_solver.cc
+++ b/src/thermalrating/steady_cable_current_solver.cc
@@ -152,6 +152,9 @@ bool SteadyCableCurrentSolver::IsUpdated() const {
 bool SteadyCableCurrentSolver::SolveCurrent() const {
   // gets the resistance of the cable at a specific temperature
   const double resistance_cable = cable_->Resistance(temperature_cable_);
+  if (resistance_cable <= 0) {
+    return false;
+  }
 
   // determines the current
   current_ = std::sqrt(std::abs(state_.heat_resistance) / resistance_cable);
diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index 3cc28ff..586b082 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -184,9 +184,12 @@ bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
   Point2d<double> point_current;
 
   // iterates
+  // stops if the current can't be solved for one of the points
+  bool is_solved = (point_left.y != -999999) && (point_right.y != -999999);
   unsigned int iter = 0;
   const int iter_max = 100;
-  while (0.1 < std::abs(point_left.x - point_right.x) && (iter <= iter_max)) {
+  while ((is_solved == true)
+      && 0.1 < std::abs(point_left.x - point_right.x) && (iter <= iter_max)) {
     // gets current point x value using left and right points
     // calculates tangent line between points, extrapolates using line
     double slope_line = (point_right.y - point_left.y)
@@ -198,6 +201,7 @@ bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
     // gets current point y value
     solver.set_temperature_cable(point_current.x);
     point_current.y = solver.Current();
+    is_solved = (point_current.y != -999999);
 
     // stops searching if the target is met exactly, or if the current point
     // is one of the boundary points, as the points can't be moved any closer
@@ -234,7 +238,7 @@ bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
   }
 
   // caches results and returns success status
-  if (iter < iter_max) {
+  if ((is_solved == true) && (iter < iter_max)) {
     state_ = solver.StateHeatTransfer();
     temperature_cable_ = point_current.x;
     return true;
-- 
2.43.0


From 5e674190c12f84e1868c6a4279ab472aef353ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:47 +0000
Subject: [PATCH 65/73] fix: report a stretch load that isn't found

The iterations for the stretch load of a constraint at the creep or load condition
end if the reloaded tension isn't a number, because that doesn't compare to the
precision. This was reported as a solution, and the line cable was reloaded and
unloaded with a stretch load that isn't a number.
---
 src/sagtension/line_cable_loader_base.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index 05ff07a..5e7018f 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -355,7 +355,9 @@ bool LineCableLoaderBase::UpdateConstraintCableModel() const {
   }
 
   // returns success status
-  if (iter < iter_max) {
+  // the stretch load isn't a solution if any of the reloads failed
+  if ((iter < iter_max) && (0 <= point_current.x)
+      && (std::abs(point_current.y - target_solution) <= precision)) {
     return true;
   } else {
     // re-initializes constraint model stretch
-- 
2.43.0


From c7b6a0017c5d185ac353bcd8962e55e924e0333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:47 +0000
Subject: [PATCH 66/73] fix: say which part of a reloader or unloader can't be
 solved

The base class updates the derived class too while it is validated. If it was the
derived class that couldn't be solved, the base class was reported as invalid
with an empty message, and the message of the derived class was never reached.
---
 src/sagtension/line_cable_loader_base.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index 5e7018f..5b3dd3d 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -89,7 +89,9 @@ bool LineCableLoaderBase::Validate(
   }
 
   // validates update process
-  if (Update() == false) {
+  // this also updates the derived class, which validates its own part
+  Update();
+  if (LineCableLoaderBase::IsUpdated() == false) {
     is_valid = false;
     if (messages != nullptr) {
       message.description = "";
-- 
2.43.0


From 0ff74610ecc9fbc77d31dba0f4588b67ff0adab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:47 +0000
Subject: [PATCH 67/73] fix: find the controlling constraint at any tension

The lowest reloaded tension was searched for below 999999. If all design constraints
were reloaded to more than that, there was no controlling constraint, but the search
was reported as successful, and the list of constraints was accessed outside of
its range.
---
 src/sagtension/line_cable_sagger.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/line_cable_sagger.cc b/src/sagtension/line_cable_sagger.cc
index 68150b9..d05400a 100644
--- a/src/sagtension/line_cable_sagger.cc
+++ b/src/sagtension/line_cable_sagger.cc
@@ -220,7 +220,7 @@ bool LineCableSagger::UpdateControllingConstraintIndex() const {
 
   // reloads each constraint in the collection and looks for the lowest
   // reloaded horizontal tension
-  double tension_horizontal_controlling = 999999;
+  double tension_horizontal_controlling = -999999;
   index_constraint_controlling_ = -9999;
 
   for (auto iter = constraints_design_->cbegin();
@@ -239,7 +239,8 @@ bool LineCableSagger::UpdateControllingConstraintIndex() const {
       return false;
     }
 
-    if (tension_horizontal < tension_horizontal_controlling) {
+    if ((index_constraint_controlling_ == -9999)
+        || (tension_horizontal < tension_horizontal_controlling)) {
       tension_horizontal_controlling = tension_horizontal;
       index_constraint_controlling_ = iter - constraints_design_->cbegin();
     }
-- 
2.43.0


From 17591261e7bee9a919110c284be39f06a9a104f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:33 +0000
Subject: [PATCH 68/73] fix: don't read past the load-strain points of a cable

A load that lies between no two of them (NaN, as for a reloaded catenary whose
tension overflows) made the search dereference the end of the list.
---
 src/sagtension/cable_elongation_model.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index cd00a0b..22f5e96 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -343,8 +343,8 @@ double CableElongationModel::StrainCombined(
   // load is between the points in the sorted collection
   } else {
     // searches for boundary region points
-    for (auto iter = points_regions_.cbegin(); iter != points_regions_.cend();
-         iter++) {
+    for (auto iter = points_regions_.cbegin();
+         iter != points_regions_.cend() - 1; iter++) {
       point_left = *iter;
       point_right = *(iter + 1);
 
-- 
2.43.0


From dfe4843f00b55157d89d1e514286e4715da40d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:33 +0000
Subject: [PATCH 69/73] fix: solve the catenary of light cables

The first two points of the search are closer than its precision if the lowest
tension of the span is below 0.1, and one of them was returned as the solution.
---
 src/transmissionline/catenary_solver.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/transmissionline/catenary_solver.cc b/src/transmissionline/catenary_solver.cc
index 50c1a3c..e468b2e 100644
--- a/src/transmissionline/catenary_solver.cc
+++ b/src/transmissionline/catenary_solver.cc
@@ -3,6 +3,7 @@
 
 #include "models/transmissionline/catenary_solver.h"
 
+#include <algorithm>
 #include <cmath>
 
 CatenarySolver::CatenarySolver() {
@@ -242,7 +243,10 @@ bool CatenarySolver::SolveHorizontalTensionFromLength() const {
   // iterates
   unsigned int iter = 0;
   const int iter_max = 100;
-  while (0.01 < std::abs(point_left.x - point_right.x) && (iter <= iter_max)) {
+  // the precision has to be within the initial distance of the points
+  const double precision = std::min(0.01, point_left.x * 0.01);
+  while (precision < std::abs(point_left.x - point_right.x)
+         && (iter <= iter_max)) {
     // gets current point x value using left and right points
     // calculates tangent line between points, extrapolates using line
     double slope_line = (point_right.y - point_left.y)
@@ -331,7 +335,10 @@ bool CatenarySolver::SolveHorizontalTensionFromSag() const {
   // iterates
   unsigned int iter = 0;
   const int iter_max = 100;
-  while (0.01 < std::abs(point_left.x - point_right.x) && (iter <= iter_max)) {
+  // the precision has to be within the initial distance of the points
+  const double precision = std::min(0.01, point_left.x * 0.01);
+  while (precision < std::abs(point_left.x - point_right.x)
+         && (iter <= iter_max)) {
     // gets current point x value using left and right points
     // calculates tangent line between points, extrapolates using line
     double slope_line = (point_right.y - point_left.y)
-- 
2.43.0


From 4b809b66a0878a281cb73b307d648a77cc5bd7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:50 +0000
Subject: [PATCH 70/73] fix: give a new polynomial no coefficients

The pointer was left uninitialized, so validating a new polynomial read
through it.
---
 src/base/polynomial.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/base/polynomial.cc b/src/base/polynomial.cc
index b1dbaf6..f44afa9 100644
--- a/src/base/polynomial.cc
+++ b/src/base/polynomial.cc
@@ -8,6 +8,7 @@
 #include "models/base/point.h"
 
 Polynomial::Polynomial() {
+  coefficients_ = nullptr;
   derivative_ = nullptr;
   is_updated_derivative_ = false;
 }
-- 
2.43.0


From 96bd27bd09e5f4534aa3f36123a8410d1a7bef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:01 +0000
Subject: [PATCH 71/73] fix: reject line cables without a component to model

LineCableLoaderBase modeled cables that have no component data, and crashed
when the constraint is for a stretched condition.
---
 src/sagtension/line_cable_loader_base.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index 5b3dd3d..2f392a4 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -128,6 +128,12 @@ void LineCableLoaderBase::set_line_cable(const LineCable* line_cable) {
 }
 
 bool LineCableLoaderBase::InitializeLineCableModels() const {
+  // checks that the cable has a component that can be modeled
+  if (cable_sagtension_.IsEnabled(
+      SagTensionCable::ComponentType::kCombined) == false) {
+    return false;
+  }
+
   // declares working variable
   // all models are initialized with zero stretch
   CableState state;
@@ -212,7 +218,10 @@ bool LineCableLoaderBase::Update() const {
     return false;
   }
 
-  InitializeLineCableModels();
+  is_updated_catenary_constraint_ = InitializeLineCableModels();
+  if (is_updated_catenary_constraint_ == false) {
+    return false;
+  }
 
   is_updated_catenary_constraint_ = UpdateConstraintCableModel();
   if (is_updated_catenary_constraint_ == false) {
-- 
2.43.0


From f10cd6280dae6c3928cd9a4e94458a372023d370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:10 +0000
Subject: [PATCH 72/73] fix: search the constraint stretch within the cable's
 polynomials

A secant step could extrapolate to a load the cable can't be stretched by. The
not-a-number that followed ended the search without a solution.
---
 src/sagtension/line_cable_loader_base.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index 2f392a4..3a212d2 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -336,6 +336,22 @@ bool LineCableLoaderBase::UpdateConstraintCableModel() const {
     point_current.y = reloader.CatenaryReloaded().TensionAverage()
                       - state_stretch.load;
 
+    // the line extrapolated too far, the cable can't be stretched by that load
+    // backs up towards the right point until it can be
+    while ((std::isnan(point_current.y) == true)
+        && (point_right.x < point_current.x) && (iter < iter_max)) {
+      point_current.x = (point_right.x + point_current.x) / 2;
+
+      state_stretch.load = point_current.x;
+      model_constraint_.set_state_stretch(state_stretch);
+      reloader.set_model_reference(&model_constraint_);
+
+      point_current.y = reloader.CatenaryReloaded().TensionAverage()
+                        - state_stretch.load;
+
+      iter++;
+    }
+
     // current point is left of left/right points
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
-- 
2.43.0


From 60ce15f95e40c65dc1045908f513dc0082988145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:40 +0000
Subject: [PATCH 73/73] fix: end the reloader's search when it hits the
 solution exactly

If the length difference was exactly zero the range between the points stopped
narrowing, and no solution was found, e.g. when nothing is reloaded and the
catenary constant equals the span.
---
 src/sagtension/catenary_cable_reloader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sagtension/catenary_cable_reloader.cc b/src/sagtension/catenary_cable_reloader.cc
index 7a2bece..b13a526 100644
--- a/src/sagtension/catenary_cable_reloader.cc
+++ b/src/sagtension/catenary_cable_reloader.cc
@@ -284,6 +284,11 @@ bool CatenaryCableReloader::SolveReloadedCatenaryTension() const {
     // gets current point length difference
     point_current.y = LengthDifference(point_current.x);
 
+    // exits if the solution is hit exactly, the range can't narrow around it
+    if (point_current.y == target_solution) {
+      break;
+    }
+
     // current point is left of left/right points
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
-- 
2.43.0

